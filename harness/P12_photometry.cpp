// Photometric bands and the joint fit of a spectrum and photometry.
#include "fit.h"

#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/operator/templatefittingwithphot.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/photometry/photometricdata.h"

using namespace fit;

namespace {
const double C_ANGSTROM = 299792458. * 1e10; // Angstrom per second

struct Band {
  std::string name;
  V x, t;
  double d = 0, e = 1; // measurement
  // photon-counting mean of a flux density given per Angstrom, in erg/s/cm2/Hz
  double mean(const V &f) const {
    long double s = 0, n = 0;
    for (size_t i = 1; i < x.size(); ++i) {
      long double dnu = (long double)C_ANGSTROM / x[i - 1] - (long double)C_ANGSTROM / x[i];
      auto a = [&](size_t j) { return (long double)t[j] * x[j]; };
      auto b = [&](size_t j) { return a(j) * f[j] * x[j] * x[j] / C_ANGSTROM; };
      s += (b(i) + b(i - 1)) / 2 * dnu;
      n += (a(i) + a(i - 1)) / 2 * dnu;
    }
    return s / n;
  }
};

Band makeBand(Ctx &g, const std::string &name, double lo, double hi) {
  Band b;
  b.name = name;
  size_t n = g.n(2, 25);
  b.x = n == 2 ? V{lo, hi} : anyAxis(g, lo, hi, n);
  int kind = g.i(0, 2);
  double s = g.pick({1., 0.3, 100.});
  for (size_t i = 0; i < n; ++i) {
    double u = (b.x[i] - lo) / (hi - lo);
    b.t.push_back(s * (kind == 0 ? 1. : kind == 1 ? 4 * u * (1 - u) + 1e-3 : g.f(0.01, 1)));
  }
  return b;
}

std::shared_ptr<CPhotBandCatalog> catalog(const std::vector<Band> &bands) {
  auto c = std::make_shared<CPhotBandCatalog>();
  for (auto &b : bands)
    c->Add(b.name, CPhotometricBand(b.t, b.x));
  return c;
}
std::shared_ptr<CPhotometricData> photData(const std::vector<Band> &bands) {
  TStringList n;
  V f, e;
  for (auto &b : bands) {
    n.push_back(b.name);
    f.push_back(b.d);
    e.push_back(b.e);
  }
  return std::make_shared<CPhotometricData>(n, f, e);
}

V bandModel(const Scene &s, const Tpl &t, const Band &b, double z, int kE, int m) {
  V f;
  for (double x : b.x)
    f.push_back(tplValue(s, t, z, x, kE, m));
  return f;
}

struct Joint {
  double S = 0, T = 0, C = 0, Sp = 0, Tp = 0, Cp = 0, a = 0, chi2 = 0, chi2p = 0;
};
Joint joint(const Scene &s, const std::vector<Band> &bands, double w, const Tpl &t, double z, int kE, int m) {
  long double S = 0, T = 0, C = 0, Sp = 0, Tp = 0, Cp = 0;
  const Obs &o = s.obs[0];
  for (size_t k = o.k0; k <= o.k1; ++k) {
    long double q = 1.L / o.d.e[k] / o.d.e[k], v = tplValue(s, t, z, o.d.x[k], kE, m);
    S += o.d.y[k] * o.d.y[k] * q;
    T += v * v * q;
    C += v * o.d.y[k] * q;
  }
  for (auto &b : bands) {
    long double q = (long double)w * w / b.e / b.e, v = b.mean(bandModel(s, t, b, z, kE, m));
    Sp += b.d * b.d * q;
    Tp += v * v * q;
    Cp += v * b.d * q;
  }
  Joint j;
  j.S = S + Sp;
  j.T = T + Tp;
  j.C = C + Cp;
  j.Sp = Sp;
  j.Tp = Tp;
  j.Cp = Cp;
  j.a = j.C / j.T;
  if (j.a < 0) // amplitudes are positive
    j.a = 0;
  j.chi2 = j.S + j.a * j.a * j.T - 2 * j.a * j.C;
  j.chi2p = j.Sp + j.a * j.a * j.Tp - 2 * j.a * j.Cp;
  return j;
}
bool bandInIgm(const Band &b, double z) { return b.x.front() / (1 + z) <= RESTLAMBDA_LYA; }

struct Setup {
  Scene s;
  std::vector<Band> bands;
};
// spectrum, bands around it, one or two templates covering everything
Setup makeSetup(Ctx &g, bool inside) {
  Setup u;
  Scene &s = u.s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, g.i(1, 3));
  double lo = g.pick({4000., 3600., 7000.}), hi = lo * g.pick({1.6, 1.4, 1.9});
  s.obs.push_back(makeObs(g, lo, hi, ""));
  Obs &o = s.obs[0];
  if (o.k1 >= o.d.x.size() || o.k1 < o.k0 + 2)
    g.discard();
  int nb = g.i(1, 4);
  for (int i = 0; i < nb; ++i) {
    double a = g.f(inside ? lo : 3000., hi), b = a * g.pick({1.1, 1.3, 1.02});
    if (inside) {
      a = std::max({a, o.lo, o.d.x.front()});
      b = std::min({b, o.hi, o.d.x.back()});
      if (b < a * 1.005)
        g.discard();
    }
    // names in an order unrelated to the wavelengths
    u.bands.push_back(makeBand(g, std::string(1, char('a' + (i * 7 + nb * 3) % 26)) + std::to_string(i), a, b));
  }
  for (int i = 0, n = g.i(1, 2); i < n; ++i)
    s.tpls.push_back(makeTpl(g, i, g.pick({300., 350.}), 20000., 80, 400));
  return u;
}
void makeFlux(Ctx &g, Setup &u, double z) {
  Scene &s = u.s;
  TFloat64Range r(s.obs[0].lo, s.obs[0].hi);
  s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
  s.igm.obj->convolveByLSF(constantResolutionLSF(s.R), r);
  double a = g.logf(0.1, 30) * g.pick({1., 1., 1., -1.});
  double photScale = g.pick({1., 1., 0.5, 3.}); // photometry off the spectrum
  int kE = g.i(0, s.dust.n - 1), m = g.i(-1, int(s.igm.curves[0].fluxcorr.size()) - 1), kind = g.i(0, 2);
  for (auto &o : s.obs)
    for (size_t k = 0; k < o.d.x.size(); ++k) {
      double noise = o.d.e[k] * ((k * 2654435761u % 1000) / 250. - 2.);
      o.d.y[k] = a * tplValue(s, s.tpls[0], z, o.d.x[k], kE, m) + (kind ? noise : 0.01);
    }
  int i = 0;
  for (auto &b : u.bands) {
    double f = b.mean(bandModel(s, s.tpls[0], b, z, kE, -1));
    b.e = std::fabs(f * a) * g.pick({0.01, 0.1, 1.}) + f * 1e-3;
    b.d = photScale * a * b.mean(bandModel(s, s.tpls[0], b, z, kE, m)) + (kind == 2 ? b.e * ((++i % 3) - 1.) : 0);
  }
  g.note("a ", a, " phot scale ", photScale, " ebmv ", kE, " igm ", m, " kind ", kind);
  s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
  s.phot = photData(u.bands);
}
} // namespace

// one band: photon-counting mean of the flux density per Hz
PROP("P12", band, 4000, 40000) {
  double lo = g.logf(1000, 20000);
  Band b = makeBand(g, "b", lo, lo * g.pick({1.01, 1.2, 3.}));
  size_t n = b.x.size();
  V f(n), h(n);
  for (size_t i = 0; i < n; ++i) {
    f[i] = g.f(-1, 3);
    h[i] = g.f(0, 1);
  }
  double sc = g.logf(1e-18, 1e3);
  g.notev("lambda", b.x);
  g.notev("transmission", b.t);
  g.notev("flux", f);
  CPhotometricBand band(b.t, b.x);
  REQUIRE_(band.GetWavelength() == b.x && band.GetTransmission() == b.t, "content", "");
  REQUIRE_(band.GetMinLambda() == b.x.front(), "min-lambda", "");
  auto size = [&](const V &y) {
    V a = y;
    for (auto &v : a)
      v = std::fabs(v);
    return b.mean(a);
  };
  double F = band.IntegrateFlux(f), H = band.IntegrateFlux(h);
  REQUIRE_CLOSE(F, b.mean(f), 0, 1e-11 * size(f), "mean", "");
  // linear
  V l(n);
  double u = g.f(-2, 2);
  for (size_t i = 0; i < n; ++i)
    l[i] = sc * (f[i] + u * h[i]);
  REQUIRE_CLOSE(band.IntegrateFlux(l), sc * (F + u * H), 0, 1e-11 * sc * (size(f) + std::fabs(u) * size(h)), "linear", "u=", u);
  // scale of the transmission
  V t2 = b.t;
  double ts = g.logf(1e-6, 1e6);
  for (auto &v : t2)
    v *= ts;
  REQUIRE_CLOSE(CPhotometricBand(t2, b.x).IntegrateFlux(f), F, 0, 1e-11 * size(f), "transmission-scale", "factor ", ts);
  // constant flux density per Hz
  V c(n);
  double lev = g.logf(1e-30, 1e2);
  for (size_t i = 0; i < n; ++i)
    c[i] = lev * C_ANGSTROM / b.x[i] / b.x[i];
  REQUIRE_CLOSE(band.IntegrateFlux(c), lev, 1e-11, 0, "constant", "");
  // a mean lies between the extremes
  double mn = INFINITY, mx = -INFINITY;
  for (size_t i = 0; i < n; ++i) {
    double v = f[i] * b.x[i] * b.x[i] / C_ANGSTROM;
    mn = std::min(mn, v);
    mx = std::max(mx, v);
  }
  REQUIRE_(F >= mn - 1e-11 * std::fabs(mn) && F <= mx + 1e-11 * std::fabs(mx), "between", mn, " ", F, " ", mx);
  // sizes
  V bad = f;
  bad.push_back(1.);
  REQUIRE_(throws([&] { band.IntegrateFlux(bad); }), "size-refused", "flux");
  REQUIRE_(throws([&] { CPhotometricBand(bad, b.x); }), "size-refused", "transmission");
  if (n > 3)
    g.nontrivial();
}

PROP("P12", photdata, 1500, 10000) {
  size_t n = g.n(0, 5);
  TStringList names;
  V f, e;
  for (size_t i = 0; i < n; ++i) {
    names.push_back("b" + std::to_string((i * 3) % 7));
    f.push_back(g.f(-2, 5));
    e.push_back(g.logf(1e-3, 1e3));
  }
  CPhotometricData d(names, f, e);
  auto got = d.GetNameList();
  auto want = names;
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  REQUIRE_(got == want, "names", "");
  for (size_t i = 0; i < n; ++i) {
    REQUIRE_(d.GetFlux(names[i]) == f[i] && d.GetFluxErr(names[i]) == e[i], "values", names[i]);
    REQUIRE_CLOSE(d.GetOneOverErr2(names[i]), 1 / (e[i] * e[i]), 1e-13, 0, "weights", names[i]);
  }
  V bad = e;
  bad.push_back(1.);
  REQUIRE_(throws([&] { CPhotometricData(names, f, bad); }), "size-refused", "");
  REQUIRE_(throws([&] { CPhotometricData(names, bad, e); }), "size-refused", "");
  // catalogue names by increasing wavelength
  std::vector<Band> bands;
  for (size_t i = 0; i < n; ++i) {
    double lo = g.f(1000, 9000);
    bands.push_back(makeBand(g, names[i], lo, lo * 1.3));
  }
  auto sorted = catalog(bands)->GetNameListSortedByLambda();
  auto plain = catalog(bands)->GetNameList();
  REQUIRE_(sorted.size() == n && plain.size() == n, "catalogue", "");
  std::map<std::string, double> lo;
  for (auto &b : bands)
    lo[b.name] = b.x.front();
  for (size_t i = 1; i < n; ++i)
    REQUIRE_(lo.at(sorted[i - 1]) <= lo.at(sorted[i]), "catalogue-order", sorted[i]);
  std::sort(sorted.begin(), sorted.end());
  REQUIRE_(sorted == want, "catalogue", "");
  if (n > 1)
    g.nontrivial();
}

PROP("P12", fit, 3000, 60000) {
  Setup u = makeSetup(g, false);
  Scene &s = u.s;
  const Obs &o = s.obs[0];
  V zs;
  for (int i = 0, n = g.i(1, 4); i < n; ++i)
    zs.push_back(g.pick({0., g.f(0., 1.), g.f(1., 4.), g.f(2., 5.)}));
  bool dustFit = g.b(), igmFit = g.b();
  double w = g.pick({1., 1., 0.3, 2., 10., 1e-3});
  g.note("spectrum ", o.d.x.size(), " [", o.d.x.front(), ",", o.d.x.back(), "] range [", o.lo, ",", o.hi, "] dust ", dustFit, " igm ", igmFit, " weight ", w);
  for (auto &b : u.bands)
    g.note("band ", b.name, " [", b.x.front(), ",", b.x.back(), "] ", b.x.size());
  g.notev("z", zs);
  g.notev("zbins", s.igm.zbins);
  makeFlux(g, u, zs[0]);
  if (std::all_of(o.d.y.begin() + o.k0, o.d.y.begin() + o.k1 + 1, [](double v) { return v == 0; }))
    g.discard();
  start(s, galaxyParams(s));
  int nIgm = s.igm.curves[0].fluxcorr.size();
  COperatorTemplateFittingPhot op(catalog(u.bands), w, zs);

  for (const Tpl &t : s.tpls) {
    for (double z : zs) {
      bool igm = igmInRange(s, t, z), light = false;
      for (auto &b : u.bands) {
        igm |= bandInIgm(b, z);
        if (b.x.front() / (1 + z) < t.x.front() || b.x.back() / (1 + z) > t.x.back())
          g.discard();
      }
      if ((dustFit || igmFit) && z < s.igm.zbins[0] && igm)
        g.discard();
      for (size_t k = o.k0; k <= o.k1; ++k) {
        if (!covered(o, t, z, k))
          g.discard();
        double v = 1;
        for (int m = 0; m < nIgm && igmFit; ++m)
          v = std::min(v, igmCoeff(s, m, z, o.d.x[k] / (1 + z)));
        light |= v > 0;
      }
      if (!light)
        g.discard();
    }
    auto r = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(t.obj, 1., "lin", igmFit, dustFit));
    REQUIRE_(bool(r) && r->Redshifts == zs, "redshifts", "");
    double cst = 0;
    for (size_t k = o.k0; k <= o.k1; ++k)
      cst += -0.5 * std::log(2 * M_PI) - std::log(o.d.e[k]);
    for (auto &b : u.bands)
      cst += -0.5 * std::log(2 * M_PI) - std::log(b.e / w);
    REQUIRE_CLOSE(r->CstLog, cst, 1e-11, 1e-9, "cstlog", "");

    for (size_t i = 0; i < zs.size(); ++i) {
      double z = zs[i];
      bool igmHere = false;
      size_t nIn = 0, sIn = 0;
      for (size_t k = o.k0; k <= o.k1; ++k)
        sIn += o.d.x[k] / (1 + z) <= RESTLAMBDA_LYA;
      for (auto &b : u.bands)
        nIn += bandInIgm(b, z);
      igmHere = igmFit && (sIn || nIn);
      std::vector<int> es{-1}, ms{-1};
      if (dustFit) {
        es.clear();
        for (int e = 0; e < s.dust.n; ++e)
          es.push_back(e);
      }
      if (igmFit) {
        ms.clear();
        for (int m = 0; m < nIgm; ++m)
          ms.push_back(m);
      }
      double best = INFINITY, scale = 0;
      REQUIRE_(r->ChiSquareIntermediate[i].size() == es.size(), "intermediate-size", "");
      for (size_t e = 0; e < es.size(); ++e) {
        REQUIRE_(r->ChiSquareIntermediate[i][e].size() == ms.size(), "intermediate-size", "");
        for (size_t m = 0; m < ms.size(); ++m) {
          Joint j = joint(s, u.bands, w, t, z, es[e], igmHere ? ms[m] : -1);
          double tol = 1e-10 * (j.S + j.a * j.a * j.T);
          scale = std::max(scale, tol);
          REQUIRE_CLOSE(r->ChiSquareIntermediate[i][e][m], j.chi2, 0, tol, "chi2", "z=", z, " ebmv ", es[e], " igm ", ms[m], " bands in IGM ", nIn, "/", u.bands.size());
          best = std::min(best, j.chi2);
        }
      }
      REQUIRE_CLOSE(r->ChiSquare[i], best, 0, scale, "best-chi2", "z=", z);
      int kE = dustFit ? int(std::lround((r->FitEbmvCoeff[i] - s.dust.start) / s.dust.step)) : -1;
      int kM = igmHere ? r->FitMeiksinIdx[i] : -1;
      REQUIRE_(igmHere || r->FitMeiksinIdx[i] == undefIdx, "igm-index", "");
      REQUIRE_(!igmHere || (kM >= 0 && kM < nIgm), "igm-index", kM);
      Joint j = joint(s, u.bands, w, t, z, kE, kM);
      REQUIRE_CLOSE(j.chi2, best, 0, 2 * scale, "options", "z=", z, " ebmv ", kE, " igm ", kM);
      REQUIRE_CLOSE(r->FitAmplitude[i], j.a, 1e-9, 1e-11 * std::sqrt(j.S / j.T), "amplitude", "z=", z);
      REQUIRE_CLOSE(r->FitAmplitudeError[i], 1 / std::sqrt(j.T), 1e-9, 0, "amplitude-error", "z=", z);
      REQUIRE_CLOSE(r->FitMtM[i], j.T, 1e-10, 0, "mtm", "z=", z);
      REQUIRE_CLOSE(r->FitDtM[i], j.C, 0, 1e-10 * std::sqrt(j.S * j.T), "dtm", "z=", z);
      REQUIRE_CLOSE(r->ChiSquarePhot[i], j.chi2p, 1e-8, 1e-9 * (j.Sp + j.a * j.a * j.Tp), "chi2-phot", "z=", z);
      // the model and its residuals
      auto models = std::make_shared<CModelSpectrumResult>();
      TPhotVal phot = op.ComputeSpectrumModel(t.obj, z, r->FitEbmvCoeff[i], r->FitMeiksinIdx[i], r->FitAmplitude[i], 1., 0, models);
      REQUIRE_(models->ModelFlux.size() == 1 && phot.size() == u.bands.size(), "model", phot.size());
      const V &f = models->ModelFlux.begin()->second;
      REQUIRE_(f.size() == o.d.x.size(), "model", "size ", f.size());
      long double chi2 = 0;
      for (size_t k = o.k0; k <= o.k1; ++k)
        chi2 += std::pow((o.d.y[k] - f[k]) / o.d.e[k], 2);
      for (auto &b : u.bands) {
        REQUIRE_(phot.count(b.name) == 1, "model", b.name);
        V v = bandModel(s, t, b, z, kE, kM);
        double want = r->FitAmplitude[i] * b.mean(v);
        REQUIRE_CLOSE(phot[b.name], want, 1e-9, 1e-300, "model-band", b.name, " z=", z, " amplitude ", r->FitAmplitude[i]);
        chi2 += w * w * std::pow((b.d - phot[b.name]) / b.e, 2);
      }
      REQUIRE_CLOSE(r->ChiSquare[i], double(chi2), 1e-9, 10 * scale, "model-chi2", "z=", z);
      if (igmHere) {
        g.label(nIn == u.bands.size() ? "igm-all-bands" : nIn ? "igm-some-bands" : "igm-no-band");
        if (!sIn)
          g.label("igm-bands-only");
      }
    }
  }
  g.nontrivial();
}

// no weight, no influence
PROP("P12", weight0, 600, 15000) {
  Setup u = makeSetup(g, false);
  Scene &s = u.s;
  const Obs &o = s.obs[0];
  V zs{g.f(0., 1.), g.f(0., 2.)};
  bool dustFit = g.b();
  g.notev("z", zs);
  makeFlux(g, u, zs[0]);
  if (std::all_of(o.d.y.begin() + o.k0, o.d.y.begin() + o.k1 + 1, [](double v) { return v == 0; }))
    g.discard();
  const Tpl &t = s.tpls[0];
  for (double z : zs) {
    bool igm = igmInRange(s, t, z);
    for (auto &b : u.bands)
      igm |= bandInIgm(b, z) || b.x.front() / (1 + z) < t.x.front() || b.x.back() / (1 + z) > t.x.back();
    if (igm)
      g.discard();
  }
  start(s, galaxyParams(s));
  COperatorTemplateFittingPhot op(catalog(u.bands), 0., zs);
  COperatorTemplateFitting ref(zs);
  auto a = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(t.obj, 1., "lin", false, dustFit));
  auto b = std::dynamic_pointer_cast<CTemplateFittingResult>(ref.Compute(t.obj, 1., "lin", false, dustFit));
  REQUIRE_CLOSE(a->CstLog, b->CstLog, 1e-12, 1e-12, "weight0-cstlog", "");
  for (size_t i = 0; i < zs.size(); ++i) {
    REQUIRE_CLOSE(a->ChiSquare[i], b->ChiSquare[i], 1e-12, 0, "weight0", "");
    REQUIRE_CLOSE(a->FitAmplitude[i], b->FitAmplitude[i], 1e-12, 0, "weight0", "");
    REQUIRE_CLOSE(a->ChiSquarePhot[i], 0., 0, 1e-12, "weight0-phot", "");
    REQUIRE_(a->FitEbmvCoeff[i] == b->FitEbmvCoeff[i], "weight0", "");
  }
  g.nontrivial();
}

// a heavier weight never fits the photometry worse; and bands seen outside the range of the spectrum are dimmed, not dark
PROP("P12", weights, 600, 15000) {
  Setup u = makeSetup(g, true);
  Scene &s = u.s;
  const Obs &o = s.obs[0];
  V zs{g.f(0., 1.2)};
  makeFlux(g, u, zs[0]);
  const Tpl &t = s.tpls[0];
  if (std::all_of(o.d.y.begin() + o.k0, o.d.y.begin() + o.k1 + 1, [](double v) { return v == 0; }) || igmInRange(s, t, zs[0]))
    g.discard();
  start(s, galaxyParams(s));
  V ws{0.};
  for (int i = 0; i < 3; ++i)
    ws.push_back(ws.back() + g.logf(0.01, 10));
  g.notev("weights", ws);
  double lastPhot = INFINITY, lastSpec = -INFINITY;
  for (double w : ws) {
    COperatorTemplateFittingPhot op(catalog(u.bands), w, zs);
    auto r = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(t.obj, 1., "lin", false, false));
    double a = r->FitAmplitude[0], ph = 0, S = 0;
    for (auto &b : u.bands) {
      double m = b.mean(bandModel(s, t, b, zs[0], -1, -1));
      ph += std::pow((b.d - a * m) / b.e, 2);
      S += b.d * b.d / b.e / b.e + a * a * m * m / b.e / b.e;
    }
    double sp = r->ChiSquare[0] - w * w * ph, tot = S * (1 + w * w) + r->ChiSquare[0];
    for (size_t k = o.k0; k <= o.k1; ++k)
      tot += std::pow(o.d.y[k] / o.d.e[k], 2);
    REQUIRE_(ph <= lastPhot + 1e-9 * S, "weight-monotonic", "weight ", w, " phot chi2 ", ph, " before ", lastPhot);
    REQUIRE_(sp >= lastSpec - 1e-9 * tot, "weight-monotonic", "weight ", w, " spectrum chi2 ", sp, " before ", lastSpec);
    lastPhot = ph;
    lastSpec = sp;
  }
  g.nontrivial();
}

PROP("P12", band_igm, 300, 3000) {
  Setup u = makeSetup(g, false);
  Scene &s = u.s;
  Obs &o = s.obs[0];
  u.bands.resize(1);
  double z = s.igm.zbins[0] + g.f(0, 1) * (std::min(4., s.igm.zbins.back()) - s.igm.zbins[0]);
  Band &b = u.bands[0];
  const Tpl &t = s.tpls[0];
  if (b.x.back() / (1 + z) > 1210. || b.x.front() / (1 + z) < s.igm.lambda.front() || b.x.front() / (1 + z) < t.x.front() ||
      z >= s.igm.zbins.back())
    g.discard();
  makeFlux(g, u, z);
  for (auto &y : o.d.y)
    y = 1 + std::fabs(y);
  g.note("z ", z, " band [", b.x.front(), ",", b.x.back(), "] range [", o.lo, ",", o.hi, "]");
  start(s, galaxyParams(s));
  COperatorTemplateFittingPhot op(catalog(u.bands), 1., V{z});
  auto models = std::make_shared<CModelSpectrumResult>();
  TPhotVal v = op.ComputeSpectrumModel(t.obj, z, -1., 0, 1., 1., 0, models);
  // the transmission of this table is bounded below
  double mn = 1;
  for (auto &c : s.igm.curves)
    for (double q : c.fluxcorr[0])
      mn = std::min(mn, q);
  double clear = b.mean(bandModel(s, t, b, z, -1, -1));
  g.nontrivial();
  REQUIRE_(v.at(b.name) <= clear * (1 + 1e-9), "band-igm-bright", v.at(b.name), " clear ", clear);
  bool outside = b.x.front() < std::max(o.lo, 0.) || b.x.back() > o.hi;
  if (outside)
    REQUIRE_(v.at(b.name) >= mn * clear * (1 - 1e-6), "igm-zero-outside", v.at(b.name), " minimum ", mn * clear);
  else
    REQUIRE_(v.at(b.name) >= mn * clear * (1 - 1e-6), "band-igm-dark", v.at(b.name), " minimum ", mn * clear);
}

PROP("P12", refusals, 600, 4000) {
  Setup u = makeSetup(g, false);
  Scene &s = u.s;
  double z = g.f(0, 1);
  makeFlux(g, u, z);
  Obs &o = s.obs[0];
  for (auto &y : o.d.y)
    y = 1 + std::fabs(y);
  int kind = g.i(0, 5);
  g.note("kind ", kind);
  g.label("refusal-" + std::to_string(kind));
  const Tpl &t = s.tpls[0];
  auto cat = catalog(u.bands);
  ErrorCode code{};
  std::string msg;
  auto expect = [&](std::function<void()> f, ErrorCode want, const char *what) {
    REQUIRE_(throws(f, &code, &msg), "refused", what);
    REQUIRE_(code == want, "refused-code", what, " ", msg);
  };
  if (kind == 0) {
    start(s, galaxyParams(s));
    expect([&] { COperatorTemplateFittingPhot(nullptr, 1., V{z}); }, ErrorCode::MISSING_PHOTOMETRIC_TRANSMISSION, "no catalogue");
    expect([&] { COperatorTemplateFittingPhot(std::make_shared<CPhotBandCatalog>(), 1., V{z}); },
           ErrorCode::MISSING_PHOTOMETRIC_TRANSMISSION, "empty catalogue");
  } else if (kind == 1) {
    s.phot = nullptr;
    start(s, galaxyParams(s));
    expect([&] { COperatorTemplateFittingPhot(cat, 1., V{z}); }, ErrorCode::MISSING_PHOTOMETRIC_DATA, "no data");
  } else if (kind == 2) { // a band was not measured
    auto some = u.bands;
    some.erase(some.begin() + g.n(0, some.size() - 1));
    s.phot = photData(some);
    start(s, galaxyParams(s));
    expect([&] { COperatorTemplateFittingPhot(cat, 1., V{z}); }, ErrorCode::MISSING_PHOTOMETRIC_DATA, "band missing");
  } else if (kind == 3) { // several spectra
    Obs p = o;
    o.id = "one";
    p.id = "two";
    s.obs.push_back(p);
    start(s, galaxyParams(s));
    expect([&] { COperatorTemplateFittingPhot(cat, 1., V{z}); }, ErrorCode::MULTIOBS_WITH_PHOTOMETRY_NOTIMPLEMENTED, "several spectra");
  } else { // more bands measured than used is fine; a band the template does not reach is not
    auto more = u.bands;
    more.push_back(makeBand(g, "zz", 5000, 6000));
    more.back().d = 1;
    s.phot = photData(more);
    bool out = kind == 5;
    if (out) {
      u.bands.push_back(makeBand(g, "yy", 20000 * (1 + z) * 0.95, 20000 * (1 + z) * 1.2));
      more.push_back(u.bands.back());
      s.phot = photData(more);
    }
    for (auto &b : u.bands)
      if (bandInIgm(b, z) || (b.name != "yy" && b.x.back() / (1 + z) > t.x.back()))
        g.discard();
    for (size_t k = o.k0; k <= o.k1; ++k)
      if (!covered(o, t, z, k))
        g.discard();
    start(s, galaxyParams(s));
    COperatorTemplateFittingPhot op(catalog(u.bands), 1., V{z});
    if (out)
      REQUIRE_(throws([&] { op.Compute(t.obj, 1., "lin", false, false); }), "refused", "band not covered");
    else
      op.Compute(t.obj, 1., "lin", false, false);
  }
  g.nontrivial();
}
