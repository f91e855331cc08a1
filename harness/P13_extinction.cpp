// Dust and IGM extinction of templates: laws, application, history independence, instrument response.
#include "fit.h"

using namespace fit;

namespace {
// dust table of any shape
Dust anyDust(Ctx &g) {
  Dust d;
  double lo = g.pick({900., 1250., 2000.25}), st = g.pick({1., 10., 0.7, 33.});
  size_t n = g.n(2, 60);
  d.lambda = linAxis(n, lo, st);
  for (size_t i = 0; i < n; ++i)
    d.k.push_back(g.chance(5) ? 0. : g.f(0., 15.));
  d.start = g.pick({0., 0.05, 0.3});
  d.step = g.pick({0.1, 0.25, 0.03});
  d.n = g.i(1, 6);
  d.obj = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(d.lambda, d.k), d.start, d.step, d.n);
  return d;
}

std::shared_ptr<CLSF> anyLSF(Ctx &g, double lo, double hi) {
  switch (g.i(0, 2)) {
  case 0: {
    double w = g.logf(0.6, 15);
    g.note("lsf width ", w);
    return constantWidthLSF(w);
  }
  case 1: {
    double r = g.logf(100, 2000);
    g.note("lsf R ", r);
    return constantResolutionLSF(r);
  }
  default: {
    size_t n = g.n(2, 6);
    V x = linAxis(n, lo, (hi - lo) / (n - 1)), w;
    x.back() = hi;
    for (size_t i = 0; i < n; ++i)
      w.push_back(g.logf(0.6, 15));
    g.notev("lsf table x", x);
    g.notev("w", w);
    return LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(x, w));
  }
  }
}
double widthOf(const CLSF &lsf, double lambda) { return lsf.GetWidth(lambda, true); }

// raw tables
struct Tables {
  V zbins, lambda;
  std::vector<MeiksinCorrection> curves;
};
Tables makeTables(Ctx &g, int maxIdx = 3) {
  Tables t;
  double lo = g.pick({1190., 1200., 1150., 1100.});
  t.zbins = g.pick({V{2., 3.}, V{0., 1.5, 3.}, V{1.5, 2., 2.5, 5.}});
  size_t n = size_t(std::floor((1218. - lo) / IGM_RAW_STEP));
  t.lambda = linAxis(n, lo, IGM_RAW_STEP);
  int nidx = g.i(1, maxIdx), kind = g.i(0, 2);
  for (size_t z = 0; z + 1 < t.zbins.size(); ++z) {
    std::vector<TFloat64List> c;
    for (int i = 0; i < nidx; ++i) {
      V f(n);
      double a = g.f(0.05, 1), p = g.f(0.5, 20), e = g.f(lo, 1216);
      for (size_t k = 0; k < n; ++k) {
        double l = t.lambda[k];
        f[k] = kind == 0 ? a : kind == 1 ? a * (0.6 + 0.4 * std::sin(l / p)) : (l < e ? a * 0.1 : a);
      }
      c.push_back(f);
    }
    t.curves.emplace_back(t.lambda, c);
  }
  return t;
}

// convolved value of a curve at sample i of the grid, NAN when undecided by rounding, -1 outside
double convolved(const Tables &t, size_t bin, size_t idx, size_t i, const CLSF &lsf, double obsLo, double obsHi) {
  const V &arr = t.curves[bin].fluxcorr[idx];
  double zlo = t.zbins[bin], zhi = t.zbins[bin + 1], zc = (zlo + zhi) / 2, x = t.lambda[i];
  double a = obsLo / (1 + zhi), b = obsHi / (1 + zlo);
  if (std::abs(x - a) < 2 * IGM_RAW_STEP || std::abs(x - b) < 2 * IGM_RAW_STEP)
    return NAN;
  if (x < a || x > b)
    return -1;
  double w = widthOf(lsf, x * (1 + zc)) / (1 + zc), half = w * N_SIGMA_SUPPORT / 2;
  long double s = 0, n = 0;
  for (size_t k = 0; k < arr.size(); ++k) {
    double u = t.lambda[k] - x;
    if (std::abs(std::abs(u) - half) < 1e-6)
      return NAN;
    if (std::abs(u) > half)
      continue;
    long double p = expl(-0.5L * u / w * u / w);
    s += p * arr[k];
    n += p;
  }
  return double(s / n);
}
} // namespace

PROP("P13", calzetti, 3000, 60000) {
  Dust d = anyDust(g);
  g.note("dust table from ", d.lambda.front(), " step ", d.lambda[1] - d.lambda[0], " n ", d.lambda.size(), " ebmv ", d.start, "+",
         d.step, "*k<", d.n);
  const auto &o = *d.obj;
  REQUIRE_(o.GetNPrecomputedEbmvCoeffs() == d.n, "dust-count", o.GetNPrecomputedEbmvCoeffs());
  REQUIRE_CLOSE(o.getLambdaMin(), d.lambda.front(), 0, 0, "dust-min", "");
  REQUIRE_CLOSE(o.getLambdaMax(), d.lambda.back(), 0, 0, "dust-max", "");
  int probes = g.i(1, 12);
  double st = d.lambda[1] - d.lambda[0];
  for (int p = 0; p < probes; ++p) {
    double x = 0;
    switch (g.i(0, 4)) {
    case 0:
      x = g.pickv(d.lambda);
      break;
    case 1:
      x = g.f(d.lambda.front(), d.lambda.back());
      break;
    case 2:
      x = g.pick({1., d.lambda.front() - 1e-6, d.lambda.back() + 1e-6, d.lambda.back() * 2});
      break;
    case 3:
      x = g.pickv(d.lambda) + st * g.pick({0.49, -0.49, 0.2, -0.2});
      break;
    default:
      x = d.lambda.back() - 1e-9 * st;
    }
    double frac = (x - d.lambda.front()) / st;
    if (std::abs(frac - std::floor(frac) - 0.5) < 1e-6)
      continue; // rounding tie
    // the table holds the last wavelength as a bound
    if (std::abs(x - d.lambda.back()) < 1e-12 * x && x != d.lambda.back())
      continue;
    double prev = 2;
    for (int k = 0; k < d.n; ++k) {
      double c = o.GetDustCoeff(k, x);
      g.nontrivial(x >= d.lambda.front() && x < d.lambda.back());
      REQUIRE_CLOSE(c, d.coeff(k, x), 1e-12, 0, "dust-law", "k=", k, " at ", x);
      REQUIRE_(c > 0 && c <= 1, "dust-range", c, " k=", k, " at ", x);
      REQUIRE_(c <= prev, "dust-monotone", c, " after ", prev, " k=", k, " at ", x);
      prev = c;
    }
    REQUIRE_(throws([&] { o.GetDustCoeff(d.n + g.i(0, 3), x); }), "dust-index", "index ", d.n, " accepted");
  }
  for (int k = 0; k < d.n; ++k) {
    REQUIRE_CLOSE(o.GetEbmvValue(k), d.start + k * d.step, 1e-14, 1e-300, "ebmv-value", "");
    REQUIRE_(o.GetEbmvIndex(o.GetEbmvValue(k)) == k, "ebmv-index", o.GetEbmvIndex(o.GetEbmvValue(k)), " k=", k);
    REQUIRE_(o.GetEbmvIndex(o.GetEbmvValue(k) + d.step * g.f(-0.49, 0.49)) == k, "ebmv-nearest", k);
  }
  // irregular tables are refused
  if (d.lambda.size() > 2) {
    V x = d.lambda;
    size_t i = g.n(1, x.size() - 1);
    x[i] += st * g.pick({0.3, -0.3, 1e-3, -1e-5});
    ErrorCode code;
    bool t = throws([&] { CalzettiCorrection(x, d.k); }, &code);
    REQUIRE_(t && code == ErrorCode::BAD_CALZETTICORR, "dust-irregular", "sample ", i, " moved, accepted");
  }
  // lists of options
  CTemplate tpl("t", "c", CSpectrumSpectralAxis(V{1000, 2000, 3000}), CSpectrumFluxAxis(V{1, 2, 3}));
  REQUIRE_(throws([&] { tpl.GetIsmIdxList(true); }), "list-missing", "");
  REQUIRE_(throws([&] { tpl.GetIgmIdxList(true); }), "list-missing", "");
  tpl.m_ismCorrectionCalzetti = d.obj;
  TInt32List e = tpl.GetIsmIdxList(true), all;
  for (int k = 0; k < d.n; ++k)
    all.push_back(k);
  REQUIRE_(e == all, "list-all", e.size());
  int k = g.i(0, d.n - 1);
  REQUIRE_(tpl.GetIsmIdxList(true, k) == TInt32List{k}, "list-one", k);
  REQUIRE_(tpl.GetIsmIdxList(false, k) == TInt32List{-1}, "list-none", k);
}

PROP("P13", igm, 500, 6000) {
  Tables t = makeTables(g);
  g.note("igm from ", t.lambda.front(), " bins ", t.zbins.size() - 1, " curves ", t.curves[0].fluxcorr.size());
  double zlo = t.zbins.front(), zhi = t.zbins.back();
  // observed range, possibly covering only a part of the curves
  double a = g.pick({1000., 3000., 4200.}), b = std::max(a * 1.2, g.pick({4000., 9000., 5000.}));
  g.note("range ", a, " ", b);
  auto lsf = anyLSF(g, a, b);
  CSpectrumFluxCorrectionMeiksin o(t.curves, t.zbins);
  o.convolveByLSF(lsf, TFloat64Range(a, b));
  REQUIRE_CLOSE(o.getLambdaMax(), 1216., 0, 0, "igm-max", "");
  REQUIRE_(o.getIdxCount() == Int32(t.curves[0].fluxcorr.size()), "igm-count", o.getIdxCount());
  size_t nb = t.curves.size(), ni = t.curves[0].fluxcorr.size();
  int inside = 0;
  for (int p = 0; p < 60; ++p) {
    size_t bin = g.n(0, nb - 1), idx = g.n(0, ni - 1), i = g.n(0, size_t((1216. - t.lambda.front()) / IGM_RAW_STEP));
    double x = t.lambda[i], ref = convolved(t, bin, idx, i, *lsf, a, b);
    if (std::isnan(ref))
      continue;
    // any redshift of the bin
    double z = t.zbins[bin] + (t.zbins[bin + 1] - t.zbins[bin]) * g.f(0.01, 0.99);
    if (bin + 1 == nb && g.b())
      z = zhi + g.pick({0., 0.5, 10.});
    double got = o.getCorrection(z, int(idx), x + IGM_RAW_STEP * g.pick({0., 0.3, -0.3}) * (i ? 1 : 0));
    if (x + 0.3 * IGM_RAW_STEP > 1216)
      continue;
    if (ref < 0) { // not convolved there
      g.label("outside");
      continue;
    }
    ++inside;
    REQUIRE_CLOSE(got, ref, 1e-9, 0, "igm-convolved", "z=", z, " curve ", idx, " lambda ", x);
    double mn = 2, mx = 0;
    for (double v : t.curves[bin].fluxcorr[idx])
      mn = std::min(mn, v), mx = std::max(mx, v);
    REQUIRE_(got >= mn * (1 - 1e-12) && got <= mx * (1 + 1e-12) && got <= 1 + 1e-12, "igm-bounds", got);
    // by indices, with the derivative
    REQUIRE_(o.getRedshiftIndex(z) == Int32(bin), "igm-bin", o.getRedshiftIndex(z), " z=", z);
    REQUIRE_(o.getWaveIndex(x) == Int32(i), "igm-wave", o.getWaveIndex(x), " at ", x);
    REQUIRE_CLOSE(o.getCorrection(Int32(bin), int(idx), Int32(i)), ref, 1e-9, 0, "igm-indices", "");
    auto d = o.getCorrectionAndDerivLbdaRest(z, int(idx), x);
    REQUIRE_CLOSE(std::get<0>(d), ref, 1e-9, 0, "igm-deriv-value", "");
    if (i > 0 && i + 1 < t.lambda.size()) {
      double r = (o.getCorrection(z, int(idx), t.lambda[i + 1]) - o.getCorrection(z, int(idx), t.lambda[i - 1])) / (2 * IGM_RAW_STEP);
      if (t.lambda[i + 1] < 1216)
        REQUIRE_CLOSE(std::get<1>(d), r, 1e-6, 1e-9, "igm-deriv", "at ", x);
    }
  }
  g.nontrivial(inside >= 5);
  // outside the tables
  int idx = g.i(0, int(ni) - 1);
  double zz = g.f(zlo, zhi);
  REQUIRE_CLOSE(o.getCorrection(zz, idx, 1216. + g.logf(1e-6, 1e4)), 1., 0, 0, "igm-above", "");
  if (zlo > 0) {
    REQUIRE_CLOSE(o.getCorrection(zlo * g.f(0, 0.999), idx, 1210.), 1., 0, 0, "igm-below-bins", "");
    REQUIRE_(o.getRedshiftIndex(zlo * 0.9) == undefIdx, "igm-below-index", "");
  }
  // wave vector of a range
  double r0 = g.f(t.lambda.front() - 20, 1215), r1 = r0 + g.logf(0.2, 30);
  if (r1 > t.lambda.front() + 1) {
    auto wc = o.getWaveAndCorrectionVector(TFloat64Range(r0, r1), zz, idx);
    REQUIRE_(wc.first.size() == wc.second.size() && !wc.first.empty(), "igm-vector", wc.first.size());
    for (size_t i = 0; i < wc.first.size(); ++i) {
      double x = wc.first[i];
      REQUIRE_(x >= r0 - 1e-6 && x <= r1 + 1e-6 && x >= t.lambda.front() && x <= t.lambda.back() + 1e-6, "igm-vector-range", x);
      if (x < 1215.9)
        REQUIRE_CLOSE(wc.second[i], o.getCorrection(zz, idx, x), 0, 0, "igm-vector-value", "at ", x);
      if (i)
        REQUIRE_CLOSE(x - wc.first[i - 1], IGM_RAW_STEP, 1e-6, 0, "igm-vector-step", "");
    }
    double lo = std::max(r0, t.lambda.front()), hi = std::min(r1, t.lambda.back());
    REQUIRE_(wc.first.front() - lo < IGM_RAW_STEP + 1e-6 && hi - wc.first.back() < IGM_RAW_STEP + 1e-6, "igm-vector-cover",
             wc.first.front(), " ", wc.first.back(), " for ", lo, " ", hi);
  }
}

namespace {
struct Model {
  V x;
  V base[3]; // raw, continuum, without
  int type = 0;
  bool on = false;
  int ks = 0, ke = -1, kend = -1, kd = -1, km = -1;
  double z = 0;
};
V fluxOf(const CTemplate &t) { return t.GetFluxAxis().GetSamplesVector(); }
} // namespace

PROP("P13", history, 5000, 60000) {
  Scene s;
  s.dust = makeDust(g);
  s.igm = makeIgm(g, g.pick({1190., 1150., 1000.}), g.i(1, 3));
  s.igm.obj->convolveByLSF(constantResolutionLSF(20000), TFloat64Range(300, 30000));
  const double igmMin = s.igm.zbins.front();
  Model m;
  m.x = anyAxis(g, g.pick({800., 1100., 1210., 1300.}), g.pick({1400., 2500., 6000.}), g.n(3, 40));
  m.base[0] = templateFlux(g, m.x);
  m.base[1] = V(m.x.size(), 0.);
  m.base[2] = m.base[0];
  auto tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(m.x), CSpectrumFluxAxis(m.base[0]));
  tpl->SetContinuumEstimationMethod(std::string("zero"));
  const CSpectrum::EType types[] = {CSpectrum::nType_raw, CSpectrum::nType_continuumOnly, CSpectrum::nType_noContinuum};
  g.notev("axis", m.x);
  bool haveIsm = false, haveIgm = false;
  int applied = 0, restored = 0;

  auto igmEnd = [&](int a, int b) {
    int e = -1;
    for (int k = a; k <= b; ++k)
      if (m.x[k] <= 1216.)
        e = k;
    return e;
  };
  auto check = [&](const char *op) {
    V f = fluxOf(*tpl);
    REQUIRE_(f.size() == m.x.size(), "size", op);
    REQUIRE_(tpl->GetSpectralAxis().GetSamplesVector() == m.x, "axis", op);
    REQUIRE_(tpl->CheckIsmIgmEnabled() == m.on, "enabled", op, " ", tpl->CheckIsmIgmEnabled());
    const V &b = m.base[m.type];
    if (!m.on) {
      for (size_t k = 0; k < f.size(); ++k)
        REQUIRE_(f[k] == b[k], "restored", op, " sample ", k, ": ", f[k], " for ", b[k]);
      return;
    }
    REQUIRE_(tpl->GetIsmCoeff() == m.kd && tpl->GetIgmCoeff() == m.km, "options", op, " ", tpl->GetIsmCoeff(), " ", tpl->GetIgmCoeff());
    auto r = tpl->GetIsmIgmRangeIndex();
    REQUIRE_(r.first == m.ks && r.second == m.ke, "range", op, " ", r.first, " ", r.second, " for ", m.ks, " ", m.ke);
    if (haveIgm)
      REQUIRE_(tpl->GetIgmEndIndex() == m.kend, "igm-end", op, " ", tpl->GetIgmEndIndex(), " for ", m.kend);
    const auto &cd = tpl->GetcomputedDustCoeffs(), &cm = tpl->GetcomputedMeiksinCoeffs();
    REQUIRE_(cd.size() == f.size() && cm.size() == f.size(), "coeff-size", op, " ", cd.size(), " ", cm.size());
    for (int k = 0; k < int(f.size()); ++k) {
      bool in = k >= m.ks && k <= m.ke;
      double d = in ? s.dust.coeff(m.kd, m.x[k]) : 1.;
      double i = in && k <= m.kend ? igmCoeff(s, m.km, m.z, m.x[k]) : 1.;
      REQUIRE_CLOSE(cd[k], d, 1e-12, 0, "dust-coeff", op, " sample ", k);
      REQUIRE_CLOSE(cm[k], i, 1e-12, 0, "igm-coeff", op, " sample ", k);
      REQUIRE_CLOSE(f[k], b[k] * d * i, 1e-12, 0, "flux", op, " sample ", k, " dust ", m.kd, " igm ", m.km);
      if (!in)
        REQUIRE_(f[k] == b[k], "flux-outside", op, " sample ", k);
    }
  };

  int nops = g.i(2, 16);
  for (int op = 0; op < nops; ++op) {
    int N = int(m.x.size());
    int kind = g.i(0, 15);
    if (op == 0 || (!m.on && kind > 2 && g.chance(70)))
      kind = 0;
    switch (kind) {
    case 0:
    case 1:
    case 2: {
      // (re)initialisation, with both, one or none of the corrections
      double z = g.pick({g.f(4, 9), g.f(0, 1), g.f(1, 4), g.f(3, 9), igmMin, 0.});
      int ks = 0, ke = N - 1;
      bool bad = false;
      auto d = g.chance(85) ? s.dust.obj : nullptr;
      auto i = g.chance(85) ? s.igm.obj : nullptr;
      bool ism = haveIsm || d, igm = haveIgm || i;
      int how = g.i(0, 2);
      TFloat64Range range;
      if (how == 1) {
        ks = g.i(-1, N);
        ke = g.i(std::max(ks, -1), N);
        bad = ks < 0 || ke < 0 || ks >= N || ke >= N;
      } else if (how == 2) {
        double lo = g.b() ? g.pickv(m.x) : g.f(m.x.front() - 100, m.x.back() + 100);
        double hi = g.b() ? g.pickv(m.x) : lo + g.logf(0.1, 3000);
        if (hi < lo)
          std::swap(lo, hi);
        range = TFloat64Range(lo, hi);
        ks = N;
        ke = -1;
        for (int k = 0; k < N; ++k)
          if (m.x[k] >= lo && m.x[k] <= hi) {
            ks = std::min(ks, k);
            ke = k;
          }
        if (ks > ke)
          bad = true;
      }
      bool refuse = bad || (!ism && !igm);
      bool noCurve = false;
      if (!refuse && igm && z < igmMin && igmEnd(ks, ke) >= 0)
        noCurve = true;
      if (noCurve) {
        if (g.b())
          break;
        g.label("no-curve");
      }
      g.note("init ", how, " ", ks, "-", ke, " z=", z, d ? " dust" : "", i ? " igm" : "");
      auto call = [&] {
        if (how == 0)
          tpl->InitIsmIgmConfig(z, d, i);
        else if (how == 1)
          tpl->InitIsmIgmConfig(ks, ke, z, d, i);
        else
          tpl->InitIsmIgmConfig(range, z, d, i);
      };
      bool t = throws(call);
      REQUIRE_(t == (refuse || noCurve), "init-refusal", "threw ", t, " z=", z, " ", ks, "-", ke);
      // a refused range keeps the extinction; the corrections given may have been kept (not with a lambda range)
      if (how != 2 || !bad) {
        haveIsm = ism;
        haveIgm = igm;
      }
      if (t) {
        if (!noCurve)
          break;
        // start again from a legal redshift
        z = s.igm.zbins.back() - 0.1;
        tpl->InitIsmIgmConfig(ks, ke, z);
      }
      m.on = true;
      m.ks = ks;
      m.ke = ke;
      m.kd = m.km = -1;
      m.z = z;
      m.kend = haveIgm ? igmEnd(ks, ke) : -1;
      if (m.z == igmMin) // the bin is settled by a comparison of the same numbers
        g.label("bin-edge");
      break;
    }
    case 3:
    case 4:
    case 5: {
      int k = g.i(-1, s.dust.n - 1);
      g.note("dust ", k);
      bool t = throws([&] { REQUIRE_(tpl->ApplyDustCoeff(k), "dust-return", k); });
      REQUIRE_(t == !(m.on && haveIsm), "dust-refusal", "threw ", t);
      if (!t) {
        m.kd = k;
        applied += k >= 0;
      }
      break;
    }
    case 6:
    case 7:
    case 8: {
      int k = g.i(-1, s.igm.obj->getIdxCount() - 1);
      g.note("igm ", k);
      bool t = throws([&] {
        bool r = tpl->ApplyMeiksinCoeff(k);
        REQUIRE_(r == (m.kend >= 0), "igm-return", r, " end ", m.kend);
      });
      REQUIRE_(t == !(m.on && haveIgm), "igm-refusal", "threw ", t);
      if (!t) {
        m.km = k;
        applied += k >= 0 && m.kend >= 0;
      }
      break;
    }
    case 9: {
      double a = g.pick({2., 0.5, -1., 1e-18, 0.3});
      g.note("amplitude ", a);
      tpl->ApplyAmplitude(a);
      for (auto &b : m.base)
        for (auto &v : b)
          v *= a;
      break;
    }
    case 10:
      g.note("disable");
      tpl->DisableIsmIgm();
      restored += m.on && applied;
      m.on = false;
      break;
    case 11: {
      int how = g.i(0, 3);
      g.note("copy ", how);
      if (how == 0)
        tpl = std::make_shared<CTemplate>(*tpl);
      else if (how == 1) {
        auto o = std::make_shared<CTemplate>("o", "other", CSpectrumSpectralAxis(m.x), CSpectrumFluxAxis(V(m.x.size(), 3.)));
        if (g.b())
          o->InitIsmIgmConfig(s.igm.zbins.back(), s.dust.obj, s.igm.obj);
        *o = *tpl;
        tpl = o;
      } else if (how == 2)
        tpl = std::make_shared<CTemplate>(std::move(*tpl));
      else {
        auto o = std::make_shared<CTemplate>("o", "other");
        *o = std::move(*tpl);
        tpl = o;
      }
      REQUIRE_(tpl->GetName() == "t" && tpl->GetCategory() == "galaxy", "name", tpl->GetName(), " ", tpl->GetCategory());
      break;
    }
    case 12: {
      V mask(N, 1.);
      int nm = g.i(1, std::max(1, N / 2)), first = g.i(0, N - 1);
      for (int k = first; k < std::min(N, first + nm); ++k)
        if (g.chance(80))
          mask[k] = 0;
      if (g.chance(20))
        for (int k = 0; k < N; ++k)
          if (m.on && k >= m.ks && k <= m.ke)
            mask[k] = 0;
      int left = 0;
      for (double v : mask)
        left += v != 0;
      if (left < 3)
        break;
      g.notev("mask", mask, 40);
      auto o = std::make_shared<CTemplate>(*tpl, mask);
      Model old = m;
      m.x.clear();
      for (auto &b : m.base)
        b.clear();
      int ks = -1, ke = -1;
      for (int k = 0; k < N; ++k)
        if (mask[k] != 0) {
          if (m.on && k >= old.ks && k <= old.ke) {
            if (ks < 0)
              ks = int(m.x.size());
            ke = int(m.x.size());
          }
          m.x.push_back(old.x[k]);
          for (int c = 0; c < 3; ++c)
            m.base[c].push_back(old.base[c][k]);
        }
      if (m.on) {
        m.ks = ks;
        m.ke = ke;
        if (ks < 0) {
          m.on = false;
          g.label("range-masked");
        } else
          m.kend = old.kend >= 0 ? igmEnd(ks, ke) : -1;
      }
      tpl = o;
      break;
    }
    case 13: {
      V y = templateFlux(g, m.x);
      g.note("new flux");
      tpl->SetFluxAxis(CSpectrumFluxAxis(y));
      if (m.type != 0) { // sets the raw flux of the current view only
        m.type = 0;
        tpl->SetType(CSpectrum::nType_raw);
        tpl->SetFluxAxis(CSpectrumFluxAxis(y));
      }
      m.base[0] = m.base[2] = y;
      m.base[1] = V(y.size(), 0.);
      m.on = false;
      tpl->SetContinuumEstimationMethod(std::string("zero"));
      break;
    }
    case 14: {
      int t = g.i(0, 2);
      g.note("type ", t);
      if (t == m.type)
        break;
      const auto &c = std::as_const(*tpl);
      if (m.on)
        REQUIRE_(throws([&] { c.SetType(types[t]); }), "const-type", "");
      tpl->SetType(types[t]);
      restored += m.on && applied;
      m.on = false;
      m.type = t;
      break;
    }
    default: {
      V x = m.x;
      double a = g.f(1, 1.2);
      for (auto &v : x)
        v *= a;
      g.note("spectral axis x ", a);
      CSpectrumSpectralAxis ax(x);
      if (g.b())
        tpl->SetSpectralAxis(ax);
      else
        tpl->SetSpectralAxis(CSpectrumSpectralAxis(x));
      restored += m.on && applied;
      m.on = false;
      m.x = x;
    }
    }
    check(("op " + std::to_string(op) + " kind " + std::to_string(kind)).c_str());
  }
  g.nontrivial(applied >= 2);
  if (restored)
    g.label("restored");
}

// the corrections of a processed source are those of its own instrument response and ranges
PROP("P13", context, 150, 2500) {
  Tables t = makeTables(g, 2);
  int nsrc = g.i(1, 3), nobs = g.i(1, 2);
  g.note("sources ", nsrc, " observations ", nobs, " igm from ", t.lambda.front(), " bins ", t.zbins.size() - 1);
  Scene s;
  s.dust = makeDust(g);
  s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(t.curves, t.zbins);
  s.cat = std::make_shared<CTemplateCatalog>();
  s.cat->Add(makeTemplate("t", "galaxy", linAxis(50, 1000, 100), V(50, 1.)));
  double lo = g.pick({3000., 3300., 3900.});
  std::vector<Obs> obs;
  std::vector<std::pair<double, double>> ranges;
  for (int k = 0; k < nobs; ++k) {
    double a = k == 0 ? lo : lo * g.pick({1.3, 1.1, 1.6}), b = a * g.pick({1.5, 1.25, 2.});
    obs.push_back(makeObs(g, a, b, nobs > 1 ? std::string(1, 'a' + k) : "", 40, 80));
    obs.back().d.y = templateFlux(g, obs.back().d.x);
    g.note("observation ", obs.back().id, " ", obs.back().lo, "-", obs.back().hi, " of ", a, "-", b);
  }
  s.obs = obs;
  Params p = galaxyParams(s);
  if (nobs > 1) {
    p.t.erase("lambdaRange");
    for (auto &o : obs)
      p.list("lambdaRange." + o.id, V{o.lo, o.hi});
  } else
    p.list("lambdaRange", V{obs[0].lo, obs[0].hi});
  p.set("lsf.lsfType", "fromSpectrumData");
  freshContext(p, s.dust, s.igm, s.cat);
  for (int src = 0; src < nsrc; ++src) {
    std::vector<std::shared_ptr<CLSF>> lsfs;
    Context.setTemplateCatalog(s.cat); // forgotten by the reset
    for (auto &o : obs) {
      lsfs.push_back(anyLSF(g, o.d.x.front(), o.d.x.back()));
      Context.addSpectrum(makeSpectrum(o.d, lsfs.back(), "spc" + std::to_string(src), o.id));
    }
    Context.Init();
    auto igm = s.igm.obj;
    int done = 0;
    for (int q = 0; q < 40; ++q) {
      size_t bin = g.n(0, t.curves.size() - 1), idx = g.n(0, t.curves[0].fluxcorr.size() - 1);
      size_t i = g.n(0, size_t((1216. - t.lambda.front()) / IGM_RAW_STEP) - 1);
      double ref = -1;
      for (size_t k = 0; k < obs.size() && ref == -1; ++k) {
        auto r = Context.GetLambdaRange(int(k));
        ref = convolved(t, bin, idx, i, *lsfs[k], r->GetBegin(), r->GetEnd());
      }
      if (std::isnan(ref) || ref == -1)
        continue;
      ++done;
      double got = igm->getCorrection(Int32(bin), int(idx), Int32(i));
      REQUIRE_CLOSE(got, ref, 1e-9, 0, "own-response", "source ", src, " bin ", bin, " curve ", idx, " lambda ", t.lambda[i]);
    }
    // every sample of every observation has a transmission
    for (size_t k = 0; k < obs.size(); ++k) {
      auto r = Context.GetLambdaRange(int(k));
      for (double x : obs[k].d.x) {
        if (x < r->GetBegin() || x > r->GetEnd())
          continue;
        double z = g.f(t.zbins.front(), t.zbins.back()), rest = x / (1 + z);
        if (rest < t.lambda.front() || rest > 1216)
          continue;
        REQUIRE_(igm->getCorrection(z, 0, rest) > 0, "positive", "observation ", k, " at ", x, " z=", z);
      }
    }
    g.nontrivial(done >= 3 && (src > 0 || nobs > 1));
    Context.reset();
  }
}
