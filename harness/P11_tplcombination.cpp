// Combination of templates against a long double least-squares solution.
#include "fit.h"

#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/tplcombination.h"
#include "RedshiftLibrary/operator/tplcombinationresult.h"

using namespace fit;

namespace {
typedef std::vector<long double> L;

struct Sol {
  double chi2 = 0;
  V a, err;
  std::vector<V> cov;
  bool full = true; // rank
  double cond = 1;
};

// weighted least squares by Gram-Schmidt with reorthogonalisation; nearly dependent columns are dropped
Sol solve(const std::vector<L> &X, const L &y) {
  size_t m = X.size(), n = y.size();
  std::vector<L> Q(m, L(n)), R(m, L(m, 0)), Ri(m, L(m, 0));
  L r = y, qy(m, 0);
  Sol s;
  for (size_t j = 0; j < m; ++j) {
    L v = X[j];
    long double n0 = 0, n1 = 0;
    for (auto t : v)
      n0 += t * t;
    for (int pass = 0; pass < 2; ++pass)
      for (size_t i = 0; i < j; ++i) {
        long double d = 0;
        for (size_t k = 0; k < n; ++k)
          d += Q[i][k] * v[k];
        R[i][j] += d;
        for (size_t k = 0; k < n; ++k)
          v[k] -= d * Q[i][k];
      }
    for (auto t : v)
      n1 += t * t;
    if (n1 <= n0 * 1e-20L) {
      s.full = false;
      R[j][j] = 0;
      continue;
    }
    s.cond = std::max(s.cond, double(std::sqrt(n0 / n1)));
    R[j][j] = std::sqrt(n1);
    for (size_t k = 0; k < n; ++k)
      Q[j][k] = v[k] / R[j][j];
    for (int pass = 0; pass < 2; ++pass) {
      long double d = 0;
      for (size_t k = 0; k < n; ++k)
        d += Q[j][k] * r[k];
      qy[j] += d;
      for (size_t k = 0; k < n; ++k)
        r[k] -= d * Q[j][k];
    }
  }
  long double c = 0;
  for (auto t : r)
    c += t * t;
  s.chi2 = c;
  if (!s.full)
    return s;
  L a(m, 0);
  for (size_t j = m; j-- > 0;) {
    long double v = qy[j];
    for (size_t i = j + 1; i < m; ++i)
      v -= R[j][i] * a[i];
    a[j] = v / R[j][j];
  }
  for (size_t c2 = 0; c2 < m; ++c2) // inverse of R
    for (size_t j = c2 + 1; j-- > 0;) {
      long double v = j == c2 ? 1 : 0;
      for (size_t i = j + 1; i <= c2; ++i)
        v -= R[j][i] * Ri[i][c2];
      Ri[j][c2] = v / R[j][j];
    }
  s.a.assign(a.begin(), a.end());
  s.cov.assign(m, V(m, 0.));
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < m; ++j) {
      long double v = 0;
      for (size_t k = 0; k < m; ++k)
        v += Ri[i][k] * Ri[j][k];
      s.cov[i][j] = v;
    }
  for (size_t i = 0; i < m; ++i)
    s.err.push_back(std::sqrt(s.cov[i][i]));
  return s;
}

Sol reference(const Scene &s, size_t nt, double z, int kE, int m) {
  const Obs &o = s.obs[0];
  std::vector<L> X(nt);
  L y;
  for (size_t k = o.k0; k <= o.k1; ++k) {
    if (!covered(o, s.tpls[0], z, k))
      continue;
    y.push_back((long double)o.d.y[k] / o.d.e[k]);
    for (size_t t = 0; t < nt; ++t)
      X[t].push_back((long double)tplValue(s, s.tpls[t], z, o.d.x[k], kE, m) / o.d.e[k]);
  }
  return solve(X, y);
}

} // namespace

PROP("P11", fit, 2500, 40000) {
  Scene s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, g.i(1, 3));
  double lo = g.pick({4000., 3500., 7000.});
  s.obs.push_back(makeObs(g, lo, lo * g.pick({1.5, 1.2, 1.9}), "", 12, 80));
  Obs &o = s.obs[0];
  g.note("obs ", o.d.x.size(), " samples [", o.d.x.front(), ",", o.d.x.back(), "] range [", o.lo, ",", o.hi, "] samples ", o.k0, "..", o.k1);
  if (o.k1 < o.k0 + 8 || o.k1 >= o.d.x.size())
    g.discard();
  bool partial = g.chance(20);
  double zp = g.f(0, 2);
  size_t nt = g.n(1, 4);
  for (size_t i = 0; i < nt; ++i) {
    if (i) {
      Tpl t;
      t.name = "tpl" + std::to_string(i);
      t.x = s.tpls[0].x;
      t.y = templateFlux(g, t.x);
      for (size_t k = 0; k < t.x.size(); ++k) // not the same shape
        t.y[k] *= 1.2 + std::sin(i * 2.3 + t.x[k] / (t.x.back() / (20. + 13 * i)));
      t.obj = makeTemplate(t.name, "galaxy", t.x, t.y);
      s.tpls.push_back(t);
    } else if (partial) {
      double a = lo * g.f(0.9, 1.1), b = std::max(a * 1.05, o.d.x.back() * g.f(0.9, 1.1));
      s.tpls.push_back(makeTpl(g, 0, a / (1 + zp), b / (1 + zp), 30, 200));
    } else
      s.tpls.push_back(makeTpl(g, 0, g.pick({300., 400.}), g.pick({20000., 18000.}), 80, 500));
  }
  bool twin = nt > 1 && g.chance(10); // nearly dependent templates
  if (twin) {
    for (size_t k = 0; k < s.tpls[0].x.size(); ++k)
      s.tpls[nt - 1].y[k] = 2. * s.tpls[0].y[k] * (1 + 1e-3 * std::sin(k * 0.7));
    s.tpls[nt - 1].obj = makeTemplate(s.tpls[nt - 1].name, "galaxy", s.tpls[0].x, s.tpls[nt - 1].y);
  }
  V zs;
  int nz = g.i(1, 4);
  for (int i = 0; i < nz; ++i)
    zs.push_back(partial ? zp : g.pick({0., g.f(0., 1.), g.f(1., 4.), g.f(3., 7.)}));
  if (partial)
    zs = {zp};
  double unit = g.pick({1., 1e-18, 1e5}); // the data may be in any unit
  for (auto &e : o.d.e)
    e *= unit;
  {
    TFloat64Range r(o.lo, o.hi);
    s.igm.obj->convolveByLSF(constantResolutionLSF(s.R), r);
    int kind = g.i(0, 2), kE = g.i(0, s.dust.n - 1), m = g.i(-1, int(s.igm.curves[0].fluxcorr.size()) - 1);
    V amp;
    for (size_t t = 0; t < nt; ++t)
      amp.push_back(g.pick({1., 0., 3., -0.5, 0.01}) * unit);
    for (size_t k = 0; k < o.d.x.size(); ++k) {
      double v = 0, noise = o.d.e[k] * ((k * 2654435761u % 1000) / 250. - 2.);
      for (size_t t = 0; t < nt; ++t)
        if (covered(o, s.tpls[t], zs[0], k) || !partial)
          v += amp[t] * tplValue(s, s.tpls[t], zs[0], o.d.x[k], kE, m);
      o.d.y[k] = kind == 2 ? 10 * noise + unit : v + (kind ? noise : 0) + 1e-3 * unit;
    }
    s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
    g.note("flux ", kind, " unit ", unit, " ebmv ", kE, " igm ", m);
    g.notev("amplitudes", amp);
  }
  g.notev("z", zs);
  g.notev("zbins", s.igm.zbins);
  bool dustFit = g.b(), igmFit = g.b();
  int nIgm = s.igm.curves[0].fluxcorr.size();
  int fixE = dustFit && g.chance(25) ? g.i(0, s.dust.n - 1) : undefIdx;
  int fixM = igmFit && g.chance(25) ? g.i(0, nIgm - 1) : undefIdx;
  g.note("templates ", nt, twin ? " twin" : "", " [", s.tpls[0].x.front(), ",", s.tpls[0].x.back(), "] dust ", dustFit, " igm ", igmFit, " fixE ", fixE,
         " fixM ", fixM);
  double thr = partial ? g.pick({0.3, 0.8, 1.}) : 1.;
  start(s, galaxyParams(s));
  auto spc = Context.GetSpectrum();

  double minFrac = 1;
  for (double z : zs) {
    int c = 0, tot = 0;
    bool dark = true;
    for (size_t k = o.k0; k <= o.k1; ++k) {
      double rest = o.d.x[k] / (1 + z), e = std::min(std::fabs(rest / s.tpls[0].x.front() - 1), std::fabs(rest / s.tpls[0].x.back() - 1));
      if (e < 1e-12)
        g.discard();
      if (covered(o, s.tpls[0], z, k)) {
        ++c;
        for (int m = 0; m < nIgm && igmFit; ++m)
          dark &= igmCoeff(s, m, z, rest) <= 0;
        dark &= igmFit;
      }
      ++tot;
    }
    minFrac = std::min(minFrac, double(c) / tot);
    if (c && (c < int(nt) + 1 || dark))
      g.discard();
    if ((dustFit || igmFit) && z < s.igm.zbins[0] && igmInRange(s, s.tpls[0], z))
      g.discard();
  }

  TTemplateConstRefList list;
  std::shared_ptr<CTplCombinationResult> prev;
  COperatorTplcombination op;
  size_t first = g.b() ? 1 : nt;
  V sorted = zs;
  std::sort(sorted.begin(), sorted.end());
  for (size_t n = first; n <= nt; ++n) {
    list.clear();
    for (size_t t = 0; t < n; ++t)
      list.push_back(s.tpls[t].obj);
    std::shared_ptr<CTplCombinationResult> r;
    std::string msg;
    ErrorCode code;
    bool refused = throws(
        [&] {
          r = std::dynamic_pointer_cast<CTplCombinationResult>(op.Compute(*spc, list, TFloat64Range(o.lo, o.hi), zs, thr, {}, "lin", igmFit,
                                                                          dustFit, CPriorHelper::TPriorZEList(), fixE, fixM));
        },
        &code, &msg);
    bool must = minFrac < thr || minFrac <= 0;
    REQUIRE_(refused == must, "refusal", "covered fraction ", minFrac, " threshold ", thr, " refused ", refused, " ", msg);
    if (refused) {
      REQUIRE_(code == ErrorCode::OVERLAPFRACTION_NOTACCEPTABLE, "refusal", msg);
      g.label("refused");
      return;
    }
    REQUIRE_(bool(r) && r->Redshifts == sorted, "redshifts", "");
    double cst = 0;
    for (size_t k = o.k0; k <= o.k1; ++k)
      cst += -0.5 * std::log(2 * M_PI) - std::log(o.d.e[k]);
    REQUIRE_CLOSE(r->CstLog, cst, 1e-11, 1e-9, "cstlog", "");
    std::vector<int> es, ms;
    if (!dustFit)
      es = {-1};
    else if (fixE != undefIdx)
      es = {fixE};
    else
      for (int e = 0; e < s.dust.n; ++e)
        es.push_back(e);
    if (!igmFit)
      ms = {-1};
    else if (fixM != undefIdx)
      ms = {fixM};
    else
      for (int m = 0; m < nIgm; ++m)
        ms.push_back(m);
    double S = 0;
    for (size_t k = o.k0; k <= o.k1; ++k)
      if (covered(o, s.tpls[0], zs[0], k) || !partial)
        S += o.d.y[k] * o.d.y[k] / o.d.e[k] / o.d.e[k];
    double tol = 1e-9 * S;
    for (size_t i = 0; i < sorted.size(); ++i) {
      double z = sorted[i];
      bool igmHere = false;
      for (size_t k = o.k0; k <= o.k1; ++k)
        igmHere |= covered(o, s.tpls[0], z, k) && o.d.x[k] / (1 + z) <= RESTLAMBDA_LYA;
      igmHere = igmHere && igmFit;
      double best = INFINITY;
      bool illcond = false;
      for (size_t e = 0; e < es.size(); ++e)
        for (size_t m = 0; m < ms.size(); ++m) {
          Sol b = reference(s, n, z, es[e], igmHere ? ms[m] : -1);
          if (b.cond > 1e6 || !b.full)
            g.discard();
          REQUIRE_CLOSE(r->ChiSquareIntermediate[i][e][m], b.chi2, 0, tol, "chi2", n, " templates, z=", z, " ebmv ", es[e], " igm ", ms[m], " condition ", b.cond);
          best = std::min(best, b.chi2);
          illcond |= b.cond > 1e4 || !b.full;
        }
      REQUIRE_CLOSE(r->ChiSquare[i], best, 0, tol, "best-chi2", n, " templates, z=", z);
      if (prev)
        REQUIRE_(r->ChiSquare[i] <= prev->ChiSquare[i] + 2 * tol, "more-templates", "z=", z, ": ", r->ChiSquare[i], " with ", n, " templates, ",
                 prev->ChiSquare[i], " with one less");
      int kE = -1;
      if (dustFit) {
        kE = int(std::lround((r->FitEbmvCoeff[i] - s.dust.start) / s.dust.step));
        REQUIRE_CLOSE(r->FitEbmvCoeff[i], s.dust.start + kE * s.dust.step, 1e-9, 1e-9, "ebmv", "z=", z);
      } else
        REQUIRE_(r->FitEbmvCoeff[i] == -1., "ebmv", "no dust but ", r->FitEbmvCoeff[i]);
      int kM = r->FitMeiksinIdx[i];
      REQUIRE_(igmHere || kM == undefIdx, "igm-index", "no IGM at z=", z, " but ", kM);
      if (igmHere)
        REQUIRE_(std::find(ms.begin(), ms.end(), kM) != ms.end(), "igm-index", "z=", z, " index ", kM);
      Sol b = reference(s, n, z, kE, igmHere ? kM : -1);
      REQUIRE_CLOSE(b.chi2, best, 0, 2 * tol, "options", "z=", z, " ebmv ", kE, " igm ", kM);
      const auto &a = r->FitAmplitude[i];
      REQUIRE_(a.size() == n && r->FitAmplitudeError[i].size() == n && r->FitAmplitudeSigma[i].size() == n, "amplitudes", "size");
      if (!illcond) {
        double scale = std::sqrt(S + 1.);
        for (size_t t = 0; t < n; ++t) {
          REQUIRE_CLOSE(a[t], b.a[t], 1e-7, 1e-9 * b.err[t] * scale, "amplitude", "z=", z, " template ", t, " ebmv ", kE, " igm ", kM);
          REQUIRE_CLOSE(r->FitAmplitudeError[i][t], b.err[t], 1e-6, 0, "amplitude-error", "z=", z, " template ", t);
          REQUIRE_CLOSE(r->FitAmplitudeSigma[i][t], b.a[t] / b.err[t], 1e-6, 1e-8 * scale, "amplitude-sigma", "z=", z, " template ", t);
          for (size_t u = 0; u < n; ++u)
            REQUIRE_CLOSE(r->FitCOV[i][t][u], b.cov[t][u], 0, 1e-6 * b.err[t] * b.err[u], "covariance", "z=", z, " (", t, ",", u, ")");
        }
        double sa = 0, se = 0;
        for (size_t t = 0; t < n; ++t)
          sa += b.a[t] * b.a[t], se += b.cov[t][t];
        REQUIRE_CLOSE(r->SNR[i], std::sqrt(sa / se), 1e-6, 1e-8 * scale, "snr", "z=", z);
      }
      // the model is the combination, and its weighted residual is the chi-square
      auto mod = op.ComputeSpectrumModel(*spc, list, z, r->FitEbmvCoeff[i], kM, a, TFloat64Range(o.lo, o.hi), thr);
      const V &f = mod->ModelFlux.begin()->second, &l = mod->ModelLambda.begin()->second;
      REQUIRE_(f.size() == o.d.x.size() && l.size() == f.size(), "model", "size ", f.size());
      long double chi2 = 0, power = 0;
      for (size_t k = 0; k < f.size(); ++k) {
        REQUIRE_CLOSE(l[k], o.d.x[k], 1e-12, 0, "model-lambda", "sample ", k, " z=", z);
        if (k < o.k0 || k > o.k1 || !covered(o, s.tpls[0], z, k))
          continue;
        double v = 0, big = 0;
        for (size_t t = 0; t < n; ++t) {
          double c = a[t] * tplValue(s, s.tpls[t], z, o.d.x[k], kE, kM);
          v += c;
          big += std::fabs(c);
        }
        REQUIRE_CLOSE(f[k], v, 0, 1e-9 * big + 1e-300, "model-flux", "z=", z, " sample ", k);
        long double dd = (o.d.y[k] - f[k]) / o.d.e[k];
        chi2 += dd * dd;
        power += big * big / o.d.e[k] / o.d.e[k];
      }
      REQUIRE_CLOSE(r->ChiSquare[i], double(chi2), 1e-9, 10 * tol + 1e-9 * double(power), "model-chi2", "z=", z);
      g.label(igmHere ? "igm" : igmFit ? "igm-out" : "no-igm");
      if (illcond)
        g.label("near-dependent");
      if (es.size() * ms.size() > 1)
        g.label("several options");
    }
    prev = r;
  }
  g.label(std::to_string(nt) + " templates");
  if (partial)
    g.label("partial");
  g.nontrivial();
}
