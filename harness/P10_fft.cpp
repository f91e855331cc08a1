// FFT template fitting against a direct fit of the shifted template on the logarithmic grid.
#include "fit.h"

#include "RedshiftLibrary/operator/templatefittinglog.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/statistics/priorhelper.h"

using namespace fit;

namespace {
struct Best {
  long double S = 0, T = 0, C = 0;
  double a = 0, err = 0, sig = 0, chi2 = 0, logprior = 0;
};

struct Grid {
  V w, y, e;      // spectrum used by the fit
  V tw, ty;       // log-sampled template
  double step;    // of the template
  int ratio;
};

// template sample seen by spectrum sample j at z; -1 if there is none
long tplIndex(const Grid &r, size_t j, double z, double &off) {
  double o = std::log(r.w[j] / (1 + z) / r.tw[0]) / r.step;
  off = o - std::round(o);
  long k = std::lround(o);
  return k >= 0 && k < long(r.tw.size()) ? k : -1;
}

Best fitOne(const Scene &s, const Grid &r, double z, int kE, int m, double nullThr, const CPriorHelper::SPriorTZE *p) {
  Best b;
  for (size_t j = 0; j < r.w.size(); ++j) {
    double off;
    long k = tplIndex(r, j, z, off);
    REQUIRE_(k >= 0 && std::fabs(off) < 0.02, "grid", "z=", z, " sample ", j, " is not on the template grid: ", k, " + ", off);
    long double v = r.ty[k] * s.dust.coeff(kE, r.tw[k]) * igmCoeff(s, m, z, r.tw[k]), w = 1.L / r.e[j] / r.e[j];
    b.S += r.y[j] * r.y[j] * w;
    b.T += v * v * w;
    b.C += v * r.y[j] * w;
  }
  double bss2 = p && p->A_sigma > 0 && p->A_mean > 0 ? p->betaA / (p->A_sigma * p->A_sigma) : 0;
  b.a = (b.C + (p ? p->A_mean * bss2 : 0)) / (b.T + bss2);
  b.err = std::sqrt(double(b.T)) / double(b.T + bss2);
  b.sig = b.a / b.err;
  if (b.sig < nullThr)
    b.a = 0;
  b.chi2 = b.S + b.a * b.a * b.T - 2 * b.a * b.C;
  if (p) {
    b.logprior = -2 * (p->betaTE * p->logprior_precompTE + p->betaA * p->logprior_precompA + p->betaZ * p->logprior_precompZ);
    if (bss2 > 0)
      b.logprior += bss2 * (b.a - p->A_mean) * (b.a - p->A_mean);
    b.chi2 += b.logprior;
  }
  return b;
}
} // namespace

PROP("P10", fit, 1200, 15000) {
  Scene s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, g.i(1, 3));

  // spectrum
  double step = g.pick({1e-3, 2e-3, 5e-4, 1.7e-3});
  bool logSpectrum = false;
  double lo0 = g.pick({4000., 3600., 7000.});
  s.obs.push_back(makeObs(g, lo0, lo0 * g.pick({1.8, 1.5, 1.4}), "", 40, 250));
  Obs &o = s.obs[0];
  if (std::fabs(std::log(o.d.x[1] / o.d.x[0]) / std::log(o.d.x[2] / o.d.x[1]) - 1) < 1e-6) { // already in log: keeps its own step
    if (g.b())
      g.discard();
    double lo = o.d.x.front();
    step = std::log(o.d.x.back() / lo) / g.pick({350, 500, 801});
    o.d.x = logAxis(size_t(std::lround(std::log(o.d.x.back() / lo) / step)) + 1, lo, step);
    o.d.y.resize(o.d.x.size());
    o.d.e.resize(o.d.x.size());
    o.use.resize(o.d.x.size(), 1);
    for (size_t k = 0; k < o.d.x.size(); ++k)
      o.d.e[k] = o.d.e[0] * (1 + 0.1 * (k % 4));
    setRange(o, o.lo, o.hi);
    logSpectrum = true;
  }
  if (o.k1 < o.k0 + 10 || o.k1 >= o.d.x.size())
    g.discard();
  bool lineModel = g.chance(40);
  int ratio = lineModel ? g.pick({1, 2, 3, 5, 10}) : 1;
  // redshifts: some of them where the IGM bins or the Lyman limit fall between two samples
  double z0 = g.pick({0., 0.3, 1.9, 2.2, 3.});
  if (g.chance(30))
    z0 = g.f(0, 4);
  double nstep = g.pick({2., 10., 60., 300.});
  double z1 = (1 + z0) * std::exp(step * ratio * nstep * g.f(0.3, 1)) - 1;
  if (g.chance(20)) { // the IGM appears in the step where its curve changes
    double zi = std::max(o.lo, o.d.x[o.k0]) / RESTLAMBDA_LYA - 1;
    auto nearest = std::min_element(s.igm.zbins.begin(), s.igm.zbins.end(),
                                    [zi](double a, double b) { return std::fabs(a - zi) < std::fabs(b - zi); });
    if (*nearest > 0 && nearest + 1 != s.igm.zbins.end()) {
      *nearest = zi + (1 + zi) * step * ratio * g.f(-1, 1.5);
      z0 = std::max(0., zi - (1 + zi) * step * ratio * g.f(0.5, 10));
      z1 = (1 + z0) * std::exp(step * ratio * nstep * g.f(0.3, 1)) - 1;
      g.label("igm start near a bin");
    }
    s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
  }
  for (int i = 0, nt = g.i(1, 2); i < nt; ++i) {
    s.tpls.push_back(makeTpl(g, i, o.lo / (1 + z1) * g.pick({0.5, 0.9}) / std::exp(step * ratio), o.hi * 1.2 / (1 + z0), 60, 400));
    s.cat->Add(s.tpls.back().obj);
  }
  g.note("spectrum ", o.d.x.size(), " in [", o.d.x.front(), ",", o.d.x.back(), "] range [", o.lo, ",", o.hi, "] z [", z0, ",", z1,
         "] step ", step, " ratio ", ratio);
  g.notev("zbins", s.igm.zbins);

  // flux
  int kind = g.i(0, 3);
  double amp = g.logf(0.1, 30) * (kind == 2 ? -1 : 1), zt = z0 + (z1 - z0) * g.f(0, 1);
  int fE = g.i(0, s.dust.n - 1);
  for (size_t k = 0; k < o.d.x.size(); ++k) {
    double noise = o.d.e[k] * ((k * 2654435761u % 1000) / 250. - 2.);
    o.d.y[k] = kind == 3 ? 10. * noise + 3. : amp * tplValue(s, s.tpls[0], zt, o.d.x[k], fE, -1) + (kind ? noise : 0);
  }
  g.note("flux ", kind, " amp ", amp, " at ", zt, " ebmv ", fE);

  // context
  Params p = galaxyParams(s);
  p.list("galaxy.redshiftRange", V{z0, z1});
  p.set("galaxy.redshiftStep", step);
  std::string q = "galaxy.redshiftSolver.templateFittingSolve.";
  if (lineModel) {
    p.set("galaxy.redshiftSolver.method", "lineModelSolve");
    q = "galaxy.redshiftSolver.lineModelSolve.lineModel.";
    p.set(q + "continuumComponent", "fromSpectrum");
    p.set(q + "tplRatioIsmFit", false);
    p.set(q + "firstPass.largeGridStepRatio", ratio);
    q += "continuumFit.";
  }
  p.set(q + "fftProcessing", true);
  p.set(q + "ismFit", true);
  p.set(q + "igmFit", true);
  start(s, p);
  auto in = Context.GetInputContext();
  Grid r;
  auto rs = in->GetRebinnedSpectrum();
  r.w = rs->GetSpectralAxis().GetSamplesVector();
  r.y = rs->GetFluxAxis().GetSamplesVector();
  r.e = rs->GetErrorAxis().GetSamplesVector();
  r.step = in->m_logGridStep;
  r.ratio = ratio;
  if (logSpectrum)
    step = r.step;
  if (ratio > 1) { // every ratio-th sample from the last one; fewer samples, each with the weight of them all
    V *v[3] = {&r.w, &r.y, &r.e};
    for (auto *x : v) {
      V sub;
      for (long k = long(x->size()) - 1; k >= 0; k -= ratio)
        sub.insert(sub.begin(), (*x)[k]);
      *x = sub;
    }
    for (auto &e : r.e)
      e /= std::sqrt(double(ratio));
  }
  if (r.w.size() < 2)
    g.discard();
  s.cat->m_logsampling = 1;
  auto list = std::const_pointer_cast<const CTemplateCatalog>(s.cat)->GetTemplateList({"galaxy"});
  s.cat->m_logsampling = 0;
  V zs = in->m_logRebin.at("galaxy").zrange.SpreadOverLogZplusOne(step * ratio);
  if (g.b() && zs.size() > 3) { // part of the grid
    size_t i = g.n(0, zs.size() - 2), j = g.n(i + 1, zs.size() - 1);
    zs = V(zs.begin() + i, zs.begin() + j + 1);
  }
  if (zs.size() < 2)
    g.discard();
  for (double zb : s.igm.zbins) // at a bin border to rounding: either curve
    for (double z : zs)
      if (z != zs[0] && std::fabs(z - zb) < 1e-12)
        g.discard();

  bool dustFit = g.b(), igmFit = g.chance(70);
  int nIgm = s.igm.curves[0].fluxcorr.size();
  double nullThr = g.pick({0., 0., 2., 10.});
  int fixE = dustFit && g.chance(25) ? g.i(0, s.dust.n - 1) : undefIdx;
  int fixM = igmFit && g.chance(25) ? g.i(0, nIgm - 1) : undefIdx;
  CPriorHelper::TPriorZEList priors;
  if ((!dustFit || fixE != undefIdx) && g.chance(30)) {
    double mean = g.logf(0.1, 30), sigma = g.logf(0.01, 30), bA = g.pick({1., 0.5, 3.});
    for (size_t i = 0; i < zs.size(); ++i) {
      priors.emplace_back();
      for (int e = 0; e < s.dust.n; ++e) {
        CPriorHelper::SPriorTZE pr;
        pr.A_mean = mean * (1 + 0.1 * e);
        pr.A_sigma = sigma;
        pr.betaA = bA;
        pr.betaTE = 1.;
        pr.betaZ = 0.5;
        pr.priorTZE = 0.1 + 0.05 * ((e * 3 + i) % 7);
        pr.logprior_precompA = -0.5 * std::log(2 * M_PI) - std::log(sigma);
        pr.logprior_precompTE = std::log(pr.priorTZE);
        pr.logprior_precompZ = -0.1 * i;
        priors.back().push_back(pr);
      }
    }
  }
  g.note("grid ", zs.size(), " from ", zs.front(), " to ", zs.back(), " samples ", r.w.size(), " [", r.w.front(), ",", r.w.back(),
         "] dust ", dustFit, " igm ", igmFit, " fixE ", fixE, " fixM ", fixM, " null ", nullThr, " priors ", priors.size());
  auto inRange = [&](double z) { return r.w[0] / (1 + z) <= RESTLAMBDA_LYA; };
  for (double z : zs)
    if ((dustFit || igmFit) && z < s.igm.zbins[0] && r.w[0] / (1 + z) <= 1217.5)
      g.discard(); // no curve there

  COperatorTemplateFittingLog op(zs);
  for (size_t ti = 0; ti < s.tpls.size(); ++ti) {
    const auto &tpl = list[ti];
    r.tw = tpl->GetSpectralAxis().GetSamplesVector();
    r.ty = tpl->GetFluxAxis().GetSamplesVector();
    auto res = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(tpl, 1., "lin", igmFit, dustFit, nullThr, priors, fixE, fixM));
    REQUIRE_(bool(res) && res->Redshifts == zs && res->ChiSquare.size() == zs.size(), "redshifts", "");
    double cst = 0;
    for (double e : r.e)
      cst += -0.5 * std::log(2 * M_PI) - std::log(e);
    REQUIRE_CLOSE(res->CstLog, cst, 1e-10, 1e-9, "cstlog", "");

    std::vector<int> es, ms;
    if (!dustFit)
      es = {-1};
    else if (fixE != undefIdx)
      es = {fixE};
    else
      for (int e = 0; e < s.dust.n; ++e)
        es.push_back(e);
    if (!igmFit)
      ms = {-1};
    else if (fixM != undefIdx)
      ms = {fixM};
    else
      for (int m = 0; m < nIgm; ++m)
        ms.push_back(m);
    // power of what goes through the FFT
    long double nx = 0, nw = 0, nt = 0, nt2 = 0;
    for (size_t j = 0; j < r.w.size(); ++j) {
      long double w = 1.L / r.e[j] / r.e[j];
      nx += r.y[j] * r.y[j] * w * w;
      nw += w * w;
    }
    double off;
    long ka = tplIndex(r, 0, zs.back(), off), kb = tplIndex(r, r.w.size() - 1, zs.front(), off);
    REQUIRE_(ka >= 0 && kb >= 0, "coverage", "template ", ti, " does not cover the grid");
    for (long k = ka; k <= kb; ++k) {
      long double v = r.ty[k];
      double d = 1;
      for (int e : es)
        d = std::max(d, s.dust.coeff(e, r.tw[k]));
      v *= d;
      nt += v * v;
      nt2 += v * v * v * v;
    }
    double dC = 1e-13 * std::sqrt(double(nx * nt)), dT = 1e-13 * std::sqrt(double(nw * nt2));

    for (size_t i = 0; i < zs.size(); ++i) {
      double z = zs[i];
      bool igm = igmFit && inRange(z);
      double best = INFINITY, tolMax = 0;
      REQUIRE_(res->ChiSquareIntermediate[i].size() == es.size(), "intermediate-size", "");
      for (size_t e = 0; e < es.size(); ++e) {
        REQUIRE_(res->ChiSquareIntermediate[i][e].size() == ms.size(), "intermediate-size", "");
        for (size_t m = 0; m < ms.size(); ++m) {
          Best b0 = fitOne(s, r, z, es[e], igm ? ms[m] : -1, nullThr, nullptr);
          if (b0.T < 1e3 * dT)
            g.discard(); // nothing of the template in the spectrum
          double tol = 1e-10 * double(b0.S) + 4 * std::fabs(b0.a) * dC + 2 * b0.a * b0.a * dT;
          tolMax = std::max(tolMax, tol);
          double dsig = dC / std::sqrt(double(b0.T)) + std::fabs(b0.sig) * dT / double(b0.T);
          if (nullThr != 0 && std::fabs(b0.sig - nullThr) < 1e-7 * (1 + nullThr) + 10 * dsig)
            g.discard();
          REQUIRE_CLOSE(res->ChiSquareIntermediate[i][e][m], b0.chi2, 0, tol, "chi2", "template ", ti, " z=", z, " (", i, ") ebmv ",
                        es[e], " igm ", ms[m]);
          best = std::min(best, b0.chi2);
        }
      }
      int kE = -1;
      if (dustFit) {
        kE = int(std::lround((res->FitEbmvCoeff[i] - s.dust.start) / s.dust.step));
        REQUIRE_CLOSE(res->FitEbmvCoeff[i], s.dust.start + kE * s.dust.step, 1e-9, 1e-9, "ebmv", "z=", z);
        REQUIRE_(std::find(es.begin(), es.end(), kE) != es.end(), "ebmv", "z=", z, " index ", kE);
      } else
        REQUIRE_(res->FitEbmvCoeff[i] == -1., "ebmv", "no dust but ", res->FitEbmvCoeff[i]);
      int kM = res->FitMeiksinIdx[i];
      if (igm)
        REQUIRE_(std::find(ms.begin(), ms.end(), kM) != ms.end(), "igm-index", "z=", z, " index ", kM);
      Best b0 = fitOne(s, r, z, kE, igm ? kM : -1, nullThr, nullptr);
      REQUIRE_CLOSE(b0.chi2, best, 0, 2 * tolMax, "options", "z=", z, " ebmv ", kE, " igm ", kM);
      const CPriorHelper::SPriorTZE *pr = priors.empty() ? nullptr : &priors[i][std::max(0, kE)];
      Best b = fitOne(s, r, z, kE, igm ? kM : -1, nullThr, pr);
      double dsig = dC / std::sqrt(double(b.T)) + std::fabs(b.sig) * dT / double(b.T);
      if (pr && nullThr != 0 && std::fabs(b.sig - nullThr) < 1e-7 * (1 + nullThr) + 10 * dsig)
        g.discard();
      double da = 2 * (dC + std::fabs(b.a) * dT) / double(b.T);
      double tolp = pr ? 1e-9 * std::fabs(b.logprior) + 2 * pr->betaA * std::fabs(b.a - pr->A_mean) / pr->A_sigma / pr->A_sigma * da : 0;
      REQUIRE_CLOSE(res->ChiSquare[i], b.chi2, 0, 2 * tolMax + 4 * tolp + 4 * std::fabs(b.a) * dC + 2 * b.a * b.a * dT, "best-chi2",
                    "template ", ti, " z=", z);
      REQUIRE_CLOSE(res->FitAmplitude[i], b.a, 1e-9, da, "amplitude", "z=", z);
      REQUIRE_CLOSE(res->FitAmplitudeError[i], b.err, 1e-9 + 2 * dT / double(b.T), 0, "amplitude-error", "z=", z);
      REQUIRE_CLOSE(res->FitAmplitudeSigma[i], b.sig, 1e-9, 4 * dsig + da / b.err, "amplitude-sigma", "z=", z);
      REQUIRE_CLOSE(res->FitMtM[i], double(b.T), 1e-10, dT, "mtm", "z=", z);
      REQUIRE_CLOSE(res->FitDtM[i], double(b.C), 1e-10, dC, "dtm", "z=", z);
      REQUIRE_CLOSE(res->LogPrior[i], b.logprior, 1e-9, tolp + 1e-9, "logprior", "z=", z);
      g.label(igm ? "igm" : igmFit ? "igm-out" : "no-igm");
    }
  }
  g.label(ratio > 1 ? "subsampled" : "full");
  if (!priors.empty())
    g.label("priors");
  g.nontrivial();
}

// priors that depend on the dust content take part in its choice, as in the direct fit
PROP("P10", dust_priors, 200, 2000) {
  Scene s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, 1);
  s.obs.push_back(makeObs(g, 4000., 7000., "", 60, 120));
  Obs &o = s.obs[0];
  double q = std::log(o.d.x[1] / o.d.x[0]) / std::log(o.d.x[2] / o.d.x[1]);
  if (std::fabs(q - 1) < 1e-6 || o.k1 < o.k0 + 10 || o.k1 >= o.d.x.size() || s.dust.n < 2)
    g.discard();
  s.tpls.push_back(makeTpl(g, 0, 2500, 8500, 60, 200));
  s.cat->Add(s.tpls[0].obj);
  double amp = g.f(1, 10);
  int fE = g.i(0, s.dust.n - 1);
  for (size_t k = 0; k < o.d.x.size(); ++k)
    o.d.y[k] = amp * tplValue(s, s.tpls[0], 0.1, o.d.x[k], fE, -1) + o.d.e[k] * ((k * 2654435761u % 1000) / 250. - 2.);
  Params p = galaxyParams(s);
  p.list("galaxy.redshiftRange", V{0., 0.2});
  p.set("galaxy.redshiftStep", 2e-3);
  p.set("galaxy.redshiftSolver.templateFittingSolve.fftProcessing", true);
  start(s, p);
  auto in = Context.GetInputContext();
  Grid r;
  auto rs = in->GetRebinnedSpectrum();
  r.w = rs->GetSpectralAxis().GetSamplesVector();
  r.y = rs->GetFluxAxis().GetSamplesVector();
  r.e = rs->GetErrorAxis().GetSamplesVector();
  r.step = in->m_logGridStep;
  r.ratio = 1;
  s.cat->m_logsampling = 1;
  auto tpl = std::const_pointer_cast<const CTemplateCatalog>(s.cat)->GetTemplateList({"galaxy"})[0];
  s.cat->m_logsampling = 0;
  r.tw = tpl->GetSpectralAxis().GetSamplesVector();
  r.ty = tpl->GetFluxAxis().GetSamplesVector();
  V zs = in->m_logRebin.at("galaxy").zrange.SpreadOverLogZplusOne(2e-3);
  CPriorHelper::TPriorZEList priors;
  double strength = g.logf(0.01, 3000);
  int shift = g.i(0, 6);
  for (size_t i = 0; i < zs.size(); ++i) {
    priors.emplace_back();
    for (int e = 0; e < s.dust.n; ++e) {
      CPriorHelper::SPriorTZE pr;
      pr.A_mean = -1; // no amplitude prior
      pr.A_sigma = -1;
      pr.betaA = 0.;
      pr.betaTE = 1.;
      pr.betaZ = 0.;
      pr.logprior_precompA = 0;
      pr.logprior_precompTE = -strength * ((e * 3 + shift) % 7) / 7.;
      pr.logprior_precompZ = 0;
      priors.back().push_back(pr);
    }
  }
  g.note("ebmv ", fE, " of ", s.dust.n, " prior ", strength, " shift ", shift, " step ", s.dust.step);
  COperatorTemplateFittingLog op(zs);
  auto res = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(tpl, 1., "lin", false, true, 0., priors));
  bool differ = false;
  for (size_t i = 0; i < zs.size(); ++i) {
    Best free, prior;
    free.chi2 = prior.chi2 = INFINITY;
    int eFree = -1, ePrior = -1;
    for (int e = 0; e < s.dust.n; ++e) {
      Best a = fitOne(s, r, zs[i], e, -1, 0., nullptr);
      if (a.chi2 < free.chi2)
        free = a, eFree = e;
      a = fitOne(s, r, zs[i], e, -1, 0., &priors[i][e]);
      if (a.chi2 < prior.chi2)
        prior = a, ePrior = e;
    }
    double after = free.chi2 - 2 * priors[i][eFree].logprior_precompTE, tol = 1e-9 * (double(free.S) + std::fabs(after));
    REQUIRE_(std::fabs(res->ChiSquare[i] - prior.chi2) <= tol || std::fabs(res->ChiSquare[i] - after) <= tol, "chi2", "z=", zs[i],
             ": ", res->ChiSquare[i], " for ", prior.chi2);
    if (prior.chi2 < after - tol) {
      differ = true;
      REQUIRE_(std::fabs(res->ChiSquare[i] - prior.chi2) <= tol, "prior-after-choice", "z=", zs[i], ": ", res->ChiSquare[i], " with ebmv ",
               eFree, " for ", prior.chi2, " with ebmv ", ePrior, ": the prior is added to the choice made without it");
    }
  }
  g.nontrivial(differ);
}
