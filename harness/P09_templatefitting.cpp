// Template fitting against a brute-force weighted least-squares fit.
#include "fit.h"

#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/statistics/priorhelper.h"

#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace fit;

namespace {
class Masks : public CMaskBuilder {
public:
  const Scene *s;
  CMask getMask(const CSpectrumSpectralAxis &x, const TFloat64Range &, const Float64 &) override {
    for (auto &o : s->obs)
      if (size_t(x.GetSamplesCount()) == o.d.x.size() && x[0] == o.d.x[0]) {
        CMask m(o.d.x.size(), 1);
        for (size_t k = 0; k < o.use.size(); ++k)
          m[k] = o.use[k];
        return m;
      }
    throw std::runtime_error("mask asked for an unknown axis");
  }
};

struct Best {
  double chi2 = INFINITY, a = 0, err = 0, sig = 0, S = 0, T = 0, C = 0, logprior = 0;
};

// chi2 minimum over the amplitude for one option
Best fitOne(const Scene &s, const Tpl &t, double z, int kE, int m, double nullThreshold, const CPriorHelper::SPriorTZE *p) {
  long double S = 0, T = 0, C = 0;
  for (auto &o : s.obs)
    for (size_t k = 0; k < o.d.x.size(); ++k) {
      if (!covered(o, t, z, k) || !o.use[k])
        continue;
      long double w = 1.L / o.d.e[k] / o.d.e[k], v = tplValue(s, t, z, o.d.x[k], kE, m);
      S += o.d.y[k] * o.d.y[k] * w;
      T += v * v * w;
      C += v * o.d.y[k] * w;
    }
  Best b;
  b.S = S;
  b.T = T;
  b.C = C;
  double bss2 = p ? p->betaA / (p->A_sigma * p->A_sigma) : 0;
  b.a = (C + (p ? p->A_mean * bss2 : 0)) / (T + bss2);
  b.err = std::sqrt(double(T)) / (T + bss2);
  b.sig = b.a / b.err;
  if (b.sig < nullThreshold)
    b.a = 0;
  b.chi2 = S + b.a * b.a * T - 2 * b.a * C;
  if (p) {
    b.logprior = -2 * (p->betaTE * p->logprior_precompTE + p->betaA * p->logprior_precompA + p->betaZ * p->logprior_precompZ) +
                 p->betaA * (b.a - p->A_mean) * (b.a - p->A_mean) / p->A_sigma / p->A_sigma;
    b.chi2 += b.logprior;
  }
  return b;
}

Scene makeScene(Ctx &g, bool igmHeavy) {
  Scene s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, g.i(1, 3));
  int n = g.pick({1, 1, 2, 3});
  for (int i = 0; i < n; ++i) {
    double lo = g.pick({4000., 3500., 7000.}), hi = lo * g.pick({1.5, 1.1, 1.9});
    if (i)
      lo = s.obs[0].d.x[0] * g.f(0.8, 2.), hi = lo * g.f(1.1, 2.);
    s.obs.push_back(makeObs(g, lo, hi, n > 1 ? "obs" + std::to_string(i) : ""));
    while (i && s.obs[i].d.x[0] == s.obs[0].d.x[0] && s.obs[i].d.x.size() == s.obs[0].d.x.size())
      s.obs[i].d.x.pop_back(), s.obs[i].d.y.pop_back(), s.obs[i].d.e.pop_back(), s.obs[i].use.pop_back();
  }
  int nt = g.i(1, 2);
  for (int i = 0; i < nt; ++i)
    s.tpls.push_back(makeTpl(g, i, g.pick({300., 400.}), g.pick({20000., 18000.}), 80, 500));
  return s;
}

// flux: template seen at a redshift plus noise, or anything
void makeFlux(Ctx &g, Scene &s, double z) {
  int kind = g.i(0, 3);
  double a = g.logf(0.1, 30);
  if (kind == 2)
    a = -a;
  int kE = g.i(0, s.dust.n - 1), m = g.i(-1, int(s.igm.curves[0].fluxcorr.size()) - 1);
  for (auto &o : s.obs)
    for (size_t k = 0; k < o.d.x.size(); ++k) {
      double noise = o.d.e[k] * ((k * 2654435761u % 1000) / 250. - 2.);
      o.d.y[k] = kind == 3 ? 10. * noise + 3. : a * tplValue(s, s.tpls[0], z, o.d.x[k], kE, m) + (kind ? noise : 0);
    }
  g.note("flux kind ", kind, " a ", a, " ebmv ", kE, " igm ", m);
}
void resetIgm(Scene &s) { // the reference needs convolved curves before the flux is made
  TFloat64Range r(s.obs[0].lo, s.obs[0].hi);
  for (auto &o : s.obs)
    r = TFloat64Range(std::min(r.GetBegin(), o.lo), std::max(r.GetEnd(), o.hi));
  s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
  s.igm.obj->convolveByLSF(constantResolutionLSF(s.R), r);
}

CPriorHelper::TPriorZEList makePriors(Ctx &g, size_t nz, int ne) {
  CPriorHelper::TPriorZEList l(nz);
  double mean = g.logf(0.1, 30), sig = g.logf(0.01, 30), bA = g.pick({1., 0.5, 3.}), bT = g.pick({0., 1.}), bZ = g.pick({1., 0.});
  for (size_t i = 0; i < nz; ++i)
    for (int e = 0; e < ne; ++e) {
      CPriorHelper::SPriorTZE p;
      p.A_mean = mean * (1 + 0.1 * e);
      p.A_sigma = sig;
      p.betaA = bA;
      p.betaTE = bT;
      p.betaZ = bZ;
      p.priorTZE = 0.1 + 0.05 * ((e * 3 + i) % 7);
      p.logprior_precompA = -0.5 * std::log(2 * M_PI) - std::log(sig);
      p.logprior_precompTE = std::log(p.priorTZE);
      p.logprior_precompZ = -0.1 * i;
      l[i].push_back(p);
    }
  return l;
}
} // namespace

PROP("P09", fit, 6000, 60000) {
  Scene s = makeScene(g, false);
  V zs;
  int nz = g.i(1, 4);
  for (int i = 0; i < nz; ++i)
    zs.push_back(g.pick({0., g.f(0., 1.), g.f(1., 4.), g.f(3., 7.), g.f(6., 6.99)}));
  for (auto &o : s.obs) {
    g.note("obs ", o.d.x.size(), " samples [", o.d.x.front(), ",", o.d.x.back(), "] range [", o.lo, ",", o.hi, "] samples ", o.k0, "..", o.k1);
    if (o.k1 < o.k0 + 1 || o.k1 >= o.d.x.size())
      g.discard();
    int mk = g.i(0, 3);
    for (size_t k = 0; k < o.use.size(); ++k)
      o.use[k] = mk == 1 ? (k % 5 != 0) : mk == 2 ? (k < o.use.size() / 3 || k > o.use.size() / 2) : 1;
  }
  g.notev("z", zs);
  g.note("templates ", s.tpls.size(), " [", s.tpls[0].x.front(), ",", s.tpls[0].x.back(), "] dust ", s.dust.start, "+", s.dust.step, "*", s.dust.n, " igm z ");
  g.notev("zbins", s.igm.zbins);
  bool dustFit = g.b(), igmFit = g.b();
  int nIgm = s.igm.curves[0].fluxcorr.size();
  resetIgm(s);
  makeFlux(g, s, zs[0]);
  for (auto &o : s.obs) // a spectrum of zeros is refused
    if (std::all_of(o.d.y.begin() + o.k0, o.d.y.begin() + o.k1 + 1, [](double v) { return v == 0; }))
      o.d.y[o.k0] = 1.;
  s.igm.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(s.igm.curves, s.igm.zbins);
  start(s, galaxyParams(s));

  bool useMask = g.b();
  if (!useMask)
    for (auto &o : s.obs)
      o.use.assign(o.use.size(), 1);
  COperatorTemplateFitting op(zs);
  if (useMask) {
    auto mb = std::make_shared<Masks>();
    mb->s = &s;
    op.setMaskBuilder(mb);
  }
  double nullThr = g.pick({0., 0., 2., 10.});
  int fixE = dustFit && g.chance(25) ? g.i(0, s.dust.n - 1) : undefIdx;
  int fixM = igmFit && g.chance(25) ? g.i(0, nIgm - 1) : undefIdx;
  CPriorHelper::TPriorZEList priors;
  if (g.chance(30))
    priors = makePriors(g, zs.size(), s.dust.n);
  g.note("dust ", dustFit, " igm ", igmFit, " fixE ", fixE, " fixM ", fixM, " null ", nullThr, " priors ", priors.size(), " mask ", useMask);

  int rounds = g.i(1, 2);
  for (int round = 0; round < rounds; ++round) {
    const Tpl &t = s.tpls[round % s.tpls.size()];
    bool belowIgm = false, dark = false;
    for (double z : zs) {
      belowIgm |= (dustFit || igmFit) && z < s.igm.zbins[0] && igmInRange(s, t, z);
      for (auto &o : s.obs) { // every observation needs some light and unmasked samples, and whole coverage
        bool any = false;
        for (size_t k = o.k0; k <= o.k1; ++k) {
          bool c = covered(o, t, z, k);
          dark |= !c;
          if (!c || !o.use[k])
            continue;
          double v = 1;
          for (int m = 0; m < nIgm && igmFit; ++m)
            v = std::min(v, igmCoeff(s, m, z, o.d.x[k] / (1 + z)));
          any |= v > 0;
        }
        dark |= !any;
      }
    }
    if (belowIgm || dark)
      g.discard();
    std::shared_ptr<CTemplateFittingResult> r = std::dynamic_pointer_cast<CTemplateFittingResult>(
        op.Compute(t.obj, 1., "lin", igmFit, dustFit, nullThr, priors, fixE, fixM));
    REQUIRE_(bool(r) && r->Redshifts == zs, "redshifts", "");
    double cst = 0;
    for (auto &o : s.obs)
      for (size_t k = o.k0; k <= o.k1; ++k)
        cst += -0.5 * std::log(2 * M_PI) - std::log(o.d.e[k]);
    REQUIRE_CLOSE(r->CstLog, cst, 1e-11, 1e-9, "cstlog", "");

    for (size_t i = 0; i < zs.size(); ++i) {
      double z = zs[i];
      bool igmHere = false, allIgm = igmFit;
      for (auto &o : s.obs)
        for (size_t k = o.k0; k <= o.k1; ++k) {
          bool in = o.d.x[k] / (1 + z) <= RESTLAMBDA_LYA;
          igmHere |= in;
          allIgm &= in;
        }
      igmHere = igmHere && igmFit;
      std::vector<int> es, ms;
      if (!dustFit)
        es = {-1};
      else if (fixE != undefIdx)
        es = {fixE};
      else
        for (int e = 0; e < s.dust.n; ++e)
          es.push_back(e);
      if (!igmFit)
        ms = {-1};
      else if (fixM != undefIdx)
        ms = {fixM};
      else
        for (int m = 0; m < nIgm; ++m)
          ms.push_back(m);
      double best = INFINITY, scale = 0;
      REQUIRE_(r->ChiSquareIntermediate[i].size() == es.size(), "intermediate-size", "");
      for (size_t e = 0; e < es.size(); ++e) {
        REQUIRE_(r->ChiSquareIntermediate[i][e].size() == ms.size(), "intermediate-size", "");
        for (size_t m = 0; m < ms.size(); ++m) {
          Best b = fitOne(s, t, z, es[e], igmHere ? ms[m] : -1, nullThr, priors.empty() ? nullptr : &priors[i][std::max(0, es[e])]);
          double tol = 1e-10 * (b.S + b.a * b.a * b.T + std::fabs(b.logprior));
          scale = std::max(scale, tol);
          if (nullThr != 0 && std::fabs(b.sig - nullThr) < 1e-7 * (1 + nullThr))
            g.discard();
          REQUIRE_CLOSE(r->ChiSquareIntermediate[i][e][m], b.chi2, 0, tol, "chi2", "z=", z, " ebmv ", es[e], " igm ", ms[m]);
          best = std::min(best, b.chi2);
        }
      }
      REQUIRE_CLOSE(r->ChiSquare[i], best, 0, scale, "best-chi2", "z=", z);
      // the reported options reach it
      int kE = -1;
      if (dustFit) {
        kE = int(std::lround((r->FitEbmvCoeff[i] - s.dust.start) / s.dust.step));
        REQUIRE_CLOSE(r->FitEbmvCoeff[i], s.dust.start + kE * s.dust.step, 1e-9, 1e-9, "ebmv", "z=", z);
        REQUIRE_(std::find(es.begin(), es.end(), kE) != es.end(), "ebmv", "z=", z, " index ", kE);
      } else
        REQUIRE_(r->FitEbmvCoeff[i] == -1., "ebmv", "no dust but ", r->FitEbmvCoeff[i]);
      int kM = r->FitMeiksinIdx[i];
      REQUIRE_(igmHere || kM == undefIdx, "igm-index", "no IGM at z=", z, " but ", kM);
      if (igmHere)
        REQUIRE_(std::find(ms.begin(), ms.end(), kM) != ms.end(), "igm-index", "z=", z, " index ", kM);
      Best b = fitOne(s, t, z, kE, igmHere ? kM : -1, nullThr, priors.empty() ? nullptr : &priors[i][std::max(0, kE)]);
      REQUIRE_CLOSE(b.chi2, best, 0, 2 * scale, "options", "z=", z, " ebmv ", kE, " igm ", kM);
      double cancel = std::sqrt(b.S * b.T) / b.T; // amplitude scale
      REQUIRE_CLOSE(r->FitAmplitude[i], b.a, 1e-9, 1e-11 * cancel, "amplitude", "z=", z);
      REQUIRE_CLOSE(r->FitAmplitudeError[i], b.err, 1e-9, 0, "amplitude-error", "z=", z);
      REQUIRE_CLOSE(r->FitAmplitudeSigma[i], b.sig, 1e-8, 1e-9 * cancel / b.err, "amplitude-sigma", "z=", z);
      REQUIRE_CLOSE(r->FitMtM[i], b.T, 1e-10, 0, "mtm", "z=", z);
      REQUIRE_CLOSE(r->FitDtM[i], b.C, 0, 1e-10 * std::sqrt(b.S * b.T), "dtm", "z=", z);
      REQUIRE_CLOSE(r->LogPrior[i], b.logprior, 1e-9, 1e-9, "logprior", "z=", z);
      if (r->SNR[i] != 0)
        REQUIRE_CLOSE(r->SNR[i], b.C / std::sqrt(b.T), 0, 1e-9 * std::sqrt(b.S), "snr", "z=", z);
      REQUIRE_(r->Overlap[i].size() == s.obs.size(), "overlap", "");
      for (double v : r->Overlap[i])
        REQUIRE_(v == 1., "overlap", "z=", z, " ", v);
      g.label(igmHere ? (allIgm ? "all-igm" : "igm") : igmFit ? "igm-out" : "no-igm");

      // the model is the fitted template, and its weighted residual is the chi-square
      long double chi2 = 0;
      for (size_t oi = 0; oi < s.obs.size(); ++oi) {
        const Obs &o = s.obs[oi];
        auto models = std::make_shared<CModelSpectrumResult>();
        op.ComputeSpectrumModel(t.obj, z, r->FitEbmvCoeff[i], kM, r->FitAmplitude[i], 1., oi, models);
        REQUIRE_(models->ModelFlux.size() == 1 && models->ModelFlux.count(o.id) == 1, "model", "observation");
        const V &f = models->ModelFlux[o.id], &l = models->ModelLambda[o.id];
        REQUIRE_(f.size() == o.d.x.size() && l.size() == f.size(), "model", "size ", f.size());
        for (size_t k = 0; k < f.size(); ++k)
          REQUIRE_CLOSE(l[k], o.d.x[k], 1e-13, 0, "model-lambda", "sample ", k);
        for (size_t k = o.k0; k <= o.k1; ++k) {
          double v = r->FitAmplitude[i] * tplValue(s, t, z, o.d.x[k], kE, kM);
          REQUIRE_CLOSE(f[k], v, 1e-9, 1e-300, "model-flux", "z=", z, " obs ", oi, " sample ", k);
          if (o.use[k]) {
            long double dd = (o.d.y[k] - f[k]) / o.d.e[k];
            chi2 += dd * dd;
          }
        }
      }
      REQUIRE_CLOSE(r->ChiSquare[i] - b.logprior, double(chi2), 1e-9, 10 * scale, "model-chi2", "z=", z);
    }
  }
  g.label(s.obs.size() > 1 ? "multi-obs" : "one-obs");
  if (!priors.empty())
    g.label("priors");
  if (useMask)
    g.label("mask");
  g.nontrivial();
}

// partial coverage: refused when the fraction of covered samples is below the threshold, fitted on them otherwise
PROP("P09", overlap, 3000, 30000) {
  Scene s;
  s.cat = std::make_shared<CTemplateCatalog>();
  makeExtinction(g, s, 1);
  int n = g.pick({1, 1, 2});
  for (int i = 0; i < n; ++i)
    s.obs.push_back(makeObs(g, 4000. + 500 * i, 6000 + 700 * i, n > 1 ? "obs" + std::to_string(i) : "", 5, 40));
  for (auto &o : s.obs)
    if (o.k1 < o.k0 + 1 || o.k1 >= o.d.x.size())
      g.discard();
  double z = g.f(0, 2);
  double a = g.f(3000, 7000), b = g.f(3000, 7000);
  if (a > b)
    std::swap(a, b);
  if (b < a + 20)
    b = a + 20;
  s.tpls.push_back(makeTpl(g, 0, a / (1 + z), b / (1 + z), 10, 60));
  const Tpl &t = s.tpls[0];
  for (auto &o : s.obs)
    for (size_t k = 0; k < o.d.x.size(); ++k)
      o.d.y[k] = 3. + (k % 5) + k * 0.1;
  double thr = g.pick({1., 0.5, 0.9, 0.1, 0.});
  g.note("z ", z, " template [", a, ",", b, "]/(1+z) threshold ", thr);
  double minFrac = 1;
  for (auto &o : s.obs) {
    int c = 0, tot = 0;
    for (size_t k = o.k0; k <= o.k1; ++k) {
      double e = std::min(std::fabs(o.d.x[k] / (1 + z) / t.x.front() - 1), std::fabs(o.d.x[k] / (1 + z) / t.x.back() - 1));
      if (e < 1e-12)
        g.discard();
      c += covered(o, t, z, k);
      ++tot;
    }
    minFrac = std::min(minFrac, double(c) / tot);
    g.note("covered ", c, "/", tot);
  }
  start(s, galaxyParams(s));
  COperatorTemplateFitting op({z});
  std::shared_ptr<CTemplateFittingResult> r;
  std::string msg;
  bool refused = throws([&] { r = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(t.obj, thr, "lin")); }, nullptr, &msg);
  bool must = minFrac < thr || minFrac <= 0;
  REQUIRE_(refused == must, "refusal", "covered fraction ", minFrac, " threshold ", thr, " refused ", refused, " ", msg);
  g.label(refused ? "refused" : minFrac < 1 ? "partial" : "full");
  if (!refused) {
    Best b = fitOne(s, t, z, -1, -1, 0., nullptr);
    REQUIRE_CLOSE(r->ChiSquare[0], b.chi2, 0, 1e-10 * b.S, "chi2", "partial coverage");
    REQUIRE_CLOSE(r->FitAmplitude[0], b.a, 1e-9, 0, "amplitude", "partial coverage");
  }
  g.nontrivial(minFrac < 1);
}

// amplitude priors read from files: one value per redshift bin, template and E(B-V), end bins extended outwards
PROP("P09", priors, 300, 3000) {
  namespace fs = std::filesystem;
  char tmpl[] = "/tmp/p09priorXXXXXX";
  fs::path dir = mkdtemp(tmpl);
  struct Clean {
    fs::path d;
    ~Clean() {
      std::error_code e;
      fs::remove_all(d, e);
    }
  } clean{dir};
  const int nz = 24, ne = 10;
  int nt = g.i(1, 3);
  double base = g.f(0.01, 0.2);
  auto val = [&](int kind, int t, int z, int e) { return base * (1 + kind) * (1 + t) + 0.001 * z + 0.0001 * e; };
  const char *sub[3] = {"prior_continuum_hist_Ebmvr_Z", "prior_continuum_gaussmean_Ac_Z", "prior_continuum_gausssigma_Ac_Z"};
  const char *pre[3] = {"prior_continuum_hist_Ebmvc_Z_Tplc_", "prior_continuum_gaussmean_Ac_Z_Tplc_", "prior_continuum_gausssigma_Ac_Z_Tplc_"};
  for (int k = 0; k < 3; ++k) {
    fs::create_directory(dir / sub[k]);
    for (int t = 0; t < nt; ++t) {
      std::ofstream f(dir / sub[k] / (pre[k] + std::string("t") + std::to_string(t)));
      f.precision(17);
      f << "# comment\n";
      for (int z = 0; z < nz; ++z)
        for (int e = 0; e < ne; ++e)
          f << val(k, t, z, e) << (e + 1 < ne ? " " : "\n");
    }
  }
  fs::create_directory(dir / "prior_continuum_hist_Z");
  {
    std::ofstream f(dir / "prior_continuum_hist_Z/prior_continuum_hist_Z.txt");
    f.precision(17);
    for (int z = 0; z < nz; ++z)
      f << base * (z + 1) << "\n";
  }
  CPriorHelper h;
  h.Init(dir.string(), 0);
  REQUIRE_(!h.mInitFailed, "init", "");
  h.SetBetaA(1.);
  h.SetBetaTE(0.5);
  h.SetBetaZ(2.);
  V zs;
  int n = g.i(1, 12);
  for (int i = 0; i < n; ++i)
    zs.push_back(g.pick({0., g.f(-0.2, 7.), g.f(5.9, 6.1), 6., 0.25 * g.i(0, 28), 9.}));
  g.notev("z", zs);
  int t = g.i(0, nt - 1);
  CPriorHelper::TPriorZEList l;
  h.GetTplPriorData(std::string(pre[0]) + "t" + std::to_string(t), zs, l);
  REQUIRE_(l.size() == zs.size(), "size", "");
  for (size_t i = 0; i < zs.size(); ++i) {
    int z = std::min(nz - 1, std::max(0, int(std::floor(zs[i] / 0.25))));
    REQUIRE_(l[i].size() == size_t(ne), "size", "z=", zs[i], ": ", l[i].size());
    for (int e = 0; e < ne; ++e) {
      const auto &p = l[i][e];
      REQUIRE_CLOSE(p.priorTZE, val(0, t, z, e), 1e-12, 0, "prior", "z=", zs[i]);
      REQUIRE_CLOSE(p.A_mean, val(1, t, z, e), 1e-12, 0, "mean", "z=", zs[i]);
      REQUIRE_CLOSE(p.A_sigma, val(2, t, z, e), 1e-12, 0, "sigma", "z=", zs[i]);
      REQUIRE_CLOSE(p.logprior_precompA, -0.5 * std::log(2 * M_PI) - std::log(p.A_sigma), 1e-12, 1e-12, "log", "");
      REQUIRE_CLOSE(p.logprior_precompTE, std::log(p.priorTZE), 1e-12, 1e-12, "log", "");
      REQUIRE_CLOSE(p.logprior_precompZ, std::log(base * (z + 1) / 0.25), 1e-12, 1e-12, "log", "z=", zs[i]);
      REQUIRE_(p.betaA == 1. && p.betaTE == 0.5 && p.betaZ == 2., "beta", "");
    }
    bool out = zs[i] < -0.25 || zs[i] >= 6;
    CPriorHelper::TPriorZEList l1;
    bool thr = throws([&] { h.GetTplPriorData(std::string(pre[0]) + "t" + std::to_string(t), {zs[i]}, l1, 1); });
    if (zs[i] >= 0 || zs[i] < -0.25)
      REQUIRE_(thr == out, "outside", "z=", zs[i], " refused ", thr);
  }
  REQUIRE_(throws([&] { h.GetTplPriorData("unknown", zs, l); }), "unknown-template", "");
  g.nontrivial(n > 1);
}
