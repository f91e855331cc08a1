// Spectra, templates and reference fit shared by the template fitting checks.
#pragma once
#include "world.h"

namespace fit {
using namespace world;

struct Obs {
  Data d;
  std::string id;
  double lo, hi;    // lambda range of the parameters
  size_t k0, k1;    // first and last sample of that range
  std::vector<char> use; // mask
};
struct Tpl {
  std::string name;
  V x, y;
  std::shared_ptr<CTemplate> obj;
};
struct Scene {
  std::vector<Obs> obs;
  std::vector<Tpl> tpls;
  Dust dust;
  Igm igm;
  std::shared_ptr<CTemplateCatalog> cat;
  double R = 20000; // of the response
  std::shared_ptr<CPhotometricData> phot; // of the first observation
};

inline V anyAxis(Ctx &g, double lo, double hi, size_t n) {
  int kind = g.i(0, 2);
  if (kind == 0)
    return linAxis(n, lo, (hi - lo) / (n - 1));
  if (kind == 1)
    return logAxis(n, lo, std::log(hi / lo) / (n - 1));
  V x = incAxis(g, n, 0, 0.3, 3.);
  double L = x.back();
  for (auto &v : x)
    v = lo + (hi - lo) * v / L;
  return x;
}

inline void setRange(Obs &o, double lo, double hi) {
  o.lo = lo;
  o.hi = hi;
  o.k0 = std::lower_bound(o.d.x.begin(), o.d.x.end(), lo) - o.d.x.begin();
  o.k1 = std::upper_bound(o.d.x.begin(), o.d.x.end(), hi) - o.d.x.begin() - 1;
}

inline Obs makeObs(Ctx &g, double lo, double hi, const std::string &id, size_t nmin = 12, size_t nmax = 80) {
  Obs o;
  o.id = id;
  o.d.x = anyAxis(g, lo, hi, g.n(nmin, nmax));
  size_t n = o.d.x.size();
  int r = g.i(0, 3);
  if (r == 0)
    setRange(o, lo * 0.9, hi * 1.1);
  else if (r == 1) // on samples
    setRange(o, o.d.x[g.n(0, n / 4)], o.d.x[n - 1 - g.n(0, n / 4)]);
  else
    setRange(o, lo * g.f(0.98, 1.03), hi * g.f(0.97, 1.02));
  o.d.y.assign(n, 0.);
  o.d.e.resize(n);
  double e = g.logf(0.05, 2);
  bool vary = g.b();
  for (size_t k = 0; k < n; ++k)
    o.d.e[k] = e * (vary ? 0.5 + 1.5 * ((k * 7) % 11) / 11. : 1.);
  o.use.assign(n, 1);
  return o;
}

inline Tpl makeTpl(Ctx &g, int i, double lo, double hi, size_t nmin = 60, size_t nmax = 300) {
  Tpl t;
  t.name = "tpl" + std::to_string(i);
  t.x = anyAxis(g, lo, hi, g.n(nmin, nmax));
  t.y = templateFlux(g, t.x);
  t.obj = makeTemplate(t.name, "galaxy", t.x, t.y);
  return t;
}

inline void makeExtinction(Ctx &g, Scene &s, int nIgm = 3) {
  s.dust = makeDust(g);
  if (s.dust.start < 0) {
    s.dust.start = 0;
    s.dust.obj = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(s.dust.lambda, s.dust.k), s.dust.start,
                                                                   s.dust.step, s.dust.n);
  }
  s.igm = makeIgm(g, g.pick({1150., 1000., 700., 400.}), nIgm);
}

// puts the spectra in a fresh context; false when it refuses them
inline void start(Scene &s, Params p) {
  if (s.obs.size() > 1) {
    p.t.erase("lambdaRange");
    for (auto &o : s.obs)
      p.list("lambdaRange." + o.id, V{o.lo, o.hi});
  } else
    p.list("lambdaRange", V{s.obs[0].lo, s.obs[0].hi});
  p.set("ebmv.start", s.dust.start);
  p.set("ebmv.step", s.dust.step);
  p.set("ebmv.count", s.dust.n);
  freshContext(p, s.dust, s.igm, s.cat);
  bool first = true;
  for (auto &o : s.obs) {
    auto spc = makeSpectrum(o.d, constantResolutionLSF(s.R), "spc", o.id);
    if (first && s.phot)
      spc->SetPhotData(s.phot);
    first = false;
    Context.addSpectrum(spc);
  }
  Context.Init();
  for (auto &t : s.tpls) {
    t.obj->m_ismCorrectionCalzetti = s.dust.obj;
    t.obj->m_igmCorrectionMeiksin = s.igm.obj;
  }
}
inline Params galaxyParams(const Scene &s) {
  Params p = baseParams({"galaxy"}, TFloat64Range(s.obs[0].lo, s.obs[0].hi));
  p.list("galaxy.redshiftRange", V{0., 1.});
  p.set("galaxy.redshiftStep", 0.01);
  p.set("galaxy.redshiftSolver.method", "templateFittingSolve");
  p.set("galaxy.redshiftSolver.templateFittingSolve.fftProcessing", false);
  p.set("galaxy.redshiftSolver.templateFittingSolve.ismFit", true);
  p.set("galaxy.redshiftSolver.templateFittingSolve.igmFit", true);
  return p;
}

// IGM transmission, from the convolved curves themselves
inline double igmCoeff(const Scene &s, int m, double z, double rest) {
  const auto &o = *s.igm.obj;
  if (m < 0 || rest > o.getLambdaMax())
    return 1.;
  int zi = o.getRedshiftIndex(z);
  if (zi < 0)
    return 1.;
  return o.getCorrection(zi, m, rest >= o.getLambdaMin() ? o.getWaveIndex(rest) : 0);
}
inline double tplValue(const Scene &s, const Tpl &t, double z, double x, int kE, int m) {
  double rest = x / (1 + z);
  return lerp(t.x, t.y, rest) * s.dust.coeff(kE, rest) * igmCoeff(s, m, z, rest);
}
// samples of an observation covered by the range and the template at z
inline bool covered(const Obs &o, const Tpl &t, double z, size_t k) {
  double rest = o.d.x[k] / (1 + z);
  return k >= o.k0 && k <= o.k1 && rest >= t.x.front() && rest <= t.x.back();
}
inline bool igmInRange(const Scene &s, const Tpl &t, double z) {
  for (auto &o : s.obs)
    for (size_t k = o.k0; k <= o.k1 && k < o.d.x.size(); ++k)
      if (covered(o, t, z, k) && o.d.x[k] / (1 + z) <= 1217.5)
        return true;
  return false;
}
} // namespace fit
