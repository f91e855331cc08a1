// P07: raw = continuum + continuum-free flux, whatever the method and the history; the sliding-median
// continuum is the one of an independent implementation of its definition.
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "util.h"
#include "world.h"
#include <algorithm>
using namespace util;

namespace {

double medianOf(V v) { // middle of the two central values, the lower one in big windows
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 || n > MEDIAN_FAST_OR_BEERS_THRESHOLD ? v[(n - 1) / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}
V slide(const V &y, int width, const std::function<double(const V &)> &fn) {
  int half = width / 2, rest = width - 2 * half, n = y.size();
  V out(n);
  for (int i = 0; i < n; ++i)
    out[i] = fn(V(y.begin() + std::max(0, i - half), y.begin() + std::min(n, i + half + rest)));
  return out;
}
double meanOf(const V &v) {
  long double s = 0;
  for (double t : v)
    s += t;
  return double(s / v.size());
}

enum class Est { ok, noEstimate, zeroContinuumFree };

// continuum by the definition; returns what kind of outcome is expected
Est refMedian(const V &x, const V &y, const V &e, double win, bool even, V &continuum) {
  size_t n = x.size();
  double res = (x.back() - x.front()) / double(n - 1);
  int amp = int(std::round(double(float(win)) / res));
  if (amp <= 0)
    return Est::noEstimate;
  int meanAmp = std::min(amp, int(n) / 2), medAmp = std::max(amp, meanAmp);
  size_t nonZero = 0;
  for (double t : y)
    nonZero += t != 0;
  if (nonZero <= 10)
    return Est::zeroContinuumFree;
  int k0 = 0, k1 = int(n) - 1;
  while (y[k0] == 0)
    ++k0;
  while (y[k1] == 0)
    --k1;
  int nd = k1 - k0 + 1;
  int nref = int(std::round(nd / 2.));
  nref = std::max(10, std::min(nref, std::max(10, 5 * meanAmp)));
  double bl = 0, br = 0;
  if (!even) {
    long double W = 0, X = 0, Y = 0, XX = 0, XY = 0;
    for (int k = k0; k <= k1; ++k) {
      long double w = 1. / ((long double)e[k] * e[k]);
      W += w, X += w * x[k], Y += w * y[k];
    }
    X /= W, Y /= W;
    for (int k = k0; k <= k1; ++k) {
      long double w = 1. / ((long double)e[k] * e[k]);
      XX += w * (x[k] - X) * (x[k] - X), XY += w * (x[k] - X) * (y[k] - Y);
    }
    bl = double(Y + XY / XX * (x[k0] - X)), br = double(Y + XY / XX * (x[k1] - X));
  }
  V s;
  for (int k = nref - 1; k >= 0; --k)
    s.push_back(even ? y[k0 + k] : 2 * bl - y[k0 + k]);
  s.insert(s.end(), y.begin() + k0, y.begin() + k1 + 1);
  for (int k = 0; k < nref; ++k)
    s.push_back(even ? y[k1 - k] : 2 * br - y[k1 - k]);
  for (int c = 0; c < 5; ++c)
    s = slide(s, 2 * medAmp + 1, medianOf);
  for (int c = 0; c < 5; ++c)
    s = slide(s, medAmp | 1, medianOf);
  if (meanAmp / 4 > 1)
    s = slide(s, meanAmp / 4, meanOf);
  continuum.assign(n, 0.);
  for (int k = k0; k <= k1; ++k)
    continuum[k] = s[k - k0 + nref];
  return Est::ok;
}

struct Model {
  V x, y, e, manual;
  std::string method, name, obs;
  double win;
  bool even;
  int type;
  std::shared_ptr<const CLSF> lsf;
  std::shared_ptr<const CPhotometricData> phot;
};

V genFlux(Ctx &g, size_t n) {
  V y = curve(g, n, g.pick({1., 1e-17, 100.}));
  double lev = 0;
  for (double t : y)
    lev = std::max(lev, std::abs(t));
  if (lev == 0)
    lev = 1;
  if (g.b())
    for (size_t k = 0; k < n; ++k)
      y[k] += lev * (1 + 0.5 * double(k) / n);
  int zeros = g.i(0, 5);
  if (zeros == 1 || zeros == 3)
    for (size_t k = 0, m = g.n(0, n / 3); k < m; ++k)
      y[k] = 0;
  if (zeros == 2 || zeros == 3)
    for (size_t k = 0, m = g.n(0, n / 3); k < m; ++k)
      y[n - 1 - k] = 0;
  if (zeros == 4)
    for (size_t k = g.n(0, n - 1), m = g.n(1, n); k < m; ++k)
      y[k] = 0;
  return y;
}
V genErr(Ctx &g, size_t n, double scale) {
  V e(n, scale);
  if (g.b())
    for (auto &t : e)
      t = scale * g.logf(0.2, 5);
  return e;
}
double scaleOf(const V &y) {
  double s = 0;
  for (double t : y)
    s = std::max(s, std::abs(t));
  return s;
}
CSpectrumFluxAxis axisOf(const V &y, const V &e) { return CSpectrumFluxAxis(y.data(), y.size(), e.data(), e.size()); }

void same(const V &a, const V &b, double tol, const char *key, const std::string &ctx) {
  REQUIRE_(a.size() == b.size(), key, "sizes ", a.size(), " ", b.size(), " ", ctx);
  for (size_t k = 0; k < a.size(); ++k)
    if (!(std::abs(a[k] - b[k]) <= tol))
      pbt::fail(key, "sample ", k, " is ", a[k], " but expected ", b[k], " ", ctx);
}

// compares every view of the spectrum with the model; fails on any difference
void check(Ctx &g, const CSpectrum &s, const Model &m, const std::string &when) {
  same(s.GetRawFluxAxis().GetSamplesVector(), m.y, 0, "raw flux changed", when);
  same(s.GetRawFluxAxis().GetError().GetSamplesVector(), m.e, 0, "raw error changed", when);
  same(s.GetSpectralAxis().GetSamplesVector(), m.x, 0, "wavelengths changed", when);
  REQUIRE_(int(s.GetType()) == m.type, "view changed", "expected ", m.type, " got ", int(s.GetType()), " ", when);
  REQUIRE_(s.GetName() == m.name, "name changed", s.GetName(), " instead of ", m.name, " ", when);
  REQUIRE_(s.getObsID() == m.obs, "observation changed", s.getObsID(), " instead of ", m.obs, " ", when);
  REQUIRE_(s.GetLSF() == m.lsf, "instrument response lost", when);
  REQUIRE_(s.GetPhotData() == m.phot, "photometry lost", when);
  REQUIRE_(s.GetContinuumEstimationMethod() == m.method, "method changed", when);
  REQUIRE_(s.GetMedianWinsize() == m.win && s.GetMedianEvenReflection() == m.even, "median settings changed", when);
  double sc = scaleOf(m.y);
  V want(m.x.size(), 0.);
  Est est = Est::ok;
  double tol = 0;
  if (m.method == "irregularSamplingMedian") {
    double r = m.win * double(m.x.size() - 1) / (m.x.back() - m.x.front());
    if (std::abs(r - std::floor(r) - 0.5) < 1e-5)
      g.discard(); // the number of samples of the window depends on rounding
    est = refMedian(m.x, m.y, m.e, m.win, m.even, want);
    tol = 1e-9 * sc * (m.even ? 1 : 100);
    if (est == Est::zeroContinuumFree)
      want = m.y, tol = 0;
  } else if (m.method == "raw")
    want = m.y;
  else if (m.method == "manual")
    want = m.manual, sc = std::max(sc, scaleOf(want));
  else if (m.method != "zero")
    est = Est::noEstimate;
  if (est == Est::noEstimate) {
    g.label("no estimate");
    REQUIRE_(throws([&] { s.GetContinuumFluxAxis(); }), "unusable settings are not refused", when, " method ", m.method,
             " win ", m.win);
    return;
  }
  g.label("method " + m.method + (m.even ? "" : " odd"));
  g.nontrivial();
  // reading order must not matter
  bool first = g.b();
  if (first)
    s.GetWithoutContinuumFluxAxis();
  V c = s.GetContinuumFluxAxis().GetSamplesVector(), w = s.GetWithoutContinuumFluxAxis().GetSamplesVector();
  std::string ctx = when + " method " + m.method + " win " + std::to_string(m.win) + (m.even ? " even" : " odd");
  REQUIRE_(c.size() == m.y.size() && w.size() == m.y.size(), "sizes of the components", c.size(), " ", w.size(), " ", ctx);
  for (size_t k = 0; k < c.size(); ++k)
    if (!(std::abs(c[k] + w[k] - m.y[k]) <= 1e-14 * (sc + std::abs(c[k]))))
      pbt::fail("components do not add up", "sample ", k, ": ", c[k], " + ", w[k], " != ", m.y[k], " ", ctx);
  same(c, want, tol, "continuum", ctx);
  if (m.method != "manual") // a supplied continuum comes with its own error
    same(s.GetContinuumFluxAxis().GetError().GetSamplesVector(), m.e, 0, "error of the continuum", ctx);
  same(s.GetWithoutContinuumFluxAxis().GetError().GetSamplesVector(), m.e, 0, "error of the continuum-free flux", ctx);
  const V &view = m.type == CSpectrum::nType_raw ? m.y : m.type == CSpectrum::nType_continuumOnly ? c : w;
  same(s.GetFluxAxis().GetSamplesVector(), view, 0, "view", ctx);
  same(s.GetRawFluxAxis().GetSamplesVector(), m.y, 0, "raw flux changed by the estimation", ctx);
  REQUIRE_(int(s.GetType()) == m.type, "view changed by the estimation", ctx);
}

} // namespace

PROP("P07", history, 20000, 800000) {
  Model m;
  size_t n = g.n(2, 90);
  bool small = g.chance(30);
  if (!small)
    n = g.n(12, 160);
  m.x = incAxis(g, n, g.pick({1000., 3500., 1.}), 0.2, 20.);
  m.y = genFlux(g, n);
  m.e = genErr(g, n, 0.1 * std::max(scaleOf(m.y), 1e-20));
  m.method = "";
  m.name = "";
  m.obs = "";
  m.win = -1;
  m.even = true;
  m.type = CSpectrum::nType_raw;
  auto lsf = world::constantWidthLSF(3.);
  auto ph = std::make_shared<CPhotometricData>(TStringList{"b"}, V{1.}, V{1.});
  auto s = std::make_unique<CSpectrum>(CSpectrumSpectralAxis(m.x), axisOf(m.y, m.e), lsf);
  m.lsf = lsf;
  double res = n > 1 ? (m.x.back() - m.x.front()) / (n - 1) : 1.;
  auto genWin = [&] {
    double w = g.pick({1., 2., 3., 4., 6., 8., 12., 20., 40., 200., 0.2, -1.});
    return w < 0 ? -1. : w * res * g.f(0.8, 1.2);
  };
  std::string hist;
  if (!g.chance(20)) {
    s->SetMedianWinsize(m.win = std::abs(genWin()));
    m.method = g.pick({"irregularSamplingMedian", "irregularSamplingMedian", "raw", "zero"});
    s->SetContinuumEstimationMethod(m.method);
  }
  int nops = g.i(1, 14);
  for (int o = 0; o < nops; ++o) {
    int op = g.i(0, 19);
    // a view that cannot be estimated makes the spectrum invalid: those are not copied
    if (((op >= 10 && op <= 12) || op == 18) && throws([&] { s->GetFluxAxis(); }))
      op = 0;
    switch (op) {
    case 0:
    case 1: {
      m.method = "irregularSamplingMedian";
      s->SetContinuumEstimationMethod(m.method);
      hist += " median";
      break;
    }
    case 2:
      m.method = g.pick({"raw", "zero", "zero", "unknown"});
      s->SetContinuumEstimationMethod(m.method);
      hist += " " + m.method;
      break;
    case 3: {
      V c = genFlux(g, m.x.size());
      m.manual = c;
      m.method = "manual";
      s->SetContinuumEstimationMethod(axisOf(c, m.e));
      hist += " manual";
      break;
    }
    case 4:
    case 5:
      m.win = genWin();
      s->SetMedianWinsize(m.win);
      hist += " win";
      break;
    case 6:
      m.even = g.b();
      s->SetMedianEvenReflection(m.even);
      hist += m.even ? " even" : " odd";
      break;
    case 7:
    case 8:
      m.type = g.pick({1, 2, 3});
      s->SetType(CSpectrum::EType(m.type));
      hist += " view" + std::to_string(m.type);
      break;
    case 9: { // new flux
      if (m.method == "manual")
        break; // the supplied continuum belongs to the old flux
      m.y = genFlux(g, m.x.size());
      m.e = genErr(g, m.x.size(), 0.1 * std::max(scaleOf(m.y), 1e-20));
      m.type = CSpectrum::nType_raw;
      if (g.b())
        s->SetFluxAxis(axisOf(m.y, m.e));
      else {
        CSpectrumFluxAxis a = axisOf(m.y, m.e);
        s->SetFluxAxis(a);
      }
      hist += " setflux";
      break;
    }
    case 10: { // copy
      auto c = std::make_unique<CSpectrum>(*s);
      hist += " copy";
      if (g.b()) {
        check(g, *s, m, "original after" + hist);
      }
      s = std::move(c);
      break;
    }
    case 11: { // assignment
      V dx = incAxis(g, g.n(2, 20), 100, 1, 2);
      auto c = std::make_unique<CSpectrum>(CSpectrumSpectralAxis(dx), CSpectrumFluxAxis(V(dx.size(), 1.)));
      c->SetContinuumEstimationMethod("zero");
      if (g.b())
        c->GetContinuumFluxAxis();
      c->setObsID("old");
      if (g.b())
        *c = *s;
      else
        *c = std::move(*s);
      s = std::move(c);
      hist += " assign";
      break;
    }
    case 12: { // move
      auto c = std::make_unique<CSpectrum>(std::move(*s));
      s = std::move(c);
      hist += " move";
      break;
    }
    case 13: { // extract
      if (m.x.size() < 4)
        break;
      size_t a = g.n(0, m.x.size() - 3), b = g.n(a + 2, m.x.size() - 1);
      auto cut = [&](const V &v) { return V(v.begin() + a, v.begin() + b + 1); };
      CSpectrum c = s->extract(int(a), int(b));
      same(c.GetSpectralAxis().GetSamplesVector(), cut(m.x), 0, "extracted wavelengths", hist);
      same(c.GetRawFluxAxis().GetSamplesVector(), cut(m.y), 0, "extracted flux", hist);
      same(c.GetRawFluxAxis().GetError().GetSamplesVector(), cut(m.e), 0, "extracted error", hist);
      REQUIRE_(c.GetLSF() == m.lsf, "extraction loses the instrument response", hist);
      hist += " extract";
      break;
    }
    case 14: { // masked copy
      size_t k = m.x.size();
      if (k < 4)
        break;
      bool estimated = g.b(); // the components are masked when they were estimated, else estimated again
      if (estimated)
        try {
          s->GetContinuumFluxAxis();
        } catch (const AmzException &) {
          estimated = false;
        }
      V mask(k, 0.);
      size_t keep = 0;
      for (size_t i = 0; i < k; ++i)
        if (!g.chance(20))
          mask[i] = 1., ++keep;
      if (keep < 2)
        break;
      auto cut = [&](const V &v) {
        V r;
        for (size_t i = 0; i < v.size(); ++i)
          if (mask[i] == 1.)
            r.push_back(v[i]);
        return r;
      };
      V c, w;
      if (estimated) {
        c = cut(s->GetContinuumFluxAxis().GetSamplesVector());
        w = cut(s->GetWithoutContinuumFluxAxis().GetSamplesVector());
      }
      CSpectrum t(*s, mask);
      same(t.GetSpectralAxis().GetSamplesVector(), cut(m.x), 0, "masked wavelengths", hist);
      same(t.GetRawFluxAxis().GetSamplesVector(), cut(m.y), 0, "masked flux", hist);
      same(t.GetRawFluxAxis().GetError().GetSamplesVector(), cut(m.e), 0, "masked error", hist);
      REQUIRE_(int(t.GetType()) == m.type && t.GetLSF() == m.lsf && t.GetPhotData() == m.phot && t.getObsID() == m.obs,
               "masked copy loses its attributes", hist);
      if (estimated || m.method == "manual") {
        if (m.method == "manual")
          c = cut(m.manual);
        same(t.GetContinuumFluxAxis().GetSamplesVector(), c, 0, "masked continuum", hist);
        if (estimated)
          same(t.GetWithoutContinuumFluxAxis().GetSamplesVector(), w, 0, "masked continuum-free flux", hist);
        g.label("masked copy compared");
      }
      hist += estimated ? " maskedcopy" : " earlymaskedcopy";
      break;
    }
    case 15: {
      if (m.method == "manual" && g.b())
        s->GetContinuumFluxAxis(); // both before and after the first reading
      double a = g.pick({2., -1., 0.5, 4.}); // exact in floating point
      s->ApplyAmplitude(a);
      for (auto &t : m.y)
        t *= a;
      for (auto &t : m.manual)
        t *= a;
      hist += " amplitude";
      break;
    }
    case 16:
      s->InvertFlux();
      for (auto &t : m.y)
        t = -t;
      for (auto &t : m.manual)
        t = -t;
      hist += " invert";
      break;
    case 17: {
      m.name = g.pick({"a", "b"});
      m.obs = g.pick({"", "o1"});
      s->SetName(m.name);
      s->setObsID(m.obs);
      if (g.b()) {
        m.phot = ph;
        s->SetPhotData(ph);
      }
      break;
    }
    case 18: { // (re)initialisation from the parameters
      world::Params p;
      int smooth = g.pick({0, 0, 1, 3});
      m.method = g.pick({"irregularSamplingMedian", "irregularSamplingMedian", "raw", "zero"});
      m.win = genWin();
      m.even = g.b();
      p.set("smoothWidth", double(smooth));
      p.set("continuumRemoval.method", m.method);
      p.set("continuumRemoval.medianKernelWidth", m.win);
      p.set("continuumRemoval.medianEvenReflection", m.even);
      CParameterStore store(std::make_shared<CScopeStack>());
      store.FromString(p.str());
      s->InitSpectrumContinuum(store);
      m.type = CSpectrum::nType_raw;
      if (smooth > 0 && int(m.y.size()) >= smooth + 1) {
        V sm(m.y.size());
        for (int i = 0; i < int(m.y.size()); ++i)
          sm[i] = meanOf(V(m.y.begin() + std::max(0, i - smooth), m.y.begin() + std::min<int>(m.y.size(), i + smooth + 1)));
        same(s->GetRawFluxAxis().GetSamplesVector(), sm, 1e-13 * scaleOf(m.y), "smoothed flux", hist);
        m.y = s->GetRawFluxAxis().GetSamplesVector();
      }
      hist += " init";
      break;
    }
    case 19:
      check(g, *s, m, "after" + hist);
      hist += " check";
      break;
    }
  }
  g.note("n=", n, " step=", res, " ops:", hist, " win=", m.win);
  check(g, *s, m, "at the end of" + hist);
  check(g, *s, m, "again at the end of" + hist);
}

// the definition, on longer spectra
PROP("P07", median, 4000, 120000) {
  Model m;
  size_t n = g.n(11, 600);
  m.x = incAxis(g, n, g.pick({1000., 3500.}), 0.2, 20.);
  m.y = genFlux(g, n);
  m.e = genErr(g, n, 0.1 * std::max(scaleOf(m.y), 1e-20));
  m.method = "irregularSamplingMedian";
  m.type = g.pick({1, 2, 3});
  m.even = g.b();
  double res = (m.x.back() - m.x.front()) / (n - 1);
  m.win = g.logf(0.3, 150) * res;
  CSpectrum s{CSpectrumSpectralAxis(m.x), axisOf(m.y, m.e)};
  s.SetMedianWinsize(m.win);
  s.SetMedianEvenReflection(m.even);
  s.SetContinuumEstimationMethod(m.method);
  s.SetType(CSpectrum::EType(m.type));
  g.note("n=", n, " window=", m.win, " step=", res, m.even ? " even" : " odd", " view ", m.type);
  g.notev("flux", m.y);
  check(g, s, m, "");
}
