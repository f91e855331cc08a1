// P05 - resampling a spectrum
#include "util.h"

#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/rebin/rebin.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "RedshiftLibrary/spectrum/template/template.h"

using namespace util;

namespace {

struct Spc {
  V x, y, e;
};

Spc genSpc(Ctx &g, size_t nmin = 3, size_t nmax = 40) {
  Spc s;
  size_t n = g.n(nmin, nmax);
  s.x = incAxis(g, n, g.pick({1000., 3801.7, 12000.25}), 0.21, 12.);
  if (g.chance(30)) // logarithmic
    s.x = logAxis(n, s.x[0], g.logf(1e-4, 3e-3));
  s.y = curve(g, n, g.pick({1., 1e-17, 50.}));
  s.e.resize(n);
  for (auto &v : s.e)
    v = g.logf(0.1, 3.);
  return s;
}

CSpectrum make(const Spc &s) {
  return CSpectrum(CSpectrumSpectralAxis(s.x), CSpectrumFluxAxis(s.y.data(), s.y.size(), s.e.data(), s.e.size()));
}

// natural cubic spline through (x,y)
struct Spline {
  const V &x, &y;
  V m; // second derivatives
  Spline(const V &x_, const V &y_) : x(x_), y(y_), m(x_.size(), 0.) {
    size_t n = x.size();
    V c(n, 0.), d(n, 0.);
    for (size_t i = 1; i + 1 < n; ++i) {
      double h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
      double a = h0, b = 2 * (h0 + h1), r = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
      double p = b - a * c[i - 1];
      c[i] = h1 / p;
      d[i] = (r - a * d[i - 1]) / p;
    }
    for (size_t i = n - 1; i-- > 1;)
      m[i] = d[i] - c[i] * m[i + 1];
  }
  double operator()(double t) const {
    size_t k = std::upper_bound(x.begin(), x.end(), t) - x.begin();
    k = std::min(std::max<size_t>(k, 1), x.size() - 1) - 1;
    double h = x[k + 1] - x[k], a = (x[k + 1] - t) / h, b = (t - x[k]) / h;
    return a * y[k] + b * y[k + 1] + ((a * a * a - a) * m[k] + (b * b * b - b) * m[k + 1]) * h * h / 6;
  }
};

// target axis crossing the range; ends on exact source samples or range ends from time to time
V genTarget(Ctx &g, const Spc &s, const TFloat64Range &r) {
  double lo = s.x.front(), hi = s.x.back(), w = hi - lo;
  V t;
  int kind = g.i(0, 3);
  if (kind == 0) { // regular
    size_t n = g.n(1, 60);
    double a = g.f(lo - 0.2 * w, lo + 0.6 * w), step = g.logf(w / 200, w / 2);
    t = linAxis(n, a, step);
  } else { // anything, with special points
    size_t n = g.n(1, 40);
    for (size_t k = 0; k < n; ++k) {
      int q = g.i(0, 5);
      if (q == 0)
        t.push_back(g.pickv(s.x));
      else if (q == 1)
        t.push_back(g.b() ? r.GetBegin() : r.GetEnd());
      else if (q == 2)
        t.push_back(g.b() ? r.GetEnd() + g.f(0., w / s.x.size()) : hi - g.f(0, 0.2));
      else
        t.push_back(g.f(lo - 0.1 * w, hi + 0.1 * w));
    }
    std::sort(t.begin(), t.end());
    t.erase(std::unique(t.begin(), t.end()), t.end());
  }
  return t;
}

TFloat64Range genRange(Ctx &g, const Spc &s) {
  double lo = s.x.front(), hi = s.x.back();
  double a = lo, b = hi;
  if (g.b())
    a = g.b() ? g.pickv(s.x) : g.f(lo, hi);
  if (g.b())
    b = g.b() ? g.pickv(s.x) : g.f(lo, hi);
  if (a > b)
    std::swap(a, b);
  return TFloat64Range(a, b);
}

double ampl(const V &y) {
  double m = 0;
  for (double v : y)
    m = std::max(m, std::abs(v));
  return m;
}

// check one rebin output against the definition
void checkRebin(Ctx &g, const Spc &s, const std::string &m, const TFloat64Range &r, const V &t, const std::string &eo,
                const CSpectrum &out, const CMask &mask, bool exact = true, double scale = 0) {
  REQUIRE_(mask.GetMasksCount() == Int32(t.size()), "mask-size", mask.GetMasksCount(), " ", t.size());
  REQUIRE_(out.GetSpectralAxis().GetSamplesVector() == t, "target-axis");
  REQUIRE_(out.GetType() == CSpectrum::nType_raw, "type");
  const V y = out.GetFluxAxis().GetSamplesVector();
  const V e = out.GetErrorAxis().GetSamplesVector();
  REQUIRE_(y.size() == t.size() && e.size() == t.size(), "sizes");
  Spline sp(s.x, s.y);
  double A = std::max(ampl(s.y), scale), tol = 1e-10 * A;
  size_t inside = 0;
  for (size_t k = 0; k < t.size(); ++k) {
    bool in = t[k] >= r.GetBegin() && t[k] <= r.GetEnd();
    REQUIRE_(mask[k] == (in ? 1 : 0), in ? "covered-target-masked" : "uncovered-target-valid", m, " k=", k, " x=", t[k],
             " range ", r.GetBegin(), " ", r.GetEnd());
    if (!in) {
      REQUIRE_(y[k] == 0., "outside-not-zero", m, " k=", k, " y=", y[k]);
      if (eo != "no")
        REQUIRE_(std::isinf(e[k]) && e[k] > 0, "outside-error", m, " k=", k, " e=", e[k]);
      continue;
    }
    ++inside;
    size_t i = std::upper_bound(s.x.begin(), s.x.end(), t[k]) - s.x.begin();
    i = std::min(std::max<size_t>(i, 1), s.x.size() - 1) - 1; // t in [x_i, x_i+1]
    double f = (t[k] - s.x[i]) / (s.x[i + 1] - s.x[i]);
    double dst = t.size() < 2 ? NAN : (k + 1 < t.size() ? t[k + 1] - t[k] : t[k] - t[k - 1]);
    if (m == "lin") {
      REQUIRE_CLOSE(y[k], s.y[i] + f * (s.y[i + 1] - s.y[i]), 0, tol, "linear-value", "x=", t[k]);
      if (eo == "rebin")
        REQUIRE_CLOSE(e[k], s.e[i] + f * (s.e[i + 1] - s.e[i]), 1e-9, 0, "linear-error", "x=", t[k]);
      if (eo == "rebinVariance") {
        auto ref = [&](size_t j) {
          double q = (t[k] - s.x[j]) / (s.x[j + 1] - s.x[j]);
          double c = std::hypot(s.e[j] * (1 - q), s.e[j + 1] * q);
          return t.size() < 2 ? c : c * std::sqrt((s.x[j + 1] - s.x[j]) / dst);
        };
        // on a source sample the step is the one of either side
        if (!pbt::close(e[k], ref(i), 1e-8))
          REQUIRE_(f < 1e-9 && i > 0 && pbt::close(e[k], ref(i - 1), 1e-8), "linear-variance", "x=", t[k], " got ", e[k],
                   " expected ", ref(i));
      }
    } else if (m == "ngp") {
      auto ok = [&](size_t j) {
        if (exact ? y[k] != s.y[j] : !pbt::close(y[k], s.y[j], 0, tol))
          return false;
        if (eo == "rebin")
          return e[k] == s.e[j];
        if (eo == "rebinVariance") {
          double src = j + 1 < s.x.size() ? s.x[j + 1] - s.x[j] : s.x[j] - s.x[j - 1];
          return pbt::close(e[k], t.size() < 2 ? s.e[j] : s.e[j] * std::sqrt(src / dst), 1e-9);
        }
        return true;
      };
      bool good = std::abs(f - 0.5) < 1e-9 ? ok(i) || ok(i + 1) : ok(f < 0.5 ? i : i + 1);
      REQUIRE_(good, "nearest-value", "x=", t[k], " got ", y[k], " e ", e[k]);
    } else if (m == "spline") {
      REQUIRE_CLOSE(y[k], sp(t[k]), 0, 1e-8 * std::max(A, std::abs(sp(t[k]))), "spline-value", "x=", t[k]);
    } else { // value of the spline at the closest node, step 0.1 from the first sample
      double d = 0.1, q = (t[k] - s.x[0]) / d;
      double last = std::floor((s.x.back() - s.x[0]) / d);
      bool good = false;
      double ref = 0;
      for (double n : {std::round(q), std::round(q - 1e-6), std::round(q + 1e-6), last, last - 1}) {
        if (n < 0 || std::abs(n - q) > 0.5 + 1e-5 && n < last - 1e-9 && !(n == last - 1 && q > last - 0.5))
          continue;
        ref = sp(std::min(s.x[0] + n * d, s.x.back()));
        good = good || pbt::close(y[k], ref, 0, 1e-7 * std::max(A, std::abs(ref)));
      }
      // a fine grid extended by a node on the last sample is as good
      good = good || (q > last && pbt::close(y[k], sp(s.x.back()), 0, 1e-7 * A));
      REQUIRE_(good, "fine-grid-value", "x=", t[k], " got ", y[k], " expected ", ref, " axis ", s.x[0], "..", s.x.back());
    }
  }
  g.nontrivial(inside > 1);
}

const std::initializer_list<const char *> METHODS = {"lin", "ngp", "spline", "preComputedFineGrid"};

} // namespace

PROP("P05", interp, 30000, 400000) {
  Spc s = genSpc(g);
  std::string m = g.pick(METHODS);
  bool simple = m == "lin" || m == "ngp";
  std::string eo = simple ? g.pick({"no", "rebin", "rebinVariance"}) : "no";
  TFloat64Range r = genRange(g, s);
  V t = genTarget(g, s, r);
  if (t.empty())
    g.discard();
  g.label(m + "/" + eo);
  g.note(m, " ", eo, " range ", r.GetBegin(), " ", r.GetEnd());
  g.notev("x", s.x);
  g.notev("t", t);
  CSpectrum spc = make(s), out;
  CMask mask;
  if (g.b()) { // buffers already used
    Spc o = genSpc(g);
    out = make(o);
    mask = CMask(Int32(g.n(1, 50)));
  }
  if (g.b()) {
    spc.setRebinInterpMethod(m);
    spc.Rebin(r, CSpectrumSpectralAxis(t), out, mask, eo);
  } else
    CRebin::create(m, spc)->compute(r, CSpectrumSpectralAxis(t), out, mask, eo);
  checkRebin(g, s, m, r, t, eo, out, mask);
  // the source is untouched
  REQUIRE_(spc.GetFluxAxis().GetSamplesVector() == s.y && spc.GetErrorAxis().GetSamplesVector() == s.e &&
               spc.GetSpectralAxis().GetSamplesVector() == s.x,
           "source-modified");
}

PROP("P05", identity, 1500, 40000) {
  Spc s = genSpc(g);
  std::string m = g.pick({"lin", "ngp", "spline"});
  CSpectrum spc = make(s), out;
  CMask mask;
  spc.setRebinInterpMethod(m);
  std::string eo = m == "spline" ? "no" : "rebin";
  spc.Rebin(TFloat64Range(s.x.front(), s.x.back()), spc.GetSpectralAxis(), out, mask, eo);
  double A = ampl(s.y);
  for (size_t k = 0; k < s.x.size(); ++k) {
    REQUIRE_(mask[k] == 1, "identity-mask", m, " k=", k);
    REQUIRE_CLOSE(out.GetFluxAxis()[k], s.y[k], 0, 1e-12 * A, "identity-flux", m, " k=", k);
    if (eo == "rebin")
      REQUIRE_CLOSE(out.GetErrorAxis()[k], s.e[k], 1e-12, 0, "identity-error", m, " k=", k);
  }
  g.nontrivial(s.x.size() > 3);
}

PROP("P05", linearity, 6000, 80000) {
  Spc s1 = genSpc(g), s2 = s1, s3 = s1;
  s2.y = curve(g, s1.x.size(), 1.);
  double a = g.f(-3, 3), b = g.f(-3, 3);
  for (size_t k = 0; k < s1.y.size(); ++k)
    s3.y[k] = a * s1.y[k] + b * s2.y[k];
  std::string m = g.pick(METHODS);
  TFloat64Range r = genRange(g, s1);
  V t = genTarget(g, s1, r);
  if (t.empty())
    g.discard();
  CSpectrum o1, o2, o3;
  CMask k1, k2, k3;
  CSpectrum c1 = make(s1), c2 = make(s2), c3 = make(s3);
  CRebin::create(m, c1)->compute(r, CSpectrumSpectralAxis(t), o1, k1, "no");
  CRebin::create(m, c2)->compute(r, CSpectrumSpectralAxis(t), o2, k2, "no");
  CRebin::create(m, c3)->compute(r, CSpectrumSpectralAxis(t), o3, k3, "no");
  double A = std::abs(a) * ampl(s1.y) + std::abs(b) * ampl(s2.y);
  for (size_t k = 0; k < t.size(); ++k) {
    double ref = a * o1.GetFluxAxis()[k] + b * o2.GetFluxAxis()[k];
    // a spline may overshoot on a wild axis
    REQUIRE_CLOSE(o3.GetFluxAxis()[k], ref, 1e-8, 1e-8 * A + 1e-10 * std::abs(o1.GetFluxAxis()[k]), "linearity", m, " k=", k);
  }
  g.nontrivial(t.size() > 2);
}

// whatever was done to a spectrum before, resampling it gives what a new spectrum gives
PROP("P05", history, 15000, 200000) {
  Spc s = genSpc(g, 24, 60);
  CSpectrum spc = make(s);
  spc.SetContinuumEstimationMethod("zero");
  std::string m = g.pick(METHODS), method = "zero";
  spc.setRebinInterpMethod(m);
  V cont; // manual continuum
  size_t n = g.n(1, 12);
  CSpectrum out; // reused
  CMask mask;
  CSpectrum::EType type = CSpectrum::nType_raw;
  int rebins = 0, changes = 0;
  for (size_t op = 0; op <= n; ++op) {
    int what = op == n ? 0 : g.i(0, 11);
    ++changes;
    switch (what) {
    case 0:
    case 1:
    case 2: {
      --changes;
      TFloat64Range r = genRange(g, s);
      V t = genTarget(g, s, r);
      if (t.empty())
        break;
      g.note("rebin ", m);
      spc.Rebin(r, CSpectrumSpectralAxis(t), out, mask, "no");
      Spc c = s;
      size_t N = s.y.size();
      V co(N, 0.);
      if (method == "raw")
        co = s.y;
      if (method == "manual")
        co = cont;
      if (type == CSpectrum::nType_continuumOnly)
        c.y = co;
      if (type == CSpectrum::nType_noContinuum)
        for (size_t k = 0; k < N; ++k)
          c.y[k] = s.y[k] - co[k];
      checkRebin(g, c, m, r, t, "no", out, mask, false, std::max(ampl(s.y), ampl(co)));
      ++rebins;
      break;
    }
    case 3:
      m = g.pick(METHODS);
      g.note("convert ", m);
      spc.setRebinInterpMethod(m);
      break;
    case 4: {
      double a = g.f(-2, 2);
      g.note("amplitude ", a);
      bool hadContinuum = type != CSpectrum::nType_raw;
      (void)hadContinuum;
      spc.GetContinuumFluxAxis(); // make the outcome well defined for a manual continuum
      spc.ApplyAmplitude(a);
      for (auto &v : s.y)
        v *= a;
      for (auto &v : cont)
        v *= a;
      break;
    }
    case 5:
      g.note("invert");
      spc.GetContinuumFluxAxis();
      spc.InvertFlux();
      for (auto &v : s.y)
        v = -v;
      for (auto &v : cont)
        v = -v;
      break;
    case 6:
      g.note("set flux");
      s.y = curve(g, s.x.size(), 2.);
      spc.SetContinuumEstimationMethod("zero");
      method = "zero";
      spc.SetFluxAxis(CSpectrumFluxAxis(s.y.data(), s.y.size(), s.e.data(), s.e.size()));
      type = CSpectrum::nType_raw;
      break;
    case 7:
      g.note("set spectral axis");
      s.x = incAxis(g, s.x.size(), g.f(900, 5000), 0.3, 9.);
      spc.SetSpectralAxis(CSpectrumSpectralAxis(s.x));
      break;
    case 8:
      type = g.pick({CSpectrum::nType_raw, CSpectrum::nType_continuumOnly, CSpectrum::nType_noContinuum});
      g.note("type ", int(type));
      spc.SetType(type);
      break;
    case 9:
      method = g.pick({"raw", "zero"});
      g.note("continuum ", method);
      spc.SetContinuumEstimationMethod(method);
      break;
    case 10:
      cont = curve(g, s.x.size(), 1.);
      method = "manual";
      g.note("manual continuum");
      spc.SetContinuumEstimationMethod(CSpectrumFluxAxis(cont));
      break;
    case 11: {
      g.note("copy");
      CSpectrum c(spc);
      if (g.b()) {
        CSpectrum d = make(genSpc(g));
        d.setRebinInterpMethod(g.pick(METHODS));
        if (g.b())
          d.Rebin(TFloat64Range(d.GetSpectralAxis()[0], d.GetSpectralAxis()[1]), d.GetSpectralAxis(), out, mask, "no");
        d = spc;
        spc = d;
      } else
        spc = std::move(c);
      break;
    }
    }
  }
  g.nontrivial(rebins > 1 && changes > 0);
}

PROP("P05", refusals, 1500, 30000) {
  Spc s = genSpc(g);
  CSpectrum spc = make(s), out;
  CMask mask;
  double lo = s.x.front(), hi = s.x.back(), w = hi - lo;
  V t = linAxis(10, lo - 0.1 * w, w / 7);
  int kind = g.i(0, 3);
  g.label("kind" + std::to_string(kind));
  ErrorCode code;
  std::string m = g.pick(METHODS);
  if (kind == 0 || kind == 1) {
    spc.setRebinInterpMethod(m);
    double a = kind == 0 ? lo - g.logf(1e-6, 1.) * w : lo + g.u() * w * 0.5;
    double b = kind == 1 ? hi + g.logf(1e-6, 1.) * w : hi - g.u() * w * 0.4;
    REQUIRE_(throws([&] { spc.Rebin(TFloat64Range(a, b), CSpectrumSpectralAxis(t), out, mask, "no"); }, &code),
             "uncovered-range-accepted", m, " ", a, " ", b, " axis ", lo, " ", hi);
    REQUIRE_(code == ErrorCode::INTERNAL_ERROR, "code");
  } else if (kind == 2) {
    std::string bad = g.pick({"", "linear", "Lin", "splines", "no"});
    REQUIRE_(throws([&] { spc.setRebinInterpMethod(bad); }, &code), "unknown-method-accepted", bad);
    REQUIRE_(throws([&] { CRebin::create(bad, spc); }, &code), "unknown-method-accepted", bad);
  } else {
    std::string mm = g.pick({"spline", "preComputedFineGrid"});
    spc.setRebinInterpMethod(mm);
    REQUIRE_(throws([&] {
               spc.Rebin(TFloat64Range(lo, hi), CSpectrumSpectralAxis(t), out, mask, g.pick({"rebin", "rebinVariance"}));
             }),
             "noise-accepted", mm);
  }
  g.nontrivial();
}
