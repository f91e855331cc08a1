// P08: what the validation accepts, refuses and corrects, and the statistics of masked ranges.
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "world.h"
#include <cfloat>
using namespace util;

namespace {
const double NaN = NAN, Inf = INFINITY;

bool fluxOk(double y) { return std::isfinite(y); }
bool errOk(double e) { return std::isfinite(e) && e >= DBL_MIN && std::isfinite(1. / (e * e)); }

struct Case {
  V x, y, e;
  double lo, hi;
  std::vector<size_t> in; // samples of the range used
};

Case gen(Ctx &g) {
  Case c;
  size_t n = g.n(2, 60);
  c.x = incAxis(g, n, g.pick({1000., 3500.}), 0.2, 10.);
  double sc = g.pick({1., 1e-17, 1e5});
  c.y.resize(n);
  c.e.resize(n);
  bool integers = g.b();
  for (size_t k = 0; k < n; ++k) {
    c.y[k] = sc * (integers ? double(g.i(0, 5)) : g.f(-1, 3));
    c.e[k] = sc * g.logf(0.01, 2.);
  }
  if (g.chance(5))
    c.y.assign(n, 0.);
  // the requested range: anywhere, sometimes on samples, sometimes beyond the spectrum
  auto bound = [&](bool low) {
    int kind = g.i(0, 3);
    double span = c.x.back() - c.x.front();
    if (kind == 0)
      return low ? c.x.front() - span : c.x.back() + span;
    if (kind == 1)
      return c.x[g.n(0, n - 1)];
    if (kind == 2)
      return low ? c.x.front() : c.x.back();
    return c.x.front() + span * g.f(-0.1, 1.1);
  };
  c.lo = bound(true);
  c.hi = bound(false);
  if (c.lo > c.hi)
    std::swap(c.lo, c.hi);
  for (size_t k = 0; k < n; ++k)
    if (c.x[k] >= c.lo && c.x[k] <= c.hi)
      c.in.push_back(k);
  return c;
}

// invalid values; the samples of the border of the range are hit more often
void spoil(Ctx &g, Case &c, int maxBad) {
  int bad = g.i(0, maxBad);
  for (int b = 0; b < bad; ++b) {
    size_t k = g.n(0, c.x.size() - 1);
    int where = g.i(0, 3);
    if (!c.in.empty() && where == 1)
      k = c.in.back();
    if (!c.in.empty() && where == 2)
      k = c.in.front();
    if (!c.in.empty() && where == 3)
      k = g.pickv(c.in);
    if (g.b())
      c.y[k] = g.pick({NaN, Inf, -Inf});
    else
      c.e[k] = g.pick({0., -1., NaN, Inf, -Inf, 1e-200, 1e-310, -0.});
  }
}

CSpectrum make(const Case &c, const std::shared_ptr<const CLSF> &lsf = nullptr) {
  return CSpectrum(CSpectrumSpectralAxis(c.x), CSpectrumFluxAxis(c.y.data(), c.y.size(), c.e.data(), c.e.size()), lsf);
}
bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void note(Ctx &g, const Case &c) {
  g.note("range ", c.lo, "..", c.hi, " samples in range ", c.in.size());
  g.notev("x", c.x);
  g.notev("flux", c.y);
  g.notev("error", c.e);
}
std::string code(ErrorCode e) { return std::to_string(int(e)); }

} // namespace

PROP("P08", validate, 100000, 4000000) {
  Case c = gen(g);
  spoil(g, c, 3);
  note(g, c);
  if (c.in.size() < 2)
    g.discard(); // a range needs two samples
  bool correct = g.b();
  bool badFlux = false, badErr = false, allZero = true;
  double minF = Inf, maxE = -Inf;
  for (size_t k : c.in) {
    badFlux |= !fluxOk(c.y[k]);
    badErr |= !errOk(c.e[k]);
    if (c.y[k] != 0)
      allZero = false;
    if (fluxOk(c.y[k]) && errOk(c.e[k]))
      minF = std::min(minF, std::abs(c.y[k])), maxE = std::max(maxE, c.e[k]);
  }
  auto s = make(c);
  ErrorCode ec;
  bool refused = throws([&] { s.ValidateSpectrum(TFloat64Range(c.lo, c.hi), correct); }, &ec);
  const V &y = s.GetRawFluxAxis().GetSamplesVector(), &e = s.GetRawFluxAxis().GetError().GetSamplesVector();
  V wantY = c.y, wantE = c.e;
  if (correct) {
    if (minF == Inf) {
      g.label("nothing valid");
      REQUIRE_(refused && ec == ErrorCode::SPECTRUM_CORRECTION_ERROR, "correction without any valid sample is not refused",
               "refused ", refused);
      g.nontrivial();
      return;
    }
    allZero = true;
    for (size_t k : c.in) {
      if (!fluxOk(c.y[k]) || !errOk(c.e[k])) {
        wantY[k] = minF / 10.;
        wantE[k] = maxE * 10.;
        g.label("corrected");
      }
      if (wantY[k] != 0)
        allZero = false;
    }
    // a correction that cannot give a valid sample (overflow) is out of scope
    badFlux = badErr = false;
  }
  g.nontrivial();
  for (size_t k = 0; k < c.x.size(); ++k) {
    bool in = c.x[k] >= c.lo && c.x[k] <= c.hi;
    const char *key = !correct ? "validation changed a sample"
                      : in     ? "wrong value after correction"
                               : "correction changed a sample outside the range";
    if (!eq(y[k], wantY[k]) &&
        !(correct && std::abs(y[k] - wantY[k]) <= 4e-16 * std::abs(wantY[k]) && wantY[k] != c.y[k]))
      pbt::fail(key, "flux of sample ", k, " is ", y[k], " but expected ", wantY[k]);
    if (!eq(e[k], wantE[k]) &&
        !(correct && std::abs(e[k] - wantE[k]) <= 4e-16 * std::abs(wantE[k]) && wantE[k] != c.e[k]))
      pbt::fail(key, "error of sample ", k, " is ", e[k], " but expected ", wantE[k]);
  }
  if (badFlux || badErr || allZero) {
    g.label(badFlux ? "bad flux" : badErr ? "bad error" : "all zero");
    REQUIRE_(refused, "invalid spectrum accepted", (badFlux ? "flux" : badErr ? "error" : "all zero"));
    if (badFlux)
      REQUIRE_(ec == ErrorCode::INVALID_SPECTRUM_FLUX, "error code", code(ec));
    else if (badErr && !allZero)
      REQUIRE_(ec == ErrorCode::INVALID_NOISE, "error code", code(ec));
  } else {
    g.label("accepted");
    REQUIRE_(!refused, "valid spectrum refused", "code ", code(ec));
  }
}

// any coefficient, called directly; a second correction changes nothing
PROP("P08", correct, 100000, 3000000) {
  Case c = gen(g);
  spoil(g, c, 6);
  note(g, c);
  if (c.in.size() < 2)
    g.discard();
  double coeff = g.pick({10., 1., 2., 100., 0.5});
  double minF = Inf, maxE = -Inf;
  bool any = false;
  for (size_t k : c.in)
    if (fluxOk(c.y[k]) && errOk(c.e[k]))
      minF = std::min(minF, std::abs(c.y[k])), maxE = std::max(maxE, c.e[k]);
    else
      any = true;
  if (minF == Inf)
    g.discard();
  auto s = make(c);
  if (g.b()) { // an earlier estimation of the continuum must not survive
    s.SetContinuumEstimationMethod("zero");
    s.GetContinuumFluxAxis();
  }
  bool changed = s.correctSpectrum(std::max(c.lo, c.x.front()), std::min(c.hi, c.x.back()), coeff);
  REQUIRE_(changed == any, "wrong report of the correction", changed);
  g.nontrivial(any);
  const V y = s.GetRawFluxAxis().GetSamplesVector(), e = s.GetRawFluxAxis().GetError().GetSamplesVector();
  for (size_t k = 0; k < c.x.size(); ++k) {
    bool in = c.x[k] >= c.lo && c.x[k] <= c.hi;
    bool bad = in && !(fluxOk(c.y[k]) && errOk(c.e[k]));
    if (bad) {
      REQUIRE_CLOSE(y[k], minF / coeff, 1e-15, 0, "corrected flux", "sample ", k);
      REQUIRE_CLOSE(e[k], maxE * coeff, 1e-15, 0, "corrected error", "sample ", k);
    } else if (!eq(y[k], c.y[k]) || !eq(e[k], c.e[k]))
      pbt::fail("untouched sample changed", "sample ", k, " ", y[k], " ", e[k]);
  }
  if (s.GetContinuumEstimationMethod() == "zero") {
    const V &w = s.GetWithoutContinuumFluxAxis().GetSamplesVector();
    for (size_t k = 0; k < w.size(); ++k)
      REQUIRE_(eq(w[k], y[k]), "continuum-free flux is not the corrected one", "sample ", k);
  }
  REQUIRE_(!s.correctSpectrum(std::max(c.lo, c.x.front()), std::min(c.hi, c.x.back()), coeff), "second correction",
           "changes the spectrum again");
}

PROP("P08", construction, 60000, 1500000) {
  Case c = gen(g);
  note(g, c);
  int kind = g.i(0, 4);
  if (kind == 0) {
    if (c.x.size() < 2)
      g.discard();
    size_t a = g.n(0, c.x.size() - 2), b = g.n(a + 1, c.x.size() - 1);
    if (g.b())
      c.x[b] = c.x[a];
    else
      std::swap(c.x[a], c.x[b]);
    g.label("unsorted");
    REQUIRE_(throws([&] { make(c); }), "wavelengths that are not increasing are accepted", "swapped ", a, " ", b);
  } else if (kind == 1) {
    V y = c.y, e = c.e;
    if (g.b())
      y.pop_back(), e.pop_back();
    else
      y.push_back(1.), e.push_back(1.);
    REQUIRE_(throws([&] {
      CSpectrum(CSpectrumSpectralAxis(c.x), CSpectrumFluxAxis(y.data(), y.size(), e.data(), e.size()));
    }), "different numbers of samples are accepted", "");
    REQUIRE_(throws([&] { CSpectrumFluxAxis(c.y.data(), c.y.size(), e.data(), e.size()); }),
             "different numbers of errors are accepted", "");
    g.label("sizes");
  } else if (kind == 2) {
    REQUIRE_(throws([&] { CSpectrum(CSpectrumSpectralAxis(V{}), CSpectrumFluxAxis(V{})); }), "empty spectrum accepted", "");
    CSpectrum s;
    REQUIRE_(throws([&] { s.ValidateSpectrum(TFloat64Range(1, 2), g.b()); }), "empty spectrum validated", "");
    g.label("empty");
  } else { // instrument response not defined over the range
    double a = c.x.front() + (c.x.back() - c.x.front()) * g.f(-0.2, 0.6), b = a + (c.x.back() - c.x.front()) * g.f(0.2, 1.2);
    auto args = std::make_shared<TLSFGaussianVarWidthArgs>(V{a, b}, V{2., 3.});
    auto lsf = LSFFactory.Create("gaussianVariableWidth", args);
    double lo = std::max(c.lo, c.x.front()), hi = std::min(c.hi, c.x.back());
    if (c.in.size() < 2)
      g.discard();
    bool covered = lo >= a && lo <= b && hi >= a && hi <= b;
    bool zero = true;
    for (size_t k : c.in)
      zero &= c.y[k] == 0;
    if (zero)
      g.discard();
    auto s = make(c, lsf);
    ErrorCode ec;
    bool refused = throws([&] { s.ValidateSpectrum(TFloat64Range(c.lo, c.hi), false); }, &ec);
    g.label(covered ? "lsf covers" : "lsf too short");
    REQUIRE_(refused == !covered, "coverage of the instrument response", "refused ", refused, " lsf ", a, "..", b);
    if (refused)
      REQUIRE_(ec == ErrorCode::INVALID_LSF, "error code", code(ec));
  }
  g.nontrivial();
}

// weighted mean and deviation of the selected samples, whatever the others hold
PROP("P08", statistics, 100000, 3000000) {
  Case c = gen(g);
  note(g, c);
  size_t n = c.x.size();
  bool byRange = g.b();
  std::vector<char> sel(n, 0);
  double lo = std::max(c.lo, c.x.front()), hi = std::min(c.hi, c.x.back());
  if (byRange) {
    if (lo > hi)
      g.discard();
    for (size_t k = 0; k < n; ++k)
      sel[k] = c.x[k] >= lo && c.x[k] <= hi;
  } else
    for (size_t k = 0; k < n; ++k)
      sel[k] = g.b();
  long double W = 0, W2 = 0, S = 0, Q = 0;
  int cnt = 0;
  for (size_t k = 0; k < n; ++k)
    if (sel[k]) {
      long double w = 1.L / ((long double)c.e[k] * c.e[k]);
      W += w, W2 += w * w, S += w * c.y[k];
      ++cnt;
    }
  long double mean = S / W;
  for (size_t k = 0; k < n; ++k)
    if (sel[k]) {
      long double w = 1.L / ((long double)c.e[k] * c.e[k]);
      Q += w * (c.y[k] - mean) * (c.y[k] - mean);
    }
  long double sd = sqrtl(Q / (W - W2 / W));
  double sc = 0;
  for (size_t k = 0; k < n; ++k)
    if (sel[k])
      sc = std::max(sc, std::abs(c.y[k]));
  double m = 0, d = 0;
  auto s = make(c);
  if (byRange) {
    bool ok = s.GetMeanAndStdFluxInRange(TFloat64Range(lo, hi), m, d);
    REQUIRE_(ok, "range inside the spectrum refused", "");
    double a, b;
    bool out1 = s.GetMeanAndStdFluxInRange(TFloat64Range(c.x.front() - 1, hi), a, b),
         out2 = s.GetMeanAndStdFluxInRange(TFloat64Range(lo, c.x.back() + 1), a, b);
    REQUIRE_(!out1 && !out2, "range outside the spectrum accepted", "");
    if (cnt == 0) {
      REQUIRE_(std::isnan(m) && std::isnan(d), "statistics without samples", m, " ", d);
      return;
    }
  } else {
    CMask mask(n);
    for (size_t k = 0; k < n; ++k)
      mask[k] = sel[k];
    bool ok = s.GetRawFluxAxis().ComputeMeanAndSDev(mask, m, d);
    REQUIRE_(ok == (cnt > 0), "report of the statistics", ok);
    if (cnt == 0)
      return;
    CMask wrong(n + 1);
    double a, b;
    REQUIRE_(throws([&] { s.GetRawFluxAxis().ComputeMeanAndSDev(wrong, a, b); }), "mask of another size accepted", "");
  }
  REQUIRE_CLOSE(m, double(mean), 1e-12, 1e-12 * sc, "mean", "of ", cnt, " samples");
  if (cnt > 1 && sd > 1e-3 * sc) {
    g.nontrivial();
    // spread of the weights limits the accuracy of the unbiased estimate
    double cond = double(W / (W - W2 / W)) * double(sc * sc / (sd * sd));
    REQUIRE_CLOSE(d, double(sd), 1e-13 * (10 + cond), 0, "deviation", "of ", cnt, " samples");
  }
  // linear regression over the range
  if (byRange && cnt >= 3) {
    double a, b;
    REQUIRE_(s.GetLinearRegInRange(TFloat64Range(lo, hi), a, b), "regression refused", "");
    TInt32Range ir = s.GetSpectralAxis().GetIndexesAtWaveLengthRange(TFloat64Range(lo, hi));
    // the range is made of the samples from the first at or above its begin to the first at or above its end
    int i0 = std::lower_bound(c.x.begin(), c.x.end(), lo) - c.x.begin(), i1 = std::lower_bound(c.x.begin(), c.x.end(), hi) - c.x.begin();
    REQUIRE_(ir.GetBegin() == i0 && ir.GetEnd() == i1, "indexes of the range", ir.GetBegin(), " ", ir.GetEnd());
    long double X = 0, Y = 0, XX = 0, XY = 0, w0 = 0;
    for (int k = i0; k <= i1; ++k) {
      long double w = 1.L / ((long double)c.e[k] * c.e[k]);
      w0 += w, X += w * c.x[k], Y += w * c.y[k];
    }
    X /= w0, Y /= w0;
    double scR = 0;
    for (int k = i0; k <= i1; ++k) {
      long double w = 1.L / ((long double)c.e[k] * c.e[k]);
      XX += w * (c.x[k] - X) * (c.x[k] - X), XY += w * (c.x[k] - X) * (c.y[k] - Y);
      scR = std::max(scR, std::abs(c.y[k]));
    }
    long double slope = XY / XX;
    double mid = double(X);
    REQUIRE_CLOSE(a * mid + b, double(Y), 1e-8, 1e-8 * scR, "regression at the mean wavelength", "");
    REQUIRE_CLOSE(a, double(slope), 1e-8, 1e-8 * scR / std::sqrt(double(XX / w0)), "regression slope", "");
    g.label("regression");
  }
}
