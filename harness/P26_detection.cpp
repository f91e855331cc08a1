// Peak detection, line detection and line matching.
#include "util.h"
#include "pbt.h"

#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/gaussianfit/gaussianfit.h"
#include "RedshiftLibrary/line/linedetected.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/operator/linedetection.h"
#include "RedshiftLibrary/operator/linematching.h"
#include "RedshiftLibrary/operator/peakdetection.h"
#include "RedshiftLibrary/operator/peakdetectionresult.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include "RedshiftLibrary/spectrum/spectrum.h"

#include <algorithm>
#include <cmath>
#include <memory>
#include <set>

using namespace util;

namespace {
typedef std::pair<int, int> R; // closed range of samples

// the middle value; between the two middle ones for an even count
std::pair<double, double> middle(V v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 ? std::make_pair(v[n / 2], v[n / 2]) : std::make_pair(v[n / 2 - 1], v[n / 2]);
}
double med(const V &v) {
  auto m = middle(v);
  return m.first == m.second ? m.first : 0.5 * (m.first + m.second);
}
double mad(const V &v, double m) {
  V d;
  for (double x : v)
    d.push_back(std::fabs(x - m));
  return med(d);
}
// first sample at or after the wavelength, kept inside the axis
int at(const V &x, double w) {
  int k = int(std::lower_bound(x.begin(), x.end(), w) - x.begin());
  return std::min(k, int(x.size()) - 1);
}
V smooth(const V &y, int h) {
  V o(y.size());
  for (int i = 0; i < int(y.size()); ++i)
    o[i] = med(V(y.begin() + std::max(0, i - h), y.begin() + std::min(int(y.size()) - 1, i + h) + 1));
  return o;
}
CSpectrum spectrumOf(const V &x, const V &y, const V &e = {}) {
  CSpectrumSpectralAxis ax(x);
  if (e.empty())
    return CSpectrum(std::move(ax), CSpectrumFluxAxis(y));
  return CSpectrum(std::move(ax), CSpectrumFluxAxis(y.data(), int(y.size()), e.data(), int(e.size())));
}

struct Sky {
  V x, y, e;
  struct G {
    double mu, s, a;
  };
  std::vector<G> lines;
};
// a smooth continuum, lines of a few samples' width, noise
Sky makeSky(Ctx &g, int n, int nlines, double noise) {
  Sky s;
  s.x = incAxis(g, n, g.f(1000, 6000), 0.5, 4);
  double step = (s.x.back() - s.x[0]) / (n - 1);
  double c0 = g.f(-2, 5), c1 = g.f(-1, 1), c2 = g.f(-1, 1);
  for (int k = 0; k < nlines; ++k)
    s.lines.push_back({g.f(s.x[0], s.x.back()), step * g.f(1, 6), g.logf(0.5, 50) * (g.chance(10) ? -1 : 1)});
  for (int k = 0; k < n; ++k) {
    double u = double(k) / n, v = c0 + c1 * u + c2 * u * u;
    for (auto &l : s.lines)
      v += l.a * std::exp(-0.5 * std::pow((s.x[k] - l.mu) / l.s, 2));
    s.y.push_back(v + (noise > 0 ? noise * g.gauss() : 0.));
    s.e.push_back(noise > 0 ? noise : 1.);
  }
  return s;
}
} // namespace

// --------------------------------------------------------------------------------------------------- running statistics
PROP("P26", median, 20000, 400000) {
  int n = g.chance(5) ? g.i(990, 1400) : g.chance(30) ? g.i(1, 11) : g.i(1, 120);
  V v;
  bool ties = g.b();
  for (int k = 0; k < n; ++k)
    v.push_back(ties ? g.i(-3, 3) : g.gauss() * 5);
  g.notev("values", v);
  auto m = middle(v);
  double got = CMedian<Float64>().Find(v);
  // above a size of 1000 one of the two middle values is allowed for an even count
  bool ok = n % 2 || n > 1000 ? got >= m.first && got <= m.second : pbt::close(got, 0.5 * (m.first + m.second), 1e-14, 1e-300);
  REQUIRE_(ok, "median", "median of ", n, " values is ", got, ", expected ", m.first, "..", m.second);
  int off = g.i(0, n - 1), cnt = g.i(1, n - off);
  V part(v.begin() + off, v.begin() + off + cnt);
  double got2 = CMedian<Float64>().Find(v.begin() + off, v.begin() + off + cnt), ref2 = CMedian<Float64>().Find(part);
  REQUIRE_(got2 == ref2, "median range", "median of samples ", off, "+", cnt, " is ", got2, " as a range, ", ref2, " as a list");

  int h = g.i(0, 12);
  if (n < 200) {
    CSpectrumFluxAxis f(v);
    bool done = f.ApplyMedianSmooth(h);
    V ref = done ? smooth(v, h) : v;
    REQUIRE_(done == (h > 0 && n >= h + 1), "smoothing applied", "n=", n, " half width ", h);
    for (int k = 0; k < n; ++k)
      REQUIRE_CLOSE(f[k], ref[k], 1e-14, 1e-300, "median smoothing", "sample ", k, " half width ", h);
    CSpectrumFluxAxis f2(v);
    if (f2.ApplyMeanSmooth(h))
      for (int k = 0; k < n; ++k) {
        int a = std::max(0, k - h), b = std::min(n - 1, k + h);
        double sum = 0;
        for (int i = a; i <= b; ++i)
          sum += v[i];
        REQUIRE_CLOSE(f2[k], sum / (b - a + 1), 1e-12, 1e-12, "mean smoothing", "sample ", k, " half width ", h);
      }
  }
  if (n > 3)
    g.nontrivial();
}

// ------------------------------------------------------------------------------------------------------ peak detection
PROP("P26", peaks, 8000, 160000) {
  int n = g.chance(10) ? g.i(3, 30) : g.i(30, 260);
  double noise = g.pick({0., 0.1, 1.});
  Sky s = makeSky(g, n, g.i(0, 6), noise);
  bool plateau = g.chance(15);
  if (plateau)
    for (auto &v : s.y)
      v = std::round(v);
  double maxStep = 0;
  for (int k = 1; k < n; ++k)
    maxStep = std::max(maxStep, s.x[k] - s.x[k - 1]);
  double win = g.pick({250., g.f(4 * maxStep, 0.5 * (s.x.back() - s.x[0]) + 5 * maxStep), g.f(0.1, 4) * maxStep});
  double cut = g.pick({5., g.f(0, 10), g.f(-2, 0)}), offset = g.pick({0., g.f(0, 2)});
  int h = g.i(0, 4), rate = g.i(0, 4);
  g.note(n, " samples from ", s.x[0], ", ", s.lines.size(), " lines, noise ", noise, ", window ", win, " cut ", cut, " smoothing ", h, " enlarged ", rate, " offset ", offset);
  CSpectrum spc = spectrumOf(s.x, s.y, s.e);
  auto res = CPeakDetection(win, cut, h, rate, offset).Compute(spc);

  V f = h && n >= h + 1 ? smooth(s.y, h) : s.y;
  std::vector<R> peaks;
  bool tie = false;
  for (int i = 0; i < n; ++i) {
    int a = at(s.x, s.x[i] - win / 2), b = at(s.x, s.x[i] + win / 2);
    V w(f.begin() + a, f.begin() + std::max(b, a + 1)); // one sample at least
    double m = med(w), thr = m + 0.5 * cut * (mad(w, m) + offset);
    if (f[i] != m && pbt::close(f[i], thr, 1e-12, 1e-12))
      tie = true;
    if (f[i] > thr) {
      if (!peaks.empty() && peaks.back().second == i - 1)
        peaks.back().second = i;
      else
        peaks.push_back({i, i});
    }
  }
  if (tie)
    g.discard();
  bool any = !peaks.empty();
  // a peak whose maximum is at an end of the spectrum is left out
  std::vector<R> kept;
  for (auto &p : peaks) {
    int c = int(std::max_element(f.begin() + p.first, f.begin() + p.second + 1) - f.begin());
    if (c <= 1 || c >= n - 1)
      g.label("at the end of the spectrum");
    else
      kept.push_back(p);
  }
  REQUIRE_(bool(res) == any, "peaks found", "peaks ", peaks.size(), " result ", bool(res));
  if (!res)
    return;
  auto show = [](const TInt32RangeList &l) {
    std::string o;
    for (auto &r : l)
      o += " " + std::to_string(r.GetBegin()) + ".." + std::to_string(r.GetEnd());
    return o;
  };
  bool same = res->PeakList.size() == kept.size();
  for (size_t k = 0; same && k < kept.size(); ++k)
    same = res->PeakList[k].GetBegin() == kept[k].first && res->PeakList[k].GetEnd() == kept[k].second;
  TInt32RangeList keptRanges;
  for (auto &p : kept)
    keptRanges.push_back(TInt32Range(p.first, p.second));
  REQUIRE_(same, "peaks", "peaks", show(res->PeakList), ", expected", show(keptRanges), " (window ", win, " cut ", cut, " smoothing ", h, ")");
  REQUIRE_(res->EnlargedPeakList.size() == kept.size(), "enlarged count", res->EnlargedPeakList.size());
  for (size_t k = 0; k < kept.size(); ++k) {
    int b = res->EnlargedPeakList[k].GetBegin(), e = res->EnlargedPeakList[k].GetEnd();
    // the enlarged range ends before its last index
    int width = kept[k].second + 1 - kept[k].first;
    if (rate == 0) {
      REQUIRE_(b == kept[k].first && e == kept[k].second, "not enlarged", b, "..", e);
      continue;
    }
    int eb = std::max(0, kept[k].first - rate * width), ee = std::min(n, kept[k].second + 1 + rate * width);
    if (k > 0)
      eb = std::max(eb, kept[k - 1].second);
    if (k + 1 < kept.size())
      ee = std::min(ee, kept[k + 1].first);
    REQUIRE_(b == eb && e == ee, "enlarged", "peak ", kept[k].first, "..", kept[k].second, " enlarged to ", b, "..", e, ", expected ", eb, "..", ee);
    REQUIRE_(b >= 0 && e <= n && b <= kept[k].first && e > kept[k].second, "enlarged range", b, "..", e);
  }
  if (!kept.empty())
    g.nontrivial();
}

// ------------------------------------------------------------------------------------- amplitude to noise ratio of a peak
PROP("P26", signal_to_noise, 20000, 400000) {
  int n = g.i(2, 80);
  Sky s = makeSky(g, n, g.i(0, 3), g.pick({0.1, 1.}));
  int kind = g.i(0, 3); // errors of one, small ones, large ones, some of them one
  for (auto &e : s.e)
    e = kind == 0 || (kind == 3 && g.b()) ? 1. : g.logf(kind == 1 ? 1e-4 : 1., kind == 1 ? 0.3 : 20.);
  CSpectrum spc = spectrumOf(s.x, s.y, s.e);
  int a = g.i(0, n - 1), b = g.i(a, n - 1);
  double win = g.pick({0., g.f(1, 60), 250.});
  TFloat64List mask;
  if (g.chance(40))
    for (int k = 0; k < n; ++k)
      mask.push_back(g.chance(70) ? 1 : 0);
  if (g.chance(10)) {
    if (g.b())
      b = n + g.i(0, 3);
    else
      a = -g.i(1, 3);
    REQUIRE_(throws([&] { CLineDetection::ComputeFluxes(spc, win, TInt32Range(a, b)); }), "range", a, "..", b, " outside of ", n, " samples accepted");
    g.label("range outside");
    return;
  }
  g.note("samples ", a, "..", b, " of ", n, ", window ", win, ", ", mask.empty() ? "no mask" : "a mask");
  auto on = [&](int k) { return mask.empty() || mask[k] != 0; };
  int top = -1;
  for (int k = a; k <= b; ++k)
    if (on(k) && (top < 0 || s.y[k] > s.y[top]))
      top = k;
  double maxFlux = NAN, noise = NAN, ratio = NAN;
  bool thrown = throws([&] { ratio = CLineDetection::ComputeFluxes(spc, win, TInt32Range(a, b), mask, &maxFlux, &noise); });
  REQUIRE_(thrown == (top < 0), "fully masked", "range ", a, "..", b);
  if (thrown)
    return;
  int l = std::max(a, at(s.x, s.x[top] - win / 2)), r = std::min(b, at(s.x, s.x[top] + win / 2));
  V w;
  double mean = 0;
  bool ones = true;
  for (int k = l; k <= r; ++k) {
    if (s.e[k] != 1.)
      ones = false;
    if (on(k)) {
      w.push_back(s.y[k]);
      mean += s.e[k];
    }
  }
  mean /= w.size();
  double m = med(w), x = mad(w, m), ref = (s.y[top] - m) / (ones ? x : std::max(x, mean));
  REQUIRE_CLOSE(noise, x, 1e-9, 1e-12, "noise", "range ", a, "..", b);
  REQUIRE_CLOSE(maxFlux, s.y[top] - m, 1e-9, 1e-12, "height", "range ", a, "..", b);
  REQUIRE_(pbt::close(ratio, ref, 1e-9, 1e-12) || (std::isnan(ref) && std::isnan(ratio)), "ratio", "range ", a, "..", b, ": ", ratio, ", expected ", ref);
  if (r > l)
    g.nontrivial();
}

// ------------------------------------------------------------------------------------------------------- line detection
namespace {
struct Det {
  double pos, amp, width, cut;
  bool strong;
};
std::vector<Det> lineList(const CLineDetectionResult &r) {
  std::vector<Det> v;
  for (auto const &[id, l] : r.LineCatalog.GetList())
    v.push_back({l.GetPosition(), l.GetAmplitude(), l.GetWidth(), l.GetCut(), l.IsStrong()});
  std::sort(v.begin(), v.end(), [](const Det &a, const Det &b) { return a.pos < b.pos; });
  return v;
}
} // namespace

// every detected line is the fit of one of the peaks, passes the announced limits, and no peak passing them is missed
PROP("P26", lines, 4000, 60000) {
  int n = g.i(60, 260);
  double noise = g.pick({0.02, 0.3, 1.});
  Sky s = makeSky(g, n, g.i(1, 6), noise);
  CSpectrum spc = spectrumOf(s.x, s.y, s.e);
  bool retest = g.chance(40); // a strong line and a short window make a second look at the weak ones
  double win = retest ? g.f(3, 20) : g.pick({250., g.f(20, 200)});
  auto peaks = CPeakDetection(g.b() ? win : 150., g.pick({5., g.f(1, 6)}), g.i(0, 2), g.i(1, 4), 0.).Compute(spc);
  if (!peaks || peaks->PeakList.empty())
    g.discard();
  double cut = g.pick({0., g.f(0.5, 5.)}), strongcut = g.f(0.3, 4), minsize = g.pick({0., g.f(0, 6)}), maxsize = g.pick({70., g.f(5, 60)});
  bool noQuality = g.b();
  g.note(n, " samples, ", peaks->PeakList.size(), " peaks, noise ", noise, " window ", win, " cut ", cut, " strong ", strongcut, " width ", minsize, "..", maxsize);
  CLineDetection det(CLine::EType::nType_Emission, cut, strongcut, win, minsize, maxsize, noQuality);
  auto res = det.Compute(spc, TLambdaRange(s.x[0], s.x.back()), peaks->PeakList, peaks->EnlargedPeakList);
  REQUIRE_(bool(res), "result", "none");
  auto got = lineList(*res);
  size_t const np = peaks->PeakList.size();
  // the fits
  struct Fit {
    double pos, amp, width, c0, ratio;
    bool ok, pass, near, low;
  };
  std::vector<Fit> fits;
  for (size_t k = 0; k < np; ++k) {
    Fit f{};
    CGaussianFit fit;
    f.ok = fit.Compute(spc, peaks->EnlargedPeakList[k]) == CGaussianFit::nStatus_Success;
    if (f.ok) {
      fit.GetResults(f.amp, f.pos, f.width);
      fit.GetResultsPolyCoeff0(f.c0);
      int top = peaks->PeakList[k].GetBegin();
      for (int i = top; i <= peaks->PeakList[k].GetEnd(); ++i)
        if (s.y[i] > s.y[top])
          top = i;
      double h = (f.amp + f.c0) / s.y[top], d = std::fabs(f.pos - s.x[top]), fwhm = 2.35 * f.width;
      f.ratio = CLineDetection::ComputeFluxes(spc, win, peaks->PeakList[k]);
      f.pass = f.amp >= 0 && fwhm >= minsize && fwhm <= maxsize && (noQuality || (h > 0.65 && h < 1.35 && d <= 6));
      f.low = f.ratio < cut;
      f.near = pbt::close(fwhm, minsize, 1e-9, 0) || pbt::close(fwhm, maxsize, 1e-9, 0) || pbt::close(h, 0.65, 1e-9, 0) || pbt::close(h, 1.35, 1e-9, 0) ||
               pbt::close(d, 6, 1e-9, 0) || pbt::close(f.ratio, cut, 1e-12, 0) || pbt::close(f.ratio, cut * strongcut, 1e-12, 0) || !std::isfinite(f.ratio);
    }
    fits.push_back(f);
  }
  for (auto &f : fits)
    if (f.near)
      g.discard();
  size_t expected = 0;
  bool anyStrong = false;
  for (auto &f : fits) {
    if (!f.ok || !f.pass || f.low)
      continue;
    ++expected;
    bool strong = f.ratio > cut * strongcut;
    anyStrong |= strong;
    bool found = false;
    for (auto &d : got)
      if (d.pos == f.pos && pbt::close(d.amp, f.amp, 1e-9, 0) && pbt::close(d.width, f.width, 1e-9, 0) && pbt::close(d.cut, f.ratio, 1e-9, 0) && d.strong == strong)
        found = true;
    REQUIRE_(found, "missed line", "the peak fitted at ", f.pos, " amplitude ", f.amp, " width ", f.width, " signal to noise ", f.ratio,
             " is not in the catalogue as such (strong ", strong, ")");
  }
  size_t retested = 0;
  for (auto &d : got) {
    const Fit *f = nullptr;
    for (auto &c : fits)
      if (c.ok && c.pos == d.pos)
        f = &c;
    REQUIRE_(f, "line without peak", "line at ", d.pos, " is the fit of no peak");
    REQUIRE_(f->pass, "line outside limits", "line at ", d.pos, " amplitude ", f->amp, " width ", f->width);
    REQUIRE_(pbt::close(d.amp, f->amp, 1e-9, 0) && pbt::close(d.width, f->width, 1e-9, 0), "line parameters", "line at ", d.pos, ": amplitude ", d.amp,
             " width ", d.width, ", fitted ", f->amp, " ", f->width);
    REQUIRE_(d.cut >= cut, "signal to noise", "line at ", d.pos, " kept with ", d.cut, " < ", cut);
    if (f->low) {
      ++retested;
      REQUIRE_(!d.strong && anyStrong, "retested line", "line at ", d.pos, " strong ", d.strong);
      g.label("retested");
    }
  }
  REQUIRE_(got.size() == expected + retested, "number of lines", got.size(), " lines for ", expected, " peaks passing and ", retested, " retested");
  if (expected > 0)
    g.nontrivial();
}

// a line of Gaussian shape on a quadratic continuum is fitted exactly from its peak
PROP("P26", gaussian_fit, 6000, 120000) {
  int n = g.i(60, 200);
  double step = g.f(0.5, 3), x0 = g.f(1000, 9000);
  V x = linAxis(n, x0, step);
  double sig = step * g.f(2, 5), mu = x[n / 2] + step * g.f(-5, 5), amp = g.logf(0.1, 1000);
  double c0 = amp * g.f(-0.5, 0.5), c1 = amp * g.f(-0.05, 0.05) / (sig * 10), c2 = amp * g.f(-0.05, 0.05) / (100 * sig * sig);
  g.note("line ", amp, " at ", mu, " sigma ", sig, " step ", step, " on ", c0, " ", c1, " ", c2);
  V y;
  for (double w : x)
    y.push_back(amp * std::exp(-0.5 * std::pow((w - mu) / sig, 2)) + c0 + c1 * (w - mu) + c2 * (w - mu) * (w - mu));
  CSpectrum spc = spectrumOf(x, y);
  int half = int(sig / step * g.f(3.5, 6)), c = at(x, mu);
  int b = std::max(0, c - half), e = std::min(n, c + half);
  CGaussianFit fit;
  if (e - b < 6)
    g.discard();
  auto st = fit.Compute(spc, TInt32Range(b, e));
  REQUIRE_(st == CGaussianFit::nStatus_Success, "status", int(st));
  double A, P, W, C;
  fit.GetResults(A, P, W);
  fit.GetResultsPolyCoeff0(C);
  REQUIRE_(pbt::close(A, amp, 1e-5, 0) && pbt::close(P, mu, 0, 1e-5 * sig) && pbt::close(W, sig, 1e-5, 0) && pbt::close(C, c0, 1e-5, 1e-5 * amp), "fit", "line ", amp, " at ", mu,
           " width ", sig, " on ", c0, " fitted as ", A, " at ", P, " width ", W, " on ", C, " over ", e - b, " samples");
  // a different unit of flux or origin of wavelength changes nothing but the numbers
  double k = g.logf(0.1, 10);
  V y2(y);
  for (auto &v : y2)
    v *= k;
  CGaussianFit fit2;
  fit2.Compute(spectrumOf(x, y2), TInt32Range(b, e));
  double A2, P2, W2;
  fit2.GetResults(A2, P2, W2);
  REQUIRE_(pbt::close(A2, k * A, 1e-4, 0) && pbt::close(P2, P, 0, 1e-4 * sig) && pbt::close(W2, W, 1e-4, 0), "flux unit", A2, " ", P2, " ", W2);
  REQUIRE_(CGaussianFit().Compute(spc, TInt32Range(b, b + g.i(0, 5))) == CGaussianFit::nStatus_IllegalInput, "too short", "a range too short is accepted");
  g.nontrivial();
}

// ------------------------------------------------------------------------------------------------------- line matching
namespace {
struct RestL {
  int id;
  std::string name;
  double pos;
  bool em, strong;
};
typedef CLineMatchingResult::TSolutionSet Sol;
double meanZ(const Sol &s) {
  double z = 0;
  for (auto &c : s)
    z += c.Redshift;
  return z / s.size();
}
std::string showSol(const Sol &s) {
  std::string o;
  for (auto &c : s)
    o += " " + std::to_string(c.DetectedLine.GetPosition()) + "/" + std::to_string(c.RestLine.GetPosition()) + "=" + std::to_string(c.Redshift);
  return o;
}
std::vector<RestL> restLines(Ctx &g, int n) {
  std::vector<RestL> v;
  int id = g.i(0, 3);
  for (int k = 0; k < n; ++k) {
    v.push_back({id, "r" + std::to_string(k), g.f(1000, 9000), g.chance(75), g.b()});
    id += g.i(1, 3);
  }
  return v;
}
CLineCatalog restCatalog(const std::vector<RestL> &v) {
  CLineCatalog c(8.);
  for (auto &l : v)
    c.AddLineFromParams(l.name, l.pos, l.em ? "E" : "A", l.strong ? "S" : "W", "SYM", TAsymParams(), undefStr, 1., "em_vel", 0., false, l.id, l.name);
  return c;
}
CLineDetected detected(double pos, bool em, bool strong, int k) {
  return CLineDetected("d" + std::to_string(k), pos, em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption,
                       std::unique_ptr<CLineProfileSYM>(new CLineProfileSYM()), strong ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak, 1., 2.,
                       10.);
}
} // namespace

PROP("P26", matching, 15000, 300000) {
  auto rest = restLines(g, g.i(1, 9));
  if (g.chance(20) && rest.size() > 1) // lines closer than the tolerance
    rest[1].pos = rest[0].pos * (1 + g.f(1e-5, 3e-3));
  double tol = g.pick({0.002, g.logf(1e-5, 2e-2)}), zt = g.f(0.05, 3);
  struct D {
    double pos;
    bool em, strong;
    int truth;
  };
  std::vector<D> det;
  for (size_t k = 0; k < rest.size(); ++k)
    if (g.chance(70))
      det.push_back({rest[k].pos * (1 + zt) * (1 + 0.2 * tol * g.f(-1, 1)), rest[k].em, g.b(), int(k)});
  for (int k = g.i(0, 4); k > 0; --k)
    det.push_back({g.f(1500, 20000), g.chance(75), g.b(), -1});
  g.shuffle(det);
  if (det.empty())
    g.discard();
  CLineCatalog rc = restCatalog(rest);
  CLineDetectedCatalog dc(8.);
  for (size_t k = 0; k < det.size(); ++k)
    dc.Add(detected(det[k].pos, det[k].em, det[k].strong, int(k)));
  bool em = g.chance(80);
  int df = g.i(0, 2), rf = g.i(0, 2); // all, strong, weak
  if (g.b())
    df = rf = 0;
  auto force = [](int f) { return f == 0 ? CLine::EForce::nForce_All : f == 1 ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak; };
  auto sel = [](int f, bool strong) { return f == 0 || (f == 1) == strong; };
  int need = g.i(1, 5);
  TFloat64Range zr = g.b() ? TFloat64Range(0, 10) : TFloat64Range(g.f(0, zt), g.f(zt, 4));
  auto res = CLineMatching().Compute(dc, rc, zr, need, tol, em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, force(df), force(rf));

  g.note(rest.size(), " rest lines, ", det.size(), " detected, redshift ", zt, " tolerance ", tol, " at least ", need, " in ", zr.GetBegin(), "..", zr.GetEnd());
  std::vector<D> ds;
  std::vector<RestL> rs;
  for (auto &d : det)
    if (d.em == em && sel(df, d.strong))
      ds.push_back(d);
  for (auto &r : rest)
    if (r.em == em && sel(rf, r.strong))
      rs.push_back(r);
  for (auto &a : ds)
    for (auto &b : ds)
      if (&a != &b && a.pos == b.pos)
        g.discard();
  auto zOf = [](double d, double r) { return (d - r) / r; };
  auto agree = [&](double z1, double z2) { return std::fabs(z1 - z2) <= tol * (1 + 0.5 * (z1 + z2)); };
  const std::vector<Sol> none;
  auto const &sols = res ? res->SolutionSetList : none;
  if (res)
    REQUIRE_(!sols.empty(), "empty result", "a result without solution");
  // each solution is one: its couples agree with one of them, it has enough lines, it is in range and is not repeated
  for (size_t k = 0; k < sols.size(); ++k) {
    auto const &s = sols[k];
    REQUIRE_(int(s.size()) >= need, "size", "a solution of ", s.size(), " lines for at least ", need);
    std::set<double> pos;
    for (auto &c : s) {
      bool dIn = false, rIn = false;
      for (auto &d : ds)
        dIn |= d.pos == c.DetectedLine.GetPosition();
      for (auto &r : rs)
        rIn |= r.id == c.RestLineId && r.pos == c.RestLine.GetPosition() && r.name == c.RestLine.GetName();
      REQUIRE_(dIn && rIn, "couple", "couple of lines that are not of the (selected) lists:", showSol(s));
      REQUIRE_CLOSE(c.Redshift, zOf(c.DetectedLine.GetPosition(), c.RestLine.GetPosition()), 1e-12, 1e-12, "couple redshift", showSol(s));
      REQUIRE_(c.Redshift >= 0, "blueshift", showSol(s));
      REQUIRE_(pos.insert(c.DetectedLine.GetPosition()).second, "line twice", showSol(s));
    }
    bool seed = false;
    for (auto &a : s) {
      bool all = true;
      for (auto &b : s)
        all = all && (&a == &b || std::fabs(a.Redshift - b.Redshift) <= tol * (1 + 0.5 * (a.Redshift + b.Redshift)) * (1 + 1e-9));
      seed |= all;
    }
    REQUIRE_(seed, "disagreement", "the couples do not agree within ", tol, ":", showSol(s));
    double z = meanZ(s);
    REQUIRE_(z > zr.GetBegin() - 1e-12 && z < zr.GetEnd() + 1e-12, "range", "mean ", z, " outside ", zr.GetBegin(), "..", zr.GetEnd());
    for (size_t j = 0; j < k; ++j) {
      bool same = sols[j].size() == s.size();
      for (size_t i = 0; same && i < s.size(); ++i)
        same = s[i].DetectedLine.GetPosition() == sols[j][i].DetectedLine.GetPosition() && s[i].RestLineId == sols[j][i].RestLineId;
      REQUIRE_(!same, "repeated", "solution twice:", showSol(s));
    }
  }
  // no couple is forgotten: there is a solution with it and all the detected lines that agree with it
  for (auto &d : ds)
    for (auto &r : rs) {
      double z = zOf(d.pos, r.pos);
      if (z < 0)
        continue;
      std::set<double> with{d.pos};
      bool tie = false;
      if (rs.size() > 1)
        for (auto &d2 : ds)
          for (auto &r2 : rs) {
            double z2 = zOf(d2.pos, r2.pos);
            if (z2 < 0)
              continue;
            if (std::fabs(std::fabs(z - z2) - tol * (1 + 0.5 * (z + z2))) < 1e-12)
              tie = true;
            if (&d2 != &d && agree(z, z2))
              with.insert(d2.pos);
          }
      if (tie || int(with.size()) < need)
        continue;
      double slack = 2 * tol * (1 + z);
      if (z - slack <= zr.GetBegin() || z + slack >= zr.GetEnd()) {
        // at the edge of the range the mean redshift decides
        g.label("edge of the range");
        continue;
      }
      bool found = false;
      for (auto &s : sols) {
        std::set<double> p;
        bool couple = false;
        for (auto &c : s) {
          p.insert(c.DetectedLine.GetPosition());
          couple |= c.DetectedLine.GetPosition() == d.pos && c.RestLineId == r.id;
        }
        found |= couple && p == with;
      }
      REQUIRE_(found, "missed solution", "no solution has the line ", d.pos, " as ", r.pos, " (redshift ", z, ") with the ", with.size() - 1,
               " other lines that agree; ", sols.size(), " solutions");
      if (with.size() > 2)
        g.nontrivial();
    }
}

// what is told about a list of solutions
PROP("P26", solutions, 15000, 200000) {
  auto rest = restLines(g, g.i(2, 8));
  CLineMatchingResult r;
  r.m_RestCatalog = restCatalog(rest);
  int ns = g.i(0, 6);
  for (int k = 0; k < ns; ++k) {
    Sol s;
    double z = g.f(0.01, 3);
    for (int j = g.i(1, 5); j > 0; --j) {
      RestL l = rest[g.i(0, int(rest.size()) - 1)];
      auto map = r.m_RestCatalog.GetList();
      double zz = z + g.f(-1e-3, 1e-3);
      s.push_back(CLineMatchingResult::SSolution(detected(l.pos * (1 + zz), l.em, l.strong, j), {l.id, map.at(l.id)}, zz));
    }
    r.SolutionSetList.push_back(s);
  }
  for (auto &s : r.SolutionSetList)
    g.note(s.size(), " lines at ", meanZ(s), "; ");
  auto strongOf = [&](const Sol &s) {
    int c = 0;
    for (auto &e : s)
      for (auto &l : rest)
        if (l.em && l.strong && std::fabs(l.pos - e.RestLine.GetPosition()) < 0.11) {
          ++c;
          break;
        }
    return c;
  };
  int idx = g.i(-2, 8);
  double byIndex = r.GetMeanRedshiftSolutionByIndex(idx);
  if (idx < 0 || idx >= ns)
    REQUIRE_(byIndex == -1., "no such solution", "index ", idx, " of ", ns, ": ", byIndex);
  else
    REQUIRE_CLOSE(byIndex, meanZ(r.SolutionSetList[idx]), 1e-12, 0, "mean redshift", idx);
  size_t most = 0;
  for (auto &s : r.SolutionSetList) {
    most = std::max(most, s.size());
    REQUIRE_CLOSE(r.GetMeanRedshiftSolution(s), meanZ(s), 1e-12, 0, "mean redshift", showSol(s));
    REQUIRE_(r.getNStrongRestLines(s) == strongOf(s), "strong lines", r.getNStrongRestLines(s), ", expected ", strongOf(s));
  }
  REQUIRE_(r.GetMaxMatchingNumber() == (ns ? int(most) : -1), "largest", r.GetMaxMatchingNumber(), " of ", ns);
  int number = g.i(0, 5);
  V means;
  for (auto &s : r.SolutionSetList)
    if (int(s.size()) > number)
      means.push_back(meanZ(s));
  auto over = r.GetAverageRedshiftListOverNumber(number);
  REQUIRE_(over.size() == means.size() && r.GetSolutionsListOverNumber(number).size() == means.size(), "over number", over.size());
  for (size_t k = 0; k < means.size(); ++k)
    REQUIRE_CLOSE(over[k], means[k], 1e-12, 0, "over number", k);
  double step = g.logf(1e-4, 1e-1), width = step * g.f(0, 12);
  auto rounded = r.GetRoundedRedshiftCandidatesOverNumber(number, step);
  REQUIRE_(rounded.size() == means.size(), "rounded", rounded.size());
  for (size_t k = 0; k < means.size(); ++k)
    REQUIRE_(std::fabs(rounded[k] - means[k]) <= 0.5 * step * (1 + 1e-6) && pbt::close(std::round(rounded[k] / step), rounded[k] / step, 1e-9, 1e-6), "rounded",
             rounded[k], " for ", means[k], " step ", step);
  auto ext = r.GetExtendedRedshiftCandidatesOverNumber(number, step, width);
  for (size_t k = 0; k < ext.size(); ++k) {
    REQUIRE_(k == 0 || ext[k] > ext[k - 1], "extended order", k);
    bool near = false;
    for (double z : rounded)
      near |= std::fabs(ext[k] - z) <= 0.5 * width * (1 + 1e-9) + 1e-12;
    REQUIRE_(near, "extended", ext[k], " is away from all candidates by more than ", width / 2);
  }
  int half = int(width / step / 2.);
  if (half > 0 && std::fabs(width / step / 2. - std::round(width / step / 2.)) > 1e-6)
    for (double z : rounded)
      for (int k = -half; k < half; ++k) {
        bool in = false;
        for (double e : ext)
          in |= pbt::close(e, z + k * step, 0, 1e-9);
        REQUIRE_(in, "extended list", "step ", k, " around ", z, " missing");
      }
  double z = NAN;
  Int32 count = -7;
  bool found = r.GetBestRedshift(z, count);
  std::pair<int, int> best{-1, -1};
  for (auto &s : r.SolutionSetList)
    if (s.size() >= 2)
      best = std::max(best, {strongOf(s), int(s.size())});
  REQUIRE_(found == (best.second > 0), "best", "found ", found);
  if (found) {
    bool is = false;
    for (auto &s : r.SolutionSetList)
      is |= pbt::close(meanZ(s), z, 1e-12, 0) && int(s.size()) == count && best == std::make_pair(strongOf(s), int(s.size()));
    REQUIRE_(is, "best", "redshift ", z, " of ", count, " lines is not one of the solutions of most strong lines (", best.first, "), ", best.second, " lines");
    g.nontrivial();
  }
  found = r.GetBestMatchNumRedshift(z, count);
  REQUIRE_(found == (ns > 0), "most lines", "found ", found);
  if (found) {
    bool is = false;
    for (auto &s : r.SolutionSetList)
      is |= pbt::close(meanZ(s), z, 1e-12, 0) && s.size() == most;
    REQUIRE_(is && count == int(most), "most lines", z, " ", count);
  }
}

// the rules put aside the solutions whose missing lines should have been seen
PROP("P26", rules, 10000, 200000) {
  struct Named {
    const char *name;
    double pos;
  };
  std::vector<Named> known{{linetags::halpha_em, 6564.6}, {linetags::hbeta_em, 4862.7}, {linetags::oIIIa_em, 5008.2}, {linetags::oIIIb_em, 4960.3}, {"w1", 3869.9},
                           {"w2", 3728.5},                {"s1", 4341.6}};
  std::vector<RestL> rest;
  int id = 0;
  for (auto &k : known)
    if (std::string(k.name) == linetags::halpha_em || std::string(k.name) == linetags::oIIIa_em || g.chance(80))
      rest.push_back({id++, k.name, k.pos, true, g.b()});
  int n = g.i(100, 300);
  double lo = g.f(3000, 7000), hi = lo * g.f(1.2, 2.5);
  V x = linAxis(n, lo, (hi - lo) / (n - 1)), y, e;
  for (int k = 0; k < n; ++k) {
    y.push_back(2 + g.gauss() * g.pick({0.1, 1.}));
    e.push_back(g.f(0.05, 1.5));
  }
  double win = g.pick({250., g.f(20, 200)});
  CLineMatchingResult r;
  r.m_RestCatalog = restCatalog(rest);
  auto map = r.m_RestCatalog.GetList();
  int ns = g.i(0, 4);
  for (int k = 0; k < ns; ++k) {
    Sol s;
    double z = g.f(0, 0.6);
    for (auto &l : rest)
      if (g.chance(40) && l.pos * (1 + z) > x[0] && l.pos * (1 + z) < x.back())
        s.push_back(CLineMatchingResult::SSolution(detected(l.pos * (1 + z), l.em, l.strong, int(s.size())), {l.id, map.at(l.id)}, z));
    if (!s.empty())
      r.SolutionSetList.push_back(s);
  }
  auto before = r.SolutionSetList;
  CSpectrum spc = spectrumOf(x, y, e);
  TFloat64Range range(x[0] + g.pick({0., g.f(0, 0.1 * (hi - lo))}), x.back() - g.pick({0., g.f(0, 0.1 * (hi - lo))}));
  r.FilterWithRules(spc, range, win);

  g.note(before.size(), " solutions, ", rest.size(), " rest lines, range ", range.GetBegin(), "..", range.GetEnd(), " window ", win);
  std::vector<Sol> kept, left;
  std::vector<int> types;
  bool tie = false;
  for (auto &s : before) {
    double z = meanZ(s);
    auto has = [&](const char *name) {
      int c = 0;
      for (auto &m : s)
        c += m.RestLine.GetName() == name;
      return c;
    };
    auto seen = [&](double pos, double margin) {
      double w = pos * (1 + z);
      tie |= pbt::close(w, range.GetBegin() + margin, 1e-12, 0) || pbt::close(w, range.GetEnd() - margin, 1e-12, 0);
      return w >= range.GetBegin() + margin && w <= range.GetEnd() - margin;
    };
    auto snr = [&](double pos, double &noise) {
      double w = pos * (1 + z), f;
      return CLineDetection::ComputeFluxes(spc, win, TInt32Range(at(x, w - win / 2), at(x, w + win / 2)), {}, &f, &noise);
    };
    int type = 0;
    bool strong = false;
    double weakSnr = 0, weakNoise = 0, noise;
    for (auto &m : s)
      strong |= m.RestLine.IsStrong();
    if (!strong) {
      for (auto &m : s) {
        weakSnr = std::max(weakSnr, snr(m.RestLine.GetPosition(), noise));
        weakNoise = std::max(weakNoise, noise);
      }
      for (auto &l : rest)
        if (l.strong && seen(l.pos, 0)) {
          double v = snr(l.pos, noise);
          if (v < weakSnr && noise < weakNoise)
            type = 1;
        }
    }
    if (has(linetags::oIIIb_em) == 1 && has(linetags::oIIIa_em) == 0 && seen(5008.2, win))
      type += 10;
    if (has(linetags::hbeta_em) == 1 && has(linetags::halpha_em) != 1 && seen(6564.6, win))
      type += 100;
    if (type) {
      left.push_back(s);
      types.push_back(type);
      g.label("rule " + std::to_string(type));
      g.nontrivial();
    } else
      kept.push_back(s);
  }
  if (tie)
    g.discard();
  auto same = [](const std::vector<Sol> &a, const std::vector<Sol> &b) {
    if (a.size() != b.size())
      return false;
    for (size_t k = 0; k < a.size(); ++k) {
      if (a[k].size() != b[k].size())
        return false;
      for (size_t j = 0; j < a[k].size(); ++j)
        if (a[k][j].DetectedLine.GetPosition() != b[k][j].DetectedLine.GetPosition() || a[k][j].RestLineId != b[k][j].RestLineId)
          return false;
    }
    return true;
  };
  REQUIRE_(same(r.SolutionSetList, kept) && same(r.FilteredSolutionSetList, left), "filtering", "of ", before.size(), " solutions ", r.SolutionSetList.size(),
           " are kept and ", r.FilteredSolutionSetList.size(), " put aside, expected ", kept.size(), " and ", left.size());
  REQUIRE_(std::vector<int>(r.FilterTypeList) == types, "reasons", "the reasons differ");
}
