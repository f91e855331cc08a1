// Logarithmic resampling of spectrum, templates and redshift range by the processing context.
#include "world.h"

using namespace world;

namespace {
struct Model {
  std::string name, method;
  bool fft;
  double z0, z1, step;
  int ratio = 1; // large grid ratio of the first pass
};

struct Tpl {
  std::string name;
  V x, y;
};

struct Setup {
  std::vector<Model> models;
  std::map<std::string, std::vector<Tpl>> templates;
  std::shared_ptr<CTemplateCatalog> catalog;
  Dust dust;
  Igm igm;
};

Params params(const Setup &s, const TFloat64Range &lambda) {
  std::vector<std::string> names;
  for (auto &m : s.models)
    names.push_back(m.name);
  Params p = baseParams(names, lambda);
  for (auto &m : s.models) {
    p.list(m.name + ".redshiftRange", V{m.z0, m.z1});
    p.set(m.name + ".redshiftStep", m.step);
    p.set(m.name + ".redshiftSolver.method", m.method);
    std::string q = m.name + ".redshiftSolver." + m.method;
    if (m.method == "lineModelSolve") {
      q += ".lineModel";
      p.set(q + ".continuumComponent", "fromSpectrum");
      p.set(q + ".tplRatioIsmFit", false);
      if (m.ratio > 1)
        p.set(q + ".firstPass.largeGridStepRatio", m.ratio);
      q += ".continuumFit";
    }
    p.set(q + ".fftProcessing", m.fft);
    p.set(q + ".ismFit", false);
    p.set(q + ".igmFit", false);
  }
  return p;
}

Setup makeSetup(Ctx &g) {
  Setup s;
  int nm = g.i(1, 2);
  for (int i = 0; i < nm; ++i) {
    Model m;
    m.name = i ? "star" : "galaxy";
    m.method = g.chance(35) ? "lineModelSolve" : "templateFittingSolve";
    m.fft = i == 0 || g.b();
    m.z0 = g.pick({0., 0.1, -0.01, 1.});
    if (g.chance(30))
      m.z0 = g.f(0, 2);
    m.z1 = m.z0 + g.pick({0.02, 0.1, 0.5, 0.0031});
    m.step = g.pick({5e-4, 1e-3, 2e-3, 7.3e-4});
    if (m.method == "lineModelSolve")
      m.ratio = g.pick({1, 2, 10, 3});
    s.models.push_back(m);
  }
  s.catalog = std::make_shared<CTemplateCatalog>();
  double zmax = 0, zmin = 9;
  for (auto &m : s.models) {
    zmax = std::max(zmax, m.z1);
    zmin = std::min(zmin, m.z0);
  }
  for (auto &m : s.models) {
    int nt = g.i(1, 3);
    for (int i = 0; i < nt; ++i) {
      Tpl t;
      t.name = m.name + std::to_string(i);
      double lo = 4000. / (1 + zmax) * g.pick({0.5, 0.9, 0.97, 1.05}), hi = 6500. / (1 + zmin) * g.pick({1.3, 1.05, 0.8});
      hi = std::max(hi, lo * 1.2);
      int n = g.i(60, 250);
      if (g.b())
        t.x = linAxis(n, lo, (hi - lo) / (n - 1));
      else
        t.x = logAxis(n, lo, std::log(hi / lo) / (n - 1));
      t.y = templateFlux(g, t.x);
      s.templates[m.name].push_back(t);
      s.catalog->Add(makeTemplate(t.name, m.name, t.x, t.y));
    }
  }
  s.dust = makeDust(g, 1);
  s.igm = makeIgm(g, 1150., 1);
  return s;
}

struct Obs {
  Data d;
  bool log = false;
  double step = 0; // of a log-sampled one
  double lo, hi;   // lambda range of the parameters
};

Obs makeObs(Ctx &g) {
  Obs o;
  o.lo = g.pick({4000., 4400., 4100.5});
  o.hi = g.pick({6000., 6300., 5700.25});
  double a = o.lo * g.pick({0.95, 1.03, 0.9999, 1.}), b = o.hi * g.pick({1.02, 0.97, 1.0001, 1.});
  if (g.chance(5)) { // a linear axis looks regular in log there
    o.hi = o.lo * g.pick({1.05, 1.09});
    a = o.lo * g.pick({0.999, 1.});
    b = o.hi * g.pick({1.001, 1.});
  }
  if (g.chance(35)) {
    o.log = true;
    o.step = g.pick({5e-4, 1e-3, 7.5e-4});
    int n = std::max(320, int(std::log(b / a) / o.step));
    o.d.x = logAxis(n, a, o.step);
    double q = g.pick({0., 1e-3, 1e-2}); // decimals kept
    if (q > 0)
      for (auto &x : o.d.x)
        x = std::round(x / q) * q;
  } else {
    int n = g.i(40, 400);
    if (g.b())
      o.d.x = linAxis(n, a, (b - a) / (n - 1));
    else {
      o.d.x = incAxis(g, n, 0, 0.5, 4.);
      double L = o.d.x.back();
      for (auto &x : o.d.x)
        x = a + (b - a) * x / L;
    }
  }
  size_t n = o.d.x.size();
  o.d.y.resize(n);
  o.d.e.resize(n);
  double s = g.f(-5, 5);
  for (size_t k = 0; k < n; ++k) {
    o.d.y[k] = 10. + s * std::sin(k * 0.37) + (k % 7);
    o.d.e[k] = 0.5 + 0.1 * (k % 5);
  }
  return o;
}

// runs one spectrum through the context, and checks everything that was put on the log grid
// returns false if a refusal was expected and happened
bool runAndCheck(Ctx &g, Setup &s, const Obs &o) {
  const double RT = 1e-9;
  freshContext(params(s, TFloat64Range(o.lo, o.hi)), s.dust, s.igm, s.catalog);
  Context.addSpectrum(makeSpectrum(o.d, constantResolutionLSF(3000.)));

  for (auto &m : s.models)
    g.note(m.name + " " + m.method + (m.fft ? " fft" : "") + " z [" + std::to_string(m.z0) + "," + std::to_string(m.z1) + "] step " +
           std::to_string(m.step) + " ratio " + std::to_string(m.ratio));
  g.note(std::string(o.log ? "log" : "linear") + " spectrum of " + std::to_string(o.d.x.size()) + " samples in [" +
         std::to_string(o.d.x.front()) + "," + std::to_string(o.d.x.back()) + "], range [" + std::to_string(o.lo) + "," +
         std::to_string(o.hi) + "]");
  if (!o.log)
    REQUIRE_(!CSpectrumSpectralAxis(o.d.x).IsLogSampled(), "narrow-linear-as-log", "the linear axis is taken as regular in log");
  double step = 1e9;
  for (auto &m : s.models)
    if (m.fft)
      step = std::min(step, m.step);
  if (o.log)
    step = o.step;

  // reference range of the grid
  double rlo = o.lo, rhi;
  if (!o.log)
    rhi = o.lo * std::exp(std::floor(std::log(o.hi / o.lo) / step) * step);
  else { // the grid of the spectrum, inside the lambda range
    rlo = o.d.x[0] * std::exp(std::ceil(std::log(o.lo / o.d.x[0]) / step) * step);
    rhi = o.d.x.back() * std::exp(std::floor(std::log(o.hi / o.d.x.back()) / step) * step);
  }

  // is the coverage of every template sufficient
  int verdict = 1; // 1 enough, 0 not enough, -1 too close to call
  for (auto &m : s.models) {
    if (!m.fft)
      continue;
    double l0 = std::log1p(m.z0), l1 = std::log1p(m.z1);
    double nz = std::ceil((l1 - l0) / step / m.ratio);
    double zend = std::exp(l0 + nz * step * m.ratio) - 1;
    double nz2 = (l1 - l0) / step / m.ratio;
    if (std::fabs(nz2 - std::round(nz2)) < 1e-4)
      verdict = std::min(verdict, -1); // rounding of the number of steps
    double lo = rlo / (1 + zend), hi = rhi / (1 + m.z0);
    double eps = o.log ? 1.5 * step : 2e-7;
    for (auto &t : s.templates[m.name]) {
      if (lo < t.x.front() * (1 - eps) || hi > t.x.back() * (1 + eps)) {
        verdict = 0;
        break;
      }
      if (lo < t.x.front() * (1 + eps) || hi > t.x.back() * (1 - eps))
        verdict = -1;
    }
    if (verdict == 0)
      break;
  }

  ErrorCode code;
  std::string msg;
  bool refused = throws([&] { Context.Init(); }, &code, &msg);
  if (refused) {
    g.label("refused");
    REQUIRE_(code == ErrorCode::INSUFFICIENT_TEMPLATE_COVERAGE, "refusal", "unexpected error ", msg);
    REQUIRE_(verdict != 1, "refusal", "templates cover the range, but: ", msg);
    return false;
  }
  REQUIRE_(verdict != 0, "coverage-not-refused", "a template does not cover the range and is not refused");

  auto in = Context.GetInputContext();
  REQUIRE_(in->m_use_LogLambaSpectrum, "log", "no log resampling");
  auto rs = in->GetRebinnedSpectrum();
  const V &w = rs->GetSpectralAxis().GetSamplesVector();
  size_t n = w.size();
  REQUIRE_(n >= 2 && rs->GetFluxAxis().GetSamplesCount() == int(n) && rs->GetErrorAxis().GetSamplesCount() == int(n), "size",
           "size ", n);
  double got = in->m_logGridStep;
  if (o.log)
    REQUIRE_CLOSE(got, step, 2e-5, 1e-8, "step", "log step");
  else
    REQUIRE_CLOSE(got, step, 1e-12, 0, "step", "log step");
  for (size_t k = 1; k < n; ++k)
    REQUIRE_CLOSE(std::log(w[k] / w[0]), k * got, RT, RT, "constant-step", "sample ", k);

  double a = std::max(o.lo, o.d.x.front()), b = std::min(o.hi, o.d.x.back());
  const V y = rs->GetFluxAxis().GetSamplesVector(), e = rs->GetErrorAxis().GetSamplesVector();
  if (!o.log) {
    // aligned on the lambda range, inside both ranges, as large as possible
    double off = std::log(w[0] / o.lo) / step;
    REQUIRE_CLOSE(off, std::round(off), 0, 1e-6, "aligned", "first sample ", w[0]);
    REQUIRE_(w[0] >= a * (1 - 1e-12) && w[n - 1] <= b * (1 + 1e-12), "inside", "[", w[0], ",", w[n - 1], "] in [", a, ",", b, "]");
    REQUIRE_(w[0] * std::exp(-step) < a * (1 + 1e-9) && w[n - 1] * std::exp(step) > b * (1 - 1e-9), "maximal", "[", w[0], ",",
             w[n - 1], "] in [", a, ",", b, "] step ", step);
    for (size_t k = 0; k < n; ++k) {
      REQUIRE_CLOSE(y[k], lerp(o.d.x, o.d.y, w[k]), 1e-7, 1e-6, "flux", "sample ", k, " at ", w[k]);
      size_t i = std::upper_bound(o.d.x.begin(), o.d.x.end(), w[k]) - o.d.x.begin();
      i = std::min(std::max<size_t>(i, 1), o.d.x.size() - 1) - 1;
      double src = o.d.x[i + 1] - o.d.x[i], t = (w[k] - o.d.x[i]) / src;
      if (t < 1e-7 || t > 1 - 1e-7)
        continue; // on a sample: either interval
      double dst = k + 1 < n ? w[k + 1] - w[k] : w[k] - w[k - 1];
      double ref = std::hypot(o.d.e[i] * (1 - t), o.d.e[i + 1] * t) * std::sqrt(src / dst);
      REQUIRE_CLOSE(e[k], ref, 1e-6, 0, "error", "sample ", k, " at ", w[k]);
    }
  } else {
    // the samples of the spectrum, unrounded
    size_t k0 = 0;
    while (k0 < o.d.x.size() && o.d.x[k0] < w[0] - 0.3 * step * w[0])
      ++k0;
    REQUIRE_(k0 + n <= o.d.x.size(), "size", "more samples than the spectrum");
    for (size_t k = 0; k < n; ++k) {
      REQUIRE_(std::fabs(w[k] - o.d.x[k0 + k]) < 0.012, "same-samples", "sample ", k, ": ", w[k], " for ", o.d.x[k0 + k]);
      REQUIRE_(y[k] == o.d.y[k0 + k] && e[k] == o.d.e[k0 + k], "same-values", "sample ", k, " flux ", y[k], " for ", o.d.y[k0 + k]);
    }
    REQUIRE_(w[0] >= o.lo * (1 - 1e-12) && w[n - 1] <= o.hi * (1 + 1e-12), "inside", "[", w[0], ",", w[n - 1], "]");
    if (k0 > 0)
      REQUIRE_(o.d.x[k0 - 1] < o.lo + 0.012, "maximal", "sample ", o.d.x[k0 - 1], " left out");
    if (k0 + n < o.d.x.size())
      REQUIRE_(o.d.x[k0 + n] > o.hi - 0.012, "maximal", "sample ", o.d.x[k0 + n], " left out");
  }
  auto cl = in->getClampedLambdaRange(true, 0);
  REQUIRE_(cl->GetBegin() >= w[0] * (1 - 1e-12) && cl->GetEnd() <= w[n - 1] * (1 + 1e-12), "clamped", "clamped range");

  // redshift ranges and templates
  size_t nfft = 0;
  for (auto &m : s.models) {
    if (!m.fft) {
      REQUIRE_(in->m_logRebin.find(m.name) == in->m_logRebin.end(), "zrange", "a range for a model without FFT");
      continue;
    }
    ++nfft;
    auto it = in->m_logRebin.find(m.name);
    REQUIRE_(it != in->m_logRebin.end(), "zrange", "no range for ", m.name);
    const auto &zr = it->second.zrange;
    REQUIRE_(zr.GetBegin() == m.z0, "zrange", "begins at ", zr.GetBegin());
    double big = got * m.ratio, ns = std::log((1 + zr.GetEnd()) / (1 + m.z0)) / big;
    REQUIRE_CLOSE(ns, std::round(ns), 0, 1e-7 / big, "zrange-steps", "number of steps");
    REQUIRE_(zr.GetEnd() >= m.z1 - 1e-9, "zrange-covers", zr.GetEnd(), " for ", m.z1);
    REQUIRE_(std::log1p(zr.GetEnd()) < std::log1p(m.z1) + big * (1 + 1e-6), "zrange-excess", zr.GetEnd(), " for ", m.z1);

    auto cat = in->GetTemplateCatalog();
    s.catalog->m_logsampling = 1;
    s.catalog->m_orthogonal = 0;
    auto list = std::const_pointer_cast<const CTemplateCatalog>(s.catalog)->GetTemplateList({m.name});
    s.catalog->m_logsampling = 0;
    const auto &ref = s.templates[m.name];
    REQUIRE_(list.size() == ref.size(), "templates", list.size(), " rebinned templates for ", ref.size());
    double need0 = w[0] / (1 + zr.GetEnd()), need1 = w[n - 1] / (1 + zr.GetBegin());
    for (size_t i = 0; i < ref.size(); ++i) {
      REQUIRE_(list[i]->GetName() == ref[i].name, "template-name", list[i]->GetName(), " for ", ref[i].name);
      const V &tw = list[i]->GetSpectralAxis().GetSamplesVector();
      const V ty = list[i]->GetFluxAxis().GetSamplesVector();
      REQUIRE_(tw.size() > 1 && ty.size() == tw.size(), "template-size", "size ", tw.size());
      for (size_t k = 1; k < tw.size(); ++k)
        REQUIRE_CLOSE(std::log(tw[k] / tw[0]), k * got, 0, k * 1e-7 + RT, "template-step", "template ", i, " sample ", k);
      REQUIRE_(tw[0] <= need0 * (1 + 3e-7) && tw.back() >= need1 * (1 - 3e-7), "template-range", "template ", ref[i].name, " [",
               tw[0], ",", tw.back(), "] needs [", need0, ",", need1, "]");
      double off = std::log(need1 / tw[0]) / got;
      REQUIRE_CLOSE(off, std::round(off), 0, 4e-7 / got, "template-aligned", "template ", ref[i].name);
      for (size_t k = 0; k < tw.size(); ++k)
        REQUIRE_CLOSE(ty[k], lerp(ref[i].x, ref[i].y, tw[k]), 1e-7, 1e-9, "template-flux", "template ", ref[i].name, " at ", tw[k]);
      auto orig = s.catalog->GetTemplate(m.name, i);
      REQUIRE_(orig->GetSpectralAxis().GetSamplesVector() == ref[i].x && orig->GetFluxAxis().GetSamplesVector() == ref[i].y,
               "original", "the original template changed");
    }
  }
  g.label(o.log ? "log spectrum" : "linear spectrum");
  return true;
}
} // namespace

PROP("P06", single, 3000, 40000) {
  Setup s = makeSetup(g);
  Obs o = makeObs(g);
  if (runAndCheck(g, s, o))
    g.nontrivial();
}

PROP("P06", history, 1500, 20000) {
  Setup s = makeSetup(g);
  int n = g.i(2, 4);
  int ok = 0;
  for (int i = 0; i < n; ++i) {
    if (i && g.chance(30)) // other redshift range or step
      for (auto &m : s.models) {
        m.z1 = m.z0 + g.pick({0.02, 0.1, 0.3});
        m.step = g.pick({5e-4, 1e-3});
      }
    Obs o = makeObs(g);
    ok += runAndCheck(g, s, o);
  }
  if (ok > 1)
    g.nontrivial();
}
