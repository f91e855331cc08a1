// Instrument response: width law, domain, normalisation, and the width of an observed line.
#include "fit.h"

#include "RedshiftLibrary/common/formatter.h"
#include "RedshiftLibrary/line/line.h"
#include "RedshiftLibrary/linemodel/element.h"
#include "RedshiftLibrary/spectrum/LSFConstantResolution.h"

using namespace fit;

namespace {
const double C_KMS = 299792.458;

struct Response {
  std::shared_ptr<CLSF> lsf;
  int kind;
  double a = 0; // width, resolution or source size
  V x, w;
  double lo = 200, hi = 30000; // domain
  double width(double l) const {
    switch (kind) {
    case 0:
      return a;
    case 1:
      return l / a / 2.355;
    case 2:
      return (l * 8.121e-4 + 7.4248) / 2.35;
    case 3: {
      double s = l * 3.939e-4 + 2.191, t = a * 13.4 / 0.355;
      return std::sqrt(s * s + t * t);
    }
    default:
      return lerp(x, w, l);
    }
  }
};

Response makeResponse(Ctx &g) {
  Response r;
  r.kind = g.i(0, 4);
  auto scope = std::make_shared<CScopeStack>();
  auto store = std::make_shared<CParameterStore>(scope);
  switch (r.kind) {
  case 0:
    r.a = g.logf(1e-3, 100);
    store->Set("lsf.width", r.a);
    r.lsf = LSFFactory.Create("gaussianConstantWidth",
                              g.b() ? std::make_shared<TLSFGaussianConstantWidthArgs>(store)
                                    : std::make_shared<TLSFGaussianConstantWidthArgs>(r.a));
    g.note("constant width ", r.a);
    break;
  case 1:
    r.a = g.pick({g.logf(1.01, 1e5), 1.0001, 4300.});
    store->Set("lsf.resolution", r.a);
    r.lsf = LSFFactory.Create("gaussianConstantResolution",
                              g.b() ? std::make_shared<TLSFGaussianConstantResolutionArgs>(store)
                                    : std::make_shared<TLSFGaussianConstantResolutionArgs>(r.a));
    g.note("resolution ", r.a);
    break;
  case 2:
    r.lsf = LSFFactory.Create("gaussianNISPSIM2016");
    g.note("nisp sim");
    break;
  case 3:
    r.a = g.pick({g.logf(1e-3, 5), 0., 0.1});
    store->Set("lsf.sourceSize", r.a);
    r.lsf = LSFFactory.Create("gaussianNISPVSSPSF201707", std::make_shared<TLSFGaussianNISPVSSPSF201707Args>(store));
    g.note("nisp size ", r.a);
    break;
  default: {
    size_t n = g.n(2, 12);
    r.x = incAxis(g, n, g.pick({1000., 3700., 200.5}), 1., g.pick({50., 2000.}));
    for (size_t i = 0; i < n; ++i)
      r.w.push_back(g.logf(0.01, 40));
    r.lo = r.x.front();
    r.hi = r.x.back();
    r.lsf = LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(r.x, r.w));
    g.notev("table", r.x);
    g.notev("widths", r.w);
  }
  }
  return r;
}
double anyLambda(Ctx &g, const Response &r) {
  if (r.kind == 4 && g.chance(30))
    return g.pickv(r.x);
  return g.pick({g.f(r.lo, r.hi), r.lo, r.hi, g.f(r.lo, r.hi)});
}
} // namespace

PROP("P14", width, 6000, 200000) {
  Response r = makeResponse(g);
  int probes = g.i(1, 10);
  g.nontrivial(r.kind == 4 || probes > 2);
  for (int p = 0; p < probes; ++p) {
    double l = anyLambda(g, r);
    for (bool clip : {false, true}) {
      double w = r.lsf->GetWidth(l, clip);
      REQUIRE_CLOSE(w, r.width(l), 1e-12, 0, "width", "at ", l, " clip ", clip);
      REQUIRE_(w > 0, "positive", w);
    }
    if (r.kind == 4) {
      auto i = std::upper_bound(r.x.begin(), r.x.end(), l) - r.x.begin();
      double a = r.w[std::max<long>(0, i - 1)], b = r.w[std::min<long>(i, r.x.size() - 1)], w = r.lsf->GetWidth(l);
      REQUIRE_(w >= std::min(a, b) * (1 - 1e-12) && w <= std::max(a, b) * (1 + 1e-12), "between", w);
    }
    REQUIRE_(r.lsf->checkAvailability(l), "available", l);
    if (r.kind == 1)
      REQUIRE_CLOSE(CLSFGaussianConstantResolution::computeResolution(l, r.lsf->GetWidth(l)), r.a, 1e-12, 0, "resolution", "");
  }
  // outside of the domain
  double below = r.lo * g.pick({0.5, 0.999, 1 - 1e-9}), above = r.hi * g.pick({2., 1.001, 1 + 1e-9});
  REQUIRE_CLOSE(r.lsf->GetWidth(below, true), r.width(r.kind == 0 ? below : r.lo), 1e-12, 0, "clip-low", below);
  REQUIRE_CLOSE(r.lsf->GetWidth(above, true), r.width(r.kind == 0 ? above : r.hi), 1e-12, 0, "clip-high", above);
  if (r.kind == 4)
    for (double l : {below, above}) {
      ErrorCode code;
      REQUIRE_(!r.lsf->checkAvailability(l), "unavailable", l);
      REQUIRE_(throws([&] { r.lsf->GetWidth(l); }, &code) && code == ErrorCode::INSUFFICIENT_LSF_COVERAGE, "coverage", l);
    }
  auto range = r.lsf->getSpectralRange();
  REQUIRE_(range.GetBegin() == r.lo && range.GetEnd() == r.hi, "domain", range.GetBegin(), " ", range.GetEnd());
  REQUIRE_(r.lsf->IsValid(), "valid", "");
}

PROP("P14", refused, 2000, 20000) {
  int kind = g.i(0, 3);
  double bad = g.pick({0., -1., -1e-9, double(NAN)});
  g.note("kind ", kind, " value ", bad);
  ErrorCode code = ErrorCode::INTERNAL_ERROR, want = ErrorCode::INVALID_LSF;
  bool t = false;
  g.nontrivial();
  if (kind == 0)
    t = throws([&] { LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(bad)); }, &code);
  else if (kind == 1) {
    bad = g.pick({0., -10., 1., double(NAN), 0.5});
    t = throws([&] { LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(bad)); },
               &code);
  } else {
    size_t n = g.n(1, 8);
    V x = incAxis(g, n, 3000, 1, 100), w(n, 2.);
    if (kind == 2)
      w[g.n(0, n - 1)] = bad;
    else {
      want = ErrorCode::BAD_COUNTMATCH;
      if (g.b())
        w.resize(n + g.i(1, 2), 2.);
      else
        w.resize(g.n(0, n - 1));
    }
    g.notev("w", w);
    t = throws([&] { LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(x, w)); }, &code);
  }
  REQUIRE_(t, "bad-accepted", "");
  REQUIRE_(code == want, "bad-code", int(code));
}

PROP("P14", profile, 2000, 40000) {
  Response r = makeResponse(g);
  double l0 = anyLambda(g, r);
  if (g.chance(10))
    l0 = r.lo * 0.9; // clipped width
  bool inside = l0 >= r.lo && l0 <= r.hi;
  double w = r.width(r.kind == 0 ? l0 : std::min(std::max(l0, r.lo), r.hi));
  size_t n = g.n(1, 60);
  V x = n == 1 ? V{l0 + w * g.f(-3, 3)} : incAxis(g, n, l0 - w * g.f(0.1, 4), w * 0.05, w * 0.5);
  g.note("lambda0 ", l0, " width ", w, " n ", n);
  V k = r.lsf->getNormalizedProfileVector(x, l0);
  REQUIRE_(k.size() == n, "size", k.size());
  long double s = 0, ref = 0;
  for (size_t i = 0; i < n; ++i)
    ref += expl(-0.5L * (x[i] - l0) / w * (x[i] - l0) / w);
  for (size_t i = 0; i < n; ++i) {
    s += k[i];
    double u = (x[i] - l0) / w;
    REQUIRE_CLOSE(k[i], double(expl(-0.5L * u * u) / ref), 1e-9, 1e-300, "kernel", "sample ", i);
    if (inside)
      REQUIRE_CLOSE(r.lsf->GetProfileVal(x[i], l0), std::exp(-0.5 * u * u), 1e-9, 1e-300, "profile", "sample ", i);
  }
  REQUIRE_CLOSE(double(s), 1., 1e-12, 0, "unit-sum", "");
  g.nontrivial(n > 4);
  // integral of the profile itself
  if (inside) {
    double d = w / 16;
    long double t = 0;
    for (int i = -160; i <= 160; ++i)
      t += r.lsf->GetProfileVal(l0 + i * d, l0) * d;
    REQUIRE_CLOSE(double(t), w * std::sqrt(2 * M_PI), 1e-9, 0, "integral", "");
  }
}

PROP("P14", linewidth, 3000, 60000) {
  Response r = makeResponse(g);
  bool em = g.b();
  double ve = g.pick({g.logf(1, 3000), 0.}), va = g.logf(1, 3000);
  std::string type = g.pick({"combined", "instrumentDriven", "velocityDriven"});
  g.note(type, em ? " emission " : " absorption ", ve, " ", va);
  CLineVector lines;
  lines.emplace_back("l", 5000., em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption,
                     CLineProfile_ptr(new CLineProfileSYM()), CLine::EForce::nForce_Strong, 0., false, "g", 1., "v", 1, "l1");
  double off = g.pick({0., 200., -350.}), z = g.f(0, 2);
  auto param = std::make_shared<TLineModelElementParam>(lines, ve, va, type);
  CLineModelElement e(param);
  REQUIRE_(throws([&] { e.GetLineWidth(5000.); }), "no-response", "");
  e.SetLSF(r.lsf);
  auto expected = [&](double l) {
    double v = (em ? param->getVelocityEmission() : param->getVelocityAbsorption()) / C_KMS * l, i = r.width(l);
    if (type == "instrumentDriven")
      v = 0;
    if (type == "velocityDriven")
      i = 0;
    return std::sqrt(i * i + v * v);
  };
  int probes = g.i(1, 5);
  for (int p = 0; p < probes; ++p) {
    if (g.b()) {
      double v = g.logf(1, 3000);
      if (g.b())
        param->setVelocity(v);
      else if (g.b())
        param->SetVelocityEmission(v);
      else
        param->SetVelocityAbsorption(v);
      g.note("velocity ", v);
    }
    double l = anyLambda(g, r);
    REQUIRE_CLOSE(e.GetLineWidth(l), expected(l), 1e-12, 0, "line-width", "at ", l);
  }
  g.nontrivial(type == "combined");
  // position and width of the line
  param->setLambdaOffset(0, off);
  double mu = 5000. * (1 + z) * (1 + off / C_KMS);
  if (mu >= r.lo && mu <= r.hi) {
    auto pw = e.getObservedPositionAndLineWidth(z, 0);
    REQUIRE_CLOSE(pw.first, mu, 1e-12, 0, "position", "");
    REQUIRE_CLOSE(pw.second, expected(mu), 1e-12, 0, "width-at-position", "");
  } else if (r.kind == 4)
    REQUIRE_(throws([&] { e.getObservedPositionAndLineWidth(z, 0); }), "outside", mu);
}
