// Line profiles: values, flux, derivatives, support, conversions; and the same for the lines of an element.
#include "fit.h"

#include "RedshiftLibrary/common/formatter.h"
#include "RedshiftLibrary/line/line.h"
#include "RedshiftLibrary/line/lineprofileASYM.h"
#include "RedshiftLibrary/line/lineprofileASYMFIT.h"
#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/lineprofileSYMIGM.h"
#include "RedshiftLibrary/linemodel/element.h"

using namespace fit;

namespace {
enum Kind { kSYM, kLOR, kASYM, kASYMFIT };
struct Prof {
  Kind kind;
  double n = 8, c = 1, alpha = 0, delta = 0;
  std::string centering = "none";
  CLineProfile_ptr obj;
  // shift of the centre in units of the width, for the centering asked for (mean only; the mode is asserted apart)
  double m0() const { return centering == "mean" ? alpha / std::sqrt(1 + alpha * alpha) * std::sqrt(2 / M_PI) : 0.; }
  double value(double x, double x0, double s) const {
    if (kind == kLOR)
      return 1 / (1 + (x - x0) * (x - x0) / s / s);
    double w = s * c, u = (x - x0 + delta) / w + m0();
    return std::exp(-0.5 * u * u) * (1 + std::erf(alpha * u / std::sqrt(2.)));
  }
};

Prof makeProfile(Ctx &g, bool derivable = false) {
  Prof p;
  p.kind = Kind(g.i(0, 3));
  if (derivable && p.kind == kLOR)
    p.kind = kSYM;
  p.n = g.pick({8., 6., 10.});
  if (p.kind == kSYM)
    p.obj = std::make_unique<CLineProfileSYM>(p.n);
  else if (p.kind == kLOR)
    p.obj = std::make_unique<CLineProfileLOR>(p.n);
  else {
    p.c = g.pick({1., 2., g.f(0.3, 4)});
    p.alpha = g.pick({0., 4.5, g.f(-6, 6), 2., g.f(0, 10)});
    p.centering = g.pick({"mean", "none", "mode"});
    p.delta = p.centering == "none" ? 0. : g.pick({0., g.f(-5, 5)});
    TAsymParams a(p.c, p.alpha, p.delta);
    if (p.kind == kASYM)
      p.obj = std::make_unique<CLineProfileASYM>(p.n, a, p.centering);
    else if (g.b())
      p.obj = std::make_unique<CLineProfileASYMFIT>(p.n, a, p.centering);
    else {
      p.obj = std::make_unique<CLineProfileASYMFIT>(p.n, TAsymParams(1, 0, 0), p.centering);
      p.obj->SetAsymParams(a);
    }
  }
  g.note("profile ", p.kind, " n ", p.n, " sigma coeff ", p.c, " alpha ", p.alpha, " delta ", p.delta, " ", p.centering);
  return p;
}
} // namespace

PROP("P15", value, 3000, 60000) {
  Prof p = makeProfile(g);
  double x0 = g.pick({5000., 10., 1215.67 * 4}), s = g.logf(0.1, 50);
  const auto &o = *p.obj;
  REQUIRE_CLOSE(o.GetNSigmaSupport(), p.n * (p.kind == kLOR ? 2 : p.c * (p.centering == "none" ? 1 : 2.5)), 1e-14, 0, "support", "");
  double w = s * p.c;
  bool mode = p.centering == "mode";
  for (int i = 0; i < 12; ++i) {
    double x = x0 + w * g.f(-5, 5);
    double v = o.GetLineProfileVal(x, x0, s);
    REQUIRE_(v >= 0 && v <= 2, "positive", v);
    if (!mode)
      REQUIRE_CLOSE(v, p.value(x, x0, s), 1e-10, 1e-300, "value", "at ", (x - x0) / w, " widths");
    if (p.kind == kSYM || p.kind == kLOR || p.alpha == 0) {
      double m = 2 * (x0 - p.delta) - x;
      REQUIRE_CLOSE(o.GetLineProfileVal(m, x0, s), v, 1e-9, 1e-300, "symmetric", "at ", (x - x0) / w, " widths");
      if (p.kind != kLOR)
        REQUIRE_CLOSE(v, CLineProfileSYM(8).GetLineProfileVal(x, x0 - p.delta, w), 1e-9, 1e-300, "zero-asymmetry", "");
    }
  }
  g.nontrivial(p.kind == kASYM || p.kind == kASYMFIT);
  // flux, moments and maximum by quadrature
  double a = g.pick({1., 1e-18, 33.});
  if (p.kind == kLOR) {
    // tan substitution: x = x0 + s tan(t)
    long double f = 0;
    int N = 2000;
    for (int i = 0; i < N; ++i) {
      double t = (-0.5 + (i + 0.5) / N) * M_PI, x = x0 + s * std::tan(t);
      f += o.GetLineProfileVal(x, x0, s) * s / std::cos(t) / std::cos(t) * M_PI / N;
    }
    REQUIRE_CLOSE(o.GetLineFlux(x0, s, a), a * double(f), 1e-6, 0, "flux", "");
  } else {
    double d = w / 64, half = o.GetNSigmaSupport() * s / 2;
    long double f = 0, m1 = 0, in = 0;
    double best = -1, where = 0;
    for (int i = -64 * 14; i <= 64 * 14; ++i) {
      double x = x0 - p.delta + i * d, v = o.GetLineProfileVal(x, x0, s);
      f += v * d;
      m1 += v * d * (x - x0);
      if (std::abs(x - (x0 - p.delta)) <= half)
        in += v * d;
      if (v > best)
        best = v, where = x;
    }
    REQUIRE_CLOSE(o.GetLineFlux(x0, s, a), a * double(f), 1e-9, 0, "flux", "");
    REQUIRE_CLOSE(o.GetLineFlux(x0, s), double(f), 1e-9, 0, "flux-unit", "");
    REQUIRE_(in / f > 0.99, "flux-in-support", double(in / f));
    if (p.centering == "mean")
      REQUIRE_CLOSE(double(m1 / f), -p.delta, 1e-6, 1e-6 * w, "mean-centre", "");
    if (mode)
      REQUIRE_CLOSE(where, x0 - p.delta, 0, 0.03 * w, "mode-centre", "");
  }
  REQUIRE_CLOSE(o.GetLineFlux(x0, 0., a), 0., 0, 0, "no-width", "");
}

PROP("P15", derivative, 3000, 60000) {
  Prof p = makeProfile(g, true);
  double x0 = g.pick({5000., 10., 4862.}), s = g.logf(0.1, 50), w = s * p.c;
  const auto &o = *p.obj;
  g.nontrivial();
  for (int i = 0; i < 8; ++i) {
    double x = x0 + w * g.f(-4, 4), h = 1e-4 * w;
    auto v = [&](double c, double sg) { return o.GetLineProfileVal(x, c, sg); };
    double nx = (8 * (v(x0 + h, s) - v(x0 - h, s)) - (v(x0 + 2 * h, s) - v(x0 - 2 * h, s))) / (12 * h);
    REQUIRE_CLOSE(o.GetLineProfileDerivX0(x, x0, s), nx, 1e-6, 1e-7 / w, "deriv-position", "at ", (x - x0) / w, " widths");
    double k = 1e-4 * s;
    double ns = (8 * (v(x0, s + k) - v(x0, s - k)) - (v(x0, s + 2 * k) - v(x0, s - 2 * k))) / (12 * k);
    REQUIRE_CLOSE(o.GetLineProfileDerivSigma(x, x0, s), ns, 1e-6, 1e-7 / s * (1 + std::abs(p.delta) / w), "deriv-width", "at ",
                  (x - x0) / w, " widths");
  }
  CLineProfileLOR lor(8);
  REQUIRE_(throws([&] { lor.GetLineProfileDerivX0(x0, x0, s); }) && throws([&] { lor.GetLineProfileDerivSigma(x0, x0, s); }),
           "lorentz-derivative", "");
}

PROP("P15", conversions, 2000, 30000) {
  Prof p = makeProfile(g);
  double x0 = 5000, s = g.logf(0.5, 20);
  auto same = [&](const CLineProfile &a, const CLineProfile &b, const char *what) {
    for (int i = -6; i <= 6; ++i) {
      double x = x0 + i * s * 0.7;
      REQUIRE_CLOSE(a.GetLineProfileVal(x, x0, s), b.GetLineProfileVal(x, x0, s), 1e-15, 0, "conversion-value", what);
    }
    REQUIRE_CLOSE(a.GetLineFlux(x0, s, 2.), b.GetLineFlux(x0, s, 2.), 1e-15, 0, "conversion-flux", what);
    REQUIRE_CLOSE(a.GetNSigmaSupport(), b.GetNSigmaSupport(), 1e-15, 0, "conversion-support", what);
    REQUIRE_CLOSE(a.GetDelta(), b.GetDelta(), 0, 0, "conversion-delta", what);
  };
  CLineProfile_ptr c = p.obj->Clone();
  REQUIRE_(c->GetName() == p.obj->GetName(), "clone-name", "");
  same(*p.obj, *c, "clone");
  if (p.kind == kASYM) {
    auto f = static_cast<CLineProfileASYM &>(*p.obj).cloneToASYMFIT();
    REQUIRE_(f->GetName() == ASYMFIT && f->isAsymFit() && !f->isAsymFixed() && f->isAsym(), "convert-name", "");
    same(*p.obj, *f, "to fit");
    auto b = static_cast<CLineProfileASYMFIT &>(*f).cloneToASYM();
    REQUIRE_(b->GetName() == ASYM && b->isAsymFixed() && !b->isAsymFit(), "convert-name", "");
    same(*p.obj, *b, "to fit and back");
    g.nontrivial();
  }
  if (p.kind == kASYMFIT) {
    auto b = static_cast<CLineProfileASYMFIT &>(*p.obj).cloneToASYM();
    same(*p.obj, *b, "to fixed");
    // parameters of the copy are its own
    TAsymParams q(g.f(0.5, 3), g.f(0, 5), p.centering == "none" ? 0. : g.f(-3, 3));
    c->SetAsymParams(q);
    same(*p.obj, *b, "after changing the copy");
    auto r = c->GetAsymParams();
    REQUIRE_(r.sigma == q.sigma && r.alpha == q.alpha && r.delta == q.delta, "params", "");
    c->resetParams();
    Prof d;
    d.c = 2;
    d.kind = kASYM;
    for (int i = -5; i <= 5; ++i)
      REQUIRE_CLOSE(c->GetLineProfileVal(x0 + i * s, x0, s), d.value(x0 + i * s, x0, s), 1e-12, 0, "reset", "");
    // unusable parameters are refused, not propagated
    TAsymParams bad = q;
    (g.i(0, 2) == 0 ? bad.sigma : g.b() ? bad.alpha : bad.delta) = NAN;
    c->SetAsymParams(bad);
    REQUIRE_(throws([&] { c->GetLineProfileVal(x0, x0, s); }), "nan-params", "");
    REQUIRE_(throws([&] { c->GetLineProfileDerivX0(x0, x0, s); }), "nan-params", "");
    REQUIRE_(throws([&] { c->GetLineProfileDerivSigma(x0, x0, s); }), "nan-params", "");
    g.nontrivial();
  }
}

namespace {
// curves smooth enough for finite differences
std::shared_ptr<CSpectrumFluxCorrectionMeiksin> smoothIgm(Ctx &g, V &zbins) {
  zbins = V{1., 2., 3., 4.5};
  V l = linAxis(size_t((1217.5 - 1100.) / IGM_RAW_STEP), 1100., IGM_RAW_STEP);
  std::vector<MeiksinCorrection> c;
  for (int b = 0; b < 3; ++b) {
    std::vector<TFloat64List> f;
    for (int i = 0; i < 4; ++i) {
      V y;
      for (double x : l)
        y.push_back(x > 1216 ? 1 : 0.5 + 0.3 * std::sin(x / (6. + i) + b) - 0.05 * b);
      f.push_back(y);
    }
    c.emplace_back(l, f);
  }
  auto o = std::make_shared<CSpectrumFluxCorrectionMeiksin>(c, zbins);
  o->convolveByLSF(constantWidthLSF(0.3), TFloat64Range(1000., 20000.));
  return o;
}
std::shared_ptr<CSpectrumFluxCorrectionMeiksin> theIgm(Ctx &g, V &zbins) {
  static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> o;
  static V z;
  if (!o)
    o = smoothIgm(g, z);
  zbins = z;
  return o;
}
} // namespace

PROP("P15", symigm, 2000, 40000) {
  V zb;
  auto igm = theIgm(g, zb);
  CLineProfileSYMIGM p(igm, 8.);
  int idx = g.i(-1, 3);
  double z = g.f(1.05, 4.4);
  for (double b : zb)
    if (std::abs(z - b) < 0.01)
      g.discard();
  p.SetSymIgmParams(TSymIgmParams(idx, z));
  int eff = idx < 0 ? 3 : idx; // the median curve when none is chosen
  double l0 = g.pick({1215.67, g.f(1150, 1215), g.f(1205, 1226)}), s = g.logf(1, 30), x0 = l0 * (1 + z);
  g.note("curve ", idx, " z ", z, " rest ", l0, " sigma ", s);
  CLineProfileSYM sym(8);
  bool in = false;
  for (int i = 0; i < 8; ++i) {
    double x = (1100. + IGM_RAW_STEP * g.i(0, 2600)) * (1 + z);
    if (g.b())
      x = (1100. + IGM_RAW_STEP * std::round((x0 + s * g.f(-4, 4)) / (1 + z) / IGM_RAW_STEP - 1100. / IGM_RAW_STEP)) * (1 + z);
    double rest = x / (1 + z), c = igm->getCorrection(z, eff, rest);
    in = in || (c < 1 && std::abs(x - x0) < 4 * s);
    REQUIRE_CLOSE(p.GetLineProfileVal(x, x0, s), sym.GetLineProfileVal(x, x0, s) * c, 1e-12, 1e-300, "igm-value", "rest ", rest);
    REQUIRE_CLOSE(p.GetLineProfileDerivSigma(x, x0, s), sym.GetLineProfileDerivSigma(x, x0, s) * c, 1e-12, 1e-300, "igm-deriv-width",
                  "rest ", rest);
    if (std::abs(rest - 1216.) < 1.5 || rest < 1102) // the edge of the correction has no derivative
      continue;
    double expected = sym.GetLineProfileDerivX0(x, x0, s);
    if (rest < 1216) {
      // by moving the redshift, the line position and the rest wavelengths move together: the correction moves along
      double d = 0.1;
      double slope = (igm->getCorrection(z, eff, rest + d) - igm->getCorrection(z, eff, rest - d)) / (2 * d);
      expected = expected * c - sym.GetLineProfileVal(x, x0, s) * slope * rest / (1 + z) / l0;
    }
    REQUIRE_CLOSE(p.GetLineProfileDerivX0(x, x0, s), expected, 0.02, 0.02 / s, "igm-deriv-position", "rest ", rest, " sigma ", s);
  }
  g.nontrivial(in);
  CLineProfileSYMIGM q(p);
  q.SetSymIgmFit(false);
  q.resetParams();
  REQUIRE_(q.GetSymIgmParams().m_igmidx == idx && q.GetSymIgmParams().m_redshift == z, "fixed-reset", "");
  q.SetSymIgmFit(true);
  q.resetParams();
  REQUIRE_(q.GetSymIgmParams().m_igmidx == undefIdx && std::isnan(q.GetSymIgmParams().m_redshift), "fit-reset", "");
  CLineProfileSYMIGM none(nullptr, 8.);
  REQUIRE_(throws([&] { none.GetLineProfileVal(x0, x0, s); }), "no-igm", "");
  // flux
  double a = g.pick({1., 1e-17}), half = 4 * s;
  if ((x0 - half) / (1 + z) > 1216.) {
    REQUIRE_CLOSE(p.GetLineFlux(x0, s, a), a * s * std::sqrt(2 * M_PI), 1e-12, 0, "igm-free-flux", "");
    g.label("igm-free");
  } else if (s / (1 + z) > 0.5 && (x0 - half) / (1 + z) > 1101) {
    long double f = 0, known = 0;
    double d = s / 60;
    for (int i = -300; i <= 300; ++i)
      f += p.GetLineProfileVal(x0 + i * d, x0, s) * d;
    double got = p.GetLineFlux(x0, s, a);
    if (!pbt::close(got, a * double(f), 0.01)) {
      // the value known to be wrong: transmission applied twice, rest-frame wavelengths, cut at the end of the curves
      double hr = half / (1 + z), r0 = l0 - hr, r1 = std::min(l0 + hr, 1217.45);
      int n = 3000;
      for (int i = 0; i < n; ++i) {
        double r = r0 + (i + 0.5) * (r1 - r0) / n, c = r > 1216. + 0.025 ? 1. : igm->getCorrection(z, eff, std::min(r, 1216.));
        known += sym.GetLineProfileVal(r * (1 + z), x0, s) * c * c * (r1 - r0) / n;
      }
      bool same = pbt::close(got, a * double(known), 0.05, 0.06 * a);
      REQUIRE_(false, same ? "igm-flux" : "igm-flux-other", got / a, " but the integral of the profile is ", double(f),
               " (known wrong value ", double(known), ")");
    }
  }
}

// the model of an element of several lines and its derivatives
PROP("P15", element, 2000, 40000) {
  int n = g.i(1, 4);
  bool em = g.chance(60);
  V zb;
  std::string type = g.pick({"instrumentDriven", "combined", "velocityDriven"});
  double z = g.f(0, 2), vel = g.logf(50, 1500);
  CLineVector lines;
  std::vector<Prof> profs;
  V pos, nom, off;
  for (int i = 0; i < n; ++i) {
    profs.push_back(makeProfile(g, true));
    pos.push_back(5000 + g.f(0, 200));
    nom.push_back(g.pick({1., 0.33, g.f(0.01, 3)}));
    off.push_back(g.pick({0., g.f(-400, 400)}));
    lines.emplace_back("l" + std::to_string(i), pos[i], em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption,
                       profs[i].obj->Clone(), CLine::EForce::nForce_Strong, off[i], false, "g", nom[i], "v", i, "id");
  }
  double w = g.logf(0.5, 20);
  g.note(type, em ? " emission" : " absorption", " z ", z, " velocity ", vel, " response ", w);
  auto param = std::make_shared<TLineModelElementParam>(lines, vel, vel, type);
  CLineModelElement e(param);
  e.SetLSF(constantWidthLSF(w));
  CSpectrumSpectralAxis axis(linAxis(4000, 4500 * (1 + z), 0.4 * (1 + z)));
  TFloat64Range range(axis[0], axis[3999]);
  e.prepareSupport(axis, z, range);
  if (e.IsOutsideLambdaRange())
    g.discard();
  double A = g.logf(0.01, 1);
  param->resetFittingParams();
  auto setA = [&](double a) {
    for (int i = 0; i < n; ++i)
      param->m_FittedAmplitudes[i] = e.IsOutsideLambdaRangeLine(i) ? NAN : a * nom[i];
  };
  setA(A);
  auto width = [&](double mu, double v) {
    double i = type == "velocityDriven" ? 0 : w, s = type == "instrumentDriven" ? 0 : v / 299792.458 * mu;
    return std::sqrt(i * i + s * s);
  };
  g.nontrivial(n > 1);
  for (int q = 0; q < 5; ++q) {
    int l = g.i(0, n - 1);
    double mu = pos[l] * (1 + z) * (1 + off[l] / 299792.458), sg = width(mu, vel) * profs[l].c;
    double x = mu + sg * g.f(-3, 3), cont = g.pick({1., g.f(0.1, 5), 0.});
    // value
    double model = 0, scale = 0;
    for (int i = 0; i < n; ++i) {
      if (e.IsOutsideLambdaRangeLine(i))
        continue;
      double m = pos[i] * (1 + z) * (1 + off[i] / 299792.458);
      double v = A * nom[i] * profs[i].obj->GetLineProfileVal(x, m, width(m, vel));
      model += em ? v : -v * cont;
      scale += A * nom[i] * (em ? 1 : cont) / (profs[i].c * width(m, vel));
    }
    REQUIRE_CLOSE(e.getModelAtLambda(x, z, cont), model, 1e-9, 1e-12, "model", "at ", x);
    // amplitude: the model is linear in it
    auto at = [&](double a) {
      setA(a);
      double r = e.getModelAtLambda(x, z, cont);
      setA(A);
      return r;
    };
    REQUIRE_CLOSE(e.GetModelDerivAmplitudeAtLambda(x, z, cont), (at(2 * A) - at(A)) / A, 1e-8, 1e-12, "deriv-amplitude", "at ", x);
    // continuum
    double dc = (e.getModelAtLambda(x, z, cont + 1) - e.getModelAtLambda(x, z, cont));
    REQUIRE_CLOSE(e.GetModelDerivContinuumAmpAtLambda(x, z, 1.), dc, 1e-8, 1e-12, "deriv-continuum", "at ", x);
    // velocity
    double h = 1e-3 * vel;
    auto vel5 = [&](double v) {
      param->setVelocity(v);
      double r = e.getModelAtLambda(x, z, cont);
      param->setVelocity(vel);
      return r;
    };
    double nv = (8 * (vel5(vel + h) - vel5(vel - h)) - (vel5(vel + 2 * h) - vel5(vel - 2 * h))) / (12 * h);
    REQUIRE_CLOSE(e.GetModelDerivVelAtLambda(x, z, cont), nv, 1e-5, 1e-6 * scale * sg / vel + 1e-14, "deriv-velocity", "at ", x);
    // redshift, at constant width
    if (type == "instrumentDriven") {
      double dz = 1e-4 * sg / mu * (1 + z);
      auto f = [&](double zz) { return e.getModelAtLambda(x, zz, cont); };
      double nz = (8 * (f(z + dz) - f(z - dz)) - (f(z + 2 * dz) - f(z - 2 * dz))) / (12 * dz);
      REQUIRE_CLOSE(e.GetModelDerivZAtLambda(x, z, cont), nz, 1e-5, 1e-6 * scale * mu + 1e-14, "deriv-redshift", "at ", x);
      // with a continuum that depends on the redshift
      double cz = g.f(-3, 3);
      double nc = em ? 0. : (e.getModelAtLambda(x, z, cont + cz) - e.getModelAtLambda(x, z, cont));
      REQUIRE_CLOSE(e.GetModelDerivZAtLambda(x, z, cont, cz), nz + nc, 1e-5, 1e-6 * scale * mu + 1e-9, "deriv-redshift-continuum", "at ",
                    x);
    }
  }
}
