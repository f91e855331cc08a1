// Building blocks for the checks that go through the processing context: parameters, calibration objects,
// spectra and templates.
#pragma once
#include "util.h"

#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#undef BOOST_BIND_GLOBAL_PLACEHOLDERS

#include "RedshiftLibrary/common/defaults.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#include "RedshiftLibrary/spectrum/rebin/rebin.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "RedshiftLibrary/spectrum/template/template.h"

namespace world {
using namespace util;

struct Params {
  boost::property_tree::ptree t;
  template <class T> void set(const std::string &path, const T &v) { t.put(path, v); }
  void set(const std::string &path, double v) {
    std::ostringstream os;
    os.precision(17);
    os << v;
    t.put(path, os.str());
  }
  void set(const std::string &path, bool v) { t.put(path, v ? "true" : "false"); }
  void set(const std::string &path, const char *v) { t.put(path, v); }
  template <class T> void list(const std::string &path, const std::vector<T> &v) {
    boost::property_tree::ptree a;
    for (const auto &x : v) {
      boost::property_tree::ptree i;
      std::ostringstream os;
      os.precision(17);
      os << x;
      i.put("", os.str());
      a.push_back({"", i});
    }
    t.put_child(path, a);
  }
  std::string str() const {
    std::ostringstream os;
    boost::property_tree::write_json(os, t);
    return os.str();
  }
};

// everything the initialisation of the context asks for
inline Params baseParams(const std::vector<std::string> &models, const TFloat64Range &lambda) {
  Params p;
  p.list("spectrumModels", models);
  p.list("lambdaRange", V{lambda.GetBegin(), lambda.GetEnd()});
  p.set("smoothWidth", 0.);
  p.set("templateCatalog.continuumRemoval.method", "zero");
  p.set("templateCatalog.continuumRemoval.medianKernelWidth", 75.);
  p.set("templateCatalog.continuumRemoval.medianEvenReflection", true);
  p.set("continuumRemoval.method", "zero");
  p.set("continuumRemoval.medianKernelWidth", 150.);
  p.set("continuumRemoval.medianEvenReflection", true);
  p.set("ebmv.start", 0.);
  p.set("ebmv.step", 0.1);
  p.set("ebmv.count", 3);
  p.set("lsf.lsfType", "gaussianConstantResolution");
  p.set("lsf.resolution", 3000.);
  p.set("extremaRedshiftSeparation", 0.01);
  p.set("autoCorrectInput", false);
  p.set("airVacuumMethod", "");
  return p;
}

inline std::shared_ptr<CLSF> constantResolutionLSF(double r) {
  return LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(r));
}
inline std::shared_ptr<CLSF> constantWidthLSF(double w) {
  return LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(w));
}

// dust law: k(lambda) decreasing, regular step
struct Dust {
  V lambda, k;
  double start, step;
  int n;
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> obj;
  double coeff(int kd, double rest) const {
    if (kd < 0 || rest < lambda.front() || rest >= lambda.back())
      return 1.;
    size_t i = size_t(std::round((rest - lambda.front()) / (lambda[1] - lambda[0])));
    return std::pow(10., -0.4 * k[i] * (start + step * kd));
  }
};
inline Dust makeDust(Ctx &g, int nmax = 4) {
  Dust d;
  double lo = g.pick({900., 1000., 100., 1250.}), hi = g.pick({12000., 25000., 6000.}), st = g.pick({1., 10.});
  size_t n = size_t((hi - lo) / st) + 1;
  d.lambda = linAxis(n, lo, st);
  d.k.resize(n);
  for (size_t i = 0; i < n; ++i)
    d.k[i] = 12. * std::pow(1000. / (d.lambda[i] + 500.), 0.9);
  d.start = g.pick({0., 0., 0.05, -0.1});
  d.step = g.pick({0.1, 0.25, 0.03});
  d.n = g.i(1, nmax);
  d.obj = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(d.lambda, d.k), d.start, d.step, d.n);
  return d;
}

// IGM tables; wavelengths on the step the library expects
struct Igm {
  V zbins, lambda;
  std::vector<MeiksinCorrection> curves;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> obj;
};
inline Igm makeIgm(Ctx &g, double lo = 900., int nidx = 3, double zlast = 7.) {
  Igm m;
  m.zbins = g.pick({V{0., 1., 2.5, 4., zlast}, V{1.5, 2.5, 3.5, zlast}, V{2., 3., zlast}, V{0., zlast}});
  size_t n = size_t(std::floor((1217. - lo) / IGM_RAW_STEP));
  m.lambda = linAxis(n, lo, IGM_RAW_STEP);
  double slope = g.f(0.2, 1.5);
  for (size_t z = 0; z + 1 < m.zbins.size(); ++z) {
    std::vector<TFloat64List> c;
    for (int i = 0; i < nidx; ++i) {
      V f(n);
      for (size_t k = 0; k < n; ++k) {
        double tau = slope * (i + 1) * (0.3 + z) * (1.2 + std::sin(m.lambda[k] / 7. + i)) * 0.2;
        f[k] = m.lambda[k] > RESTLAMBDA_LYA ? 1. : std::exp(-tau);
      }
      c.push_back(f);
    }
    m.curves.emplace_back(m.lambda, c);
  }
  m.obj = std::make_shared<CSpectrumFluxCorrectionMeiksin>(m.curves, m.zbins);
  return m;
}

struct Data {
  V x, y, e;
};
inline std::shared_ptr<CSpectrum> makeSpectrum(const Data &d, const std::shared_ptr<const CLSF> &lsf = nullptr,
                                               const std::string &name = "spc", const std::string &obs = "") {
  auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(d.x),
                                       CSpectrumFluxAxis(d.y.data(), d.y.size(), d.e.data(), d.e.size()), lsf);
  s->SetName(name);
  s->setObsID(obs);
  return s;
}
inline std::shared_ptr<CTemplate> makeTemplate(const std::string &name, const std::string &cat, const V &x, const V &y) {
  return std::make_shared<CTemplate>(name, cat, CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y));
}

// positive template flux with features
inline V templateFlux(Ctx &g, const V &x) {
  V y(x.size());
  double s = g.f(-2, 2), lo = x.front(), hi = x.back();
  int nf = g.i(0, 4);
  V c(nf), w(nf), a(nf);
  for (int i = 0; i < nf; ++i) {
    c[i] = g.f(lo, hi);
    w[i] = (hi - lo) * g.logf(0.004, 0.2);
    a[i] = g.f(-0.8, 3.);
  }
  for (size_t k = 0; k < x.size(); ++k) {
    double v = std::pow(x[k] / lo, s);
    for (int i = 0; i < nf; ++i)
      v *= 1 + a[i] * std::exp(-0.5 * (x[k] - c[i]) * (x[k] - c[i]) / w[i] / w[i]);
    y[k] = v;
  }
  return y;
}

// linear interpolation inside the axis
inline double lerp(const V &x, const V &y, double t) {
  size_t i = std::upper_bound(x.begin(), x.end(), t) - x.begin();
  i = std::min(std::max<size_t>(i, 1), x.size() - 1) - 1;
  return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]);
}

// a fresh context with these calibration objects
inline void freshContext(const Params &p, const Dust &d, const Igm &m, const std::shared_ptr<CTemplateCatalog> &cat) {
  Context.reset();
  while (Context.m_ScopeStack->size())
    Context.m_ScopeStack->pop_back();
  Context.LoadParameterStore(p.str());
  Context.setfluxCorrectionCalzetti(d.obj);
  Context.setfluxCorrectionMeiksin(m.obj);
  Context.setTemplateCatalog(cat);
}

} // namespace world
