// Classification from the evidences of the spectrum models.
#include "world.h"

#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/method/classificationsolve.h"
#include "RedshiftLibrary/method/solveresult.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"

using namespace world;

namespace {
struct Model {
  std::string name, method; // method empty: no redshift solver
  bool result = false;      // a solve result was stored
  double evidence = -INFINITY;
};
double evidenceOf(Ctx &g, double base) {
  switch (g.i(0, 7)) {
  case 0:
    return -INFINITY;
  case 1:
    return base;
  case 2:
    return base + g.f(-5., 5.);
  case 3:
    return base + g.f(-800., 800.);
  case 4:
    return base * g.f(0.5, 2.);
  case 5:
    return base - g.logf(1e-12, 1e3);
  default:
    return base + g.f(-60., 60.);
  }
}
} // namespace

PROP("P21", normalised, 500, 8000) {
  const int n = g.i(1, 4);
  V y(40), e(40, 1.);
  V x = linAxis(40, 4000., 100.);
  for (auto &v : y)
    v = g.gauss();
  std::vector<std::string> names{"galaxy", "star", "qso", "galaxy2"};
  g.shuffle(names);
  names.resize(n);
  std::vector<Model> models(n);
  Params p = baseParams(names, TFloat64Range(4100., 7800.));
  for (int k = 0; k < n; ++k) {
    models[k].name = names[k];
    if (g.chance(85)) {
      models[k].method = g.pick({std::string("templateFittingSolve"), std::string("tplCombinationSolve")});
      p.set(names[k] + ".redshiftSolver.method", models[k].method);
      p.set(names[k] + ".redshiftSolver." + models[k].method + ".ismFit", false);
    } else
      p.set(names[k] + ".lineMeasSolver.method", "lineMeasSolve");
  }
  freshContext(p, makeDust(g), makeIgm(g, 900., 1, 5.), std::make_shared<CTemplateCatalog>());
  Context.addSpectrum(makeSpectrum(Data{x, y, e}, constantResolutionLSF(3000.)));
  Context.Init();

  // several sources with one context, classified in turn
  const int sources = g.i(1, 3);
  const auto cand = std::make_shared<TCandidateZ>();
  for (int src = 0; src < sources; ++src) {
    auto store = Context.GetResultStore();
    store->reset();
    double base = g.pick({0., -1., 700., -745., -1e4, -1e6, -1e9, 1e5, -1e200});
    int have = 0;
    double best = -INFINITY;
    std::string label;
    std::string other = names[0];
    for (auto &m : models) {
      m.result = !m.method.empty() && g.chance(80);
      m.evidence = -INFINITY;
      // results of other stages, methods or names are not the redshift solver's
      if (g.chance(30)) {
        auto decoy = std::make_shared<CPdfSolveResult>("decoy", cand, "marg", base + g.f(-1000., 1000.));
        switch (g.i(0, 2)) {
        case 0:
          store->StoreGlobalResult(m.name + ".lineMeasSolver.lineMeasSolve", "solveResult", decoy);
          break;
        case 1:
          store->StoreGlobalResult(m.name + ".redshiftSolver.lineModelSolve", "solveResult", decoy);
          break;
        default:
          store->StoreGlobalResult(m.name + ".redshiftSolver.templateFittingSolve", "pdf", decoy);
        }
        g.label("decoy");
      }
      if (!m.result)
        continue;
      m.evidence = evidenceOf(g, base);
      store->StoreGlobalResult(m.name + ".redshiftSolver." + m.method, "solveResult",
                               std::make_shared<CPdfSolveResult>("x", cand, "marg", m.evidence));
      ++have;
    }
    for (auto &m : models)
      if (m.evidence > best)
        best = m.evidence;
    g.note("models", n, "with result", have, "best", best);
    std::shared_ptr<const CClassificationResult> r;
    ErrorCode code = ErrorCode::INTERNAL_ERROR;
    std::string msg;
    const bool failed = throws(
        [&] {
          CAutoScope a(Context.m_ScopeStack, "classification", ScopeType::SPECTRUMMODEL);
          CAutoScope b(Context.m_ScopeStack, "classification", ScopeType::STAGE);
          CClassificationSolve solve;
          solve.Compute();
        },
        &code, &msg);
    REQUIRE_(Context.m_ScopeStack->size() == 0, "scope left", src);
    if (!std::isfinite(best)) {
      g.label("none");
      REQUIRE_(failed && code == ErrorCode::NO_CLASSIFICATION, "no usable model must be refused", int(code), msg);
      continue;
    }
    REQUIRE_(!failed, "classification refused", msg);
    r = store->GetClassificationResult("classification", "classification", "classification", "solveResult");
    REQUIRE_(bool(r), "no result", src);
    long double sum = 0;
    for (auto &m : models)
      if (m.result)
        sum += expl((long double)m.evidence - best);
    double total = 0;
    REQUIRE_(int(r->m_proba.size()) == n && int(r->m_evidences.size()) == n, "entries", r->m_proba.size());
    bool labelOk = false;
    for (auto &m : models) {
      const double want = m.result ? double(expl((long double)m.evidence - best) / sum) : 0.;
      const double got = r->m_proba.at(m.name);
      REQUIRE_(got >= 0. && got <= 1., "probability out of range", m.name, got);
      REQUIRE_CLOSE(got, want, 1e-12, 1e-300, "probability", m.name, m.evidence);
      REQUIRE_(r->m_evidences.at(m.name) == (m.result ? m.evidence : -INFINITY), "evidence", m.name,
               r->m_evidences.at(m.name));
      if (m.name == r->m_TypeLabel)
        labelOk = m.result && m.evidence == best;
      total += got;
    }
    REQUIRE_CLOSE(total, 1., 1e-12, 0., "sum", total);
    REQUIRE_(labelOk, "class is not the one of the largest evidence", r->m_TypeLabel);
    if (have > 1)
      g.nontrivial();
    for (auto &m : models)
      if (m.method.empty())
        g.label("model without redshift solver");
  }
}
