// P01: normalisation and combination of the redshift posterior
#include "util.h"

#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/statistics/zprior.h"

using namespace NSEpic;
using namespace util;

namespace {
struct Case {
  ChisquareArray a;
  bool logz;
  bool hasSub = false;
  double scale;
};

// a redshift grid as the solvers make it: first pass, or first pass with finer windows inserted
void genGrid(Ctx &g, Case &c, bool allowSub) {
  c.logz = g.b();
  double zmin = g.pick({0.0, 0.01, 0.3, 1.0}) + g.f(0, 0.2);
  double step = g.logf(1e-4, 5e-2);
  size_t n = g.n(5, 60);
  double zmax = c.logz ? (1 + zmin) * std::exp(step * (n - 1)) - 1 : zmin + step * (n - 1);
  CZGridParam first(TFloat64Range(zmin, zmax), step);
  TFloat64List z0 = first.getZGrid(c.logz);
  c.a.zstep = step;
  c.a.redshifts = z0;
  if (allowSub && z0.size() > 6 && g.chance(50)) {
    int ns = g.i(1, 3);
    double fine = step / g.i(2, 5); // one step for all the windows, as in the solvers
    TZGridListParams ps{CZGridParam(TFloat64Range(z0), step)};
    for (int k = 0; k < ns; ++k) {
      size_t ic = g.n(2, z0.size() - 3);
      int half = g.i(1, 2);
      double zc = z0[ic];
      ps.push_back(CZGridParam(TFloat64Range(z0[ic - half], z0[ic + half]), fine, zc));
    }
    CZGridListParams pl(ps);
    c.a.redshifts = pl.getZGrid(c.logz);
    c.a.zgridParams.assign(ps.begin() + 1, ps.end());
    c.hasSub = true;
    for (int k = 0; k < ns; ++k)
      c.a.parentCandidates.push_back({"CAND" + std::to_string(k), std::make_shared<TCandidateZ>()});
  }
}

void genChi2(Ctx &g, Case &c) {
  size_t n = c.a.redshifts.size();
  int nm = g.i(1, 5);
  c.scale = g.pick({1., 10., 100., 3000., 1e5});
  double base = g.pick({0., 1000., 1e5, 1e6});
  for (int m = 0; m < nm; ++m) {
    V y = curve(g, n, c.scale);
    double off = base + c.scale * g.f(-1, 1);
    for (size_t k = 0; k < n; ++k)
      y[k] = off + y[k] + 1e-3 * c.scale * std::sin(1.7 * double(k) + m);
    c.a.chisquares.push_back(y);
    V p(n, 0.);
    int pk = g.i(0, 2);
    if (pk == 1)
      for (auto &x : p)
        x = g.b() ? 0. : std::log(1e-3);
    else if (pk == 2)
      for (size_t k = 0; k < n; ++k)
        p[k] = g.f(-20, 20);
    c.a.zpriors.push_back(p);
  }
  if (g.b()) {
    V w(nm);
    double s = 0;
    for (auto &x : w)
      s += (x = g.f(0.01, 1));
    for (auto &x : w)
      x /= s;
    c.a.modelpriors = w;
  }
  c.a.cstLog = g.pick({0., -1000., 1500.});
}

// runs the operator; the search for peaks after the combination may find none
std::shared_ptr<CLogZPdfResult> run(const ChisquareArray &a, bool logz, const std::string &comb) {
  COperatorPdfz op(comb, 0., 0., 10, logz, "EXT", true, 0);
  ErrorCode code;
  std::string msg;
  if (throws([&] { op.Compute(a); }, &code, &msg))
    REQUIRE_(code == ErrorCode::PDF_PEAK_NOT_FOUND, "refused", "valid input refused: ", msg);
  return op.m_postmargZResult;
}

struct Ref {
  V logpdf;
  double evidence, margEvidence;
};

Ref reference(const ChisquareArray &a, const std::string &comb) {
  const V &z = a.redshifts;
  size_t n = z.size(), nm = a.chisquares.size();
  std::vector<V> lw(nm, V(n)); // log of likelihood x normalised prior
  std::vector<long double> ev(nm);
  for (size_t m = 0; m < nm; ++m) {
    long double lp = logIntegral(a.zpriors[m], z);
    for (size_t k = 0; k < n; ++k)
      lw[m][k] = -0.5 * a.chisquares[m][k] + a.zpriors[m][k] - double(lp);
    ev[m] = logIntegral(lw[m], z) + a.cstLog +
            logl(a.modelpriors.empty() ? 1.0L / nm : (long double)a.modelpriors[m]);
  }
  Ref r;
  r.logpdf.resize(n);
  r.margEvidence = double(logSum(ev));
  if (comb == "marg") {
    for (size_t k = 0; k < n; ++k) {
      std::vector<long double> t;
      for (size_t m = 0; m < nm; ++m)
        t.push_back((long double)lw[m][k] + a.cstLog +
                    logl(a.modelpriors.empty() ? 1.0L / nm : (long double)a.modelpriors[m]));
      r.logpdf[k] = double(logSum(t) - logSum(ev));
    }
    r.evidence = r.margEvidence;
  } else {
    V y(n);
    for (size_t k = 0; k < n; ++k) {
      double m = INFINITY;
      for (auto &c : a.chisquares)
        m = std::min(m, c[k]);
      y[k] = -0.5 * m - std::log(z.back() - z.front());
    }
    long double e = logIntegral(y, z);
    for (size_t k = 0; k < n; ++k)
      r.logpdf[k] = double((long double)y[k] - e);
    r.evidence = double(e + a.cstLog);
  }
  return r;
}

double tol(const ChisquareArray &a) {
  double m = 1;
  for (auto &c : a.chisquares)
    for (double x : c)
      m = std::max(m, std::abs(x));
  return 1e-8 + 1e-12 * m;
}

void compare(const CLogZPdfResult &p, const ChisquareArray &a, const std::string &comb) {
  Ref r = reference(a, comb);
  double t = tol(a);
  REQUIRE_(p.redshifts == a.redshifts, "grid", "posterior not on the given grid");
  REQUIRE_(p.valProbaLog.size() == a.redshifts.size(), "size", "");
  for (size_t k = 0; k < a.redshifts.size(); ++k)
    REQUIRE_CLOSE(p.valProbaLog[k], r.logpdf[k], 1e-10, t, "posterior", "at sample ", k);
  REQUIRE_CLOSE(p.valEvidenceLog, r.evidence, 1e-10, t, "evidence", comb);
  REQUIRE_CLOSE(p.valMargEvidenceLog, r.margEvidence, 1e-10, t, "marg-evidence", comb);
  REQUIRE_CLOSE(double(expl(logIntegral(p.valProbaLog, p.redshifts))), 1., 1e-6, t, "normalisation", comb);
  REQUIRE_CLOSE(p.getSumTrapez(), 1., 1e-6, t, "sum-trapez", comb);
}

void describe(Ctx &g, const Case &c) {
  g.notev("z", c.a.redshifts, 6);
  g.note("log=", c.logz, " subgrids=", c.a.zgridParams.size(), " models=", c.a.chisquares.size(), " cst=", c.a.cstLog);
  for (auto &x : c.a.chisquares)
    g.notev("chi2", x, 5);
  for (auto &x : c.a.zpriors)
    g.notev("logprior", x, 3);
  g.notev("modelprior", c.a.modelpriors);
}
} // namespace

PROP("P01", combine, 40000, 1500000) {
  Case c;
  genGrid(g, c, true);
  genChi2(g, c);
  describe(g, c);
  std::string comb = g.pick({"marg", "bestChi2"});
  g.label(comb);
  g.label(c.hasSub ? "with-subgrids" : "regular-grid");
  if (c.a.chisquares.size() > 1)
    g.label("several-models");
  auto p = run(c.a, c.logz, comb);
  compare(*p, c.a, comb);
  g.nontrivial(c.a.redshifts.size() >= 3);
}

PROP("P01", metamorphic, 10000, 400000) {
  Case c;
  genGrid(g, c, true);
  genChi2(g, c);
  describe(g, c);
  std::string comb = g.pick({"marg", "bestChi2"});
  auto p = run(c.a, c.logz, comb);
  double t = 10 * tol(c.a);
  // constant added to all chi-squares
  double d = g.f(-500, 500);
  ChisquareArray b = c.a;
  for (auto &x : b.chisquares)
    for (auto &y : x)
      y += d;
  auto q = run(b, c.logz, comb);
  REQUIRE_CLOSE(q->valEvidenceLog, p->valEvidenceLog - 0.5 * d, 1e-9, t, "shift-evidence", "shift ", d);
  for (size_t k = 0; k < b.redshifts.size(); ++k)
    REQUIRE_CLOSE(q->valProbaLog[k], p->valProbaLog[k], 1e-9, t, "shift-posterior", "shift ", d);
  // order of the models
  std::vector<size_t> perm(c.a.chisquares.size());
  for (size_t k = 0; k < perm.size(); ++k)
    perm[k] = k;
  g.shuffle(perm);
  b = c.a;
  for (size_t k = 0; k < perm.size(); ++k) {
    b.chisquares[k] = c.a.chisquares[perm[k]];
    b.zpriors[k] = c.a.zpriors[perm[k]];
    if (!b.modelpriors.empty())
      b.modelpriors[k] = c.a.modelpriors[perm[k]];
  }
  q = run(b, c.logz, comb);
  REQUIRE_CLOSE(q->valMargEvidenceLog, p->valMargEvidenceLog, 1e-9, t, "order-evidence", "");
  for (size_t k = 0; k < b.redshifts.size(); ++k)
    REQUIRE_CLOSE(q->valProbaLog[k], p->valProbaLog[k], 1e-9, t, "order-posterior", "");
  // constant added to a log-prior is normalised away
  b = c.a;
  double d2 = g.f(-30, 30);
  for (auto &x : b.zpriors)
    for (auto &y : x)
      y += d2;
  q = run(b, c.logz, comb);
  REQUIRE_CLOSE(q->valMargEvidenceLog, p->valMargEvidenceLog, 1e-9, t, "prior-norm", "");
  // duplicating every model changes nothing when priors are halved
  if (comb == "marg") {
    b = c.a;
    size_t nm = c.a.chisquares.size();
    if (b.modelpriors.empty())
      b.modelpriors.assign(nm, 1. / nm);
    for (size_t k = 0; k < nm; ++k) {
      b.modelpriors[k] *= 0.5;
      b.chisquares.push_back(b.chisquares[k]);
      b.zpriors.push_back(b.zpriors[k]);
      b.modelpriors.push_back(b.modelpriors[k]);
    }
    q = run(b, c.logz, comb);
    REQUIRE_CLOSE(q->valMargEvidenceLog, p->valMargEvidenceLog, 1e-9, t, "dup-evidence", "");
    for (size_t k = 0; k < b.redshifts.size(); ++k)
      REQUIRE_CLOSE(q->valProbaLog[k], p->valProbaLog[k], 1e-9, t, "dup-posterior", "");
  }
  g.nontrivial(c.a.redshifts.size() >= 3 && c.a.chisquares.size() > 1);
}

PROP("P01", bestproba, 6000, 200000) {
  Case c;
  c.logz = false;
  double zmin = g.f(0, 1), step = g.logf(1e-4, 5e-2);
  size_t n = g.n(5, 80);
  c.a.redshifts = CZGridParam(TFloat64Range(zmin, zmin + step * (n - 1)), step).getZGrid(false);
  c.a.zstep = step;
  genChi2(g, c);
  describe(g, c);
  COperatorPdfz op("bestproba", 0., 0., 10, false, "EXT", true, 0);
  ErrorCode code;
  std::string msg;
  const V &z = c.a.redshifts;
  V best(z.size(), -INFINITY);
  for (size_t m = 0; m < c.a.chisquares.size(); ++m) {
    V y(z.size());
    for (size_t k = 0; k < z.size(); ++k)
      y[k] = -0.5 * c.a.chisquares[m][k] + c.a.zpriors[m][k];
    double e = double(logIntegral(y, z));
    for (size_t k = 0; k < z.size(); ++k)
      best[k] = std::max(best[k], y[k] - e);
  }
  double norm = double(logIntegral(best, z));
  std::vector<long double> bl(best.begin(), best.end());
  double rect = double(logSum(bl)) + std::log(step);
  bool refused = throws([&] { op.Compute(c.a); }, &code, &msg);
  if (refused && code != ErrorCode::PDF_PEAK_NOT_FOUND) {
    // only when the rectangle rule used here misses the integral by more than ten percent
    REQUIRE_(std::abs(std::exp(norm - rect) - 1) > 0.0999 || *std::max_element(best.begin(), best.end()) == *std::min_element(best.begin(), best.end()),
             "refused", "valid input refused: ", msg);
    g.label("refused");
    return;
  }
  REQUIRE_(std::abs(std::exp(norm - rect) - 1) < 0.1001, "accepted", "");
  for (size_t k = 0; k < z.size(); ++k)
    REQUIRE_CLOSE(op.m_postmargZResult->valProbaLog[k], best[k] - rect, 1e-9, 10 * tol(c.a) + 1e-7, "posterior", "at ", k);
  g.nontrivial(c.a.chisquares.size() > 1);
}

PROP("P01", refusals, 6000, 100000) {
  Case c;
  genGrid(g, c, false);
  genChi2(g, c);
  describe(g, c);
  std::string comb = g.pick({"marg", "bestChi2", "bestproba"});
  size_t nm = c.a.chisquares.size(), n = c.a.redshifts.size();
  int kind = g.i(0, 7);
  auto a = c.a;
  switch (kind) {
  case 0:
    a.chisquares[g.n(0, nm - 1)][g.n(0, n - 1)] = NAN;
    break;
  case 1:
    a.zpriors.pop_back();
    break;
  case 2: // priors that do not sum to one
    if (comb == "bestproba")
      comb = "marg";
    a.modelpriors.assign(nm, 0.);
    for (auto &x : a.modelpriors)
      x = g.f(0.05, 1);
    {
      double s = 0, target = g.b() ? g.f(0.1, 0.88) : g.f(1.12, 3);
      for (double x : a.modelpriors)
        s += x;
      for (auto &x : a.modelpriors)
        x *= target / s;
    }
    break;
  case 3:
    a.chisquares.clear();
    a.zpriors.clear();
    break;
  case 4:
    comb = g.pick({"", "best", "MARG", "marginalise"});
    break;
  case 5: { // flat posterior
    double v = g.pick({0., 1., 1234.5});
    for (auto &x : a.chisquares)
      x.assign(n, v);
    for (auto &x : a.zpriors)
      x.assign(n, 0.);
    break;
  }
  case 6:
    if (comb == "bestproba")
      comb = "marg";
    a.modelpriors.assign(nm + 1, 1. / (nm + 1));
    break;
  case 7:
    if (comb == "bestChi2")
      comb = "marg";
    a.zpriors[g.n(0, nm - 1)].push_back(0.);
    break;
  }
  g.note("kind=", kind, " ", comb);
  COperatorPdfz op(comb, 0., 0., 10, c.logz, "EXT", true, 0);
  ErrorCode code = ErrorCode::PDF_PEAK_NOT_FOUND;
  bool t = throws([&] { op.Compute(a); }, &code);
  REQUIRE_(t && code != ErrorCode::PDF_PEAK_NOT_FOUND, "not-refused", "kind ", kind, " comb ", comb);
  if (kind == 5 && comb != "bestproba")
    REQUIRE_(code == ErrorCode::FLAT_ZPDF, "flat-code", "");
  g.label("kind" + std::to_string(kind));
  g.nontrivial();
}

// logSumExpTrick and the per-model posterior, on irregular grids
PROP("P01", logsumexp, 20000, 500000) {
  size_t n = g.n(2, 50);
  V z = incAxis(g, n, g.f(0, 2), 1e-6, 0.1);
  double s = g.pick({1., 100., 1e4, 1e6});
  V y = curve(g, n, s);
  double off = g.f(-1, 1) * s;
  for (size_t k = 0; k < n; ++k)
    y[k] += off;
  g.notev("z", z);
  g.notev("y", y);
  REQUIRE_CLOSE(COperatorPdfz::logSumExpTrick(y, z), double(logIntegral(y, z)), 1e-11, 1e-9, "logsumexp", "");
  V prior(n, 0.);
  if (g.b())
    for (auto &x : prior)
      x = g.f(-10, 10);
  TFloat64List pdf;
  double ev, cst = g.f(-100, 100);
  COperatorPdfz::ComputePdf(y, z, cst, prior, pdf, ev);
  double lp = double(logIntegral(prior, z));
  V w(n);
  for (size_t k = 0; k < n; ++k)
    w[k] = -0.5 * y[k] + prior[k] - lp;
  double e = double(logIntegral(w, z));
  REQUIRE_CLOSE(ev, e + cst, 1e-10, 1e-8, "evidence", "");
  REQUIRE_(pdf.size() == n, "size", "");
  for (size_t k = 0; k < n; ++k)
    REQUIRE_CLOSE(pdf[k], w[k] - e, 1e-10, 1e-8, "pdf", "");
  g.nontrivial(n >= 3);
}

PROP("P01", priors, 10000, 300000) {
  size_t n = g.n(2, 40);
  V z = incAxis(g, n, g.f(0, 2), 1e-4, 0.1);
  bool norm = g.b();
  CZPrior zp = norm ? CZPrior(true, z) : CZPrior();
  g.note("normalised=", norm);
  g.notev("z", z);
  auto check = [&](V expected, const V &got, const char *what) {
    if (norm) {
      double s = double(logIntegral(expected, z));
      for (auto &x : expected)
        x -= s;
      REQUIRE_CLOSE(double(expl(logIntegral(got, z))), 1., 1e-9, 0, "prior-norm", what);
    }
    REQUIRE_(got.size() == expected.size(), "prior-size", what);
    for (size_t k = 0; k < n; ++k)
      REQUIRE_CLOSE(got[k], expected[k], 1e-9, 1e-9, "prior-value", what, " at ", k);
  };
  check(V(n, 0.), zp.GetConstantLogZPrior(n), "constant");
  double pen = g.logf(1e-10, 1);
  TBoolList pres(n);
  TInt32List nl(n);
  V e1(n), e2(n);
  for (size_t k = 0; k < n; ++k) {
    pres[k] = g.b();
    nl[k] = g.i(0, 4);
    e1[k] = pres[k] ? 0. : std::log(pen);
    e2[k] = nl[k] >= 2 ? 0. : std::log(pen);
  }
  check(e1, zp.GetStrongLinePresenceLogZPrior(pres, pen), "strong-line");
  check(e2, zp.GetNLinesSNRAboveCutLogZPrior(nl, pen), "nlines");
  V a(n), b(n), s(n);
  for (size_t k = 0; k < n; ++k) {
    a[k] = g.f(-20, 5);
    b[k] = g.f(-20, 5);
    s[k] = a[k] + b[k];
  }
  check(s, zp.CombineLogZPrior(a, b), "combined");
  double alpha = g.f(0.1, 2);
  V na(n);
  double mx = -INFINITY;
  for (size_t k = 0; k < n; ++k) {
    double x = z[k];
    double p = -2288.98457865 + x * (79004.76406 + x * (-92914.84430357 + x * (44240.3837462642 + x * (-10409.6716744981 + x * (1203.94994364807 - 54.7422088727874 * x)))));
    if (p < 0)
      p = 2.2250738585072014e-308;
    na[k] = alpha * std::log(p);
    mx = std::max(mx, na[k]);
  }
  for (auto &x : na)
    x = std::max(x - mx, -std::log(1e12));
  check(na, zp.GetEuclidNhaLogZPrior(z, alpha), "nha");
  REQUIRE_(throws([&] { zp.GetEuclidNhaLogZPrior(z, -alpha); }), "refusal", "negative strength accepted");
  b.push_back(0);
  REQUIRE_(throws([&] { zp.CombineLogZPrior(a, b); }), "refusal", "different sizes accepted");
  g.nontrivial();
}
