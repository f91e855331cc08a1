// P04: integrated probability, redshift error and ranking of the candidates
#include "util.h"

#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"

using namespace NSEpic;
using namespace util;

namespace {
typedef long double L;

// a normalised log-posterior with a few peaks, well sampled or not
V posterior(Ctx &g, const V &z, double depth) {
  size_t n = z.size();
  V y(n, -depth);
  int np = g.i(1, 5);
  for (int p = 0; p < np; ++p) {
    size_t c = g.n(0, n - 1);
    double w = g.logf(0.3, double(n) / 4 + 1), h = g.b() ? 0. : -depth * g.f(0, 0.9);
    for (size_t k = 0; k < n; ++k) {
      double d = (double(k) - double(c)) / w;
      y[k] = std::max(y[k], h - 0.5 * d * d);
    }
  }
  if (g.chance(30))
    for (auto &v : y)
      v += 0.2 * g.gauss();
  double s = double(logIntegral(y, z));
  for (auto &v : y)
    v -= s;
  return y;
}

// curvature error as specified: parabola with its top at the sample, through the 5 (then 2) samples on each side
double refDeltaz(const V &z, const V &y, size_t iz) {
  for (size_t half : {size_t(5), size_t(2)}) {
    size_t a = iz > half ? iz - half : 0, b = std::min(z.size() - 1, iz + half);
    L sxy = 0, sxx = 0;
    for (size_t k = a; k <= b; ++k) {
      L d2 = ((L)z[k] - z[iz]) * ((L)z[k] - z[iz]);
      sxy += d2 * ((L)y[iz] - y[k]);
      sxx += d2 * d2;
    }
    L c = sxy / sxx;
    if (c > 0)
      return double(sqrtl(1 / c));
  }
  return 1e-3;
}

struct RefCand {
  std::string id;
  double z, proba, dz, lo, hi;
  bool dropped = false;
};

// the specified overlap policy: neighbours in decreasing redshift
void refRanges(std::vector<RefCand> &c, double zmin, double zmax) {
  for (auto &r : c) {
    r.lo = std::max(zmin, r.z - 3 * r.dz);
    r.hi = std::min(zmax, r.z + 3 * r.dz);
  }
  std::sort(c.begin(), c.end(), [](const RefCand &a, const RefCand &b) { return a.z > b.z; });
  for (size_t k = 0; k + 1 < c.size(); ++k) {
    RefCand &h = c[k], &l = c[k + 1];
    double ov = l.hi - h.lo;
    if (ov <= 0)
      continue;
    if (ov / (h.hi - h.lo) < 0.3 && ov / (l.hi - l.lo) < 0.3) {
      double mid = l.hi - 0.5 * ov;
      l.hi = mid;
      h.lo = mid;
    } else
      (l.proba > h.proba ? h : l).dropped = true;
  }
}
bool ambiguous(std::vector<RefCand> c, double zmin, double zmax) {
  // an overlap ratio at the threshold, or neighbours of the same redshift and different probability
  for (auto &r : c) {
    r.lo = std::max(zmin, r.z - 3 * r.dz);
    r.hi = std::min(zmax, r.z + 3 * r.dz);
  }
  std::sort(c.begin(), c.end(), [](const RefCand &a, const RefCand &b) { return a.z > b.z; });
  for (size_t k = 0; k + 1 < c.size(); ++k) {
    RefCand &h = c[k], &l = c[k + 1];
    if (h.z == l.z)
      return true;
    double ov = l.hi - h.lo;
    for (double w : {h.hi - h.lo, l.hi - l.lo})
      if (std::abs(ov / w - 0.3) < 1e-6 || std::abs(ov) < 1e-12)
        return true;
    if (ov > 0 && ov / (h.hi - h.lo) < 0.3 && ov / (l.hi - l.lo) < 0.3) {
      double mid = l.hi - 0.5 * ov;
      l.hi = mid;
      h.lo = mid;
    }
  }
  return false;
}
} // namespace

PROP("P04", deltaz, 40000, 1000000) {
  size_t n = g.n(3, 40);
  double z0 = g.f(0, 6);
  V z = g.b() ? linAxis(n, z0, g.logf(1e-6, 1e-2)) : incAxis(g, n, z0, 1e-6, 1e-2);
  V y(n);
  size_t iz = g.n(0, n - 1);
  CDeltaz dz;
  if (g.b()) { // exact parabola: the width is exactly known, for both estimators
    double s = g.logf(1e-6, 1e-1), top = g.f(-100, 100);
    for (size_t k = 0; k < n; ++k)
      y[k] = top - (z[k] - z[iz]) * (z[k] - z[iz]) / (s * s);
    g.note("parabola s=", s, " iz=", iz);
    g.notev("z", z);
    // rounding of y limits what can be recovered
    double span = std::min(z[std::min(n - 1, iz + 2)] - z[iz] + 1e-300, 1.);
    double drop = 0;
    for (size_t k = iz > 2 ? iz - 2 : 0; k <= std::min(n - 1, iz + 2); ++k)
      drop = std::max(drop, top - y[k]);
    (void)span;
    double tol = 1e-9 + 1e-13 * (std::abs(top) + 1) / drop;
    if (!(drop > 0) || tol > 1e-3)
      g.discard();
    REQUIRE_CLOSE(dz.GetDeltaz(z, y, z[iz]), s, tol, 0, "parabola", "");
    // translation and scale
    V y2 = y;
    for (auto &v : y2)
      v = 4 * v;
    REQUIRE_CLOSE(dz.GetDeltaz(z, y2, z[iz]), s / 2, 10 * tol, 0, "parabola-scaled", "");
    g.label("parabola");
    g.nontrivial(n >= 5);
    return;
  }
  y = g.b() ? posterior(g, z, g.logf(1, 1e4)) : curve(g, n, g.logf(1e-3, 1e3));
  g.notev("z", z);
  g.notev("y", y);
  g.note("iz=", iz);
  double r = refDeltaz(z, y, iz);
  // near-zero curvature: the sign is decided by rounding
  double scale = 0;
  for (double v : y)
    scale = std::max(scale, std::abs(v));
  double got = dz.GetDeltaz(z, y, z[iz]);
  REQUIRE_(std::isfinite(got) && got > 0, "finite", got);
  double w = z[std::min(n - 1, iz + 5)] - z[iz > 5 ? iz - 5 : 0];
  if (r > 1e3 * w / std::sqrt(scale * 1e-9 + 1e-300) || scale == 0)
    g.discard();
  REQUIRE_CLOSE(got, r, 1e-6, 0, "deltaz", "");
  g.label(r == 1e-3 ? "fallback" : "curvature");
  g.nontrivial();
}

PROP("P04", deltaz_refusals, 500, 5000) {
  size_t n = g.n(3, 10);
  V z = linAxis(n, 1, 0.1), y(n, 0.), e;
  CDeltaz dz;
  REQUIRE_(throws([&] { dz.GetDeltaz(e, e, 1.); }), "empty", "");
  double off = g.pick({-1., 0.05, 0.151, 100.});
  REQUIRE_(throws([&] { dz.GetDeltaz(z, y, 1. + off); }), "not-on-grid", off);
  g.nontrivial();
}

PROP("P04", ranges, 40000, 1000000) {
  size_t nc = g.n(1, 8);
  double lo = g.f(0, 1), hi = lo + g.logf(1e-3, 6), width = hi - lo;
  std::vector<RefCand> ref;
  TCandidateZbyID cands;
  for (size_t k = 0; k < nc; ++k) {
    RefCand r;
    r.id = "EXT" + std::to_string(k);
    r.z = g.chance(10) ? g.pick({lo, hi}) : g.f(lo, hi);
    if (k && g.chance(30))
      r.z = std::min(hi, ref[0].z + width * 1e-3 * g.f(-5, 5)), r.z = std::max(lo, r.z);
    r.dz = g.chance(15) ? -1. : width * g.logf(1e-5, 0.2);
    r.proba = g.f(-10, 10);
    auto c = std::make_shared<TCandidateZ>();
    c->Redshift = r.z;
    c->Deltaz = r.dz;
    c->ValProba = r.proba;
    cands[r.id] = c;
    if (r.dz == -1.)
      r.dz = 1e-3 * (1 + r.z), g.label("default-width");
    ref.push_back(r);
    g.note(r.id, " z=", r.z, " dz=", r.dz, " p=", r.proba);
  }
  TFloat64Range zr(lo, hi);
  if (ambiguous(ref, lo, hi))
    g.discard();
  refRanges(ref, lo, hi);
  CPdfCandidatesZ op(cands);
  TCandidateZRangebyID ranges;
  TStringList dup = op.SetIntegrationRanges(zr, ranges);
  REQUIRE_(ranges.size() == nc, "count", ranges.size());
  std::set<std::string> dups(dup.begin(), dup.end());
  size_t kept = 0, shared = 0;
  for (auto &r : ref) {
    REQUIRE_(bool(dups.count(r.id)) == r.dropped, r.dropped ? "not-dropped" : "dropped", r.id);
    kept += !r.dropped;
    auto &got = ranges.at(r.id);
    double full = 6 * r.dz;
    shared += got.GetLength() < full * 0.999;
    // limits common to everybody
    REQUIRE_(got.GetBegin() >= lo && got.GetEnd() <= hi, "outside-grid", r.id, " ", got);
    if (r.dropped)
      continue;
    REQUIRE_(got.GetBegin() <= r.z && got.GetEnd() >= r.z, "candidate-outside", r.id, " ", got);
    REQUIRE_CLOSE(got.GetBegin(), r.lo, 1e-12, 1e-12 * width, "begin", r.id);
    REQUIRE_CLOSE(got.GetEnd(), r.hi, 1e-12, 1e-12 * width, "end", r.id);
  }
  REQUIRE_(kept >= 1, "all-dropped", "");
  // the candidate of highest value is never dropped
  auto top = std::max_element(ref.begin(), ref.end(), [](auto &a, auto &b) { return a.proba < b.proba; });
  REQUIRE_(!top->dropped && !dups.count(top->id), "best-dropped", top->id);
  for (size_t k = 0; k < ref.size(); ++k)
    for (size_t j = k + 1; j < ref.size(); ++j) {
      if (ref[k].dropped || ref[j].dropped)
        continue;
      double ov = ranges.at(ref[j].id).GetEnd() - ranges.at(ref[k].id).GetBegin();
      bool between = false;
      for (size_t m = k + 1; m < j; ++m)
        between = between || ref[m].dropped;
      REQUIRE_(ov <= 1e-12 * (1 + hi), between ? "overlap-across-dropped" : "overlap", ref[j].id, " and ", ref[k].id,
               " share ", ov);
    }
  if (kept < nc)
    g.label("dropped");
  if (shared)
    g.label("trimmed");
  g.nontrivial(nc > 1 && (shared || kept < nc));
}

PROP("P04", integrate, 30000, 600000) {
  size_t n = g.n(8, 120);
  double z0 = g.f(0, 3), step = g.logf(1e-5, 1e-2);
  V z = g.b() ? linAxis(n, z0, step) : incAxis(g, n, z0, step, 5 * step);
  V y = posterior(g, z, g.pick({5., 50., 700., 5000.}));
  size_t nc = g.n(1, std::min(n, size_t(6)));
  std::vector<RefCand> ref;
  TCandidateZbyID cands;
  std::set<size_t> used;
  for (size_t k = 0; k < nc; ++k) {
    size_t i = g.n(0, n - 1);
    if (g.b()) // climb to the local maximum
      while (true) {
        if (i + 1 < n && y[i + 1] > y[i])
          ++i;
        else if (i > 0 && y[i - 1] > y[i])
          --i;
        else
          break;
      }
    if (!used.insert(i).second)
      continue;
    RefCand r;
    r.id = "EXT" + std::to_string(k);
    r.z = z[i];
    r.proba = y[i];
    r.dz = refDeltaz(z, y, i);
    ref.push_back(r);
    auto c = std::make_shared<TCandidateZ>();
    c->Redshift = r.z;
    c->ValProba = r.proba;
    cands[r.id] = c;
    g.note(r.id, " i=", i, " dz=", r.dz);
  }
  g.notev("z", z);
  g.notev("y", y);
  nc = ref.size();
  if (ambiguous(ref, z.front(), z.back()))
    g.discard();
  refRanges(ref, z.front(), z.back());
  CPdfCandidatesZ op(cands);
  auto res = op.Compute(z, y);
  REQUIRE_(res && size_t(res->size()) == nc, "count", "");
  std::map<std::string, RefCand> byId;
  for (auto &r : ref)
    byId[r.id] = r;
  double last = INFINITY;
  std::set<std::string> seen;
  for (auto &[id, c] : res->m_ranked_candidates) {
    REQUIRE_(seen.insert(id).second && byId.count(id), "id", id);
    auto &r = byId[id];
    REQUIRE_(c->Redshift == r.z && c->ValProba == r.proba, "changed", id);
    REQUIRE_CLOSE(c->Deltaz, r.dz, 1e-6, 0, "deltaz", id);
    REQUIRE_(c->ValSumProba <= last, "order", id, " ", c->ValSumProba, " after ", last);
    last = c->ValSumProba;
    if (r.dropped) {
      REQUIRE_(c->ValSumProba == 0., "dropped-nonzero", c->ValSumProba);
      g.label("dropped");
      continue;
    }
    // enclosing samples; a limit within rounding of a sample may go either way
    double eps = 1e-9 * (1 + r.dz);
    auto idx = [&](double lo, double hi, size_t &a, size_t &b) {
      a = 0;
      while (a + 1 < n && z[a + 1] <= lo)
        ++a;
      b = n - 1;
      while (b > 0 && z[b - 1] >= hi)
        --b;
    };
    double relsl = 1e-5 * r.dz; // Deltaz itself is only compared to 1e-6
    bool ok = false;
    L best = 0;
    for (double sl : {-1., 0., 1.})
      for (double sh : {-1., 0., 1.}) {
        size_t a, b;
        idx(r.lo + sl * (eps * 1e-3 + relsl), r.hi + sh * (eps * 1e-3 + relsl), a, b);
        if (b <= a)
          continue;
        V ys(y.begin() + a, y.begin() + b + 1), zs(z.begin() + a, z.begin() + b + 1);
        L s = expl(logIntegral(ys, zs));
        best = s;
        if (c->ValSumProbaZmin == z[a] && c->ValSumProbaZmax == z[b]) {
          ok = true;
          REQUIRE_CLOSE(c->ValSumProba, double(s), 1e-9, 1e-300, "integral", id);
        }
      }
    REQUIRE_(ok, "limits", id, " ", c->ValSumProbaZmin, "..", c->ValSumProbaZmax, " expected about ", r.lo, "..", r.hi,
             " ", double(best));
    REQUIRE_(c->ValSumProba >= 0 && c->ValSumProba <= 1 + 1e-9, "probability", c->ValSumProba);
  }
  g.nontrivial(nc > 1);
}

// gaussian option: on a posterior that is a gaussian, its parameters and integral are recovered
PROP("P04", gaussfit, 4000, 60000) {
  size_t n = g.n(60, 200), c = g.n(25, n - 26);
  double step = g.logf(1e-5, 1e-3), s = step * g.f(3, 8);
  V z = linAxis(n, g.f(0, 3), step), y(n);
  for (size_t k = 0; k < n; ++k)
    y[k] = -0.5 * (z[k] - z[c]) * (z[k] - z[c]) / s / s - std::log(s * std::sqrt(2 * M_PI));
  auto cand = std::make_shared<TCandidateZ>();
  cand->Redshift = z[c];
  cand->ValProba = y[c];
  CPdfCandidatesZ op(TCandidateZbyID{{"EXT0", cand}});
  op.m_optMethod = 1;
  auto res = op.Compute(z, y);
  auto &k = res->m_ranked_candidates.at(0).second;
  g.note("n=", n, " c=", c, " s/step=", s / step);
  REQUIRE_CLOSE(k->GaussSigma, s, 1e-4, 0, "sigma", "");
  REQUIRE_CLOSE(k->GaussAmp, std::exp(y[c]), 1e-4, 0, "amplitude", "");
  REQUIRE_CLOSE(k->ValSumProba, 1., 1e-3, 0, "integral", "");
  g.nontrivial();
}

// the whole operator, first pass then second pass around the candidates found
PROP("P04", operator_, 6000, 150000) {
  bool logz = g.b();
  double zmin = g.f(0, 1), step = g.logf(1e-4, 1e-3);
  size_t n = g.n(40, 300);
  TFloat64Range zr(zmin, logz ? (1 + zmin) * std::exp(step * (n - 0.5)) - 1 : zmin + step * (n - 0.5));
  V z = logz ? zr.SpreadOverLogZplusOneEpsilon(step) : zr.SpreadOverEpsilon(step);
  n = z.size();
  ChisquareArray a;
  a.redshifts = z;
  a.zstep = step;
  a.cstLog = g.f(-100, 100);
  V y = posterior(g, z, g.pick({5., 50., 5000.}));
  V chi(n);
  for (size_t k = 0; k < n; ++k)
    chi[k] = 1000 - 2 * y[k];
  a.chisquares = {chi};
  a.zpriors = {V(n, 0.)};
  int maxc = g.i(1, 6);
  double sep = g.pick({0., 0.002, 0.02}), cut = g.pick({0., 0., 20.});
  std::string prefix = g.pick({"EXT", "FPE", "X_"});
  COperatorPdfz op("marg", sep, cut, maxc, logz, prefix, g.b(), 0);
  ErrorCode code;
  std::string msg;
  std::shared_ptr<PdfCandidatesZResult> res;
  g.note("n=", n, " logz=", logz, " max=", maxc, " sep=", sep, " cut=", cut);
  if (throws([&] { res = op.Compute(a); }, &code, &msg)) {
    REQUIRE_(code == ErrorCode::PDF_PEAK_NOT_FOUND || code == ErrorCode::FLAT_ZPDF, "refused", msg);
    g.discard();
  }
  auto check = [&](PdfCandidatesZResult &r, const V &grid, const V &pdf, const char *pass) {
    REQUIRE_(r.size() >= 1 && r.size() <= maxc, "count", pass, " ", r.size());
    double last = INFINITY, sum = 0;
    std::set<std::string> ids;
    for (int k = 0; k < r.size(); ++k) {
      auto &[id, c] = r.m_ranked_candidates[k];
      REQUIRE_(ids.insert(id).second, "id-twice", id);
      REQUIRE_(c->Rank == k, "rank", pass, " ", c->Rank, " at ", k);
      REQUIRE_(c->ValSumProba <= last, "order", pass, " ", k);
      last = c->ValSumProba;
      size_t i = std::find(grid.begin(), grid.end(), c->Redshift) - grid.begin();
      REQUIRE_(i < grid.size(), "off-grid", c->Redshift);
      REQUIRE_CLOSE(c->ValProba, pdf[i], 1e-12, 0, "valproba", pass);
      if (c->ValSumProba > 0) {
        size_t ia = std::find(grid.begin(), grid.end(), c->ValSumProbaZmin) - grid.begin();
        size_t ib = std::find(grid.begin(), grid.end(), c->ValSumProbaZmax) - grid.begin();
        REQUIRE_(ia <= i && i <= ib && ib < grid.size(), "limits", pass);
        V gs(grid.begin() + ia, grid.begin() + ib + 1), ps(pdf.begin() + ia, pdf.begin() + ib + 1);
        REQUIRE_CLOSE(c->ValSumProba, double(expl(logIntegral(ps, gs))), 1e-9, 1e-300, "integral", pass);
      }
      sum += c->ValSumProba;
    }
    (void)sum;
  };
  check(*res, op.m_postmargZResult->redshifts, op.m_postmargZResult->valProbaLog, "first");
  g.nontrivial(res->size() > 1);
  if (res->size() > 1)
    g.label("several");
  if (!g.b())
    return;
  // second pass: a window of finer step around each candidate
  ChisquareArray b;
  TZGridListParams grids;
  CZGridParam coarse(TFloat64Range(z), step);
  std::vector<CZGridParam> all{coarse};
  double fine = step / 10;
  for (auto &[id, c] : res->m_ranked_candidates) {
    double half = g.f(2, 8) * step;
    TFloat64Range w(std::max(z.front(), c->Redshift - half), std::min(z.back(), c->Redshift + half));
    grids.push_back(CZGridParam(w, fine, c->Redshift));
    b.parentCandidates.push_back({id, c});
  }
  all.insert(all.end(), grids.begin(), grids.end());
  b.zgridParams = grids;
  b.redshifts = CLogZPdfResult(CZGridListParams(all), logz).redshifts;
  b.zstep = step;
  size_t m = b.redshifts.size();
  // any smooth curve following the first
  V chi2(m);
  double amp = g.f(0, 3), freq = g.f(0.1, 3);
  for (size_t k = 0, j = 0; k < m; ++k) {
    while (j + 2 < n && z[j + 1] < b.redshifts[k])
      ++j;
    double t = (b.redshifts[k] - z[j]) / (z[j + 1] - z[j]);
    chi2[k] = chi[j] + t * (chi[j + 1] - chi[j]) + amp * std::sin(freq * double(k));
  }
  b.chisquares = {chi2};
  b.zpriors = {V(m, 0.)};
  COperatorPdfz op2("marg", 0., 0., maxc, logz, "SPE", true, 1);
  std::shared_ptr<PdfCandidatesZResult> r2;
  if (throws([&] { r2 = op2.Compute(b); }, &code, &msg)) {
    REQUIRE_(code == ErrorCode::PDF_PEAK_NOT_FOUND || code == ErrorCode::FLAT_ZPDF, "refused2", msg);
    return;
  }
  g.label("second-pass");
  check(*r2, op2.m_postmargZResult->redshifts, op2.m_postmargZResult->valProbaLog, "second");
  for (auto &[id, c] : r2->m_ranked_candidates) {
    bool ok = false;
    for (size_t k = 0; k < grids.size(); ++k)
      if (b.parentCandidates[k].first == c->ParentId) {
        ok = true;
        REQUIRE_(c->ParentObject == b.parentCandidates[k].second, "parent-object", id);
        REQUIRE_(c->Redshift >= grids[k].zmin - 1e-9 && c->Redshift <= grids[k].zmax + 1e-9, "window", id);
        REQUIRE_(id.find(c->ParentId + "_SPE") == 0, "id-prefix", id);
        // one peak per window: it is the highest of its window
        double top = -INFINITY, at = NAN;
        auto &gr = op2.m_postmargZResult->redshifts;
        auto &pv = op2.m_postmargZResult->valProbaLog;
        for (size_t q = 0; q < gr.size(); ++q)
          if (gr[q] >= grids[k].zmin && gr[q] <= grids[k].zmax && pv[q] > top)
            top = pv[q], at = gr[q];
        REQUIRE_CLOSE(c->ValProba, top, 1e-12, 0, "window-best", id, " best at ", at);
      }
    REQUIRE_(ok, "parent", c->ParentId);
  }
}
