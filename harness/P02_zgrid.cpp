// P02: redshift grids, insertion of refined windows, regular posteriors
#include "util.h"

#include "RedshiftLibrary/common/vectorOperations.h"
#include "RedshiftLibrary/common/zgridparam.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"

using namespace NSEpic;
using namespace util;

namespace {
const double EPS = 1e-8;
void increasing(const V &v, const char *what) {
  for (size_t k = 1; k < v.size(); ++k)
    REQUIRE_(v[k] > v[k - 1], "increasing", what, " at ", k, ": ", v[k - 1], " then ", v[k]);
}
double stepOf(const V &v, size_t k, bool lz) { return lz ? std::log1p(v[k + 1]) - std::log1p(v[k]) : v[k + 1] - v[k]; }
} // namespace

// a range spread with a step
PROP("P02", spread, 40000, 2000000) {
  bool lz = g.b(), exact = g.b();
  double zmin = g.b() ? 0. : g.f(0, 5);
  double step = g.logf(1e-5, 0.3);
  size_t n = g.n(1, 300);
  if (lz && step * n > 2)
    n = size_t(2 / step);
  double frac = exact ? 0. : g.f(0, 1);
  double zmax = lz ? (1 + zmin) * std::exp(step * (n - 1 + frac)) - 1 : zmin + step * (n - 1 + frac);
  g.note("log=", lz, " zmin=", zmin, " zmax=", zmax, " step=", step);
  TFloat64Range r(zmin, zmax);
  V v = CZGridParam(r, step).getZGrid(lz);
  increasing(v, "grid");
  REQUIRE_CLOSE(v.front(), zmin, 0, 1e-12, "start", "");
  REQUIRE_(v.back() <= zmax, "inside", v.back(), " > ", zmax);
  double left = lz ? std::log1p(zmax) - std::log1p(v.back()) : zmax - v.back();
  REQUIRE_(left < step * (1 + 1e-9) + 1e-12, "end", "remaining ", left, " for a step of ", step);
  for (size_t k = 0; k + 1 < v.size(); ++k)
    REQUIRE_CLOSE(stepOf(v, k, lz), step, 1e-9, k + 2 == v.size() ? 2e-8 : 1e-12, "step", "at ", k);
  if (exact)
    REQUIRE_(v.size() == n, "count", v.size(), " for ", n);
  // backward spreading ends at the upper end
  V w = lz ? r.SpreadOverLogZplusOneEpsilon(step, true) : r.SpreadOverEpsilon(step, true);
  increasing(w, "backward grid");
  REQUIRE_CLOSE(w.back(), zmax, 0, 1e-12, "backward-end", "");
  REQUIRE_(w.front() >= zmin, "backward-inside", w.front());
  left = lz ? std::log1p(w.front()) - std::log1p(zmin) : w.front() - zmin;
  REQUIRE_(left < step * (1 + 1e-9) + 1e-12, "backward-start", "");
  for (size_t k = 0; k + 1 < w.size(); ++k)
    REQUIRE_CLOSE(stepOf(w, k, lz), step, 1e-9, k == 0 ? 2e-8 : 1e-12, "backward-step", "at ", k);
  if (exact)
    REQUIRE_(w.size() == n, "backward-count", "");
  // without tolerance at the ends
  V p = lz ? r.SpreadOverLogZplusOne(step) : r.SpreadOver(step);
  REQUIRE_(p.size() == v.size() || p.size() + 1 == v.size(), "plain-count", "");
  V pb = lz ? r.SpreadOverLogZplusOne(step, true) : r.SpreadOver(step, true);
  REQUIRE_(pb.size() == p.size(), "plain-backward-count", "");
  for (size_t k = 0; k < p.size(); ++k)
    REQUIRE_CLOSE(p[k], v[k], 1e-12, 2e-8, "plain", "");
  if (zmin > 0) { // in log of the value itself
    V q = r.SpreadOverLog(step);
    increasing(q, "log grid");
    REQUIRE_(q.front() == zmin && q.back() <= zmax * (1 + 1e-12), "log-inside", "");
    for (size_t k = 0; k + 1 < q.size(); ++k)
      REQUIRE_CLOSE(std::log(q[k + 1] / q[k]), step, 1e-9, 1e-13, "log-step", "");
    REQUIRE_(std::log(zmax / q.back()) < step * (1 + 1e-9) + 1e-12, "log-end", "");
    V qb = r.SpreadOverLog(step, 0., true);
    REQUIRE_(qb.size() == q.size() && qb.back() == zmax, "log-backward", "");
    for (size_t k = 0; k + 1 < qb.size(); ++k)
      REQUIRE_CLOSE(std::log(qb[k + 1] / qb[k]), step, 1e-9, 1e-13, "log-step", "");
  }
  g.nontrivial(v.size() >= 2);
}

PROP("P02", centered, 40000, 1500000) {
  bool lz = g.b();
  double zc = g.f(0.05, 5), step = g.logf(1e-5, 0.05);
  double l = step * g.f(0, 40), r = step * g.f(0, 40);
  if (g.b())
    l = step * g.i(0, 40);
  if (g.b())
    r = step * g.i(0, 40);
  l = std::min(l, zc);
  TFloat64Range range(zc - l, zc + r);
  g.note("log=", lz, " center=", zc, " step=", step, " range=", range);
  V v = CZGridParam(range, step, zc).getZGrid(lz);
  increasing(v, "centred grid");
  size_t ic = v.size();
  for (size_t k = 0; k < v.size(); ++k)
    if (std::abs(v[k] - zc) < 1e-12)
      ic = k;
  REQUIRE_(ic < v.size(), "center", "the centre is not on the grid");
  REQUIRE_(v.front() >= range.GetBegin() && v.back() <= range.GetEnd(), "inside", v.front(), " ", v.back());
  for (size_t k = 0; k + 1 < v.size(); ++k)
    REQUIRE_CLOSE(stepOf(v, k, lz), step, 1e-9, (k == 0 || k + 2 == v.size()) ? 2e-8 : 1e-12, "step", "at ", k);
  double left = lz ? std::log1p(v.front()) - std::log1p(range.GetBegin()) : v.front() - range.GetBegin();
  double right = lz ? std::log1p(range.GetEnd()) - std::log1p(v.back()) : range.GetEnd() - v.back();
  REQUIRE_(left < step * (1 + 1e-9) + 1e-12 && right < step * (1 + 1e-9) + 1e-12, "cover", left, " ", right, " step ", step);
  g.nontrivial(v.size() >= 3);
}

PROP("P02", insert, 40000, 1500000) {
  bool lz = g.b();
  double zmin = g.f(0, 3), step = g.logf(1e-4, 0.05);
  size_t n = g.n(2, 80);
  double zmax = lz ? (1 + zmin) * std::exp(step * (n - 1)) - 1 : zmin + step * (n - 1);
  V grid = CZGridParam(TFloat64Range(zmin, zmax), step).getZGrid(lz);
  double fine = step / g.i(2, 8);
  int nw = g.i(1, 3);
  g.note("log=", lz, " step=", step, " fine=", fine, " n=", n);
  for (int w = 0; w < nw; ++w) {
    double zc = g.b() ? grid[g.n(0, grid.size() - 1)] : g.f(grid.front(), grid.back());
    double half = fine * g.f(1, 40);
    TFloat64Range win(std::max(grid.front(), zc - half), std::min(grid.back(), zc + half));
    V sub = CZGridParam(win, fine, zc).getZGrid(lz);
    if (sub.size() < 2)
      continue;
    V before = grid, s0 = sub;
    // only windows that hold at least one point of the grid can be inserted
    size_t in = 0;
    for (double z : before)
      in += z >= sub.front() - EPS && z <= sub.back() + EPS;
    if (!in || in > sub.size()) {
      g.label("skipped");
      continue;
    }
    auto [pos, ndup] = CZGridListParams::insertSubgrid(sub, grid);
    g.note("window [", s0.front(), ",", s0.back(), "] n=", s0.size(), " pos=", pos, " dup=", ndup);
    increasing(grid, "merged grid");
    REQUIRE_(size_t(ndup) == in, "overlap", ndup, " expected ", in);
    REQUIRE_(sub.size() == s0.size(), "sub-size", "");
    for (size_t k = 0; k < sub.size(); ++k)
      REQUIRE_CLOSE(sub[k], s0[k], 0, (k == 0 || k + 1 == sub.size()) ? 2 * EPS : 0., "sub-values", "");
    REQUIRE_(grid.size() == before.size() + sub.size() - ndup, "size", grid.size());
    size_t firstIn = 0;
    while (before[firstIn] < s0.front() - EPS)
      ++firstIn;
    REQUIRE_(size_t(pos) == firstIn, "position", pos, " expected ", firstIn);
    for (size_t k = 0; k < grid.size(); ++k) {
      double e = k < firstIn ? before[k] : k < firstIn + sub.size() ? sub[k - firstIn] : before[k - sub.size() + ndup];
      REQUIRE_(grid[k] == e, "content", "at ", k, " ", grid[k], " expected ", e);
    }
    // grid ends never move
    REQUIRE_(grid.front() == before.front() && grid.back() == before.back(), "ends", "");
    // values attached to the grid are moved along with it
    std::vector<int> tag(before.size()), src(sub.size(), -1);
    for (size_t k = 0; k < tag.size(); ++k)
      tag[k] = int(k);
    std::vector<int> tag2 = tag;
    insertWithDuplicates(tag, pos, src, ndup);
    insertWithDuplicates(tag2, pos, sub.size(), -1, ndup);
    REQUIRE_(tag == tag2 && tag.size() == grid.size(), "attached", "");
    for (size_t k = 0; k < grid.size(); ++k)
      REQUIRE_(tag[k] == (k < firstIn ? int(k) : k < firstIn + sub.size() ? -1 : int(k - sub.size() + ndup)), "attached", "at ", k);
    g.nontrivial();
    g.label(pos == 0 ? "at-front" : size_t(pos + ndup) == before.size() ? "at-back" : "inside");
    if (w)
      g.label("several-windows");
  }
}

PROP("P02", rebuild, 15000, 500000) {
  bool lz = g.b();
  double zmin = g.f(0, 3), step = g.logf(1e-4, 0.05);
  size_t n = g.n(4, 80);
  double zmax = lz ? (1 + zmin) * std::exp(step * (n - 1)) - 1 : zmin + step * (n - 1);
  V grid = CZGridParam(TFloat64Range(zmin, zmax), step).getZGrid(lz);
  int ratio = g.i(2, 6);
  double fine = step / ratio;
  int nw = g.i(0, 3);
  TZGridListParams ps{CZGridParam(TFloat64Range(grid), step)};
  for (int w = 0; w < nw; ++w) {
    size_t ic = g.n(0, grid.size() - 1);
    int h = g.i(1, 3);
    size_t a = ic >= size_t(h) ? ic - h : 0, b = std::min(grid.size() - 1, ic + h);
    ps.push_back(CZGridParam(TFloat64Range(grid[a], grid[b]), fine, grid[ic]));
  }
  CLogZPdfResult r{CZGridListParams(ps), lz};
  g.note("log=", lz, " n=", n, " step=", step, " windows=", nw);
  increasing(r.redshifts, "pdf grid");
  REQUIRE_(r.redshifts.size() == r.valProbaLog.size(), "sizes", "");
  REQUIRE_(r.isRegular() == (nw == 0), "regular-flag", "");
  V y = curve(g, r.redshifts.size(), 10.);
  for (size_t k = 0; k < y.size(); ++k)
    y[k] += 0.01 * k;
  // what is stored - parameters and values - is enough to rebuild it
  CLogZPdfResult s(r.getZGridParams(), lz, y);
  REQUIRE_(s.redshifts == r.redshifts, "rebuilt-grid", "");
  REQUIRE_(s.valProbaLog == y, "rebuilt-values", "");
  auto pl = s.getZGridParams();
  REQUIRE_(pl.size() == int(ps.size()), "params-count", "");
  for (int k = 0; k < pl.size(); ++k) {
    REQUIRE_(pl[k].zmin == ps[k].zmin && pl[k].zmax == ps[k].zmax && pl[k].zstep == ps[k].zstep, "params", k);
    REQUIRE_(pl[k].zcenter == ps[k].zcenter || (std::isnan(pl[k].zcenter) && std::isnan(ps[k].zcenter)), "params", k);
  }
  V bad = y;
  if (g.b())
    bad.push_back(0.);
  else
    bad.pop_back();
  REQUIRE_(throws([&] { CLogZPdfResult t(r.getZGridParams(), lz, bad); }), "size-refusal", "");
  // to a regular grid
  bool fineReg = g.b();
  V z0 = s.redshifts;
  s.convertToRegular(fineReg);
  REQUIRE_(s.isRegular(), "regular", "");
  double st = nw == 0 ? step : fineReg ? fine : step;
  increasing(s.redshifts, "regular grid");
  for (size_t k = 0; k + 1 < s.redshifts.size(); ++k)
    REQUIRE_CLOSE(stepOf(s.redshifts, k, lz), st, 1e-8, 2.1e-8, "regular-step", "at ", k);
  size_t expect = nw && fineReg ? (grid.size() - 1) * ratio + 1 : grid.size();
  REQUIRE_(s.redshifts.size() == expect, "regular-count", s.redshifts.size(), " expected ", expect);
  REQUIRE_(s.redshifts.front() == z0.front(), "regular-ends", "");
  REQUIRE_CLOSE(s.redshifts.back(), z0.back(), 0, 3e-8, "regular-ends", "");
  for (size_t k = 0; k < s.redshifts.size(); ++k) {
    double z = s.redshifts[k];
    size_t j = std::upper_bound(z0.begin(), z0.end(), z) - z0.begin();
    j = std::min(std::max<size_t>(j, 1), z0.size() - 1);
    double t = (z - z0[j - 1]) / (z0[j] - z0[j - 1]), e = y[j - 1] + t * (y[j] - y[j - 1]);
    REQUIRE_CLOSE(s.valProbaLog[k], e, 1e-7, 1e-6, "regular-value", "at ", k);
  }
  REQUIRE_(s.zstep.size() == 1 && s.zstep[0] == st, "regular-param", "");
  // and further on the right, with the last value
  double zend = s.redshifts.back() + (g.b() ? -1 : 1) * g.f(0, 10) * step;
  V zr = s.redshifts, yr = s.valProbaLog;
  s.extrapolate_on_right_border(zend);
  if (zend <= zr.back())
    REQUIRE_(s.redshifts == zr && s.valProbaLog == yr, "extrapolate-noop", "");
  else {
    REQUIRE_(s.redshifts.size() >= zr.size() && s.redshifts.size() == s.valProbaLog.size(), "extrapolate-size", "");
    REQUIRE_(s.redshifts.back() <= zend, "extrapolate-end", "");
    for (size_t k = 0; k < s.redshifts.size(); ++k) {
      if (k < zr.size())
        REQUIRE_CLOSE(s.redshifts[k], zr[k], 0, 3e-8, "extrapolate-grid", "");
      REQUIRE_(s.valProbaLog[k] == (k < yr.size() ? yr[k] : yr.back()), "extrapolate-value", "");
    }
  }
  g.nontrivial(nw > 0);
}

// index look-ups used to place windows on grids
PROP("P02", indices, 40000, 1000000) {
  V v = incAxis(g, g.n(1, 40), g.f(0, 10), 1e-3, 1.);
  auto point = [&]() { return g.b() ? v[g.n(0, v.size() - 1)] : g.f(v.front() - 1, v.back() + 1); };
  double a = point(), b = point();
  if (a > b)
    std::swap(a, b);
  TFloat64Range r(a, b);
  g.notev("v", v);
  g.note("range ", r);
  Int32 lo = -7, hi = -7;
  size_t first = std::lower_bound(v.begin(), v.end(), a) - v.begin();
  size_t past = std::upper_bound(v.begin(), v.end(), b) - v.begin();
  bool t = throws([&] { r.getClosedIntervalIndices(v, lo, hi); });
  if (first >= past)
    REQUIRE_(t, "closed-refusal", lo, " ", hi);
  else {
    REQUIRE_(!t, "closed", "refused");
    REQUIRE_(lo == int(first) && hi == int(past) - 1, "closed", lo, " ", hi, " expected ", first, " ", int(past) - 1);
    g.nontrivial();
  }
  t = throws([&] { r.getEnclosingIntervalIndices(v, lo, hi); });
  if (a < v.front() || b > v.back())
    REQUIRE_(t, "enclosing-refusal", "");
  else {
    REQUIRE_(!t, "enclosing", "refused");
    REQUIRE_(lo == int(std::upper_bound(v.begin(), v.end(), a) - v.begin()) - 1, "enclosing-low", lo);
    REQUIRE_(hi == int(std::lower_bound(v.begin(), v.end(), b) - v.begin()), "enclosing-high", hi);
    double x = g.b() ? a : g.f(a, b);
    Int32 l2, h2;
    r.getEnclosingIntervalIndices(v, x, l2, h2);
    REQUIRE_(l2 == lo && h2 == hi, "enclosing-value", l2, " ", h2, " expected ", lo, " ", hi);
  }
  // intersections and unions
  double c = point(), d = point();
  if (c > d)
    std::swap(c, d);
  TFloat64Range q(c, d), o(-1, -2);
  bool has = std::max(a, c) <= std::min(b, d);
  REQUIRE_(TFloat64Range::HasIntersection(r, q) == has, "has-intersection", "");
  REQUIRE_(TFloat64Range::Intersect(r, q, o) == has, "intersect", "");
  if (has)
    REQUIRE_(o.GetBegin() == std::max(a, c) && o.GetEnd() == std::min(b, d), "intersect", "");
  REQUIRE_(TFloat64Range::getUnion(r, q, o) == has, "union", "");
  if (has)
    REQUIRE_(o.GetBegin() == std::min(a, c) && o.GetEnd() == std::max(b, d), "union", "");
  TFloat64RangeList rl{r, q};
  int extra = g.i(0, 3);
  for (int k = 0; k < extra; ++k) {
    double e = point(), f = point();
    rl.push_back(TFloat64Range(std::min(e, f), std::max(e, f)));
  }
  auto j = TFloat64Range::joinIntersections(rl);
  for (size_t k = 1; k < j.size(); ++k)
    REQUIRE_(j[k].GetBegin() > j[k - 1].GetEnd(), "join-disjoint", "");
  for (int k = 0; k < 20; ++k) {
    double x = point();
    bool in1 = false, in2 = false;
    for (auto &e : rl)
      in1 = in1 || (x >= e.GetBegin() && x <= e.GetEnd());
    for (auto &e : j)
      in2 = in2 || (x >= e.GetBegin() && x <= e.GetEnd());
    REQUIRE_(in1 == in2, "join-cover", x);
  }
}
