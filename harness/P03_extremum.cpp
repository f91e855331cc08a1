// P03: peaks of a sampled curve
#include "util.h"

#include "RedshiftLibrary/extremum/extremum.h"

using namespace NSEpic;
using namespace util;

namespace {
struct Peak {
  size_t a, b; // plateau
  double y;
};

// every maximal run of equal values that is higher than what is on each side
std::vector<Peak> plateaus(const V &y, size_t B, size_t E, bool border) {
  std::vector<Peak> r;
  for (size_t a = B; a <= E;) {
    size_t b = a;
    while (b < E && y[b + 1] == y[a])
      ++b;
    bool left = a == B ? border : y[a - 1] < y[a];
    bool right = b == E ? border : y[b + 1] < y[a];
    if (left && right)
      r.push_back({a, b, y[a]});
    a = b + 1;
  }
  return r;
}

V genY(Ctx &g, size_t n) {
  V y(n);
  switch (g.i(0, 3)) {
  case 0: // small integers: many plateaus
    for (auto &v : y)
      v = g.i(0, 3);
    break;
  case 1: { // shelves
    double v = 0;
    for (auto &x : y) {
      x = v;
      if (g.b())
        v += g.i(-2, 2);
    }
    break;
  }
  case 2:
    y = curve(g, n, 100.);
    break;
  case 3:
    for (auto &v : y)
      v = g.f(-1000, 0);
    break;
  }
  return y;
}
} // namespace

PROP("P03", peaks, 60000, 3000000) {
  size_t n = g.n(3, 40);
  V y = genY(g, n);
  V x = g.b() ? linAxis(n, g.f(0, 1), g.logf(1e-4, 1e-2)) : incAxis(g, n, g.f(0, 1), 1e-4, 1e-1);
  bool inv = g.chance(25), border = !g.chance(40);
  double sep = 0, cut = 0;
  if (g.b())
    sep = g.pick({0.001, 0.01, 0.1}) * g.f(0.5, 2);
  if (g.b())
    cut = g.pick({0.5, 1., 5., 100.});
  int maxCount = g.i(1, 10);
  size_t B = 0, E = n - 1;
  TFloat64Range range;
  if (g.chance(40)) {
    B = g.n(0, n - 1);
    E = g.n(B, n - 1);
    double lo = B ? g.pick({x[B], 0.5 * (x[B] + x[B - 1])}) : g.pick({x[0], x[0] - 1e-3});
    double hi = E + 1 < n ? g.pick({x[E], 0.5 * (x[E] + x[E + 1])}) : g.pick({x[E], x[E] + 1});
    if (B == E && lo == hi)
      hi += 1e-9; // an empty range means the whole axis
    range = TFloat64Range(lo, hi);
    g.label("windowed");
  }
  size_t nanL = 0, nanR = 0;
  if (g.chance(15)) {
    nanL = g.n(0, 2);
    nanR = g.n(0, 2);
    for (size_t k = 0; k < nanL && B + k <= E; ++k)
      y[B + k] = NAN;
    for (size_t k = 0; k < nanR && E >= k && E - k >= B; ++k)
      y[E - k] = NAN;
    g.label("nan-ends");
  }
  bool first = g.b();
  g.notev("x", x, 40);
  g.notev("y", y, 40);
  g.note("inv=", inv, " border=", border, " sep=", sep, " cut=", cut, " max=", maxCount, " range=", range, " B=", B, " E=", E);
  CExtremum ext(maxCount, sep, cut, inv, border, range);
  TPointList pts;
  ErrorCode code;
  std::string msg;
  bool t = throws([&] { pts = ext.Find(x, y, first); }, &code, &msg);
  while (B != E && std::isnan(y[B]))
    ++B;
  while (B != E && std::isnan(y[E]))
    --E;
  if (E - B < 2) {
    REQUIRE_(t, "too-short", "accepted with ", E - B + 1, " samples");
    return;
  }
  V s = y;
  if (inv)
    for (auto &v : s)
      v = -v;
  auto ref = plateaus(s, B, E, border);
  if (ref.empty()) {
    REQUIRE_(t == first, "no-peak", "thrown: ", t, " ", pts.size());
    if (t)
      REQUIRE_(code == ErrorCode::PDF_PEAK_NOT_FOUND, "no-peak-code", msg);
    REQUIRE_(pts.empty(), "no-peak", pts.size(), " invented");
    return;
  }
  REQUIRE_(!t, "refused", msg);
  double best = -INFINITY;
  for (auto &p : ref)
    best = std::max(best, p.y);
  // candidates after the cut
  std::vector<Peak> cand;
  for (auto &p : ref)
    if (!(cut > 0) || best - p.y <= cut)
      cand.push_back(p);
  // each point is on a plateau of its own, near its middle
  std::set<size_t> seen;
  for (size_t k = 0; k < pts.size(); ++k) {
    size_t i = std::find(x.begin(), x.end(), pts[k].X) - x.begin();
    REQUIRE_(i < n, "not-a-sample", pts[k].X);
    REQUIRE_(pts[k].Y == y[i], "value", "at ", i, " ", pts[k].Y, " curve ", y[i]);
    bool ok = false;
    for (auto &p : cand)
      if (i >= p.a && i <= p.b) {
        ok = true;
        REQUIRE_(seen.insert(p.a).second, "twice", "");
        REQUIRE_(std::abs(double(i) - 0.5 * (p.a + p.b)) <= 1., "middle", i, " in ", p.a, "..", p.b);
      }
    REQUIRE_(ok, "not-a-peak", "sample ", i, " is no (surviving) local maximum");
    if (k)
      REQUIRE_(inv ? pts[k].Y >= pts[k - 1].Y : pts[k].Y <= pts[k - 1].Y, "order", "");
  }
  REQUIRE_(pts.size() <= size_t(maxCount), "count", pts.size());
  REQUIRE_(!pts.empty() && (inv ? -pts[0].Y : pts[0].Y) == best, "best", "the best peak was lost");
  if (sep <= 0) {
    REQUIRE_(pts.size() == std::min(cand.size(), size_t(maxCount)), "missing", pts.size(), " of ", cand.size());
    std::vector<double> ys;
    for (auto &p : cand)
      ys.push_back(p.y);
    std::sort(ys.rbegin(), ys.rend());
    for (size_t k = 0; k < pts.size(); ++k)
      REQUIRE_(ys[k] == (inv ? -pts[k].Y : pts[k].Y), "not-highest", k);
  } else {
    // separation: windows of half-width sep/2*(1+x) must not overlap
    for (size_t k = 0; k < pts.size(); ++k)
      for (size_t j = k + 1; j < pts.size(); ++j) {
        double l = std::min(pts[k].X, pts[j].X), h = std::max(pts[k].X, pts[j].X);
        REQUIRE_(h - l >= 0.5 * sep * (2 + l + h) * (1 - 1e-9), "separation", l, " ", h);
      }
    // every peak left out is near a higher one that is kept (or the list is full)
    if (pts.size() < size_t(maxCount))
      for (auto &p : cand) {
        if (seen.count(p.a))
          continue;
        bool ok = false;
        for (auto &q : pts) {
          // any sample of the plateau may stand for it
          for (size_t i = p.a; i <= p.b; ++i) {
            double l = std::min(q.X, x[i]), h = std::max(q.X, x[i]);
            ok = ok || (h - l <= 0.5 * sep * (2 + l + h) * (1 + 1e-9) && (inv ? -q.Y : q.Y) >= p.y);
          }
        }
        REQUIRE_(ok, "missing", "the peak at sample ", p.a, " was dropped without a higher neighbour");
      }
  }
  if (ref.size() > 1)
    g.label("several-peaks");
  if (cand.size() < ref.size())
    g.label("cut-removes");
  if (pts.size() < cand.size())
    g.label("filtered-or-truncated");
  g.nontrivial(ref.size() > 1);
}

PROP("P03", refusals, 500, 5000) {
  size_t n = g.n(0, 10);
  V x = linAxis(n, 0, 0.1), y(g.b() ? n + 1 : (n ? n - 1 : 1), 0.);
  CExtremum ext(5, 0., 0., false, true, TFloat64Range());
  REQUIRE_(throws([&] { ext.Find(x, y, true); }), "sizes", "");
  V e;
  REQUIRE_(throws([&] { ext.Find(e, e, true); }), "empty", "");
  if (n > 3) {
    y.assign(n, 1.);
    CExtremum o(5, 0., 0., false, true, TFloat64Range(100., 101.));
    REQUIRE_(throws([&] { o.Find(x, y, true); }), "range-outside", "");
  }
  g.nontrivial(n > 0);
}
