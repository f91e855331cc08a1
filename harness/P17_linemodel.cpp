// The line model: support of the lines, amplitudes, model spectrum, merit.
#include "fit.h"

#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/linemodel/continuummanager.h"
#include "RedshiftLibrary/linemodel/linemodelfitting.h"
#include "RedshiftLibrary/linemodel/linemodelsolution.h"
#include "RedshiftLibrary/linemodel/templatesfitstore.h"
#include "RedshiftLibrary/linemodel/tplratiomanager.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/tplmodelsolution.h"

#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"

#include <optional>
#include <set>

using namespace fit;

namespace {
const double C = 299792.458; // km/s
typedef long double LD;

struct LineDef {
  int id;
  std::string name;
  double pos;
  bool em;
  std::string group, profile;
  double nominal, offset;
  bool fitOffset;
  bool strong = true;
};

struct World {
  Scene s;
  std::vector<LineDef> lines; // by identifier
  std::vector<std::shared_ptr<CLSF>> lsf;
  double z, vE, vA, nsig;
  std::string method = "individual", continuum = "noContinuum", widthType = "combined", rules = "no", lya = "igm", ratio = "rules";
  bool ampOffset = false, lambdaOffset = false, balmer = false;
};

Params parameters(const World &w) {
  Params p = galaxyParams(w.s);
  const std::string m = "galaxy.redshiftSolver.lineModelSolve.lineModel.";
  p.set("galaxy.redshiftSolver.method", "lineModelSolve");
  p.set(m + "fittingMethod", w.method);
  p.set(m + "ampOffsetFit", w.ampOffset);
  p.set(m + "lbdaOffsetFit", w.lambdaOffset);
  p.set(m + "lineRatioType", w.ratio);
  p.set(m + "firstPass.fittingMethod", w.method);
  p.set(m + "firstPass.multipleContinuumFitDisable", true);
  p.set(m + "firstPass.tplRatioIsmFit", false);
  p.set(m + "tplRatioIsmFit", false);
  p.set(m + "continuumComponent", w.continuum);
  p.set(m + "useLogLambdaSampling", false);
  p.set(m + "continuumFit.count", 1);
  p.set(m + "continuumFit.ignoreLineSupport", true);
  p.set(m + "continuumFit.negativeThreshold", -5.);
  p.set(m + "continuumFit.nullThreshold", 3.);
  for (std::string k : {"continuumFit", "tplRatio"}) {
    p.set(m + k + ".priors.catalogDirPath", "");
    for (std::string b : {"betaA", "betaTE", "betaZ"})
      p.set(m + k + ".priors." + b, 1.);
  }
  p.set(m + "lya.profile", w.lya);
  p.set(m + "lya.asymProfile.switchFixedToFit", false);
  p.set(m + "lya.asymProfile.switchFitToFixed", false);
  p.set(m + "lya.asymProfile.asymFitMin", 0.);
  p.set(m + "lya.asymProfile.asymFitMax", 4.);
  p.set(m + "lya.asymProfile.asymFitStep", 1.);
  p.set(m + "lya.asymProfile.widthFitMin", 1.);
  p.set(m + "lya.asymProfile.widthFitMax", 3.);
  p.set(m + "lya.asymProfile.widthFitStep", 1.);
  p.set(m + "lya.asymProfile.deltaFitMin", 0.);
  p.set(m + "lya.asymProfile.deltaFitMax", 0.);
  p.set(m + "lya.asymProfile.deltaStepMax", 1.);
  p.set(m + "improveBalmerFit", w.balmer);
  p.set(m + "rules", w.rules);
  p.set(m + "velocityEmission", w.vE);
  p.set(m + "velocityAbsorption", w.vA);
  p.set(m + "lineWidthType", w.widthType);
  p.set(m + "lineTypeFilter", "no");
  p.set(m + "lineForceFilter", "no");
  p.set(m + "nSigmaSupport", w.nsig);
  p.set(m + "hAlphaPrior", 0.5);
  return p;
}

// puts everything in a fresh context
void enter(World &w, Params p) {
  Scene &s = w.s;
  if (s.obs.size() > 1) {
    p.t.erase("lambdaRange");
    for (auto &o : s.obs)
      p.list("lambdaRange." + o.id, V{o.lo, o.hi});
  } else
    p.list("lambdaRange", V{s.obs[0].lo, s.obs[0].hi});
  freshContext(p, s.dust, s.igm, s.cat);
  for (size_t i = 0; i < s.obs.size(); ++i)
    Context.addSpectrum(makeSpectrum(s.obs[i].d, w.lsf[i], "spc", s.obs[i].id));
  auto cat = std::make_shared<CLineCatalog>(w.nsig);
  for (auto &l : w.lines)
    cat->AddLineFromParams(l.name, l.pos, l.em ? "E" : "A", l.strong ? "S" : "W", l.profile, TAsymParams(), l.group, l.nominal, l.em ? "em_vel" : "abs_vel", l.offset,
                           l.fitOffset, l.id, l.name + "_" + std::to_string(l.id));
  Context.setLineCatalog("galaxy", "lineModelSolve", cat);
  Context.Init();
}

struct Session {
  CAutoScope a, b, c;
  Session()
      : a(Context.m_ScopeStack, "galaxy", ScopeType::SPECTRUMMODEL), b(Context.m_ScopeStack, "redshiftSolver", ScopeType::STAGE),
        c(Context.m_ScopeStack, "lineModelSolve", ScopeType::METHOD) {}
};

struct Result {
  double merit;
  CLineModelSolution sol;
  std::vector<V> model, cont; // by observation
};
// fit at the redshift of the world
Result fitAt(CLineModelFitting &lm, double z) {
  Result r;
  CTplModelSolution c;
  r.merit = lm.fit(z, r.sol, c, 0, true);
  lm.refreshAllModels();
  for (auto &o : lm.getSpectraIndex()) {
    (void)o;
    r.model.push_back(lm.getSpectrumModel().GetModelSpectrum().GetFluxAxis().GetSamplesVector());
    r.cont.push_back(lm.getSpectrumModel().getContinuumFluxAxis().GetSamplesVector());
  }
  lm.getSpectraIndex().reset();
  return r;
}
std::unique_ptr<CLineModelFitting> makeFitting() {
  auto lm = std::make_unique<CLineModelFitting>(std::make_shared<COperatorTemplateFitting>());
  lm->setPassMode(2);
  return lm;
}

// ----------------------------------------------------------------------------------------------------------- reference
// one line seen by one observation
struct Seen {
  double mu, sigma;
  int b = 0, e = -1; // closed range of samples
  bool out = true;
  int comp = -1;
};
struct Element {
  std::vector<int> lines; // indices in World::lines
  bool em;
};
struct Ref {
  const World *w;
  std::vector<Element> elts;
  std::vector<std::vector<Seen>> seen; // [obs][line]
  std::vector<int> eltOf;
  bool shared = false; // supports of an element which share one sample exactly
  bool lineOut(int l) const {
    for (auto &o : seen)
      if (!o[l].out)
        return false;
    return true;
  }
  bool eltOut(int e, int o) const {
    for (int l : elts[e].lines)
      if (!seen[o][l].out)
        return false;
    return true;
  }
  bool eltOut(int e) const {
    for (size_t o = 0; o < seen.size(); ++o)
      if (!eltOut(e, o))
        return false;
    return true;
  }
};

CLineProfile_ptr profileOf(const World &w, const LineDef &l) {
  if (l.profile == "LOR")
    return std::make_unique<CLineProfileLOR>(w.nsig);
  return std::make_unique<CLineProfileSYM>(w.nsig);
}
double profile(const LineDef &l, double x, double mu, double sigma) {
  double t = (x - mu) / sigma;
  return l.profile == "LOR" ? 1. / (1. + t * t) : std::exp(-0.5 * t * t);
}
double area(const LineDef &l, double sigma) { return sigma * (l.profile == "LOR" ? M_PI : std::sqrt(2 * M_PI)); }
double supportSigmas(const World &w, const LineDef &l) { return w.nsig * (l.profile == "LOR" ? 2. : 1.); }
double widthOf(const World &w, const LineDef &l, int o, double mu) {
  double v = (l.em ? w.vE : w.vA) / C * mu, i = w.lsf[o]->GetWidth(mu);
  if (w.widthType == "instrumentDriven")
    v = 0;
  if (w.widthType == "velocityDriven")
    i = 0;
  return std::sqrt(v * v + i * i);
}

// offsets: velocity offset of each line
Ref reference(const World &w, const V &offsets, const std::vector<int> &eltOf) {
  Ref r;
  r.w = &w;
  r.eltOf = eltOf;
  int ne = 0;
  for (int e : eltOf)
    ne = std::max(ne, e + 1);
  r.elts.resize(ne);
  for (size_t l = 0; l < w.lines.size(); ++l) {
    r.elts[eltOf[l]].lines.push_back(l);
    r.elts[eltOf[l]].em = w.lines[l].em;
  }
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    auto &ob = w.s.obs[o];
    const V &x = ob.d.x;
    const double lo = std::max(ob.lo, x.front()), hi = std::min(ob.hi, x.back());
    std::vector<Seen> v;
    for (size_t l = 0; l < w.lines.size(); ++l) {
      auto &L = w.lines[l];
      Seen n;
      n.mu = L.pos * (1 + w.z) * (1 + L.offset / C);
      n.sigma = widthOf(w, L, o, n.mu);
      double win = supportSigmas(w, L) * n.sigma, a = n.mu - win / 2, b = n.mu + win / 2;
      // a window between two samples is seen by the sample which follows it
      if (a <= hi) {
        n.b = std::lower_bound(x.begin(), x.end(), std::max(a, lo)) - x.begin();
        // the last sample is the first at or after the end of the window, unless the range stops before
        n.e = std::lower_bound(x.begin(), x.end(), std::min(b, hi)) - x.begin();
        if (n.e >= int(x.size()) || x[n.e] > hi)
          --n.e;
        if (n.e >= n.b)
          n.out = x[n.b] >= hi - 0.33 * win || x[n.e] <= lo + 0.33 * win;
      }
      n.mu = L.pos * (1 + w.z) * (1 + offsets[l] / C); // fitted offsets move the line, not its support
      n.sigma = widthOf(w, L, o, n.mu);
      v.push_back(n);
    }
    // lines of an element whose supports overlap are synthesised together
    for (auto &e : r.elts) {
      std::vector<int> in;
      for (int l : e.lines)
        if (!v[l].out)
          in.push_back(l);
      for (int l : in)
        v[l].comp = l;
      std::vector<std::pair<int, int>> sup(w.lines.size());
      for (int l : in)
        sup[l] = {v[l].b, v[l].e};
      bool again = true;
      while (again) {
        again = false;
        for (int i : in)
          for (int j : in)
            if (v[i].comp != v[j].comp && v[i].comp == i && v[j].comp == j) {
              int a = std::max(sup[i].first, sup[j].first), b = std::min(sup[i].second, sup[j].second);
              if (a == b)
                r.shared = true;
              if (a < b) {
                sup[i] = {std::min(sup[i].first, sup[j].first), std::max(sup[i].second, sup[j].second)};
                for (int k : in)
                  if (v[k].comp == j)
                    v[k].comp = i;
                again = true;
              }
            }
      }
      for (int l : in) {
        v[l].b = sup[v[l].comp].first;
        v[l].e = sup[v[l].comp].second;
      }
    }
    r.seen.push_back(v);
  }
  return r;
}

// contribution of line l, for a unit amplitude, at a sample
LD unit(const Ref &r, int o, int l, int k, double cont) {
  auto &L = r.w->lines[l];
  LD p = profile(L, r.w->s.obs[o].d.x[k], r.seen[o][l].mu, r.seen[o][l].sigma);
  return L.em ? p : -p * (LD)cont;
}
// contribution of an element; everywhere or on its support only
LD column(const Ref &r, int o, int e, int k, double cont, bool everywhere) {
  LD s = 0;
  for (int l : r.elts[e].lines) {
    auto &n = r.seen[o][l];
    if (!n.out && (everywhere || (k >= n.b && k <= n.e)))
      s += r.w->lines[l].nominal * unit(r, o, l, k, cont);
  }
  return s;
}
std::vector<int> support(const Ref &r, int o, const std::vector<int> &elts) {
  std::set<int> s;
  for (int e : elts)
    for (int l : r.elts[e].lines)
      if (!r.seen[o][l].out)
        for (int k = r.seen[o][l].b; k <= r.seen[o][l].e; ++k)
          s.insert(k);
  return std::vector<int>(s.begin(), s.end());
}

struct Fit {
  std::vector<LD> a, s; // by element, amplitude and its standard deviation
  std::vector<LD> tol;
  bool ok = true; // false: ill conditioned or undecided sign
};

// weighted least squares; false when ill conditioned
bool solve(const std::vector<std::vector<LD>> &X, const std::vector<LD> &y, const std::vector<LD> &w, std::vector<LD> &a, std::vector<LD> &sd) {
  int n = X.size(), m = X.empty() ? 0 : X[0].size();
  std::vector<LD> norm(m, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
      norm[j] += X[i][j] * X[i][j] * w[i];
  for (auto &v : norm) {
    if (!(v > 0))
      return false;
    v = sqrtl(v);
  }
  std::vector<std::vector<LD>> M(m, std::vector<LD>(2 * m + 1, 0));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      for (int k = 0; k < m; ++k)
        M[j][k] += X[i][j] * X[i][k] * w[i] / norm[j] / norm[k];
      M[j][m] += X[i][j] * y[i] * w[i] / norm[j];
    }
  for (int j = 0; j < m; ++j)
    M[j][m + 1 + j] = 1;
  for (int c = 0; c < m; ++c) {
    int p = c;
    for (int i = c; i < m; ++i)
      if (fabsl(M[i][c]) > fabsl(M[p][c]))
        p = i;
    if (fabsl(M[p][c]) < 1e-6L)
      return false;
    std::swap(M[p], M[c]);
    LD d = M[c][c];
    for (auto &v : M[c])
      v /= d;
    for (int i = 0; i < m; ++i)
      if (i != c) {
        LD f = M[i][c];
        for (size_t k = 0; k < M[i].size(); ++k)
          M[i][k] -= f * M[c][k];
      }
  }
  a.assign(m, 0);
  sd.assign(m, 0);
  for (int j = 0; j < m; ++j) {
    a[j] = M[j][m] / norm[j];
    sd[j] = sqrtl(M[j][m + 1 + j]) / norm[j];
  }
  return true;
}

struct Data1 { // what the lines are fitted to
  std::vector<V> y, e, cont;
};

bool individual(const Ref &r, const Data1 &d, int e, LD &a, LD &s) {
  LD dtm = 0, mtm = 0;
  for (size_t o = 0; o < r.seen.size(); ++o)
    for (int k : support(r, o, {e})) {
      LD t = column(r, o, e, k, d.cont[o][k], false), w = 1 / ((LD)d.e[o][k] * d.e[o][k]);
      dtm += t * d.y[o][k] * w;
      mtm += t * t * w;
    }
  if (mtm == 0) {
    a = s = NAN;
    return true;
  }
  a = std::max((LD)0, dtm) / mtm;
  s = 1 / sqrtl(mtm);
  return true;
}

// joint fit of elements on the first observation; only the retained ones, over the support of all
bool joint(const Ref &r, const Data1 &d, const std::vector<int> &all, const std::vector<int> &kept, std::vector<LD> &a, std::vector<LD> &s,
           std::vector<LD> &tol, bool polynomial = false) {
  std::vector<int> ks = support(r, 0, all);
  std::vector<LD> sol[2], sd[2];
  for (int q = 0; q < 2; ++q) {
    std::vector<std::vector<LD>> X;
    std::vector<LD> y, w;
    const V &x = r.w->s.obs[0].d.x;
    LD x0 = x[ks.front()], dx = std::max(1., x[ks.back()] - x[ks.front()]);
    for (int k : ks) {
      std::vector<LD> row;
      for (int e : kept)
        row.push_back(column(r, 0, e, k, d.cont[0][k], q == 0));
      if (polynomial)
        for (int j = 0; j < 3; ++j)
          row.push_back(powl((x[k] - x0) / dx, j));
      X.push_back(row);
      y.push_back(d.y[0][k]);
      w.push_back(1 / ((LD)d.e[0][k] * d.e[0][k]));
    }
    if (!solve(X, y, w, sol[q], sd[q]))
      return false;
  }
  a = sol[0];
  s = sd[0];
  tol.clear();
  for (size_t j = 0; j < a.size(); ++j)
    tol.push_back(2 * (fabsl(sol[0][j] - sol[1][j]) + fabsl(sd[0][j] - sd[1][j])));
  return true;
}

void fitGroup(const Ref &r, const Data1 &d, const std::vector<int> &grp, Fit &f, bool polynomial = false) {
  std::vector<LD> a, s, t;
  std::vector<int> kept = grp;
  auto set = [&](int e, LD av, LD sv, LD tv) {
    f.a[e] = av;
    f.s[e] = sv;
    f.tol[e] = tv;
  };
  if (!joint(r, d, grp, kept, a, s, t, polynomial)) {
    f.ok = false;
    return;
  }
  auto undecided = [&] {
    for (size_t i = 0; i < kept.size(); ++i)
      if (fabsl(a[i]) <= 1e-7L * s[i] + 2 * t[i])
        f.ok = false;
  };
  undecided();
  std::vector<int> next;
  for (size_t i = 0; i < kept.size(); ++i) {
    set(kept[i], std::max((LD)0, a[i]), s[i], t[i]);
    if (a[i] >= 0)
      next.push_back(kept[i]);
  }
  if (next.size() == kept.size() || next.empty() || !f.ok)
    return;
  kept = next;
  if (kept.size() == 1 && !polynomial) {
    individual(r, d, kept[0], f.a[kept[0]], f.s[kept[0]]);
    f.tol[kept[0]] = 0;
    return;
  }
  if (!joint(r, d, grp, kept, a, s, t, polynomial)) {
    f.ok = false;
    return;
  }
  undecided();
  bool neg = false;
  for (size_t i = 0; i < kept.size(); ++i) {
    neg = neg || a[i] < 0;
    set(kept[i], std::max((LD)0, a[i]), s[i], t[i]);
  }
  if (neg)
    for (size_t i = 0; i < kept.size(); ++i)
      if (a[i] > 0) {
        individual(r, d, kept[i], f.a[kept[i]], f.s[kept[i]]);
        f.tol[kept[i]] = 0;
      }
}

// elements fitted together by the hybrid method; borderline when an overlap is at the threshold
std::vector<std::vector<int>> hybridGroups(const Ref &r, bool &borderline) {
  std::vector<std::vector<int>> out;
  std::set<int> done;
  auto &w = *r.w;
  for (int e = 0; e < int(r.elts.size()); ++e) {
    if (r.eltOut(e, 0) || done.count(e))
      continue;
    std::vector<int> grp;
    for (int f = 0; f < int(r.elts.size()); ++f) {
      bool in = f == e;
      if (!in && !done.count(f) && r.elts[f].em == r.elts[e].em && !r.eltOut(f, 0))
        for (int i : r.elts[e].lines)
          for (int j : r.elts[f].lines) {
            if (r.seen[0][i].out || r.seen[0][j].out)
              continue;
            auto &A = w.lines[i], &B = w.lines[j];
            double ma = A.pos * (1 + w.z), mb = B.pos * (1 + w.z);
            double wa = widthOf(w, A, 0, ma) * supportSigmas(w, A), wb = widthOf(w, B, 0, mb) * supportSigmas(w, B);
            double over = std::min(ma + wa / 2, mb + wb / 2) - std::max(ma - wa / 2, mb - wb / 2);
            if (std::fabs(over - OVERLAP_THRES_HYBRID_FIT * wa) < 1e-7)
              borderline = true;
            in = in || over > OVERLAP_THRES_HYBRID_FIT * wa;
          }
      if (in)
        grp.push_back(f);
    }
    for (int f : grp)
      done.insert(f);
    out.push_back(grp);
  }
  return out;
}

Fit amplitudes(const Ref &r, const Data1 &d, bool &borderline, bool polynomial = false) {
  Fit f;
  int n = r.elts.size();
  f.a.assign(n, NAN);
  f.s.assign(n, NAN);
  f.tol.assign(n, 0);
  const std::string &m = r.w->method;
  if (m == "individual") {
    for (int e = 0; e < n; ++e)
      if (!r.eltOut(e))
        individual(r, d, e, f.a[e], f.s[e]);
  } else if (m == "svd") {
    std::vector<int> all;
    for (int e = 0; e < n; ++e)
      if (!r.eltOut(e, 0))
        all.push_back(e);
    if (!all.empty())
      fitGroup(r, d, all, f, polynomial);
  } else
    for (auto &grp : hybridGroups(r, borderline)) {
      if (grp.size() == 1 && !polynomial)
        individual(r, d, grp[0], f.a[grp[0]], f.s[grp[0]]);
      else
        fitGroup(r, d, grp, f, polynomial);
    }
  return f;
}

// ---------------------------------------------------------------------------------------------------------- generators
World makeWorld(Ctx &g, int nobs, bool absorption, bool groups) {
  World w;
  w.nsig = g.pick({8., 8., 6., 10., 14.});
  w.z = g.pick({0., g.f(0., 3.), 0.5});
  w.vE = g.f(30, 400);
  w.vA = g.f(30, 600);
  w.widthType = g.pick({"combined", "combined", "instrumentDriven", "velocityDriven"});
  w.s.dust = makeDust(g);
  w.s.igm = makeIgm(g);
  w.s.cat = std::make_shared<CTemplateCatalog>();
  double R = g.f(500, 3000), base = g.pick({4000., 6500., 9000., 12500.});
  for (int o = 0; o < nobs; ++o) {
    Obs ob;
    ob.id = nobs > 1 ? std::string(1, char('A' + o)) : "";
    double step = g.f(0.5, 4.), start = base + (o ? g.f(-300, 500) : 0.);
    int n = g.i(60, 350);
    ob.d.x = incAxis(g, n, start, step * 0.5, step * 1.5);
    int rg = g.i(0, 3);
    double lo = ob.d.x.front(), hi = ob.d.x.back();
    if (rg == 0) {
      ob.lo = lo - 10;
      ob.hi = hi + 10;
    } else if (rg == 1) {
      ob.lo = lo;
      ob.hi = hi;
    } else if (rg == 2) { // on samples
      ob.lo = ob.d.x[g.i(0, n / 5)];
      ob.hi = ob.d.x[g.i(n - n / 5, n - 1)];
    } else {
      ob.lo = g.f(lo, lo + 0.2 * (hi - lo));
      ob.hi = g.f(hi - 0.2 * (hi - lo), hi);
    }
    w.s.obs.push_back(ob);
    w.lsf.push_back(g.chance(30) ? constantWidthLSF(g.f(1., 6.)) : constantResolutionLSF(R * (o ? g.f(0.5, 2) : 1.)));
  }
  double lo = 1e9, hi = 0;
  for (auto &o : w.s.obs) {
    lo = std::min(lo, o.d.x.front());
    hi = std::max(hi, o.d.x.back());
  }
  int nl = g.i(1, 7);
  int id = g.i(0, 4);
  double prev = 0;
  for (int i = 0; i < nl; ++i) {
    LineDef l;
    l.id = id;
    id += g.i(1, 3);
    l.name = "line" + std::to_string(i);
    l.em = !(absorption && g.chance(35));
    double obs = i && g.chance(40) ? prev + g.f(-40, 40) : g.chance(15) ? g.pick({lo, hi}) + g.f(-30, 30) : g.f(lo, hi);
    prev = obs;
    l.pos = obs / (1 + w.z);
    l.offset = g.chance(25) ? g.f(-400, 400) : 0.;
    l.profile = g.chance(20) ? "LOR" : "SYM";
    l.group = groups && g.chance(60) ? (l.em ? g.pick({"E1", "E2"}) : "A1") : undefStr;
    l.nominal = g.chance(40) ? 1. : l.em ? g.f(0.1, 3.) : g.f(0.1, 1.);
    l.fitOffset = g.b();
    l.strong = g.b();
    w.lines.push_back(l);
  }
  // names of complexes
  if (g.chance(35)) {
    std::vector<std::string> names = g.pick({std::vector<std::string>{"Halpha", "[NII]a", "[NII]b"}, {"[OII]3726", "[OII]3729"}, {"[OII]3729", "[OII]3726", "Halpha"}});
    for (size_t i = 0, k = 0; i < w.lines.size() && k < names.size(); ++i)
      if (w.lines[i].em)
        w.lines[i].name = names[k++];
  }
  // data
  double scale = g.logf(1e-3, 1e3), c0 = g.f(0.2, 2), c1 = g.f(-0.5, 0.5), noise = g.logf(0.02, 1);
  V amp;
  for (auto &l : w.lines) {
    (void)l;
    amp.push_back(g.chance(20) ? -g.f(0, 2) : g.f(0, 4));
  }
  bool vary = g.b();
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    auto &ob = w.s.obs[o];
    size_t n = ob.d.x.size();
    ob.d.y.resize(n);
    ob.d.e.resize(n);
    for (size_t k = 0; k < n; ++k) {
      double v = c0 + c1 * (ob.d.x[k] - lo) / (hi - lo);
      double c = v;
      for (size_t i = 0; i < w.lines.size(); ++i) {
        auto &L = w.lines[i];
        double mu = L.pos * (1 + w.z) * (1 + L.offset / C);
        double p = profile(L, ob.d.x[k], mu, widthOf(w, L, o, mu));
        v += L.em ? amp[i] * p : -0.2 * amp[i] * c * p;
      }
      ob.d.e[k] = scale * noise * (vary ? 0.5 + 1.5 * ((k * 7) % 11) / 11. : 1.);
      ob.d.y[k] = scale * v + ob.d.e[k] * g.gauss();
    }
  }
  return w;
}

void describe(Ctx &g, const World &w) {
  g.note("method", w.method, w.continuum, w.widthType, "z", w.z, "v", w.vE, w.vA, "nsig", w.nsig);
  for (auto &o : w.s.obs)
    g.note("obs", o.id, "n", o.d.x.size(), "x", o.d.x.front(), o.d.x.back(), "range", o.lo, o.hi);
  for (auto &l : w.lines)
    g.note("line", l.id, l.em ? "E" : "A", "obs", l.pos * (1 + w.z) * (1 + l.offset / C), l.profile, l.group, l.nominal, l.offset);
}

// element of each line, from the solution; checks the composition
std::vector<int> elements(Ctx &g, const World &w, const CLineModelSolution &sol) {
  std::vector<int> e;
  REQUIRE_(sol.lineId.size() == w.lines.size(), "lines", sol.lineId.size(), "of", w.lines.size());
  for (size_t l = 0; l < w.lines.size(); ++l) {
    REQUIRE_(sol.lineId[l] == w.lines[l].id, "line identifiers", l, sol.lineId[l]);
    e.push_back(sol.ElementId[l]);
    for (size_t k = 0; k < l; ++k) {
      bool same = w.lines[l].group != undefStr && w.lines[l].group == w.lines[k].group;
      REQUIRE_((e[l] == e[k]) == same, "composition of the elements", "lines", k, l, "groups", w.lines[k].group, w.lines[l].group);
    }
  }
  return e;
}

struct Checked {
  bool sane = false;
  Ref ref;
};

V offsetsOf(const World &w) {
  V o;
  for (auto &l : w.lines)
    o.push_back(l.offset);
  return o;
}

Data1 dataOf(const World &w, const Result &r) {
  Data1 d;
  d.cont = r.cont;
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    d.e.push_back(w.s.obs[o].d.e);
    V y = w.s.obs[o].d.y;
    for (size_t k = 0; k < y.size(); ++k)
      y[k] -= r.cont[o][k];
    d.y.push_back(y);
  }
  return d;
}

// samples of the fitted range of an observation
bool inRange(const Obs &o, size_t k) { return o.d.x[k] >= o.lo && o.d.x[k] <= o.hi; }

std::string nearest(const World &w, const CLineModelSolution &s) {
  std::string out;
  for (size_t l = 0; l < w.lines.size(); ++l)
    out += std::to_string(l) + ": " + std::to_string(w.lines[l].pos * (1 + s.Redshift) * (1 + w.lines[l].offset / C)) + " width " +
           std::to_string(s.Sigmas[l]) + " amplitude " + std::to_string(s.Amplitudes[l]) + (s.OutsideLambdaRange[l] ? " out; " : "; ");
  return out;
}

// squared difference over the range, from the model itself
void checkMerit(Ctx &g, const World &w, const Result &r, double prior = 0.) {
  LD chi = prior;
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    auto &ob = w.s.obs[o];
    for (size_t k = 0; k < ob.d.x.size(); ++k)
      if (inRange(ob, k))
        chi += powl(((LD)ob.d.y[k] - r.model[o][k]) / ob.d.e[k], 2);
  }
  REQUIRE_CLOSE(r.merit, double(chi), 1e-9, 1e-12, "merit", "reported", r.merit, "of the model", double(chi), nearest(w, r.sol));
}

// model = continuum + lines with the amplitudes of the solution
void checkModel(Ctx &g, const Ref &ref, const Result &r, double (*poly)(const CLineModelSolution &, int, double) = nullptr) {
  auto &w = *ref.w;
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    double big = 0;
    for (double v : r.model[o])
      big = std::max(big, std::fabs(v));
    for (size_t k = 0; k < r.model[o].size(); ++k) {
      LD m = r.cont[o][k];
      for (size_t l = 0; l < w.lines.size(); ++l) {
        auto &n = ref.seen[o][l];
        double a = r.sol.Amplitudes[l];
        if (n.out || int(k) < n.b || int(k) > n.e || !(a > 0))
          continue;
        m += a * unit(ref, o, l, k, r.cont[o][k]);
      }
      if (poly)
        for (size_t l = 0; l < w.lines.size(); ++l) {
          auto &n = ref.seen[o][l];
          if (!n.out && int(k) >= n.b && int(k) <= n.e) {
            m += poly(r.sol, l, w.s.obs[o].d.x[k]);
            break;
          }
        }
      REQUIRE_CLOSE(r.model[o][k], double(m), 1e-9, 1e-11 * big, "model", "observation", o, "sample", k, "of", r.model[o].size(), "x",
                    w.s.obs[o].d.x[k]);
    }
  }
}

// samples of a window, as for the supports
std::pair<int, int> window(const V &x, double mu, double win, double lo, double hi) {
  double a = mu - win / 2, b = mu + win / 2;
  if (a > hi)
    return {0, -1};
  int i = std::lower_bound(x.begin(), x.end(), std::max(a, lo)) - x.begin();
  int j = std::lower_bound(x.begin(), x.end(), std::min(b, hi)) - x.begin();
  if (j >= int(x.size()) || x[j] > hi)
    --j;
  return {i, j};
}

// quantities measured on the spectrum itself, one observation
void checkFluxes(Ctx &g, const Ref &ref, const Result &r, const std::string &where) {
  auto &w = *ref.w;
  auto &ob = w.s.obs[0];
  const V &x = ob.d.x;
  const double lo = std::max(ob.lo, x.front()), hi = std::min(ob.hi, x.back());
  auto &s = r.sol;
  auto integral = [&](std::vector<std::pair<int, int>> ranges, bool absorption, LD &flux, LD &err, LD &size) {
    std::sort(ranges.begin(), ranges.end());
    std::vector<std::pair<int, int>> joined;
    for (auto &q : ranges)
      if (!joined.empty() && q.first <= joined.back().second)
        joined.back().second = std::max(joined.back().second, q.second);
      else
        joined.push_back(q);
    flux = err = size = 0;
    for (auto &q : joined)
      for (int k = q.first; k <= q.second; ++k) {
        LD h = ((k > q.first ? (LD)x[k] - x[k - 1] : 0) + (k < q.second ? (LD)x[k + 1] - x[k] : 0)) / 2, c = r.cont[0][k];
        if (absorption)
          for (size_t l = 0; l < w.lines.size(); ++l) {
            auto &n = ref.seen[0][l];
            if (!w.lines[l].em && !n.out && k >= n.b && k <= n.e && s.Amplitudes[l] > 0)
              c += s.Amplitudes[l] * unit(ref, 0, l, k, r.cont[0][k]);
          }
        flux += h * (ob.d.y[k] - c);
        size += h * (fabsl(ob.d.y[k]) + fabsl(c));
        err += h * h * ob.d.e[k] * ob.d.e[k];
      }
    err = sqrtl(err);
  };
  struct Sum {
    std::vector<std::string> names;
    double lf, snr, lfDI, snrDI;
  };
  std::vector<Sum> sums = {{{"Halpha", "[NII]a", "[NII]b"}, s.lfHa, s.snrHa, s.lfHa_DI, s.snrHa_DI},
                           {{"[OII]3726", "[OII]3729"}, s.lfOII, s.snrOII, s.lfOII_DI, s.snrOII_DI}};
  for (size_t l = 0; l < w.lines.size(); ++l) {
    if (ref.lineOut(l))
      continue;
    auto &L = w.lines[l];
    auto &n = ref.seen[0][l];
    auto q = window(x, n.mu, N_SIGMA_SUPPORT_DI * n.sigma, lo, hi);
    LD flux, err, size;
    integral({q}, L.em, flux, err, size);
    REQUIRE_(err > 0 ? std::fabs(s.FluxDirectIntegration[l] - double(flux)) <= 1e-9 * double(size) : std::isnan(s.FluxDirectIntegration[l]),
             "integrated flux", where, "line", L.id, "found", s.FluxDirectIntegration[l], "expected", double(flux), "samples", q.first, q.second);
    if (err > 0 && std::fabs(flux) > 1e-9 * size)
      REQUIRE_CLOSE(s.FluxDirectIntegrationUncertainty[l], double(err), 1e-7, 0, "error of the integrated flux", where, "line", L.id);
    // continuum under the line, averaged with its profile
    auto p = window(x, n.mu, supportSigmas(w, L) * n.sigma, x.front(), x.back());
    LD sw = 0, sc = 0, s2 = 0, res = 0, big = 0;
    for (int k = p.first; k <= p.second; ++k) {
      LD v = profile(L, x[k], n.mu, n.sigma);
      sw += v;
      s2 += v * v;
      sc += v * r.cont[0][k];
      big = std::max(big, fabsl((LD)r.cont[0][k]));
      res += powl((LD)ob.d.y[k] - r.model[0][k], 2);
    }
    int count = p.second - p.first + 1;
    if (!(sw > 0))
      continue;
    REQUIRE_CLOSE(s.CenterContinuumFlux[l], double(sc / sw), 1e-9, 1e-11 * double(big), "continuum under a line", where, "line", L.id);
    double u = s.CenterContinuumFluxUncertainty[l], most = std::sqrt(double(res / count * s2)) / double(sw);
    if (count < MIN_SAMPLE_NUMBER_CONTINUUMM_UNCERTAINTY)
      REQUIRE_(std::isnan(u), "error of the continuum without enough samples", where, "line", L.id, u);
    else // the residual is reduced by at most 90% at the centre of the lines
      REQUIRE_(u <= most * (1 + 1e-7) && u >= most * (0.1 - 1e-7), "error of the continuum under a line", where, "line", L.id, "found", u, "at most", most);
  }
  for (auto &sum : sums) {
    LD f = 0, v = 0, flux, err, size;
    std::vector<std::pair<int, int>> ranges;
    for (auto &name : sum.names)
      for (size_t l = 0; l < w.lines.size(); ++l) {
        if (w.lines[l].name != name || !w.lines[l].em || ref.lineOut(l))
          continue;
        auto &n = ref.seen[0][l];
        auto q = window(x, n.mu, N_SIGMA_SUPPORT_DI * n.sigma, lo, hi);
        ranges.push_back(q);
        if (s.Flux[l] > 0)
          f += s.Flux[l];
        if (s.FluxUncertainty[l] > 0)
          v += powl(s.FluxUncertainty[l], 2);
      }
    if (ranges.size() != sum.names.size()) {
      REQUIRE_(std::isnan(sum.lf) && std::isnan(sum.snr), "flux of an incomplete complex", where, sum.names[0], sum.lf);
      continue;
    }
    g.label("complex of " + sum.names[0]);
    if (f > 0)
      REQUIRE_CLOSE(sum.lf, std::log10(double(f)), 1e-9, 1e-9, "flux of a complex", where, sum.names[0]);
    else
      REQUIRE_(std::isinf(sum.lf) && sum.lf < 0, "flux of a complex without signal", where, sum.names[0], sum.lf);
    if (v > 0)
      REQUIRE_CLOSE(sum.snr, double(f / sqrtl(v)), 1e-8, 1e-12, "SNR of a complex", where, sum.names[0]);
    integral(ranges, false, flux, err, size);
    if (err > 0 && std::fabs(flux) > 1e-8 * size) {
      if (flux > 0)
        REQUIRE_CLOSE(sum.lfDI, std::log10(double(flux)), 1e-7, 1e-7, "integrated flux of a complex", where, sum.names[0]);
      else
        REQUIRE_(std::isinf(sum.lfDI) && sum.lfDI < 0, "integrated flux of a complex without signal", where, sum.names[0], sum.lfDI);
      REQUIRE_CLOSE(sum.snrDI, double(fabsl(flux) / err), 1e-6, 0, "SNR of the integrated flux of a complex", where, sum.names[0]);
    }
  }
}

void checkLines(Ctx &g, const Ref &ref, const Result &r, const Fit *f, const std::string &where) {
  auto &w = *ref.w;
  auto &s = r.sol;
  int ndl = 0;
  std::set<int> counted;
  for (size_t l = 0; l < w.lines.size(); ++l) {
    auto &L = w.lines[l];
    bool out = ref.lineOut(l);
    REQUIRE_(s.OutsideLambdaRange[l] == out, "outside the range", where, "line", L.id, "found", bool(s.OutsideLambdaRange[l]), "expected", out);
    if (out) {
      REQUIRE_(std::isnan(s.Amplitudes[l]), "amplitude outside the range", where, "line", L.id, s.Amplitudes[l]);
      continue;
    }
    double mu = L.pos * (1 + w.z) * (1 + s.Offset[l] / C);
    REQUIRE_CLOSE(s.LambdaObs[l], mu, 1e-12, 0, "position", where, "line", L.id);
    REQUIRE_(s.Velocity[l] == (L.em ? w.vE : w.vA), "velocity", where, L.id, s.Velocity[l]);
    double a = s.Amplitudes[l], sd = s.AmplitudesUncertainties[l];
    REQUIRE_(std::isnan(a) || (a >= 0 && (L.em || a <= 1.)), "amplitude outside its constraints", where, "line", L.id, a);
    if (!std::isnan(a)) {
      if (a > 0 && counted.insert(ref.eltOf[l]).second)
        ++ndl;
      int o = 0;
      while (ref.seen[o][l].out)
        ++o;
      double sigma = ref.seen[o][l].sigma;
      REQUIRE_CLOSE(s.Sigmas[l], sigma, 1e-10, 0, "width", where, "line", L.id);
      if (L.em) {
        REQUIRE_CLOSE(s.Flux[l], a * area(L, sigma), 1e-10, 0, "flux", where, "line", L.id);
        if (!std::isnan(sd))
          REQUIRE_CLOSE(s.FluxUncertainty[l], sd * area(L, sigma), 1e-10, 0, "flux error", where, "line", L.id);
      } else {
        double c = std::max(0., s.CenterContinuumFlux[l]);
        REQUIRE_CLOSE(s.Flux[l], -a * c * area(L, sigma), 1e-10, 0, "flux of an absorption", where, "line", L.id);
      }
      LD res = 0, sum = 0;
      for (size_t q = 0; q < ref.seen.size(); ++q)
        for (int k : support(ref, q, {ref.eltOf[l]})) {
          LD e = w.s.obs[q].d.e[k];
          res += powl((w.s.obs[q].d.y[k] - (LD)r.model[q][k]) / e, 2);
          sum += 1 / (e * e);
        }
      if (!ref.shared && res > 1e-15L)
        REQUIRE_CLOSE(s.ResidualRMS[l], std::sqrt(double(res / sum)), 1e-7, 0, "residual under a line", where, "line", L.id);
      if (w.ratio == "rules" && sd > 0)
        REQUIRE_CLOSE(s.SNR[l], a / sd, 1e-12, 0, "SNR", where, "line", L.id);
    }
    if (!f || !f->ok)
      continue;
    LD A = f->a[ref.eltOf[l]] * (LD)L.nominal, S = f->s[ref.eltOf[l]] * (LD)L.nominal, T = f->tol[ref.eltOf[l]] * (LD)L.nominal;
    if (!L.em)
      A = std::min(A, (LD)1);
    if (std::isnan(double(A))) {
      REQUIRE_(std::isnan(a) || (w.ratio == "tplRatio" && a == 0), "amplitude of a line without signal", where, "line", L.id, a);
      continue;
    }
    REQUIRE_(std::fabs(a - double(A)) <= double(1e-7L * S + 1e-9L * A + T), "amplitude", where, "line", L.id, "element", ref.eltOf[l], "found", a, "expected",
             double(A), "sd", double(S), "tolerance", double(T));
    if (w.ratio == "tplRatio" && a == 0 && std::isnan(sd)) // the error of a ratio without any positive line is not kept
      continue;
    REQUIRE_(std::fabs(sd - double(S)) <= double(1e-8L * S + T), "amplitude error", where, "line", L.id, "found", sd, "expected", double(S));
  }
  if (ref.seen.size() == 1 && !ref.shared && !w.ampOffset)
    checkFluxes(g, ref, r, where);
  REQUIRE_(s.nDDL == ndl, "number of elements", where, "found", s.nDDL, "expected", ndl);
  REQUIRE_(s.Redshift == w.z, "redshift", s.Redshift);
}

// summary of a fit: norms of the data, samples outside the lines, cumulated signal to noise
void checkSummary(Ctx &g, const Ref &ref, const Result &r, CLineModelFitting &lm, const std::string &where) {
  auto &w = *ref.w;
  LD dtd = 0, cst = 0, merit = 0;
  int count = 0;
  for (size_t o = 0; o < w.s.obs.size(); ++o) {
    auto &ob = w.s.obs[o];
    for (size_t k = 0; k < ob.d.x.size(); ++k)
      if (inRange(ob, k)) {
        ++count;
        LD v = (ob.d.y[k] - r.cont[o][k]) / ob.d.e[k];
        dtd += v * v;
        merit += v * v;
        cst -= 0.5L * logl(2 * M_PIl) + logl(ob.d.e[k]);
      }
  }
  lm.getSpectraIndex().reset();
  REQUIRE_(lm.computeSpcNSamples() == count, "number of samples", where, lm.computeSpcNSamples(), "expected", count);
  lm.getSpectraIndex().reset();
  REQUIRE_CLOSE(lm.getLeastSquareContinuumMerit(), double(merit), 1e-9, 1e-12, "merit of the continuum", where);
  lm.getSpectraIndex().reset();
  REQUIRE_CLOSE(lm.getDTransposeD(), double(dtd), 1e-9, 1e-12, "norm of the data", where);
  REQUIRE_CLOSE(lm.getLikelihood_cstLog(), double(cst), 1e-9, 1e-9, "constant of the likelihood", where);
  REQUIRE_(lm.GetModelNonZeroElementsNDdl() == r.sol.nDDL, "degrees of freedom", where);
  lm.getSpectraIndex().reset();
  if (w.s.obs.size() > 1)
    return;
  // samples outside the lines
  auto &ob = w.s.obs[0];
  auto mask = lm.getOutsideLinesMask();
  LD res = 0, err = 0;
  int n = 0;
  for (size_t k = 0; k < ob.d.x.size(); ++k) {
    bool under = false;
    for (size_t l = 0; l < w.lines.size(); ++l)
      under = under || (!ref.seen[0][l].out && int(k) >= ref.seen[0][l].b && int(k) <= ref.seen[0][l].e);
    REQUIRE_(bool(mask[k]) == !under, "mask outside the lines", where, "sample", k, "under a line", under);
    if (!under && inRange(ob, k)) {
      ++n;
      res += powl((LD)ob.d.y[k] - r.cont[0][k], 2);
      err += powl(ob.d.e[k], 2);
    }
  }
  for (int which : {1, 2}) {
    double v = lm.getOutsideLinesSTD(which);
    if (!n)
      REQUIRE_(std::isnan(v), "residual outside the lines", where, which, v);
    else
      REQUIRE_CLOSE(v, double(sqrtl((which == 1 ? res : err) / n)), 1e-9, 1e-300, "residual outside the lines", where, which, "samples", n);
  }
  // emission lines: flux of the model over the samples of their supports, each of them once
  struct Part {
    int b, e;
    bool strong;
  };
  std::vector<Part> parts;
  for (size_t l = 0; l < w.lines.size(); ++l)
    if (w.lines[l].em && !ref.seen[0][l].out)
      parts.push_back({ref.seen[0][l].b, ref.seen[0][l].e, w.lines[l].strong});
  std::sort(parts.begin(), parts.end(), [](const Part &a, const Part &b) { return a.b < b.b; });
  std::vector<Part> joined;
  for (auto &q : parts)
    if (!joined.empty() && q.b <= joined.back().e) {
      joined.back().e = std::max(joined.back().e, q.e);
      joined.back().strong = joined.back().strong || q.strong;
    } else
      joined.push_back(q);
  LD f[2] = {0, 0}, v[2] = {0, 0}, size[2] = {0, 0};
  for (auto &q : joined) {
    if (q.e == q.b) // not measured on one sample
      continue;
    LD sum = 0, var = 0, abs = 0;
    for (int k = q.b; k <= q.e; ++k) {
      sum += (LD)r.model[0][k] - r.cont[0][k];
      abs += fabsl(r.model[0][k]) + fabsl(r.cont[0][k]);
      var += powl(ob.d.e[k], 2);
    }
    for (int i = 0; i < (q.strong ? 2 : 1); ++i) {
      f[i] += fabsl(sum);
      v[i] += var;
      size[i] += abs;
    }
  }
  auto [all, strong] = lm.getCumulSNRStrongEL();
  lm.getSpectraIndex().reset();
  for (int i : {0, 1}) {
    double x = i ? strong : all;
    if (v[i] == 0)
      REQUIRE_(std::isnan(x), "signal to noise without lines", where, i, x);
    else
      REQUIRE_(std::fabs(x - double(f[i] / sqrtl(v[i]))) <= 1e-9 * double(size[i] / sqrtl(v[i])), i ? "signal to noise of the strong lines" : "signal to noise", where, x,
               "expected", double(f[i] / sqrtl(v[i])));
  }
  if (joined.size() < parts.size())
    g.label("joined supports");
}

void checkAll(Ctx &g, World &w, CLineModelFitting &lm, const std::string &where) {
  Result r = fitAt(lm, w.z);
  auto elt = elements(g, w, r.sol);
  Ref ref = reference(w, offsetsOf(w), elt);
  Data1 d = dataOf(w, r);
  bool borderline = false;
  Fit f = amplitudes(ref, d, borderline);
  bool fitted = false;
  for (size_t l = 0; l < w.lines.size(); ++l)
    fitted = fitted || r.sol.Amplitudes[l] > 0;
  checkLines(g, ref, r, borderline || ref.shared ? nullptr : &f, where);
  checkModel(g, ref, r);
  checkMerit(g, w, r);
  checkSummary(g, ref, r, lm, where);
  if (fitted && f.ok && !borderline && !ref.shared)
    g.nontrivial();
  if (!f.ok)
    g.label("sign undecided or ill conditioned");
  for (size_t o = 0; o < w.s.obs.size(); ++o)
    for (size_t l = 0; l < w.lines.size(); ++l)
      if (!ref.seen[o][l].out && (ref.seen[o][l].b == 0 || w.s.obs[o].d.x[ref.seen[o][l].b - 1] < w.s.obs[o].lo))
        g.label("line at the border");
}
} // namespace

// ------------------------------------------------------------------------------------------------------- Balmer lines
namespace {
// residual of continuum and lines under an element
LD residual(const Ref &ref, const Data1 &d, const Fit &f, int elt) {
  LD chi = 0;
  for (int k : support(ref, 0, {elt})) {
    LD v = d.y[0][k];
    for (size_t l = 0; l < ref.w->lines.size(); ++l) {
      auto &n = ref.seen[0][l];
      LD amp = f.a[ref.eltOf[l]] * ref.w->lines[l].nominal;
      if (!ref.w->lines[l].em)
        amp = std::min(amp, (LD)1);
      if (!n.out && amp > 0 && k >= n.b && k <= n.e)
        v -= amp * unit(ref, 0, l, k, d.cont[0][k]);
    }
    chi += v * v / d.e[0][k] / d.e[0][k];
  }
  return chi;
}
// each visible pair of emission and absorption is fitted together, and kept when better under the absorption
int balmer(const Ref &ref, const Data1 &d, Fit &f, bool &borderline) {
  auto &w = *ref.w;
  int tried = 0;
  auto find = [&](const std::string &name, bool em) {
    for (size_t l = 0; l < w.lines.size(); ++l)
      if (w.lines[l].name == name && w.lines[l].em == em)
        return int(l);
    return -1;
  };
  for (std::string name : {"Halpha", "Hbeta", "Hgamma", "Hdelta"}) {
    int e = find(name, true), a = find(name + "A", false);
    if (e < 0 || a < 0 || ref.elts[ref.eltOf[e]].lines.size() > 1 || ref.elts[ref.eltOf[a]].lines.size() > 1)
      continue;
    if (ref.lineOut(e) || ref.lineOut(a))
      continue;
    LD ratio = (LD)ref.seen[0][a].sigma / ref.seen[0][e].sigma;
    borderline = borderline || fabsl(ratio - 2) < 1e-9;
    if (ratio < 2)
      continue;
    std::set<int> grp = {ref.eltOf[e], ref.eltOf[a]};
    if (name == "Halpha")
      for (std::string more : {"[NII]a", "[NII]b"}) {
        int l = find(more, true);
        if (l >= 0 && !ref.eltOut(ref.eltOf[l]))
          grp.insert(ref.eltOf[l]);
      }
    Fit now = f;
    fitGroup(ref, d, std::vector<int>(grp.begin(), grp.end()), now);
    if (!now.ok) {
      f.ok = false;
      return tried;
    }
    // an absorption is limited to the continuum
    LD before = residual(ref, d, f, ref.eltOf[a]), after = residual(ref, d, now, ref.eltOf[a]);
    borderline = borderline || fabsl(before - after) <= 1e-7L * (before + after);
    if (after <= before)
      f = now;
    ++tried;
  }
  return tried;
}
} // namespace

PROP("P17", balmer, 1500, 30000) {
  World w = makeWorld(g, 1, true, true);
  w.method = "hybrid";
  w.balmer = true;
  w.continuum = g.pick({"noContinuum", "fromSpectrum", "fromSpectrum"});
  w.vE = g.f(30, 200);
  w.vA = w.vE * g.f(1., 6.);
  // pairs at the same wavelength, and neighbours
  auto &ls = w.lines;
  int pairs = g.i(1, 2), id = ls.back().id;
  for (auto &l : ls)
    l.name = "line" + std::to_string(l.id);
  double lo = w.s.obs[0].d.x.front(), hi = w.s.obs[0].d.x.back();
  for (int i = 0; i < pairs; ++i) {
    std::string name = g.pick({"Halpha", "Hbeta", "Hgamma", "Hdelta"});
    bool twice = false;
    for (auto &l : ls)
      twice = twice || l.name == name;
    if (twice)
      continue;
    double at = (g.chance(15) ? g.pick({lo, hi}) + g.f(-30, 30) : g.f(lo, hi)) / (1 + w.z);
    auto add = [&](std::string n, double pos, bool em, std::string group) {
      id += g.i(1, 2);
      ls.push_back({id, n, pos, em, group, "SYM", g.chance(40) ? 1. : g.f(0.1, 1.), 0., false});
    };
    add(name, at, true, g.chance(10) ? "E1" : undefStr);
    add(name + "A", at + (g.chance(20) ? g.f(-5, 5) : 0.), false, undefStr);
    if (name == "Halpha" && g.chance(70)) {
      std::string group = g.pick({std::string("nii"), std::string("nii"), std::string(undefStr), std::string("E1")});
      add("[NII]a", at + g.f(5, 40) / (1 + w.z), true, group);
      add("[NII]b", at - g.f(5, 40) / (1 + w.z), true, group);
    }
    // their flux
    double ae = g.f(-1, 4), aa = g.f(-0.5, 1.), big = 0;
    auto &ob = w.s.obs[0];
    for (double v : ob.d.y)
      big = std::max(big, std::fabs(v));
    for (size_t k = 0; k < ob.d.x.size(); ++k) {
      double mu = at * (1 + w.z), t = ob.d.x[k] - mu;
      ob.d.y[k] += big * (ae * std::exp(-0.5 * std::pow(t / widthOf(w, ls[ls.size() - 1], 0, mu), 2)) * 0.3 -
                          aa * 0.3 * std::exp(-0.5 * std::pow(t / (mu * w.vA / C), 2)));
    }
  }
  describe(g, w);
  Params p = parameters(w);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  enter(w, p);
  Session s;
  auto lm = makeFitting();
  int n = g.i(1, 2);
  double z0 = w.z;
  for (int q = 0; q < n; ++q) {
    w.z = q + 1 == n ? z0 : std::max(0., (1 + z0) * (1 + g.f(-0.05, 0.05)) - 1);
    Result r = fitAt(*lm, w.z);
    for (size_t l = 0; l < w.lines.size(); ++l)
      REQUIRE_(!(r.sol.Amplitudes[l] < 0), "negative amplitude", "line", w.lines[l].name, r.sol.Amplitudes[l]);
    auto elt = elements(g, w, r.sol);
    Ref ref = reference(w, offsetsOf(w), elt);
    Data1 d = dataOf(w, r);
    bool borderline = false;
    Fit f = amplitudes(ref, d, borderline), first = f;
    int tried = f.ok ? balmer(ref, d, f, borderline) : 0;
    checkLines(g, ref, r, borderline || ref.shared ? nullptr : &f, "fit " + std::to_string(q));
    checkModel(g, ref, r);
    checkMerit(g, w, r);
    if (f.ok && !borderline && !ref.shared && tried) {
      bool changed = false;
      for (size_t e = 0; e < f.a.size(); ++e)
        changed = changed || (f.a[e] != first.a[e] && (f.a[e] > 0 || first.a[e] > 0));
      g.label(changed ? "fitted together" : "left as they were");
      g.nontrivial();
    }
  }
}

// --------------------------------------------------------------------------------------------- amplitudes, model, merit
PROP("P17", amplitudes, 3000, 60000) {
  World w = makeWorld(g, 1, true, true);
  w.method = g.pick({"individual", "svd", "hybrid", "hybrid"});
  w.continuum = g.pick({"noContinuum", "fromSpectrum"});
  g.label(w.method + " " + w.continuum);
  describe(g, w);
  Params p = parameters(w);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  enter(w, p);
  Session s;
  auto lm = makeFitting();
  // several redshifts on the same object: nothing of one fit shows in the next
  int n = g.i(1, 3);
  double z0 = w.z;
  for (int i = 0; i < n; ++i) {
    w.z = i + 1 == n ? z0 : (1 + z0) * (1 + g.f(-0.05, 0.05)) - 1;
    if (w.z < 0)
      w.z = 0;
    if (g.chance(30)) {
      w.vE = g.f(30, 400);
      w.vA = g.f(30, 600);
      lm->SetVelocityEmission(w.vE);
      lm->SetVelocityAbsorption(w.vA);
    }
    checkAll(g, w, *lm, "fit " + std::to_string(i));
  }
}

PROP("P17", observations, 1500, 30000) {
  World w = makeWorld(g, g.i(2, 3), true, true);
  w.method = "individual";
  w.continuum = g.pick({"noContinuum", "fromSpectrum"});
  g.label(w.continuum);
  describe(g, w);
  Params p = parameters(w);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  enter(w, p);
  Session s;
  auto lm = makeFitting();
  checkAll(g, w, *lm, "fit");
}

// ------------------------------------------------------------------------------------------------ solutions loaded again
PROP("P17", loaded_again, 1500, 30000) {
  World w = makeWorld(g, g.pick({1, 1, 2}), true, true);
  w.method = w.s.obs.size() > 1 ? std::string("individual") : g.pick({"individual", "svd", "hybrid"});
  w.continuum = g.pick({"noContinuum", "fromSpectrum"});
  describe(g, w);
  Params p = parameters(w);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  enter(w, p);
  Session s;
  auto lm = makeFitting();
  std::vector<Result> r;
  int n = g.i(2, 4);
  double z0 = w.z;
  for (int i = 0; i < n; ++i) {
    w.z = std::max(0., (1 + z0) * (1 + g.f(-0.02, 0.02)) - 1);
    r.push_back(fitAt(*lm, w.z));
  }
  bool differ = false;
  for (int q = 0; q < n; ++q) {
    int i = g.i(0, n - 1);
    lm->LoadModelSolution(r[i].sol);
    lm->refreshAllModels();
    for (size_t l = 0; l < w.lines.size(); ++l)
      differ = differ || r[i].sol.OutsideLambdaRange[l] != r[(i + 1) % n].sol.OutsideLambdaRange[l];
    int o = 0;
    for (auto &k : lm->getSpectraIndex()) {
      (void)k;
      const V m = lm->getSpectrumModel().GetModelSpectrum().GetFluxAxis().GetSamplesVector();
      double big = 0;
      for (double v : r[i].model[o])
        big = std::max(big, std::fabs(v));
      for (size_t j = 0; j < m.size(); ++j)
        REQUIRE_CLOSE(m[j], r[i].model[o][j], 1e-10, 1e-12 * big, "model of a solution loaded again", "solution", i, "observation", o, "sample", j, "x",
                      w.s.obs[o].d.x[j], "largest", big, "line", nearest(w, r[i].sol));
      ++o;
    }
    lm->getSpectraIndex().reset();
  }
  if (differ) {
    g.label("lines enter or leave the range");
    g.nontrivial();
  }
}

// ------------------------------------------------------------------------------------------------------- change of units
PROP("P17", scaling, 1500, 30000) {
  World w = makeWorld(g, 1, true, true);
  w.method = g.pick({"individual", "svd", "hybrid"});
  w.continuum = g.pick({"noContinuum", "fromSpectrum"});
  w.ampOffset = g.chance(30) && w.method != "individual";
  w.rules = g.pick({"no", "no", "all", "balmerSingle"});
  g.label(w.method + " " + w.continuum + (w.ampOffset ? " polynomial" : ""));
  describe(g, w);
  Params p = parameters(w);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  int k = g.i(-40, 40);
  double f = std::ldexp(1., k);
  g.note("scale 2^", k);
  Result r[2];
  for (int i = 0; i < 2; ++i) {
    if (i)
      for (auto &o : w.s.obs)
        for (size_t j = 0; j < o.d.y.size(); ++j) {
          o.d.y[j] *= f;
          o.d.e[j] *= f;
        }
    enter(w, p);
    Session s;
    auto lm = makeFitting();
    r[i] = fitAt(*lm, w.z);
  }
  bool positive = false;
  Ref ref = reference(w, offsetsOf(w), elements(g, w, r[1].sol));
  bool borderline = false;
  Fit fit = amplitudes(ref, dataOf(w, r[1]), borderline, w.ampOffset);
  if (!fit.ok || borderline) {
    g.label("sign undecided or ill conditioned");
    return;
  }
  REQUIRE_CLOSE(r[1].merit, r[0].merit, 1e-9, 1e-12, "merit scaled", "factor", f);
  for (size_t l = 0; l < w.lines.size(); ++l) {
    double a = r[0].sol.Amplitudes[l], sd = r[0].sol.AmplitudesUncertainties[l], b = r[1].sol.Amplitudes[l], sb = r[1].sol.AmplitudesUncertainties[l];
    double q = w.lines[l].em ? f : 1.;
    REQUIRE_(r[0].sol.OutsideLambdaRange[l] == r[1].sol.OutsideLambdaRange[l] && std::isnan(a) == std::isnan(b), "line scaled", "line", l, a, b);
    if (std::isnan(a))
      continue;
    REQUIRE_CLOSE(b, a * q, 1e-8, 1e-9 * std::fabs(sd) * q, "amplitude scaled", "line", l, "factor", q);
    REQUIRE_CLOSE(sb, sd * q, 1e-8, 0, "error scaled", "line", l, "factor", q);
    positive = positive || a > 0;
  }
  if (positive)
    g.nontrivial();
}

// ------------------------------------------------------------------------------------------------------------ line ratios
namespace {
// a template with a straight flux, which any interpolation reproduces
Tpl straight(Ctx &g, const World &w, const std::string &name) {
  double lo = 1e9, hi = 0;
  for (auto &o : w.s.obs) {
    lo = std::min(lo, o.d.x.front());
    hi = std::max(hi, o.d.x.back());
  }
  Tpl t;
  t.name = name;
  lo = 0.7 * lo / (1 + w.z), hi = 1.3 * hi / (1 + w.z);
  double slope = g.f(-0.5, 0.9);
  t.x = linAxis(400, lo, (hi - lo) / 399);
  for (double x : t.x)
    t.y.push_back(1 + slope * (x - lo) / (hi - lo));
  t.obj = makeTemplate(t.name, "galaxy", t.x, t.y);
  return t;
}
void withTemplates(Ctx &g, World &w, int n) {
  if (w.s.dust.start < 0) {
    w.s.dust.start = 0;
    w.s.dust.obj =
        std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(w.s.dust.lambda, w.s.dust.k), 0., w.s.dust.step, w.s.dust.n);
  }
  for (int i = 0; i < n; ++i) {
    w.s.tpls.push_back(straight(g, w, "tpl" + std::to_string(i)));
    w.s.cat->Add(w.s.tpls.back().obj);
  }
}
void extinction(World &w, Params &p) {
  p.set("ebmv.start", w.s.dust.start);
  p.set("ebmv.step", w.s.dust.step);
  p.set("ebmv.count", w.s.dust.n);
}
} // namespace

PROP("P17", ratios, 1500, 30000) {
  World w = makeWorld(g, g.pick({1, 1, 1, 2}), true, false);
  w.method = w.s.obs.size() > 1 ? std::string("individual") : g.pick({"individual", "svd", "hybrid"});
  w.ratio = "tplRatio";
  w.continuum = g.pick({"noContinuum", "fromSpectrum"});
  withTemplates(g, w, 1);
  for (auto &l : w.lines)
    l.group = l.em ? "emission" : "absorption"; // one element of each type
  bool ism = g.b(), firstPass = g.chance(30);
  const std::string m = "galaxy.redshiftSolver.lineModelSolve.lineModel.";
  Params p = parameters(w);
  extinction(w, p);
  if (w.continuum == "fromSpectrum") {
    p.set("continuumRemoval.method", "irregularSamplingMedian");
    p.set("continuumRemoval.medianKernelWidth", g.f(40, 200));
  }
  p.set(m + "tplRatioIsmFit", ism);
  p.set(m + "firstPass.tplRatioIsmFit", firstPass && g.b());
  bool ismNow = ism && (!firstPass || p.t.get<bool>(m + "firstPass.tplRatioIsmFit"));
  describe(g, w);
  enter(w, p);
  // catalogues: for each set of ratios, all the extinctions
  struct Cat {
    V nominal;
    int ism, base;
  };
  std::vector<Cat> cats;
  auto ratios = std::make_shared<CLineCatalogsTplRatio>();
  CLineCatalog lines(w.nsig);
  for (auto &l : w.lines)
    lines.AddLineFromParams(l.name, l.pos, l.em ? "E" : "A", l.strong ? "S" : "W", l.profile, TAsymParams(), l.group, l.nominal, l.em ? "em_vel" : "abs_vel", l.offset,
                            l.fitOffset, l.id, l.name + "_" + std::to_string(l.id));
  int nr = g.i(1, 4), base = 0;
  for (int i = 0; i < nr; ++i) {
    V a;
    for (auto &l : w.lines)
      a.push_back(g.chance(10) ? 0. : l.em ? g.logf(0.05, 3) : g.f(0.05, 1));
    base = cats.size();
    for (int k = 0; k < (ism ? w.s.dust.n : 1); ++k) {
      CLineRatioCatalog c("r" + std::to_string(i) + "_" + std::to_string(k), lines);
      for (size_t l = 0; l < w.lines.size(); ++l)
        c.setLineAmplitude(w.lines[l].id, a[l]);
      c.addVelocity("em_vel", w.vE);
      c.addVelocity("abs_vel", w.vA);
      c.setPrior(1.);
      c.setIsmIndex(k);
      ratios->addLineRatioCatalog(c);
      cats.push_back({a, k, ismNow ? int(cats.size()) : base});
    }
  }
  Context.setLineRatioCatalogCatalog("galaxy", ratios);
  w.s.tpls[0].obj->m_ismCorrectionCalzetti = w.s.dust.obj;
  Session s;
  auto lm = std::make_unique<CLineModelFitting>(std::make_shared<COperatorTemplateFitting>());
  lm->setPassMode(firstPass ? 1 : 2);
  auto man = std::dynamic_pointer_cast<CTplratioManager>(lm->m_lineRatioManager);
  REQUIRE_(man && man->getTplratio_count() == int(cats.size()), "count of the ratios", cats.size());
  int n = g.i(1, 2);
  double z0 = w.z;
  for (int q = 0; q < n; ++q) {
    w.z = q + 1 == n ? z0 : std::max(0., (1 + z0) * (1 + g.f(-0.05, 0.05)) - 1);
    Result r = fitAt(*lm, w.z);
    std::vector<int> elt;
    for (size_t l = 0; l < w.lines.size(); ++l)
      elt.push_back(r.sol.ElementId[l]);
    for (size_t a = 0; a < elt.size(); ++a)
      for (size_t b = 0; b < a; ++b)
        REQUIRE_((elt[a] == elt[b]) == (w.lines[a].em == w.lines[b].em), "elements of the ratios", a, b);
    auto chi = man->GetChisquareTplratio();
    REQUIRE_(chi.size() == cats.size(), "merits of the ratios", chi.size());
    double best = INFINITY;
    bool sane = true;
    std::vector<Fit> fits;
    std::vector<std::unique_ptr<World>> ws;
    std::vector<Ref> refs;
    for (size_t c = 0; c < cats.size(); ++c) {
      ws.push_back(std::make_unique<World>(w));
      World &v = *ws.back();
      auto &src = cats[cats[c].base];
      for (size_t l = 0; l < v.lines.size(); ++l)
        v.lines[l].nominal = src.nominal[l] * (ism && v.lines[l].em ? w.s.dust.coeff(src.ism, v.lines[l].pos) : 1.);
      refs.push_back(reference(v, offsetsOf(v), elt));
      Data1 d = dataOf(v, r);
      bool borderline = false;
      fits.push_back(amplitudes(refs.back(), d, borderline));
      Fit &f = fits.back();
      if (!f.ok || borderline || refs.back().shared) {
        sane = false;
        continue;
      }
      LD sum = 0, slack = 0;
      for (size_t o = 0; o < v.s.obs.size(); ++o)
        for (size_t k = 0; k < v.s.obs[o].d.x.size(); ++k) {
          if (!inRange(v.s.obs[o], k))
            continue;
          LD y = 0, t = 0;
          for (size_t l = 0; l < v.lines.size(); ++l) {
            auto &sn = refs.back().seen[o][l];
            LD a = f.a[elt[l]] * v.lines[l].nominal;
            if (!v.lines[l].em)
              a = std::min(a, (LD)1);
            if (!sn.out && int(k) >= sn.b && int(k) <= sn.e && a > 0) {
              y += a * unit(refs.back(), o, l, k, r.cont[o][k]);
              t += f.tol[elt[l]] * v.lines[l].nominal * fabsl(unit(refs.back(), o, l, k, r.cont[o][k]));
            }
          }
          LD diff = (d.y[o][k] - y) / d.e[o][k];
          sum += diff * diff;
          slack += 2 * fabsl(diff) * t / d.e[o][k] + powl(t / d.e[o][k], 2);
        }
      REQUIRE_(std::fabs(chi[c] - double(sum)) <= 1e-8 * double(sum) + double(slack) + 1e-10, "merit of a ratio", "ratio", c, "of", cats.size(), "found", chi[c],
               "expected", double(sum), "fit", q);
      best = std::min(best, chi[c]);
    }
    checkMerit(g, w, r);
    if (!sane)
      continue;
    REQUIRE_(r.merit == best, "best ratio", "merit", r.merit, "smallest", best);
    // the solution is the one of a ratio with that merit
    std::string name = man->getTplratio_bestTplName();
    size_t b = 0;
    while (b < cats.size() && ratios->GetCatalogName(b) != name)
      ++b;
    REQUIRE_(b < cats.size() && chi[b] == best, "name of the best ratio", name);
    checkLines(g, refs[b], r, &fits[b], "ratio " + name);
    checkModel(g, refs[b], r);
    double ae = man->getTplratio_bestAmplitudeEm();
    for (size_t l = 0; l < w.lines.size(); ++l)
      if (w.lines[l].em && !refs[b].lineOut(l) && fits[b].a[elt[l]] > 0 && refs[b].w->lines[l].nominal > 0) {
        REQUIRE_(std::fabs(ae - double(fits[b].a[elt[l]])) <= double(1e-7L * fits[b].s[elt[l]] + 1e-9L * fits[b].a[elt[l]] + fits[b].tol[elt[l]]),
                 "amplitude of the ratio", ae, "expected", double(fits[b].a[elt[l]]));
        if (cats.size() > 1)
          g.nontrivial();
        break;
      }
    if (ism)
      g.label(ismNow ? "extinction fitted" : "extinction off in the first pass");
  }
}

// ---------------------------------------------------------------------------------------------------- fitted continuum
PROP("P17", continuum, 1200, 24000) {
  World w = makeWorld(g, g.pick({1, 1, 1, 2}), true, true);
  w.method = w.s.obs.size() > 1 ? std::string("individual") : g.pick({"individual", "svd", "hybrid"});
  w.continuum = g.pick({"tplFit", "tplFitAuto"});
  int nt = g.i(1, 3);
  withTemplates(g, w, nt);
  Params p = parameters(w);
  extinction(w, p);
  const std::string m = "galaxy.redshiftSolver.lineModelSolve.lineModel.";
  int nc = g.i(1, 4);
  bool single = g.chance(30); // only the first one
  p.set(m + "continuumFit.count", nc);
  p.set(m + "firstPass.multipleContinuumFitDisable", single);
  describe(g, w);
  enter(w, p);
  for (auto &t : w.s.tpls) {
    t.obj->m_ismCorrectionCalzetti = w.s.dust.obj;
    t.obj->m_igmCorrectionMeiksin = w.s.igm.obj;
  }
  Session s;
  double level = 0;
  for (auto &o : w.s.obs)
    for (double v : o.d.y)
      level = std::max(level, std::fabs(v));
  std::vector<CTplModelSolution> cand;
  std::vector<std::pair<int, int>> which; // template, extinction
  for (int c = 0; c < nc; ++c) {
    CTplModelSolution t;
    int k = g.i(0, nt - 1), e = g.i(0, w.s.dust.n - 1);
    t.tplName = w.s.tpls[k].name;
    t.tplEbmvCoeff = w.s.dust.start + e * w.s.dust.step;
    t.tplMeiksinIdx = g.pick({-1, -1, 0, 1});
    t.tplAmplitude = g.chance(10) ? 0. : level * g.f(0.05, 1.);
    t.tplAmplitudeError = level * 0.01;
    t.tplAmplitudeSigma = t.tplAmplitude / t.tplAmplitudeError;
    t.tplRedshift = w.z;
    t.tplMerit = 100 + c;
    t.tplMeritPhot = g.pick({0., g.f(0, 10)});
    t.tplLogPrior = g.pick({0., g.f(0, 10)});
    t.tplMtM = 1.;
    t.tplSNR = 10;
    cand.push_back(t);
    which.push_back({k, e});
    g.note("continuum", t.tplName, "ebmv", t.tplEbmvCoeff, "igm", t.tplMeiksinIdx, "amplitude", t.tplAmplitude);
  }
  auto lm = makeFitting();
  if (single)
    lm->setPassMode(1);
  V polynomial;
  std::vector<Result> each;
  bool sane = true;
  // each of them on its own
  for (int c = 0; c < nc; ++c) {
    CTplModelSolution t = cand[c];
    if (g.chance(20))
      t.pCoeffs = {level * g.f(-0.1, 0.1), level * g.f(-1e-5, 1e-5)};
    lm->getContinuumManager()->SetFitContinuum_Option(2);
    lm->getContinuumManager()->SetFitContinuum_FitValues(t);
    Result r = fitAt(*lm, w.z);
    for (size_t o = 0; o < w.s.obs.size(); ++o) {
      auto &ob = w.s.obs[o];
      for (size_t k = 0; k < ob.d.x.size(); ++k) {
        if (!inRange(ob, k))
          continue;
        double x = ob.d.x[k];
        int igm = t.tplMeiksinIdx;
        double e = t.tplAmplitude * tplValue(w.s, w.s.tpls[which[c].first], w.z, x, t.tplEbmvCoeff > 0 ? which[c].second : -1, igm);
        for (size_t q = 0; q < t.pCoeffs.size(); ++q)
          e += t.pCoeffs[q] * std::pow(x, q);
        REQUIRE_CLOSE(r.cont[o][k], e, 1e-9, 1e-11 * level, "continuum", "candidate", c, "observation", o, "sample", k, "x", x, "rest", x / (1 + w.z));
      }
    }
    auto elt = elements(g, w, r.sol);
    Ref ref = reference(w, offsetsOf(w), elt);
    Data1 d = dataOf(w, r);
    bool borderline = false;
    Fit f = amplitudes(ref, d, borderline);
    checkLines(g, ref, r, borderline || ref.shared ? nullptr : &f, "continuum " + std::to_string(c));
    checkModel(g, ref, r);
    checkMerit(g, w, r, t.tplMeritPhot + t.tplLogPrior);
    sane = sane && f.ok;
    if (t.pCoeffs.empty())
      each.push_back(r);
    else {
      lm->getContinuumManager()->SetFitContinuum_FitValues(cand[c]);
      each.push_back(fitAt(*lm, w.z));
      g.label("with a polynomial");
    }
  }
  // all of them
  auto store = std::make_shared<CTemplatesFitStore>(TFloat64List{w.z, w.z + 0.1});
  for (auto &t : cand)
    for (double z : {w.z, w.z + 0.1})
      store->Add(t.tplName, t.tplEbmvCoeff, t.tplMeiksinIdx, z, t.tplMerit, t.tplMeritPhot, t.tplAmplitude, t.tplAmplitudeError, t.tplAmplitudeSigma, 1., t.tplMtM, t.tplLogPrior,
                 t.tplSNR);
  lm->getContinuumManager()->SetFitContinuum_FitStore(store);
  Result r;
  CTplModelSolution c;
  r.merit = lm->fit(w.z, r.sol, c, 0, true);
  int best = 0;
  for (int i = 0; i < (single ? 1 : nc); ++i)
    if (each[i].merit < each[best].merit)
      best = i;
  REQUIRE_(r.merit == each[best].merit, "best continuum", "merit", r.merit, "smallest", each[best].merit, "candidate", best);
  // the continuum left in the model is the best one
  for (auto &o : lm->getSpectraIndex()) {
    (void)o;
    V now = lm->getSpectrumModel().getContinuumFluxAxis().GetSamplesVector();
    const V &was = each[best].cont[lm->getSpectraIndex().get()];
    for (size_t k = 0; k < now.size(); ++k)
      REQUIRE_CLOSE(now[k], was[k], 1e-12, 0, "continuum left by the fit", "candidate", best, "sample", k);
  }
  lm->getSpectraIndex().reset();
  if (!sane)
    return;
  REQUIRE_(c.tplName == cand[best].tplName && c.tplAmplitude == cand[best].tplAmplitude && c.tplEbmvCoeff == cand[best].tplEbmvCoeff &&
               c.tplMeiksinIdx == cand[best].tplMeiksinIdx && c.tplRedshift == w.z,
           "continuum of the solution", c.tplName, c.tplAmplitude, c.tplEbmvCoeff, "expected candidate", best);
  bool line = false;
  for (size_t l = 0; l < w.lines.size(); ++l) {
    double a = r.sol.Amplitudes[l], b = each[best].sol.Amplitudes[l];
    REQUIRE_(a == b || (std::isnan(a) && std::isnan(b)), "lines of the best continuum", "line", l, a, b);
    double fa = r.sol.Flux[l], fb = each[best].sol.Flux[l];
    REQUIRE_(fa == fb || (std::isnan(fa) && std::isnan(fb)), "flux of the best continuum", "line", l, fa, fb);
    line = line || a > 0;
  }
  if (line)
    g.nontrivial();
  if (best > 0)
    g.label("not the first continuum");
}

// ------------------------------------------------------------------------------------------------- store of the continua
PROP("P17", continua, 2000, 40000) {
  V z;
  int nz = g.i(1, 6), nc = g.i(1, 6);
  for (int i = 0; i < nz; ++i)
    z.push_back((i ? z.back() : 0.) + g.logf(1e-4, 0.5));
  CTemplatesFitStore store(z);
  struct C {
    double merit, sigma;
    int id;
  };
  std::vector<std::vector<C>> all(nz);
  int id = 0;
  std::vector<int> order;
  for (int i = 0; i < nz; ++i)
    for (int k = 0; k < nc; ++k)
      order.push_back(i);
  g.shuffle(order);
  for (int i : order) {
    C c{double(g.i(0, 5)), double(g.i(-3, 3)), id++};
    store.Add("t" + std::to_string(c.id), 0.1, 1, z[i], c.merit, 0., 2. * c.id, 1., c.sigma, 3., 4., 5., 6.);
    all[i].push_back(c);
    g.note("z", i, "merit", c.merit, "sigma", c.sigma);
  }
  REQUIRE_(store.GetContinuumCount() == nc, "number of continua", store.GetContinuumCount());
  for (int i = 0; i < nz; ++i) {
    std::stable_sort(all[i].begin(), all[i].end(), [](const C &a, const C &b) {
      return a.merit != b.merit ? a.merit < b.merit : std::fabs(a.sigma) > std::fabs(b.sigma);
    });
    for (int k = 0; k < nc; ++k) {
      const CTplModelSolution &a = store.GetFitValues(z[i], k), &b = store.GetFitValues(i, k);
      REQUIRE_(a.tplMerit == all[i][k].merit && std::fabs(a.tplAmplitudeSigma) == std::fabs(all[i][k].sigma), "order of the continua", "z", i, "rank", k,
               a.tplMerit, a.tplAmplitudeSigma);
      REQUIRE_(a.tplName == b.tplName && a.tplRedshift == z[i], "continuum by redshift or index", i, k);
      int q = std::stoi(a.tplName.substr(1));
      REQUIRE_(a.tplAmplitude == 2. * q && order[q] == i, "values of a continuum", a.tplName);
    }
  }
  for (int k : {-1, nc}) {
    bool refused = false;
    try {
      store.GetFitValues(z[0], k);
    } catch (const AmzException &) {
      refused = true;
    }
    REQUIRE_(refused, "continuum which does not exist", k);
  }
  for (double x : {z[0] - 1e-6, z.back() + 1e-6, z[0] + 1e-6}) {
    bool refused = false;
    try {
      store.GetFitValues(x, 0);
    } catch (const AmzException &) {
      refused = true;
    }
    REQUIRE_(refused, "redshift out of the grid", x);
  }
  double zm = -1;
  CTplModelSolution best;
  double top = store.FindMaxAmplitudeSigma(zm, best), expected = -INFINITY;
  for (int i = 0; i < nz; ++i)
    expected = std::max(expected, store.GetFitValues(i, 0).tplAmplitudeSigma);
  REQUIRE_(top == expected && best.tplAmplitudeSigma == expected && best.tplRedshift == zm, "most significant continuum", top, expected);
  if (nc > 1)
    g.nontrivial();
}
