// Template catalogue: a model of its four views under any sequence of operations.
#include "world.h"
#include "pbt.h"

#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"

using namespace NSEpic;
using namespace util;
using namespace world;
using pbt::Ctx;

namespace {
// any exception: the standard containers' own are part of the interface here
bool refused(const std::function<void()> &fn) {
  try {
    fn();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
using Ptr = std::shared_ptr<CTemplate>;
struct Model {
  std::map<std::string, std::vector<Ptr>> v[2][2]; // ortho, log
  double width = NAN;
  int count(const std::string &c, int o, int l) const {
    auto it = v[o][l].find(c);
    return it == v[o][l].end() ? 0 : int(it->second.size());
  }
  static bool none(const std::vector<Ptr> &x) {
    for (auto &p : x)
      if (p)
        return false;
    return true;
  }
  // the views derived from a view: ortho of the same sampling, and from the original the log-sampled ones too
  static std::vector<std::pair<int, int>> derived(int o, int l) {
    if (o)
      return {};
    if (l)
      return {{1, 1}};
    return {{1, 0}, {0, 1}, {1, 1}};
  }
  void purge(const std::string &c, int o, int l) {
    bool had = count(c, o, l);
    if (had)
      v[o][l][c].clear();
    if (had && o && !count(c, 1, !l))
      width = NAN;
  }
  void clearAll(const std::string &c, int o, int l) {
    if (!count(c, o, l))
      return;
    purge(c, o, l);
    for (auto &d : derived(o, l))
      purge(c, d.first, d.second);
  }
  void clear(const std::string &c, int o, int l, int i) {
    if (!count(c, o, l))
      return;
    v[o][l][c][i] = nullptr;
    for (auto &d : derived(o, l))
      if (count(c, d.first, d.second))
        v[d.first][d.second][c][i] = nullptr;
    auto views = derived(o, l);
    views.push_back({o, l});
    bool empty = none(v[o][l][c]); // a view without any template left is emptied, and what derives from it
    for (auto &d : views)
      if (empty || none(v[d.first][d.second][c]))
        purge(c, d.first, d.second);
  }
  void set(const Ptr &t, const std::string &c, int o, int l, int i) {
    int n = count(c, o, l);
    clear(c, o, l, i);
    if (!n)
      v[o][l][c].push_back(t);
    else {
      v[o][l][c].resize(n);
      v[o][l][c][i] = t;
    }
  }
};

struct State {
  CTemplateCatalog cat;
  Model m;
  int made = 0;
  V content(int k) const { return V{1. * k, 2. * k + 1, 7., 3. - k}; }
  Ptr make(const std::string &c, std::string name = "") {
    V x{1000., 1001. + made, 1200. + made, 1300. + 2 * made};
    auto t = std::make_shared<CTemplate>(name.empty() ? "t" + std::to_string(made) : name, c, CSpectrumSpectralAxis(x),
                                         CSpectrumFluxAxis(content(made)));
    ++made;
    return t;
  }
};
const std::vector<std::string> CATS = {"galaxy", "qso", "star"};

void compare(Ctx &g, State &s) {
  auto &k = s.cat;
  const CTemplateCatalog &c = s.cat;
  bool log = k.m_logsampling, ortho = k.m_orthogonal;
  for (int o = 0; o < 2; ++o)
    for (int l = 0; l < 2; ++l) {
      std::vector<Ptr> every;
      for (auto &cat : CATS) {
        const auto &want = s.m.v[o][l].count(cat) ? s.m.v[o][l].at(cat) : std::vector<Ptr>();
        every.insert(every.end(), want.begin(), want.end());
        REQUIRE_(c.GetTemplateCount(cat, o, l) == int(want.size()), "count", cat, " ", o, l, " ", c.GetTemplateCount(cat, o, l), " for ",
                 want.size());
        for (size_t i = 0; i < want.size(); ++i)
          REQUIRE_(c.GetTemplate(cat, i, o, l) == want[i], "template", cat, " ", o, l, " at ", i);
        REQUIRE_(refused([&] { c.GetTemplate(cat, int(want.size()), o, l); }), "past the end", "");
        // by name: the first of that name in the categories asked for, in their order
        for (auto &t : want)
          if (t) {
            auto got = c.GetTemplateByName({"nothing", cat}, t->GetName(), o, l);
            Ptr first;
            for (auto &u : want)
              if (u && u->GetName() == t->GetName() && !first)
                first = u;
            REQUIRE_(got == first, "by name", t->GetName());
            bool other = false;
            for (auto &oc : CATS)
              if (oc != cat && s.m.v[o][l].count(oc))
                for (auto &u : s.m.v[o][l].at(oc))
                  other = other || (u && u->GetName() == t->GetName());
            if (!other) {
              TStringList rest;
              for (auto &oc : CATS)
                if (oc != cat)
                  rest.push_back(oc);
              REQUIRE_(refused([&] { c.GetTemplateByName(rest, t->GetName(), o, l); }), "by name elsewhere", t->GetName());
            }
          }
      }
      REQUIRE_(refused([&] { c.GetTemplateByName(CATS, "no such template", o, l); }), "by unknown name", "");
      // the same through the current view
      k.m_orthogonal = o;
      k.m_logsampling = l;
      TStringList order = CATS;
      order.insert(order.begin() + 1, "nothing");
      auto list = c.GetTemplateList(order);
      auto mutableList = k.GetTemplateList(order);
      REQUIRE_(list.size() == every.size() && mutableList.size() == every.size(), "list", "");
      for (size_t i = 0; i < every.size(); ++i)
        REQUIRE_(list[i] == every[i] && mutableList[i] == every[i], "list", "at ", i);
      if (o) {
        auto ol = c.GetOrthoTemplateList(order, l);
        REQUIRE_(ol.size() == every.size() && std::equal(ol.begin(), ol.end(), every.begin()), "ortho list", "");
      }
      TStringList names = c.GetCategoryList();
      for (auto &cat : CATS) {
        REQUIRE_(c.GetTemplateCount(cat) == s.m.count(cat, o, l), "current count", cat);
        int nn = 0;
        if (s.m.v[o][l].count(cat))
          for (auto &t : s.m.v[o][l].at(cat))
            nn += bool(t);
        REQUIRE_(c.GetNonNullTemplateCount(cat) == nn, "non-null count", cat, " ", o, l);
        bool listed = std::count(names.begin(), names.end(), cat);
        REQUIRE_(listed || !s.m.count(cat, o, l), "categories", cat);
        if (s.m.v[o][l].count(cat))
          for (size_t i = 0; i < s.m.v[o][l].at(cat).size(); ++i)
            REQUIRE_(c.GetTemplate(cat, i) == s.m.v[o][l].at(cat)[i], "current template", cat);
      }
      for (auto &n : names)
        REQUIRE_(s.m.v[o][l].count(n), "categories", n);
    }
  k.m_logsampling = log;
  k.m_orthogonal = ortho;
  REQUIRE_(std::isnan(s.m.width) == std::isnan(k.m_ortho_LSFWidth), "orthogonal width", k.m_ortho_LSFWidth);
}
} // namespace

PROP("P19", history, 1500, 40000) {
  State s;
  int cleared = 0, ops = g.i(1, 25);
  for (int step = 0; step < ops; ++step) {
    std::string cat = g.pickv(CATS);
    int o = g.i(0, 1), l = g.i(0, 1);
    auto current = [&] {
      s.cat.m_orthogonal = o;
      s.cat.m_logsampling = l;
    };
    int base = s.m.count(cat, 0, 0);
    switch (g.i(0, 7)) {
    case 0:
    case 1: { // load originals (the derived versions are made afterwards)
      if (s.m.count(cat, 0, 1) || s.m.count(cat, 1, 0) || s.m.count(cat, 1, 1))
        break;
      o = l = 0;
      current();
      int n = g.i(1, 3);
      for (int i = 0; i < n; ++i) {
        auto t = s.make(cat, g.chance(10) ? "same" : "");
        s.cat.Add(t);
        s.m.v[0][0][cat].push_back(t);
      }
      g.note("load ", n, " ", cat);
      break;
    }
    case 2:
    case 3: { // derive one view, all templates at once
      if (!base || s.m.count(cat, o, l) || (o && l && !s.m.count(cat, 0, 1)))
        break;
      current();
      g.note("derive ", cat, " ortho ", o, " log ", l);
      const auto &src = s.m.v[0][l && o ? 1 : 0][cat];
      if (src.size() > 1 && Model::none({src[0]}))
        break; // lists with gaps are completed one by one, below
      bool gap = false;
      for (auto &t : src)
        gap = gap || !t;
      if (gap)
        break;
      for (auto &t : src) {
        auto d = s.make(cat, t->GetName());
        s.cat.Add(d);
        s.m.v[o][l][cat].push_back(d);
      }
      if (o) {
        s.cat.m_ortho_LSFWidth = 2.;
        s.m.width = 2.;
      }
      break;
    }
    case 4: { // replace, or put back, one template
      int n = s.m.count(cat, o, l);
      if (!n)
        break;
      current();
      int i = g.i(0, n - 1);
      auto t = s.make(cat);
      g.note("set ", cat, " ortho ", o, " log ", l, " at ", i);
      s.cat.SetTemplate(t, i);
      s.m.set(t, cat, o, l, i);
      ++cleared;
      break;
    }
    case 5: {
      int n = s.m.count(cat, o, l);
      int i = n ? g.i(0, n - 1) : g.i(0, 3);
      g.note("clear ", cat, " ortho ", o, " log ", l, " at ", i);
      if (g.b())
        current();
      s.cat.ClearTemplates(cat, o, l, i);
      s.m.clear(cat, o, l, i);
      cleared += n > 0;
      break;
    }
    case 6:
      g.note("clear all ", cat, " ortho ", o, " log ", l);
      s.cat.ClearTemplateList(cat, o, l);
      cleared += s.m.count(cat, o, l) > 0;
      s.m.clearAll(cat, o, l);
      break;
    default: { // refused operations leave everything as it was
      current();
      auto bad = s.make("");
      REQUIRE_(refused([&] { s.cat.Add(bad); }), "no category", "");
      int n = s.m.count(cat, o, l);
      if (n) {
        auto t = s.make(cat);
        REQUIRE_(refused([&] { s.cat.SetTemplate(t, n + g.i(0, 2)); }), "set past the end", "");
        REQUIRE_(refused([&] { s.cat.ClearTemplates(cat, o, l, n); }), "clear past the end", "");
      } else { // the first of a category
        if (o || l || g.b())
          break;
        auto t = s.make(cat);
        g.note("set first ", cat);
        s.cat.SetTemplate(t, 0);
        s.m.set(t, cat, o, l, 0);
      }
    }
    }
    compare(g, s);
    if (g.chance(20)) {
      s.cat.resetCatalogState();
      REQUIRE_(!s.cat.m_logsampling && !s.cat.m_orthogonal, "state", "");
    }
  }
  // the templates were not touched
  for (int o = 0; o < 2; ++o)
    for (int l = 0; l < 2; ++l)
      for (auto &c : s.m.v[o][l])
        for (auto &t : c.second)
          if (t) {
            int k = int(t->GetSpectralAxis()[1] - 1001);
            REQUIRE_(t->GetFluxAxis().GetSamplesVector() == s.content(k) && t->GetCategory() == c.first, "content", "");
          }
  g.nontrivial(cleared > 0 && s.made > 3);
}

PROP("P19", extinction, 300, 4000) {
  // corrections are given to the templates of exactly the categories whose parameters ask for them
  std::string json = "{";
  std::map<std::string, std::pair<bool, bool>> want;
  for (size_t i = 0; i < CATS.size(); ++i) {
    std::string method = g.pick({"templateFittingSolve", "tplCombinationSolve", "lineModelSolve", "none"});
    bool ism = g.b(), igm = g.b(), ratio = g.b(), present = g.chance(85);
    std::string b[2] = {"false", "true"}, body;
    if (method == "lineModelSolve")
      body = "\"lineModel\": {" +
             std::string(present ? "\"continuumFit\": {\"ismFit\": " + b[ism] + ", \"igmFit\": " + b[igm] + "}, " : "") +
             "\"tplRatioIsmFit\": " + b[ratio] + "}";
    else if (present)
      body = "\"ismFit\": " + b[ism] + ", \"igmFit\": " + b[igm];
    want[CATS[i]] = {method == "none" ? false : (present && ism) || (method == "lineModelSolve" && ratio),
                     method != "none" && present && igm};
    json += (i ? ", " : "") + ("\"" + CATS[i] + "\": {" + (method == "none" ? "\"stages\": []" : "\"redshiftSolver\": {\"method\": \"" + method + "\", \"" + method + "\": {" + body + "}}") + "}");
  }
  double win = g.f(10, 200);
  bool even = g.b();
  std::string how = g.pick({"irregularSamplingMedian", "zero", "raw"});
  json += ", \"templateCatalog\": {\"continuumRemoval\": {\"method\": \"" + how + "\", \"medianKernelWidth\": " + std::to_string(win) +
          ", \"medianEvenReflection\": " + (even ? "true" : "false") + "}}}";
  g.note(json);
  auto stack = std::make_shared<CScopeStack>();
  auto store = std::make_shared<CParameterStore>(stack);
  store->FromString(json);
  State s;
  for (auto &c : CATS)
    for (int i = g.i(0, 3); i > 0; --i)
      s.cat.Add(s.make(c));
  auto igm = makeIgm(g, 1200.).obj;
  auto ism = makeDust(g).obj;
  s.cat.SetIsmIgmCorrection(store, igm, ism);
  s.cat.InitContinuumRemoval(store);
  bool some = false;
  for (auto &c : CATS)
    for (int i = 0; i < s.cat.GetTemplateCount(c); ++i) {
      auto t = s.cat.GetTemplate(c, i);
      REQUIRE_(t->CalzettiInitFailed() != want[c].first && t->MeiksinInitFailed() != want[c].second, "correction", c);
      REQUIRE_(!want[c].first || t->m_ismCorrectionCalzetti == ism, "dust object", "");
      REQUIRE_(!want[c].second || t->m_igmCorrectionMeiksin == igm, "igm object", "");
      REQUIRE_(t->GetContinuumEstimationMethod() == how && t->GetMedianWinsize() == std::stod(std::to_string(win)) &&
                   t->GetMedianEvenReflection() == even,
               "continuum removal", t->GetContinuumEstimationMethod(), " ", t->GetMedianWinsize());
      some = true;
    }
  g.nontrivial(some);
}
