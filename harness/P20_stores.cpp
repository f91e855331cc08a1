// Scopes, parameters and results: models of the stack and of the two stores.
#include "util.h"
#include "pbt.h"

#include "RedshiftLibrary/linemodel/linemodelextremaresult.h"
#include "RedshiftLibrary/linemodel/linemodelsolution.h"
#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/method/reliabilityresult.h"
#include "RedshiftLibrary/operator/extremaresult.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/operator/modelphotvalueresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/tplCombinationExtremaResult.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"

using namespace NSEpic;
using namespace util;
using pbt::Ctx;

namespace {
bool refused(const std::function<void()> &fn) {
  try {
    fn();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
typedef std::vector<std::pair<std::string, ScopeType>> Path;
std::string joined(const Path &p, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += (i ? "." : "") + p[i].first;
  return s;
}
std::string dotted(const std::string &a, const std::string &b) { return a.empty() ? b : a + "." + b; }
int levelOf(const Path &p, ScopeType t) {
  for (size_t i = 0; i < p.size(); ++i)
    if (p[i].second == t)
      return int(i);
  return -1;
}
const ScopeType TYPES[] = {ScopeType::SPECTRUMMODEL, ScopeType::STAGE, ScopeType::METHOD};
// the rules of typed scopes
bool allowed(const Path &p, ScopeType t) {
  if (t == ScopeType::UNDEFINED)
    return true;
  if (levelOf(p, t) >= 0)
    return false;
  int stage = levelOf(p, ScopeType::STAGE);
  if (t == ScopeType::SPECTRUMMODEL)
    return stage < 0;
  if (t == ScopeType::STAGE)
    return levelOf(p, ScopeType::METHOD) < 0;
  return stage >= 0 && stage + 1 == int(p.size());
}
ScopeType someType(Ctx &g) { return g.pick({ScopeType::UNDEFINED, ScopeType::SPECTRUMMODEL, ScopeType::STAGE, ScopeType::METHOD}); }
const std::vector<std::string> NAMES = {"galaxy", "qso", "redshiftSolver", "lineModelSolve", "lineModel", "a", "b"};

void compareStack(const CScopeStack &s, const CScopeStore &st, const Path &p) {
  REQUIRE_(s.size() == p.size() && s.empty() == p.empty(), "size", s.size(), " for ", p.size());
  for (size_t i = 0; i < p.size(); ++i)
    REQUIRE_(s[i] == p[i].first && s.at(i) == p[i].first && *(s.begin() + i) == p[i].first, "scope", "at ", i);
  if (!p.empty())
    REQUIRE_(s.front() == p.front().first && s.back() == p.back().first && s.get_current_type() == p.back().second, "ends", "");
  for (auto t : TYPES) {
    int l = levelOf(p, t);
    REQUIRE_(s.has_type(t) == (l >= 0), "type", t);
    if (l >= 0) {
      REQUIRE_(s.get_type_level(t) == size_t(l) && s.get_type_value(t) == p[l].first, "type", t);
      REQUIRE_(st.GetScopedNameAt("x", t) == joined(p, l + 1) + ".x", "scoped at type", t);
    } else
      REQUIRE_(refused([&] { s.get_type_value(t); }) && refused([&] { st.GetScopedNameAt("x", t); }), "absent type", t);
  }
  REQUIRE_(st.GetCurrentScopeName() == joined(p, p.size()) && st.GetScopedName("x") == dotted(joined(p, p.size()), "x"), "name", "");
  for (size_t d = 0; d <= p.size(); ++d)
    REQUIRE_(st.getCurrentScopeNameAt(int(d)) == joined(p, d) && st.GetScopedNameAt("x", int(d)) == dotted(joined(p, d), "x"), "name at",
             d);
  REQUIRE_(throws([&] { st.getCurrentScopeNameAt(int(p.size()) + 1); }), "too deep", "");
  REQUIRE_(st.getScopeDepth() == p.size(), "depth", "");
}

struct Scopes {
  Ctx &g;
  std::shared_ptr<CScopeStack> stack = std::make_shared<CScopeStack>();
  CParameterStore store{stack};
  Path path;
  int left = 40, interrupted = 0, refusals = 0;
  void run(int depth) {
    compareStack(*stack, store, path);
    while (left > 0 && g.chance(70)) {
      --left;
      std::string name = g.pickv(NAMES);
      ScopeType type = someType(g);
      if (!allowed(path, type)) {
        ++refusals;
        REQUIRE_(throws([&] { CAutoScope s(stack, name, type, false); }), "rule", name, " ", type, " in ", joined(path, path.size()));
        compareStack(*stack, store, path);
        continue;
      }
      size_t n = path.size();
      try {
        CAutoScope s(stack, name, type, g.b());
        path.emplace_back(name, type);
        if (depth < 6)
          run(depth + 1);
        if (g.chance(15))
          throw std::runtime_error("interrupted");
        path.pop_back();
      } catch (const std::runtime_error &) {
        ++interrupted;
        bool again = !path.empty() && n > 0 && g.chance(40);
        path.resize(n);
        if (again) {
          compareStack(*stack, store, path);
          throw;
        }
      }
      compareStack(*stack, store, path);
    }
  }
};
} // namespace

PROP("P20", scopes, 1500, 40000) {
  Scopes s{g};
  s.run(0);
  g.note(40 - s.left, " scopes, ", s.interrupted, " interrupted, ", s.refusals, " refused");
  g.nontrivial(s.interrupted > 0 || s.refusals > 0);
  compareStack(*s.stack, s.store, Path());
}

namespace {
struct Value {
  int kind = 0; // 0 double 1 int 2 bool 3 string 4 doubles 5 ints 6 bools 7 strings 8 range
  double d = 0;
  long i = 0;
  bool b = false;
  std::string s;
  TFloat64List dl;
  TInt64List il;
  TBoolList bl;
  TStringList sl;
};
std::string word(Ctx &g) {
  return g.pick({"", "lineModel", "x y", "1.5", "true", "\\u00e9", "a.b", "raw", "irregular/sampling", "\"q\""});
}
double number(Ctx &g) { return g.pick({0., g.f(-10, 10), g.logf(1e-20, 1e20), -0.1, 1. / 3., 1e-300, 1e6}); }
Value value(Ctx &g) {
  Value v;
  v.kind = g.i(0, 8);
  v.d = number(g);
  v.i = g.pick({0, -1, 7, 123456789});
  if (g.chance(20))
    v.i = 9007199254740993L;
  v.b = g.b();
  v.s = word(g);
  for (int n = v.kind == 8 ? 2 : g.i(1, 4); n > 0; --n) {
    v.dl.push_back(number(g));
    v.il.push_back(g.i(-5, 5));
    v.bl.push_back(g.b());
    v.sl.push_back(word(g));
  }
  if (v.kind == 8)
    std::sort(v.dl.begin(), v.dl.end());
  return v;
}
void put(CParameterStore &p, const std::string &name, const Value &v) {
  switch (v.kind) {
  case 0:
    return p.Set(name, v.d);
  case 1:
    return p.Set(name, Int64(v.i));
  case 2:
    return p.Set(name, v.b);
  case 3:
    return p.Set(name, v.s);
  case 4:
    return p.Set(name, v.dl);
  case 5:
    return p.Set(name, v.il);
  case 6:
    return p.Set(name, v.bl);
  case 7:
    return p.Set(name, v.sl);
  default:
    return p.Set(name, TFloat64Range(v.dl[0], v.dl[1]));
  }
}
std::string quote(const std::string &s) {
  std::string o = "\"";
  for (char c : s)
    o += (c == '"' || c == '\\') ? std::string("\\") + c : std::string(1, c);
  return o + "\"";
}
template <class L, class F> std::string listOf(const L &l, F f) {
  std::string o = "[";
  for (size_t i = 0; i < l.size(); ++i)
    o += (i ? ", " : "") + f(l[i]);
  return o + "]";
}
std::string json(const Value &v) {
  auto num = [](double d) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return std::string(b);
  };
  switch (v.kind) {
  case 0:
    return num(v.d);
  case 1:
    return std::to_string(v.i);
  case 2:
    return v.b ? "true" : "false";
  case 3:
    return quote(v.s);
  case 5:
    return listOf(v.il, [](long i) { return std::to_string(i); });
  case 6:
    return listOf(v.bl, [](bool b) { return std::string(b ? "true" : "false"); });
  case 7:
    return listOf(v.sl, quote);
  default:
    return listOf(v.dl, num);
  }
}
struct Node {
  std::map<std::string, Node> sub;
  bool leaf = false;
  Value v;
  std::string text() const {
    if (leaf)
      return json(v);
    std::string o = "{";
    for (auto &s : sub)
      o += (o.size() > 1 ? ", " : "") + quote(s.first) + ": " + s.second.text();
    return o + "}";
  }
};
typedef std::map<std::string, Value> Flat;

bool hasAny(const CParameterStore &p, int kind, const std::string &n) {
  switch (kind) {
  case 0:
    return p.Has<Float64>(n);
  case 1:
    return p.Has<Int64>(n);
  case 2:
    return p.Has<bool>(n);
  default:
    return p.Has<std::string>(n);
  }
}

// read name in every way; want is its value or null
void readBack(const CParameterStore &p, const std::string &name, const Value *want, const std::function<std::string(const char *)> &where) {
  ErrorCode code = ErrorCode::INTERNAL_ERROR;
  if (!want) {
    for (int k = 0; k < 4; ++k)
      REQUIRE_(!hasAny(p, k, name), "has missing", name);
    REQUIRE_(throws([&] { p.Get<Float64>(name); }, &code) && code == ErrorCode::MISSING_PARAMETER, "get missing", name);
    REQUIRE_(throws([&] { p.Get<std::string>(name); }, &code) && code == ErrorCode::MISSING_PARAMETER, "get missing", name);
    REQUIRE_(throws([&] { p.GetList<Float64>(name); }, &code) && code == ErrorCode::MISSING_PARAMETER, "list missing", name);
    REQUIRE_(throws([&] { p.Get<TFloat64Range>(name); }), "range missing", name);
    return;
  }
  const Value &v = *want;
  for (int k = 0; k < 4; ++k)
    REQUIRE_(hasAny(p, k, name), "has", name);
  switch (v.kind) {
  case 0:
    REQUIRE_(p.Get<Float64>(name) == v.d, "double", name, " ", p.Get<Float64>(name), " for ", v.d);
    REQUIRE_(throws([&] { p.Get<bool>(name); }, &code) || v.d == 0 || v.d == 1, "wrong type", name);
    break;
  case 1:
    REQUIRE_(p.Get<Int64>(name) == v.i && p.Get<Float64>(name) == double(v.i), "int", name);
    break;
  case 2:
    REQUIRE_(p.Get<bool>(name) == v.b, "bool", name);
    REQUIRE_(throws([&] { p.Get<Float64>(name); }) || true, "bool", "");
    break;
  case 3:
    REQUIRE_(p.Get<std::string>(name) == v.s, "string", name, " '", p.Get<std::string>(name), "'");
    if (v.s == "lineModel" || v.s.empty())
      REQUIRE_(throws([&] { p.Get<Float64>(name); }, &code) && throws([&] { p.Get<bool>(name); }, &code), "wrong type", name);
    break;
  case 4:
    REQUIRE_(p.GetList<Float64>(name) == v.dl, "doubles", name);
    break;
  case 5:
    REQUIRE_(p.GetList<Int64>(name) == v.il, "ints", name);
    break;
  case 6:
    REQUIRE_(p.GetList<bool>(name) == v.bl, "bools", name);
    break;
  case 7:
    REQUIRE_(p.GetList<std::string>(name) == v.sl, "strings", name);
    break;
  default: {
    auto r = p.Get<TFloat64Range>(name);
    REQUIRE_(r.GetBegin() == v.dl[0] && r.GetEnd() == v.dl[1] && p.GetList<Float64>(name) == v.dl, "range", name);
  }
  }
}
// a scoped read of a scalar, as text; or "missing" / "error"
template <class F> std::string scalar(int kind, F get) {
  std::ostringstream o;
  ErrorCode code;
  o.precision(17);
  bool t = throws(
      [&] {
        if (kind == 0)
          o << get(Float64());
        else if (kind == 1)
          o << get(Int64());
        else if (kind == 2)
          o << get(bool());
        else
          o << get(std::string());
      },
      &code);
  return t ? (code == ErrorCode::MISSING_PARAMETER ? "missing" : "error") : o.str();
}
std::string text(const Value &v) {
  return scalar(v.kind, [&](auto x) -> decltype(x) {
    if constexpr (std::is_same_v<decltype(x), std::string>)
      return v.s;
    else if constexpr (std::is_same_v<decltype(x), bool>)
      return v.b;
    else if constexpr (std::is_same_v<decltype(x), Int64>)
      return v.i;
    else
      return v.d;
  });
}
} // namespace

PROP("P20", parameters, 1500, 40000) {
  auto stack = std::make_shared<CScopeStack>();
  CParameterStore p(stack);
  Flat flat;
  Node root;
  int n = g.i(1, 25);
  for (int i = 0; i < n; ++i) {
    Node *at = &root;
    std::string full;
    int depth = g.i(0, 4);
    for (int d = 0; d < depth; ++d) {
      std::string s = g.pickv(NAMES);
      full = dotted(full, s);
      at = &at->sub[s];
    }
    std::string leaf = g.pick({"x", "ismFit", "step", "range"}); // never the name of a section
    Node &l = at->sub[leaf];
    l.leaf = true;
    l.v = value(g);
    flat[dotted(full, leaf)] = l.v;
  }
  bool fromJson = g.b();
  if (fromJson) {
    std::string text = root.text();
    g.note(text);
    if (g.b())
      p.Set("stale.value", 3.); // reading a text replaces what was there
    p.FromString(text);
    REQUIRE_(!p.Has<Float64>("stale.value"), "stale", "");
  } else {
    g.note(n, " parameters set: ", root.text());
    for (auto &f : flat) {
      if (g.chance(30)) { // set again with the same type
        Value old = value(g);
        old.kind = f.second.kind;
        if (old.kind == 8)
          old.dl = {1., 2.};
        put(p, f.first, old);
      }
      put(p, f.first, f.second);
    }
  }
  auto where = [](const char *s) { return std::string(s); };
  for (auto &f : flat)
    readBack(p, f.first, &f.second, where);
  // any scope, any name
  int found = 0, missing = 0;
  std::vector<std::string> leaves = {"x", "ismFit", "step", "range", "never"};
  Path path;
  for (int q = 0; q < 12; ++q) {
    while (!path.empty() && g.chance(40)) {
      stack->pop_back();
      path.pop_back();
    }
    while (path.size() < 5 && g.chance(60)) {
      std::string s = g.pickv(NAMES);
      ScopeType t = someType(g);
      if (!allowed(path, t))
        t = ScopeType::UNDEFINED;
      stack->push_back(s, t);
      path.emplace_back(s, t);
    }
    std::string name = g.pickv(leaves), here = joined(path, path.size());
    if (g.b()) { // aim at one that exists, seen from one of its sections
      auto e = flat.begin();
      std::advance(e, g.i(0, int(flat.size()) - 1));
      std::vector<std::string> parts;
      std::istringstream is(e->first);
      for (std::string x; std::getline(is, x, '.');)
        parts.push_back(x);
      size_t d = g.i(0, int(parts.size()) - 1);
      while (!path.empty()) {
        stack->pop_back();
        path.pop_back();
      }
      for (size_t i = 0; i < d; ++i) {
        ScopeType t = someType(g);
        if (!allowed(path, t))
          t = ScopeType::UNDEFINED;
        stack->push_back(parts[i], t);
        path.emplace_back(parts[i], t);
      }
      name = parts[d];
      for (size_t i = d + 1; i < parts.size(); ++i)
        name += "." + parts[i];
      here = joined(path, path.size());
    } else if (g.chance(30))
      name = g.pickv(NAMES) + "." + name;
    auto it = flat.find(dotted(here, name));
    const Value *v = it == flat.end() ? nullptr : &it->second;
    (v ? found : missing)++;
    readBack(p, dotted(here, name), v, where);
    REQUIRE_(p.HasScoped<Float64>(name) == bool(v) && p.HasScoped<std::string>(name) == bool(v), "has scoped", name, " in ", here);
    int kind = v ? v->kind : g.i(0, 3);
    if (kind < 4) {
      std::string want = v ? text(*v) : "missing";
      std::string got = scalar(kind, [&](auto x) { return p.GetScoped<decltype(x)>(name); });
      REQUIRE_(got == want, "scoped", name, " in '", here, "': ", got, " for ", want);
    }
    for (size_t d = 0; d <= path.size(); ++d) {
      auto o = flat.find(dotted(joined(path, d), name));
      const Value *w = o == flat.end() ? nullptr : &o->second;
      REQUIRE_(p.HasScopedAt<bool>(name, int(d)) == bool(w), "has at depth", name, " ", d);
      int k = w ? w->kind : g.i(0, 3);
      if (k < 4)
        REQUIRE_(scalar(k, [&](auto x) { return p.GetScopedAt<decltype(x)>(name, int(d)); }) == (w ? text(*w) : "missing"), "at depth",
                 name, " ", d);
      for (auto t : TYPES)
        if (k < 4 && levelOf(path, t) + 1 == int(d) && d > 0)
          REQUIRE_(scalar(k, [&](auto x) { return p.GetScopedAt<decltype(x)>(name, t); }) == (w ? text(*w) : "missing"), "at type", name,
                   " ", t);
    }
    for (auto t : TYPES)
      if (levelOf(path, t) < 0)
        REQUIRE_(refused([&] { p.GetScopedAt<Float64>(name, t); }), "at absent type", t);
    // lists: of the scope, else of the root
    auto r = flat.find(name);
    const Value *lv = v ? v : r == flat.end() ? nullptr : &r->second;
    if (!lv)
      REQUIRE_(throws([&] { p.GetListScoped<Float64>(name); }), "list scoped missing", name);
    else if (lv->kind == 4 || lv->kind == 8)
      REQUIRE_(p.GetListScoped<Float64>(name) == lv->dl, "list scoped", name);
    else if (lv->kind == 7)
      REQUIRE_(p.GetListScoped<std::string>(name) == lv->sl, "list scoped", name);
  }
  g.nontrivial(found > 0 && missing > 0 && flat.size() > 2);
  // nothing changed by reading
  for (auto &f : flat)
    readBack(p, f.first, &f.second, where);
}

PROP("P20", choices, 400, 6000) {
  // what the solver parameters ask for, per spectrum model
  std::map<std::string, bool> fft, ortho, enabled;
  std::map<std::string, double> step;
  std::string text = "{", b[2] = {"false", "true"};
  std::vector<std::string> cats = {"galaxy", "qso", "star"};
  for (auto &c : cats) {
    std::string m = g.pick({"templateFittingSolve", "tplCombinationSolve", "lineModelSolve", ""});
    bool f = g.b(), present = g.chance(80), ignore = g.b();
    std::string cont = g.pick({"tplFit", "tplFitAuto", "fromSpectrum", "noContinuum", "powerLaw"});
    step[c] = g.logf(1e-5, 1e-2);
    char num[40];
    snprintf(num, sizeof num, "%.17g", step[c]);
    text += (text.size() > 1 ? ", " : "") + quote(c) + ": {\"redshiftStep\": " + num;
    std::string p = present ? "\"fftProcessing\": " + b[f] : "";
    if (m == "lineModelSolve")
      text += ", \"redshiftSolver\": {\"method\": \"lineModelSolve\", \"lineModelSolve\": {\"lineModel\": {\"continuumComponent\": " +
              quote(cont) + ", \"continuumFit\": {\"ignoreLineSupport\": " + b[ignore] + (present ? ", " : "") + p + "}}}}";
    else if (!m.empty())
      text += ", \"redshiftSolver\": {\"method\": " + quote(m) + ", " + quote(m) + ": {" + p + "}}";
    text += "}";
    bool lm = m == "lineModelSolve";
    fft[c] = present && f && (lm || m == "templateFittingSolve");
    ortho[c] = lm && (cont == "tplFit" || cont == "tplFitAuto");
    enabled[c] = ortho[c] && !ignore;
  }
  text += "}";
  g.note(text);
  CParameterStore p(std::make_shared<CScopeStack>());
  p.FromString(text);
  double least = DBL_MAX;
  bool any = false;
  for (auto &c : cats) {
    REQUIRE_(p.HasFFTProcessing(c) == fft[c], "fft", c);
    REQUIRE_(p.HasToOrthogonalizeTemplates(c) == ortho[c], "orthogonalise", c);
    REQUIRE_(p.EnableTemplateOrthogonalization(c) == enabled[c], "enable", c);
    if (fft[c])
      least = std::min(least, step[c]);
    any = any || fft[c];
  }
  std::map<std::string, bool> got;
  REQUIRE_(p.hasToLogRebin(cats, got) == any && got == fft, "rebin", "");
  REQUIRE_(p.getMinZStepForFFTProcessing(fft) == least, "step", p.getMinZStepForFFTProcessing(fft));
  REQUIRE_(!p.HasFFTProcessing("unknown") && !p.HasToOrthogonalizeTemplates("unknown"), "unknown", "");
  g.nontrivial(any);
}

PROP("P20", results, 1500, 30000) {
  auto stack = std::make_shared<CScopeStack>();
  COperatorResultStore store(stack);
  std::map<std::string, std::shared_ptr<const COperatorResult>> model;
  std::map<std::string, std::map<std::string, std::shared_ptr<const COperatorResult>>> perTpl;
  const std::vector<std::string> models = {"galaxy", "qso", "star"}, stages = {"redshiftSolver", "lineMeasSolver"},
                                 methods = {"lineModelSolve", "templateFittingSolve"},
                                 names = {"solveResult", "extrema_results", "pdf", "warningFlag"};
  V ax{1, 2, 3};
  std::vector<std::shared_ptr<const CTemplate>> tpls;
  for (int i = 0; i < 3; ++i)
    tpls.push_back(std::make_shared<CTemplate>("t" + std::to_string(i), "galaxy", CSpectrumSpectralAxis(ax), CSpectrumFluxAxis(ax)));
  auto candidates = [&](int n) {
    TCandidateZbyRank c;
    for (int i = 0; i < n; ++i) {
      auto z = std::make_shared<TCandidateZ>();
      z->Redshift = 0.1 * i + g.f(0, 0.05);
      c.push_back({"EXT" + std::to_string(i), z});
    }
    return c;
  };
  struct Ranked {
    int kind;
    std::vector<std::shared_ptr<const COperatorResult>> par, mod, fit, cont, phot;
    TCandidateZbyRank z;
  };
  std::map<std::string, Ranked> ranked;
  auto key = [](const std::string &a, const std::string &b, const std::string &c, const std::string &d) {
    std::string k;
    for (auto &x : {a, b, c})
      if (!x.empty())
        k = dotted(k, x);
    return dotted(k, d);
  };
  int ops = g.i(1, 20), dup = 0;
  for (int o = 0; o < ops; ++o) {
    std::string m = g.pickv(models), s = g.pickv(stages), t = g.pickv(methods), n = g.pickv(names);
    int depth = g.i(0, 3);
    std::string path = depth == 0 ? "" : depth == 1 ? m : depth == 2 ? m + "." + s : m + "." + s + "." + t;
    std::unique_ptr<CAutoScope> a, b, c;
    if (depth > 0)
      a = std::make_unique<CAutoScope>(stack, m, ScopeType::SPECTRUMMODEL, false);
    if (depth > 1)
      b = std::make_unique<CAutoScope>(stack, s, ScopeType::STAGE, false);
    if (depth > 2)
      c = std::make_unique<CAutoScope>(stack, t, ScopeType::METHOD, false);
    auto drop = [&] {
      c.reset();
      b.reset();
      a.reset();
    };
    std::string full = dotted(path, n);
    if (depth == 3)
      REQUIRE_(store.hasCurrentMethodWarningFlag() == (model.count(dotted(path, "warningFlag")) > 0), "flag of the method", path);
    std::shared_ptr<const COperatorResult> r;
    if (n == "extrema_results") {
      Ranked k;
      k.kind = g.i(0, 2);
      int count = g.i(1, 4);
      k.z = candidates(count);
      auto fill = [&](auto e) {
        for (int i = 0; i < count; ++i) {
          auto mod = std::make_shared<CModelSpectrumResult>();
          e->m_savedModelSpectrumResults[i] = mod;
          k.mod.push_back(mod);
          k.par.push_back(e->m_ranked_candidates[i].second);
        }
        r = e;
      };
      if (k.kind == 0) {
        auto e = std::make_shared<ExtremaResult>(k.z);
        fill(e);
        for (int i = 0; i < count; ++i) {
          auto ph = std::make_shared<CModelPhotValueResult>(TPhotVal{{"band", 1. * i}});
          e->m_modelPhotValues[i] = ph;
          k.phot.push_back(ph);
        }
      } else if (k.kind == 1) {
        auto e = std::make_shared<LineModelExtremaResult>(k.z);
        fill(e);
        for (int i = 0; i < count; ++i) {
          auto f = std::make_shared<CLineModelSolution>();
          e->m_savedModelFittingResults[i] = f;
          k.fit.push_back(f);
          auto co = std::make_shared<CModelSpectrumResult>();
          e->m_savedModelContinuumSpectrumResults[i] = co;
          k.cont.push_back(co);
        }
      } else
        fill(std::make_shared<TplCombinationExtremaResult>(k.z));
      if (!model.count(full))
        ranked[full] = k;
    } else if (n == "pdf")
      r = std::make_shared<CModelSpectrumResult>();
    else if (n == "solveResult")
      r = std::make_shared<CLineModelSolution>();
    int how = g.i(0, 3);
    if (n == "warningFlag") {
      Flag.resetFlag();
      bool warned = g.b();
      if (warned)
        Flag.warning(WarningCode::AIR_VACUUM_CONVERSION_IGNORED, "generated");
      auto mask = Flag.getBitMask();
      if (model.count(full)) {
        ++dup;
        REQUIRE_(throws([&] { store.StoreScopedFlagResult(n); }), "duplicate flag", full);
      } else {
        store.StoreScopedFlagResult(n);
        Flag.resetFlag();
        auto got = depth == 0 ? store.GetFlagLogResult("", "", "", n) : store.GetFlagLogResult(m, depth > 1 ? s : "", depth > 2 ? t : "", n);
        REQUIRE_(got && got->flagValue == mask && got->msgList.size() == size_t(warned), "flag", full);
        model[full] = got;
      }
      Flag.resetFlag();
      continue;
    }
    g.note(full);
    if (how == 3) {
      auto tpl = g.pickv(tpls);
      auto &mm = perTpl[tpl->GetName()];
      if (mm.count(full)) {
        ++dup;
        REQUIRE_(throws([&] { store.StoreScopedPerTemplateResult(tpl, n, r); }), "duplicate per template", full);
      } else {
        if (g.b())
          store.StoreScopedPerTemplateResult(tpl, n, r);
        else
          store.StorePerTemplateResult(tpl, path, n, r);
        mm[full] = r;
      }
      TOperatorResultMap all = store.GetScopedPerTemplateResult(n), want;
      for (auto &x : perTpl)
        if (x.second.count(full))
          want[x.first] = x.second[full];
      REQUIRE_(all == want, "per template", full);
      for (auto &x : tpls)
        if (perTpl[x->GetName()].count(full))
          REQUIRE_(store.GetScopedPerTemplateResult(x, n).lock() == perTpl[x->GetName()][full], "per template", x->GetName());
        else
          REQUIRE_(throws([&] { store.GetScopedPerTemplateResult(x, n); }), "per template missing", x->GetName());
      if (n == "extrema_results" && !model.count(full))
        ranked.erase(full);
      continue;
    }
    bool exists = model.count(full);
    auto put = [&] {
      if (how == 0)
        store.StoreScopedGlobalResult(n, r);
      else if (how == 1)
        store.StoreGlobalResult(path, n, r);
      else {
        drop();
        store.StoreGlobalResult(full, r);
      }
    };
    if (exists) {
      ++dup;
      REQUIRE_(throws(put), "duplicate", full);
    } else {
      put();
      model[full] = r;
      if (c)
        REQUIRE_(store.GetScopedGlobalResult(n).lock() == r, "scoped", full);
    }
  }
  REQUIRE_(stack->empty(), "stack", "");
  int seen = 0, absent = 0;
  auto look = [&](const std::string &m, const std::string &s, const std::string &t, const std::string &n) {
    std::string full = key(m, s, t, n);
    auto it = model.find(full);
    bool in = it != model.end();
    (in ? seen : absent)++;
    REQUIRE_(store.HasDataset(m, s, t, n) == in, "has", full);
    REQUIRE_(COperatorResultStore::buildFullname(m, s, t, n) == full, "address", full);
    if (n == "solveResult")
      REQUIRE_(store.hasSolveResult(m, s, t) == in, "has solve", full);
    if (!in) {
      ErrorCode code;
      REQUIRE_(throws([&] { store.GetGlobalResultType(m, s, t, n); }, &code) && code == ErrorCode::UNKNOWN_ATTRIBUTE, "missing", full);
      REQUIRE_(throws([&] { store.GetLineModelSolution(m, s, t, n); }) && throws([&] { store.GetExtremaResult(m, s, t, n, "model_parameters", 0); }) && throws([&] { store.GetFlagLogResult(m, s, t, n); }), "missing", full);
      REQUIRE_(!store.HasCandidateDataset(m, s, t, n, "model"), "missing candidates", full);
      return;
    }
    auto r = it->second;
    REQUIRE_(store.GetGlobalResultType(m, s, t, n) == r->getType(), "type", full);
    REQUIRE_(store.GetLineModelSolution(m, s, t, n) == std::dynamic_pointer_cast<const CLineModelSolution>(r), "result", full);
    REQUIRE_(store.GetModelSpectrumResult(m, s, t, n) == std::dynamic_pointer_cast<const CModelSpectrumResult>(r), "result", full);
    REQUIRE_(store.GetFlagLogResult(m, s, t, n) == std::dynamic_pointer_cast<const CFlagLogResult>(r), "result", full);
    if (n == "solveResult")
      REQUIRE_(store.GetSolveResult(m, s, t).lock() == r, "solve result", full);
    if (n != "extrema_results")
      return;
    const Ranked &k = ranked.at(full);
    REQUIRE_(store.getNbRedshiftCandidates(m, s, t) == int(k.par.size()), "number of candidates", full);
    for (int i = 0; i < int(k.par.size()); ++i) {
      REQUIRE_(store.GetModelSpectrumResult(m, s, t, n, "model", i) == k.mod[i], "model of rank", i);
      if (k.kind == 0)
        REQUIRE_(store.GetExtremaResult(m, s, t, n, "model_parameters", i) == k.par[i] &&
                     store.GetExtremaResult(m, s, t, n, "model_parameters", i)->Redshift == k.z[i].second->Redshift &&
                     store.GetModelPhotValueResult(m, s, t, n, "PhotometricModel", i) == k.phot[i],
                 "parameters of rank", i);
      else if (k.kind == 1)
        REQUIRE_(store.GetLineModelResult(m, s, t, n, "model_parameters", i) == k.par[i] &&
                     store.GetLineModelResult(m, s, t, n, "model_parameters", i)->Redshift == k.z[i].second->Redshift &&
                     store.GetLineModelSolution(m, s, t, n, "fitted_lines", i) == k.fit[i] &&
                     store.GetModelSpectrumResult(m, s, t, n, "continuum", i) == k.cont[i],
                 "parameters of rank", i);
      else
        REQUIRE_(store.GetTplCombinationResult(m, s, t, n, "model_parameters", i) == k.par[i] &&
                     store.GetTplCombinationResult(m, s, t, n, "model_parameters", i)->Redshift == k.z[i].second->Redshift,
                 "parameters of rank", i);
    }
    for (auto d : {"model_parameters", "model", "continuum", "fitted_lines", "PhotometricModel", "nothing"}) {
      std::string ds = d;
      bool has = ds == "model_parameters" || ds == "model" || (k.kind < 2 && ds == "PhotometricModel") ||
                 (k.kind == 1 && (ds == "continuum" || ds == "fitted_lines"));
      REQUIRE_(store.HasCandidateDataset(m, s, t, n, ds) == has, "has candidates", ds);
      if (!has)
        REQUIRE_(throws([&] { store.GetModelSpectrumResult(m, s, t, n, ds, 0); }) && throws([&] { store.GetCandidateResultType(m, s, t, n, ds); }), "unknown dataset", ds);
      else if (ds != "PhotometricModel")
        REQUIRE_(store.GetCandidateResultType(m, s, t, n, ds) == (ds == "model_parameters" ? k.par : ds == "fitted_lines" ? k.fit : k.mod)[0]->getType(),
                 "type of candidates", ds);
    }
  };
  for (auto &n : names) {
    look("", "", "", n);
    for (auto &m : models) {
      look(m, "", "", n);
      for (auto &s : stages) {
        look(m, s, "", n);
        for (auto &t : methods)
          look(m, s, t, n);
      }
    }
  }
  g.nontrivial(seen > 1 && absent > 0);
  g.label(dup ? "with duplicates" : "no duplicate");
  store.reset();
  for (auto &x : model)
    REQUIRE_(!store.HasDataset("", "", "", x.first), "reset", x.first);
  REQUIRE_(store.GetScopedPerTemplateResult("pdf").empty(), "reset", "");
}
