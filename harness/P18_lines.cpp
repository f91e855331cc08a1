// Line catalogues, catalogues of line ratios, elements made of lines, amplitude rules.
#include "fit.h"

#include "RedshiftLibrary/common/formatter.h"
#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/line/linedetected.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/line/regulament.h"
#include "RedshiftLibrary/line/rule2singlelinesamplitude.h"
#include "RedshiftLibrary/line/ruleOIIRatioRange.h"
#include "RedshiftLibrary/line/ruleStrongHigherThanWeak.h"
#include "RedshiftLibrary/line/ruleSuperStrongHighest.h"
#include "RedshiftLibrary/linemodel/elementlist.h"

using namespace fit;

namespace {
struct L {
  int id;
  std::string name, type, force, profile, group, vgroup, strid;
  double pos, nominal, offset;
  bool fitOffset;
  TAsymParams asym;
  bool em() const { return type[0] == 'E'; }
  bool strong() const { return force[0] == 'S'; }
};

std::vector<L> makeLines(Ctx &g, int n) {
  std::vector<L> v;
  int id = g.i(0, 5);
  for (int i = 0; i < n; ++i) {
    L l;
    l.id = id;
    id += g.b() ? 1 : g.i(1, 40);
    l.name = "l" + std::to_string(g.i(0, 1 + n));
    l.type = g.pick({"E", "A", "Em", "Abs"});
    l.force = g.pick({"S", "W", "Strong", "Weak"});
    l.profile = g.pick({"SYM", "LOR", "ASYM", "ASYMFIT", "ASYMFIXED"});
    l.group = g.pick({undefStr, std::string(l.em() ? "E1" : "A1"), std::string(l.em() ? "E2" : "A2")});
    l.vgroup = g.pick({"em_vel", "abs_vel", "x"});
    l.pos = g.f(900, 9000);
    l.strid = l.name + "_" + std::to_string(i);
    l.nominal = g.pick({1., g.f(0.01, 3), 0.});
    l.offset = g.pick({0., g.f(-600, 600)});
    l.fitOffset = g.b();
    l.asym = TAsymParams(g.f(0.5, 3), g.f(-3, 3), g.f(-2, 2));
    v.push_back(l);
  }
  return v;
}
void addTo(CLineCatalog &c, const L &l) {
  c.AddLineFromParams(l.name, l.pos, l.type, l.force, l.profile, l.asym, l.group, l.nominal, l.vgroup, l.offset, l.fitOffset, l.id, l.strid);
}
void sameLine(Ctx &g, const CLine &c, const L &l, const std::string &where) {
  REQUIRE_(c.GetID() == l.id && c.GetName() == l.name && c.GetPosition() == l.pos && c.IsEmission() == l.em() &&
               c.GetType() == (l.em() ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption) &&
               c.IsStrong() == l.strong() && c.IsWeak() == !l.strong() && c.GetGroupName() == l.group &&
               c.GetNominalAmplitude() == l.nominal && c.GetVelGroupName() == l.vgroup && c.GetOffset() == l.offset &&
               c.IsOffsetFitEnabled() == l.fitOffset && c.GetStrID() == l.strid,
           "line", where, ": line ", l.id, " ", l.name, " comes back changed: ", c.GetName(), " ", c.GetPosition(), " ", c.GetNominalAmplitude(),
           " ", c.GetGroupName(), " ", c.GetVelGroupName(), " ", c.GetOffset(), " ", c.GetStrID());
  auto const &p = *c.GetProfile();
  REQUIRE_(p.isAsymFit() == (l.profile == "ASYMFIT") && p.isAsym() == (l.profile.substr(0, 4) == "ASYM") &&
               (p.GetName() == LOR) == (l.profile == "LOR") && (p.GetName() == SYM) == (l.profile == "SYM"),
           "profile", where, ": line ", l.id, " asked for profile ", l.profile, " has another one");
  if (l.profile == "ASYMFIXED") {
    auto a = c.GetAsymParams();
    REQUIRE_(a.sigma == l.asym.sigma && a.alpha == l.asym.alpha && a.delta == l.asym.delta, "profile parameters", where, ": line ", l.id, " ",
             a.sigma, " ", a.alpha, " ", a.delta);
  }
}
} // namespace

// ---------------------------------------------------------------------------------------------------------- catalogue
PROP("P18", catalogue, 2000, 40000) {
  const int n = g.i(0, 12);
  auto lines = makeLines(g, n);
  CLineCatalog cat(g.pick({8., 6.}));
  std::vector<L> order = lines;
  g.shuffle(order);
  for (auto const &l : order) {
    if (g.chance(10)) { // same identifier: the last one replaces the first
      L old = l;
      old.pos += 1;
      old.group = "other";
      addTo(cat, old);
    }
    addTo(cat, l);
  }
  auto const &got = cat.GetList();
  REQUIRE_(int(got.size()) == n, "size", n, " lines added, ", got.size(), " in the catalogue");
  for (auto const &l : lines) {
    auto it = got.find(l.id);
    REQUIRE_(it != got.end(), "missing", "line ", l.id, " not in the catalogue");
    sameLine(g, it->second, l, "catalogue");
  }
  // filters
  for (std::string t : {"no", "E", "A", "Em", "Abs"})
    for (std::string f : {"no", "S", "W", "Weak"}) {
      auto sub = cat.GetFilteredList(t, f);
      for (auto const &l : lines) {
        bool want = (t == "no" || (t[0] == 'E') == l.em()) && (f == "no" || (f[0] == 'S') == l.strong());
        REQUIRE_((sub.count(l.id) == 1) == want, "filter", "type ", t, " force ", f, ": line ", l.id, " (", l.type, ",", l.force,
                 want ? ") left out" : ") kept");
        if (want)
          sameLine(g, sub.at(l.id), l, "filtered");
      }
      auto sub2 = cat.GetFilteredList(t == "no" ? CLine::EType::nType_All : t[0] == 'E' ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption,
                                      f == "no" ? CLine::EForce::nForce_All : f[0] == 'S' ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak);
      REQUIRE_(sub2.size() == sub.size() && std::equal(sub.begin(), sub.end(), sub2.begin(), [](auto const &a, auto const &b) { return a.first == b.first; }),
               "filter forms", "filters by name and by value differ");
      // groups
      auto groups = CLineCatalog::ConvertToGroupList(sub);
      std::map<int, std::string> where;
      for (auto const &[name, v] : groups) {
        REQUIRE_(!v.empty(), "empty group", "group ", name);
        for (auto const &c : v) {
          REQUIRE_(where.emplace(c.GetID(), name).second, "two groups", "line ", c.GetID(), " in ", where[c.GetID()], " and ", name);
          if (c.GetGroupName() == undefStr)
            REQUIRE_(v.size() == 1, "ungrouped", "line ", c.GetID(), " without a group is with ", v.size() - 1, " others");
          else
            REQUIRE_(name == c.GetGroupName(), "group name", name, " for a line of group ", c.GetGroupName());
        }
      }
      REQUIRE_(where.size() == sub.size(), "groups", sub.size(), " lines, ", where.size(), " in groups");
      for (auto const &l : lines)
        if (where.count(l.id) && l.group != undefStr)
          for (auto const &m : lines)
            if (where.count(m.id))
              REQUIRE_((where[l.id] == where[m.id]) == (l.group == m.group), "group members", l.id, " and ", m.id);
    }
  // refusals leave the catalogue as it was
  ErrorCode code;
  for (std::string t : {"Q", "x", "e"}) {
    REQUIRE_(throws([&] { cat.GetFilteredList(t, "no"); }, &code) && code == ErrorCode::BAD_LINE_TYPE, "bad type", t, " accepted");
    REQUIRE_(throws([&] { cat.GetFilteredList("no", t); }, &code) && code == ErrorCode::BAD_LINE_FORCE, "bad force", t, " accepted");
    L l{900, "bad", "E", "S", "SYM", "g", "v", "s", 1., 1., 0., false, {}};
    L a = l, b = l, c = l;
    a.type = t;
    b.force = t;
    c.profile = t;
    REQUIRE_(throws([&] { addTo(cat, a); }, &code) && code == ErrorCode::BAD_LINE_TYPE, "bad type", t, " accepted");
    REQUIRE_(throws([&] { addTo(cat, b); }, &code) && code == ErrorCode::BAD_LINE_FORCE, "bad force", t, " accepted");
    REQUIRE_(throws([&] { addTo(cat, c); }, &code) && code == ErrorCode::INTERNAL_ERROR, "bad profile", t, " accepted");
  }
  REQUIRE_(throws([&] { cat.setLineAmplitude(901, 1.); }, &code), "absent line", "amplitude of an absent line set");
  REQUIRE_(int(cat.GetList().size()) == n, "refused but stored", cat.GetList().size());
  // copies are independent, ratio catalogues start at zero
  CLineCatalog copy = cat;
  CLineRatioCatalog ratio("r", cat);
  for (auto const &[id, l] : ratio.GetList())
    REQUIRE_(l.GetNominalAmplitude() == 0., "ratio start", "line ", id, " has ", l.GetNominalAmplitude());
  REQUIRE_(ratio.GetList().size() == size_t(n), "ratio start", "lines");
  if (n) {
    int k = g.i(0, n - 1);
    double v = g.f(0, 5);
    copy.setLineAmplitude(lines[k].id, v);
    ratio.setLineAmplitude(lines[k].id, v + 1);
    TAsymParams np(g.f(0.5, 3), g.f(-3, 3), 0.);
    std::string np_profile = g.pick({"ASYMFIXED", "ASYMFIT"});
    copy.setAsymProfileAndParams(np_profile, np);
    for (auto l : lines) {
      auto const &c = copy.GetList().at(l.id);
      sameLine(g, cat.GetList().at(l.id), l, "after changing a copy");
      if (l.id == lines[k].id) {
        REQUIRE_(ratio.GetList().at(l.id).GetNominalAmplitude() == v + 1, "amplitude set", l.id);
        l.nominal = v;
      } else
        REQUIRE_(ratio.GetList().at(l.id).GetNominalAmplitude() == 0., "amplitude set", "of another line ", l.id);
      if (l.profile == "ASYMFIT" || l.profile == "ASYMFIXED" || l.profile == "ASYM") {
        bool same = c.GetAsymParams().sigma == np.sigma && c.GetAsymParams().alpha == np.alpha && c.GetAsymParams().delta == np.delta;
        REQUIRE_(same || l.profile == "ASYM", "new profile", "line ", l.id, " ", l.profile, " keeps its parameters");
        REQUIRE_(c.GetName() == l.name && c.GetNominalAmplitude() == l.nominal, "new profile", "other fields of ", l.id);
      } else
        sameLine(g, c, l, "copy");
    }
  }
  g.nontrivial(n >= 3);
}

PROP("P18", detected_sorted, 1000, 20000) {
  const int n = g.i(0, 15);
  CLineDetectedCatalog cat;
  std::vector<std::pair<double, double>> in;
  for (int i = 0; i < n; ++i) {
    double p = g.pick({g.f(1000, 9000), 5000., std::floor(g.f(1000, 1005))}), a = g.f(-3, 10);
    in.push_back({p, a});
    cat.Add(CLineDetected("d" + std::to_string(i), p, CLine::EType::nType_Emission, std::make_unique<CLineProfileSYM>(), CLine::EForce::nForce_Strong, a,
                          a + 100, a + 200));
  }
  REQUIRE_(int(cat.GetList().size()) == n, "size", cat.GetList().size(), " of ", n);
  cat.Sort();
  std::sort(in.begin(), in.end());
  REQUIRE_(int(cat.GetList().size()) == n, "size", cat.GetList().size(), " of ", n, " after sorting");
  for (int i = 0; i < n; ++i) {
    auto it = cat.GetList().find(i);
    REQUIRE_(it != cat.GetList().end(), "keys", "no line ", i);
    REQUIRE_(it->second.GetPosition() == in[i].first && it->second.GetAmplitude() == in[i].second && it->second.GetWidth() == in[i].second + 100 &&
                 it->second.GetCut() == in[i].second + 200,
             "order", "line ", i, " at ", it->second.GetPosition(), " instead of ", in[i].first);
  }
  g.nontrivial(n >= 3);
}

// ---------------------------------------------------------------------------------------------- catalogues of line ratios
PROP("P18", ratio_fit, 3000, 60000) {
  const int n = g.i(1, 10), ncat = g.i(1, 6);
  auto lines = makeLines(g, n);
  CLineCatalog base;
  for (auto const &l : lines)
    addTo(base, l);
  CLineCatalogsTplRatio ratios;
  std::vector<V> r(ncat, V(n));
  for (int k = 0; k < ncat; ++k) {
    CLineRatioCatalog c("c" + std::to_string(k), base);
    for (int i = 0; i < n; ++i) {
      r[k][i] = g.chance(20) ? 0. : g.logf(1e-3, 3);
      c.setLineAmplitude(lines[i].id, r[k][i]);
    }
    ratios.addLineRatioCatalog(c);
  }
  std::vector<Int32> idx;
  V amp, err;
  int from = g.i(0, ncat - 1);
  double scale = g.logf(1e-18, 1e3);
  std::string how = g.pick({"one catalogue", "noisy", "random"});
  for (int i = 0; i < n; ++i) {
    if (g.chance(25))
      continue;
    idx.push_back(i);
    double a = how == "random" ? g.logf(1e-2, 10) : r[from][i], e = g.logf(1e-3, 1);
    if (how == "noisy")
      a += e * g.gauss();
    int m = g.i(0, 11);
    amp.push_back(m == 0 ? -a * scale : m == 1 ? NAN : a * scale);
    err.push_back(m == 2 ? 0. : m == 1 ? NAN : m == 3 ? -1. : e * scale);
  }
  g.note(n, " lines, ", ncat, " catalogues, ", how, ", scale ", scale);
  g.notev("lines used", idx);
  g.notev("amplitudes", amp);
  g.notev("errors", err);
  // reference
  std::vector<int> use;
  for (size_t i = 0; i < idx.size(); ++i)
    if (amp[i] >= 0 && err[i] > 0)
      use.push_back(i);
  V best(ncat, INFINITY), A(ncat, NAN);
  for (int k = 0; k < ncat; ++k) {
    double sxy = 0, sxx = 0;
    for (int i : use) {
      double w = 1 / err[i] / err[i];
      sxy += amp[i] * r[k][idx[i]] * w;
      sxx += r[k][idx[i]] * r[k][idx[i]] * w;
    }
    if (sxy == 0 || sxx == 0)
      continue;
    A[k] = sxy / sxx;
    best[k] = 0;
    for (int i : use)
      best[k] += std::pow((amp[i] - A[k] * r[k][idx[i]]) / err[i], 2);
  }
  double lowest = *std::min_element(best.begin(), best.end());
  TFloat64List corrected(g.i(0, 3), 7.);
  Int32 which = -5;
  double fit = ratios.GetBestFit(idx, amp, err, corrected, which);
  if (!std::isfinite(lowest)) {
    REQUIRE_(!(fit >= 0), "no fit", "fit ", fit, " although nothing can be fitted");
    REQUIRE_(corrected.empty(), "no fit", "amplitudes given");
    REQUIRE_(which == -5, "no fit", "catalogue ", which);
    g.label("nothing to fit");
    return;
  }
  double size = 0;
  for (int i : use)
    size += std::pow(amp[i] / err[i], 2);
  REQUIRE_(fit >= 0 && which >= 0 && which < ncat, "fit", "fit ", fit, " catalogue ", which, " although ", lowest, " is possible");
  REQUIRE_CLOSE(fit, best[which], 1e-9, 1e-11 * size, "fit value", "catalogue ", which);
  REQUIRE_CLOSE(fit, lowest, 1e-9, 1e-11 * size, "best catalogue", "catalogue ", which);
  REQUIRE_(corrected.size() == idx.size(), "corrected amplitudes", corrected.size(), " for ", idx.size(), " lines");
  for (size_t i = 0; i < idx.size(); ++i) {
    if (std::find(use.begin(), use.end(), int(i)) == use.end())
      REQUIRE_(std::isnan(corrected[i]), "unmeasured line", "line ", idx[i], " corrected to ", corrected[i]);
    else
      REQUIRE_CLOSE(corrected[i], A[which] * r[which][idx[i]], 1e-10, 0., "corrected amplitude", "line ", idx[i]);
  }
  if (how == "one catalogue")
    REQUIRE_(lowest <= 1e-11 * size, "own catalogue", "amplitudes of catalogue ", from, " leave ", lowest);
  g.label(how);
  g.nontrivial(use.size() >= 2 && ncat >= 2);
}

PROP("P18", ratio_amplitudes, 800, 15000) {
  const int n = g.i(1, 10), ncat = g.i(1, 5);
  auto lines = makeLines(g, n);
  CLineCatalog base;
  for (auto const &l : lines)
    addTo(base, l);
  auto dust = makeDust(g);
  const int ndust = dust.n;
  CLineCatalogsTplRatio ratios;
  std::vector<V> r(ncat, V(n));
  V prior, vel(2 * ncat);
  std::vector<int> ism;
  for (int k = 0; k < ncat; ++k) {
    CLineRatioCatalog c("c" + std::to_string(k), base);
    for (int i = 0; i < n; ++i)
      c.setLineAmplitude(lines[i].id, r[k][i] = g.chance(20) ? 0. : g.logf(1e-3, 3));
    prior.push_back(g.f(0, 1));
    ism.push_back(g.i(0, ndust - 1));
    vel[2 * k] = g.f(0, 500);
    vel[2 * k + 1] = g.f(0, 500);
    c.addVelocity("em_vel", vel[2 * k]);
    c.addVelocity("abs_vel", vel[2 * k + 1]);
    REQUIRE_(throws([&] { c.addVelocity("em_vel", 1.); }), "velocity twice", "accepted");
    c.setPrior(prior[k]);
    c.setIsmIndex(ism[k]);
    ratios.addLineRatioCatalog(c);
  }
  REQUIRE_(ratios.GetCatalogsCount() == ncat && ratios.getCatalogsPriors() == prior, "catalogues", "count or priors");
  for (int k = 0; k < ncat; ++k) {
    double e = 0, a = 0;
    ratios.GetCatalogVelocities(k, e, a);
    REQUIRE_(e == vel[2 * k] && a == vel[2 * k + 1], "velocities", "catalogue ", k, ": ", e, " ", a);
    REQUIRE_(ratios.GetCatalogName(k) == "c" + std::to_string(k) && ratios.GetIsmIndex(k) == ism[k], "names", "catalogue ", k);
  }
  // elements: any partition of the lines, emission and absorption apart
  std::vector<TLineModelElementParam_ptr> elts;
  std::vector<std::vector<int>> member;
  for (bool em : {true, false}) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
      if (lines[i].em() == em)
        v.push_back(i);
    g.shuffle(v);
    while (!v.empty()) {
      int take = g.i(1, int(v.size()));
      std::vector<int> m(v.end() - take, v.end());
      v.resize(v.size() - take);
      CLineVector lv;
      for (int i : m)
        lv.push_back(base.GetList().at(lines[i].id));
      elts.push_back(std::make_shared<TLineModelElementParam>(lv, 100., 100., "combined"));
      member.push_back(m);
    }
  }
  bool withDust = g.b();
  auto got = ratios.InitLineCorrespondingAmplitudes(elts, withDust, dust.obj);
  REQUIRE_(int(got.size()) == ncat, "shape", got.size());
  for (int k = 0; k < ncat; ++k) {
    REQUIRE_(got[k].size() == elts.size(), "shape", got[k].size());
    for (size_t e = 0; e < elts.size(); ++e) {
      REQUIRE_(got[k][e].size() == member[e].size(), "shape", got[k][e].size());
      for (size_t j = 0; j < member[e].size(); ++j) {
        auto const &l = lines[member[e][j]];
        double want = r[k][member[e][j]];
        if (withDust && l.em())
          want *= dust.coeff(ism[k], l.pos);
        REQUIRE_CLOSE(got[k][e][j], want, 1e-12, 0., "nominal amplitude", "catalogue ", k, " line ", l.id);
      }
    }
  }
  g.nontrivial(n >= 3 && ncat >= 2);
}

// ------------------------------------------------------------------------------------------------ elements and the rules
namespace {
struct Def {
  const char *name;
  double pos;
};
const std::vector<Def> EM{{"Halpha", 6564.6},   {"Hbeta", 4862.7},    {"Hgamma", 4341.6},   {"Hdelta", 4102.8},   {"H8", 3890.1},      {"H9", 3836.4},
                          {"H10", 3798.9},      {"H11", 3771.7},      {"[OII]3726", 3727.1}, {"[OII]3729", 3729.9}, {"[CIII]1907", 1906.7}, {"[CIII]1909", 1908.7},
                          {"[OIII]a", 5008.2}, {"[OIII]b", 4960.3},  {"LyAE", 1215.7},     {"CIV", 1550.2}};
const std::vector<Def> AB{{"HalphaA", 6564.6}, {"HbetaA", 4862.7}, {"HgammaA", 4341.6}, {"HdeltaA", 4102.8}, {"H8A", 3890.1},
                          {"H9A", 3836.4},     {"H10A", 3798.9},   {"H11A", 3771.7},    {"CaK", 3934.8},     {"CaH", 3969.6}};

struct Item {
  std::string name, group;
  bool em, strong;
  double pos, nominal;
  int id;
};
struct System {
  std::vector<Item> items;
  CLineMap map;
  std::vector<std::shared_ptr<TLambdaRange>> ranges;
  std::unique_ptr<CSpectraGlobalIndex> idx;
  std::unique_ptr<CLMEltListVector> elts;
  std::vector<CSpectrumSpectralAxis> axes;
  double z;
  std::shared_ptr<CLSF> lsf;

  std::pair<int, int> at(const std::string &name, bool em) const {
    return elts->findElementIndex(name, em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption);
  }
  bool out(int e, int l) const { return elts->isOutsideLambdaRangeLine(e, l); }
  bool outElement(int e) const { return elts->isOutsideLambdaRange(e); }
  double amp(int e, int l) const { return elts->getElementParam()[e]->GetFittedAmplitude(l); }
  double err(int e, int l) const { return elts->getElementParam()[e]->GetFittedAmplitudeStd(l); }
  int size(int e) const { return elts->getElementParam()[e]->size(); }
};

enum Grouping { kAny, kSameForce, kSingle };
// nobs spectra; elements of the composition asked for; amplitudes not set
void makeSystem(Ctx &g, System &s, Grouping grouping, ElementComposition comp, int nobs) {
  Params p = baseParams({"galaxy"}, TFloat64Range(3000., 9000.));
  p.set("lineModel.velocityEmission", 200.);
  p.set("lineModel.velocityAbsorption", 300.);
  p.set("lineModel.lineWidthType", "combined");
  freshContext(p, makeDust(g), makeIgm(g, 900., 1, 5.), std::make_shared<CTemplateCatalog>());
  int id = 0;
  int keep = g.i(30, 100);
  for (bool em : {true, false})
    for (auto const &d : em ? EM : AB) {
      if (!g.chance(keep))
        continue;
      Item it;
      it.name = d.name;
      it.pos = d.pos;
      it.em = em;
      it.strong = g.b();
      it.nominal = g.pick({1., g.f(0.05, 3), 1.});
      it.group = undefStr;
      if (grouping != kSingle && g.chance(40))
        it.group = std::string(em ? "E" : "A") + (grouping == kSameForce ? (it.strong ? "s" : "w") : "") + std::to_string(g.i(0, 1));
      it.id = id;
      id += g.i(1, 3);
      s.items.push_back(it);
    }
  if (s.items.empty())
    g.discard();
  for (auto const &it : s.items)
    s.map[it.id] = CLine(it.name, it.pos, it.em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::make_unique<CLineProfileSYM>(),
                         it.strong ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak, 0., false, it.group, it.nominal, "v", it.id,
                         it.name + "_" + std::to_string(it.id));
  s.z = g.pick({0., g.f(0, 1), g.f(0, 3)});
  s.lsf = constantWidthLSF(g.f(1, 4));
  for (int o = 0; o < nobs; ++o) {
    double lo = g.f(1000, 5000), hi = g.f(lo * 1.3, 11000);
    s.ranges.push_back(std::make_shared<TLambdaRange>(lo, hi));
    s.axes.push_back(CSpectrumSpectralAxis(linAxis(int((hi - lo) / 4) + 2, lo, 4.)));
  }
  s.idx = std::make_unique<CSpectraGlobalIndex>(nobs);
  CTLambdaRangePtrVector ranges(s.ranges.begin(), s.ranges.end());
  s.elts = std::make_unique<CLMEltListVector>(ranges, *s.idx, s.map, comp);
  for (auto &o : *s.idx)
    for (auto &e : s.elts->getElementList()) {
      e->SetLSF(s.lsf);
      e->prepareSupport(s.axes[o], s.z, *s.ranges[o]);
    }
  s.idx->reset();
  s.elts->setGlobalOutsideLambdaRangeFromSpectra();
  s.idx->reset();
  g.note(s.items.size(), " lines in ", s.elts->getNbElements(), " elements, z ", s.z);
}
void setAmplitudes(Ctx &g, System &s, bool withNan = true) {
  double scale = g.logf(1e-3, 10);
  for (int e = 0; e < s.elts->getNbElements(); ++e) {
    double a = g.pick({g.f(0, 1), g.logf(1e-3, 1), 0., g.f(0, 1)}) * scale, d = g.logf(1e-3, 1) * scale;
    if (withNan && g.chance(5))
      a = NAN;
    s.elts->SetElementAmplitude(e, a, d);
  }
}
std::vector<V> snapshot(const System &s, bool errors = false) {
  std::vector<V> v;
  for (int e = 0; e < s.elts->getNbElements(); ++e) {
    v.push_back(V());
    for (int l = 0; l < s.size(e); ++l)
      v[e].push_back(errors ? s.err(e, l) : s.amp(e, l));
  }
  return v;
}
bool same(double a, double b, double rtol = 0.) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= rtol * std::abs(b); }
void requireSame(Ctx &g, const System &s, const std::vector<V> &a, const std::vector<V> &b, const char *key, double rtol) {
  for (size_t e = 0; e < a.size(); ++e)
    for (size_t l = 0; l < a[e].size(); ++l)
      REQUIRE_(same(a[e][l], b[e][l], rtol), key, "line ", s.elts->getElementParam()[e]->GetLineName(l), ": ", a[e][l], " and ", b[e][l]);
}
} // namespace

PROP("P18", elements, 1500, 30000) {
  System s;
  auto comp = g.pick({ElementComposition::Default, ElementComposition::EmissionAbsorption, ElementComposition::OneLine});
  makeSystem(g, s, kAny, comp, g.i(1, 3));
  std::map<int, int> where;
  for (int e = 0; e < s.elts->getNbElements(); ++e) {
    auto &p = *s.elts->getElementParam()[e];
    bool allOut = true;
    for (int l = 0; l < p.size(); ++l) {
      int id = p.GetLines()[l].GetID();
      REQUIRE_(where.emplace(id, e).second, "two elements", "line ", id);
      auto it = std::find_if(s.items.begin(), s.items.end(), [&](auto const &i) { return i.id == id; });
      REQUIRE_(it != s.items.end() && p.GetLineName(l) == it->name && p.GetNominalAmplitude(l) == it->nominal && p.IsEmission() == it->em, "line of element",
               "line ", id, " changed");
      REQUIRE_(s.elts->findElementIndex(id) == std::make_pair(Int32(e), Int32(l)), "find", "line ", id);
      REQUIRE_(s.at(it->name, it->em) == std::make_pair(e, l), "find", "line ", it->name);
      // in range for one spectrum: the support (8 sigma around the line) overlaps the range by a third or more
      bool anyIn = false, sure = true;
      for (size_t o = 0; o < s.ranges.size(); ++o) {
        double mu = it->pos * (1 + s.z), lo = s.ranges[o]->GetBegin(), hi = s.ranges[o]->GetEnd();
        double sig = p.IsEmission() ? 200. : 300.;
        sig = sig / SPEED_OF_LIGHT_IN_VACCUM * mu;
        double w = 8 * std::sqrt(sig * sig + 16.) + 20.;
        if (mu > lo + 4 && mu < hi - 4)
          anyIn = true;
        else if (mu > lo - w && mu < hi + w)
          sure = false;
      }
      if (anyIn || sure)
        REQUIRE_(s.out(e, l) == !anyIn, "in range", "line ", it->name, " at ", it->pos * (1 + s.z), s.out(e, l) ? " declared outside" : " declared inside");
      allOut = allOut && s.out(e, l);
    }
    REQUIRE_(s.outElement(e) == allOut, "element range", "element ", e, " all lines outside: ", allOut);
  }
  REQUIRE_(where.size() == s.items.size(), "lost line", s.items.size(), " lines, ", where.size(), " in elements");
  for (auto const &a : s.items)
    for (auto const &b : s.items) {
      bool together = comp == ElementComposition::OneLine              ? a.id == b.id
                      : comp == ElementComposition::EmissionAbsorption ? a.em == b.em
                                                                       : a.id == b.id || (a.group != undefStr && a.group == b.group);
      REQUIRE_((where[a.id] == where[b.id]) == together, "composition", a.name, " and ", b.name, together ? " apart" : " together");
    }
  REQUIRE_(s.elts->findElementIndex(9999).first == undefIdx, "find", "absent line found");
  for (auto t : {CLine::EType::nType_Emission, CLine::EType::nType_Absorption}) {
    auto v = s.elts->findElementTypeIndices(t);
    size_t k = 0;
    for (int e = 0; e < s.elts->getNbElements(); ++e)
      if (s.elts->getElementParam()[e]->IsEmission() == (t == CLine::EType::nType_Emission))
        REQUIRE_(k < v.size() && v[k++] == e, "by type", "element ", e);
    REQUIRE_(k == v.size(), "by type", "too many");
  }
  // amplitudes
  for (int e = 0; e < s.elts->getNbElements(); ++e) {
    auto &p = *s.elts->getElementParam()[e];
    double A = g.pick({g.logf(1e-4, 10), double(NAN), 0., g.f(0, 1)}), d = g.logf(1e-4, 1);
    s.elts->SetElementAmplitude(e, A, d);
    for (int l = 0; l < p.size(); ++l) {
      if (std::isnan(A) || s.out(e, l)) {
        REQUIRE_(std::isnan(s.amp(e, l)) && std::isnan(s.err(e, l)), "not fitted", "line ", p.GetLineName(l), " has amplitude ", s.amp(e, l));
        continue;
      }
      double want = A * p.GetNominalAmplitude(l);
      if (!p.IsEmission())
        want = std::min(want, 1.);
      REQUIRE_CLOSE(s.amp(e, l), want, 1e-14, 0., "line amplitude", p.GetLineName(l), " of an element of amplitude ", A);
      REQUIRE_CLOSE(s.err(e, l), d * p.GetNominalAmplitude(l), 1e-14, 0., "line amplitude error", p.GetLineName(l));
    }
    if (!std::isnan(A) && !s.outElement(e) && (p.IsEmission() || A * p.GetMaxNominalAmplitude() < 1))
      REQUIRE_CLOSE(p.GetElementAmplitude(), A, 1e-14, 0., "element amplitude", "element ", e);
    if (std::isnan(A) || s.outElement(e))
      REQUIRE_(std::isnan(p.GetElementAmplitude()), "element amplitude", "element ", e);
    // a limit on one line keeps the ratios
    if (!std::isnan(A) && A > 0) {
      int l = g.i(0, p.size() - 1);
      double lim = g.pick({A * p.GetNominalAmplitude(l) * g.f(0, 2), -1., 0.});
      auto before = snapshot(s)[e];
      bool did = p.LimitFittedAmplitude(l, lim);
      REQUIRE_(did == (before[l] > lim), "limit", "amplitude ", before[l], " limit ", lim);
      if (!did)
        REQUIRE_(s.amp(e, l) == before[l] || std::isnan(before[l]), "limit", "changed");
      else
        for (int k = 0; k < p.size(); ++k)
          if (!s.out(e, k))
            REQUIRE_CLOSE(s.amp(e, k), std::max(lim, 0.) * p.GetNominalAmplitude(k) / p.GetNominalAmplitude(l), 1e-13, 0., "limit keeps ratios",
                          p.GetLineName(k));
    }
  }
  g.nontrivial(s.items.size() >= 3);
}

namespace {
struct Pair {
  std::string a, b;
  bool em;
  double c;
};
const std::vector<Pair> BALMER{{"Halpha", "Hbeta", true, 1.1 / 2.86}, {"Hbeta", "Hgamma", true, 0.47 * 1.1}, {"Hgamma", "Hdelta", true, 1.1},
                               {"Hdelta", "H8", true, 1.1},           {"H8", "H9", true, 1.1},               {"H9", "H10", true, 1.1},
                               {"H10", "H11", true, 1.1},             {"HbetaA", "HgammaA", false, 1.1},     {"HgammaA", "HdeltaA", false, 1.1},
                               {"HdeltaA", "H8A", false, 1.1},        {"H8A", "H9A", false, 1.1},            {"H9A", "H10A", false, 1.1},
                               {"H10A", "H11A", false, 1.1}};
const std::vector<Pair> RATIO{{"[OII]3726", "[OII]3729", true, 2.5}, {"[CIII]1907", "[CIII]1909", true, 2.0}};
CLine::EType typeOf(bool em) { return em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption; }

// the second line does not exceed c times the first; every other line as before; returns true if something had to change
bool checkBalmer(Ctx &g, const System &s, const std::vector<Pair> &pairs, const std::vector<V> &before, const std::vector<V> &after) {
  auto want = before;
  bool changed = false;
  for (auto const &p : pairs) {
    auto [ea, la] = s.at(p.a, p.em);
    auto [eb, lb] = s.at(p.b, p.em);
    if (ea < 0 || eb < 0 || s.size(ea) > 1 || s.size(eb) > 1 || s.outElement(ea) || s.outElement(eb))
      continue;
    double a = want[ea][la], &b = want[eb][lb];
    if (std::isnan(a) || std::isnan(b))
      continue;
    if (b > 0 && b > p.c * a) {
      b = std::max(0., p.c * a);
      changed = true;
    }
    REQUIRE_(after[eb][lb] <= std::max(0., p.c * after[ea][la]) * (1 + 1e-12), "balmer satisfied", p.b, " ", after[eb][lb], " above ", p.c, " times ", p.a, " ",
             after[ea][la]);
  }
  requireSame(g, s, after, want, "balmer amplitudes", 1e-12);
  return changed;
}
// neither line exceeds c times the other; the pair is moved to the nearest amplitudes on the limit
bool checkRatio(Ctx &g, const System &s, const std::vector<Pair> &pairs, const std::vector<V> &before, const std::vector<V> &beforeErr,
                const std::vector<V> &after) {
  auto want = before;
  bool changed = false;
  for (auto const &p : pairs) {
    auto [ea, la] = s.at(p.a, p.em);
    auto [eb, lb] = s.at(p.b, p.em);
    if (ea < 0 || eb < 0 || ea == eb || s.outElement(ea) || s.outElement(eb))
      continue;
    double a = want[ea][la], b = want[eb][lb];
    if (std::isnan(a) || std::isnan(b))
      continue;
    double a1 = after[ea][la], b1 = after[eb][lb];
    REQUIRE_(a1 <= p.c * b1 * (1 + 1e-12) && b1 <= p.c * a1 * (1 + 1e-12), "ratio satisfied", p.a, " ", a1, " ", p.b, " ", b1, " ratio limit ", p.c);
    if (a <= p.c * b && b <= p.c * a)
      continue;
    changed = true;
    double e1 = beforeErr[ea][la], e2 = beforeErr[eb][lb];
    // minimise ((A-a)/e1)^2 + ((B-b)/e2)^2 with A = r B
    double r = a > p.c * b ? p.c : 1 / p.c;
    double B = (r * a / e1 / e1 + b / e2 / e2) / (r * r / e1 / e1 + 1 / e2 / e2), A = r * B;
    for (auto [e, l, v] : {std::make_tuple(ea, la, A), std::make_tuple(eb, lb, B)})
      for (int k = 0; k < s.size(e); ++k)
        if (!s.out(e, k)) {
          auto &ep = *s.elts->getElementParam()[e];
          want[e][k] = v * ep.GetNominalAmplitude(k) / ep.GetNominalAmplitude(l);
        }
  }
  requireSame(g, s, after, want, "ratio amplitudes", 1e-10);
  return changed;
}
// no weak line in range above the lowest strong one in range plus its error
bool checkStrongWeak(Ctx &g, const System &s, bool em, const std::vector<V> &before, const std::vector<V> &err, const std::vector<V> &after,
                     bool others = true) {
  double low = INFINITY, lim = INFINITY;
  bool changed = false;
  auto &ep = s.elts->getElementParam();
  for (size_t e = 0; e < before.size(); ++e)
    for (int l = 0; l < s.size(e); ++l)
      if (ep[e]->IsEmission() == em && ep[e]->GetLines()[l].IsStrong() && !s.out(e, l) && before[e][l] <= low) {
        if (before[e][l] == low)
          g.discard(); // two of them are the lowest: either error may count
        low = before[e][l];
        lim = low + err[e][l];
      }
  auto want = before;
  for (size_t e = 0; e < before.size(); ++e)
    if (ep[e]->IsEmission() == em)
      for (int l = 0; l < s.size(e); ++l)
        if (ep[e]->GetLines()[l].IsWeak() && !s.out(e, l) && want[e][l] > lim) {
          changed = true;
          for (int k = 0; k < s.size(e); ++k)
            want[e][k] = ep[e]->GetNominalAmplitude(k) / ep[e]->GetNominalAmplitude(l) * std::max(lim, 0.);
        }
  for (size_t e = 0; e < before.size(); ++e)
    for (int l = 0; l < s.size(e); ++l) {
      if (ep[e]->IsEmission() != em && !others)
        continue;
      if (s.out(e, l))
        continue;
      if (ep[e]->IsEmission() == em && ep[e]->GetLines()[l].IsWeak())
        REQUIRE_(!(after[e][l] > lim * (1 + 1e-12)), "weak line", ep[e]->GetLineName(l), " ", after[e][l], " above the strong limit ", lim);
      REQUIRE_(same(after[e][l], want[e][l], 1e-12), "strong/weak amplitudes", ep[e]->GetLineName(l), " ", after[e][l], " instead of ", want[e][l]);
    }
  return changed;
}
} // namespace

PROP("P18", balmer_rule, 4000, 60000) {
  System s;
  makeSystem(g, s, g.b() ? kAny : kSingle, ElementComposition::Default, 1);
  setAmplitudes(g, s);
  auto before = snapshot(s), err = snapshot(s, true);
  Pair p = BALMER[g.i(0, BALMER.size() - 1)];
  p.c = g.pick({p.c, g.f(0.1, 3)});
  CRule2SingleLinesAmplitude rule;
  rule.SetUp(true, typeOf(p.em), p.a.c_str(), p.b.c_str(), p.c);
  if (g.chance(10)) {
    rule.Enabled = false;
    rule.Apply(*s.elts);
    requireSame(g, s, snapshot(s), before, "disabled rule", 0.);
    return;
  }
  rule.Apply(*s.elts);
  auto after = snapshot(s);
  bool changed = checkBalmer(g, s, {p}, before, after);
  requireSame(g, s, snapshot(s, true), err, "errors", 0.);
  REQUIRE_(changed == !rule.GetLogs().empty() || !changed, "log", "correction not logged");
  rule.Apply(*s.elts);
  requireSame(g, s, snapshot(s), after, "twice", 1e-13);
  g.label(changed ? "corrected" : "nothing to do");
  g.nontrivial(changed);
}

PROP("P18", ratio_rule, 3000, 50000) {
  System s;
  makeSystem(g, s, g.b() ? kAny : kSingle, ElementComposition::Default, 1);
  setAmplitudes(g, s);
  auto before = snapshot(s), err = snapshot(s, true);
  Pair p = g.b() ? RATIO[g.i(0, 1)] : Pair{"Halpha", "Hbeta", true, 3.};
  p.c = g.pick({p.c, g.f(1, 4)});
  CRuleRatioRange rule;
  rule.SetUp(true, typeOf(p.em), p.a.c_str(), p.b.c_str(), p.c);
  rule.Apply(*s.elts);
  auto after = snapshot(s);
  bool changed = checkRatio(g, s, {p}, before, err, after);
  auto [ea, la] = s.at(p.a, p.em);
  auto [eb, lb] = s.at(p.b, p.em);
  if (changed)
    REQUIRE_(same(s.err(ea, la), err[ea][la], 1e-13) && same(s.err(eb, lb), err[eb][lb], 1e-13), "errors", "changed to ", s.err(ea, la), " from ", err[ea][la]);
  rule.Apply(*s.elts);
  requireSame(g, s, snapshot(s), after, "twice", 1e-11);
  g.label(changed ? "corrected" : "nothing to do");
  g.nontrivial(changed);
}

PROP("P18", strong_weak_rule, 1500, 30000) {
  System s;
  makeSystem(g, s, g.b() ? kSameForce : kSingle, ElementComposition::Default, 1);
  setAmplitudes(g, s);
  auto before = snapshot(s), err = snapshot(s, true);
  bool em = g.b();
  CRuleStrongHigherThanWeak rule;
  rule.SetUp(true, typeOf(em));
  rule.Apply(*s.elts);
  auto after = snapshot(s);
  bool changed = checkStrongWeak(g, s, em, before, err, after);
  requireSame(g, s, snapshot(s, true), err, "errors", 0.);
  rule.Apply(*s.elts);
  requireSame(g, s, snapshot(s), after, "twice", 1e-12);
  g.label(changed ? "corrected" : "nothing to do");
  g.nontrivial(changed);
}

PROP("P18", super_strong_rule, 1500, 30000) {
  System s;
  makeSystem(g, s, kSingle, ElementComposition::Default, 1);
  setAmplitudes(g, s);
  auto before = snapshot(s), err = snapshot(s, true);
  std::vector<std::string> tags{"[OII]3726", "[OII]3729", "Halpha"};
  CRuleSuperStrong rule;
  rule.SetUp(true, CLine::EType::nType_Emission, "[OII]3726", "[OII]3729", "Halpha", 1.1);
  rule.Apply(*s.elts);
  auto after = snapshot(s);
  double high = -INFINITY, lim = INFINITY;
  for (auto const &t : tags) {
    auto [e, l] = s.at(t, true);
    if (e >= 0 && !s.out(e, l) && s.elts->getElementParam()[e]->GetLines()[l].IsStrong() && before[e][l] == high)
      g.discard(); // two of them are the highest: either error may count
    if (e >= 0 && !s.out(e, l) && s.elts->getElementParam()[e]->GetLines()[l].IsStrong() && before[e][l] > high) {
      high = before[e][l];
      lim = high + err[e][l];
    }
  }
  bool changed = false;
  auto want = before;
  for (size_t e = 0; e < want.size(); ++e) {
    auto const &l = s.elts->getElementParam()[e]->GetLines()[0];
    if (l.IsEmission() && !s.out(e, 0) && std::find(tags.begin(), tags.end(), l.GetName()) == tags.end() && want[e][0] > lim) {
      want[e][0] = lim;
      changed = true;
    }
  }
  requireSame(g, s, after, want, "super strong amplitudes", 1e-13);
  requireSame(g, s, snapshot(s, true), err, "errors", 0.);
  rule.Apply(*s.elts);
  requireSame(g, s, snapshot(s), after, "twice", 1e-13);
  g.label(changed ? "corrected" : "nothing to do");
  g.nontrivial(changed);
}

PROP("P18", regulament, 2000, 40000) {
  System s;
  std::string which = g.pick({"balmerSingle", "ratioRange", "strongWeak", "all"});
  makeSystem(g, s, which == "strongWeak" ? kSameForce : which == "ratioRange" || g.b() ? kSingle : kAny, ElementComposition::Default, 1);
  setAmplitudes(g, s);
  auto before = snapshot(s), err = snapshot(s, true);
  CRegulament r;
  r.CreateRulesFromJSONFiles();
  r.EnableRulesAccordingToParameters(which);
  r.EnableLogs(true);
  r.Apply(*s.elts);
  auto after = snapshot(s);
  bool changed = false;
  if (which == "balmerSingle")
    changed = checkBalmer(g, s, BALMER, before, after);
  else if (which == "ratioRange")
    changed = checkRatio(g, s, RATIO, before, err, after);
  else if (which == "strongWeak") {
    changed = checkStrongWeak(g, s, true, before, err, after, false);
    changed = checkStrongWeak(g, s, false, before, err, after, false) || changed;
  } else {
    // the rules work one after the other: only amplitudes that satisfy all of them from the start are sure to stay
    bool ok = true;
    auto now = before;
    for (auto const &p : BALMER) {
      auto [ea, la] = s.at(p.a, p.em);
      auto [eb, lb] = s.at(p.b, p.em);
      if (ea >= 0 && eb >= 0)
        ok = ok && !(now[eb][lb] > p.c * now[ea][la] * (1 - 1e-12));
    }
    for (auto const &p : RATIO) {
      auto [ea, la] = s.at(p.a, p.em);
      auto [eb, lb] = s.at(p.b, p.em);
      if (ea >= 0 && eb >= 0)
        ok = ok && !(now[eb][lb] > p.c * now[ea][la] * (1 - 1e-12)) && !(now[ea][la] > p.c * now[eb][lb] * (1 - 1e-12));
    }
    double low[2] = {INFINITY, INFINITY}, high[2] = {-INFINITY, -INFINITY};
    for (size_t e = 0; e < now.size(); ++e)
      for (int l = 0; l < s.size(e); ++l) {
        auto const &line = s.elts->getElementParam()[e]->GetLines()[l];
        if (line.IsStrong() && now[e][l] < low[line.IsEmission()])
          low[line.IsEmission()] = now[e][l];
        if (line.IsWeak() && now[e][l] > high[line.IsEmission()])
          high[line.IsEmission()] = now[e][l];
      }
    ok = ok && !(high[0] > low[0]) && !(high[1] > low[1]);
    if (ok) {
      requireSame(g, s, after, before, "satisfied from the start", 0.);
      g.label("all rules satisfied from the start");
    }
    for (auto const &v : after)
      for (double a : v)
        REQUIRE_(!(a < 0), "negative", "amplitude ", a);
    g.nontrivial(!ok);
    return;
  }
  r.Apply(*s.elts);
  requireSame(g, s, snapshot(s), after, "twice", 1e-11);
  g.label(which);
  g.nontrivial(changed);
}
