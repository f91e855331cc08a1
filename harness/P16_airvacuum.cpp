// Air and vacuum wavelengths: the published formulas, order, inversion, arrays, spectral axes.
#include "util.h"
#include "pbt.h"

#include "RedshiftLibrary/line/airvacuum.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"

using namespace NSEpic;
using pbt::Ctx;
using namespace util;

namespace {
struct Law {
  std::string name;
  double a, b1, c1, b2, c2, lo, hi;
  // refractive index of air at a vacuum wavelength (Angstrom)
  long double n(long double w) const {
    long double s = 1e8L / (w * w);
    return 1 + a + b1 / (c1 - s) + b2 / (c2 - s);
  }
  long double air(long double w) const { return w / n(w); }
  long double vacuum(long double air) const {
    long double w = air;
    for (int i = 0; i < 60; ++i)
      w = air * n(w);
    return w;
  }
};
const std::vector<Law> LAWS = {
    {"edlen1953", 6.4328e-5, 2.94981e-2, 146., 2.5540e-4, 41., 2000, 200000},
    {"edlen1966", 8.34213e-5, 2.406030e-2, 130., 1.5997e-4, 38.9, 2000, 200000},
    {"PeckReeder1972", 0, 5.791817e-2, 238.0185, 1.67909e-3, 57.362, 3000, 19000},
    {"ciddor1996", 0, 5.792105e-2, 238.0185, 1.67917e-3, 57.362, 3000, 19000},
    {"morton2000", 8.34254e-5, 2.406147e-2, 130., 1.5998e-4, 38.9, 3000, 19000},
};

V wavelengths(Ctx &g, const Law &l) {
  V x;
  int n = g.pick({1, 2, g.i(1, 60), g.i(1, 400)});
  int how = g.i(0, 3);
  double top = g.pick({l.hi, std::min(l.hi, 30000.)});
  if (how == 0) { // a spectrum
    double lo = g.f(l.lo, 0.5 * (l.lo + top)), step = g.logf(1e-3, (top - lo) / n);
    for (int i = 0; i < n; ++i)
      x.push_back(lo + i * step);
  } else // anywhere, the limits included
    for (int i = 0; i < n; ++i)
      x.push_back(g.pick({l.lo, l.hi, g.f(l.lo, top), g.logf(l.lo, l.hi)}));
  if (how == 2)
    std::sort(x.begin(), x.end());
  if (how == 3 && n > 1)
    x[g.i(0, n - 1)] = x[0];
  return x;
}
} // namespace

PROP("P16", formula, 3000, 60000) {
  const Law &l = g.pickv(LAWS);
  auto conv = CAirVacuumConverter::Get(l.name);
  V vac = wavelengths(g, l);
  g.note(l.name, " ", vac.size(), " wavelengths");
  g.notev("vacuum", vac);
  g.nontrivial(vac.size() > 1);
  V keep = vac, n = conv->AirRefractiveIndex(vac), air = conv->VacToAir(vac);
  REQUIRE_(vac == keep && n.size() == vac.size() && air.size() == vac.size(), "size", "");
  for (size_t i = 0; i < vac.size(); ++i) {
    REQUIRE_CLOSE(n[i] - 1, double(l.n(vac[i]) - 1), 1e-10, 0, "index", vac[i]);
    REQUIRE_CLOSE(air[i], double(l.air(vac[i])), 1e-14, 0, "air", vac[i]);
    double frac = (vac[i] - air[i]) / vac[i];
    REQUIRE_(frac > 2.5e-4 && frac < 3.5e-4, "fraction", frac);
    REQUIRE_(conv->VacToAir({vac[i]})[0] == air[i], "one by one", vac[i]);
  }
  for (size_t i = 1; i < vac.size(); ++i)
    REQUIRE_((vac[i] > vac[i - 1] * (1 + 1e-14)) ? air[i] > air[i - 1] : vac[i] == vac[i - 1] ? air[i] == air[i - 1] : true, "order", vac[i - 1],
             " ", vac[i]);
}

PROP("P16", inverse, 3000, 60000) {
  const Law &l = g.pickv(LAWS);
  auto conv = CAirVacuumConverter::Get(l.name);
  V air = wavelengths(g, l), keep = air;
  g.note(l.name, " ", air.size(), " wavelengths");
  g.notev("air", air);
  g.nontrivial(air.size() > 1);
  V vac = conv->AirToVac(air);
  REQUIRE_(air == keep && vac.size() == air.size(), "size", "");
  // the stated precision is 1e-9 Angstrom for the iterated inverses; the closed form of Morton is an approximation
  bool iterated = l.name != "morton2000";
  for (size_t i = 0; i < air.size(); ++i) {
    double atol = iterated ? 2e-9 + 4e-16 * air[i] : 1e-9 * air[i];
    REQUIRE_CLOSE(vac[i], double(l.vacuum(air[i])), 0, atol, "vacuum", air[i]);
    REQUIRE_CLOSE(vac[i] / double(l.n(vac[i])), air[i], 0, atol, "air-vacuum-air", air[i]);
    REQUIRE_(vac[i] > air[i], "larger", air[i]);
    REQUIRE_CLOSE(conv->AirToVac({air[i]})[0], vac[i], 0, atol, "one by one", air[i]);
  }
  for (size_t i = 1; i < air.size(); ++i) {
    if (air[i] == air[i - 1])
      REQUIRE_(vac[i] == vac[i - 1], "order", air[i]);
    else if (std::abs(air[i] - air[i - 1]) > 1e-8)
      REQUIRE_((vac[i] > vac[i - 1]) == (air[i] > air[i - 1]), "order", air[i - 1], " ", air[i]);
  }
  // the other way round
  V ok;
  for (double w : keep)
    if (l.air(w) >= l.lo)
      ok.push_back(w);
  if (ok.empty())
    return;
  V back = conv->AirToVac(conv->VacToAir(ok));
  for (size_t i = 0; i < ok.size(); ++i)
    REQUIRE_CLOSE(back[i], ok[i], 0, iterated ? 4e-9 + 1e-15 * ok[i] : 1e-9 * ok[i], "vacuum-air-vacuum", ok[i]);
}

PROP("P16", axis, 1500, 20000) {
  const Law &l = g.pickv(LAWS);
  auto conv = CAirVacuumConverter::Get(l.name);
  V air = wavelengths(g, l), keep = air;
  g.note(l.name, " ", air.size(), " wavelengths");
  bool sorted = true;
  for (size_t i = 1; i < air.size(); ++i)
    sorted = sorted && air[i] > air[i - 1] + 1e-8;
  bool strange = false;
  for (size_t i = 1; i < air.size(); ++i)
    strange = strange || (air[i] != air[i - 1] && std::abs(air[i] - air[i - 1]) <= 1e-8);
  V vac = conv->AirToVac(air);
  CSpectrumSpectralAxis a(air, l.name), b(TFloat64List(air), l.name), c(air.data(), int(air.size()), l.name);
  CSpectrumSpectralAxis p(air), q(air, std::string("")), r(air.data(), int(air.size()));
  g.nontrivial(air.size() > 1);
  for (auto *x : {&a, &b, &c}) {
    REQUIRE_(x->GetSamplesVector() == vac, "axis", "");
    if (!strange)
      REQUIRE_(x->isSorted() == sorted, "axis-sorted", "");
  }
  for (auto *x : {&p, &q, &r})
    REQUIRE_(x->GetSamplesVector() == keep, "vacuum-axis", "");
  // wavelengths outside the domain of the formula, no wavelength and unknown formulas are refused
  V bad = air;
  size_t k = g.i(0, int(bad.size()) - 1);
  bad[k] = g.b() || l.hi > 19000 ? g.pick({l.lo - 0.01, g.f(1, l.lo), 0., -5000.}) : g.pick({19000.01, g.f(19001, 1e6)});
  g.notev("bad", V{bad[k]});
  REQUIRE_(throws([&] { conv->AirToVac(bad); }), "domain", bad[k]);
  REQUIRE_(throws([&] { conv->VacToAir(bad); }), "domain", bad[k]);
  REQUIRE_(throws([&] { CSpectrumSpectralAxis x(bad, l.name); }), "domain", bad[k]);
  REQUIRE_(throws([&] { conv->AirToVac({}); }) && throws([&] { conv->VacToAir({}); }), "empty", "");
  std::string other = g.pick({std::string("Edlen1953"), l.name + " ", std::string("ciddor"), std::string("none")});
  REQUIRE_(throws([&] { CAirVacuumConverter::Get(other); }) && throws([&] { CSpectrumSpectralAxis x(air, other); }), "unknown", other);
}
