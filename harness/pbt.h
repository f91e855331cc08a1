// A small property-based-testing engine.
//
// A test draws everything it needs from a recorded sequence of choices, so that any failure - a violated
// check, an unexpected exception, a sanitizer report, a crash or a hang - is shrunk by editing that
// sequence and replayed from it. Cases run in forked workers; the choices of the case under way are kept
// in shared memory, where they survive a crash of the worker.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string key, msg;
};
struct Discard {};

class Ctx {
public:
  // -- raw choices ------------------------------------------------------------------------------
  uint64_t draw(uint64_t max); // uniform in [0,max], 0 is the simplest choice
  // -- derived generators -----------------------------------------------------------------------
  int i(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo))); } // simplest: lo
  size_t n(size_t lo, size_t hi) { return lo + size_t(draw(hi - lo)); }
  bool b() { return draw(1) == 1; }
  bool chance(int percent) { return int(draw(99)) >= 100 - percent; } // simplest: false
  bool chance(double) = delete; // a percentage is expected
  double u() { return double(draw(1u << 24)) / double(1u << 24); }    // [0,1]
  double f(double lo, double hi) { return lo + (hi - lo) * u(); }
  double logf(double lo, double hi) { return lo * std::pow(hi / lo, u()); }
  double gauss();
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  template <class V> typename V::value_type pickv(const V &v) { return v[draw(v.size() - 1)]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t k = v.size(); k > 1; --k)
      std::swap(v[k - 1], v[k - 1 - draw(k - 1)]);
  }
  // -- book-keeping -----------------------------------------------------------------------------
  void nontrivial(bool yes = true) { m_nontrivial = m_nontrivial || yes; }
  void label(const std::string &s) { m_labels.insert(s); }
  template <class... A> void note(const A &...a) {
    if (m_note.size() > 4000)
      return;
    std::ostringstream os;
    os.precision(9);
    (os << ... << a);
    m_note += os.str() + "; ";
  }
  template <class T> void notev(const char *name, const std::vector<T> &v, size_t maxn = 12) {
    std::ostringstream os;
    os.precision(7);
    os << name << "[" << v.size() << "]=";
    for (size_t k = 0; k < v.size() && k < maxn; ++k)
      os << (k ? "," : "") << +v[k];
    if (v.size() > maxn)
      os << ",...";
    note(os.str());
  }
  void discard() { throw Discard(); }

  bool m_nontrivial = false;
  std::set<std::string> m_labels;
  std::string m_note;
  // state of the choice source
  uint64_t m_state = 0;
  const uint64_t *m_replay = nullptr;
  size_t m_nreplay = 0, m_pos = 0;
  bool m_tier_thorough = false;
  uint64_t hash = 1469598103934665603ULL;
};

using TestFn = std::function<void(Ctx &)>;
struct Test {
  std::string prop, name;
  size_t quick, thorough; // number of cases
  TestFn fn;
};
std::vector<Test> &registry();
struct Reg {
  Reg(const char *prop, const char *name, size_t quick, size_t thorough, TestFn fn) {
    registry().push_back({prop, name, quick, thorough, std::move(fn)});
  }
};

template <class... A> [[noreturn]] void fail(const std::string &key, const A &...a) {
  std::ostringstream os;
  os.precision(12);
  (os << ... << a);
  throw Failure{key, os.str()};
}

// relative/absolute closeness; NaN is close to nothing
inline bool close(double a, double b, double rtol, double atol = 0.) {
  if (a == b)
    return true;
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(prop, name, quick, thorough)                                                                    \
  static void PBT_CAT(prop_fn_, name)(pbt::Ctx & g);                                                         \
  static pbt::Reg PBT_CAT(prop_reg_, name)(prop, #name, quick, thorough, PBT_CAT(prop_fn_, name));           \
  static void PBT_CAT(prop_fn_, name)(pbt::Ctx & g)

#define REQUIRE_(cond, key, ...)                                                                             \
  do {                                                                                                       \
    if (!(cond))                                                                                             \
      pbt::fail(key, "[" #cond "] ", ##__VA_ARGS__);                                                         \
  } while (0)

#define REQUIRE_CLOSE(a, b, rtol, atol, key, ...)                                                            \
  do {                                                                                                       \
    double a_ = (a), b_ = (b);                                                                               \
    if (!pbt::close(a_, b_, rtol, atol))                                                                     \
      pbt::fail(key, #a " = ", a_, " but expected " #b " = ", b_, " ", ##__VA_ARGS__);                       \
  } while (0)

int main_(int argc, char **argv);
} // namespace pbt
