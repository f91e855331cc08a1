#pragma once
#include "pbt.h"

#include "RedshiftLibrary/common/datatypes.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/common/range.h"

#include <functional>

namespace util {
using namespace NSEpic;
using pbt::Ctx;
typedef std::vector<double> V;

// true and the code when fn throws a library exception; anything else is passed on
inline bool throws(const std::function<void()> &fn, ErrorCode *code = nullptr, std::string *msg = nullptr) {
  try {
    fn();
  } catch (const AmzException &e) {
    if (code)
      *code = e.getErrorCode();
    if (msg)
      *msg = e.what();
    return true;
  }
  return false;
}

// strictly increasing irregular axis
inline V incAxis(Ctx &g, size_t n, double start, double minStep, double maxStep) {
  V v(n);
  double x = start;
  int kind = g.i(0, 2); // constant, irregular, wild
  double base = g.f(minStep, maxStep);
  for (size_t k = 0; k < n; ++k) {
    v[k] = x;
    double s = base;
    if (kind == 1)
      s = g.f(minStep, maxStep);
    else if (kind == 2)
      s = g.logf(minStep, maxStep);
    x += s;
  }
  return v;
}

inline V linAxis(size_t n, double start, double step) {
  V v(n);
  for (size_t k = 0; k < n; ++k)
    v[k] = start + step * double(k);
  return v;
}
inline V logAxis(size_t n, double start, double dlog) {
  V v(n);
  for (size_t k = 0; k < n; ++k)
    v[k] = start * std::exp(dlog * double(k));
  return v;
}

// a curve over [0,n): smooth bumps, noise, steps; few choices so that it shrinks well
inline V curve(Ctx &g, size_t n, double scale) {
  V v(n, 0.);
  int nb = g.i(0, 3);
  for (int b = 0; b < nb; ++b) {
    double c = g.f(0, double(n)), w = g.logf(0.7, 3 + double(n) / 4), a = scale * g.f(-1, 1);
    for (size_t k = 0; k < n; ++k)
      v[k] += a * std::exp(-0.5 * (k - c) * (k - c) / w / w);
  }
  if (g.b()) {
    double a = scale * g.f(0, 0.5);
    for (size_t k = 0; k < n; ++k)
      v[k] += a * g.gauss();
  }
  return v;
}

// trapezoid log-integral of exp(y) over x, in long double
inline long double logIntegral(const V &y, const V &x) {
  long double m = -INFINITY;
  for (double t : y)
    m = std::max(m, (long double)t);
  long double s = 0;
  for (size_t k = 1; k < x.size(); ++k)
    s += ((long double)x[k] - x[k - 1]) * 0.5L * (expl(y[k] - m) + expl(y[k - 1] - m));
  return m + logl(s);
}
inline long double logSum(const std::vector<long double> &y) {
  long double m = -INFINITY, s = 0;
  for (auto t : y)
    m = std::max(m, t);
  for (auto t : y)
    s += expl(t - m);
  return m + logl(s);
}
} // namespace util
