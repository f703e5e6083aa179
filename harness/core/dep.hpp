// Structural reference: which independents a value depends on, how strongly, and
// which pairs interact nonlinearly. Two readings: a lower bound (must be reported)
// and an upper bound (nothing beyond it may be reported).
#pragma once
#include "prog.hpp"
namespace dep {
struct Cfg { int n = 0; bool both = false; bool upper = false; };
inline Cfg &cfg() { static thread_local Cfg c; return c; }
// interactions of all values of the last structure(), used or not
inline std::vector<uint64_t> &touched() { static thread_local std::vector<uint64_t> t; return t; }
struct D {
  double v = 0;
  std::vector<uint8_t> c;  // class per independent: 0 none 1 linear 2 polynomial 3 rational 4 transcendental
  std::vector<uint64_t> h; // interaction rows
  D(double x = 0) : v(x) {}
  explicit operator double() const { return v; }
  static D ind(int i, double x) { D d(x); d.c.assign(cfg().n, 0); d.c[i] = 1; return d; }
  uint64_t mask() const { uint64_t m = 0; for (size_t i = 0; i < c.size(); ++i) if (c[i]) m |= 1ull << i; return m; }
  bool has(int i) const { return !c.empty() && c[i]; }
  bool inter(int i, int j) const { return !h.empty() && (h[i] >> j & 1); }
  void join(const D &o) { // dependence of a sum
    if (!o.c.empty()) { if (c.empty()) c.assign(cfg().n, 0); for (size_t i = 0; i < c.size(); ++i) c[i] = std::max(c[i], o.c[i]); }
    if (!o.h.empty()) { if (h.empty()) h.assign(cfg().n, 0); for (size_t i = 0; i < h.size(); ++i) h[i] |= o.h[i]; }
  }
  void cross(uint64_t a, uint64_t b) {
    if (!a || !b) return;
    if (h.empty()) h.assign(cfg().n, 0);
    auto &t = touched();
    for (int i = 0; i < cfg().n; ++i) { if (a >> i & 1) { h[i] |= b; t[i] |= b; } if (b >> i & 1) { h[i] |= a; t[i] |= a; } }
  }
  void atleast(int k, const D &o) { for (size_t i = 0; i < o.c.size(); ++i) if (o.c[i]) c[i] = std::max<uint8_t>(c[i], k); }
};
inline double v0(const D &d) { return d.v; }
inline D lin(double v, const D &a) { D r(v); r.join(a); return r; }
inline D lin(double v, const D &a, const D &b) { D r(v); r.join(a); r.join(b); return r; }
inline D non(double v, const D &a, int k) { D r(v); r.join(a); r.atleast(k, a); r.cross(a.mask(), a.mask()); return r; }
inline D non(double v, const D &a, const D &b, int k) {
  D r(v); r.join(a); r.join(b); r.atleast(k, a); r.atleast(k, b);
  uint64_t m = a.mask() | b.mask(); r.cross(m, m); return r;
}
inline D operator+(const D &a, const D &b) { return lin(a.v + b.v, a, b); }
inline D operator-(const D &a, const D &b) { return lin(a.v - b.v, a, b); }
inline D operator-(const D &a) { return lin(-a.v, a); }
inline D operator*(const D &a, const D &b) {
  D r(a.v * b.v);
  uint64_t ma = a.mask(), mb = b.mask();
  if (!cfg().upper && ((a.v == 0 && !ma) || (b.v == 0 && !mb))) return r; // product with the constant zero
  r.join(a); r.join(b);
  if (cfg().upper) { uint64_t m = ma | mb; r.cross(m, m); }
  else r.cross(ma, mb);
  if (ma && mb) { r.atleast(2, a); r.atleast(2, b); }
  return r;
}
inline D operator/(const D &a, const D &b) {
  uint64_t ma = a.mask(), mb = b.mask();
  D r(a.v / b.v);
  if (!cfg().upper && a.v == 0 && !ma) return r;
  r.join(a); r.join(b);
  if (cfg().upper) r.cross(ma | mb, ma | mb);
  if (mb) { r.atleast(3, b); r.atleast(2, a); r.cross(ma, mb); r.cross(mb, mb); }
  return r;
}
inline D &operator+=(D &a, const D &b) { return a = a + b; }
inline D &operator-=(D &a, const D &b) { return a = a - b; }
inline D &operator*=(D &a, const D &b) { return a = a * b; }
inline D &operator/=(D &a, const D &b) { return a = a / b; }
#define DEPU(f, k) inline D f(const D &a) { return non(std::f(a.v), a, k); }
DEPU(exp, 4) DEPU(log, 4) DEPU(sqrt, 4) DEPU(cbrt, 4) DEPU(sin, 4) DEPU(cos, 4) DEPU(tan, 4) DEPU(asin, 4) DEPU(acos, 4) DEPU(atan, 4) DEPU(sinh, 4)
DEPU(cosh, 4) DEPU(tanh, 4) DEPU(asinh, 4) DEPU(acosh, 4) DEPU(atanh, 4) DEPU(erf, 4) DEPU(erfc, 4) DEPU(log10, 4)
#undef DEPU
inline D fabs(const D &a) { return lin(std::fabs(a.v), a); }
inline D floor(const D &a) { return cfg().upper ? lin(std::floor(a.v), a) : D(std::floor(a.v)); }
inline D ceil(const D &a) { return cfg().upper ? lin(std::ceil(a.v), a) : D(std::ceil(a.v)); }
inline D fmin(const D &a, const D &b) {
  if (cfg().both) return lin(std::fmin(a.v, b.v), a, b);
  return a.v < b.v ? a : a.v > b.v ? b : lin(a.v, a, b);
}
inline D fmax(const D &a, const D &b) {
  if (cfg().both) return lin(std::fmax(a.v, b.v), a, b);
  return a.v > b.v ? a : a.v < b.v ? b : lin(a.v, a, b);
}
inline D pow(const D &a, double k) {
  double v = std::pow(a.v, k);
  if (!cfg().upper) { if (k == 0) return D(v); if (k == 1) return lin(v, a); }
  return non(v, a, k < 0 ? 3 : 2);
}
inline D pow(double k, const D &a) {
  double v = std::pow(k, a.v);
  if (!cfg().upper && k == 1) return D(v);
  return non(v, a, 4);
}
inline D pow(const D &a, const D &b) { return non(std::pow(a.v, b.v), a, b, a.mask() && b.mask() ? 4 : 2); }
inline D atan2(const D &a, const D &b) { return non(std::atan2(a.v, b.v), a, b, 3); }
inline bool operator<(const D &a, const D &b) { return a.v < b.v; }
inline bool operator>(const D &a, const D &b) { return a.v > b.v; }
// structure of every output at a point
inline std::vector<D> structure(const prog::Program &P, const std::vector<double> &x, bool both, bool upper) {
  cfg() = {P.n, both, upper};
  touched().assign(P.n, 0);
  std::vector<D> in;
  for (int i = 0; i < P.n; ++i) in.push_back(D::ind(i, x[i]));
  return prog::eval<D>(P, in);
}
} // namespace dep
namespace prog {
template <> struct CondOps<dep::D> {
  using T = dep::D;
  static void pick(T &r, bool yes, const T &a, const T &b) { T s = yes ? a : b; if (dep::cfg().both) s.join(yes ? b : a); r = s; }
  static void c4(T &r, const T &c, const T &a, const T &b) { pick(r, c.v > 0, a, b); }
  static void c3(T &r, const T &c, const T &a) { T o = r; pick(r, c.v > 0, a, o); }
  static void e4(T &r, const T &c, const T &a, const T &b) { pick(r, c.v >= 0, a, b); }
  static void e3(T &r, const T &c, const T &a) { T o = r; pick(r, c.v >= 0, a, o); }
};
} // namespace prog
