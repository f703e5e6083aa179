// Reference arithmetic: truncated (multivariate) power series with exact
// multiplication tables. Elementary functions are evaluated by composing the
// nilpotent part with the one-dimensional expansion of the function at the
// constant term. Nothing here uses ADOL-C.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

namespace ref {
// ---- noisy double: every inexact elementary result is perturbed by up to 2^-40
// relative, so that the spread of an evaluation shows how much rounding matters.
struct Nz {
  double v;
  Nz() : v(0) {}
  Nz(double x) : v(x) {}
  explicit operator double() const { return v; }
  static uint64_t &state() { static thread_local uint64_t s = 1; return s; }
  static Nz mk(double x) {
    if (std::fabs(x) < 1e9 && x == (double)(long)x) return Nz(x); // integers are exact in either arithmetic
    uint64_t &s = state();
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    double u = (double)((int64_t)(s >> 11) - (int64_t)(1ull << 52)) * (1.0 / (double)(1ull << 52));
    return Nz(x + x * u * 0x1p-40);
  }
  Nz &operator+=(Nz o) { return *this = mk(v + o.v); }
  Nz &operator-=(Nz o) { return *this = mk(v - o.v); }
  Nz &operator*=(Nz o) { return *this = mk(v * o.v); }
  Nz &operator/=(Nz o) { return *this = mk(v / o.v); }
  Nz operator-() const { return Nz(-v); }
  friend Nz operator+(Nz a, Nz b) { return mk(a.v + b.v); }
  friend Nz operator-(Nz a, Nz b) { return mk(a.v - b.v); }
  friend Nz operator*(Nz a, Nz b) { return mk(a.v * b.v); }
  friend Nz operator/(Nz a, Nz b) { return mk(a.v / b.v); }
  friend bool operator<(Nz a, Nz b) { return a.v < b.v; }
  friend bool operator>(Nz a, Nz b) { return a.v > b.v; }
  friend bool operator==(Nz a, Nz b) { return a.v == b.v; }
};
} // namespace ref
namespace std {
#define NZF(f) inline ref::Nz f(ref::Nz a) { return ref::Nz::mk(std::f(a.v)); }
NZF(exp) NZF(log) NZF(sqrt) NZF(cbrt) NZF(sin) NZF(cos) NZF(asin) NZF(acos) NZF(atan) NZF(sinh) NZF(cosh)
NZF(asinh) NZF(acosh) NZF(atanh) NZF(erf) NZF(erfc)
#undef NZF
inline ref::Nz pow(ref::Nz a, ref::Nz b) { return ref::Nz::mk(std::pow(a.v, b.v)); }
inline ref::Nz atan2(ref::Nz a, ref::Nz b) { return ref::Nz::mk(std::atan2(a.v, b.v)); }
inline ref::Nz fabs(ref::Nz a) { return ref::Nz(std::fabs(a.v)); }
inline ref::Nz floor(ref::Nz a) { return ref::Nz(std::floor(a.v)); }
inline ref::Nz ceil(ref::Nz a) { return ref::Nz(std::ceil(a.v)); }
} // namespace std
namespace ref {

struct Ctx {
  int N = 1;   // number of monomials, index 0 is the constant
  int nil = 0; // h^(nil+1) == 0 for h without constant term
  struct E { int i, j, k; };
  std::vector<E> tab;
  std::vector<std::vector<int>> exps;
  std::map<std::vector<int>, int> index;
  template <class Pred> void build(int nv, int maxdeg, Pred ok) {
    std::vector<std::vector<int>> all;
    std::vector<int> cur(nv, 0);
    std::function<void(int, int)> rec = [&](int v, int left) {
      if (v == nv) {
        if (ok(cur)) all.push_back(cur);
        return;
      }
      for (int e = 0; e <= left; ++e) {
        cur[v] = e;
        rec(v + 1, left - e);
      }
      cur[v] = 0;
    };
    rec(0, maxdeg);
    auto deg = [](const std::vector<int> &a) { int s = 0; for (int x : a) s += x; return s; };
    std::stable_sort(all.begin(), all.end(), [&](auto &a, auto &b) { return deg(a) < deg(b); });
    exps = all;
    N = (int)all.size();
    for (int i = 0; i < N; ++i) index[all[i]] = i;
    nil = deg(all.back());
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) {
        std::vector<int> s(nv);
        for (int v = 0; v < nv; ++v) s[v] = all[i][v] + all[j][v];
        auto it = index.find(s);
        if (it != index.end()) tab.push_back({i, j, it->second});
      }
  }
  // univariate Taylor series t^0..t^d ; monomial index == power
  static Ctx taylor(int d) {
    Ctx c;
    c.build(1, d, [](const std::vector<int> &) { return true; });
    return c;
  }
  // t^j * {1, e_1..e_n}
  static Ctx taylor_grad(int d, int n) {
    Ctx c;
    c.build(n + 1, d + 1, [d](const std::vector<int> &e) {
      int s = 0;
      for (size_t i = 1; i < e.size(); ++i) s += e[i];
      return s <= 1 && e[0] <= d;
    });
    return c;
  }
  // all monomials of total degree <= d in p variables
  static Ctx multi(int p, int d) {
    Ctx c;
    c.build(p, d, [](const std::vector<int> &) { return true; });
    return c;
  }
  int at(const std::vector<int> &e) const { return index.at(e); }
};

inline const Ctx *&ctx() {
  static thread_local const Ctx *c = nullptr;
  return c;
}
struct Use { // RAII selection of a context
  const Ctx *old;
  explicit Use(const Ctx &c) : old(ctx()) { ctx() = &c; }
  ~Use() { ctx() = old; }
};

template <class R> struct Alg {
  std::vector<R> c;
  Alg() : c((size_t)ctx()->N, R(0)) {}
  Alg(double v) : c((size_t)ctx()->N, R(0)) { c[0] = R(v); }
  R value() const { return c[0]; }
};
template <class R> R v0(const Alg<R> &a) { return a.c[0]; }
inline double v0(double a) { return a; }

template <class R> Alg<R> operator+(const Alg<R> &a, const Alg<R> &b) { Alg<R> r; for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
template <class R> Alg<R> operator-(const Alg<R> &a, const Alg<R> &b) { Alg<R> r; for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
template <class R> Alg<R> operator-(const Alg<R> &a) { Alg<R> r; for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = -a.c[i]; return r; }
template <class R> Alg<R> operator*(const Alg<R> &a, const Alg<R> &b) {
  Alg<R> r;
  for (auto &e : ctx()->tab) r.c[e.k] += a.c[e.i] * b.c[e.j];
  return r;
}
template <class R> Alg<R> scale(const Alg<R> &a, R s) { Alg<R> r; for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = a.c[i] * s; return r; }
template <class R> Alg<R> compose(const std::vector<R> &f, const Alg<R> &a) {
  Alg<R> h = a, r;
  h.c[0] = 0;
  int n = ctx()->nil;
  r.c[0] = f[n];
  for (int k = n - 1; k >= 0; --k) {
    r = r * h;
    r.c[0] += f[k];
  }
  return r;
}

// ---- one-dimensional expansions: coefficients of f(a + t) up to degree d
template <class R> using V = std::vector<R>;
template <class R> V<R> s_exp(R a, int d) { V<R> f(d + 1); f[0] = std::exp(a); for (int k = 1; k <= d; ++k) f[k] = f[k - 1] / R(k); return f; }
template <class R> V<R> s_log(R a, int d) {
  V<R> f(d + 1);
  f[0] = std::log(a);
  R p = 1;
  for (int k = 1; k <= d; ++k) { p *= -a; f[k] = -R(1) / (R(k) * p); }
  // (-1)^(k+1)/(k a^k) : with p = (-a)^k this is -1/(k p)
  return f;
}
template <class R> V<R> s_pow(R a, R r, int d) {
  V<R> f(d + 1);
  f[0] = std::pow(a, r);
  if (a == R(0)) { // only for non-negative integers r
    for (int k = 1; k <= d; ++k) f[k] = (R(k) == r) ? R(1) : R(0);
    f[0] = r == R(0) ? R(1) : R(0);
    return f;
  }
  R b = 1;
  for (int k = 1; k <= d; ++k) {
    b *= (r - R(k - 1)) / R(k);
    f[k] = b == R(0) ? R(0) : b * std::pow(a, r - R(k));
  }
  return f;
}
template <class R> V<R> s_sin(R a, int d) { V<R> f(d + 1); R w[4] = {std::sin(a), std::cos(a), -std::sin(a), -std::cos(a)}; R q = 1; for (int k = 0; k <= d; ++k) { if (k) q *= R(k); f[k] = w[k % 4] / q; } return f; }
template <class R> V<R> s_cos(R a, int d) { V<R> f(d + 1); R w[4] = {std::cos(a), -std::sin(a), -std::cos(a), std::sin(a)}; R q = 1; for (int k = 0; k <= d; ++k) { if (k) q *= R(k); f[k] = w[k % 4] / q; } return f; }
template <class R> V<R> s_sinh(R a, int d) { V<R> f(d + 1); R w[2] = {std::sinh(a), std::cosh(a)}; R q = 1; for (int k = 0; k <= d; ++k) { if (k) q *= R(k); f[k] = w[k % 2] / q; } return f; }
template <class R> V<R> s_cosh(R a, int d) { V<R> f(d + 1); R w[2] = {std::cosh(a), std::sinh(a)}; R q = 1; for (int k = 0; k <= d; ++k) { if (k) q *= R(k); f[k] = w[k % 2] / q; } return f; }
template <class R> V<R> mulv(const V<R> &a, const V<R> &b) { V<R> r(a.size(), R(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; i + j < a.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
// p(t)^r with p[0] != 0
template <class R> V<R> powv(const V<R> &p, R r) {
  size_t n = p.size();
  V<R> q(n);
  q[0] = std::pow(p[0], r);
  for (size_t k = 1; k < n; ++k) {
    R s = 0;
    for (size_t j = 1; j <= k; ++j) s += (r * R(j) - R(k - j)) * p[j] * q[k - j];
    q[k] = s / (R(k) * p[0]);
  }
  return q;
}
template <class R> V<R> expv(const V<R> &p) {
  size_t n = p.size();
  V<R> q(n);
  q[0] = std::exp(p[0]);
  for (size_t k = 1; k < n; ++k) {
    R s = 0;
    for (size_t j = 1; j <= k; ++j) s += R(j) * p[j] * q[k - j];
    q[k] = s / R(k);
  }
  return q;
}
template <class R> V<R> integ(R f0, const V<R> &g, int d) { V<R> f(d + 1); f[0] = f0; for (int k = 1; k <= d; ++k) f[k] = g[k - 1] / R(k); return f; }
// alpha + beta (a+t)^2 as coefficients
template <class R> V<R> quad(R al, R be, R a, int d) { V<R> p(d + 1, R(0)); p[0] = al + be * a * a; if (d >= 1) p[1] = R(2) * be * a; if (d >= 2) p[2] = be; return p; }
template <class R> V<R> s_asin(R a, int d) { return integ(std::asin(a), powv(quad(R(1), R(-1), a, d), R(-0.5)), d); }
template <class R> V<R> s_acos(R a, int d) { auto f = integ(R(0), powv(quad(R(1), R(-1), a, d), R(-0.5)), d); for (auto &x : f) x = -x; f[0] = std::acos(a); return f; }
template <class R> V<R> s_atan(R a, int d) { return integ(std::atan(a), powv(quad(R(1), R(1), a, d), R(-1)), d); }
template <class R> V<R> s_asinh(R a, int d) { return integ(std::asinh(a), powv(quad(R(1), R(1), a, d), R(-0.5)), d); }
template <class R> V<R> s_acosh(R a, int d) { return integ(std::acosh(a), powv(quad(R(-1), R(1), a, d), R(-0.5)), d); }
template <class R> V<R> s_atanh(R a, int d) { return integ(std::atanh(a), powv(quad(R(1), R(-1), a, d), R(-1)), d); }
template <class R> V<R> s_erf(R a, int d) {
  auto g = expv(quad(R(0), R(-1), a, d));
  R c = R(2) / std::sqrt(std::acos(R(-1)));
  for (auto &x : g) x *= c;
  return integ(std::erf(a), g, d);
}
template <class R> V<R> s_cbrt(R a, int d) {
  if (a > 0) { auto f = s_pow(a, R(1) / R(3), d); f[0] = std::cbrt(a); return f; }
  auto f = s_pow(-a, R(1) / R(3), d); // cbrt(a+t) = -cbrt(-a-t)
  for (int k = 0; k <= d; ++k) f[k] = (k % 2) ? f[k] : -f[k];
  f[0] = std::cbrt(a);
  return f;
}

#define REF_UN(name) template <class R> Alg<R> name(const Alg<R> &a) { return compose(s_##name(a.c[0], ctx()->nil), a); }
REF_UN(exp) REF_UN(log) REF_UN(sin) REF_UN(cos) REF_UN(sinh) REF_UN(cosh) REF_UN(asin) REF_UN(acos)
REF_UN(atan) REF_UN(asinh) REF_UN(acosh) REF_UN(atanh) REF_UN(erf) REF_UN(cbrt)
#undef REF_UN
template <class R> Alg<R> sqrt(const Alg<R> &a) { auto f = s_pow(a.c[0], R(0.5), ctx()->nil); f[0] = std::sqrt(a.c[0]); return compose(f, a); }
template <class R> Alg<R> pow(const Alg<R> &a, double r) { return compose(s_pow(a.c[0], R(r), ctx()->nil), a); }
template <class R> Alg<R> operator/(const Alg<R> &a, const Alg<R> &b) { return a * compose(s_pow(b.c[0], R(-1), ctx()->nil), b); }
template <class R> Alg<R> pow(const Alg<R> &a, const Alg<R> &b) { return exp(b * log(a)); }
template <class R> Alg<R> pow(double a, const Alg<R> &b) { return exp(scale(b, std::log(R(a)))); }
template <class R> Alg<R> tan(const Alg<R> &a) { return sin(a) / cos(a); }
template <class R> Alg<R> tanh(const Alg<R> &a) { return sinh(a) / cosh(a); }
template <class R> Alg<R> log10(const Alg<R> &a) { return scale(log(a), R(1) / std::log(R(10))); }
template <class R> Alg<R> erfc(const Alg<R> &a) { Alg<R> r = -erf(a); r.c[0] = std::erfc(a.c[0]); return r; }
// when set, replaces the absolute value (and, through it, minimum and maximum)
template <class R> std::function<Alg<R>(const Alg<R> &)> *&abs_hook() { static thread_local std::function<Alg<R>(const Alg<R> &)> *h = nullptr; return h; }
template <class R> Alg<R> fabs(const Alg<R> &a) { if (abs_hook<R>()) return (*abs_hook<R>())(a); return a.c[0] < 0 ? -a : a; }
template <class R> Alg<R> hooked_min(const Alg<R> &a, const Alg<R> &b) { return (a + b - fabs(a - b)) * Alg<R>(0.5); }
template <class R> Alg<R> atan2(const Alg<R> &y, const Alg<R> &x) {
  R y0 = y.c[0], x0 = x.c[0];
  Alg<R> num = scale(y, x0) - scale(x, y0), den = scale(x, x0) + scale(y, y0);
  num.c[0] = 0;
  Alg<R> r = atan(num / den);
  r.c[0] = std::atan2(y0, x0);
  return r;
}
template <class R> Alg<R> fmin(const Alg<R> &a, const Alg<R> &b) { if (abs_hook<R>()) return hooked_min(a, b); return a.c[0] < b.c[0] ? a : b; }
template <class R> Alg<R> fmax(const Alg<R> &a, const Alg<R> &b) { if (abs_hook<R>()) return -hooked_min(-a, -b); return a.c[0] > b.c[0] ? a : b; }
template <class R> Alg<R> floor(const Alg<R> &a) { return Alg<R>((double)std::floor(a.c[0])); }
template <class R> Alg<R> ceil(const Alg<R> &a) { return Alg<R>((double)std::ceil(a.c[0])); }
} // namespace ref
