// Reference derivatives of a program, in long double and double.
#pragma once
#include "tape.hpp"

namespace refd {
using prog::Program;
using LD = long double;

// a family of quantities with both evaluations
struct Q {
  std::vector<LD> l;
  std::vector<double> d;
  double scale() const { double s = 0; for (LD x : l) s = std::max(s, (double)std::fabs((double)x)); return s; }
};
// evaluates in long double and, twice, in noisy arithmetic; the spread of the noisy results is
// kept as the difference between d and l, in units of what double arithmetic would show
inline void fold_noise(Q &q, const std::vector<ref::Nz> &t) {
  if (q.d.empty()) for (LD x : q.l) q.d.push_back((double)x);
  for (size_t i = 0; i < q.l.size(); ++i) {
    double e = std::fabs(t[i].v - (double)q.l[i]) * 1.3e-4, have = std::fabs(q.d[i] - (double)q.l[i]);
    if (!(e <= have)) q.d[i] = (double)q.l[i] + e;
  }
}
template <class F> void fold(F f, Q &q) {
  f(LD(0), q.l);
  for (uint64_t s = 1; s <= 2; ++s) {
    std::vector<ref::Nz> t;
    ref::Nz::state() = s;
    f(ref::Nz(0), t);
    fold_noise(q, t);
  }
}
// one value per index; comparison of arrays
struct Bad { bool bad = false; size_t idx = 0; double got = 0, want = 0; };
inline Bad cmp(const std::vector<double> &got, const Q &w, double scale = -1) {
  double s = scale < 0 ? w.scale() : scale;
  for (size_t i = 0; i < w.l.size(); ++i)
    if (!close(got[i], w.l[i], w.d[i], s)) return {true, i, got[i], (double)w.l[i]};
  return {};
}

template <class R> std::vector<ref::Alg<R>> run(const Program &P, const ref::Ctx &C, const std::vector<ref::Alg<R>> &x, const std::vector<double> *par = nullptr) {
  ref::Use u(C);
  return prog::eval<ref::Alg<R>>(P, x, par);
}

// all reference evaluations finite?
inline bool finite(const Q &q) { for (auto x : q.l) if (!std::isfinite((double)x)) return false; for (auto x : q.d) if (!std::isfinite(x)) return false; return true; }

// values y[m]
inline Q values(const Program &P, const std::vector<double> &x, const std::vector<double> *par = nullptr) {
  Q q;
  auto C = ref::Ctx::taylor(0);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> X;
    for (double v : x) X.emplace_back(v);
    for (auto &y : run<R>(P, C, X, par)) out.push_back(y.c[0]);
  };
  fold(f, q);
  return q;
}
// Jacobian J[m][n] row major
inline Q jacobian(const Program &P, const std::vector<double> &x, const std::vector<double> *par = nullptr) {
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::taylor_grad(0, n);
  std::vector<int> at(n);
  for (int i = 0; i < n; ++i) { std::vector<int> e(n + 1, 0); e[i + 1] = 1; at[i] = C.at(e); }
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> X;
    for (int i = 0; i < n; ++i) { X.emplace_back(x[i]); X.back().c[at[i]] = 1; }
    for (auto &y : run<R>(P, C, X, par)) for (int i = 0; i < n; ++i) out.push_back(y.c[at[i]]);
  };
  fold(f, q);
  return q;
}
// Taylor coefficients Y[m][d+1] of F(x + sum_j X[.][j] t^(j+1)), X[n][d]
inline Q taylor(const Program &P, const std::vector<double> &x, const std::vector<std::vector<double>> &X, int d, const std::vector<double> *par = nullptr) {
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::taylor(d);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x[i]); for (int j = 0; j < d; ++j) A.back().c[j + 1] = X[i][j]; }
    for (auto &y : run<R>(P, C, A, par)) for (int j = 0; j <= d; ++j) out.push_back(y.c[j]);
  };
  fold(f, q);
  return q;
}
// Jacobian path coefficients A[m][n][d+1]: F'(x(t)) = sum_j A_j t^j
inline Q jacpath(const Program &P, const std::vector<double> &x, const std::vector<std::vector<double>> &X, int d, const std::vector<double> *par = nullptr) {
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::taylor_grad(d, n);
  auto at = [&](int j, int i) { std::vector<int> e(n + 1, 0); e[0] = j; if (i >= 0) e[i + 1] = 1; return C.at(e); };
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) {
      A.emplace_back(x[i]);
      for (int j = 0; j < d; ++j) A.back().c[at(j + 1, -1)] = X[i][j];
      A.back().c[at(0, i)] = 1;
    }
    for (auto &y : run<R>(P, C, A, par))
      for (int i = 0; i < n; ++i) for (int j = 0; j <= d; ++j) out.push_back(y.c[at(j, i)]);
  };
  fold(f, q);
  return q;
}
// full second derivatives H[m][n][n] (true Hessians)
inline Q hessians(const Program &P, const std::vector<double> &x, const std::vector<double> *par = nullptr) {
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::multi(n, 2);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x[i]); std::vector<int> e(n, 0); e[i] = 1; A.back().c[C.at(e)] = 1; }
    for (auto &y : run<R>(P, C, A, par))
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        std::vector<int> e(n, 0); e[i]++; e[j]++;
        out.push_back(y.c[C.at(e)] * (i == j ? R(2) : R(1)));
      }
  };
  fold(f, q);
  return q;
}
// linear combination of selected entries: out_k = sum coef * q[idx]
struct Lin {
  Q q;
  void add(const Q &s, const std::vector<std::pair<size_t, double>> &t) {
    LD a = 0; double b = 0, mag = 0;
    for (auto &[i, c] : t) { a += (LD)c * s.l[i]; b += std::fabs(c) * std::fabs((double)((LD)s.d[i] - s.l[i])); mag = std::max(mag, std::fabs(c * (double)s.l[i])); }
    q.l.push_back(a);
    q.d.push_back((double)(a + b));
    sc = std::max(sc, mag);
  }
  double sc = 0;
};
// return code a sweep may give at x: 3 where nothing differs from the recording,
// 2 or 3 where a min/max/abs/condassign/floor may select otherwise than it did when recording
inline bool rc_ok(const Program &P, const std::vector<double> &x, int rc) {
  return rc == 3 || (rc == 2 && !P.smooth && x != P.pts[0]);
}
inline std::string show(const std::vector<double> &v) { std::ostringstream o; o.precision(17); o << "["; for (double x : v) o << x << " "; o << "]"; return o.str(); }
inline std::vector<double> reals(Gen &g, int n, double lo = -2, double hi = 2) { std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(g.real(lo, hi)); return v; }
} // namespace refd
