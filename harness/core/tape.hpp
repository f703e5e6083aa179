// Taping of random programs with ADOL-C.
#pragma once
#include "prog.hpp"
#include <adolc/adolc.h>

namespace prog {
template <> struct Traits<adouble> {
  static constexpr bool rvalue = true;
};
template <> struct CondOps<adouble> {
  static void c4(adouble &r, const adouble &c, const adouble &a, const adouble &b) { condassign(r, c, a, b); }
  static void c3(adouble &r, const adouble &c, const adouble &a) { condassign(r, c, a); }
  static void e4(adouble &r, const adouble &c, const adouble &a, const adouble &b) { condeqassign(r, c, a, b); }
  static void e3(adouble &r, const adouble &c, const adouble &a) { condeqassign(r, c, a); }
};
template <> struct VecOps<adouble> {
  static adouble run(const Ins &q, std::vector<std::optional<adouble>> &s) {
    size_t k = q.v.size();
    adouble t(0.0);
    currentTape().ensureContiguousLocations(k);
    std::vector<adouble> dst(k);
    currentTape().ensureContiguousLocations(k);
    std::vector<adouble> src(k);
    currentTape().ensureContiguousLocations(k);
    std::vector<adouble> src2(k);
    for (size_t i = 0; i < k; ++i) { const adouble &a = *s[q.w[i]]; dst[i] = a; const adouble &b = *s[q.v[i]]; src[i] = b; }
    for (size_t i = 0; i < k; ++i) t += dst[i] * dst[i];
    for (size_t i = 0; i < k; ++i) { const adouble &b = dst[(i + 1) % k]; src2[i] = b; }
    if (q.op == VCOPY) adolc_vec_copy(dst.data(), src.data(), k);
    else adolc_vec_axpy(dst.data(), *s[q.a], src.data(), src2.data(), k);
    for (size_t i = 0; i < k; ++i) t += (double)(i + 1) * dst[i];
    if (q.i) {
      adouble e(adolc_vec_dot(dst.data(), src.data(), k));
      t += 0.5 * e;
    }
    return t;
  }
};
struct ParamPool { // pdoubles of the tape being recorded
  std::vector<pdouble> p;
};
inline ParamPool *&pool() { static thread_local ParamPool *p = nullptr; return p; }
template <> struct ParOps<adouble> {
  static adouble bin(int, bool, const adouble &a, double) { return a; }
  static void comp(int, adouble &, double) {}
};
} // namespace prog

namespace taping {
using prog::Program;

inline void reset_library() {
  setCurrentTape((ValueTape *)nullptr);
  while (!currentTapeStack().empty()) currentTapeStack().pop();
  tapeBuffer().clear();
}

// evaluate the program with adoubles on the current (recording) tape
inline void exec(const Program &P, std::vector<std::optional<adouble>> &s, const std::vector<double> &pv, size_t from = 0, size_t to = (size_t)-1) {
  for (size_t k = from; k < std::min(to, P.ins.size()); ++k) {
    auto &q = P.ins[k];
    if (q.op == prog::PFUN) {
      const pdouble &p = prog::pool()->p[q.b], &p2 = prog::pool()->p[q.c];
      if (q.i == 14) *s[q.d] = p;
      else if (q.i == 15) prog::put(s, q.d, adouble(p));
      else { const adouble &a = *s[q.a]; prog::put(s, q.d, prog::pfun<adouble, pdouble>(q, a, p, p2)); }
      continue;
    }
    if (q.op == prog::PBIN || q.op == prog::PCOMP) {
      const pdouble &p = prog::pool()->p[q.b];
      if (q.op == prog::PCOMP) {
        adouble &d = *s[q.d];
        if (q.i == 0) d += p; else if (q.i == 1) d -= p; else if (q.i == 2) d *= p; else d /= p;
      } else {
        const adouble &a = *s[q.a];
        auto f = [&]() -> adouble {
          switch (q.i) {
          case 0: return q.j ? a + p : p + a;
          case 1: return q.j ? a - p : p - a;
          case 2: return q.j ? a * p : p * a;
          default: return q.j ? a / p : p / a;
          }
        };
        prog::put(s, q.d, f());
      }
      continue;
    }
    prog::step<adouble>(q, s, pv);
  }
}

struct Sizes { size_t op = 0, loc = 0, val = 0, tay = 0; };

// how a recording is started (default: trace_on(tag, keep))
inline std::function<int(short, int)> &starter() { static thread_local std::function<int(short, int)> f; return f; }
inline void set_trace_on(std::function<int(short, int)> f) { starter() = std::move(f); }
// trace the program at x; returns outputs
inline std::vector<double> trace(short id, const Program &P, const std::vector<double> &x, int keep = 0, int offflag = 0) {
  setCurrentTape(id);
  std::vector<double> y(P.out.size());
  if (starter()) starter()(id, keep); else trace_on(id, keep);
  {
    prog::ParamPool pp;
    for (double v : P.params) pp.p.emplace_back(v);
    auto *old = prog::pool();
    prog::pool() = &pp;
    std::vector<std::optional<adouble>> s(P.nslots);
    for (int i = 0; i < P.n; ++i) {
      s[i].emplace();
      *s[i] <<= x[i];
    }
    if (P.mark.empty()) exec(P, s, P.params);
    size_t pc = 0;
    for (size_t j = 0; j < P.out.size(); ++j) {
      if (!P.mark.empty()) { exec(P, s, P.params, pc, P.mark[j]); pc = P.mark[j]; }
      *s[P.out[j]] >>= y[j];
    }
    if (!P.mark.empty()) exec(P, s, P.params, pc);
    prog::pool() = old;
  }
  trace_off(offflag);
  return y;
}

// row-pointer matrix
struct Mat {
  std::vector<double> d;
  std::vector<double *> r;
  size_t nr, nc;
  Mat(size_t a, size_t b, double init = 0) : d(a * b ? a * b : 1, init), r(a ? a : 1), nr(a), nc(b) { for (size_t i = 0; i < a; ++i) r[i] = d.data() + i * b; }
  Mat(const Mat &o) : d(o.d), r(o.r.size()), nr(o.nr), nc(o.nc) { for (size_t i = 0; i < nr; ++i) r[i] = d.data() + i * nc; }
  Mat &operator=(const Mat &o) {
    d = o.d; nr = o.nr; nc = o.nc; r.assign(nr ? nr : 1, nullptr);
    for (size_t i = 0; i < nr; ++i) r[i] = d.data() + i * nc;
    return *this;
  }
  double **p() { return r.data(); }
  double *operator[](size_t i) { return r[i]; }
};
struct Ten { // three-level
  std::vector<double> d;
  std::vector<double *> r;
  std::vector<double **> q;
  size_t a, b, c;
  Ten(size_t A, size_t B, size_t C, double init = 0) : d(A * B * C + 1, init), r(A * B + 1), q(A + 1), a(A), b(B), c(C) {
    for (size_t i = 0; i < A; ++i) {
      for (size_t j = 0; j < B; ++j) r[i * B + j] = d.data() + (i * B + j) * C;
      q[i] = r.data() + i * B;
    }
  }
  Ten(const Ten &) = delete;
  double ***p() { return q.data(); }
  double **operator[](size_t i) { return q[i]; }
};
} // namespace taping

// ---------------------------------------------------------------- comparing
struct Ref {
  // long double and double evaluations of the same quantity
  std::vector<long double> l;
  std::vector<double> d;
};
struct Cmp {
  Case &c;
  double scale = 0; // largest reference magnitude seen
  explicit Cmp(Case &cc) : c(cc) {}
};
inline bool close(double got, long double want, double want_d, double scale) {
  if (std::isnan(got) || std::isinf(got)) return false;
  double e = std::fabs((double)(got - want));
  double noise = std::fabs((double)((long double)want_d - want));
  return e <= 1e-9 * (1.0 + std::fabs((double)want)) + 2e-11 * scale + 1e4 * noise;
}
