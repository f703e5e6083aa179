// Sparse Hessians and their patterns.
#include "deriv.hpp"
#include "dep.hpp"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
using namespace prog;
using namespace refd;
using namespace ADOLC::Sparse;
const CheckInfo CHECK{"C16",
  "a case records a random scalar program (up to 10 variables) or a structured sparse function (banded, arrow, random quadratic and nonlinear terms, up to 130 variables) and runs a history of "
  "pattern computations, sparse Hessians with a new or a reused structure at several points, arrays of the caller or of the library, C wrappers, seed matrices, inconsistent numbers of entries, "
  "all control-flow and recovery options; oracle: data-flow bounds of nonlinear interactions and exact second derivatives; non-trivial: a Hessian evaluation with at least one non-zero off-diagonal entry, or a reused structure at another point with a nonlinear program",
  20000, 300000, 26, 600, {"points are 0.02 away from kinks and ties; programs are limited to 16 operations because the pattern sweep may visit every path; a structure found in tight mode is reused only at points whose interactions it contains; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using uint = unsigned int;
using Bits = std::vector<std::vector<char>>;
const char *CF[] = {"safe", "tight", "oldsafe", "oldtight"};
int hpat(int k, short t, int n, const double *x, std::span<uint *> &s) {
  switch (k) { case 0: return ADOLC::Sparse::hess_pat<ControlFlowMode::Safe>(t, n, x, s); case 1: return ADOLC::Sparse::hess_pat<ControlFlowMode::Tight>(t, n, x, s);
  case 2: return ADOLC::Sparse::hess_pat<ControlFlowMode::OldSafe>(t, n, x, s); default: return ADOLC::Sparse::hess_pat<ControlFlowMode::OldTight>(t, n, x, s); }
}
template <RecoveryMethod R> int sh(int k, short t, int n, int rep, const double *x, int *nnz, uint **r, uint **c, double **v) {
  switch (k) { case 0: return ADOLC::Sparse::sparse_hess<ControlFlowMode::Safe, R>(t, n, rep, x, nnz, r, c, v); case 1: return ADOLC::Sparse::sparse_hess<ControlFlowMode::Tight, R>(t, n, rep, x, nnz, r, c, v);
  case 2: return ADOLC::Sparse::sparse_hess<ControlFlowMode::OldSafe, R>(t, n, rep, x, nnz, r, c, v); default: return ADOLC::Sparse::sparse_hess<ControlFlowMode::OldTight, R>(t, n, rep, x, nnz, r, c, v); }
}
struct Item {
  int n;
  std::vector<std::vector<double>> pts;
  std::vector<Bits> lo;
  Bits losafe, hi;
  std::vector<std::vector<std::vector<std::pair<long double, double>>>> H;
  std::vector<double> scale;
  std::function<bool(int, int)> rc_ok;
};
bool within(const Bits &a, const Bits &b) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) if (a[i][j] && !b[i][j]) return false; return true; }
void judge(Case &c, const std::string &nm, const Bits &b, const Item &it, int p, bool safe) {
  auto &lo = safe ? it.losafe : it.lo[p];
  for (int i = 0; i < it.n; ++i) for (int j = 0; j < it.n; ++j) {
    c.check(b[i][j] == b[j][i], "asymmetric-" + nm, cat(nm, ": (", i, ",", j, ") without its mirror image"));
    c.check(b[i][j] || !lo[i][j], "missing-" + nm, cat(nm, " at ", show(it.n > 20 ? std::vector<double>() : it.pts[p]), ": interaction (", i, ",", j, ") is missing"));
    c.check(!b[i][j] || it.hi[i][j], "extra-" + nm, cat(nm, " at ", show(it.n > 20 ? std::vector<double>() : it.pts[p]), ": interaction (", i, ",", j, ") is reported although no operation joins them"));
  }
}
void history(Case &c, short id, const Item &it, bool nonlinear) {
  Gen &g = c.g;
  int n = it.n;
  bool have = false;
  Bits cached;
  int hnnz = 0, hk = 0, hr = 0, hp = 0, lastp = -1;
  uint *ri = nullptr, *ci = nullptr;
  double *vv = nullptr;
  struct Free { uint *&a, *&b; double *&d; ~Free() { delete[] a; delete[] b; delete[] d; } } fr{ri, ci, vv};
  auto drop = [&](int w) { if (w & 1) { delete[] ri; ri = nullptr; } if (w & 2) { delete[] ci; ci = nullptr; } if (w & 4) { delete[] vv; vv = nullptr; } };
  int len = n > 12 ? g.range(1, 4) : g.range(2, 7), cap = 0;
  for (int s = 0; s < len; ++s) {
    int k = (int)g.below(4), r = (int)g.below(2), p = (int)g.below(it.pts.size());
    bool cw = g.coin();
    const double *x = it.pts[p].data();
    bool tight = k & 1;
    int what = g.pick({3, 5, 4, 1});
    if (what == 0) {
      std::vector<uint *> row(n, nullptr);
      struct Rows { std::vector<uint *> &r; ~Rows() { for (auto *q : r) delete[] q; } } rows{row};
      std::span<uint *> sp(row);
      std::string nm = cat("hess_pat-", CF[k]);
      const double *xx = !tight && g.chance(1, 4) ? nullptr : x;
      int rc = cw ? ::hess_pat(id, n, xx, row.data(), &k) : hpat(k, id, n, xx, sp);
      c.desc << nm << (cw ? " (C)" : "") << " at point " << p << "\n";
      c.label(nm);
      c.check(rc >= 0, "code-" + nm, cat(nm, " returned ", rc));
      Bits b(n, std::vector<char>(n, 0));
      for (int i = 0; i < n; ++i) {
        c.check(row[i], "row-null", cat(nm, ": row ", i, " is null"));
        for (uint q = 1; q <= row[i][0]; ++q) {
          c.check(row[i][q] < (uint)n, "row-range", cat(nm, ": row ", i, " lists ", row[i][q]));
          c.check(!b[i][row[i][q]], "row-twice", cat(nm, ": row ", i, " lists ", row[i][q], " twice"));
          b[i][row[i][q]] = 1;
        }
      }
      judge(c, nm, b, it, p, !tight);
      if (g.chance(1, 3)) {
        double **S = nullptr;
        int q = 0;
        bool cw2 = g.coin();
        c.desc << "seed matrix " << (r ? "direct" : "indirect") << "\n";
        c.label("seed");
        if (cw2) ::generate_seed_hess(n, row.data(), &S, &q, &r);
        else if (r) ADOLC::Sparse::generate_seed_hess<RecoveryMethod::Direct>(n, sp, &S, &q);
        else ADOLC::Sparse::generate_seed_hess<RecoveryMethod::Indirect>(n, sp, &S, &q);
        struct FS { double **S; int n; ~FS() { if (S) for (int i = 0; i < n; ++i) delete[] S[i]; delete[] S; } } fs{S, n};
        c.check(S, "seed-null", "no seed matrix");
        std::vector<int> col(n, -1);
        for (int i = 0; i < n; ++i) for (int j = 0; j < q; ++j) {
          c.check(S[i][j] == 0 || S[i][j] == 1, "seed-value", cat("seed entry ", S[i][j]));
          if (S[i][j] == 1) { c.check(col[i] == -1, "seed-double", cat("variable ", i, " is in two groups")); col[i] = j; }
        }
        for (int i = 0; i < n; ++i) c.check(col[i] >= 0, "seed-none", cat("variable ", i, " is in no group"));
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) c.check(!b[i][j] || col[i] != col[j], "seed-clash", cat("interacting variables ", i, " and ", j, " share a group"));
      }
      continue;
    }
    bool reuse = what >= 2;
    int nnz = reuse ? hnnz : (int)g.below(5);
    if (!have && reuse) {
      if (g.chance(2, 3)) continue;
      int opt[2] = {k, r};
      int rc = cw ? ::sparse_hess(id, n, 1, x, &nnz, &ri, &ci, &vv, opt) : r ? sh<RecoveryMethod::Direct>(k, id, n, 1, x, &nnz, &ri, &ci, &vv) : sh<RecoveryMethod::Indirect>(k, id, n, 1, x, &nnz, &ri, &ci, &vv);
      c.desc << "reuse without structure\n";
      c.check(rc < 0, "reuse-none", cat("sparse_hess with repeat = 1 before any structure was built returned ", rc));
      continue;
    }
    if (reuse) {
      k = hk; r = hr;
      if ((hk & 1) && p != hp && !within(it.lo[p], cached)) continue;
      if (what == 3) nnz += g.coin() ? 1 : -1; // inconsistent
    } else drop(7); // storage for a new structure is not known
    bool bad = reuse && what == 3;
    bool own = false;
    if (reuse && !bad) {
      int mode = (int)g.below(3); // library's arrays from before, fresh arrays by the library, partly given
      if (mode == 1) drop(7);
      else if (mode == 2) drop(1 + (int)g.below(7));
      else if (!ri || cap < nnz) { drop(7); ri = new uint[nnz]; ci = new uint[nnz]; vv = new double[nnz]; }
      own = ri && ci && vv;
      if (own) for (int q = 0; q < nnz; ++q) { ri[q] = ci[q] = 99999; vv[q] = 55; }
    }
    uint *r0 = ri, *c0 = ci;
    double *v0 = vv;
    int opt[2] = {k, r};
    int rc = cw ? ::sparse_hess(id, n, reuse, x, &nnz, &ri, &ci, &vv, opt) : r ? sh<RecoveryMethod::Direct>(k, id, n, reuse, x, &nnz, &ri, &ci, &vv) : sh<RecoveryMethod::Indirect>(k, id, n, reuse, x, &nnz, &ri, &ci, &vv);
    std::string nm = cat("sparse_hess-", CF[k], r ? "-direct" : "-indirect", reuse ? "-reuse" : "");
    c.desc << nm << (cw ? " (C)" : "") << (bad ? " inconsistent" : "") << " at point " << p << "\n";
    if (bad) { c.check(rc < 0, "inconsistent", cat("sparse_hess accepted ", nnz, " instead of ", hnnz, " entries, code ", rc)); continue; }
    c.label(nm);
    c.check(it.rc_ok(p, rc), "code-" + nm, cat(nm, " at point ", p, " returned ", rc));
    if (own) c.check(ri == r0 && ci == c0 && vv == v0, "arrays", "arrays of the caller were replaced");
    c.check(ri && ci && vv, "no-arrays", cat(nm, " returned null arrays"));
    cap = nnz;
    Bits b(n, std::vector<char>(n, 0));
    for (int q = 0; q < nnz; ++q) {
      c.check(ri[q] < (uint)n && ci[q] < (uint)n, "entry-range", cat(nm, ": entry ", q, " is (", ri[q], ",", ci[q], ")"));
      c.check(!b[ri[q]][ci[q]], "entry-twice", cat(nm, ": entry (", ri[q], ",", ci[q], ") appears twice"));
      b[ri[q]][ci[q]] = b[ci[q]][ri[q]] = 1;
      auto [l, d] = it.H[p][ri[q]][ci[q]];
      c.check(close(vv[q], l, d, it.scale[p]), "value-" + nm, cat(nm, " at point ", p, ": entry (", ri[q], ",", ci[q], ") is ", vv[q], " expected ", (double)l));
    }
    bool off = false;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (it.H[p][i][j].first != 0) {
      c.check(b[i][j], "lost-" + nm, cat(nm, " at point ", p, ": entry (", i, ",", j, ") with value ", (double)it.H[p][i][j].first, " is not among the entries"));
      off |= i != j;
    }
    if (reuse) c.check(b == cached, "structure-" + nm, cat(nm, ": the entries differ from those of the structure"));
    else { judge(c, nm, b, it, p, !tight); cached = b; have = true; hnnz = nnz; hk = k; hr = r; hp = p; }
    if (off || (reuse && lastp >= 0 && lastp != p && nonlinear)) c.interesting();
    lastp = p;
  }
}
void structured(Case &c) {
  Gen &g = c.g;
  int n = g.chance(1, 4) ? g.range(60, 130) : g.range(2, 24);
  struct T { int i, j, k; double a; };
  std::vector<T> f;
  int shape = (int)g.below(4), bw = g.range(1, 3);
  auto term = [&](int i, int j) { f.push_back({i, j, (int)g.below(4), g.real(0.25, 1.5)}); };
  if (shape == 0) for (int i = 0; i < n; ++i) for (int j = std::max(0, i - bw); j <= i; ++j) term(i, j);
  else if (shape == 1) for (int i = 0; i < n; ++i) { term(i, i); term(0, i); }
  else if (shape == 2) for (int t = g.range(0, 2 * n); t > 0; --t) term((int)g.below(n), (int)g.below(n));
  else for (int i = 0; i < n; ++i) { term(i, (i + 1) % n); if (g.coin()) term(i, (i * 7 + 3) % n); }
  c.desc << "structured n=" << n << " shape " << shape << " width " << bw << " terms " << f.size() << "\n";
  Item it;
  it.n = n;
  it.rc_ok = [](int, int rc) { return rc == 3; };
  for (int p = 0; p < 2; ++p) { std::vector<double> x; double a = g.real(0.2, 1.2), b = g.real(0.1, 0.6); for (int i = 0; i < n; ++i) x.push_back(a + b * std::sin(i * 1.7)); it.pts.push_back(x); }
  // k: 0 a*x_i*x_j, 1 a*sin(x_i*x_j), 2 a*x_i (linear), 3 a*exp(x_i)*x_j
  Bits lo(n, std::vector<char>(n, 0)), hi = lo;
  auto set = [](Bits &b, int i, int j) { b[i][j] = b[j][i] = 1; };
  for (auto &t : f) {
    if (t.k == 2) continue;
    set(lo, t.i, t.j);
    if (t.k == 1) { set(lo, t.i, t.i); set(lo, t.j, t.j); }
    if (t.k == 3) set(lo, t.i, t.i);
    set(hi, t.i, t.j); set(hi, t.i, t.i); set(hi, t.j, t.j);
  }
  it.lo = {lo, lo}; it.losafe = lo; it.hi = hi;
  for (auto &x : it.pts) {
    std::vector<std::vector<long double>> H(n, std::vector<long double>(n, 0));
    for (auto &t : f) {
      long double u = x[t.i], v = x[t.j], a = t.a, s = std::sin(u * v), co = std::cos(u * v);
      if (t.k == 0) { H[t.i][t.j] += a; H[t.j][t.i] += a; }
      else if (t.k == 1) {
        if (t.i == t.j) H[t.i][t.i] += a * (2 * co - 4 * u * u * s);
        else { H[t.i][t.i] -= a * v * v * s; H[t.j][t.j] -= a * u * u * s; H[t.i][t.j] += a * (co - u * v * s); H[t.j][t.i] += a * (co - u * v * s); }
      } else if (t.k == 3) {
        if (t.i == t.j) H[t.i][t.i] += a * std::exp(u) * (u + 2);
        else { H[t.i][t.i] += a * std::exp(u) * v; H[t.i][t.j] += a * std::exp(u); H[t.j][t.i] += a * std::exp(u); }
      }
    }
    double sc = 0;
    std::vector<std::vector<std::pair<long double, double>>> q(n, std::vector<std::pair<long double, double>>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { q[i][j] = {H[i][j], (double)H[i][j]}; sc = std::max(sc, (double)std::fabs(H[i][j])); }
    it.H.push_back(q); it.scale.push_back(sc);
  }
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  trace_on(id);
  {
    std::vector<adouble> x(n);
    for (int i = 0; i < n; ++i) x[i] <<= it.pts[0][i];
    double y;
    adouble s = 0.5;
    for (auto &t : f) {
      if (t.k == 0) s += t.a * x[t.i] * x[t.j];
      else if (t.k == 1) s += t.a * sin(x[t.i] * x[t.j]);
      else if (t.k == 2) s += t.a * x[t.i];
      else s += t.a * exp(x[t.i]) * x[t.j];
    }
    s >>= y;
  }
  trace_off();
  c.label(cat("shape", shape));
  history(c, id, it, !f.empty());
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(1, 5)) return structured(c);
  Opts o;
  o.npts = 3; o.nmax = g.coin() ? 4 : 10; o.mmax = 1; o.imax = 16; o.maxslots = 16; o.banned_fns = {F_CBRT};
  Program P = random_program(g, o);
  if (P.m != 1) c.discard();
  c.desc << P.str();
  Item it;
  int n = it.n = P.n;
  it.pts = P.pts;
  auto bits = [&](const dep::D &d) { Bits b(n, std::vector<char>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = d.inter(i, j); return b; };
  dep::structure(P, P.pts[0], true, true);
  it.hi.assign(n, std::vector<char>(n));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) it.hi[i][j] = dep::touched()[i] >> j & 1; // values that are not used afterwards count, too
  it.losafe = bits(dep::structure(P, P.pts[0], true, false)[0]);
  for (auto &x : P.pts) {
    it.lo.push_back(bits(dep::structure(P, x, false, false)[0]));
    auto q = refd::hessians(P, x);
    if (!finite(q)) c.discard();
    std::vector<std::vector<std::pair<long double, double>>> h(n, std::vector<std::pair<long double, double>>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h[i][j] = {q.l[i * n + j], q.d[i * n + j]};
    it.H.push_back(h);
    it.scale.push_back(q.scale());
  }
  it.rc_ok = [&](int p, int rc) { return refd::rc_ok(P, P.pts[p], rc); };
  taping::reset_library();
  short id = (short)createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  taping::trace(id, P, P.pts[0]);
  history(c, id, it, P.nnonlin >= 2);
}
