// Sparse Jacobians and their patterns.
#include "deriv.hpp"
#include "dep.hpp"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <numeric>
using namespace prog;
using namespace refd;
using namespace ADOLC::Sparse;
const CheckInfo CHECK{"C15",
  "a case records a random program (up to 12 variables and 10 results, all operations, early dependents) or a wide sparse function (up to 2000 variables or results, sizes around "
  "multiples of the word and strip length) and runs a history of pattern computations, sparse Jacobians with a new or a reused structure, automatic or caller's storage, C wrappers and "
  "seed matrices with random option combinations at several points; oracle: data-flow bounds of the program and the exact Jacobian; non-trivial: a Jacobian evaluation "
  "of a nonlinear program with at least two columns in one compressed direction or an evaluation with a reused structure at another point",
  20000, 300000, 26, 600, {"points are 0.02 away from kinks; a structure found in tight mode is reused only at points whose dependencies it contains; a structure is reused only with the compression it was built for; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using uint = unsigned int;
using BP = BitPatternPropagationDirection;
struct Combo { int sm, cfm, bp, cm; std::string str() const { return cat(sm ? "bits" : "index", cfm ? "-tight" : "-safe", sm ? (bp == 0 ? "-auto" : bp == 1 ? "-fwd" : "-rev") : "", cm ? "-row" : "-col"); } };
template <SparseMethod SM, ControlFlowMode CFM, BP B> int pat(short t, int m, int n, const double *x, std::span<uint *> &s) { return ADOLC::Sparse::jac_pat<SM, CFM, B>(t, m, n, x, s); }
int pattern(const Combo &k, short t, int m, int n, const double *x, std::span<uint *> &s) {
  constexpr auto ID = SparseMethod::IndexDomains, BT = SparseMethod::BitPattern;
  constexpr auto S = ControlFlowMode::Safe, T = ControlFlowMode::Tight;
  if (!k.sm) return k.cfm ? pat<ID, T, BP::Auto>(t, m, n, x, s) : pat<ID, S, BP::Auto>(t, m, n, x, s);
  if (k.cfm) return k.bp == 0 ? pat<BT, T, BP::Auto>(t, m, n, x, s) : k.bp == 1 ? pat<BT, T, BP::Forward>(t, m, n, x, s) : pat<BT, T, BP::Reverse>(t, m, n, x, s);
  return k.bp == 0 ? pat<BT, S, BP::Auto>(t, m, n, x, s) : k.bp == 1 ? pat<BT, S, BP::Forward>(t, m, n, x, s) : pat<BT, S, BP::Reverse>(t, m, n, x, s);
}
template <SparseMethod SM, CompressionMode CM, ControlFlowMode CFM, BP B> int sj(bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &A) {
  return man ? ADOLC::Sparse::sparse_jac<SM, CM, CFM, B, MemoryHandler::Manual>(t, m, n, rep, x, A) : ADOLC::Sparse::sparse_jac<SM, CM, CFM, B, MemoryHandler::Auto>(t, m, n, rep, x, A);
}
template <CompressionMode CM> int sjc(const Combo &k, bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &A) {
  constexpr auto ID = SparseMethod::IndexDomains, BT = SparseMethod::BitPattern;
  constexpr auto S = ControlFlowMode::Safe, T = ControlFlowMode::Tight;
  if (!k.sm) return k.cfm ? sj<ID, CM, T, BP::Auto>(man, t, m, n, rep, x, A) : sj<ID, CM, S, BP::Auto>(man, t, m, n, rep, x, A);
  if (k.cfm) return k.bp == 0 ? sj<BT, CM, T, BP::Auto>(man, t, m, n, rep, x, A) : k.bp == 1 ? sj<BT, CM, T, BP::Forward>(man, t, m, n, rep, x, A) : sj<BT, CM, T, BP::Reverse>(man, t, m, n, rep, x, A);
  return k.bp == 0 ? sj<BT, CM, S, BP::Auto>(man, t, m, n, rep, x, A) : k.bp == 1 ? sj<BT, CM, S, BP::Forward>(man, t, m, n, rep, x, A) : sj<BT, CM, S, BP::Reverse>(man, t, m, n, rep, x, A);
}
int sjac(const Combo &k, bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &A) {
  return k.cm ? sjc<CompressionMode::Row>(k, man, t, m, n, rep, x, A) : sjc<CompressionMode::Column>(k, man, t, m, n, rep, x, A);
}
using Bits = std::vector<std::vector<char>>; // [m][n]
struct Item { // what is known about a tape
  int n, m;
  std::vector<std::vector<double>> pts;
  std::vector<Bits> lo;     // must be reported at point (tight)
  std::vector<Bits> losafe; // must be reported in safe mode
  Bits hi;                  // may be reported
  std::vector<std::vector<std::tuple<int, int, long double, double>>> J; // nonzero entries per point
  std::vector<double> scale;
  std::function<bool(int, int)> rc_ok; // point, code
  bool reuse_any = false; // structure does not depend on the point
  bool nonlinear = false;
};
// rows of a reported pattern; frees them
Bits take(Case &c, const std::string &nm, std::vector<uint *> &r, const Item &it) {
  Bits b(it.m, std::vector<char>(it.n, 0));
  for (int i = 0; i < it.m; ++i) {
    c.check(r[i], "row-null", cat(nm, ": row ", i, " is null"));
    for (uint k = 1; k <= r[i][0]; ++k) {
      uint j = r[i][k];
      c.check(j < (uint)it.n, "row-range", cat(nm, ": row ", i, " lists column ", j, " of ", it.n));
      c.check(!b[i][j], "row-twice", cat(nm, ": row ", i, " lists column ", j, " twice"));
      b[i][j] = 1;
    }
  }
  return b;
}
void judge(Case &c, const std::string &nm, const Bits &b, const Item &it, int p, bool safe) {
  auto &lo = safe ? it.losafe[0] : it.lo[p];
  for (int i = 0; i < it.m; ++i) for (int j = 0; j < it.n; ++j) {
    c.check(b[i][j] || !lo[i][j], "missing-" + nm, cat(nm, " at ", show(it.n > 20 ? std::vector<double>() : it.pts[p]), ": entry (", i, ",", j, ") is missing"));
    c.check(!b[i][j] || it.hi[i][j], "extra-" + nm, cat(nm, " at ", show(it.n > 20 ? std::vector<double>() : it.pts[p]), ": entry (", i, ",", j, ") is reported although nothing connects them"));
  }
}
// values
void values(Case &c, const std::string &nm, const Item &it, int p, const std::vector<std::tuple<uint, uint, double>> &e, const Bits *must, Bits *got) {
  std::map<std::pair<int, int>, std::pair<long double, double>> J;
  for (auto &[i, j, l, d] : it.J[p]) J[{i, j}] = {l, d};
  Bits b(it.m, std::vector<char>(it.n, 0));
  for (auto &[i, j, v] : e) {
    c.check(i < (uint)it.m && j < (uint)it.n, "entry-range", cat(nm, ": entry (", i, ",", j, ")"));
    c.check(!b[i][j], "entry-twice", cat(nm, ": entry (", i, ",", j, ") appears twice"));
    b[i][j] = 1;
    auto f = J.find({(int)i, (int)j});
    long double l = f == J.end() ? 0 : f->second.first;
    double d = f == J.end() ? 0 : f->second.second;
    if (std::isfinite((double)l) && std::isfinite(d)) c.check(close(v, l, d, it.scale[p]), "value-" + nm, cat(nm, " at point ", p, ": entry (", i, ",", j, ") is ", v, " expected ", (double)l));
  }
  for (auto &[ij, v] : J) if (v.first != 0) c.check(b[ij.first][ij.second], "lost-" + nm, cat(nm, " at point ", p, ": entry (", ij.first, ",", ij.second, ") with value ", (double)v.first, " is not among the entries"));
  if (must) c.check(*must == b, "structure-" + nm, cat(nm, ": the entries are not those of the pattern"));
  if (got) *got = b;
}
bool within(const Bits &a, const Bits &b) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) if (a[i][j] && !b[i][j]) return false; return true; }

void history(Case &c, short id, const Item &it) {
  Gen &g = c.g;
  int n = it.n, m = it.m;
  int have = -1; // compression of the cached structure
  Bits cached;
  Combo built{};
  int builtp = 0;
  int len = n * m > 2000 ? g.range(1, 2) : g.range(2, 7);
  uint *ri = nullptr, *ci = nullptr; // arrays of the C wrapper
  double *vv = nullptr;
  int nnz = 0;
  struct Free { uint *&a, *&b; double *&d; ~Free() { delete[] a; delete[] b; delete[] d; } } fr{ri, ci, vv};
  SparseMatrix A;
  for (int s = 0; s < len; ++s) {
    Combo k{(int)g.below(2), (int)g.below(2), (int)g.below(3), (int)g.below(2)};
    int p = (int)g.below(it.pts.size());
    const double *x = it.pts[p].data();
    int what = g.pick({4, 4, 4, 3, 2});
    if (what == 0) { // pattern, maybe via the C wrapper
      bool cw = g.coin();
      std::vector<uint *> r(m, nullptr);
      struct Rows { std::vector<uint *> &r; ~Rows() { for (auto *q : r) delete[] q; } } rows{r};
      std::span<uint *> sp(r);
      int opt[4] = {k.sm, k.cfm, k.bp, 0};
      const double *xx = !k.cfm && g.chance(1, 4) ? nullptr : x;
      int rc = cw ? ::jac_pat(id, m, n, xx, r.data(), opt) : pattern(k, id, m, n, xx, sp);
      std::string nm = "jac_pat-" + k.str().substr(0, k.str().size() - 4);
      c.desc << nm << (cw ? " (C)" : "") << " at point " << p << "\n";
      c.label(nm);
      c.check(rc >= 0, "code-" + nm, cat(nm, " returned ", rc));
      auto b = take(c, nm, r, it);
      judge(c, nm, b, it, p, !k.cfm);
      if (g.chance(1, 3)) { // seed matrix for this pattern
        double **S = nullptr;
        int q = 0;
        bool row = k.cm, cw2 = g.coin();
        int o1[1] = {row};
        c.desc << "seed matrix " << (row ? "row" : "column") << "\n";
        c.label("seed");
        if (cw2) ::generate_seed_jac(m, n, r.data(), &S, &q, o1);
        else if (row) ADOLC::Sparse::generate_seed_jac<CompressionMode::Row>(m, n, sp, &S, &q);
        else ADOLC::Sparse::generate_seed_jac<CompressionMode::Column>(m, n, sp, &S, &q);
        int nr = row ? q : n, nc = row ? m : q, cnt = row ? m : n;
        struct FS { double **S; int n; ~FS() { for (int i = 0; i < n; ++i) delete[] S[i]; delete[] S; } } fs{S, nr};
        std::vector<int> col(cnt, -1);
        for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) {
          double v = S[i][j];
          int e = row ? j : i, cl = row ? i : j;
          c.check(v == 0 || v == 1, "seed-value", cat("seed entry ", v));
          if (v == 1) { c.check(col[e] == -1, "seed-double", cat("element ", e, " is in two groups")); col[e] = cl; }
        }
        for (int e = 0; e < cnt; ++e) c.check(col[e] >= 0, "seed-none", cat("element ", e, " is in no group"));
        // two members of one group never meet in a row (column)
        int outer = row ? n : m;
        for (int o = 0; o < outer; ++o) {
          std::vector<int> seen(q, -1);
          for (int e = 0; e < cnt; ++e) if (row ? b[e][o] : b[o][e]) {
            c.check(seen[col[e]] < 0, "seed-clash", cat("elements ", seen[col[e]], " and ", e, " share a group although both meet ", o));
            seen[col[e]] = e;
          }
        }
      }
      continue;
    }
    bool reuse = what == 2 || (what == 3 && g.coin());
    if (reuse && have < 0) {
      if (what != 2) reuse = false;
      else if (!g.coin()) continue;
    }
    if (reuse && have < 0) { // a reuse without a structure must be refused
      SparseMatrix B;
      int rc = sjac(k, false, id, m, n, 1, x, B);
      c.desc << "reuse without structure\n";
      c.check(rc < 0, "reuse-none", cat("sparse_jac with repeat = 1 before any structure was built returned ", rc));
      continue;
    }
    if (reuse) {
      k.cm = have;
      if (built.cfm && !it.reuse_any && p != builtp && !within(it.lo[p], cached)) continue;
    }
    std::string nm = "sparse_jac-" + (reuse ? built : k).str() + (reuse ? "-reuse" : "");
    c.label(nm);
    Bits got;
    if (what == 3) { // C wrapper
      int opt[4] = {k.sm, k.cfm, k.bp, k.cm};
      bool keep = g.coin();
      if (!keep) { delete[] ri; delete[] ci; delete[] vv; ri = ci = nullptr; vv = nullptr; }
      else if (ri && g.chance(1, 4)) { ++nnz; delete[] ri; delete[] ci; delete[] vv; ri = new uint[nnz]; ci = new uint[nnz]; vv = new double[nnz]; }
      uint *r0 = ri; int n0 = nnz; bool had = ri;
      const double *xx = x;
      int rc = ::sparse_jac(id, m, n, reuse, xx, &nnz, &ri, &ci, &vv, opt);
      c.desc << nm << " (C) at point " << p << (had ? cat(" with arrays of ", n0) : std::string()) << "\n";
      c.check(it.rc_ok(p, rc), "code-" + nm, cat(nm, " (C) at point ", p, " returned ", rc));
      if (had && n0 == nnz) c.check(ri == r0, "reallocated", "arrays of the right size were replaced");
      std::vector<std::tuple<uint, uint, double>> e;
      for (int q = 0; q < nnz; ++q) e.push_back({ri[q], ci[q], vv[q]});
      values(c, nm, it, p, e, reuse ? &cached : nullptr, &got);
    } else {
      bool man = reuse && g.coin();
      bool bad = false;
      if (man) {
        size_t want = 0;
        for (auto &r : cached) want += std::accumulate(r.begin(), r.end(), 0);
        bad = g.chance(1, 4);
        A = SparseMatrix(bad ? (g.coin() ? want + 1 : want ? want - 1 : want + 2) : want);
        for (auto &q : A.entries()) q = CoordinateFormatTripled(7u, 9u, 55.0);
      } else if (g.coin()) A = SparseMatrix();
      int rc = sjac(k, man, id, m, n, reuse, x, A);
      c.desc << nm << (man ? " manual" : "") << (bad ? " wrong size" : "") << " at point " << p << "\n";
      if (bad) { c.check(rc < 0, "manual-size", cat("a container of the wrong size was accepted, code ", rc)); continue; }
      c.check(it.rc_ok(p, rc), "code-" + nm, cat(nm, " at point ", p, " returned ", rc));
      std::vector<std::tuple<uint, uint, double>> e;
      for (size_t q = 0; q < A.size(); ++q) e.push_back({A.rowIndex(q), A.colIndex(q), A.value(q)});
      values(c, nm, it, p, e, reuse ? &cached : nullptr, &got);
    }
    if (!reuse) { judge(c, nm, got, it, p, !k.cfm); cached = got; have = k.cm; built = k; builtp = p; }
    size_t cnt = 0;
    for (auto &r : got) cnt += std::accumulate(r.begin(), r.end(), 0);
    if (it.nonlinear && cnt >= 2 && (reuse ? p != builtp : cnt < (size_t)n * m || n * m > 2)) c.interesting();
  }
}

void wide(Case &c) {
  Gen &g = c.g;
  auto size = [&](bool big) {
    static const std::vector<int> edges = {31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 959, 960, 961, 992, 993, 1920, 1921};
    if (!big) return g.range(1, 12);
    return g.chance(1, 4) ? edges[10 + g.below(7)] : g.coin() ? edges[g.below(10)] : g.range(20, 200);
  };
  int kind = (int)g.below(3);
  int n = size(kind != 1), m = size(kind != 0);
  if (kind == 2) { n = std::min(n, 200); m = std::min(m, 200); }
  struct T { int i, j, k; double a; };
  std::vector<std::vector<T>> f(m);
  for (auto &r : f) {
    int t = g.pick({1, 3, 3, 2, 1});
    for (int q = 0; q < t; ++q) r.push_back({(int)g.below(n), (int)g.below(n), (int)g.below(4), g.real(0.25, 2)});
  }
  c.desc << "wide " << n << " variables " << m << " results\n";
  for (int i = 0; i < m && i < 40; ++i) { c.desc << " y" << i << " ="; for (auto &t : f[i]) c.desc << " kind " << t.k << "(" << t.i << "," << t.j << ")"; c.desc << "\n"; }
  Item it;
  it.n = n; it.m = m; it.nonlinear = it.reuse_any = true;
  it.rc_ok = [](int, int rc) { return rc == 3; };
  for (int p = 0; p < 2; ++p) { std::vector<double> x; double a = g.real(0.2, 1.5), b = g.real(0.1, 0.9); for (int i = 0; i < n; ++i) x.push_back(a + b * std::sin(i * 1.7)); it.pts.push_back(x); }
  Bits b(m, std::vector<char>(n, 0));
  for (int i = 0; i < m; ++i) for (auto &t : f[i]) { b[i][t.i] = 1; if (t.k == 1 || t.k == 3) b[i][t.j] = 1; }
  it.lo = {b, b}; it.losafe = {b}; it.hi = b;
  for (auto &x : it.pts) {
    std::vector<std::tuple<int, int, long double, double>> e;
    double sc = 0;
    for (int i = 0; i < m; ++i) {
      std::map<int, long double> d;
      for (auto &t : f[i]) {
        long double u = x[t.i], v = x[t.j];
        if (t.k == 0) d[t.i] += t.a * std::cos(u);
        else if (t.k == 1) { d[t.i] += t.a * v; d[t.j] += t.a * u; }
        else if (t.k == 2) d[t.i] += t.a;
        else { d[t.i] += t.a * std::exp(u); d[t.j] -= 1; }
      }
      for (auto &[j, v] : d) { e.push_back({i, j, v, (double)v}); sc = std::max(sc, (double)std::fabs(v)); }
    }
    it.J.push_back(e); it.scale.push_back(sc);
  }
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  trace_on(id);
  {
    std::vector<adouble> x(n);
    for (int i = 0; i < n; ++i) x[i] <<= it.pts[0][i];
    double y;
    for (int i = 0; i < m; ++i) {
      adouble s = 0.5;
      for (auto &t : f[i]) {
        if (t.k == 0) s += t.a * sin(x[t.i]);
        else if (t.k == 1) s += t.a * x[t.i] * x[t.j];
        else if (t.k == 2) s += t.a * x[t.i];
        else { s += t.a * exp(x[t.i]); s -= x[t.j]; }
      }
      s >>= y;
    }
  }
  trace_off();
  c.label(cat("wide", kind));
  history(c, id, it);
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(1, 12)) return wide(c);
  Opts o;
  o.npts = 3; o.nmax = g.coin() ? 5 : 12; o.mmax = g.coin() ? 4 : 10; o.imax = 30; o.maxslots = 24;
  Program P = random_program(g, o);
  if (P.m < 1) c.discard();
  c.desc << P.str();
  Item it;
  it.n = P.n; it.m = P.m; it.pts = P.pts; it.nonlinear = P.nnonlin >= 2;
  auto bits = [&](const std::vector<dep::D> &d) { Bits b(P.m, std::vector<char>(P.n)); for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) b[i][j] = d[i].has(j); return b; };
  it.hi = bits(dep::structure(P, P.pts[0], true, true));
  it.losafe = {bits(dep::structure(P, P.pts[0], true, false))};
  for (auto &x : P.pts) {
    it.lo.push_back(bits(dep::structure(P, x, false, false)));
    auto q = refd::jacobian(P, x);
    if (!finite(q)) c.discard();
    std::vector<std::tuple<int, int, long double, double>> e;
    for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) if (q.l[i * P.n + j] != 0) e.push_back({i, j, q.l[i * P.n + j], q.d[i * P.n + j]});
    it.J.push_back(e);
    it.scale.push_back(q.scale());
  }
  it.rc_ok = [&](int p, int rc) { return refd::rc_ok(P, P.pts[p], rc); };
  taping::reset_library();
  short id = (short)createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  taping::trace(id, P, P.pts[0]);
  history(c, id, it);
}
