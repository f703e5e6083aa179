// Derivative tensors of explicit and inverse functions.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C07",
  "a case is a history of tensor_eval calls (degree 0-6, 1-5 directions, random or degenerate seed matrices, calls of different sizes after one "
  "another on one or two tapes) on random programs, or of inverse_tensor_eval calls on diagonally dominant square systems in which "
  "some dependents may be independents; oracle: exact multivariate power series of F(x+Sz), for the inverse the series z(x) solved by Newton "
  "in series arithmetic; every address is cross-checked against tensor_address, tensor_value and the tensorsetup pointers; non-trivial: a call "
  "of degree at least 2 with at least 2 directions on a program with a nonlinear instruction",
  30000, 600000, 24, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-8 relative to the largest interpolation summand; cbrt excluded (documented as not available at higher order)"}};

static double fact(int k) { double f = 1; for (int i = 2; i <= k; ++i) f *= i; return f; }
// exact mixed derivatives of y_j(z) over monomials of Ctx C
struct TQ { std::vector<std::vector<LD>> l; std::vector<std::vector<double>> d; };
template <class F> static void fold2(F f, TQ &q) {
  f(LD(0), q.l);
  q.d.resize(q.l.size());
  for (uint64_t sd = 1; sd <= 2; ++sd) {
    std::vector<std::vector<ref::Nz>> t;
    ref::Nz::state() = sd;
    f(ref::Nz(0), t);
    if (t.size() != q.l.size()) return;
    for (size_t r = 0; r < t.size(); ++r) { Q one; one.l = q.l[r]; one.d = q.d[r]; fold_noise(one, t[r]); q.d[r] = one.d; }
  }
}
static TQ explicit_ref(const Program &P, const std::vector<double> &x, const Mat &S, const ref::Ctx &C, int p) {
  TQ q;
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < (int)x.size(); ++i) {
      A.emplace_back(x[i]);
      for (int k = 0; k < p && C.nil > 0; ++k) { std::vector<int> e(p, 0); e[k] = 1; A.back().c[C.at(e)] = S.r[i][k]; }
    }
    for (auto &y : run<R>(P, C, A)) out.push_back(y.c);
  };
  fold2(f, q);
  return q;
}
static size_t address(std::vector<int> j) { // tetrahedral scheme of the manual
  std::sort(j.begin(), j.end());
  size_t a = 0;
  for (size_t i = 0; i < j.size(); ++i) {
    // binom(j_i + i, i + 1)
    double b = 1;
    for (size_t k = 1; k <= i + 1; ++k) b = b * (double)(j[i] - 1 + (int)k) / (double)k;
    a += (size_t)std::llround(b);
  }
  return a;
}
// compare a tensor with its reference, over all monomials, and the access functions
static void compare(Case &c, const char *nm, const ref::Ctx &C, const TQ &q, Mat &T, int d, int p, int rows) {
  Gen &g = c.g;
  for (int j = 0; j < rows; ++j) {
    double sc = 0;
    for (size_t e = 0; e < C.exps.size(); ++e) { double f = 1; for (int k : C.exps[e]) f *= fact(k); sc = std::max(sc, f * std::fabs((double)q.l[j][e])); }
    double amp = std::pow(3.0, d) * d * d * 1e3; // interpolation of degree d
    for (size_t e = 0; e < C.exps.size(); ++e) {
      double f = 1;
      std::vector<int> idx;
      for (int k = 0; k < p; ++k) { f *= fact(C.exps[e][k]); for (int r = 0; r < C.exps[e][k]; ++r) idx.push_back(k + 1); }
      while ((int)idx.size() < d) idx.push_back(0);
      size_t at = address(idx);
      double got = T[j][at], want = f * (double)q.l[j][e];
      double noise = std::fabs((double)(f * (q.l[j][e] - (LD)q.d[j][e])));
      bool ok = std::isfinite(got) && std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)) + 1e-14 * amp * sc + 1e4 * noise;
      if (!ok) { std::string s; for (int k : idx) s += cat(k, " "); c.fail(cat("tensor-", nm), cat(nm, ": component ", j, ", multi-index (", s, ") d=", d, " p=", p, ": got ", got, " expected ", want)); }
      if (d > 0 && g.chance(1, 8)) {
        // shuffled multi-index
        for (size_t k = idx.size(); k > 1; --k) std::swap(idx[k - 1], idx[g.below(k)]);
        auto keep = idx;
        size_t ta = tensor_address(d, idx.data());
        c.check(ta == at && keep == idx, "tensor_address", cat("tensor_address gives ", ta, " for degree ", d, ", scheme of the manual ", at));
        std::vector<double> y(rows, 1e30);
        for (int rep = 0; rep < 2; ++rep) {
          tensor_value(d, rows, y.data(), T.p(), idx.data());
          for (int r = 0; r < rows; ++r) c.check(y[r] == T[r][at], "tensor_value", cat("tensor_value call ", rep, ": component ", r, " is ", y[r], " expected ", T[r][at]));
        }
      }
    }
  }
}
static void walk(Case &c, void *t, int n, int d, std::vector<int> &pre, const double *row, int D) {
  if (d == 1) {
    for (int i = 0; i <= n; ++i) {
      auto j = pre;
      j.push_back(i);
      c.check((double *)t + i == row + address(j), "tensorsetup", cat("tensorsetup: entry of degree ", D, " points to offset ", (double *)t + i - row, " expected ", address(j)));
    }
    return;
  }
  for (int i = 0; i <= n; ++i) { pre.push_back(i); walk(c, ((void **)t)[i], i, d - 1, pre, row, D); pre.pop_back(); }
}
static void setup(Case &c, Mat &T, int rows, int p, int d) {
  if (d < 1) return;
  c.label("tensorsetup");
  void **t = tensorsetup(rows, p, d, T.p());
  for (int i = 0; i < rows; ++i) { std::vector<int> pre; walk(c, t[i], p, d, pre, T[i], d); }
  auto copy = T.d;
  freetensor(rows, p, d, (double **)t);
  c.check(copy == T.d, "freetensor", "freetensor changed the tensor");
  free(t);
}
std::vector<Pinned> pinned_cases() { return {}; }

static void record_square(short id, const Program &P, const std::vector<double> &x, double K, const std::vector<int> &direct) {
  setCurrentTape(id);
  trace_on(id, 0);
  {
    int n = P.n;
    std::vector<std::optional<adouble>> s(P.nslots);
    std::vector<adouble> in(n);
    for (int i = 0; i < n; ++i) { in[i] <<= x[i]; s[i].emplace(); *s[i] = (const adouble &)in[i]; }
    taping::exec(P, s, P.params);
    double y;
    for (int j = 0; j < n; ++j) {
      if (direct[j]) { in[j] >>= y; continue; }
      adouble t = K * in[j];
      if (j < P.m) t += *s[P.out[j]];
      t >>= y;
    }
  }
  trace_off();
}
// series of z with F(z) = F(z0) + S x
static bool inverse_ref(const Program &P, const std::vector<double> &z0, const Mat &S, const ref::Ctx &C, int p, double K, const std::vector<int> &direct, TQ &q) {
  bool ok = true;
  int n = P.n;
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> z;
    for (int i = 0; i < n; ++i) z.emplace_back(z0[i]);
    auto F = [&](const std::vector<ref::Alg<R>> &zz) {
      auto y = run<R>(P, C, zz);
      std::vector<ref::Alg<R>> r;
      for (int j = 0; j < n; ++j) {
        if (direct[j]) { r.push_back(zz[j]); continue; }
        r.push_back(ref::scale(zz[j], R(K)));
        if (j < P.m) r.back() = r.back() + y[j];
      }
      return r;
    };
    // F'(z0) in the base type
    auto C1 = ref::Ctx::taylor_grad(0, n);
    std::vector<std::vector<R>> J(n, std::vector<R>(n, R(0)));
    {
      ref::Use u1(C1);
      std::vector<ref::Alg<R>> X;
      std::vector<int> at(n);
      for (int i = 0; i < n; ++i) { std::vector<int> e(n + 1, 0); e[i + 1] = 1; at[i] = C1.at(e); X.emplace_back(z0[i]); X.back().c[at[i]] = 1; }
      auto y = run<R>(P, C1, X);
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
        if (direct[j]) { J[j][i] = i == j; continue; }
        J[j][i] = (i == j ? R(K) : R(0)) + (j < P.m ? y[j].c[at[i]] : R(0));
      }
    }
    for (int j = 0; j < n; ++j) { R off = 0; for (int i = 0; i < n; ++i) if (i != j) off += std::fabs(J[j][i]); if (!(off < R(0.6) * std::fabs(J[j][j])) || !(std::fabs(J[j][j]) > R(0.5))) ok = false; }
    if (!ok) return;
    auto solve = [&](std::vector<R> b) { // Gaussian elimination, row dominant
      auto M = J;
      for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) { R l = M[i][k] / M[k][k]; for (int j = k; j < n; ++j) M[i][j] -= l * M[k][j]; b[i] -= l * b[k]; }
      for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= M[i][j] * b[j]; b[i] /= M[i][i]; }
      return b;
    };
    auto base = F(z);
    std::vector<ref::Alg<R>> rhs;
    for (int i = 0; i < n; ++i) {
      ref::Alg<R> a(0.0);
      a.c[0] = base[i].c[0];
      for (int k = 0; k < p && C.nil > 0; ++k) { std::vector<int> e(p, 0); e[k] = 1; a.c[C.at(e)] = S.r[i][k]; }
      rhs.push_back(a);
    }
    for (int it = 0; it < C.nil; ++it) { // each step fixes one more order
      auto y = F(z);
      for (int mno = 1; mno < C.N; ++mno) {
        std::vector<R> b(n);
        for (int i = 0; i < n; ++i) b[i] = rhs[i].c[mno] - y[i].c[mno];
        b = solve(b);
        for (int i = 0; i < n; ++i) z[i].c[mno] += b[i];
      }
    }
    for (auto &a : z) out.push_back(a.c);
  };
  fold2(f, q);
  return ok;
}
static void seed(Gen &g, Mat &S) { for (auto &v : S.d) v = g.chance(1, 5) ? 0.0 : g.real(-1.5, 1.5); }

static void inverse(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 2; o.imax = 14; o.vmax = 7; o.nonsmooth = false; o.steps = false;
  o.banned_ops = {POWA, ATAN2};
  o.banned_fns = {F_CBRT};
  int nn = g.range(1, g.chance(1, 12) ? 9 : 4);
  o.nmin = o.nmax = nn; o.mmin = 1; o.mmax = nn;
  std::vector<Program> Ps;
  for (int k = 0; k < 2; ++k) { Ps.push_back(random_program(g, o)); o.fixed_pts = Ps[0].pts; c.desc << "program " << k << "\n" << Ps.back().str(); }
  taping::reset_library();
  const double K = 30;
  short ids[2];
  std::vector<int> direct[2];
  int on[2];
  for (int t = 0; t < 2; ++t) {
    ids[t] = (short)createNewTape();
    direct[t].assign(nn, 0);
    for (auto &v : direct[t]) v = g.chance(1, 6);
    on[t] = t;
    record_square(ids[t], Ps[t], Ps[t].pts[0], K, direct[t]);
  }
  int len = g.range(1, 4);
  for (int it = 0; it < len; ++it) {
    int t = (int)g.below(2);
    if (it && g.chance(1, 4)) { on[t] = 1 - on[t]; record_square(ids[t], Ps[on[t]], Ps[on[t]].pts[0], K, direct[t]); c.label("re-recorded"); c.desc << "re-record tape " << t << "\n"; }
    auto x = Ps[on[t]].pts[g.below(2)];
    int d = g.range(0, 5), p = g.range(1, d >= 4 ? 2 : 4);
    Mat S(nn, p);
    seed(g, S);
    if (g.chance(1, 4)) for (int i = 0; i < nn; ++i) for (int k = 0; k < p; ++k) S[i][k] = i == k;
    auto C = ref::Ctx::multi(p, d);
    c.desc << "inverse_tensor_eval tape " << t << " d=" << d << " p=" << p << " x=" << show(x) << " S=" << show(S.d) << "\n";
    TQ q;
    bool ok = inverse_ref(Ps[on[t]], x, S, C, p, K, direct[t], q);
    if (ok) for (auto &r : q.l) for (LD v : r) if (!std::isfinite((double)v)) ok = false;
    if (!ok) { c.label("not dominant"); continue; }
    Mat T(nn, C.N, 1e30);
    auto xin = x;
    int rc = inverse_tensor_eval(ids[t], nn, d, p, xin.data(), T.p(), S.p());
    c.check(rc == 3, "rc-inverse_tensor_eval", cat("inverse_tensor_eval returned ", rc));
    c.check(xin == x, "argument", "inverse_tensor_eval changed its argument");
    compare(c, "inverse_tensor_eval", C, q, T, d, p, nn);
    if (d >= 2) c.interesting();
    c.label(cat("inverse d=", d));
    if (g.chance(1, 4)) setup(c, T, nn, p, d);
  }
}
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(2, 5)) { inverse(c); return; }
  Opts o;
  o.npts = 2; o.nmax = 5; o.mmax = 3; o.imax = 18;
  if (enlarge(g, o, 25, 8, 50)) c.label("large");
  o.banned_fns = {F_CBRT};
  int nt = g.range(1, 2);
  taping::reset_library();
  std::vector<Program> Ps;
  std::vector<short> ids;
  for (int t = 0; t < nt; ++t) {
    Ps.push_back(random_program(g, o));
    c.desc << "tape " << t << "\n" << Ps.back().str();
    ids.push_back((short)createNewTape());
    taping::trace(ids.back(), Ps[t], Ps[t].pts[0], 0);
  }
  int len = g.range(1, 4);
  for (int it = 0; it < len; ++it) {
    int t = (int)g.below(nt);
    auto &P = Ps[t];
    auto x = P.pts[g.below(2)];
    bool wide = g.chance(1, 15); // many directions at low degree, high degree along one direction
    int d = g.range(0, wide ? 10 : 6), p = g.range(1, wide ? (d > 6 ? 1 : d > 3 ? 2 : d == 3 ? 6 : 12) : d >= 5 ? 2 : d == 4 ? 3 : 5);
    Mat S(P.n, p);
    seed(g, S);
    auto C = ref::Ctx::multi(p, d);
    c.desc << "tensor_eval tape " << t << " d=" << d << " p=" << p << " x=" << show(x) << " S=" << show(S.d) << "\n";
    auto q = explicit_ref(P, x, S, C, p);
    for (auto &r : q.l) for (LD v : r) if (!std::isfinite((double)v)) c.discard();
    Mat T(P.m, C.N, 1e30);
    auto xin = x;
    auto Sin = S.d;
    int rc = tensor_eval(ids[t], P.m, P.n, d, p, xin.data(), T.p(), S.p());
    c.check(rc_ok(P, x, rc), "rc-tensor_eval", cat("tensor_eval returned ", rc));
    c.check(xin == x && Sin == S.d, "argument", "tensor_eval changed an argument");
    compare(c, "tensor_eval", C, q, T, d, p, P.m);
    if (d >= 2 && p >= 2 && P.nnonlin > 0) c.interesting();
    c.label(cat("d=", d)); c.label(cat("p=", p));
    if (C.N > 20) c.label("more than one batch possible");
    if (g.chance(1, 4)) setup(c, T, P.m, p, d);
  }
}
