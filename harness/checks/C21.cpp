// Fixed-point iterations against the implicitly defined fixed point.
#include "evals.hpp"
#include "safe.hpp"
#include <adolc/fixpoint.h>
#include <memory>
using namespace refd;
const CheckInfo CHECK{"C21",
  "a case records on one or two tapes (sometimes twice, with random ids, dummy tapes, buffer sizes and free-list holes) a random program, 1-3 chained fixed-point iterations of random contractions "
  "(dimensions 1-4, 1-4 parameters, random starting guesses, three norms, tolerances 1e-13 to 1e-8) and another random program, then evaluates values, tangents, gradients and adjoints at the recording "
  "point and elsewhere in random order, alternating between the tapes; oracle: exact derivatives of the contraction iterated to convergence in extended-precision power-series arithmetic, the number of "
  "iterations reported at recording from a plain double iteration; non-trivial: a nonlinear contraction and a derivative compared",
  9000, 250000, 40, 600, {"contraction factor at most 1/2 in the maximum norm; comparison tolerance 2000 times the requested accuracy; vector and higher-order modes are not provided for fixed-point iterations"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
struct Term { int i, f, j, k, l; double a, s, t; }; // y_i += a f(x_j) k(s u_l + t)
struct Model {
  int dx = 0, du = 0, nonlin = 0;
  Vec c0;
  std::vector<Term> a, b; // b: parameters only
  bool trunc = false;
  template <class P, class T> void eval(const P &x, const P &u, std::vector<T> &y) const {
    using std::sin; using std::cos; using std::tanh; using std::atan;
    for (int i = 0; i < dx; ++i) y.push_back(T(c0[i]));
    for (auto &t : b) {
      T z = u[t.l] * T(t.s) + T(t.t);
      switch (t.k) { case 0: y[t.i] = y[t.i] + z * T(t.a); break; case 1: y[t.i] = y[t.i] + sin(z) * T(t.a); break; default: y[t.i] = y[t.i] + z * T(u[t.j % du]) * T(t.a); }
    }
    for (auto &t : a) {
      T z;
      switch (t.f) { case 0: z = x[t.j]; break; case 1: z = sin(x[t.j]); break; case 2: z = atan(x[t.j]); break; case 3: z = tanh(x[t.j]); break; default: z = cos(x[t.j]); }
      T w = u[t.l] * T(t.s) + T(t.t);
      switch (t.k) { case 0: break; case 1: z = z * sin(w); break; case 2: z = z * tanh(w); break; default: z = z / (T(1) + w * w); }
      y[t.i] = y[t.i] + z * T(t.a);
    }
  }
  std::string str() const {
    std::string s = cat("F(", dx, ",", du, "): c0");
    for (double v : c0) s += cat(" ", v);
    for (auto &t : a) s += cat(" | y", t.i, " += ", t.a, " f", t.f, "(x", t.j, ") k", t.k, "(", t.s, " u", t.l, " + ", t.t, ")");
    for (auto &t : b) s += cat(" | y", t.i, " += ", t.a, " b", t.k, "(", t.s, " u", t.l, " + ", t.t, ") u", t.j);
    return s;
  }
};
Model random_model(Gen &g) {
  Model M;
  bool big = g.chance(1, 12);
  M.dx = g.range(1, big ? 12 : 4); M.du = g.range(1, big ? 12 : 4);
  double L = g.pick({1, 3}) ? 0.5 : 0.1;
  for (int i = 0; i < M.dx; ++i) {
    M.c0.push_back(g.real(-1, 1));
    int na = g.range(0, 3);
    for (int k = 0; k < na; ++k) {
      Term t{i, g.pick({1, 3, 2, 2, 2}), (int)g.below(M.dx), g.pick({2, 2, 1, 1}), (int)g.below(M.du), g.real(0.2, 1) * (g.coin() ? L : -L) / na, g.real(-1, 1), g.real(-1, 1)};
      if (t.f || t.k) ++M.nonlin;
      M.a.push_back(t);
    }
    int nb = g.range(na ? 0 : 1, 2);
    for (int k = 0; k < nb; ++k) M.b.push_back({i, 0, (int)g.below(M.du), g.pick({3, 2, 1}), (int)g.below(M.du), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)});
  }
  return M;
}
constexpr int NS = 6;
Model slot[NS];
template <int K> int Fd(double *x, double *u, double *y, size_t, size_t) { Vec r; slot[K].eval(x, u, r); for (size_t i = 0; i < r.size(); ++i) y[i] = r[i]; return 0; }
template <int K> int Fa(adouble *x, adouble *u, adouble *y, size_t, size_t) { std::vector<adouble> r; r.reserve(8); slot[K].eval(x, u, r); for (size_t i = 0; i < r.size(); ++i) y[i] = r[i]; return 0; }
double_F fd[NS] = {Fd<0>, Fd<1>, Fd<2>, Fd<3>, Fd<4>, Fd<5>};
adouble_F fa[NS] = {Fa<0>, Fa<1>, Fa<2>, Fa<3>, Fa<4>, Fa<5>};
double n_max(double *x, size_t n) { double r = 0; for (size_t i = 0; i < n; ++i) r = std::max(r, std::fabs(x[i])); return r; }
double n_two(double *x, size_t n) { double r = 0; for (size_t i = 0; i < n; ++i) r += x[i] * x[i]; return std::sqrt(r); }
double n_one(double *x, size_t n) { double r = 0; for (size_t i = 0; i < n; ++i) r += std::fabs(x[i]); return r; }
norm_F norms[3] = {n_max, n_two, n_one};
struct Call { int k; std::vector<int> x0, u; int norm, dnorm; double eps, deps; short sub; bool guess; Vec g0; };
struct Outer {
  int n, m, pool;
  std::vector<safe::Op> pre;
  std::vector<Call> calls;
  safe::Prog post;
  std::vector<int> pin;
  double tol = 0;
  short id = 0;
  Vec at;
  bool kept = false;
};
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  int ntapes = g.chance(1, 3) ? 2 : 1, used = 0, nonlin = 0;
  std::vector<Outer> T(ntapes);
  for (auto &o : T) {
    o.n = g.range(1, 4); o.m = g.pick({3, 2, 1}) + 1; o.pool = o.n;
    for (int k = g.range(0, 4); k-- > 0;) { auto p = safe::random(g, o.pool, 1, 1, false); o.pre.push_back(p.ops[0]); o.pre.back().r = o.pool++; }
    int nc = g.pick({4, 2, 1}) + 1;
    for (int q = 0; q < nc; ++q) {
      Call C;
      C.k = used++;
      slot[C.k] = random_model(g);
      auto &M = slot[C.k];
      nonlin += M.nonlin;
      C.guess = g.coin();
      for (int i = 0; i < M.dx; ++i) { C.x0.push_back((int)g.below(o.pool)); C.g0.push_back(g.pick({1, 4}) ? g.real(-3, 3) : 0.0); }
      for (int i = 0; i < M.du; ++i) C.u.push_back(g.coin() ? (int)g.below(o.pool) : o.pool - 1 - (int)g.below(std::min(o.pool, 4)));
      C.norm = (int)g.below(3); C.dnorm = (int)g.below(3);
      static const double es[] = {1e-13, 1e-12, 1e-11, 1e-10, 1e-8};
      C.eps = es[g.pick({1, 4, 2, 2, 1})]; C.deps = es[g.pick({1, 4, 2, 2, 1})];
      o.tol += 2000 * (C.eps + C.deps);
      o.pool += M.dx;
      o.calls.push_back(C);
      c.desc << M.str() << " eps " << C.eps << " " << C.deps << " norms " << C.norm << C.dnorm << " x0 " << (C.guess ? "constant" : "active") << "\n";
    }
    int k = g.range(1, 5);
    for (int i = 0; i < k; ++i) o.pin.push_back(i == 0 || g.coin() ? o.pool - 1 - (int)g.below(slot[o.calls.back().k].dx) : (int)g.below(o.pool));
    o.post = safe::random(g, k, o.m, g.range(0, 6));
    c.desc << "tape with " << o.n << " independents, " << o.pre.size() << " operations before, then " << o.post.str() << " of";
    for (int i : o.pin) c.desc << " s" << i;
    c.desc << "\n";
  }
  auto body = [](const Outer &o) {
    return [&o](const auto &x) {
      using S = std::decay_t<decltype(x[0])>;
      std::vector<S> s(x.begin(), x.end());
      for (auto &q : o.pre) { s.emplace_back(); safe::step(q, s); }
      for (auto &C : o.calls) {
        std::vector<S> u, y;
        for (int i : C.u) u.push_back(s[i]);
        std::vector<S> v(slot[C.k].dx);
        constexpr bool ld = std::is_same_v<S, ref::Alg<long double>>; // the noisy copy only serves as a check for overflow
        for (int it = 0; it < (ld ? 80 : 3); ++it) {
          y.clear();
          slot[C.k].eval(v, u, y);
          bool done = it > 5;
          if constexpr (ld) for (size_t i = 0; i < v.size() && done; ++i) for (size_t k = 0; k < v[i].c.size(); ++k) done &= std::fabs(y[i].c[k] - v[i].c[k]) <= 1e-17L * (1 + std::fabs(y[i].c[k]));
          v = y;
          if (ld && done) break;
        }
        for (auto &w : v) s.push_back(w);
      }
      std::vector<S> a;
      for (int i : o.pin) a.push_back(s[i]);
      return safe::eval(o.post, a);
    };
  };
  std::vector<evals::Fun> F;
  for (auto &o : T) F.push_back(evals::fun(o.n, o.m, body(o)));
  taping::reset_library();
  auto dummies = [&]() { for (int k = (int)g.below(3); k-- > 0;) createNewTape(); };
  bool subfirst = g.coin();
  dummies();
  auto subs = [&]() { for (auto &o : T) for (auto &C : o.calls) { if (g.chance(1, 4)) createNewTape(); C.sub = (short)createNewTape(); } };
  if (subfirst) subs();
  for (auto &o : T) { o.id = (short)createNewTape(); if (g.chance(1, 3)) createNewTape(); }
  if (!subfirst) subs();
  auto record = [&](Outer &o) {
    auto x0 = reals(g, o.n);
    o.at = x0;
    // which tape is the current one does not matter to fp_iteration
    setCurrentTape(o.id);
    bool trunc = g.chance(1, 12);
    o.kept = g.coin();
    if (g.chance(1, 4)) trace_on(o.id, o.kept, g.range(12, 60), g.range(130, 200), g.range(6, 20), g.range(10, 64), 1); else trace_on(o.id, o.kept);
    Vec y(o.m);
    {
      std::vector<std::unique_ptr<adouble>> own;
      std::vector<adouble *> s;
      std::vector<std::unique_ptr<adouble[]>> arr;
      { std::vector<std::unique_ptr<adouble>> h; for (int k = (int)g.below(8); k-- > 0;) h.emplace_back(new adouble(1.0)); for (auto &u : h) if (g.coin()) u.reset(); else own.push_back(std::move(u)); }
      auto fresh = [&]() { own.emplace_back(new adouble); s.push_back(own.back().get()); };
      for (int i = 0; i < o.n; ++i) { fresh(); *s.back() <<= x0[i]; }
      for (auto q : o.pre) {
        std::vector<adouble> v(3);
        v[0] = *s[q.a]; v[1] = *s[q.b];
        q.a = 0; q.b = 1; q.r = 2;
        safe::step(q, v);
        fresh();
        *s.back() = v[2];
      }
      for (size_t ci = 0; ci < o.calls.size(); ++ci) {
        auto &C = o.calls[ci];
        auto &M = slot[C.k];
        std::unique_ptr<adouble[]> xx(new adouble[M.dx]), uu(new adouble[M.du]);
        Vec xv, uv;
        for (int i = 0; i < M.dx; ++i) { if (C.guess) xx[i] = C.g0[i]; else xx[i] = *s[C.x0[i]]; xv.push_back(xx[i].value()); }
        for (int i = 0; i < M.du; ++i) { uu[i] = *s[C.u[i]]; uv.push_back(uu[i].value()); }
        currentTape().ensureContiguousLocations(M.dx);
        arr.emplace_back(new adouble[M.dx]);
        auto *xf = arr.back().get();
        // plain iteration
        Vec cur = xv, nx(M.dx), df(M.dx);
        int want = -1;
        int cap = g.pick({3, 1}) ? 200 : 120;
        for (int k = 1; k <= cap; ++k) {
          fd[C.k](cur.data(), uv.data(), nx.data(), M.dx, M.du);
          for (int i = 0; i < M.dx; ++i) df[i] = nx[i] - cur[i];
          cur = nx;
          if (norms[C.norm](df.data(), M.dx) < C.eps) { want = k; break; }
        }
        // a last recording, abandoned afterwards, with too few iterations allowed
        int lim = cap;
        bool few = trunc && ci + 1 == o.calls.size() && want > 2;
        if (few) lim = want - 1;
        int k = fp_iteration(o.id, C.sub, fd[C.k], fa[C.k], norms[C.norm], norms[C.dnorm], C.eps, C.deps, lim, 200, xx.get(), uu.get(), xf, M.dx, M.du);
        if (few) { c.check(k == -1, "not-converged", cat("fp_iteration returned ", k, " with too few iterations allowed (", lim, ", needed ", want, ")")); c.label("too few iterations"); }
        else c.check(k == want, "iterations", cat("fp_iteration returned ", k, ", expected ", want));
        c.check(currentTape().tapeId() == o.id, "current-tape", "fp_iteration changed the current tape");
        if (!few) for (int i = 0; i < M.dx; ++i) c.check(xf[i].value() == cur[i], "fixed-point", cat("fixed point ", i, " is ", xf[i].value(), " expected ", cur[i]));
        for (int i = 0; i < M.du; ++i) c.check(uu[i].value() == uv[i], "parameter", "fp_iteration changed a parameter");
        for (int i = 0; i < M.dx; ++i) { if (g.chance(1, 3)) { fresh(); *s.back() = xf[i]; } else s.push_back(&xf[i]); }
      }
      std::vector<adouble> a;
      a.reserve(o.pin.size());
      for (int i : o.pin) a.push_back(*s[i]);
      auto r = safe::eval(o.post, a);
      for (int j = 0; j < o.m; ++j) r[j] >>= y[j];
    }
    trace_off();
    return !trunc;
  };
  auto once = [&](Outer &o) { while (!record(o)) {} if (g.chance(1, 4)) { while (!record(o)) {} c.label("recorded twice"); } };
  int derivs = 0;
  auto sweep = [&](int t, bool first) {
    auto &o = T[t];
    auto &f = F[t];
    int n = o.n, m = o.m;
    Vec x = first || g.chance(1, 3) ? o.at : reals(g, n);
    auto cmp = [&](const char *nm, const Vec &got, const Q &w) {
      if (!refd::finite(w)) return;
      double s = 1 + w.scale();
      for (size_t i = 0; i < w.l.size(); ++i) {
        double e = std::fabs(got[i] - (double)w.l[i]);
        c.check(e <= (1e-9 + o.tol) * s * s, nm, cat(nm, ": entry ", i, " is ", got[i], " expected ", (double)w.l[i], " (error ", e, ", requested accuracy ", o.tol / 2000, ")"));
      }
    };
    auto rc = [&](const char *nm, int r) { c.check(r >= -1, "rc", cat(nm, " returned ", r)); };
    evals::Eval E{c, o.id, f, nullptr, 0, ""};
    if (first) { // reverse directly after recording with keep
      Vec U = reals(g, m), Z(n);
      rc("fos_reverse", ::fos_reverse(o.id, m, n, U.data(), Z.data()));
      cmp("reverse-after-recording", Z, E.vJ(x, U));
      c.label("reverse after recording"); ++derivs;
      return;
    }
    Vec y(m, 1e30), X = reals(g, n), Y(m, 1e30), U = reals(g, m), Z(n, 1e30);
    switch (g.pick({3, 3, 4, 2, 2, 2})) {
    case 0: {
      int keep = (int)g.below(2);
      rc("zos_forward", ::zos_forward(o.id, m, n, keep, x.data(), y.data()));
      cmp("zos_forward", y, evals::values(f, x));
      if (keep) { rc("fos_reverse", ::fos_reverse(o.id, m, n, U.data(), Z.data())); cmp("fos_reverse", Z, E.vJ(x, U)); ++derivs; }
      break;
    }
    case 1: {
      int keep = (int)g.below(2);
      rc("fos_forward", ::fos_forward(o.id, m, n, keep, x.data(), X.data(), y.data(), Y.data()));
      cmp("fos_forward", y, evals::values(f, x));
      cmp("fos_forward-tangent", Y, E.Jv(x, X));
      if (keep) { rc("fos_reverse", ::fos_reverse(o.id, m, n, U.data(), Z.data())); cmp("fos_forward-reverse", Z, E.vJ(x, U)); }
      ++derivs;
      break;
    }
    case 2:
      if (m == 1) { rc("gradient", ::gradient(o.id, n, x.data(), Z.data())); cmp("gradient", Z, evals::jacobian(f, x)); ++derivs; break; }
      [[fallthrough]];
    case 3: {
      rc("vec_jac", vec_jac(o.id, m, n, 0, x.data(), U.data(), Z.data()));
      cmp("vec_jac", Z, E.vJ(x, U));
      if (g.coin()) { U = reals(g, m); rc("vec_jac", vec_jac(o.id, m, n, 1, x.data(), U.data(), Z.data())); cmp("vec_jac-repeat", Z, E.vJ(x, U)); }
      ++derivs;
      break;
    }
    case 4: rc("jac_vec", jac_vec(o.id, m, n, x.data(), X.data(), Y.data())); cmp("jac_vec", Y, E.Jv(x, X)); ++derivs; break;
    default: rc("function", ::function(o.id, m, n, x.data(), y.data())); cmp("function", y, evals::values(f, x));
    }
  };
  if (ntapes == 2 && g.coin()) { for (int t = 0; t < 2; ++t) once(T[t]); c.label("two tapes"); }
  else for (int t = 0; t < ntapes; ++t) { once(T[t]); if (T[t].kept && g.coin()) sweep(t, true); if (g.coin()) sweep(t, false); }
  int ne = g.range(2, 5);
  for (int k = 0; k < ne; ++k) { setCurrentTape(T[g.below(ntapes)].id); sweep((int)g.below(ntapes), false); }
  if (used > 1) c.label("several iterations");
  if (nonlin && derivs) c.nontrivial = true;
}
