// Easy-to-use drivers (Jacobian in runs, Hessians, Hessian products, Newton solve) agree with the true derivatives.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C06",
  "a case is a random program on which a random history of easy-to-use drivers is called at random admissible points: hessian, hessian2, "
  "hess_vec, hess_mat, lagra_hess_vec, gradient, jacobian, large_jacobian with any number of runs, jac_solv with every mode (square "
  "diagonally dominant systems, with the tape re-recorded in between); oracle: exact second-order expansion of the program, and for "
  "jac_solv the residual with the exact Jacobian; non-trivial: at least 3 nonlinear instructions and a non-zero second derivative, or a "
  "jac_solv history with at least one solve",
  30000, 500000, 30, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative; cbrt excluded (documented as not available at higher order)"}};
std::vector<Pinned> pinned_cases() { return {}; }

static void record_square(short id, const Program &P, const std::vector<double> &x, double K) {
  trace_on(id, 0);
  {
    int n = P.n;
    std::vector<std::optional<adouble>> s(P.nslots);
    std::vector<adouble> in(n);
    for (int i = 0; i < n; ++i) { in[i] <<= x[i]; s[i].emplace(); *s[i] = (const adouble &)in[i]; }
    taping::exec(P, s, P.params);
    double y;
    for (int j = 0; j < n; ++j) { adouble t = K * in[j]; if (j < P.m) t += *s[P.out[j]]; t >>= y; }
  }
  trace_off();
}
static void newton(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 2; o.nmin = 1; o.nmax = 4; o.mmin = 1; o.mmax = 4; o.imax = 16; o.vmax = 8; o.nonsmooth = false; o.steps = false;
  o.banned_ops = {POWA, ATAN2};
  std::vector<Program> Ps;
  int np = 2;
  int nn = g.range(1, g.chance(1, 12) ? 14 : 4);
  o.nmin = o.nmax = nn;
  o.mmax = nn;
  // two random points and two that mix their components: systems are solved again at a point that shares any part of an earlier one
  o.npts = 4;
  o.fixed_pts.assign(4, std::vector<double>(nn));
  for (int p = 0; p < 2; ++p) for (auto &v : o.fixed_pts[p]) v = g.real(-2, 2);
  for (int p = 2; p < 4; ++p) for (int i = 0; i < nn; ++i) o.fixed_pts[p][i] = o.fixed_pts[g.below(2)][i];
  for (int k = 0; k < np; ++k) { Ps.push_back(random_program(g, o)); c.desc << "program " << k << "\n" << Ps.back().str(); }
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  int cur = 0, n = nn;
  double K = 40;
  record_square(id, Ps[0], Ps[0].pts[0], K);
  std::vector<double> x = Ps[0].pts[0];
  int len = g.range(2, 9);
  for (int it = 0; it < len; ++it) {
    int ev = (int)g.below(7);
    if (ev == 1 || ev >= 4) { x = Ps[cur].pts[g.below(4)]; }
    if (ev == 2 && it) { // record something else on the same tape; the point may stay
      cur = 1 - cur;
      record_square(id, Ps[cur], Ps[cur].pts[0], K);
      c.label("re-recorded");
      c.desc << "re-record program " << cur << "\n";
    }
    static const int modes[] = {2, 2, 2, 1, 0};
    int mode = modes[g.below(5)];
    std::vector<double> b = reals(g, n), rhs = b;
    c.desc << "jac_solv mode " << mode << " at x=" << show(x) << " b=" << show(b) << "\n";
    int rc = jac_solv((unsigned short)id, n, x.data(), b.data(), (unsigned short)mode);
    c.label(cat("jac_solv mode ", mode));
    c.check(rc == 3, "rc-jac_solv", cat("jac_solv returned ", rc, " for a diagonally dominant system"));
    if (mode < 2) { c.check(b == rhs, "jac_solv-rhs", cat("jac_solv mode ", mode, " changed the right-hand side")); continue; }
    c.interesting();
    auto J = jacobian(Ps[cur], x);
    double worst = 0, sc = 0;
    for (int i = 0; i < n; ++i) {
      long double r = -(long double)rhs[i] + (long double)K * b[i];
      double s = std::fabs(rhs[i]) + K * std::fabs(b[i]);
      if (i < Ps[cur].m) for (int j = 0; j < n; ++j) { r += J.l[(size_t)i * n + j] * b[j]; s += std::fabs((double)J.l[(size_t)i * n + j] * b[j]); }
      worst = std::max(worst, std::fabs((double)r));
      sc = std::max(sc, s);
    }
    // rows may be far from dominant; only judge well-conditioned systems
    bool dom = true;
    for (int i = 0; i < Ps[cur].m; ++i) { double off = 0; for (int j = 0; j < n; ++j) off += std::fabs((double)J.l[(size_t)i * n + j]); if (off > K / 2) dom = false; }
    if (!dom) { c.label("not dominant"); continue; }
    c.check(worst <= 1e-9 * (1 + sc), "residual-jac_solv", cat("jac_solv mode 2: solution ", show(b), " leaves residual ", worst));
  }
}
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(1, 3)) { newton(c); return; }
  Opts o;
  o.npts = 2; o.nmax = 6; o.mmax = 4; o.imax = 24;
  bool big = enlarge(g, o, 20, 8, 60);
  if (big) c.label("large");
  if (g.coin()) o.mmax = 1;
  o.banned_fns = {F_CBRT};
  Program P = random_program(g, o);
  taping::reset_library();
  short id = (short)createNewTape();
  c.desc << P.str();
  int n = P.n, m = P.m;
  taping::trace(id, P, P.pts[0], g.coin());
  for (int it = 0; it < 3; ++it) {
    auto x = P.pts[g.below(2)];
    auto xin = x;
    int how = m == 1 ? (int)g.below(7) : 5 + (int)g.below(2);
    int rc = -9;
    const char *nm;
    auto H = hessians(P, x);
    if (!finite(H)) c.discard();
    auto h = [&](int j, int a, int b) { return (size_t)((j * n + a) * n + b); };
    Lin L;
    std::vector<double> got;
    std::string arg;
    if (how == 0 || how == 1) {
      nm = how ? "hessian2" : "hessian";
      Mat R(n, n, 1e30);
      rc = how ? hessian2(id, n, xin.data(), R.p()) : hessian(id, n, xin.data(), R.p());
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (j <= i) { L.add(H, {{h(0, i, j), 1.0}}); got.push_back(R[i][j]); }
        else c.check(R[i][j] == 1e30, "hessian-upper", cat(nm, " wrote above the diagonal"));
      }
    } else if (how == 2) {
      nm = "hess_vec";
      auto v = reals(g, n);
      std::vector<double> w(n, 1e30);
      rc = hess_vec(id, n, xin.data(), v.data(), w.data());
      for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> t; for (int j = 0; j < n; ++j) t.push_back({h(0, i, j), v[j]}); L.add(H, t); got.push_back(w[i]); }
      arg = show(v);
    } else if (how == 3) {
      nm = "hess_mat";
      int q = g.range(1, big ? 30 : 4);
      Mat V(n, q), W(n, q, 1e30);
      for (auto &v : V.d) v = g.chance(1, 4) ? 0.0 : g.real(-2, 2);
      rc = hess_mat(id, n, q, xin.data(), V.p(), W.p());
      for (int i = 0; i < n; ++i) for (int l = 0; l < q; ++l) { std::vector<std::pair<size_t, double>> t; for (int j = 0; j < n; ++j) t.push_back({h(0, i, j), V[j][l]}); L.add(H, t); got.push_back(W[i][l]); }
      arg = show(V.d);
    } else if (how == 5) {
      nm = "lagra_hess_vec";
      auto v = reals(g, n), u = reals(g, m);
      if (g.chance(1, 3)) u[g.below(m)] = 0;
      std::vector<double> w(n, 1e30);
      rc = lagra_hess_vec(id, m, n, xin.data(), v.data(), u.data(), w.data());
      for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> t; for (int k = 0; k < m; ++k) for (int j = 0; j < n; ++j) t.push_back({h(k, i, j), v[j] * u[k]}); L.add(H, t); got.push_back(w[i]); }
      arg = show(v) + show(u);
    } else if (how == 6) {
      nm = "large_jacobian";
      int runns = g.range(0, n + 2);
      Mat R(m, n, 1e30);
      std::vector<double> y(m, 1e30);
      rc = large_jacobian(id, m, n, runns, xin.data(), y.data(), R.p());
      auto J = jacobian(P, x);
      for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { L.add(J, {{(size_t)(j * n + i), 1.0}}); got.push_back(R[j][i]); }
      auto bb = cmp(y, values(P, x));
      c.check(!bb.bad, "value-large_jacobian", cat("large_jacobian with ", runns, " runs: y[", bb.idx, "]=", bb.got, " expected ", bb.want));
      arg = cat("runs=", runns);
    } else {
      nm = "gradient+hess_vec";
      std::vector<double> gr(n, 1e30);
      rc = gradient(id, n, xin.data(), gr.data());
      auto J = jacobian(P, x);
      for (int i = 0; i < n; ++i) { L.add(J, {{(size_t)i, 1.0}}); got.push_back(gr[i]); }
    }
    c.label(nm);
    c.check(rc_ok(P, x, rc), cat("rc-", nm), cat(nm, " returned ", rc, " where the function is locally analytic"));
    c.check(xin == x, "input-changed", cat(nm, " modified its argument"));
    if (P.nnonlin >= 3) for (auto v : H.l) if (std::fabs((double)v) > 1e-6) { c.interesting(); break; }
    auto b = cmp(got, L.q, std::max(L.sc, 0.0));
    c.check(!b.bad, cat("result-", nm), cat(nm, " at x=", show(x), " ", arg, ": entry ", b.idx, " is ", b.got, " expected ", b.want));
  }
}
