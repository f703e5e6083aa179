// First-order reverse propagation equals the true weighted gradient.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C03",
  "a case is a random program; the Taylor store is filled by one of: recording with keep, zos_forward, fos_forward, hos_forward, all with "
  "keep=1; then one or more of fos_reverse, fov_reverse, reverse overloads, gradient, vec_jac (with and without repeat), jacobian run with "
  "random weights (zeros included); oracle: exact power-series gradient of the program; non-trivial: at least 3 nonlinear instructions, an "
  "overwritten or destroyed variable and a non-zero adjoint",
  30000, 600000, 22, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 3; o.nmax = 6; o.mmax = 4; o.imax = 30;
  bool big = enlarge(g, o, 60, 30, 90);
  if (big) c.label("large");
  bool hos = g.coin();
  if (hos) o.banned_fns = {F_CBRT}; // documented as not implemented at higher order
  Program P = random_program(g, o);
  taping::reset_library();
  short id = (short)createNewTape();
  c.desc << P.str();
  int n = P.n, m = P.m;
  int kept = g.coin();
  taping::trace(id, P, P.pts[0], kept);
  std::vector<double> at = P.pts[0];
  std::vector<double> y(m);
  for (int it = 0; it < 4; ++it) {
    // ---- state of the Taylor store
    if (!kept || g.coin()) {
      at = P.pts[g.below(3)];
      int how = (int)g.below(hos ? 3 : 2);
      int rc;
      if (how == 0) rc = zos_forward(id, m, n, 1, at.data(), y.data());
      else if (how == 1) { auto X = reals(g, n); std::vector<double> Y(m); rc = fos_forward(id, m, n, 1, at.data(), X.data(), y.data(), Y.data()); }
      else { int d = g.range(2, 4); Mat X(n, d), Y(m, d); for (auto &v : X.d) v = g.real(-1, 1); rc = hos_forward(id, m, n, d, 1, at.data(), X.p(), y.data(), Y.p()); }
      c.label(how == 0 ? "zos keep" : how == 1 ? "fos keep" : "hos keep");
      c.check(rc_ok(P, at, rc), "forward-rc", cat("forward sweep ", how, " with keep=1 returned ", rc));
      kept = 1;
    } else c.label(it ? "repeated reverse" : "recording keep");
    int how = (int)g.below(8);
    int q = g.range(1, big ? 40 : 5);
    Mat U(q, m), Z(q, n, 1e30);
    for (auto &v : U.d) v = g.chance(1, 4) ? 0.0 : g.real(-2, 2);
    const char *nm;
    int rc;
    std::vector<double> x = at;
    if (how == 0) { nm = "fos_reverse"; q = 1; rc = fos_reverse(id, m, n, U[0], Z[0]); }
    else if (how == 1) { nm = "fov_reverse"; rc = fov_reverse(id, m, n, q, U.p(), Z.p()); }
    else if (how == 2) { nm = "reverse(vector)"; rc = g.coin() ? reverse(id, m, n, q, U.p(), Z.p()) : reverse(id, m, n, 0, q, U.p(), Z.p()); }
    else if (how == 3) { nm = "reverse(scalar)"; q = 1; rc = reverse(id, m, n, 0, U[0], Z[0]); }
    else if (how == 4 && m == 1) {
      if (g.coin()) { nm = "reverse(m=1,vector)"; std::vector<double> u(q); for (int l = 0; l < q; ++l) u[l] = U[l][0]; rc = reverse(id, 1, n, 0, q, u.data(), Z.p()); }
      else { nm = "reverse(m=1,scalar)"; q = 1; rc = reverse(id, 1, n, 0, U[0][0], Z[0]); }
    } else if (how == 5 && m == 1) {
      nm = "gradient"; q = 1; U[0][0] = 1; x = P.pts[g.below(3)]; at = x;
      rc = gradient(id, n, x.data(), Z[0]);
    } else if (how == 4 || how == 5 || how == 6) {
      int rep = g.coin();
      nm = rep ? "vec_jac(repeat)" : "vec_jac"; q = 1;
      if (!rep) { x = P.pts[g.below(3)]; at = x; }
      rc = vec_jac(id, m, n, rep, x.data(), U[0], Z[0]);
    } else {
      nm = "jacobian";
      x = P.pts[g.below(3)];
      bool rev = n / 2 >= m; // then the Taylor store holds x afterwards
      if (rev) at = x; else kept = 0;
      q = m; U = Mat(m, m); for (int j = 0; j < m; ++j) U[j][j] = 1;
      Z = Mat(m, n, 1e30);
      rc = jacobian(id, m, n, x.data(), Z.p());
      c.label(rev ? "jacobian by reverse" : "jacobian by forward");
    }
    c.label(nm);
    c.check(rc_ok(P, x, rc), cat("rc-", nm), cat(nm, " returned ", rc, " where the function is locally analytic"));
    auto J = jacobian(P, x);
    Lin L;
    std::vector<double> got;
    for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) {
      std::vector<std::pair<size_t, double>> t;
      for (int j = 0; j < m; ++j) t.push_back({(size_t)(j * n + i), U[l][j]});
      L.add(J, t);
      got.push_back(Z[l][i]);
    }
    if (P.nnonlin >= 3 && P.nover + P.nkills > 0) for (auto v : L.q.l) if (std::fabs((double)v) > 1e-6) { c.interesting(); break; }
    auto b = cmp(got, L.q, L.sc);
    c.check(!b.bad, cat("adjoint-", nm), cat(nm, " q=", q, " at x=", show(x), " U=", show(U.d), ": Z[", b.idx / n, "][", b.idx % n, "]=", b.got, " expected ", b.want));
  }
}
