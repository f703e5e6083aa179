// First-order forward propagation equals the true directional derivative.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C02",
  "a case is a random program recorded at one point and differentiated at another admissible point along random directions with a random "
  "first-order forward driver (fos_forward with keep 0/1/2, fov_forward, fov_offset_forward, jac_vec, forward overloads, the *_partx "
  "variants); the oracle is a power-series evaluation of the same program without ADOL-C; non-trivial: at least 3 nonlinear instructions "
  "and a non-zero directional derivative",
  30000, 600000, 22, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 2; o.nmax = 6; o.mmax = 4; o.imax = 26;
  bool big = enlarge(g, o, 60, 30, 90);
  if (big) c.label("large");
  Program P = random_program(g, o);
  taping::reset_library();
  short id = (short)createNewTape();
  c.desc << P.str();
  taping::trace(id, P, P.pts[0], g.coin());
  int n = P.n, m = P.m;
  for (int it = 0; it < 3; ++it) {
    auto x = P.pts[g.below(2)];
    int how = (int)g.below(9);
    int p = g.range(1, big ? 70 : 5);
    Mat X(n, p);
    for (auto &v : X.d) v = g.chance(1, 5) ? 0.0 : g.real(-2, 2);
    if (how == 0 || how == 3 || how == 4 || how == 5 || how == 6) p = 1;
    std::vector<double> y(m, 1e30), Y1(m, 1e30), x1(n);
    Mat Y(m, p, 1e30);
    for (int i = 0; i < n; ++i) x1[i] = X[i][0];
    int rc = -9, keep = g.range(0, 2);
    const char *nm = "";
    auto xin = x;
    if (how == 0) { nm = "fos_forward"; rc = fos_forward(id, m, n, keep, xin.data(), x1.data(), y.data(), Y1.data()); for (int j = 0; j < m; ++j) Y[j][0] = Y1[j]; }
    else if (how == 1) { nm = "fov_forward"; rc = fov_forward(id, m, n, p, xin.data(), X.p(), y.data(), Y.p()); }
    else if (how == 2) { nm = "forward(vector)"; rc = forward(id, m, n, p, xin.data(), X.p(), y.data(), Y.p()); }
    else if (how == 3) {
      nm = "jac_vec"; rc = jac_vec(id, m, n, xin.data(), x1.data(), Y1.data());
      for (int j = 0; j < m; ++j) Y[j][0] = Y1[j];
      y.clear();
    } else if (how == 4) {
      nm = "forward(d=1)";
      Mat A(n, 2), B(m, 2, 1e30);
      for (int i = 0; i < n; ++i) { A[i][0] = xin[i]; A[i][1] = x1[i]; }
      rc = forward(id, m, n, 1, keep, A.p(), B.p());
      for (int j = 0; j < m; ++j) { y[j] = B[j][0]; Y[j][0] = B[j][1]; }
      for (int i = 0; i < n; ++i) c.check(A[i][0] == x[i] && A[i][1] == x1[i], "forward-arg-changed", "forward(d=1) changed its argument");
    } else if (how == 5 && m == 1) {
      nm = "forward(d=1,m=1)";
      Mat A(n, 2);
      double B[2] = {1e30, 1e30};
      for (int i = 0; i < n; ++i) { A[i][0] = xin[i]; A[i][1] = x1[i]; }
      rc = forward(id, 1, n, 1, keep, A.p(), B);
      y[0] = B[0]; Y[0][0] = B[1];
    } else if (how == 6 || how == 5) {
      nm = "fos_forward_partx";
      // split the independents into random groups
      std::vector<int> nd;
      for (int left = n; left > 0;) { int k = g.range(1, left); nd.push_back(k); left -= k; }
      std::vector<std::vector<std::vector<double>>> s;
      std::vector<std::vector<const double *>> r;
      std::vector<const double *const *> q;
      int k = 0;
      s.resize(nd.size()); r.resize(nd.size());
      for (size_t a = 0; a < nd.size(); ++a) { for (int b = 0; b < nd[a]; ++b, ++k) s[a].push_back({xin[k], x1[k]}); for (auto &e : s[a]) r[a].push_back(e.data()); q.push_back(r[a].data()); }
      Mat B(m, 2, 1e30);
      rc = fos_forward_partx(id, m, (int)nd.size(), nd.data(), q.data(), B.p());
      for (int j = 0; j < m; ++j) { y[j] = B[j][0]; Y[j][0] = B[j][1]; }
      p = 1;
    } else if (how == 7) {
      nm = "fov_forward_partx";
      std::vector<int> nd;
      for (int left = n; left > 0;) { int k = g.range(1, left); nd.push_back(k); left -= k; }
      std::vector<const double *> xs;
      std::vector<std::vector<const double *>> r(nd.size());
      std::vector<const double *const *> q;
      int k = 0;
      for (size_t a = 0; a < nd.size(); ++a) { xs.push_back(xin.data() + k); for (int b = 0; b < nd[a]; ++b, ++k) r[a].push_back(X[k]); q.push_back(r[a].data()); }
      rc = fov_forward_partx(id, m, (int)nd.size(), nd.data(), p, xs.data(), q.data(), y.data(), Y.p());
    } else {
      nm = "fov_offset_forward";
      // directions of the identity starting at an offset, written into the columns of Y at that offset
      int pp = g.range(1, n), off = g.range(0, n - pp);
      Mat I(n, n), F(m, n, 1e30);
      for (int i = 0; i < n; ++i) I[i][i] = 1;
      rc = fov_offset_forward(id, m, n, pp, off, xin.data(), I.p(), y.data(), F.p());
      p = pp;
      X = Mat(n, p); Y = Mat(m, p);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) X[i][l] = I[i][off + l];
      for (int j = 0; j < m; ++j) for (int l = 0; l < n; ++l) {
        if (l >= off && l < off + p) Y[j][l - off] = F[j][l];
        else c.check(F[j][l] == 1e30, "fov-offset-clobber", "fov_offset_forward wrote outside its columns");
      }
    }
    c.label(nm);
    c.check(rc_ok(P, x, rc), "rc", cat(nm, " returned ", rc, " at a point where the function is locally analytic"));
    c.check(xin == x, "input-changed", "argument array was modified");
    auto J = jacobian(P, x);
    Lin L;
    std::vector<double> got;
    for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) {
      std::vector<std::pair<size_t, double>> t;
      for (int i = 0; i < n; ++i) t.push_back({(size_t)(j * n + i), X[i][l]});
      L.add(J, t);
      got.push_back(Y[j][l]);
    }
    if (P.nnonlin >= 3) for (auto v : L.q.l) if (std::fabs((double)v) > 1e-6) { c.interesting(); break; }
    auto b = cmp(got, L.q, L.sc);
    c.check(!b.bad, cat("tangent-", nm), cat(nm, " p=", p, " keep=", keep, " at x=", show(x), " X=", show(X.d), ": Y[", b.idx / p, "][", b.idx % p, "]=", b.got, " expected ", b.want));
    if (!y.empty()) {
      auto bb = cmp(y, values(P, x));
      c.check(!bb.bad, cat("value-", nm), cat(nm, ": y[", bb.idx, "]=", bb.got, " expected ", bb.want));
    }
  }
}
