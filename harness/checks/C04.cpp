// Higher-order forward propagation equals the true Taylor coefficients.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C04",
  "a case is a random program recorded at one point and propagated at another admissible point along random curves of degree 1..6 with a "
  "random higher-order forward driver (hos_forward with every keep, hov_forward, hov_wk_forward, forward overloads, hos/hov *_partx); the "
  "oracle is a truncated power-series evaluation of the same program without ADOL-C; non-trivial: at least 3 nonlinear instructions, degree "
  "at least 2 and a non-zero coefficient of order 2 or more",
  30000, 600000, 24, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative; cbrt excluded (documented as not available at higher order)"}};
std::vector<Pinned> pinned_cases() { return {}; }
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 2; o.nmax = 5; o.mmax = 4; o.imax = 24;
  bool big = enlarge(g, o, 20, 10, 60);
  if (big) c.label("large");
  o.banned_fns = {F_CBRT};
  Program P = random_program(g, o);
  taping::reset_library();
  short id = (short)createNewTape();
  c.desc << P.str();
  taping::trace(id, P, P.pts[0], g.coin());
  int n = P.n, m = P.m;
  for (int it = 0; it < 3; ++it) {
    auto x = P.pts[g.below(2)];
    int how = (int)g.below(8);
    int d = g.range(1, g.chance(1, 10) ? 14 : 6), p = g.range(1, big ? 20 : 4);
    bool vec = how == 1 || how == 2 || how == 3 || how == 7;
    if (!vec) p = 1;
    Ten X(n, p, d);
    for (size_t i = 0; i < (size_t)n * p * d; ++i) X.d[i] = g.chance(1, 4) ? 0.0 : g.real(-1, 1);
    Ten Y(m, p, d, 1e30);
    std::vector<double> y(m, 1e30), xin = x;
    auto Xs = X.d;
    int rc = -9, keep = g.range(0, d + 1);
    const char *nm = "";
    Mat A(n, d), B(m, d, 1e30);
    for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) A[i][k] = X[i][0][k];
    std::vector<int> nd;
    auto split = [&]() { for (int left = n; left > 0;) { int k = g.range(1, left); nd.push_back(k); left -= k; } };
    if (how == 0) {
      nm = "hos_forward";
      rc = hos_forward(id, m, n, d, keep, xin.data(), A.p(), y.data(), B.p());
      for (int j = 0; j < m; ++j) for (int k = 0; k < d; ++k) Y[j][0][k] = B[j][k];
    } else if (how == 1) { nm = "hov_forward"; rc = hov_forward(id, m, n, d, p, xin.data(), X.p(), y.data(), Y.p()); }
    else if (how == 2) { nm = "hov_wk_forward"; if (keep == 1 && g.coin()) keep = 2; rc = hov_wk_forward(id, m, n, d, keep, p, xin.data(), X.p(), y.data(), Y.p()); }
    else if (how == 3) { nm = "forward(d,p)"; rc = forward(id, m, n, d, p, xin.data(), X.p(), y.data(), Y.p()); }
    else if (how == 4 || how == 5) {
      Mat F(n, d + 1), G(m, d + 1, 1e30);
      for (int i = 0; i < n; ++i) { F[i][0] = x[i]; for (int k = 0; k < d; ++k) F[i][k + 1] = A[i][k]; }
      auto Fs = F.d;
      if (how == 5 && m == 1) { nm = "forward(d,m=1)"; rc = forward(id, 1, n, d, keep, F.p(), G[0]); }
      else { nm = "forward(d)"; rc = forward(id, m, n, d, keep, F.p(), G.p()); }
      c.check(F.d == Fs, "input-changed", cat(nm, " modified its argument"));
      for (int j = 0; j < m; ++j) { y[j] = G[j][0]; for (int k = 0; k < d; ++k) Y[j][0][k] = G[j][k + 1]; }
    } else if (how == 6) {
      nm = "hos_forward_partx";
      split();
      std::vector<std::vector<std::vector<double>>> s(nd.size());
      std::vector<std::vector<const double *>> r(nd.size());
      std::vector<const double *const *> q;
      int k = 0;
      for (size_t a = 0; a < nd.size(); ++a) {
        for (int b = 0; b < nd[a]; ++b, ++k) { std::vector<double> t{x[k]}; for (int e = 0; e < d; ++e) t.push_back(A[k][e]); s[a].push_back(t); }
        for (auto &e : s[a]) r[a].push_back(e.data());
        q.push_back(r[a].data());
      }
      Mat G(m, d + 1, 1e30);
      rc = hos_forward_partx(id, m, (int)nd.size(), nd.data(), d, q.data(), G.p());
      for (int j = 0; j < m; ++j) { y[j] = G[j][0]; for (int e = 0; e < d; ++e) Y[j][0][e] = G[j][e + 1]; }
    } else {
      nm = "hov_forward_partx";
      split();
      std::vector<const double *> xs;
      std::vector<std::vector<std::vector<const double *>>> s(nd.size());
      std::vector<std::vector<const double *const *>> r(nd.size());
      std::vector<const double *const *const *> q;
      int k = 0;
      for (size_t a = 0; a < nd.size(); ++a) {
        xs.push_back(xin.data() + k);
        for (int b = 0; b < nd[a]; ++b, ++k) { s[a].emplace_back(); for (int l = 0; l < p; ++l) s[a].back().push_back(X[k][l]); }
        for (auto &e : s[a]) r[a].push_back(e.data());
        q.push_back(r[a].data());
      }
      rc = hov_forward_partx(id, m, (int)nd.size(), nd.data(), d, p, xs.data(), q.data(), y.data(), Y.p());
    }
    c.label(nm);
    c.label(cat("degree ", d));
    c.check(rc_ok(P, x, rc), "rc", cat(nm, " returned ", rc, " at a point where the function is locally analytic"));
    c.check(xin == x && X.d == Xs, "input-changed", cat(nm, " modified its arguments"));
    for (int l = 0; l < p; ++l) {
      std::vector<std::vector<double>> C(n, std::vector<double>(d));
      for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) C[i][k] = X[i][l][k];
      auto q = taylor(P, x, C, d);
      if (!finite(q)) c.discard();
      std::vector<double> got;
      for (int j = 0; j < m; ++j) { got.push_back(y[j]); for (int k = 0; k < d; ++k) got.push_back(Y[j][l][k]); }
      if (P.nnonlin >= 3) for (size_t i = 0; i < q.l.size(); ++i) if (i % (d + 1) >= 2 && std::fabs((double)q.l[i]) > 1e-6) { c.interesting(); break; }
      auto b = cmp(got, q);
      c.check(!b.bad, cat("coefficient-", nm), cat(nm, " degree=", d, " p=", p, " keep=", keep, " direction ", l, " at x=", show(x), " X=", show(Xs), ": coefficient ", b.idx % (d + 1), " of dependent ", b.idx / (d + 1), " is ", b.got, " expected ", b.want));
    }
  }
}
