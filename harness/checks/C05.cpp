// Higher-order reverse propagation equals the true adjoint Taylor coefficients.
#include "deriv.hpp"
#include "dep.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C05",
  "a case is a random program whose Taylor store is filled by hos_forward (degree 0..8, keeping any lower or the same degree) or by hov_wk_forward (several "
  "directions), followed by one or more of hos_reverse, hos_ti_reverse, hov_reverse, hov_ti_reverse, hos_ov_reverse and the reverse "
  "overloads with random weights (zeros included) and optional nonzero pattern; oracle: power-series expansion of the Jacobian along the "
  "curve; the reported pattern may not claim zero or linear where a coefficient contradicts it; non-trivial: at least 3 nonlinear "
  "instructions, an overwritten or destroyed variable, degree at least 1 and a non-zero adjoint coefficient of order 1 or more",
  24000, 500000, 24, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative; cbrt excluded (documented as not available at higher order)"}};
std::vector<Pinned> pinned_cases() { return {}; }
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 2; o.nmax = 5; o.mmax = 4; o.imax = 24;
  bool big = enlarge(g, o, 12, 10, 60);
  if (big) c.label("large");
  o.banned_fns = {F_CBRT};
  Program P = random_program(g, o);
  taping::reset_library();
  short id = (short)createNewTape();
  c.desc << P.str();
  int n = P.n, m = P.m;
  taping::trace(id, P, P.pts[0], g.coin());
  for (int round = 0; round < 2; ++round) {
    auto x = P.pts[g.below(2)];
    int d = g.range(0, g.chance(1, 12) ? 12 : 5);
    bool ov = d > 0 && g.chance(1, 3);
    int p = ov ? g.range(1, big ? 12 : 4) : 1;
    int D = d + (g.chance(1, 3) ? g.range(1, 3) : 0); // degree of the forward sweep; it keeps d
    if (d == 0 && !ov) D = std::min(D, 2);
    if (D > d) c.label("forward degree above the kept one");
    Ten X(n, p, D ? D : 1);
    for (auto &v : X.d) v = g.chance(1, 4) ? 0.0 : g.real(-1, 1);
    std::vector<double> y(m);
    int rc;
    if (ov) { Ten Y(m, p, D); rc = hov_wk_forward(id, m, n, D, d + 1, p, x.data(), X.p(), y.data(), Y.p()); c.label("hov_wk keep"); }
    else if (D == 0) { rc = zos_forward(id, m, n, 1, x.data(), y.data()); c.label("zos keep"); }
    else {
      Mat A(n, D), B(m, D);
      for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) A[i][k] = X[i][0][k];
      rc = D == 1 && g.coin() ? [&] { std::vector<double> x1(n), y1(m); for (int i = 0; i < n; ++i) x1[i] = A[i][0]; c.label("fos keep"); return fos_forward(id, m, n, d + 1, x.data(), x1.data(), y.data(), y1.data()); }()
                              : hos_forward(id, m, n, D, d + 1, x.data(), A.p(), y.data(), B.p());
    }
    c.check(rc_ok(P, x, rc), "forward-rc", cat("forward sweep returned ", rc));
    auto stru = dep::structure(P, x, false, false);
    std::vector<Q> path; // A[j][i][k] per direction
    for (int l = 0; l < p; ++l) {
      std::vector<std::vector<double>> C(n, std::vector<double>(d));
      for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) C[i][k] = X[i][l][k];
      path.push_back(jacpath(P, x, C, d));
      if (!finite(path.back())) c.discard();
    }
    for (int it = 0; it < 2; ++it) {
      int how = ov ? 7 : (int)g.below(7);
      if ((how == 4 || how == 5) && m != 1) how = (int)g.below(4);
      int q = g.range(1, big ? 12 : 4);
      // weights L[q][m][d+1]
      Ten L(q, m, d + 1);
      bool ti = how == 1 || how == 3 || how == 7;
      for (int r = 0; r < q; ++r) for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k)
        L[r][j][k] = (k && !ti) ? 0.0 : g.chance(1, 4) ? 0.0 : g.real(-2, 2);
      std::vector<double> u0(m);
      for (int j = 0; j < m; ++j) u0[j] = L[0][j][0];
      int rows = ov ? p : q;
      Ten Z(std::max(rows, m), n, d + 1, 1e30);
      std::vector<short> nzb((size_t)std::max(rows, m) * n, 99);
      std::vector<short *> nz;
      for (int r = 0; r < std::max(rows, m); ++r) nz.push_back(nzb.data() + (size_t)r * n);
      bool donz = g.coin();
      const char *nm;
      Mat Z1(n, d + 1, 1e30);
      auto one = [&] { rows = q = 1; donz = false; for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) Z[0][i][k] = Z1[i][k]; };
      if (how == 0) { nm = "hos_reverse"; rc = g.coin() ? hos_reverse(id, m, n, d, u0.data(), Z1.p()) : reverse(id, m, n, d, u0.data(), Z1.p()); one(); }
      else if (how == 1) { nm = "hos_ti_reverse"; rc = hos_ti_reverse(id, m, n, d, L[0], Z1.p()); one(); }
      else if (how == 2) {
        nm = "hov_reverse";
        Mat U(q, m);
        for (int r = 0; r < q; ++r) for (int j = 0; j < m; ++j) U[r][j] = L[r][j][0];
        rc = g.coin() ? hov_reverse(id, m, n, d, q, U.p(), Z.p(), donz ? nz.data() : nullptr) : reverse(id, m, n, d, q, U.p(), Z.p(), donz ? nz.data() : nullptr);
      } else if (how == 3) { nm = "hov_ti_reverse"; rc = hov_ti_reverse(id, m, n, d, q, L.p(), Z.p(), donz ? nz.data() : nullptr); }
      else if (how == 4) { nm = "reverse(m=1)"; rc = reverse(id, 1, n, d, L[0][0][0], Z1.p()); one(); }
      else if (how == 5) {
        nm = "reverse(m=1,vector)";
        std::vector<double> u(q);
        for (int r = 0; r < q; ++r) u[r] = L[r][0][0];
        rc = reverse(id, 1, n, d, q, u.data(), Z.p(), donz ? nz.data() : nullptr);
      } else if (how == 6) {
        nm = "reverse(identity)";
        rows = q = m;
        rc = reverse(id, m, n, d, Z.p(), donz ? nz.data() : nullptr);
      } else { nm = "hos_ov_reverse"; donz = false; rc = hos_ov_reverse(id, m, n, d, p, L[0], Z.p()); }
      c.label(nm);
      c.check(rc_ok(P, x, rc), cat("rc-", nm), cat(nm, " returned ", rc, " where the function is locally analytic"));
      for (int r = 0; r < rows; ++r) {
        const Q &A = path[ov ? r : 0];
        auto w = [&](int j, int k) -> double { return how == 6 ? (k == 0 && j == r ? 1.0 : 0.0) : L[ov ? 0 : r][j][k]; };
        Lin Ln;
        std::vector<double> got;
        for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) {
          std::vector<std::pair<size_t, double>> t;
          for (int j = 0; j < m; ++j) for (int e = 0; e <= k; ++e) if (w(j, e) != 0) t.push_back({(size_t)((j * n + i) * (d + 1) + k - e), w(j, e)});
          Ln.add(A, t);
          got.push_back(Z[r][i][k]);
        }
        if (P.nnonlin >= 3 && P.nover + P.nkills > 0) for (size_t i = 0; i < got.size(); ++i) if (i % (d + 1) && std::fabs((double)Ln.q.l[i]) > 1e-6) { c.interesting(); break; }
        auto b = cmp(got, Ln.q, Ln.sc);
        c.check(!b.bad, cat("adjoint-", nm), cat(nm, " degree=", d, " row ", r, " of ", rows, " at x=", show(x), " X=", show(X.d), " L=", show(L.d), ": Z[", b.idx / (d + 1), "][", b.idx % (d + 1), "]=", b.got, " expected ", b.want));
        if (donz) for (int i = 0; i < n; ++i) {
          short z = nz[r][i];
          c.check(z >= 0 && z <= 5, "nonzero-range", cat(nm, ": nonzero entry ", z, " outside 0..5"));
          double tol = 1e-6 * (1 + Ln.sc);
          for (int k = 0; k <= d; ++k) {
            double v = std::fabs((double)Ln.q.l[(size_t)i * (d + 1) + k]);
            if (z == 0) c.check(v < tol, "nonzero-zero", cat(nm, ": pattern says row ", r, " independent ", i, " is trivially zero but its coefficient of order ", k, " is ", v));
            if (z == 1 && k >= 1 && !ti) c.check(v < tol, "nonzero-linear", cat(nm, ": pattern says row ", r, " independent ", i, " is linear but its coefficient of order ", k, " is ", v));
          }
          // structural lower bound: no dependence may be reported weaker than the operations on its paths
          int need = 0;
          for (int j = 0; j < m; ++j) {
            bool used = false;
            for (int k = 0; k <= d; ++k) used |= w(j, k) != 0;
            if (used && stru[j].has(i)) need = std::max<int>(need, stru[j].c[i]);
          }
          c.check(z >= need, "nonzero-weak", cat(nm, ": pattern says class ", z, " for row ", r, " independent ", i, " whose dependence is of class ", need));
          c.label(cat("nz ", z));
        }
      }
    }
  }
}
