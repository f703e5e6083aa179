// ODE drivers: forode extends Taylor series of solutions, accode accumulates total Jacobians.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C08",
  "a case records a random right-hand side on 1 or 2 tapes and runs a history of forode calls on it (every overload, degree 1-8, scaling, "
  "start from degree 0 or continuing a correct prefix, new points, growing and shrinking degrees), followed by vector reverse and accode with and "
  "without structure information; or it feeds accode random Taylor coefficients of a sparse Jacobian directly. Oracle: Picard iteration of "
  "x' = tau F(x) in power series with gradients, or the plain recurrence of the manual; non-trivial: total Jacobians of degree at least 2 of a nonlinear right-hand side, or a direct accode with mixed structure",
  30000, 600000, 24, 600, {"points are 0.02 away from kinks and the solution is only expanded, so branch changes do not matter; cbrt excluded (documented as not available at higher order)"}};
std::vector<Pinned> pinned_cases() { return {}; }

// x[n][K+1] and B[n][n][K] : d x_{k+1} / d x_0
static void picard(const Program &P, const std::vector<double> &x0, double tau, int K, Q &X, Q &B) {
  int n = P.n;
  auto C = ref::Ctx::taylor_grad(K, n);
  auto at = [&](int j, int i) { std::vector<int> e(n + 1, 0); e[0] = j; if (i >= 0) e[i + 1] = 1; return C.at(e); };
  auto f = [&](auto tag, auto &xo, auto &bo) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x0[i]); A.back().c[at(0, i)] = 1; }
    for (int k = 0; k < K; ++k) {
      auto y = run<R>(P, C, A);
      for (int i = 0; i < n; ++i) {
        A[i].c[at(k + 1, -1)] = R(tau) * y[i].c[at(k, -1)] / R(k + 1);
        for (int j = 0; j < n; ++j) A[i].c[at(k + 1, j)] = R(tau) * y[i].c[at(k, j)] / R(k + 1);
      }
    }
    for (int i = 0; i < n; ++i) for (int k = 0; k <= K; ++k) xo.push_back(A[i].c[at(k, -1)]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < K; ++k) bo.push_back(A[i].c[at(k + 1, j)]);
  };
  f(LD(0), X.l, B.l);
  for (uint64_t sd = 1; sd <= 2; ++sd) {
    std::vector<ref::Nz> a, b;
    ref::Nz::state() = sd;
    f(ref::Nz(0), a, b);
    fold_noise(X, a);
    fold_noise(B, b);
  }
}
static void direct(Case &c) {
  Gen &g = c.g;
  bool big = g.chance(1, 12);
  int n = g.range(1, big ? 14 : 5), deg = g.range(0, big ? 14 : 6);
  double tau = g.coin() ? 1.0 : g.real(-2, 2);
  bool with = g.coin();
  Ten A(n, n, deg + 1), B(n, n, deg + 1, 1e30);
  std::vector<short> z(n * n);
  std::vector<short *> zp;
  for (int i = 0; i < n; ++i) zp.push_back(&z[i * n]);
  bool mixed = false, has0 = false, has1 = false;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int k = (int)g.below(5); // structure
    z[i * n + j] = (short)(k == 4 ? 3 : k);
    if (k == 0) has0 = true;
    if (k == 1) has1 = true;
    for (int q = 0; q <= deg; ++q) A[i][j][q] = k == 0 || (k == 1 && q > 0) ? 0.0 : g.real(-1.5, 1.5);
    if (k == 4) mixed = true;
  }
  if (with && has0 && has1 && mixed && deg >= 2) c.interesting();
  auto a = A.d;
  auto zin = z;
  c.desc << "accode n=" << n << " tau=" << tau << " deg=" << deg << " A=" << show(a) << (with ? " with nz" : "") << "\n";
  if (tau == 1.0 && g.coin()) accode(n, deg, A.p(), B.p(), with ? zp.data() : nullptr);
  else accode(n, tau, deg, A.p(), B.p(), with ? zp.data() : nullptr);
  c.check(a == A.d, "accode-argument", "accode changed its input");
  std::vector<std::vector<std::vector<LD>>> R(n, std::vector<std::vector<LD>>(n, std::vector<LD>(deg + 1)));
  for (int k = 0; k <= deg; ++k) {
    LD sc = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      LD s = A[i][j][k], m = std::fabs(s);
      for (int p = 0; p < n; ++p) for (int q = 1; q <= k; ++q) { s += (LD)A[i][p][q - 1] * R[p][j][k - q]; m += std::fabs((LD)A[i][p][q - 1] * R[p][j][k - q]); }
      R[i][j][k] = (LD)tau / (k + 1) * s;
      sc = std::max(sc, m);
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      c.check(std::fabs((double)(B[i][j][k] - R[i][j][k])) <= 1e-11 * (1 + (double)sc), "accode", cat("accode", with ? " with nz" : "", ": B[", i, "][", j, "][", k, "]=", B[i][j][k], " expected ", (double)R[i][j][k]));
  }
  if (with) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    short nz = z[i * n + j];
    if (zin[i * n + j] > 0) c.check(nz == zin[i * n + j], "accode-nz", cat("accode changed the positive structure entry ", i, ",", j));
    else {
      c.check(nz <= 0, "accode-nz", cat("accode made structure entry ", i, ",", j, " positive"));
      // documented (see the example of the manual): zero for k < -nz, and reachable from there on
      // the documented fill-in: -nz is the length of the shortest path minus one
      int len = -1; // by breadth-first search in the structure of A_0
      std::vector<int> dist(n, -1);
      std::vector<int> fr{i};
      dist[i] = 0;
      for (size_t h = 0; h < fr.size() && len < 0; ++h) for (int q = 0; q < n; ++q) if (zin[fr[h] * n + q] > 0) {
        if (q == j) { len = dist[fr[h]] + 1; break; }
        if (dist[q] < 0) { dist[q] = dist[fr[h]] + 1; fr.push_back(q); }
      }
      int want = len < 0 || len - 1 > deg + 1 ? deg + 1 : len - 1;
      c.check(-nz == want, "accode-nz", cat("accode: structure entry ", i, ",", j, " is ", nz, ", the shortest path has length ", len, " (degree ", deg, ")"));
    }
  }
}
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(1, 4)) { direct(c); return; }
  Opts o;
  o.npts = 2; o.imax = 16; o.vmax = 8;
  o.banned_fns = {F_CBRT};
  int nt = g.range(1, 2);
  taping::reset_library();
  std::vector<Program> Ps;
  std::vector<short> ids;
  for (int t = 0; t < nt; ++t) {
    o.nmin = o.nmax = o.mmin = o.mmax = g.range(1, g.chance(1, 12) ? 12 : 4);
    Ps.push_back(random_program(g, o));
    if (Ps.back().m != Ps.back().n) c.discard();
    c.desc << "tape " << t << "\n" << Ps.back().str();
    ids.push_back((short)createNewTape());
    taping::trace(ids.back(), Ps[t], Ps[t].pts[0], 0);
  }
  int len = g.range(1, 4);
  for (int it = 0; it < len; ++it) {
    int t = (int)g.below(nt);
    auto &P = Ps[t];
    int n = P.n;
    auto x = P.pts[g.below(2)];
    int deg = g.range(1, g.chance(1, 12) ? 16 : 8), dol = g.coin() ? 0 : g.range(0, deg - 1);
    double tau = g.coin() ? 1.0 : g.real(-1.5, 1.5);
    Q X, B;
    picard(P, x, tau, deg, X, B);
    if (!finite(X) || !finite(B)) { c.label("not finite"); continue; }
    if (X.scale() > 1e12 || B.scale() > 1e12) { c.label("huge"); continue; }
    Mat Y(n, deg + 1, 1e30);
    for (int i = 0; i < n; ++i) for (int k = 0; k <= dol; ++k) Y[i][k] = (double)X.l[(size_t)i * (deg + 1) + k];
    c.desc << "forode tape " << t << " tau=" << tau << " dol=" << dol << " deg=" << deg << " x=" << show(x) << "\n";
    int rc;
    int form = (int)g.below(2);
    if (form && tau == 1.0 && dol == 0) rc = forode(ids[t], n, deg, Y.p());
    else if (form && tau == 1.0) rc = forode(ids[t], n, dol, deg, Y.p());
    else if (form && dol == 0) rc = forode(ids[t], n, tau, deg, Y.p());
    else rc = forode(ids[t], n, tau, dol, deg, Y.p());
    c.check(rc_ok(P, x, rc), "rc-forode", cat("forode returned ", rc));
    c.label(cat("deg ", deg));
    if (dol) c.label("continued");
    auto level = [&](const Q &q, size_t stride, size_t k) { double s = 0; for (size_t r = k; r < q.l.size(); r += stride) s = std::max(s, std::fabs((double)q.l[r])); return s; };
    for (int k = 0; k <= deg; ++k) {
      double sc = level(X, deg + 1, k);
      for (int i = 0; i < n; ++i) {
        size_t r = (size_t)i * (deg + 1) + k;
        c.check(close(Y[i][k], X.l[r], X.d[r], sc), "forode", cat("forode: X[", i, "][", k, "]=", Y[i][k], " expected ", (double)X.l[r], " (tau=", tau, " dol=", dol, " deg=", deg, ")"));
      }
    }
    // partial Jacobians by reverse mode, total by accode
    Ten Z(n, n, deg, 1e30), Bt(n, n, deg, 1e30);
    std::vector<short> z(n * n, 77);
    std::vector<short *> zp;
    for (int i = 0; i < n; ++i) zp.push_back(&z[i * n]);
    bool with = g.coin();
    Mat I(n, n);
    for (int i = 0; i < n; ++i) I[i][i] = 1;
    int r2 = with ? reverse(ids[t], n, n, deg - 1, Z.p(), zp.data()) : hov_reverse(ids[t], n, n, deg - 1, n, I.p(), Z.p(), nullptr);
    c.check(r2 >= 0, "rc-reverse", cat("reverse after forode returned ", r2));
    auto zin = z;
    accode(n, tau, deg - 1, Z.p(), Bt.p(), with ? zp.data() : nullptr);
    for (int k = 0; k < deg; ++k) {
      double sc = level(B, deg, k);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        size_t r = ((size_t)i * n + j) * deg + k;
        c.check(close(Bt[i][j][k], B.l[r], B.d[r], sc), "total", cat("accode: B[", i, "][", j, "][", k, "]=", Bt[i][j][k], " expected ", (double)B.l[r], " (tau=", tau, " deg=", deg, with ? " with nz" : "", ")"));
        if (with && z[i * n + j] <= 0 && k < -z[i * n + j]) c.check((double)B.l[r] == 0, "accode-nz", cat("accode: structure ", z[i * n + j], " of entry ", i, ",", j, " claims a zero at order ", k, ", exact value ", (double)B.l[r]));
      }
    }
    if (deg >= 2 && P.nnonlin > 0) c.interesting();
  }
}
