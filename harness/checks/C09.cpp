// Lie derivatives of scalar, vector and covector fields.
#include "deriv.hpp"
#include <adolc/lie/drivers.h>
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C09",
  "a case records a random vector field and random output maps / covector / second vector fields and runs a history of Lie drivers (scalar, "
  "vector, gradients, Jacobians, covector, brackets; C and C++ forms; orders 1-8, sometimes 9-14; differing dimensions one after another); "
  "oracle: flow of the vector field as a power series in time and initial state, from which k! times the k-th coefficient of "
  "h(x(t)), omega(x(t)) x'_0(t) and x'_0(t)^-1 g(x(t)); non-trivial: order at least 2 with a nonlinear vector field",
  12000, 600000, 24, 600, {"points are 0.02 away from kinks and only expanded; the int results of the Lie drivers are not specified and not judged; order 0 is not requested; cbrt excluded"}};
std::vector<Pinned> pinned_cases() { return {}; }

struct Flow { Q h, dh, cov, brac; }; // h[m][K+1], dh[m][n][K+1], cov[n][K+1], brac[n][K+1]; all times k!
template <class T> struct QT { std::vector<T> l; };
static void flow(const Program &F, const Program *H, const Program *W, const Program *G, const std::vector<double> &x0, int K, Flow &o) {
  int n = F.n;
  auto C = ref::Ctx::taylor_grad(K, n);
  auto at = [&](int j, int i) { std::vector<int> e(n + 1, 0); e[0] = j; if (i >= 0) e[i + 1] = 1; return C.at(e); };
  QT<LD> L[4];
  Q *all[4] = {&o.h, &o.dh, &o.cov, &o.brac};
  auto f = [&](auto tag, auto pick, auto *to) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x0[i]); A.back().c[at(0, i)] = 1; }
    for (int k = 0; k < K; ++k) {
      auto y = run<R>(F, C, A);
      for (int i = 0; i < n; ++i) for (int j = -1; j < n; ++j) A[i].c[at(k + 1, j)] = y[i].c[at(k, j)] / R(k + 1);
    }
    std::vector<R> fac(K + 1, R(1));
    for (int k = 1; k <= K; ++k) fac[k] = fac[k - 1] * R(k);
    if (H) {
      auto y = run<R>(*H, C, A);
      for (int l = 0; l < H->m; ++l) for (int k = 0; k <= K; ++k) pick(to[0]).push_back(fac[k] * y[l].c[at(k, -1)]);
      for (int l = 0; l < H->m; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= K; ++k) pick(to[1]).push_back(fac[k] * y[l].c[at(k, i)]);
    }
    // x'_0(t) as matrix series M_k[i][j]
    auto M = [&](int k, int i, int j) { return A[i].c[at(k, j)]; };
    if (W) {
      auto y = run<R>(*W, C, A);
      for (int j = 0; j < n; ++j) for (int k = 0; k <= K; ++k) {
        R s = 0;
        for (int q = 0; q <= k; ++q) for (int i = 0; i < n; ++i) s += y[i].c[at(k - q, -1)] * M(q, i, j);
        pick(to[2]).push_back(fac[k] * s);
      }
    }
    if (G) {
      auto y = run<R>(*G, C, A);
      // solve M(t) v(t) = g(x(t)), M_0 = I
      std::vector<std::vector<R>> v(K + 1, std::vector<R>(n));
      for (int k = 0; k <= K; ++k) for (int i = 0; i < n; ++i) {
        R s = y[i].c[at(k, -1)];
        for (int q = 1; q <= k; ++q) for (int j = 0; j < n; ++j) s -= M(q, i, j) * v[k - q][j];
        v[k][i] = s;
      }
      for (int i = 0; i < n; ++i) for (int k = 0; k <= K; ++k) pick(to[3]).push_back(fac[k] * v[k][i]);
    }
  };
  f(LD(0), [](QT<LD> &q) -> std::vector<LD> & { return q.l; }, L);
  for (int i = 0; i < 4; ++i) all[i]->l = L[i].l;
  for (uint64_t sd = 1; sd <= 2; ++sd) {
    QT<ref::Nz> T[4];
    ref::Nz::state() = sd;
    f(ref::Nz(0), [](QT<ref::Nz> &q) -> std::vector<ref::Nz> & { return q.l; }, T);
    for (int i = 0; i < 4; ++i) fold_noise(*all[i], T[i].l);
  }
}
static void judge(Case &c, const char *nm, const std::vector<double> &got, const Q &w, int K) {
  // per order: scale by the largest entry of that order
  double s0 = 0;
  for (size_t r = 0; r < w.l.size(); r += K + 1) s0 = std::max(s0, std::fabs((double)w.l[r]));
  for (int k = 0; k <= K; ++k) {
    double sc = k > 6 ? std::tgamma(k + 1.0) * 1e-3 * (1 + s0) : 0;
    for (size_t r = k; r < w.l.size(); r += K + 1) sc = std::max(sc, std::fabs((double)w.l[r]));
    for (size_t r = k; r < w.l.size(); r += K + 1)
      c.check(close(got[r], w.l[r], w.d[r], k > 6 ? sc * std::min(1e8, std::pow(k > 8 ? 100.0 : 10.0, k - 6)) : sc), cat("value-", nm), cat(nm, ": order ", k, " of ", K, ", entry ", r / (K + 1), ": got ", got[r], " expected ", (double)w.l[r]));
  }
}
void run_case(Case &c) {
  Gen &g = c.g;
  taping::reset_library();
  int rounds = g.range(1, 2);
  for (int r = 0; r < rounds; ++r) {
    bool high = g.chance(1, 6);
    Opts o;
    o.npts = 2; o.imax = high ? 8 : 14; o.vmax = 6;
    o.banned_fns = {F_CBRT};
    // powers of small bases lose all digits at high order (recurrence with a removable singularity)
    o.banned_ops = {POWC, POWA};
    if (high) {
      o.banned_ops = {POWC, POWA, CPOW, DIV, CDIV, ATAN2};
      o.banned_fns = {F_CBRT, F_LOG, F_SQRT, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_ERF, F_ERFC, F_LOG10};
    }
    bool big = !high && g.chance(1, 12);
    if (big) { c.label("large"); o.imax = 40; }
    int n = g.range(1, high ? 2 : big ? 12 : 4);
    o.nmin = o.nmax = n;
    o.mmin = o.mmax = n;
    Program F = random_program(g, o);
    if (F.m != n) c.discard();
    o.fixed_pts = F.pts;
    Program Gp = random_program(g, o);
    o.mmin = 1; o.mmax = big ? 12 : 3;
    Program H = random_program(g, o);
    c.desc << "F\n" << F.str() << "G\n" << Gp.str() << "H\n" << H.str();
    bool haveG = Gp.m == n;
    short tf = (short)createNewTape(), tg = (short)createNewTape(), th = (short)createNewTape();
    taping::trace(tf, F, F.pts[0]);
    taping::trace(tg, Gp, F.pts[0]);
    taping::trace(th, H, F.pts[0]);
    int len = g.range(1, 4);
    for (int it = 0; it < len; ++it) {
      auto x = F.pts[g.below(2)];
      int d = high ? g.range(9, 14) : g.range(1, big ? 4 : 7);
      int how = (int)g.below(6);
      if (how >= 4 && !haveG) how = 0;
      if ((how == 0 || how == 2) && H.m != 1) ++how;
      Flow w;
      flow(F, how < 4 ? &H : nullptr, how == 4 ? &Gp : nullptr, how == 5 ? &Gp : nullptr, x, d, w);
      for (const Q *q : {&w.h, &w.dh, &w.cov, &w.brac}) if (!finite(*q) || q->scale() > 1e20) c.discard();
      auto xin = x;
      bool cxx = g.coin();
      c.label(cat("order ", d));
      static const char *nms[] = {"lie_scalar", "lie_scalar (vector)", "lie_gradient", "lie_gradient (vector)", "lie_covector", "lie_bracket"};
      c.desc << nms[how] << " d=" << d << " x=" << show(x) << "\n";
      c.label(nms[how]);
      int m = H.m;
      if (how == 0) {
        std::vector<double> R(d + 1, 1e30);
        if (cxx) lie_scalar(tf, th, (short)n, xin.data(), (short)d, R.data()); else lie_scalarc(tf, th, (short)n, xin.data(), (short)d, R.data());
        judge(c, nms[how], R, w.h, d);
      } else if (how == 1) {
        Mat R(m, d + 1, 1e30);
        if (cxx) lie_scalar(tf, th, (short)n, (short)m, xin.data(), (short)d, R.p()); else lie_scalarcv(tf, th, (short)n, (short)m, xin.data(), (short)d, R.p());
        judge(c, nms[how], R.d, w.h, d);
      } else if (how == 2) {
        Mat R(n, d + 1, 1e30);
        if (cxx) lie_gradient(tf, th, (short)n, xin.data(), (short)d, R.p()); else lie_gradientc(tf, th, (short)n, xin.data(), (short)d, R.p());
        judge(c, nms[how], R.d, w.dh, d);
      } else if (how == 3) {
        Ten R(m, n, d + 1, 1e30);
        if (cxx) lie_gradient(tf, th, (short)n, (short)m, xin.data(), (short)d, R.p()); else lie_gradientcv(tf, th, (short)n, (short)m, xin.data(), (short)d, R.p());
        judge(c, nms[how], R.d, w.dh, d);
      } else if (how == 4) {
        Mat R(n, d + 1, 1e30);
        lie_covector(tf, tg, (short)n, xin.data(), (short)d, R.p());
        judge(c, nms[how], R.d, w.cov, d);
      } else {
        Mat R(n, d + 1, 1e30);
        lie_bracket(tf, tg, (short)n, xin.data(), (short)d, R.p());
        judge(c, nms[how], R.d, w.brac, d);
      }
      c.check(xin == x, "argument", cat(nms[how], " changed its argument"));
      if (d >= 2 && F.nnonlin > 0) c.interesting();
    }
  }
}
