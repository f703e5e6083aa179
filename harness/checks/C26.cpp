// Threads with their own tapes do not disturb each other.
#include "evals.hpp"
#include "safe.hpp"
#include <adolc/adtl.h>
#include <adolc/advector.h>
#include <adolc/adolcerror.h>
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/fixpoint.h>
#include <adolc/lie/drivers.h>
#include <barrier>
#include <cstring>
#include <thread>
using namespace prog;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C26",
  "a case gives 2-4 threads random scripts: record random programs on their own tapes (in core, small buffers, on file), then random sweeps of every kind including the overloaded ones, all driver families "
  "(derivative, tensor, inverse, Lie, ordinary differential equations, sparsity patterns), parameter changes, active subscripts, external functions, checkpointed loops, fixed points, traceless gradients, rejected calls; "
  "each script runs alone in a fresh thread and then all run at the same time; oracle: every number computed is bitwise the same, and ThreadSanitizer reports no race; non-trivial: at least two threads with six or more evaluations",
  3000, 60000, 30, 600, {"schedules are those the operating system produced; ThreadSanitizer finds races independently of timing only between accesses that both happened", "colouring of sparse matrices (ColPack) and the traceless sparse driver are not run in threads", "tape_doc writes a file named by the tape number alone and is not run in threads", "traceless number of directions is the same in all threads"}, 50, 60, true};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
struct Step { int kind; int tape; Vec v; int a, b, d; };
struct Script { std::vector<Program> progs; std::vector<Step> steps; };
constexpr int NTAPES = 2;
int ext_fn(short, int m, int n, double *x, double *y) { for (int j = 0; j < m; ++j) { y[j] = 0; for (int i = 0; i < n; ++i) y[j] += (i + j + 1) * x[i] * x[i]; } return 1; }
int ext_zos(short, int m, int n, int, double *x, double *y) { return ext_fn(0, m, n, x, y); }
int ext_fos_r(short, int m, int n, double *u, double *z, double *x, double *) { for (int i = 0; i < n; ++i) { z[i] = 0; for (int j = 0; j < m; ++j) z[i] += u[j] * 2 * (i + j + 1) * x[i]; } return 1; }
int cp_step(size_t n, adouble *s) { for (size_t i = 0; i < n; ++i) s[i] = s[i] + 0.1 * sin(s[(i + 1) % n]); return 1; }
int cp_stepd(size_t n, double *s) { for (size_t i = 0; i < n; ++i) s[i] = s[i] + 0.1 * std::sin(s[(i + 1) % n]); return 1; }
int fp_d(double *x, double *u, double *y, size_t dx, size_t du) { for (int i = 0; i < (int)dx; ++i) y[i] = 0.3 * std::sin(x[(i + 1) % dx]) + u[i % du]; return 0; }
int fp_a(adouble *x, adouble *u, adouble *y, size_t dx, size_t du) { for (int i = 0; i < (int)dx; ++i) y[i] = 0.3 * sin(x[(i + 1) % dx]) + u[i % du]; return 0; }
double nrm(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s = std::max(s, std::fabs(x[i])); return s; }

void run_script(const Script &S, Vec &out) {
  short id[NTAPES];
  const Program *cur[NTAPES] = {};
  for (auto &t : id) { t = createNewTape(); findTape(t).disableBranchSwitchWarnings(); }
  auto put = [&](const Vec &v) { out.insert(out.end(), v.begin(), v.end()); };
  for (auto &st : S.steps) {
    size_t pos = 0;
    auto nx = [&] { return st.v[pos++ % st.v.size()]; };
    auto fill = [&](auto &M) { for (auto &q : M.d) q = nx(); };
    auto fillv = [&](Vec &M) { for (auto &q : M) q = nx(); };
    short t = id[st.tape];
    out.push_back(1000 + st.kind);
    if (st.kind == 0) { // record
      const Program &P = S.progs[st.a];
      auto store = [&](short i, int keep) { return st.b == 0 ? trace_on(i, keep) : trace_on(i, keep, 20 + st.d, 80 + st.d, 10, 64, 1); };
      taping::set_trace_on(store);
      auto y = taping::trace(t, P, P.pts[0], st.d % 2, st.b == 2);
      taping::set_trace_on(nullptr);
      put(y);
      cur[st.tape] = &P;
      auto s = tapestats(t);
      for (int i = 0; i < 8; ++i) out.push_back((double)s[i]);
      continue;
    }
    if (st.kind >= 40) { // work on a tape of its own
      short q = createNewTape();
      setCurrentTape(q);
      int n = 1 + st.a % 3;
      double y = 0;
      Vec x(n), z(n, 0);
      fillv(x);
      double u = 1;
      switch (st.kind) {
      case 40: { // active subscripts
        trace_on(q);
        { advector v(n + 1); std::vector<adouble> X(n); adouble ix, r = 0.0; for (int i = 0; i < n; ++i) X[i] <<= x[i]; ix <<= (double)(st.b % (n + 1)); for (int i = 0; i <= n; ++i) v[i] = X[i % n] * (double)(i + 1); v[ix] = v[ix] * X[0]; const advector &cv = v; r = cv[ix]; for (int i = 0; i <= n; ++i) r += v[i]; r >>= y; }
        trace_off();
        Vec xx = x; xx.push_back((double)((st.b + 1) % (n + 1)));
        zos_forward(q, 1, n + 1, 1, xx.data(), &y); out.push_back(y);
        Vec zz(n + 1, 0); fos_reverse(q, 1, n + 1, &u, zz.data()); put(zz);
        break;
      }
      case 41: { // external function
        auto *e = reg_ext_fct(q, q, &ext_fn);
        e->zos_forward = ext_zos; e->fos_reverse = ext_fos_r;
        trace_on(q);
        { currentTape().ensureContiguousLocations(n); std::vector<adouble> X(n); std::vector<adouble> r(1); for (int i = 0; i < n; ++i) X[i] <<= x[i]; call_ext_fct(e, n, X.data(), 1, r.data()); r[0] = sin(r[0]); r[0] >>= y; }
        trace_off();
        out.push_back(y);
        fillv(x);
        zos_forward(q, 1, n, 1, x.data(), &y); out.push_back(y);
        fos_reverse(q, 1, n, &u, z.data()); put(z);
        break;
      }
      case 42: { // checkpointing
        short cpt = createNewTape();
        CP_Context cp(q, cpt, cp_step);
        cp.setDoubleFct(cp_stepd); cp.setNumberOfSteps(5 + st.d); cp.setNumberOfCheckpoints(1 + st.b % 3); cp.setDimensionXY(n); cp.setAlwaysRetaping(st.b & 1);
        trace_on(q, 1);
        { currentTape().ensureContiguousLocations(n); std::vector<adouble> X(n); for (int i = 0; i < n; ++i) X[i] <<= x[i]; cp.setInput(X.data()); cp.setOutput(X.data()); cp.checkpointing(q); adouble r = 0.0; for (auto &e : X) r += e * e; r >>= y; }
        trace_off();
        out.push_back(y);
        fos_reverse(q, 1, n, &u, z.data()); put(z);
        fillv(x);
        zos_forward(q, 1, n, 1, x.data(), &y); fos_reverse(q, 1, n, &u, z.data()); out.push_back(y); put(z);
        break;
      }
      case 43: { // fixed point
        short sub = createNewTape();
        trace_on(q, 1);
        { currentTape().ensureContiguousLocations(n); std::vector<adouble> X0(n); currentTape().ensureContiguousLocations(n); std::vector<adouble> U(n); currentTape().ensureContiguousLocations(n); std::vector<adouble> X(n); for (int i = 0; i < n; ++i) { U[i] <<= x[i]; X0[i] = 0.0; }
          fp_iteration(q, sub, fp_d, fp_a, nrm, nrm, 1e-12, 1e-12, 50, 50, X0.data(), U.data(), X.data(), n, n); adouble r = 0.0; for (auto &e : X) r += e * e; r >>= y; }
        trace_off();
        out.push_back(y);
        fillv(x);
        zos_forward(q, 1, n, 1, x.data(), &y); fos_reverse(q, 1, n, &u, z.data()); out.push_back(y); put(z);
        break;
      }
      case 44: { // traceless
        std::vector<adtl::adouble> X(n);
        for (int i = 0; i < n; ++i) { X[i] = x[i]; for (int k = 0; k < 3; ++k) X[i].setADValue(k, nx()); }
        adtl::adouble r = 0.0;
        for (int i = 0; i < n; ++i) r = r * adtl::sin(X[i]) + X[i] * X[(i + 1) % n] + adtl::exp(X[i] * 0.1);
        out.push_back(r.getValue());
        for (int k = 0; k < 3; ++k) out.push_back(r.getADValue(k));
        break;
      }
      case 45: { // Lie derivatives and ordinary differential equations
        short h = createNewTape();
        trace_on(q); { std::vector<adouble> X(n); for (int i = 0; i < n; ++i) X[i] <<= x[i]; for (int i = 0; i < n; ++i) { adouble r = sin(X[(i + 1) % n]) * X[i]; r >>= y; } } trace_off();
        setCurrentTape(h);
        trace_on(h); { std::vector<adouble> X(n); for (int i = 0; i < n; ++i) X[i] <<= x[i]; adouble r = 0.0; for (auto &e : X) r += e * e; r >>= y; } trace_off();
        int d = 1 + st.d % 4;
        Vec res(d + 1, 0);
        lie_scalar(q, h, (short)n, x.data(), (short)d, res.data()); put(res);
        Mat G(n, d + 1); lie_gradient(q, h, (short)n, x.data(), (short)d, G.p()); put(G.d);
        Mat X(n, d + 2); for (int i = 0; i < n; ++i) X[i][0] = x[i];
        forode(q, n, 0.5, 0, d, X.p()); put(X.d);
        short w = createNewTape();
        setCurrentTape(w);
        trace_on(w); { std::vector<adouble> X(n); for (int i = 0; i < n; ++i) X[i] <<= x[i]; for (int i = 0; i < n; ++i) { adouble r = X[i] * X[i]; r >>= y; } } trace_off();
        Mat W(n, d + 1); lie_covector(q, w, (short)n, x.data(), (short)d, W.p()); put(W.d);
        Mat B(n, d + 1); lie_bracket(q, w, (short)n, x.data(), (short)d, B.p()); put(B.d);
        break;
      }
      default: { // inverse tensors
        trace_on(q); { std::vector<adouble> X(n); for (int i = 0; i < n; ++i) X[i] <<= x[i]; for (int i = 0; i < n; ++i) { adouble r = 2.0 * X[i] + 0.1 * sin(X[(i + 1) % n]); r >>= y; } } trace_off();
        int d = 1 + st.d % 2, p = 1 + st.b % 2;
        Mat T(n, 20), Sd(n, p);
        fill(Sd);
        inverse_tensor_eval(q, n, d, p, x.data(), T.p(), Sd.p()); put(T.d);
      }
      }
      continue;
    }
    const Program *P = cur[st.tape];
    if (!P) continue;
    int n = P->n, m = P->m, d = 1 + st.d % 3, p = 1 + st.b % 3;
    Vec x = P->pts[st.a % P->pts.size()], y(m, 0), u(m), z(n, 0), X1(n), Y1(m, 0);
    fillv(u); fillv(X1);
    int rc = 0;
    switch (st.kind) {
    case 1: rc = zos_forward(t, m, n, st.b & 1, x.data(), y.data()); put(y); break;
    case 2: rc = fos_forward(t, m, n, st.b % 3, x.data(), X1.data(), y.data(), Y1.data()); put(Y1); break;
    case 3: { Mat X(n, p), Y(m, p); fill(X); rc = fov_forward(t, m, n, p, x.data(), X.p(), y.data(), Y.p()); put(Y.d); break; }
    case 4: { Mat X(n, d), Y(m, d), Z(n, d + 1); fill(X); rc = hos_forward(t, m, n, d, d + 1, x.data(), X.p(), y.data(), Y.p()); put(Y.d); hos_reverse(t, m, n, d, u.data(), Z.p()); put(Z.d); break; }
    case 5: { Mat X(n, d), Y(m, d), U(p, m); Ten Z(p, n, d + 1); fill(X); fill(U); rc = hos_forward(t, m, n, d, d + 1, x.data(), X.p(), y.data(), Y.p()); hov_reverse(t, m, n, d, p, U.p(), Z.p(), nullptr); put(Z.d); break; }
    case 6: { Ten X(n, p, d), Y(m, p, d); for (auto &q : X.d) q = nx(); rc = hov_forward(t, m, n, d, p, x.data(), X.p(), y.data(), Y.p()); put(Y.d); break; }
    case 7: { zos_forward(t, m, n, 1, x.data(), y.data()); fos_reverse(t, m, n, u.data(), z.data()); put(z); Mat U(p, m), Z(p, n); fill(U); fov_reverse(t, m, n, p, U.p(), Z.p()); put(Z.d); break; }
    case 8: { Mat X(n, d + 1), Y(m, d + 1); fill(X); for (int i = 0; i < n; ++i) X[i][0] = x[i]; rc = forward(t, m, n, d, d + 1, X.p(), Y.p()); put(Y.d); Ten Z(m, n, d + 1); std::vector<short> nzd(m * n + 1, 0); std::vector<short *> nz(m); for (int j = 0; j < m; ++j) nz[j] = nzd.data() + j * n; reverse(t, m, n, d, Z.p(), nz.data()); put(Z.d); for (short k : nzd) out.push_back(k); break; }
    case 9: if (m == 1) { Mat X(n, 2); Vec Y(2, 0); fill(X); for (int i = 0; i < n; ++i) X[i][0] = x[i]; rc = forward(t, m, n, 1, 0, X.p(), Y.data()); put(Y); } break;
    case 10: { Mat J(m, n); const double *cx = x.data(); rc = jacobian(t, m, n, cx, J.p()); put(J.d); break; }
    case 11: rc = vec_jac(t, m, n, 0, x.data(), u.data(), z.data()); put(z); break;
    case 12: rc = lagra_hess_vec(t, m, n, x.data(), X1.data(), u.data(), z.data()); put(z); break;
    case 13: if (m == 1) { Mat H(n, n); rc = hessian(t, n, x.data(), H.p()); put(H.d); rc = gradient(t, n, x.data(), z.data()); put(z); } break;
    case 14: case 15: { int q = 1 + st.b % 2, dd = 1 + st.d % 2, sz = binomi(q + dd, dd); Mat T(m, sz), Sd(n, q); fill(Sd); rc = tensor_eval(t, m, n, dd, q, x.data(), T.p(), Sd.p()); put(T.d); break; }
    case 16: {
      using namespace ADOLC::Sparse;
      std::vector<unsigned *> rows(m, nullptr);
      std::span<unsigned *> sp(rows.data(), m);
      if (st.b & 1) jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(t, m, n, x.data(), sp);
      else jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Reverse>(t, m, n, x.data(), sp);
      for (auto r : rows) if (r) { for (unsigned k = 0; k <= r[0]; ++k) out.push_back(r[k]); delete[] r; }
      if (m == 1) {
        std::vector<unsigned *> h(n, nullptr);
        std::span<unsigned *> hs(h.data(), n);
        hess_pat<ControlFlowMode::Tight>(t, n, x.data(), hs);
        for (auto r : h) if (r) { for (unsigned k = 0; k <= r[0]; ++k) out.push_back(r[k]); delete[] r; }
      }
      break;
    }
    case 17: if (!P->params.empty()) { Vec q(P->params.size()); fillv(q); for (auto &e : q) e = P->params[&e - q.data()] * (1 + 1e-3 * e); findTape(t).set_param_vec(t, q.size(), q.data()); rc = zos_forward(t, m, n, 0, x.data(), y.data()); put(y); } break;
    case 18: try { zos_forward(t, m + 1, n, 0, x.data(), Vec(m + 1).data()); out.push_back(0); } catch (ADOLCError::ADOLCError &) { out.push_back(1); } break;
    case 19: { Mat X(n, d), Y(m, d), U(p, m), Z(p, n); fill(U); zos_forward(t, m, n, 1, x.data(), y.data()); const double *const *UU = U.p(); rc = reverse(t, m, n, 0, p, UU, Z.p()); put(Z.d); break; }
    case 20: if (m == n) { Vec b(n, 1.0); rc = jac_solv(t, n, x.data(), b.data(), 2); put(b); } break;
    default: { Vec q(m, 0); rc = jac_vec(t, m, n, x.data(), X1.data(), q.data()); put(q); }
    }
    out.push_back(rc);
  }
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  int T = g.range(2, 4);
  std::vector<Script> S(T);
  static bool once = (adtl::setNumDir(3), true);
  (void)once;
  int busy = 0;
  for (auto &s : S) {
    int np = g.range(1, 2);
    for (int k = 0; k < np; ++k) {
      Opts o;
      o.npts = 2; o.nmax = 4; o.mmax = 3; o.imin = 2; o.imax = 12; o.params = g.chance(1, 3); o.pfun = o.params; o.npar = 2; o.banned_fns = {F_CBRT};
      auto P = random_program(g, o);
      if (P.m < 1) c.discard();
      s.progs.push_back(P);
    }
    int len = g.range(3, 12), ev = 0;
    for (int k = 0; k < len; ++k) {
      Step q;
      q.tape = (int)g.below(NTAPES);
      int w = g.pick({3, 10, 3});
      q.kind = k == 0 || w == 0 ? 0 : w == 1 ? g.range(1, 21) : g.range(40, 46);
      if (k == 0) q.tape = 0;
      q.a = q.kind == 0 ? (int)g.below(s.progs.size()) : (int)g.below(6);
      q.b = q.kind == 0 ? (int)g.below(3) : (int)g.below(6); q.d = (int)g.below(6);
      for (int i = 0; i < 7; ++i) q.v.push_back(g.real(-1.2, 1.2));
      if (q.kind) ++ev;
      s.steps.push_back(q);
    }
    busy += ev >= 6;
    c.desc << "thread:";
    for (auto &q : s.steps) { c.desc << " " << q.kind << "/" << q.tape << "(" << q.a << "," << q.b << "," << q.d << ")"; c.label(cat("step ", q.kind)); }
    c.desc << "\n";
    for (auto &P : s.progs) c.desc << P.str();
  }
  publish_desc(c);
  std::vector<Vec> A(T), B(T);
  std::vector<std::string> err(T);
  auto guarded = [&](int i, Vec &o) { try { run_script(S[i], o); } catch (std::exception &e) { err[i] = e.what(); } };
  bool first = g.coin(); // the scripts alone before or after the common run
  auto alone = [&] { for (int i = 0; i < T; ++i) std::thread([&, i] { guarded(i, A[i]); }).join(); };
  if (first) alone();
  auto e1 = err;
  {
    std::barrier bar(T);
    std::vector<std::thread> th;
    for (int i = 0; i < T; ++i) th.emplace_back([&, i] { bar.arrive_and_wait(); guarded(i, B[i]); });
    for (auto &t : th) t.join();
  }
  if (!first) { e1 = err; alone(); }
  for (int i = 0; i < T; ++i) {
    c.check(e1[i] == err[i], "errors-differ", cat("thread ", i, ": alone '", first ? e1[i] : err[i], "' together '", first ? err[i] : e1[i], "'"));
    if (!err[i].empty()) c.check(false, "unexpected-error", err[i]);
    c.check(A[i].size() == B[i].size(), "lengths-differ", cat("thread ", i));
    double kind = 0;
    for (size_t k = 0; k < A[i].size() && k < B[i].size(); ++k) {
      if (A[i][k] >= 1000 && A[i][k] <= 1100) kind = A[i][k] - 1000;
      if (!(A[i][k] == B[i][k] || std::memcmp(&A[i][k], &B[i][k], 8) == 0 || (std::isnan(A[i][k]) && std::isnan(B[i][k])))) c.check(false, cat("results-differ-", (int)kind), cat("thread ", i, " step kind ", kind, ": alone ", A[i][k], " together ", B[i][k]));
    }
  }
  if (busy >= 2) c.nontrivial = true;
}
