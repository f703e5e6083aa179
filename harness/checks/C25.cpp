// Misuse is reported by the documented error and leaves tapes and library usable.
#include "evals.hpp"
#include <adolc/adolcerror.h>
#include <adolc/externfcts.h>
#include <adolc/advector.h>
#include <adolc/checkpointing.h>
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C25",
  "a case is a history on two tapes (in core, small buffers or on file) of recordings, correct sweeps and drivers, and misuse injected at any point, also in the middle of a recording: wrong numbers of "
  "variables, switches or parameters in sweeps and drivers, unknown tapes, sweeps on or a second start of a tape being recorded, ending a recording that was not started, reverse sweeps without a suitable forward "
  "sweep, degrees or shapes that do not fit, abs-normal functions on unsuited tapes, gaps in vector arguments, subscripts out of bounds, incomplete external functions, operations without higher-order derivatives, "
  "changes of settings at the wrong time; oracle: the documented error is thrown each time, and every correct step before and after agrees with exact derivatives of the recorded program; non-trivial: at least three "
  "reported errors, each followed by a correct evaluation or recording",
  20000, 300000, 24, 600, {"null pointers as sweep arguments are not passed", "programs are smooth at the points used"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = evals::Vec;
struct T {
  short id = -1;
  Program P;
  evals::Fun F;
  bool rec = false, minmax = false, singles = false;
};
int ext_zos(short, int m, int n, double *x, double *y) { for (int j = 0; j < m; ++j) { y[j] = 1; for (int i = 0; i < n; ++i) y[j] += (i + 1) * x[i] * x[i]; } return 3; }
int ext_v2(short, size_t, size_t *, size_t, size_t, size_t *, double **, size_t *, double **, void *) { return 3; }
int ts(size_t, adouble *) { return 1; }
int tsd(size_t, double *) { return 1; }
struct World {
  Case &c;
  Gen &g;
  T t[2];
  int errors = 0, good = 0, pending = 0;
  World(Case &C) : c(C), g(C.g) {}
  template <class F> void expect(const std::string &nm, std::initializer_list<const char *> words, F f) {
    c.desc << "  misuse " << nm << "\n";
    try { f(); }
    catch (ADOLCError::ADOLCError &e) {
      std::string w = e.what();
      bool ok = false;
      for (auto k : words) if (w.find(k) != std::string::npos) ok = true;
      c.check(ok, "wrong-error-" + nm, nm + " reported: " + w);
      ++errors; ++pending;
      c.label("misuse-" + nm);
      return;
    }
    c.check(false, "silent-" + nm, nm + " did not raise an error");
  }
  void correct() { if (pending) { ++good; pending = 0; } }
  void evaluate(T &a) {
    if (!a.rec) return;
    evals::Eval E{c, a.id, a.F, [](const evals::Vec &, int rc) { return rc >= 0; }};
    E.pre = "after-";
    Vec x = a.P.pts[g.below(a.P.pts.size())];
    if (E.one(x)) { c.desc << "  evaluated tape " << a.id << " " << E.last << "\n"; correct(); }
  }
  short unknown() { std::vector<short> ids; cachedTraceTags(ids); short k = 0; for (short i : ids) k = std::max(k, i); return g.coin() ? (short)(k + 1 + g.below(50)) : (short)-(1 + (short)g.below(5)); }
  // sweeps and drivers with given counts; buffers are large enough for n and m
  std::string sweep(short id, int m, int n, bool reverse_ok, const char *&kind, int how = -1) {
    int M = m + 4, N = n + 4, d = 2, p = 2;
    kind = "";
    Vec x(N, 0.5), y(M, 0), u(M, 1.0), z(N, 0), X1(N, 1.0), Y1(M, 0);
    Mat X(N, 4, 0.5), Y(M, 4), U(4, M, 1.0), Z(N, 4), J(M, N), H(N, N), Zq(4, N);
    Ten XX(N, 3, 4, 0.5), YY(M, 3, 4), ZZ(4, N, 4);
    const double *cx = x.data();
    if (how < 0) how = (int)g.below(reverse_ok ? 24 : 18);
    switch (how) {
    case 0: kind = "zos_forward"; zos_forward(id, m, n, (int)g.below(2), x.data(), y.data()); break;
    case 1: kind = "fos_forward"; fos_forward(id, m, n, (int)g.below(3), x.data(), X1.data(), y.data(), Y1.data()); break;
    case 2: kind = "fov_forward"; fov_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p()); break;
    case 3: kind = "hos_forward"; hos_forward(id, m, n, d, (int)g.below(4), x.data(), X.p(), y.data(), Y.p()); break;
    case 4: kind = "hov_forward"; hov_forward(id, m, n, d, p, x.data(), XX.p(), y.data(), YY.p()); break;
    case 5: kind = "hov_wk_forward"; hov_wk_forward(id, m, n, d, (int)g.below(4), p, x.data(), XX.p(), y.data(), YY.p()); break;
    case 6: kind = "function"; ::function(id, m, n, x.data(), y.data()); break;
    case 7: kind = "jacobian"; jacobian(id, m, n, cx, J.p()); break;
    case 8: kind = "jac_vec"; jac_vec(id, m, n, x.data(), X1.data(), Y1.data()); break;
    case 9: kind = "vec_jac"; vec_jac(id, m, n, 0, x.data(), u.data(), z.data()); break;
    case 10: kind = "lagra_hess_vec"; lagra_hess_vec(id, m, n, x.data(), X1.data(), u.data(), z.data()); break;
    case 11: kind = "tensor_eval"; { if (m == 0 || n == 0) { tensor_eval(id, m, n, 1, p, x.data(), Mat(M, 10).p(), Mat(N, p, 1.0).p()); } else { Mat S(N, p, 1.0), tt(M, 20); tensor_eval(id, m, n, 2, p, x.data(), tt.p(), S.p()); } } break;
    case 12: kind = "jac_pat"; {
      using namespace ADOLC::Sparse;
      using D = BitPatternPropagationDirection;
      std::vector<unsigned int *> JP(M, nullptr);
      std::span<unsigned int *> sp(JP.data(), m);
      switch (g.below(3)) { case 0: jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(id, m, n, x.data(), sp); break; case 1: jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, D::Forward>(id, m, n, x.data(), sp); break; default: jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, D::Reverse>(id, m, n, x.data(), sp); }
      for (auto q : JP) delete[] q;
      break;
    }
    case 13: kind = "sparse_jac"; { ADOLC::Sparse::SparseMatrix sm; ADOLC::Sparse::sparse_jac<>(id, m, n, 0, x.data(), sm); break; }
    case 14: kind = "gradient"; if (m != 1) { kind = "function"; ::function(id, m, n, x.data(), y.data()); } else gradient(id, n, x.data(), z.data()); break;
    case 15: kind = "hessian"; if (m != 1) { kind = "jacobian"; jacobian(id, m, n, cx, J.p()); } else hessian(id, n, x.data(), H.p()); break;
    case 16: kind = "hess_vec"; if (m != 1) { kind = "zos_forward"; zos_forward(id, m, n, 0, x.data(), y.data()); } else hess_vec(id, n, x.data(), X1.data(), z.data()); break;
    case 17: kind = "int_forward"; { std::vector<bitword_t> b(2 * (N + M), 1), b2(2 * (N + M)); std::vector<bitword_t *> a(N), o(M); for (int i = 0; i < N; ++i) a[i] = b.data() + 2 * i; for (int i = 0; i < M; ++i) o[i] = b2.data() + 2 * i;
        if (g.coin()) int_forward_tight(id, m, n, 1, x.data(), a.data(), y.data(), o.data()); else int_forward_safe(id, m, n, 1, a.data(), o.data()); break; }
    case 18: kind = "fos_reverse"; fos_reverse(id, m, n, u.data(), z.data()); break;
    case 19: kind = "fov_reverse"; fov_reverse(id, m, n, p, U.p(), Zq.p()); break;
    case 20: kind = "hos_reverse"; hos_reverse(id, m, n, d, u.data(), Z.p()); break;
    case 21: kind = "hov_reverse"; hov_reverse(id, m, n, d, p, U.p(), ZZ.p(), nullptr); break;
    case 22: kind = "hos_ti_reverse"; { Mat U2(M, 4, 1.0); hos_ti_reverse(id, m, n, d, U2.p(), Z.p()); } break;
    default: kind = "int_reverse"; { std::vector<bitword_t> b(4 * M, 1), b2(4 * N); std::vector<bitword_t *> a(4), o(4); for (int i = 0; i < 4; ++i) { a[i] = b.data() + i * M; o[i] = b2.data() + i * N; }
        if (g.coin()) int_reverse_tight(id, m, n, p, a.data(), o.data()); else int_reverse_safe(id, m, n, p, a.data(), o.data()); } break;
    }
    return kind;
  }
  void misuse_sweep(const std::string &what, short id, int m, int n, std::initializer_list<const char *> words) {
    const char *kind = "";
    c.desc << "  " << what << " with m=" << m << " n=" << n << " on tape " << id;
    int how = (int)g.below(24);
    static const char *names[] = {"zos_forward", "fos_forward", "fov_forward", "hos_forward", "hov_forward", "hov_wk_forward", "function", "jacobian", "jac_vec", "vec_jac", "lagra_hess_vec", "tensor_eval", "jac_pat", "sparse_jac", "gradient", "hessian", "hess_vec", "int_forward", "fos_reverse", "fov_reverse", "hos_reverse", "hov_reverse", "hos_ti_reverse", "int_reverse"};
    expect(what + "-" + names[how], words, [&] { sweep(id, m, n, true, kind, how); });
  }
  // misuse that needs no particular state; a is a recorded tape not being recorded now
  void misuse(T &a) {
    int m = a.rec ? a.P.m : 1, n = a.rec ? a.P.n : 1;
    Vec x = a.rec ? a.P.pts[0] : Vec(1, 0.5);
    Vec y(m + 4, 0), z(n + 4, 0), X1(n + 4, 1), Y1(m + 4), u(m + 4, 1.0);
    Mat X(n, 4, 0.5), Y(m, 4), Z(n, 5), U(3, m, 1.0), Zq(3, n);
    x.resize(n + 4, 0.5);
    int k = (int)g.below(a.rec ? 14 : 3);
    switch (k) {
    case 0: misuse_sweep("unknown-tape", unknown(), 1, 1, {"tape", "Tape"}); break;
    case 1: {
      short id = unknown();
      int j = (int)g.below(9);
      static const char *nm[] = {"trace_on", "trace_on-buffers", "tapestats", "setCurrentTape", "findTape", "get_num_param", "get_num_switches", "nestedReverseEval", "tape_doc"};
      expect(std::string("unknown-tape-") + nm[j], {"tape", "Tape"}, [&] {
        switch (j) {
        case 0: trace_on(id, 1); break;
        case 1: trace_on(id, 0, 100, 100, 100, 100, 1); break;
        case 2: tapestats(id); break;
        case 3: setCurrentTape(id); break;
        case 4: findTape(id).workMode(); break;
        case 5: get_num_param(id); break;
        case 6: get_num_switches(id); break;
        case 7: nestedReverseEval(id, true); break;
        default: tape_doc(id, 1, 1, x.data(), y.data());
        }
      });
      break;
    }
    case 2: {
      if (!currentTapePtr() || currentTape().workMode() == TapeInfos::WRITE_ACCESS) break;
      expect("trace_off-without-trace_on", {"not being currently created"}, [&] { trace_off((int)g.below(2)); });
      break;
    }
    case 3: case 4: {
      int dm = g.range(-1, 2), dn = g.range(-1, 2);
      if (!dm && !dn) dm = 1;
      int M = std::max(0, m + dm), N = std::max(1, n + dn);
      if (M == m && N == n) M = m + 1;
      // reverse sweeps follow a proper forward sweep with suitable keep
      int how = (int)g.below(24);
      static const char *names[] = {"zos_forward", "fos_forward", "fov_forward", "hos_forward", "hov_forward", "hov_wk_forward", "function", "jacobian", "jac_vec", "vec_jac", "lagra_hess_vec", "tensor_eval", "jac_pat", "sparse_jac", "gradient", "hessian", "hess_vec", "int_forward", "fos_reverse", "fov_reverse", "hos_reverse", "hov_reverse", "hos_ti_reverse", "int_reverse"};
      if (how >= 7 && M == 0) M = m + 1;
      if (how >= 18) {
        if (how == 18 || how == 19 || how == 23) zos_forward(a.id, m, n, 1, x.data(), y.data());
        else hos_forward(a.id, m, n, 2, 3, x.data(), X.p(), y.data(), Y.p());
      }
      const char *kind = "";
      c.desc << "  counts " << M << "," << N << " instead of " << m << "," << n << "\n";
      expect(std::string("counts-") + names[how], {"variables passed to"}, [&] { sweep(a.id, M, N, true, kind, how); });
      break;
    }
    case 5: { // reverse without suitable forward sweep
      int prev = (int)g.below(4), how = (int)g.below(6);
      int have = -1; // degree kept
      if (prev == 0) { zos_forward(a.id, m, n, 1, x.data(), y.data()); have = 0; }
      else if (prev == 1) { fos_forward(a.id, m, n, 2, x.data(), X1.data(), y.data(), Y1.data()); have = 1; }
      else { int d = g.range(1, 3), keep = g.range(1, d + 1); hos_forward(a.id, m, n, d, keep, x.data(), X.p(), y.data(), Y.p()); have = keep - 1; }
      int d = g.range(0, 3);
      if (d == have) ++d;
      if (how > 3) {
        d = 0;
        if (have == 0) { fos_forward(a.id, m, n, 2, x.data(), X1.data(), y.data(), Y1.data()); have = 1; }
      }
      c.desc << "  kept degree " << have << ", asked for " << d << "\n";
      expect(cat("reverse-degree-", how), {"not preceded by a forward sweep", "Taylor", "taylor"}, [&] {
        if (how == 0) hos_reverse(a.id, m, n, d, u.data(), Z.p());
        else if (how == 1) { Ten ZZ(2, n, d + 1); hov_reverse(a.id, m, n, d, 2, U.p(), ZZ.p(), nullptr); }
        else if (how == 2) { Mat U2(m, d + 1, 1.0); hos_ti_reverse(a.id, m, n, d, U2.p(), Z.p()); }
        else if (how == 3) reverse(a.id, m, n, d, u.data(), Z.p());
        else if (how == 4) fos_reverse(a.id, m, n, u.data(), z.data());
        else fov_reverse(a.id, m, n, 3, U.p(), Zq.p());
      });
      break;
    }
    case 6:
      if (g.coin()) expect("zos-keep", {"zero order"}, [&] { zos_forward(a.id, m, n, g.range(2, 4), x.data(), y.data()); });
      else expect("fos-keep", {"first order"}, [&] { fos_forward(a.id, m, n, g.range(3, 5), x.data(), X1.data(), y.data(), Y1.data()); });
      break;
    case 7: { Vec q(6, 1.0); expect("set_param_vec", {"Number of parameters"}, [&] { findTape(a.id).set_param_vec(a.id, a.P.params.size() + 1 + g.below(2), q.data()); }); break; }
    case 8: { // shapes
      int j = (int)g.below(7);
      if (j == 0 && m != 1) expect("forward-Y", {"wrong Y dim"}, [&] { forward(a.id, m, n, 1, 0, X.p(), Y1.data()); });
      else if (j == 1) expect("forward-XY", {"wrong X and Y"}, [&] { forward(a.id, m, n, g.range(1, 3), 0, x.data(), y.data()); });
      else if (j == 2 && m != 1) expect("reverse-u", {"wrong u dim"}, [&] { reverse(a.id, m, n, 1, 1.0, Z.p()); });
      else if (j == 3) expect("reverse-Z", {"wrong Z dim"}, [&] { reverse(a.id, m, n, g.range(1, 3), u.data(), z.data()); });
      else if (j == 4) expect("reverse-uZ", {"wrong u or Z"}, [&] { int d = m == 1 ? 1 : (int)g.below(2); reverse(a.id, m, n, d, 1.0, z.data()); });
      else if (j == 5) expect("reverse-D", {"wrong degree"}, [&] { const double *const *UU = U.p(); reverse(a.id, m, n, g.range(1, 2), 2, UU, Zq.p()); });
      else if (m != 1) { if (g.coin()) expect("reverse-U", {"wrong U dim"}, [&] { Ten ZZ(2, n, 3); short **nz = nullptr; reverse(a.id, m, n, 1, 2, u.data(), ZZ.p(), nz); }); else expect("reverse-U0", {"wrong U dim"}, [&] { reverse(a.id, m, n, 0, 2, u.data(), Zq.p()); }); }
      break;
    }
    case 9: expect("tape_doc-counts", {"Tape_doc sweep"}, [&] { if (g.coin()) tape_doc(a.id, m + 1, n, x.data(), y.data()); else tape_doc(a.id, m, n + 1, x.data(), y.data()); }); break;
    case 10: case 11: {
      int s = a.minmax ? (int)get_num_switches(a.id) : 0, S = s + g.range(1, 3);
      Vec zz(S + 4, 0), gr(S + 4, 0);
      int j = (int)g.below(5);
      const char *w = "is not created compatible";
      if (a.minmax) {
        w = "Number of switches";
        if (j == 0 || j == 4) j = 1;
      }
      Mat aY(m, n), aJ(m, S + 1), aZ(S + 1, n), aL(S + 1, S + 1);
      std::vector<short> sig(S + 4, 1);
      if (a.minmax && (j == 2 || j == 3)) { // signature sweeps check the number given
        if (j == 2) zos_pl_forward(a.id, m, n, 1, x.data(), y.data(), zz.data());
      }
      static const char *nm[] = {"zos_pl_forward", "abs_normal", "fos_pl_reverse", "fos_pl_sig_forward", "get_num_switches"};
      expect(std::string(a.minmax ? "switches-" : "no-minmax-") + nm[j], {w}, [&] {
        Vec res(n + S + 4, 0);
        switch (j) {
        case 0: zos_pl_forward(a.id, m, n, (int)g.below(2), x.data(), y.data(), zz.data()); break;
        case 1: abs_normal(a.id, m, n, S, x.data(), y.data(), zz.data(), aY.p(), aJ.p(), aZ.p(), aL.p()); break;
        case 2: { Vec w2(m + S + 4, 1.0), w3(S + 4, 1.0), rs(S + 4, 0); fos_pl_reverse(a.id, m, n, S, w2.data(), w3.data(), res.data(), rs.data()); break; }
        case 3: { std::vector<short> os(S + 4); fos_pl_sig_forward(a.id, m, n, x.data(), X1.data(), S, sig.data(), sig.data(), y.data(), Y1.data(), zz.data(), gr.data(), os.data()); break; }
        default: get_num_switches(a.id);
        }
      });
      break;
    }
    case 12: {
      setCurrentTape(a.id);
      expect("same-store-type", {"same as the current"}, [&] { a.singles = true; findTape(a.id).setStoreManagerType(StoreManager::ADOLC_LOCATION_SINGLETONS); findTape(a.id).setStoreManagerType(StoreManager::ADOLC_LOCATION_SINGLETONS); });
      break;
    }
    default: if (m > 1) expect("sparse_hess-counts", {"variables passed to"}, [&] { using namespace ADOLC::Sparse; int nnz = 0; unsigned *ri = nullptr, *ci = nullptr; double *v = nullptr; sparse_hess<ControlFlowMode::Safe, RecoveryMethod::Indirect>(a.id, n, 0, x.data(), &nnz, &ri, &ci, &v); }); break;
    }
  }
  // misuse while tape a is being recorded
  void recording_misuse(T &a, T &b, std::vector<std::optional<adouble>> &s, int n) {
    int k = (int)g.below(14);
    c.desc << "  in the recording of tape " << a.id << "\n";
    if (a.singles && (k == 5 || k == 6 || k == 7 || k == 10 || k == 11 || k == 12)) {
      expect("blocks-singletons", {"blocks not allowed"}, [&] { if (g.coin()) currentTape().ensureContiguousLocations(2 + g.below(3)); else { advector v(2 + g.below(3)); adouble i = 1.0; adubref r = v[i]; } });
      return;
    }
    switch (k) {
    case 0: case 1: misuse_sweep("being-recorded", a.id, 1, n, {"still in use"}); break;
    case 2: expect("trace_on-recording", {"still in use"}, [&] { if (g.coin()) trace_on(a.id, (int)g.below(2)); else trace_on(a.id, 0, 100, 100, 100, 100, 1); }); break;
    case 3: expect("minmax-recording", {"change from native"}, [&] { if (g.coin()) findTape(a.id).enableMinMaxUsingAbs(); else findTape(a.id).disableMinMaxUsingAbs(); }); break;
    case 4: expect("pow-basis", {"basis deactivated"}, [&] { adouble e = 2.0; adouble r = pow(-0.5 * (double)g.below(3), e); }); break;
    case 5: {
      std::vector<adouble> v, w;
      v.reserve(3); w.reserve(3);
      v.emplace_back(1.0); adouble f1(2.0); w.emplace_back(3.0); adouble f2(2.0); v.emplace_back(2.0); w.emplace_back(3.0);
      bool gv = v[1].loc() != v[0].loc() + 1, gw = w[1].loc() != w[0].loc() + 1;
      if (!gv && !gw) break;
      int j = (int)g.below(4);
      static const char *nm[] = {"vec_copy", "vec_dot", "vec_axpy", "call_ext_fct"};
      expect(std::string("gap-") + nm[j], {"contiguous"}, [&] {
        if (j == 0) adolc_vec_copy(v.data(), w.data(), 2);
        else if (j == 1) adouble d = adolc_vec_dot(v.data(), w.data(), 2);
        else if (j == 2) adolc_vec_axpy(v.data(), f1, w.data(), w.data(), 2);
        else { auto *e = reg_ext_fct(a.id, a.id, &ext_zos); call_ext_fct(e, 2, v.data(), 2, w.data()); }
      });
      break;
    }
    case 6: case 7: {
      int sz = g.range(1, 3);
      advector av(sz);
      for (int i = 0; i < sz; ++i) av[i] = (double)i;
      adouble ix = (double)(sz + (int)g.below(3));
      bool ref = g.coin();
      expect(ref ? "subscript-ref" : "subscript", {"out of bounds"}, [&] { if (ref) { av[ix] = 2.0; } else { const advector &cv = av; adouble r = cv[ix]; } });
      break;
    }
    case 8: expect("store-type-live", {"active Variables", "same as the current"}, [&] { findTape(a.id).setStoreManagerType(StoreManager::ADOLC_LOCATION_SINGLETONS); if (g.coin()) {} findTape(a.id).setStoreManagerType(StoreManager::ADOLC_LOCATION_BLOCKS); }); break;
    case 9: { Vec q(3, 1.0); expect("set_param_vec-recording", {"still in use"}, [&] { findTape(a.id).set_param_vec(a.id, 3, q.data()); }); break; }
    case 10: {
      advector av(2);
      av[0] = 2.0; av[1] = 1.0;
      if (g.coin()) expect("lookup-decreasing", {"nondecreasing"}, [&] { adouble p = 1.0, q = 1.0; adouble r = av.lookupindex(p, q); });
      else { av[1] = 3.0; expect("lookup-negative", {"nonnegative"}, [&] { adouble p = 1.0, q = -1.0; adouble r = av.lookupindex(p, q); }); }
      break;
    }
    case 11: {
      currentTape().ensureContiguousLocations(2);
      std::vector<adouble> v(2);
      if (g.coin()) { expect("ext-null", {"Got nullptr as pointer to struct"}, [&] { call_ext_fct((ext_diff_fct *)nullptr, 1, &v[0], 1, &v[1]); }); break; }
      std::vector<adouble> w;
      w.reserve(2);
      w.emplace_back(3.0); adouble f1(2.0); w.emplace_back(2.0);
      if (w[1].loc() == w[0].loc() + 1) break;
      bool in = g.coin();
      auto *e = reg_ext_fct(a.id, a.id, &ext_v2);
      adouble *px[2] = {v.data(), in ? w.data() : v.data()}, *py[1] = {in ? v.data() : w.data()};
      size_t insz[2] = {(size_t)g.range(1, 2), 2}, outsz[1] = {2};
      expect("gap-ext_v2", {"contiguous"}, [&] { call_ext_fct(e, 0, nullptr, 2, 1, insz, px, outsz, py); });
      break;
    }
    case 12: {
      currentTape().ensureContiguousLocations(2);
      std::vector<adouble> v(2), w;
      w.reserve(2);
      w.emplace_back(3.0); adouble f1(2.0); w.emplace_back(2.0);
      int j = (int)g.below(5);
      if (j == 4 && w[1].loc() == w[0].loc() + 1) j = 3;
      static const char *nm[] = {"no-double-function", "no-input", "no-output", "other-tape", "gap"};
      CP_Context cp(a.id, b.id, &ts);
      cp.setNumberOfSteps(3); cp.setNumberOfCheckpoints(1); cp.setDimensionXY(2);
      if (j != 0) cp.setDoubleFct(&tsd);
      if (j != 1) cp.setInput(v.data());
      if (j != 2) cp.setOutput(j == 4 ? w.data() : v.data());
      expect(std::string("checkpointing-") + nm[j], {j == 0 ? "(double version)" : j == 1 || j == 2 ? "argument pointer" : j == 3 ? "CPInfos was" : "contiguous", j == 0 ? "(double " : "argument pointer"}, [&] { cp.checkpointing(j == 3 ? b.id : a.id); });
      break;
    }
    default: if (b.rec) { short cur = a.id; misuse(b); setCurrentTape(cur); } break;
    }
  }
  void record(T &a, T &b) {
    Opts o;
    o.npts = 2; o.nmax = 4; o.mmax = 3; o.imin = 2; o.imax = 15; o.nonsmooth = false; o.banned_fns = {F_CBRT}; if (a.singles) o.banned_ops = {VCOPY, VAXPY};
    Program P = random_program(g, o);
    if (P.m < 1) return;
    int n = P.n, m = P.m;
    int buf = (int)g.below(3), off = buf == 2 ? (int)g.below(2) : 0, keep = (int)g.below(2);
    bool wantmm = g.chance(1, 3);
    setCurrentTape(a.id);
    if (wantmm) findTape(a.id).enableMinMaxUsingAbs(); else findTape(a.id).disableMinMaxUsingAbs();
    a.minmax = wantmm;
    // the tape that is current outside the recording
    ValueTape *outer = g.coin() ? &findTape(b.id) : &findTape(a.id);
    setCurrentTape(outer);
    size_t live = findTape(a.id).numLives();
    c.desc << "record tape " << a.id << (buf ? " small buffers" : "") << (off ? " on file" : "") << (keep ? " keep" : "") << "\n" << P.str();
    std::vector<double> y(m);
    if (buf) trace_on(a.id, keep, g.range(12, 60), g.range(60, 160), g.range(6, 20), 64, 1); else trace_on(a.id, keep);
    c.check(currentTapePtr() == &findTape(a.id), "current-recording", "trace_on does not make the tape current");
    a.rec = false;
    {
      std::vector<std::optional<adouble>> s(P.nslots);
      for (int i = 0; i < n; ++i) { s[i].emplace(); *s[i] <<= P.pts[0][i]; }
      size_t pc = 0;
      // early dependents are marked at the end here
      while (pc < P.ins.size()) {
        size_t to = pc + 1 + g.below(P.ins.size() - pc);
        taping::exec(P, s, P.params, pc, to);
        pc = to;
        if (g.chance(1, 3)) {
          size_t l0 = findTape(a.id).numLives();
          recording_misuse(a, b, s, n);
          c.check(currentTapePtr() == &findTape(a.id), "current-after-misuse", "the recorded tape is not current after the misuse");
          c.check(findTape(a.id).numLives() == l0, "live-after-misuse", cat("misuse changed the number of live variables from ", l0, " to ", findTape(a.id).numLives()));
          setCurrentTape(a.id);
        }
      }
      for (int j = 0; j < m; ++j) *s[P.out[j]] >>= y[j];
    }
    trace_off(off);
    c.check(currentTapePtr() == outer, "current-after", "the tape current before the recording is not current again");
    c.check(findTape(a.id).numLives() == live, "live-after", "live variables differ after the recording");
    a.P = P;
    a.F = evals::fun(a.P, a.P.params);
    a.rec = true;
    evals::Eval E{c, a.id, a.F, [](const evals::Vec &, int rc) { return rc >= 0; }};
    E.cmpq("record-values", "", y, evals::values(a.F, a.P.pts[0]));
    if (keep && g.coin()) { // the kept values belong to this recording
      Vec u = reals(g, m), z(n, 1e30);
      fos_reverse(a.id, m, n, u.data(), z.data());
      E.cmpq("record-reverse", "", z, E.vJ(a.P.pts[0], u));
    }
    correct();
  }
  // tapes whose sweeps fail at an operation
  void special() {
    short id = createNewTape();
    setCurrentTape(id);
    findTape(id).disableBranchSwitchWarnings();
    int kind = (int)g.below(3);
    double y, a0 = g.real(0.5, 2);
    int d = g.range(1, 3), keep = g.coin() ? d + 1 : 0;
    if (kind == 0) { // no higher-order derivatives
      trace_on(id);
      { adouble x, r; x <<= a0; r = cbrt(x * x + 1.0) * x; r >>= y; }
      trace_off();
      double x0 = g.real(0.5, 2), v = x0 * x0 + 1, f = std::cbrt(v) * x0, df = std::cbrt(v) + x0 * 2 * x0 / (3 * std::cbrt(v) * std::cbrt(v)), Y1 = 0, X1 = 1;
      Mat X(1, 4, 0.5), Y(1, 4), Z(1, 5);
      for (int rep = g.range(1, 2); rep--;) {
        expect("higher-order-cbrt", {"not implemented"}, [&] { hos_forward(id, 1, 1, std::max(d, 2), keep ? std::max(d, 2) + 1 : 0, &x0, X.p(), &y, Y.p()); });
        if (keep && g.coin()) { double u = 1; expect("reverse-after-failed", {"not preceded", "aylor"}, [&] { hos_reverse(id, 1, 1, std::max(d, 2), &u, Z.p()); }); }
        int rc = fos_forward(id, 1, 1, 1, &x0, &X1, &y, &Y1);
        c.check(rc == 3 && close(y, f, 1e-15, 10) && close(Y1, df, 1e-15, 10), "after-higher-order", cat("fos_forward after the error gave ", rc, " ", y, " ", Y1, " expected ", f, " ", df));
        double u = 1, z = 0;
        fos_reverse(id, 1, 1, &u, &z);
        c.check(close(z, df, 1e-15, 10), "after-higher-order", cat("fos_reverse after the error gave ", z, " expected ", df));
        correct();
      }
    } else if (kind == 1) { // subscript out of range at another point
      int sz = g.range(2, 4);
      bool ref = g.coin();
      trace_on(id);
      {
        advector v(sz);
        adouble x, i, r;
        x <<= a0; i <<= 0.0;
        for (int j = 0; j < sz; ++j) v[j] = x * (double)(j + 1);
        if (ref) { v[i] = x * x; r = v[0]; r = r + v[sz - 1]; } else { const advector &cv = v; r = cv[i] * x; }
        r >>= y;
      }
      trace_off();
      for (int rep = g.range(1, 3); rep--;) {
        double x0 = g.real(0.5, 2);
        double bad[2] = {x0, (double)(sz + (int)g.below(3))};
        double Y1, X1[2] = {1, 0};
        int kp = (int)g.below(2);
        expect(ref ? "sweep-subscript-ref" : "sweep-subscript", {"out of bounds"}, [&] { if (g.coin()) zos_forward(id, 1, 2, kp, bad, &y); else fos_forward(id, 1, 2, kp, bad, X1, &y, &Y1); });
        if (kp && g.coin()) { double u = 1, z[2]; expect("reverse-after-failed", {"not preceded", "aylor"}, [&] { fos_reverse(id, 1, 2, &u, z); }); }
        int ix = (int)g.below(sz);
        double gd[2] = {x0, (double)ix}, w, dw;
        if (ref) { w = (ix == 0 ? x0 * x0 : x0) + (ix == sz - 1 ? x0 * x0 : x0 * sz); dw = (ix == 0 ? 2 * x0 : 1) + (ix == sz - 1 ? 2 * x0 : sz); } else { w = x0 * x0 * (ix + 1); dw = 2 * x0 * (ix + 1); }
        int rc = fos_forward(id, 1, 2, 1, gd, X1, &y, &Y1);
        c.check(rc >= 0 && close(y, w, 1e-15, 10) && close(Y1, dw, 1e-15, 10), "after-subscript", cat("fos_forward after the error gave ", rc, " ", y, " ", Y1, " expected ", w, " ", dw));
        double u = 1, z[2] = {0, 0};
        fos_reverse(id, 1, 2, &u, z);
        c.check(close(z[0], dw, 1e-15, 10), "after-subscript", cat("fos_reverse after the error gave ", z[0], " expected ", dw));
        correct();
      }
    } else { // external function without the needed derivative
      auto *e = reg_ext_fct(id, id, &ext_zos);
      int n = g.range(1, 3);
      e->zos_forward = [](short, int m, int n, int, double *x, double *y) { for (int j = 0; j < m; ++j) { y[j] = 1; for (int i = 0; i < n; ++i) y[j] += (i + 1) * x[i] * x[i]; } return 3; };
      std::vector<double> x0(n, a0);
      trace_on(id);
      {
        currentTape().ensureContiguousLocations(n);
        std::vector<adouble> x(n);
        std::vector<adouble> r(1);
        for (auto &q : x) q <<= a0;
        call_ext_fct(e, n, x.data(), 1, r.data());
        r[0] = r[0] * 2.0;
        r[0] >>= y;
      }
      trace_off();
      Vec X(n, 1.0), z(n, 0);
      double Y1, u = 1;
      for (int rep = g.range(1, 3); rep--;) {
        Vec x = reals(g, n);
        double w = 1; for (int i = 0; i < n; ++i) w += (i + 1) * x[i] * x[i];
        int how = (int)g.below(3);
        if (how == 0) expect("ext-no-fos_forward", {"external differentiation"}, [&] { fos_forward(id, 1, n, 0, x.data(), X.data(), &y, &Y1); });
        else if (how == 1) { zos_forward(id, 1, n, 1, x.data(), &y); expect("ext-no-fos_reverse", {"extern function pointer"}, [&] { fos_reverse(id, 1, n, &u, z.data()); }); }
        else { Mat XX(n, 2, 1.0), YY(1, 2); expect("ext-no-fov_forward", {"external differentiation"}, [&] { fov_forward(id, 1, n, 2, x.data(), XX.p(), &y, YY.p()); }); }
        int rc = zos_forward(id, 1, n, 0, x.data(), &y);
        c.check(rc >= 0 && close(y, 2 * w, 1e-15, 10), "after-external", cat("zos_forward after the error gave ", rc, " ", y, " expected ", 2 * w));
        correct();
      }
    }
  }
};
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  taping::reset_library();
  World w(c);
  for (auto &t : w.t) { t.id = createNewTape(); findTape(t.id).disableBranchSwitchWarnings(); }
  setCurrentTape(w.t[0].id);
  int len = g.range(4, 12);
  for (int k = 0; k < len; ++k) {
    T &a = w.t[g.below(2)], &b = &a == &w.t[0] ? w.t[1] : w.t[0];
    int what = g.pick({3, 5, 4, 1});
    if (what == 0 || (!a.rec && g.coin())) w.record(a, b);
    else if (what == 1) { w.misuse(a); if (g.coin()) w.evaluate(a); }
    else if (what == 2) w.evaluate(a);
    else w.special();
  }
  for (auto &t : w.t) { w.evaluate(t); c.check(findTape(t.id).numLives() == 0, "live-end", "live variables at the end"); }
  if (w.errors >= 3 && w.good >= 2) c.nontrivial = true;
}
