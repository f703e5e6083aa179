// Checkpointed time-stepping loops against the unrolled loop; the schedule against the optimal one.
#include "evals.hpp"
#include "safe.hpp"
#include <adolc/checkpointing.h>
#include <adolc/revolve.h>
#include <memory>
using namespace refd;
const CheckInfo CHECK{"C20",
  "a case records a random program with 1-2 checkpointed loops (1-40 steps of a random smooth step function with 1-4 states, optionally with a branch on the state or depending on time "
  "kept outside the state, with save and restore functions; 1-12 checkpoints, forced retaping or not, in place or with separate result array), states used before and after the loops, optionally recorded twice or into small buffers, and "
  "performs random zero- and first-order sweeps and drivers, also a reverse sweep directly after recording and repeated reverse sweeps; or simulates the revolve schedule alone for up to 400 steps; "
  "oracle: exact derivatives of the unrolled program, minimal number of forward steps for the schedule, number of stored states at every step; non-trivial: a derivative compared with at least 3 steps and fewer checkpoints than steps, or a schedule of at least 5 steps",
  8000, 150000, 25, 600, {"each loop has its own context and tape for the steps; branch quantities are 0.001 away from the threshold; step functions depending on time outside the state use forced retaping; number of repetitions at most ADOLC_REPSUP; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
struct Loop {
  safe::Prog p;
  int d = 1, steps = 1, snaps = 1, branch = -1;
  double thr = 0;
  bool timed = false, retape = false, inplace = false;
  std::vector<int> in; // pool positions of the initial state
  std::vector<safe::Op> before; // operations reading x (slot 0: x element, slot 1: pool)
  std::vector<std::array<int, 2>> bpos;
  std::vector<int> yin;
  double t = 0;   // time outside the state
  long calls = 0; // plain steps
  size_t maxstack = 0;
  const ADOLC::CP::detail::Infos *info = nullptr;
};
Loop LP[2];
bool near_ = false;
inline double val(const adouble &a) { return a.value(); }
inline double val(double a) { return a; }
template <class R> double val(const ref::Alg<R> &a) { return (double)a.c[0]; }
inline double val(const ref::Alg<ref::Nz> &a) { return (double)a.c[0].v; }
template <class T> void stepT(const Loop &L, double t, T *s) {
  std::vector<T> x(s, s + L.d);
  bool up = false;
  if (L.branch >= 0) {
    if constexpr (std::is_same_v<T, adouble>) up = s[L.branch] > L.thr;
    else up = val(s[L.branch]) > L.thr;
    if (std::fabs(val(s[L.branch]) - L.thr) < 1e-3) near_ = true;
  }
  auto y = safe::eval(L.p, x);
  for (int i = 0; i < L.d; ++i) {
    using std::tanh; using std::sin;
    s[i] = tanh(y[i]) + x[i] * T(0.3);
    if (L.timed) s[i] = s[i] + T(0.2 * std::sin(t + i));
  }
  if (up) s[0] = s[0] * T(0.5) + sin(s[L.d - 1]);
}
template <int K> int stepA(size_t, adouble *s) { stepT(LP[K], LP[K].t, s); LP[K].t += 0.5; return 0; }
template <int K> int stepD(size_t, double *s) {
  using std::sin;
  auto &L = LP[K];
  ++L.calls;
  if (L.info) L.maxstack = std::max(L.maxstack, L.info->cpStack.size());
  stepT(L, L.t, s); L.t += 0.5;
  return 0;
}
template <int K> void *save() { return new double[1]{LP[K].t}; }
template <int K> void restore(void *p) { LP[K].t = *(double *)p; }

long beta(long c, long r) { if (r < 0) return 0; double v = 1; for (long i = 1; i <= c; ++i) v = v * (double)(r + i) / (double)i; return (long)(v + 0.5); }
long optimal(long l, long c) { // minimal number of forward steps, l steps with c checkpoints
  long r = 0;
  while (beta(c, r) < l) ++r;
  return r * l - beta(c + 1, r - 1);
}
void schedule(Case &c) {
  Gen &g = c.g;
  int steps = g.range(1, g.chance(1, 3) ? 400 : 40), snaps = g.range(1, g.chance(1, 3) ? 30 : 8);
  long r = 0;
  while (beta(snaps, r) < steps) ++r;
  if (r > ADOLC_REPSUP) { snaps = 8; }
  c.desc << "schedule for " << steps << " steps, " << snaps << " checkpoints\n";
  int check = -1, capo = 0, fine = steps, info = 0, cur = 0, left = steps;
  std::vector<int> stack;
  long adv = 0;
  for (long k = 0;; ++k) {
    if (k > 200000) { c.check(false, "schedule-end", "the schedule does not end"); break; }
    int old = cur;
    auto a = revolve(&check, &capo, &fine, snaps, &info);
    if (a == revolve_terminate) break;
    if (a == revolve_takeshot) {
      c.check(capo == cur, "schedule-shot", cat("snapshot of step ", capo, " requested in state ", cur));
      if ((int)stack.size() > check) stack.resize(check);
      stack.push_back(capo);
      c.check((int)stack.size() == check + 1 && (int)stack.size() <= snaps, "schedule-memory", cat(stack.size(), " snapshots held, ", snaps, " allowed"));
    } else if (a == revolve_advance) {
      c.check(capo > cur && capo < left, "schedule-advance", cat("advance from ", cur, " to ", capo, " with ", left, " steps left"));
      adv += capo - cur;
      cur = capo;
    } else if (a == revolve_restore) {
      c.check(check >= 0 && check < (int)stack.size() && stack[check] == capo, "schedule-restore", cat("restore of step ", capo, " that is not stored"));
      cur = capo;
    } else if (a == revolve_firsturn || a == revolve_youturn) {
      c.check((a == revolve_firsturn) == (left == steps), "schedule-turn", "first turn at the wrong place");
      c.check(cur == left - 1, "schedule-turn", cat("step ", left, " reversed from state ", cur));
      left = cur;
    } else { c.check(false, "schedule-error", cat("action ", (int)a, " info ", info)); break; }
    (void)old;
  }
  c.check(left == 0, "schedule-complete", cat(left, " steps were not reversed"));
  c.check(adv == optimal(steps, snaps), "schedule-cost", cat(adv, " forward steps, optimal ", optimal(steps, snaps)));
  c.label("schedule");
  if (steps >= 5) c.interesting();
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  if (g.chance(1, 6)) return schedule(c);
  bool big = g.chance(1, 25);
  if (big) c.label("large");
  int n = g.range(1, big ? 12 : 4), nloop = g.pick({2, 1}) + 1;
  int pool = n;
  struct St { int loop; safe::Op op; };
  std::vector<St> st;
  auto ops = [&](int k) { for (; k > 0; --k) { auto p = safe::random(g, pool, 1, 1, false); St s{-1, p.ops[0]}; s.op.r = pool++; st.push_back(s); } };
  ops(g.range(0, 3));
  int maxsteps = 0, minsnaps = 1000;
  bool anybranch = false;
  for (int k = 0; k < nloop; ++k) {
    Loop &L = LP[k];
    L = Loop();
    L.d = g.range(1, big ? 12 : 4);
    L.p = safe::random(g, L.d, L.d, g.range(1, 6));
    L.steps = g.range(1, big ? 60 : g.chance(1, 4) ? 40 : 8);
    L.snaps = g.chance(1, 4) ? g.range(1, 12) : g.range(1, std::max(1, L.steps / 2));
    L.retape = g.chance(1, 4);
    if (g.chance(1, 4)) { L.branch = (int)g.below(L.d); L.thr = g.real(-0.5, 0.5); anybranch = true; }
    if (g.chance(1, 4)) L.timed = L.retape = true;
    L.inplace = g.coin();
    for (int i = 0; i < L.d; ++i) L.in.push_back((int)g.below(pool));
    int nb = g.range(0, 2);
    for (int i = 0; i < nb; ++i) { auto p = safe::random(g, 2, 1, 1, false); p.ops[0].r = 2; L.before.push_back(p.ops[0]); L.bpos.push_back({(int)g.below(L.inplace ? L.d : 2 * L.d), (int)g.below(pool)}); }
    if (!L.inplace) for (int i = 0; i < L.d; ++i) L.yin.push_back((int)g.below(pool));
    pool += nb + L.d;
    st.push_back({k, {}});
    maxsteps = std::max(maxsteps, L.steps);
    minsnaps = std::min(minsnaps, L.snaps);
    ops(g.range(0, 3));
  }
  int m = g.range(1, 3);
  std::vector<int> out;
  for (int j = 0; j < m; ++j) out.push_back(g.chance(1, 4) ? (int)g.below(pool) : pool - 1 - (int)g.below(std::min(pool, 5)));
  c.desc << n << " independents\n";
  int pos = n;
  for (auto &s : st) {
    if (s.loop < 0) { c.desc << "s" << s.op.r << " = op " << s.op.op << " a=s" << s.op.a << " b=s" << s.op.b << " c=" << s.op.c << "\n"; ++pos; continue; }
    Loop &L = LP[s.loop];
    c.desc << "loop " << L.steps << " steps " << L.snaps << " checkpoints" << (L.retape ? " retape" : "") << (L.timed ? " timed" : "") << (L.inplace ? " in place" : "") << " state";
    for (int i : L.in) c.desc << " s" << i;
    if (L.branch >= 0) c.desc << " branch on " << L.branch << " at " << L.thr;
    c.desc << " results s" << pos + L.before.size() << ".. step " << L.p.str() << "\n";
    for (size_t i = 0; i < L.before.size(); ++i) c.desc << "  before: s" << pos + i << " = op " << L.before[i].op << " of array element " << L.bpos[i][0] << " and s" << L.bpos[i][1] << "\n";
    pos += (int)L.before.size() + L.d;
  }
  c.desc << "dependents";
  for (int o : out) c.desc << " s" << o;
  c.desc << "\n";
  auto body = [&](const auto &x) {
    using T = std::decay_t<decltype(x[0])>;
    std::vector<T> s(x.begin(), x.end());
    for (auto &q : st) {
      if (q.loop < 0) { s.emplace_back(); safe::step(q.op, s); continue; }
      Loop &L = LP[q.loop];
      std::vector<T> a;
      for (int i : L.in) a.push_back(s[i]);
      std::vector<T> y = a;
      if (!L.inplace) { y.clear(); for (int i : L.yin) y.push_back(s[i]); }
      for (size_t i = 0; i < L.before.size(); ++i) {
        int e = L.bpos[i][0];
        std::vector<T> v{e < L.d ? a[e] : y[e - L.d], s[L.bpos[i][1]], T(0)};
        safe::step(L.before[i], v);
        s.push_back(v[2]);
      }
      for (int k = 0; k < L.steps; ++k) stepT(L, 0.5 * k, a.data());
      for (auto &v : a) s.push_back(v);
    }
    std::vector<T> y;
    for (int o : out) y.push_back(s[o]);
    return y;
  };
  auto F = evals::fun(n, m, body);
  std::vector<Vec> pts;
  for (int k = 0; k < 2; ++k) { pts.push_back(reals(g, n)); near_ = false; evals::values(F, pts.back()); if (near_) c.discard(); }

  taping::reset_library();
  short id = (short)createNewTape();
  std::vector<std::unique_ptr<ADOLC::CP::Context>> ctx;
  for (int k = 0; k < nloop; ++k) {
    short t = (short)createNewTape();
    findTape(t).disableBranchSwitchWarnings();
    ctx.emplace_back(k ? new ADOLC::CP::Context(id, t, stepA<1>) : new ADOLC::CP::Context(id, t, stepA<0>));
    auto &C = *ctx.back();
    Loop &L = LP[k];
    C.setDoubleFct(k ? stepD<1> : stepD<0>);
    if (L.timed || g.chance(1, 4)) { C.setSaveFct(k ? save<1> : save<0>); C.setRestoreFct(k ? restore<1> : restore<0>); }
    C.setNumberOfSteps(L.steps); C.setNumberOfCheckpoints(L.snaps); C.setDimensionXY(L.d); C.setAlwaysRetaping(L.retape);
    L.info = findTape(id).get_cp_fct(k);
  }
  setCurrentTape(id);
  findTape(id).disableBranchSwitchWarnings();
  auto reset = [&]() { for (auto &L : LP) { L.t = 0; L.calls = 0; L.maxstack = 0; } };
  int nrec = g.chance(1, 5) ? 2 : 1;
  bool kept = false;
  Vec at;
  for (int rec = 0; rec < nrec; ++rec) {
    reset();
    at = pts[g.below(2)];
    int keep = (int)g.below(2), store = g.pick({3, 1, 1});
    kept = keep;
    if (store == 1) trace_on(id, keep, g.range(12, 60), g.range(60, 160), g.range(6, 20), g.range(10, 64), 1); else trace_on(id, keep);
    Vec y(m, 1e30);
    {
      std::vector<std::unique_ptr<adouble>> own;
      std::vector<std::unique_ptr<adouble[]>> arrs;
      std::vector<adouble *> s;
      auto fresh = [&]() { own.emplace_back(new adouble); return own.back().get(); };
      auto dostep = [&](safe::Op o, const adouble &a, const adouble &b) { std::vector<adouble> v(3); v[0] = a; v[1] = b; o.a = 0; o.b = 1; o.r = 2; safe::step(o, v); s.push_back(fresh()); *s.back() = v[2]; };
      auto array = [&](int k) { currentTape().ensureContiguousLocations(k); arrs.emplace_back(new adouble[k]); return arrs.back().get(); };
      for (int i = 0; i < n; ++i) { s.push_back(fresh()); *s.back() <<= at[i]; }
      for (auto &q : st) {
        if (q.loop < 0) { dostep(q.op, *s[q.op.a], *s[q.op.b]); continue; }
        Loop &L = LP[q.loop];
        adouble *x = array(L.d), *yy = L.inplace ? x : array(L.d);
        for (int i = 0; i < L.d; ++i) x[i] = *s[L.in[i]];
        if (!L.inplace) for (int i = 0; i < L.d; ++i) yy[i] = *s[L.yin[i]];
        for (size_t i = 0; i < L.before.size(); ++i) {
          // the operation reads the array element itself
          int e = L.bpos[i][0];
          adouble &a = e < L.d ? x[e] : yy[e - L.d];
          adouble r;
          switch (L.before[i].op % 3) { default: break; }
          safe::Op o = L.before[i];
          const adouble &ea = o.a == 0 ? a : *s[L.bpos[i][1]], &eb = o.b == 0 ? a : *s[L.bpos[i][1]];
          switch (o.op) {
          case 2: r = sin(ea) * eb; break;
          case 3: r = sin(ea); break;
          case 5: r = tanh(ea); break;
          case 8: r = eb / (1.0 + ea * ea); break;
          case 9: r = ea * o.c; break;
          default: { std::vector<adouble> v(3); v[0] = ea; v[1] = eb; o.a = 0; o.b = 1; o.r = 2; safe::step(o, v); r = v[2]; }
          }
          s.push_back(fresh());
          *s.back() = r;
        }
        auto &C = *ctx[q.loop];
        C.setInput(x); C.setOutput(yy);
        C.checkpointing(id);
        for (int i = 0; i < L.d; ++i) s.push_back(&yy[i]);
      }
      for (int j = 0; j < m; ++j) { adouble v = *s[out[j]]; v >>= y[j]; }
    }
    trace_off(store == 2);
    c.desc << "recorded at " << show(at) << " keep " << keep << (store == 1 ? " small buffers" : store == 2 ? " file" : "") << "\n";
    auto w = evals::values(F, at);
    if (!finite(w)) c.discard();
    for (int j = 0; j < m; ++j) c.check(close(y[j], w.l[j], w.d[j], w.scale()), "recording", cat("dependent ", j, " is ", y[j], " after recording, expected ", (double)w.l[j]));
  }
  auto stacks = [&](const std::string &after) { for (auto &L : LP) if (L.info) c.check((int)L.maxstack <= L.snaps, "checkpoints", cat(L.maxstack, " states are stored during ", after, ", ", L.snaps, " allowed")); };
  stacks("the recording");
  bool timed = false; // the time is only reset between calls
  for (auto &L : LP) timed |= L.timed;
  evals::Eval E{c, id, F, [&](const Vec &, int rc) { return rc >= 0 && rc <= 3; }, timed ? evals::FIRST & ~(unsigned)evals::DRV1 : evals::FIRST};
  auto counted = [&](const Vec &x) {
    for (int k = 0; k < nloop; ++k) {
      Loop &L = LP[k];
      long o = optimal(L.steps, L.snaps);
      c.check(L.calls <= o, "cost", cat(L.calls, " plain steps for a gradient with ", L.steps, " steps and ", L.snaps, " checkpoints, optimal ", o));
    }
    (void)x;
  };
  bool good = maxsteps >= 3 && minsnaps < maxsteps;
  if (kept && g.coin()) { // state left by the recording
    Vec U = reals(g, m), Z(n, 1e30);
    int rc = fos_reverse(id, m, n, U.data(), Z.data());
    c.check(rc >= 0, "code-kept", cat("fos_reverse after recording returned ", rc));
    E.cmpq("kept-reverse", cat("at ", show(at), " U=", show(U)), Z, E.vJ(at, U));
    stacks("the reverse sweep after recording");
    c.label("reverse after recording");
    if (good) c.interesting();
  }
  int evs = g.range(1, 4);
  for (int k = 0; k < evs; ++k) {
    reset();
    auto x = pts[g.below(2)];
    if (g.chance(1, 3)) {
      Vec y(m, 1e30);
      int rc = zos_forward(id, m, n, 1, x.data(), y.data());
      c.check(rc >= 0, "code-zos", cat("zos_forward returned ", rc));
      int q = g.range(1, big ? 12 : 3), reps = g.pick({3, 1}) + 1;
      for (int r = 0; r < reps; ++r) {
        taping::Mat U(q, m), Z(q, n, 1e30);
        for (auto &v : U.d) v = g.real(-1.5, 1.5);
        rc = q == 1 ? fos_reverse(id, m, n, U[0], Z[0]) : fov_reverse(id, m, n, q, U.p(), Z.p());
        c.check(rc >= 0, "code-reverse", cat("reverse sweep returned ", rc));
        for (int i = 0; i < q; ++i) E.cmpq(cat(q == 1 ? "fos" : "fov", "_reverse", r ? "-again" : ""), cat("at ", show(x), " U=", show(U.d)), Vec(Z[i], Z[i] + n), E.vJ(x, Vec(U[i], U[i] + m)));
        if (r == 0) counted(x);
        if (r) c.label("repeated reverse");
      }
      if (good) c.interesting();
    } else if (E.one(x) && good) c.interesting();
    c.desc << E.last << "\n";
    stacks(E.last);
  }
  if (anybranch) c.label("branch");
  for (auto &L : LP) L.info = nullptr;
}
