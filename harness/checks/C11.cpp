// Tapes are independent of each other under every history.
#include "deriv.hpp"
#include <adolc/sparse/sparsedrivers.h>
using namespace prog;
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C11",
  "a case is a random history of up to 60 events over up to 5 tapes: create a tape, select the current tape, start/advance/finish recordings "
  "(nested and interleaved, re-recording, with keep, small buffers or files), run a program without recording, change parameters, and "
  "evaluate any recorded tape with a forward sweep, a reverse sweep of the point kept earlier, Jacobian, Hessian, sparse Jacobian (with "
  "structure reuse) or statistics; model: per tape its last complete recording, parameter vector, kept point and structure; oracle: the exact "
  "derivatives of that recording; non-trivial: at least two tapes recorded and an evaluation of one of them after the other changed",
  16000, 300000, 24, 600, {"points are 0.02 away from kinks; comparison tolerance about 1e-9 relative; active variables are used and destroyed only while their tape is the current one"}};
std::vector<Pinned> pinned_cases() { return {}; }

namespace {
struct Rec {
  Program P;
  std::vector<double> x;
  std::vector<std::optional<adouble>> s;
  size_t pc = 0;
  prog::ParamPool pool;
  int keep = 0;
  bool disk = false;
  bool finished = false; // trace_off done, variables still alive
};
struct Tp {
  short id;
  bool have = false;
  Program P;
  std::vector<double> par;
  int keep = 0; // 0: nothing kept, 1: point, 2: point and direction
  std::vector<double> at, dir, atpar;
  bool pattern = false;
  bool disk = false;
  unsigned stamp = 0;
  std::unique_ptr<Rec> rec;
  ADOLC::Sparse::SparseMatrix sm;
};
struct World {
  Case &c;
  Gen &g;
  std::vector<std::unique_ptr<Tp>> T;
  std::vector<int> open; // indices of tapes being recorded, in trace_on order
  unsigned clock = 0;
  short base = 0;
  World(Case &c_) : c(c_), g(c_.g) {}
  ~World() {
    try {
      for (auto &t : T) if (t->rec) { setCurrentTape(t->id); t->rec->s.clear(); t->rec->pool.p.clear(); }
    } catch (...) {}
  }
  Program random() {
    Opts o;
    o.npts = 2; o.nmax = 5; o.mmax = 3; o.imax = 18; o.params = g.chance(1, 3); o.npar = 3;
    o.banned_fns = {F_CBRT};
    if (enlarge(g, o, 30, 20, 60)) c.label("large");
    auto P = random_program(g, o);
    if (!P.params.empty() && g.chance(1, 4)) pad_params(g, P, 50);
    return P;
  }
  Tp *pick(std::function<bool(Tp &)> f) {
    std::vector<Tp *> v;
    for (auto &t : T) if (f(*t)) v.push_back(t.get());
    return v.empty() ? nullptr : v[g.below(v.size())];
  }
  void touch(Tp &t) { t.stamp = ++clock; }
  void create() {
    auto t = std::make_unique<Tp>();
    t->id = createNewTape();
    c.desc << "create tape " << t->id << "\n";
    T.push_back(std::move(t));
  }
  void begin(Tp &t) {
    auto r = std::make_unique<Rec>();
    r->P = random();
    r->x = r->P.pts[0];
    r->keep = g.coin();
    c.desc << "begin recording on tape " << t.id << " keep=" << r->keep << "\n" << r->P.str();
    bool small = g.chance(1, 3);
    r->disk = g.chance(1, 4);
    int rc;
    if (small) { c.label("small buffers"); rc = trace_on(t.id, r->keep, (size_t)g.range(5, 40), (size_t)g.range(60, 120), (size_t)g.range(10, 40), (size_t)g.range(4, 40), 0); c.desc << "(small buffers)\n"; }
    else rc = trace_on(t.id, r->keep);
    (void)rc;
    c.check(currentTapePtr() == findTapePtr(t.id), "current-after-trace_on", "trace_on did not select its tape");
    if (!open.empty()) c.label("nested recording");
    if (t.have) c.label("re-recording");
    for (double v : r->P.params) r->pool.p.emplace_back(v);
    r->s.resize(r->P.nslots);
    for (int i = 0; i < r->P.n; ++i) { r->s[i].emplace(); *r->s[i] <<= r->x[i]; }
    t.rec = std::move(r);
    t.have = false;
    t.keep = 0;
    t.pattern = false;
    open.push_back(index(t));
    touch(t);
  }
  int index(Tp &t) { for (size_t i = 0; i < T.size(); ++i) if (T[i].get() == &t) return (int)i; return -1; }
  void advance(Tp &t, size_t k) {
    Rec &r = *t.rec;
    setCurrentTape(t.id);
    auto *old = prog::pool();
    prog::pool() = &r.pool;
    taping::exec(r.P, r.s, r.P.params, r.pc, r.pc + k);
    prog::pool() = old;
    r.pc = std::min(r.pc + k, r.P.ins.size());
    c.desc << "advance tape " << t.id << " to " << r.pc << "\n";
    touch(t);
  }
  void finish(Tp &t) {
    advance(t, 100000);
    Rec &r = *t.rec;
    std::vector<double> y(r.P.m, 1e30);
    for (int j = 0; j < r.P.m; ++j) *r.s[r.P.out[j]] >>= y[j];
    auto b = cmp(y, values(r.P, r.x));
    c.check(!b.bad, "value-recording", cat("recording on tape ", t.id, " computed y[", b.idx, "]=", b.got, " expected ", b.want));
    bool early = g.coin();
    if (early) { r.s.clear(); r.pool.p.clear(); }
    bool inner = open.back() == index(t);
    trace_off(r.disk);
    c.desc << "trace_off tape " << t.id << (r.disk ? " to files" : "") << "\n";
    if (!inner) c.label("interleaved recording");
    t.have = true;
    t.P = r.P; t.par = r.P.params; t.keep = r.keep ? 1 : 0; t.at = r.x; t.atpar = t.par; t.disk = r.disk;
    if (r.disk) c.label("files");
    open.erase(std::find(open.begin(), open.end(), index(t)));
    if (!early) setCurrentTape(t.id);
    t.rec.reset();
    touch(t);
  }
  std::string W(Tp &t) {
    // has another tape changed since this one was recorded
    for (auto &o : T) if (o.get() != &t && o->stamp > t.stamp) { nt = true; break; }
    return cat("tape ", t.id, ": ");
  }
  bool nt = false;
  void compare(Tp &t, const char *nm, const std::vector<double> &got, const Q &w) {
    auto b = cmp(got, w);
    c.check(!b.bad, cat("result-", nm), cat(W(t), nm, ": entry ", b.idx, " is ", b.got, " expected ", b.want));
  }
  void evaluate(Tp &t) {
    auto x = t.P.pts[g.below(2)];
    int n = t.P.n, m = t.P.m, rc = 0;
    const std::vector<double> *par = &t.par;
    int how = (int)g.below(9);
    std::vector<double> y(m, 1e30);
    const char *nm = "";
    switch (how) {
    case 0: { nm = "zos_forward"; int keep = g.coin(); rc = zos_forward(t.id, m, n, keep, x.data(), y.data()); compare(t, nm, y, values(t.P, x, par)); if (keep) { t.keep = 1; t.at = x; t.atpar = t.par; } else (void)0; break; }
    case 1: {
      nm = "fos_forward"; int keep = (int)g.below(3);
      auto X = reals(g, n); std::vector<double> Y(m, 1e30);
      rc = fos_forward(t.id, m, n, keep, x.data(), X.data(), y.data(), Y.data());
      compare(t, nm, y, values(t.P, x, par));
      auto J = jacobian(t.P, x, par);
      Lin L;
      for (int j = 0; j < m; ++j) { std::vector<std::pair<size_t, double>> v; for (int i = 0; i < n; ++i) v.push_back({(size_t)(j * n + i), X[i]}); L.add(J, v); }
      compare(t, nm, Y, L.q);
      if (keep) { t.keep = keep; t.at = x; t.dir = X; t.atpar = t.par; }
      break;
    }
    case 2: { nm = "jacobian"; Mat J(m, n, 1e30); rc = ::jacobian(t.id, m, n, x.data(), J.p()); compare(t, nm, J.d, jacobian(t.P, x, par)); t.keep = 0; break; }
    case 3:
      if (m == 1) {
        nm = "hessian";
        Mat H(n, n, 0);
        rc = ::hessian(t.id, n, x.data(), H.p());
        auto h = hessians(t.P, x, par);
        Q w; std::vector<double> got; Lin L;
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L.add(h, {{(size_t)(i * n + j), 1.0}}); got.push_back(H[i][j]); }
        compare(t, nm, got, L.q);
        t.keep = 0;
        break;
      }
      [[fallthrough]];
    case 4: case 5: {
      if (!t.keep) return;
      auto U = reals(g, m);
      if (t.keep == 1) {
        nm = "fos_reverse";
        std::vector<double> Z(n, 1e30);
        rc = fos_reverse(t.id, m, n, U.data(), Z.data());
        x = t.at;
        auto J = jacobian(t.P, x, &t.atpar);
        Lin L;
        for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> v; for (int j = 0; j < m; ++j) v.push_back({(size_t)(j * n + i), U[j]}); L.add(J, v); }
        compare(t, nm, Z, L.q);
      } else {
        nm = "hos_reverse";
        Mat Z(n, 2, 1e30);
        rc = hos_reverse(t.id, m, n, 1, U.data(), Z.p());
        x = t.at;
        auto J = jacobian(t.P, x, &t.atpar);
        auto H = hessians(t.P, x, &t.atpar);
        Lin L, L2;
        std::vector<double> a, b;
        for (int i = 0; i < n; ++i) {
          std::vector<std::pair<size_t, double>> v, w;
          for (int j = 0; j < m; ++j) { v.push_back({(size_t)(j * n + i), U[j]}); for (int k = 0; k < n; ++k) w.push_back({(size_t)((j * n + i) * n + k), U[j] * t.dir[k]}); }
          L.add(J, v); L2.add(H, w); a.push_back(Z[i][0]); b.push_back(Z[i][1]);
        }
        compare(t, nm, a, L.q);
        compare(t, nm, b, L2.q);
      }
      break;
    }
    case 6: {
      if (t.par.empty()) return;
      t.par = t.P.smooth ? t.P.parv[g.below(t.P.parv.size())] : t.P.params; // return codes are predicted for the recorded branches
      c.desc << "parameters of tape " << t.id << ": " << show(t.par) << "\n";
      findTape(t.id).set_param_vec(t.id, (unsigned)t.par.size(), t.par.data());
      c.label("parameters");
      t.keep = 0; // the Taylor store belongs to the old parameters
      nt = true;
      return;
    }
    case 7: {
      nm = "sparse_jac";
      int rep = t.pattern && g.coin();
      c.label(rep ? "sparse reuse" : "sparse");
      c.desc << "sparse_jac repeat=" << rep << "\n";
      if (!rep) t.sm = {};
      rc = ADOLC::Sparse::sparse_jac<>(t.id, m, n, rep, x.data(), t.sm);
      t.pattern = true;
      Mat J(m, n, 0);
      for (size_t k = 0; k < t.sm.size(); ++k) J[t.sm.rowIndex(k)][t.sm.colIndex(k)] = t.sm.value(k);
      compare(t, nm, J.d, jacobian(t.P, x, par));
      t.keep = 0;
      break;
    }
    default: {
      nm = "statistics";
      auto st = tapestats(t.id);
      c.check((int)st[TapeInfos::NUM_INDEPENDENTS] == n && (int)st[TapeInfos::NUM_DEPENDENTS] == m && (int)st[TapeInfos::NUM_PARAM] == (int)t.P.params.size(), "statistics",
              cat(W(t), "statistics report ", st[TapeInfos::NUM_INDEPENDENTS], " independents, ", st[TapeInfos::NUM_DEPENDENTS], " dependents, ", st[TapeInfos::NUM_PARAM], " parameters instead of ", n, ",", m, ",", t.P.params.size()));
      std::vector<short> ids;
      cachedTraceTags(ids);
      bool ok = true;
      for (auto &o : T) ok &= std::count(ids.begin(), ids.end(), o->id) == 1;
      c.check(ok && ids.size() == T.size(), "tags", "cachedTraceTags does not list exactly the tapes created");
      W(t);
      return;
    }
    }
    c.desc << "evaluate tape " << t.id << ": " << nm << " at " << show(x) << "\n";
    c.label(nm);
    W(t);
    c.check(rc_ok(t.P, x, rc), cat("rc-", nm), cat(nm, " on tape ", t.id, " returned ", rc));
  }
  void passive(Tp &t) {
    setCurrentTape(t.id);
    Program P = random();
    auto x = P.pts[0];
    c.desc << "run without recording on tape " << t.id << "\n" << P.str();
    std::vector<double> y(P.m);
    {
      prog::ParamPool pp;
      std::vector<std::optional<adouble>> s(P.nslots);
      for (int i = 0; i < P.n; ++i) s[i].emplace(x[i]);
      for (auto &q : P.ins) if (q.op == PBIN || q.op == PCOMP) return;
      taping::exec(P, s, P.params);
      for (int j = 0; j < P.m; ++j) y[j] = s[P.out[j]]->value();
    }
    auto b = cmp(y, values(P, x));
    c.check(!b.bad, "value-passive", cat("computation without recording gave y[", b.idx, "]=", b.got, " expected ", b.want));
    c.label("without recording");
    touch(t);
  }
  void go() {
    taping::reset_library();
    create();
    setCurrentTape(T[0]->id);
    int len = g.range(6, 60);
    for (int e = 0; e < len; ++e) {
      int k = (int)g.below(12);
      if (k == 0 && T.size() < 5) create();
      else if (k == 1) { auto *t = T[g.below(T.size())].get(); setCurrentTape(t->id); c.desc << "current tape " << t->id << "\n"; }
      else if (k == 2) { if (auto *t = pick([](Tp &t) { return !t.rec; })) passive(*t); }
      else if (k <= 4) { if (auto *t = pick([](Tp &t) { return !t.rec; })) begin(*t); }
      else if (k == 5) { if (auto *t = pick([](Tp &t) { return (bool)t.rec; })) advance(*t, (size_t)g.range(1, 6)); }
      else if (k == 6) { if (auto *t = pick([](Tp &t) { return (bool)t.rec; })) finish(*t); }
      else if (auto *t = pick([](Tp &t) { return t.have; })) evaluate(*t);
      else if (open.empty()) { begin(*T[0]); finish(*T[0]); }
    }
    while (!open.empty()) finish(*T[open.back()]);
    for (auto &t : T) if (t->have) { evaluate(*t); evaluate(*t); }
    int nrec = 0;
    for (auto &t : T) nrec += t->have;
    if (nrec >= 2 && nt) c.interesting();
  }
};
} // namespace
void run_case(Case &c) { World w(c); w.go(); }
