// Tape parameters can be exchanged without recording again.
#include "evals.hpp"
using namespace prog;
using namespace refd;
const CheckInfo CHECK{"C14",
  "a case records a random program with 1-4 parameters in every supported operation (arithmetic on either side, compound assignment, conversion, assignment, "
  "functions, powers, minima, comparisons), by default or with small buffers or on file, and runs a history of parameter changes (new vectors sharing "
  "components with the old one, the same vector again, a wrong number of parameters) and of random sweeps and drivers at two points; oracle: exact derivatives of the program "
  "with the new parameters, branch decisions of a plain run for recorded comparisons; non-trivial: an evaluation after a change that alters the result, with a nonlinear program",
  20000, 300000, 22, 600, {"points and parameters are 0.02 away from kinks; a forward sweep follows every change before a basic reverse sweep (documented); comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
struct CmpIt { int slot, par, op, side; };
bool rel(int op, double a, double b) { switch (op) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
template <class A, class B> bool relt(int op, const A &a, const B &b) { switch (op) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.params = o.pfun = true; o.npar = g.range(2, 4); o.npts = 2; o.nmax = 4; o.mmax = 3; o.imin = 7; o.imax = 24; o.vmax = 15; o.banned_fns = {F_CBRT};
  if (enlarge(g, o, 30, 20, 70)) c.label("large");
  Program P = random_program(g, o);
  int n = P.n, m = P.m;
  if (m < 1) c.discard();
  if (g.chance(1, 4)) { pad_params(g, P, 60); c.label("many parameters"); }
  c.desc << P.str();
  // comparisons of final values with parameters
  std::vector<CmpIt> cmps;
  auto finals = [&](const std::vector<double> &x, const std::vector<double> &par) {
    std::vector<std::optional<double>> s(P.nslots);
    for (int i = 0; i < n; ++i) s[i] = x[i];
    for (auto &q : P.ins) step<double>(q, s, par);
    return s;
  };
  if (g.chance(1, 3)) {
    int k = g.range(1, 2);
    for (int t = 0; t < k; ++t) {
      CmpIt q{P.out[g.below(m)], (int)g.below(P.params.size()), (int)g.below(6), (int)g.below(2)};
      bool ok = true;
      for (auto &x : P.pts) for (auto &p : P.parv) if (std::fabs(*finals(x, p)[q.slot] - p[q.par]) < 0.01) ok = false;
      if (ok) { cmps.push_back(q); c.desc << "comparison of s" << q.slot << " with p" << q.par << " operator " << q.op << (q.side ? " (parameter left)" : "") << "\n"; }
    }
  }
  taping::reset_library();
  short id = (short)createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  setCurrentTape(id);
  int store = g.pick({3, 1, 1});
  std::vector<double> y(m);
  {
    if (store == 1) trace_on(id, 0, g.range(12, 60), g.range(60, 160), g.range(6, 20), 64, 1); else trace_on(id, (int)g.below(2));
    {
      ParamPool pp;
      bool late = g.coin(); // parameters created when first used or all in front
      (void)late;
      for (double v : P.params) pp.p.emplace_back(v);
      auto *old = pool();
      pool() = &pp;
      std::vector<std::optional<adouble>> s(P.nslots);
      for (int i = 0; i < n; ++i) { s[i].emplace(); *s[i] <<= P.pts[0][i]; }
      taping::exec(P, s, P.params);
      for (auto &q : cmps) {
        const adouble &a = *s[q.slot];
        const pdouble &p = pp.p[q.par];
        bool got = q.side ? relt(q.op, p, a) : relt(q.op, a, p);
        double av = a.value(), pv = P.params[q.par];
        c.check(got == (q.side ? rel(q.op, pv, av) : rel(q.op, av, pv)), "comparison", "a comparison with a parameter came out wrong while recording");
      }
      for (int j = 0; j < m; ++j) *s[P.out[j]] >>= y[j];
      pool() = old;
    }
    trace_off(store == 2);
  }
  c.desc << "stored: " << (store == 0 ? "memory" : store == 1 ? "small buffers" : "file") << "\n";
  c.check(get_num_param(id) == P.params.size(), "count", cat("get_num_param reports ", get_num_param(id), " of ", P.params.size()));
  auto f0 = finals(P.pts[0], P.params);
  std::vector<double> par = P.params, lastpar;
  int len = g.range(3, 10);
  bool changed = false;
  for (int it = 0; it < len; ++it) {
    int ev = g.pick({5, 4, 1});
    if (ev == 1) {
      par = P.parv[g.below(P.parv.size())];
      auto copy = par;
      findTape(id).set_param_vec(id, copy.size(), copy.data());
      c.check(copy == par, "argument", "set_param_vec changed its argument");
      for (auto &t : copy) t = 77; // the caller's array is not needed afterwards
      changed |= par != P.params;
      c.desc << "parameters " << show(par) << "\n";
      c.label("change");
      continue;
    }
    if (ev == 2) {
      std::vector<double> v(P.params.size() + 2, 0.25);
      size_t cnt = g.coin() ? P.params.size() + 1 : P.params.size() - 1;
      bool thrown = false;
      try { findTape(id).set_param_vec(id, cnt, v.data()); } catch (const ADOLCError::ADOLCError &) { thrown = true; }
      c.check(thrown, "wrong-count", cat("set_param_vec accepted ", cnt, " parameters instead of ", P.params.size()));
      c.desc << "wrong number of parameters\n";
      c.label("wrong count");
      continue;
    }
    auto x = P.pts[g.below(2)];
    auto f = finals(x, par);
    bool sw = false;
    for (auto &q : cmps) {
      double a0 = *f0[q.slot], b0 = P.params[q.par], a1 = *f[q.slot], b1 = par[q.par];
      if (q.side) { std::swap(a0, b0); std::swap(a1, b1); }
      sw |= rel(q.op, a0, b0) != rel(q.op, a1, b1);
    }
    if (sw) {
      c.label("switch");
      int how = (int)g.below(3), rc;
      std::vector<double> yy(m), X(n, 1.0), Y(m);
      if (how == 0) rc = zos_forward(id, m, n, 0, x.data(), yy.data());
      else if (how == 1) rc = fos_forward(id, m, n, 0, x.data(), X.data(), yy.data(), Y.data());
      else { taping::Mat A(m, n); rc = ::jacobian(id, m, n, x.data(), A.p()); }
      c.check(rc < 0, "switch", cat("sweep ", how, " at ", show(x), " with parameters ", show(par), " returned ", rc, " although a comparison with a parameter comes out differently"));
      continue;
    }
    auto F = evals::fun(P, par);
    evals::Eval E{c, id, F, [&](const std::vector<double> &xx, int rc) { return rc == 3 || (rc == 2 && !P.smooth && (xx != P.pts[0] || par != P.params)); }};
    if (!finite(evals::values(F, x))) c.discard();
    if (!E.one(x)) continue;
    c.desc << E.last << " at " << show(x) << "\n";
    if (changed && P.nnonlin >= 2) {
      auto a = evals::values(F, x), b = values(P, x, &P.params);
      for (int j = 0; j < m; ++j) if (std::fabs((double)(a.l[j] - b.l[j])) > 1e-6) c.interesting();
    }
  }
}
