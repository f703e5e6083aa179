// Value fidelity of recording and re-evaluation.
#include "deriv.hpp"
using namespace prog;
using namespace refd;
const CheckInfo CHECK{"C01",
  "a case is a random straight-line program over every scalar operation of the library (all operand forms, aliasing, overwriting, "
  "destruction, moves, conditional assignment, vector assignment), recorded at one admissible point and re-evaluated at two others with "
  "zos_forward/function/forward in a random order and with random keep; non-trivial: at least 3 nonlinear instructions and at least one "
  "overwritten or destroyed variable",
  30000, 600000, 25, 600, {"programs keep 0.02 away from kinks and inside function domains; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
void run_case(Case &c) {
  Gen &g = c.g;
  Opts o;
  o.npts = 3; o.nmax = 6; o.mmax = 4; o.imax = 30;
  enlarge(g, o, 60, 40, 400);
  Program P = random_program(g, o);
  taping::reset_library();
  int id = createNewTape();
  int keep = g.coin();
  c.desc << P.str() << "keep=" << keep << "\n";
  if (P.nnonlin >= 3 && P.nover + P.nkills > 0) c.interesting();
  if (P.ncond) c.label("condassign");
  if (P.nvec) c.label("vector-assign");
  if (P.nkills) c.label("destroyed/moved");
  if (P.nprod) c.label("eq_prod");
  if (P.nalias) c.label("alias");
  auto y = taping::trace((short)id, P, P.pts[0], keep);
  auto ref0 = values(P, P.pts[0]);
  auto b = cmp(y, ref0);
  c.check(!b.bad, "record-value", cat("value returned while recording: y[", b.idx, "]=", b.got, " expected ", b.want));
  auto st = tapestats((short)id);
  c.check(st[TapeInfos::NUM_INDEPENDENTS] == (size_t)P.n, "stats-indep", "NUM_INDEPENDENTS wrong");
  c.check(st[TapeInfos::NUM_DEPENDENTS] == (size_t)P.m, "stats-dep", "NUM_DEPENDENTS wrong");
  for (int it = 0; it < 4; ++it) {
    auto &x = P.pts[g.below(3)];
    int how = (int)g.below(5);
    std::vector<double> z(P.m, 1e30);
    int rc;
    auto xin = x;
    int kp = g.coin();
    if (how == 0) rc = zos_forward((short)id, P.m, P.n, kp, xin.data(), z.data());
    else if (how == 1) rc = function((short)id, P.m, P.n, xin.data(), z.data());
    else if (how == 2) rc = forward((short)id, P.m, P.n, kp, xin.data(), z.data());
    else if (how == 3) rc = forward((short)id, P.m, P.n, 0, kp, xin.data(), z.data());
    else {                                                               // partitioned argument
      std::vector<int> ndim;
      std::vector<std::vector<double>> parts;
      for (int left = P.n; left > 0;) { int k = (int)g.range(1, left); ndim.push_back(k); parts.emplace_back(x.begin() + (P.n - left), x.begin() + (P.n - left + k)); left -= k; }
      std::vector<const double *> pp;
      for (auto &v : parts) pp.push_back(v.data());
      rc = zos_forward_partx((short)id, P.m, (int)ndim.size(), ndim.data(), pp.data(), z.data());
    }
    c.check(rc >= 0, "zos-rc", cat("forward driver ", how, " returned ", rc));
    c.check(xin == x, "input-changed", "argument array was modified");
    auto w = values(P, x);
    auto b = cmp(z, w);
    c.check(!b.bad, "reeval-value", cat("driver ", how, " keep ", kp, " at x=", show(x), ": y[", b.idx, "]=", b.got, " expected ", b.want));
  }
}
