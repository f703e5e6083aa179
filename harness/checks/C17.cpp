// Propagation of dependencies: bit patterns with any seeds, index domains, interaction domains.
#include "deriv.hpp"
#include "dep.hpp"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparse_fo_rev.h>
using namespace prog;
using namespace refd;
using namespace ADOLC::Sparse;
const CheckInfo CHECK{"C17",
  "a case records a random program (up to 20 variables and 12 results, all operations, early dependents, in memory, small buffers or on file) and runs a history of bit pattern sweeps with random seeds (1-4 words, "
  "single bits, dense, empty), index domain and interaction domain sweeps, safe and tight at several points, directly and through the typed interface, mixed with numeric sweeps; oracle: lower and upper "
  "bounds from a data-flow interpretation of the program; non-trivial: a sweep whose required result has both set and unset bits and whose program has at least two nonlinear operations",
  30000, 500000, 24, 600, {"a tight reverse sweep follows a forward sweep with keep = 1 at the point; points are 0.02 away from kinks and ties; interaction sweeps are limited to programs of 16 operations"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace { using Bits = std::vector<std::vector<char>>; }
void run_case(Case &c) {
  Gen &g = c.g;
  using uint = unsigned int;
  bool inter = g.chance(1, 3);
  Opts o;
  o.npts = 3; o.nmax = g.coin() ? 5 : 20; o.mmax = g.coin() ? 4 : 12; o.imax = inter ? 16 : 45; o.maxslots = 30;
  if (!inter && enlarge(g, o, 60, 40, 100)) c.label("large");
  Program P = random_program(g, o);
  int n = P.n, m = P.m;
  if (m < 1) c.discard();
  c.desc << P.str();
  auto bits = [&](const std::vector<dep::D> &d) { Bits b(m, std::vector<char>(n)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) b[i][j] = d[i].has(j); return b; };
  auto ibits = [&](const std::vector<dep::D> &d) { Bits b(n, std::vector<char>(n, 0)); for (auto &q : d) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] |= q.inter(i, j); return b; };
  Bits hi = bits(dep::structure(P, P.pts[0], true, true));
  Bits ihi(n, std::vector<char>(n));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ihi[i][j] = dep::touched()[i] >> j & 1;
  auto ss = dep::structure(P, P.pts[0], true, false);
  Bits los = bits(ss), ilos = ibits(ss);
  std::vector<Bits> lo, ilo;
  for (auto &x : P.pts) { auto s = dep::structure(P, x, false, false); lo.push_back(bits(s)); ilo.push_back(ibits(s)); }
  taping::reset_library();
  short id = (short)createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  int store = g.pick({3, 1, 1});
  taping::set_trace_on({});
  if (store == 1) { int a = g.range(12, 60), b = g.range(80, 160), d = g.range(8, 20); taping::set_trace_on([=](short t, int k) { return trace_on(t, k, a, b, d, 64, 1); }); }
  taping::trace(id, P, P.pts[0], 0, store == 2);
  taping::set_trace_on({});
  int len = g.range(2, 7);
  for (int s = 0; s < len; ++s) {
    int p = (int)g.below(3), what = g.pick({4, 4, 2, inter ? 3 : 0, 1});
    auto x = P.pts[p];
    bool tight = g.coin(), typed = g.coin();
    const Bits &L = tight ? lo[p] : los;
    std::string sfx = tight ? "tight" : "safe";
    if (what <= 1) {
      int w = g.range(1, g.chance(1, 12) ? 12 : 4);
      bool fwd = what == 0;
      int rows = fwd ? n : w, cols = fwd ? w : m; // seed dimensions
      int orow = fwd ? m : w, ocol = fwd ? w : n;
      std::vector<std::vector<bitword_t>> S(rows, std::vector<bitword_t>(cols)), R(orow, std::vector<bitword_t>(ocol, 0xdeadbeef));
      int style = (int)g.below(4);
      for (auto &r : S) for (auto &v : r) {
        if (style == 0) v = (bitword_t)1 << g.below(32);
        else if (style == 1) v = g.chance(1, 2) ? (bitword_t)1 << g.below(32) : 0;
        else if (style == 2) v = (bitword_t)g.below(1ull << 32);
        else v = g.chance(1, 4) ? ~(bitword_t)0 : 0;
      }
      auto S0 = S;
      std::vector<bitword_t *> sp, rp;
      for (auto &r : S) sp.push_back(r.data());
      for (auto &r : R) rp.push_back(r.data());
      std::string nm = cat("int_", fwd ? "forward_" : "reverse_", sfx);
      c.label(nm);
      c.desc << nm << (typed ? " typed" : "") << " at point " << p << " words " << w << " style " << style << "\n";
      int rc;
      std::vector<double> y(m, 1e30);
      if (fwd) {
        if (tight) rc = typed ? ADOLC::Sparse::forward<ControlFlowMode::Tight>(id, m, n, w, x.data(), sp, y.data(), rp) : int_forward_tight(id, m, n, w, x.data(), sp.data(), y.data(), rp.data());
        else rc = typed ? ADOLC::Sparse::forward<ControlFlowMode::Safe>(id, m, n, w, sp, rp) : int_forward_safe(id, m, n, w, sp.data(), rp.data());
        if (tight) { auto q = refd::values(P, x); if (finite(q)) for (int i = 0; i < m; ++i) c.check(close(y[i], q.l[i], q.d[i], q.scale()), "value", cat(nm, ": y", i, " is ", y[i], " expected ", (double)q.l[i])); }
      } else {
        if (tight) { int how = (int)g.below(2); std::vector<double> X(n, 0.5), Y(m); int r0 = how ? fos_forward(id, m, n, 1, x.data(), X.data(), y.data(), Y.data()) : zos_forward(id, m, n, 1, x.data(), y.data()); c.check(refd::rc_ok(P, x, r0), "code-forward", cat("forward returned ", r0)); }
        if (tight) rc = typed ? ADOLC::Sparse::reverse<ControlFlowMode::Tight>(id, m, n, w, sp, rp) : int_reverse_tight(id, m, n, w, sp.data(), rp.data());
        else rc = typed ? ADOLC::Sparse::reverse<ControlFlowMode::Safe>(id, m, n, w, sp, rp) : int_reverse_safe(id, m, n, w, sp.data(), rp.data());
      }
      c.check(tight ? refd::rc_ok(P, x, rc) || rc == 2 : rc >= 0, "code-" + nm, cat(nm, " returned ", rc));
      c.check(S == S0, "seed-changed", nm + " changed its seed");
      bool some = false, none = false;
      for (int k = 0; k < w; ++k) for (int e = 0; e < (fwd ? m : n); ++e) {
        bitword_t must = 0, may = 0;
        for (int q = 0; q < (fwd ? n : m); ++q) {
          bitword_t v = fwd ? S[q][k] : S[k][q];
          int i = fwd ? e : q, j = fwd ? q : e;
          if (L[i][j]) must |= v;
          if (hi[i][j]) may |= v;
        }
        bitword_t got = fwd ? R[e][k] : R[k][e];
        c.check((must & ~got) == 0, "missing-" + nm, cat(nm, " at ", show(x), ": ", fwd ? "result " : "variable ", e, " word ", k, " is ", std::hex, got, " but must contain ", must));
        c.check((got & ~may) == 0, "extra-" + nm, cat(nm, " at ", show(x), ": ", fwd ? "result " : "variable ", e, " word ", k, " is ", std::hex, got, " but no path brings more than ", may));
        some |= must != 0;
        none |= may != ~(bitword_t)0;
      }
      if (some && none && P.nnonlin >= 2) c.interesting();
    } else if (what == 2 || what == 3) {
      bool ind = what == 2;
      int rows = ind ? m : n;
      std::vector<uint *> r(rows, nullptr);
      struct Rows { std::vector<uint *> &r; ~Rows() { for (auto *q : r) delete[] q; } } rr{r};
      bool old = !ind && g.coin();
      std::string nm = ind ? "indopro_forward_" + sfx : cat("nonl_ind_", old ? "old_" : "", "forward_", sfx);
      c.label(nm);
      c.desc << nm << " at point " << p << "\n";
      int rc = ind ? (tight ? indopro_forward_tight(id, m, n, x.data(), r.data()) : indopro_forward_safe(id, m, n, g.coin() ? x.data() : nullptr, r.data()))
             : old ? (tight ? nonl_ind_old_forward_tight(id, m, n, x.data(), r.data()) : nonl_ind_old_forward_safe(id, m, n, x.data(), r.data()))
                   : (tight ? nonl_ind_forward_tight(id, m, n, x.data(), r.data()) : nonl_ind_forward_safe(id, m, n, x.data(), r.data()));
      c.check(tight ? refd::rc_ok(P, x, rc) || rc == 2 : rc >= 0, "code-" + nm, cat(nm, " returned ", rc));
      const Bits &LL = ind ? L : tight ? ilo[p] : ilos;
      const Bits &HH = ind ? hi : ihi;
      bool some = false, none = false;
      for (int i = 0; i < rows; ++i) {
        c.check(r[i], "row-null", cat(nm, ": row ", i, " is null"));
        std::vector<char> b(n, 0);
        for (uint k = 1; k <= r[i][0]; ++k) {
          c.check(r[i][k] < (uint)n && !b[r[i][k]], "row", cat(nm, ": row ", i, " lists ", r[i][k], " twice or out of range"));
          b[r[i][k]] = 1;
        }
        for (int j = 0; j < n; ++j) {
          c.check(b[j] || !LL[i][j], "missing-" + nm, cat(nm, " at ", show(x), ": (", i, ",", j, ") is missing"));
          c.check(!b[j] || HH[i][j], "extra-" + nm, cat(nm, " at ", show(x), ": (", i, ",", j, ") is reported although nothing connects them"));
          some |= LL[i][j]; none |= !HH[i][j];
        }
      }
      if (some && none && P.nnonlin >= 2) c.interesting();
    } else { // something else in between
      std::vector<double> y(m), X(n, 1), Y(m), Z(n), U(m, 1);
      fos_forward(id, m, n, 1, x.data(), X.data(), y.data(), Y.data());
      if (g.coin()) fos_reverse(id, m, n, U.data(), Z.data());
    }
  }
}
