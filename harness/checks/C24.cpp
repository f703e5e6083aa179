// C language interface and Fortran-callable wrappers against the C++ interface and exact derivatives.
#include "evals.hpp"
#include "safe.hpp"
#include <ADOLC_TB_interface.h>
#include <ADOLC_TL_interface.h>
#include <array_handler.h>
#include <driver_interface.h>
#include <adolc/fortutils.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/drivers/odedrivers.h>
#include <memory>
using namespace refd;
extern "C" fint zos_forward_(const fint *, const fint *, const fint *, const fint *, const fdouble *, fdouble *); // defined but missing in the header
const CheckInfo CHECK{"C24",
  "a case evaluates a random program through the C handles of the taping interface (all operations, compound forms, comparisons, parameters changed afterwards, aliasing, handles of two tapes, freeing by tape) and performs random sweeps and "
  "drivers on the tape, or through the C handles of the traceless interface with 1-6 directions, or calls a Fortran wrapper or a C overload with random dimensions, degrees and directions next to the C++ function on the same "
  "tape; oracle: exact power-series arithmetic for the handles, bitwise equality of results and return codes and column-major order for the wrappers, unchanged inputs; "
  "non-trivial: at least 2 nonlinear operations (handles) or a wrapper with at least two array dimensions above 1",
  80000, 1200000, 40, 600, {"functions declared but never defined (large_jacobian_, hessian2_, hess_mat_, hov_wk_forward_, hos_ov_reverse_, directional_active_gradient_) cannot be called; comparisons with NaN are not used; functions missing in the C interfaces (cbrt, atan2, constant to an active power, conditional assignments) are not used"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
thread_local unsigned flip = 0; // alternates between equivalent C functions
// a taped variable through the C interface
struct CH {
  tape_loc v;
  struct Own {};
  CH() : v(adolc_tb_new_empty()) {}
  CH(double x) : v(++flip & 1 ? adolc_tb_new(x) : adolc_tb_assign(x)) {}
  CH(tape_loc t, Own) : v(t) {}
  CH(const CH &o) : v(adolc_tb_new_empty()) { adolc_tb_assign_to(v, o.v); }
  CH(CH &&o) noexcept : v(o.v) { o.v.loc = ADOLC_TB_INVALID_LOC; }
  CH &operator=(const CH &o) { adolc_tb_assign_to(v, o.v); return *this; }
  CH &operator=(CH &&o) { if (++flip & 2) adolc_tb_assign_to(v, o.v); else std::swap(v, o.v); return *this; }
  CH &operator=(double x) { if (++flip & 1) adolc_tb_assign_double_to(v, x); else adolc_tb_set_value(v, x); return *this; }
  ~CH() { adolc_tb_free(v); }
  CH &operator+=(const CH &b) { adolc_tb_add_to(v, b.v); return *this; }
  CH &operator-=(const CH &b) { adolc_tb_sub_to(v, b.v); return *this; }
  CH &operator*=(const CH &b) { adolc_tb_mul_to(v, b.v); return *this; }
  CH &operator/=(const CH &b) { adolc_tb_div_to(v, b.v); return *this; }
};
CH mk(tape_loc t) { return CH(t, CH::Own{}); }
// a traceless variable through the C interface
struct LH {
  TLAdoubleHandle h;
  struct Own {};
  static size_t &np() { static thread_local size_t n = 1; return n; }
  LH() : h(create_tl_adouble_empty()) {}
  LH(double x) : h(create_tl_adouble(x)) {}
  LH(TLAdoubleHandle t, Own) : h(t) {}
  LH(const LH &o) : h(nullptr) {
    if (++flip & 1) h = create_tl_adouble_with_ad(get_tl_value(o.h), get_tl_ad_values(o.h));
    else { h = create_tl_adouble(0.0); set_tl_value(h, get_tl_value(o.h)); if (flip & 2) set_tl_ad_value(h, get_tl_ad_values(o.h)); else for (size_t i = 0; i < np(); ++i) set_tl_ad_value_idx(h, i, get_tl_ad_value_idx(o.h, i)); }
  }
  LH(LH &&o) noexcept : h(o.h) { o.h = nullptr; }
  LH &operator=(LH o) { std::swap(h, o.h); return *this; }
  ~LH() { if (h) free_tl_adouble(h); }
};
LH mk(TLAdoubleHandle t) { return LH(t, LH::Own{}); }
#define BOTH(X) X(CH, v, tb) X(LH, h, tl)
CH operator+(const CH &a, const CH &b) { return mk(adolc_tb_add(a.v, b.v)); }
CH operator-(const CH &a, const CH &b) { return mk(adolc_tb_sub(a.v, b.v)); }
CH operator*(const CH &a, const CH &b) { return mk(adolc_tb_mul(a.v, b.v)); }
CH operator/(const CH &a, const CH &b) { return mk(adolc_tb_div(a.v, b.v)); }
CH operator+(const CH &a, double b) { return mk(adolc_tb_add_d(a.v, b)); }
CH operator-(const CH &a, double b) { return mk(adolc_tb_sub_d(a.v, b)); }
CH operator*(const CH &a, double b) { return mk(adolc_tb_mul_d(a.v, b)); }
CH operator/(const CH &a, double b) { return mk(adolc_tb_div_d(a.v, b)); }
CH operator+(double a, const CH &b) { return mk(adolc_tb_d_add(a, b.v)); }
CH operator-(double a, const CH &b) { return mk(adolc_tb_d_sub(a, b.v)); }
CH operator*(double a, const CH &b) { return mk(adolc_tb_d_mul(a, b.v)); }
CH operator/(double a, const CH &b) { return mk(adolc_tb_d_div(a, b.v)); }
CH operator-(const CH &a) { return 0.0 - a; }
CH operator+(const CH &a) { return a; }
CH &operator+=(CH &a, double b) { a += CH(b); return a; }
CH &operator-=(CH &a, double b) { a -= CH(b); return a; }
CH &operator*=(CH &a, double b) { a *= CH(b); return a; }
CH &operator/=(CH &a, double b) { a /= CH(b); return a; }
CH pow(const CH &a, const CH &b) { return mk(adolc_tb_pow(a.v, b.v)); }
CH pow(const CH &a, double b) { return mk(adolc_tb_pow_d(a.v, b)); }
CH fmin(const CH &a, const CH &b) { return mk(adolc_tb_min(a.v, b.v)); }
CH fmin(const CH &a, double b) { return mk(adolc_tb_min_d(a.v, b)); }
CH fmin(double a, const CH &b) { return mk(adolc_tb_d_min(a, b.v)); }
CH fmax(const CH &a, const CH &b) { return mk(adolc_tb_max(a.v, b.v)); }
CH fmax(const CH &a, double b) { return mk(adolc_tb_max_d(a.v, b)); }
CH fmax(double a, const CH &b) { return mk(adolc_tb_d_max(a, b.v)); }
LH operator+(const LH &a, const LH &b) { return mk(add_tl_adouble(a.h, b.h)); }
LH operator-(const LH &a, const LH &b) { return mk(subtr_tl_adouble(a.h, b.h)); }
LH operator*(const LH &a, const LH &b) { return mk(mult_tl_adouble(a.h, b.h)); }
LH operator/(const LH &a, const LH &b) { return mk(div_tl_adouble(a.h, b.h)); }
LH operator+(const LH &a, double b) { return mk(add_tl_adouble_double(a.h, b)); }
LH operator-(const LH &a, double b) { return mk(subtr_tl_adouble_double(a.h, b)); }
LH operator*(const LH &a, double b) { return mk(mult_tl_adouble_double(a.h, b)); }
LH operator/(const LH &a, double b) { return mk(div_tl_adouble_double(a.h, b)); }
LH operator+(double a, const LH &b) { return mk(add_double_tl_adouble(a, b.h)); }
LH operator-(double a, const LH &b) { return mk(subtr_double_tl_adouble(a, b.h)); }
LH operator*(double a, const LH &b) { return mk(mult_double_tl_adouble(a, b.h)); }
LH operator/(double a, const LH &b) { return mk(div_double_tl_adouble(a, b.h)); }
LH operator-(const LH &a) { return 0.0 - a; }
LH operator+(const LH &a) { return a; }
#define COMP(op) template <class B> LH &operator op##=(LH &a, const B &b) { a = a op b; return a; }
COMP(+) COMP(-) COMP(*) COMP(/)
LH pow(const LH &a, const LH &b) { return mk(pow_tl_adouble(a.h, b.h)); }
LH pow(const LH &a, double b) { return mk(pow_tl_adouble_double(a.h, b)); }
LH fmin(const LH &a, const LH &b) { return mk(min_tl_adouble(a.h, b.h)); }
LH fmin(const LH &a, double b) { return mk(min_tl_adouble_double(a.h, b)); }
LH fmin(double a, const LH &b) { return mk(min_double_tl_adouble(a, b.h)); }
LH fmax(const LH &a, const LH &b) { return mk(max_tl_adouble(a.h, b.h)); }
LH fmax(const LH &a, double b) { return mk(max_tl_adouble_double(a.h, b)); }
LH fmax(double a, const LH &b) { return mk(max_double_tl_adouble(a, b.h)); }
CH fabs(const CH &a) { return mk(adolc_tb_abs(a.v)); }
LH fabs(const LH &a) { return mk(tl_abs(a.h)); }
CH ldexp(const CH &a, int n) { return mk(adolc_tb_ldexp(a.v, n)); }
LH ldexp(const LH &a, int n) { return mk(tl_ldexp(a.h, n)); }
#define UN(f) CH f(const CH &a) { return mk(adolc_tb_##f(a.v)); } LH f(const LH &a) { return mk(tl_##f(a.h)); }
UN(sqrt) UN(log) UN(log10) UN(sin) UN(cos) UN(tan) UN(exp) UN(asin) UN(acos) UN(atan) UN(sinh) UN(cosh) UN(tanh) UN(asinh) UN(acosh) UN(atanh) UN(ceil) UN(floor) UN(erf) UN(erfc)
// not part of the C interfaces, never reached
template <class T> concept Handle = std::is_same_v<T, CH> || std::is_same_v<T, LH>;
template <Handle T> T cbrt(const T &) { throw std::logic_error("cbrt"); }
template <Handle T> T atan2(const T &, const T &) { throw std::logic_error("atan2"); }
template <Handle T> T pow(double, const T &) { throw std::logic_error("pow"); }
} // namespace
namespace prog {
template <> struct Traits<CH> { static constexpr bool rvalue = true, vecops = false, pdoubles = false; };
template <> struct Traits<LH> { static constexpr bool rvalue = true, vecops = false, pdoubles = false; };
template <class T> struct NoCond { static void c4(T &, const T &, const T &, const T &) {} static void c3(T &, const T &, const T &) {} static void e4(T &, const T &, const T &, const T &) {} static void e3(T &, const T &, const T &) {} };
template <> struct CondOps<CH> : NoCond<CH> {};
template <> struct CondOps<LH> : NoCond<LH> {};
} // namespace prog
namespace {
prog::Opts opts(Gen &g) {
  using namespace prog;
  Opts o;
  o.early = false; o.rv = false;
  o.banned_fns = {F_CBRT};
  o.banned_ops = {ATAN2, CPOW, COND4, COND3, CONDEQ4, CONDEQ3};
  return o;
}
void taped(Gen &g, Case &c) {
  auto o = opts(g);
  o.imax = 22;
  o.params = g.chance(1, 3);
  if (o.params) o.npar = 2;
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m) { c.discard(); return; }
  c.desc << "C taping interface\n" << P.str();
  taping::reset_library();
  short lo = (short)createNewTape(); // ids are never used again
  int ensure = lo + g.range(0, 4);
  adolc_ensure_tape((short)ensure);
  for (int k = lo; k <= ensure; ++k) c.check(findTapePtr_((short)k) != nullptr, "ensure-tape", cat("tape ", k, " does not exist"));
  c.check(findTapePtr_((short)(ensure + 1)) == nullptr, "ensure-tape", "a tape too many was created");
  short id = (short)g.range(lo, ensure), other = (short)createNewTape();
  adolc_ensure_tape(id);
  setCurrentTape(other);
  std::vector<tape_loc> foreign;
  for (int k = (int)g.below(3); k-- > 0;) foreign.push_back(adolc_tb_new(g.real(-1, 1)));
  size_t lives = findTape(other).numLives();
  c.check(lives == foreign.size(), "lives", cat(lives, " live variables, expected ", foreign.size()));
  setCurrentTape(id);
  std::vector<tape_loc> junk;
  for (int k = (int)g.below(6); k-- > 0;) junk.push_back(g.coin() ? adolc_tb_new_empty() : adolc_tb_new(1.0));
  for (auto &t : junk) if (g.coin()) { adolc_tb_free(t); t.loc = ADOLC_TB_INVALID_LOC; }
  adolc_tb_free(tape_loc{ADOLC_TB_INVALID_LOC});
  size_t base = findTape(id).numLives();
  bool mm = g.coin();
  if (mm) adolc_enable_min_max_using_abs(); else adolc_disable_min_max_using_abs();
  int keep = (int)g.below(2), ncmp = 0;
  c.check(adolc_trace_on(id, keep) == 0, "trace_on", "adolc_trace_on failed");
  Vec y(P.m, 1e30);
  {
    std::vector<CH> par;
    for (double v : P.params) par.push_back(mk(adolc_mkparam(v)));
    for (size_t k = 0; k < P.params.size(); ++k) c.check(adolc_tb_value(par[k].v) == P.params[k], "mkparam", "wrong value of a parameter");
    std::vector<std::optional<CH>> s(P.nslots);
    for (int i = 0; i < P.n; ++i) { if (g.coin()) s[i].emplace(); else s[i].emplace(5.0); adolc_tb_independent(s[i]->v, P.pts[0][i]); c.check(adolc_tb_value(s[i]->v) == P.pts[0][i], "independent", "wrong value of an independent"); }
    for (auto &q : P.ins) {
      if (q.op == prog::PCOMP) { auto &d = *s[q.d]; auto &p = par[q.b]; switch (q.i) { case 0: d += p; break; case 1: d -= p; break; case 2: d *= p; break; default: d /= p; } }
      else if (q.op == prog::PBIN) {
        const CH &a = *s[q.a], &p = par[q.b];
        switch (q.i) {
        case 0: prog::put(s, q.d, q.j ? a + p : p + a); break;
        case 1: prog::put(s, q.d, q.j ? a - p : p - a); break;
        case 2: prog::put(s, q.d, q.j ? a * p : p * a); break;
        default: prog::put(s, q.d, q.j ? a / p : p / a);
        }
      } else prog::step<CH>(q, s, P.params);
    }
    for (int j = 0; j < P.m; ++j) adolc_tb_dependent(s[P.out[j]]->v, &y[j]);
  }
  adolc_trace_off((int)g.below(2));
  c.check(findTape(id).numLives() == base, "lives", cat(findTape(id).numLives(), " live variables after the recording, expected ", base));
  c.check(adolc_num_independent(id) == (size_t)P.n, "num_independent", cat(adolc_num_independent(id)));
  c.check(adolc_num_dependent(id) == (size_t)P.m, "num_dependent", cat(adolc_num_dependent(id)));
  for (auto &t : foreign) { adolc_tb_free_on_tape(other, t); setCurrentTape(id); c.check(findTape(other).numLives() == --lives, "free_on_tape", "wrong number of live variables"); }
  adolc_tb_free_on_tape(other, tape_loc{ADOLC_TB_INVALID_LOC});
  setCurrentTape(id);
  for (auto &t : junk) adolc_tb_free(t);
  auto F0 = evals::fun(P, P.params);
  auto w = evals::values(F0, P.pts[0]);
  if (!finite(w)) { c.discard(); return; }
  for (int j = 0; j < P.m; ++j) c.check(close(y[j], w.l[j], w.d[j], w.scale()), "recording", cat("dependent ", j, " is ", y[j], " expected ", (double)w.l[j]));
  int k = g.range(1, 3), done = 0;
  Vec cur = P.params;
  for (int t = 0; t < k; ++t) {
    if (!P.params.empty() && P.parv.size() > 1 && g.coin()) { cur = P.parv[g.below(P.parv.size())]; adolc_set_param_vec(id, (unsigned)cur.size(), cur.data()); c.label("parameters changed"); }
    auto F = evals::fun(P, cur);
    evals::Eval E{c, id, F, [](const Vec &, int) { return true; }, evals::FIRST | evals::HOS | evals::HOV | evals::REVH};
    if (E.one(P.pts[g.below(P.pts.size())])) ++done;
  }
  if (P.nnonlin >= 2 && done) c.interesting();
  c.label("taped handles");
}
void compare(Gen &g, Case &c) { // comparison functions
  int n = g.range(2, 5), k = g.range(4, 30);
  static const double vs[] = {0, -0.0, 1, -1, 0.5, 1.0000000000000002, 1e300, -1e-300};
  bool tl = g.coin();
  Vec v;
  for (int i = 0; i < n; ++i) v.push_back(g.chance(3, 4) ? vs[g.below(8)] : g.real(-2, 2));
  c.desc << "comparisons of" << show(v) << (tl ? " traceless" : " taped") << "\n";
  set_num_dir(1); LH::np() = 1;
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  bool rec = !tl && g.coin();
  if (rec) adolc_trace_on(id, 0);
  {
    std::vector<CH> A;
    std::vector<LH> B;
    for (double x : v) if (tl) B.emplace_back(x); else { A.emplace_back(); if (rec) adolc_tb_independent(A.back().v, x); else adolc_tb_set_value(A.back().v, x); }
    for (int t = 0; t < k; ++t) {
      int i = (int)g.below(n), j = (int)g.below(n), op = (int)g.below(5), form = (int)g.below(3);
      double x = v[i], y = v[j];
      bool want = op == 0 ? x >= y : op == 1 ? x > y : op == 2 ? x <= y : op == 3 ? x < y : x == y, got;
      if (!tl) {
        auto p = A[i].v, q = A[j].v;
        if (form == 0) got = op == 0 ? adolc_tb_ge(p, q) : op == 1 ? adolc_tb_g(p, q) : op == 2 ? adolc_tb_le(p, q) : op == 3 ? adolc_tb_l(p, q) : adolc_tb_eq(p, q);
        else if (form == 1) got = op == 0 ? adolc_tb_ge_d(p, y) : op == 1 ? adolc_tb_g_d(p, y) : op == 2 ? adolc_tb_le_d(p, y) : op == 3 ? adolc_tb_l_d(p, y) : adolc_tb_eq_d(p, y);
        else got = op == 0 ? adolc_tb_d_ge(x, q) : op == 1 ? adolc_tb_d_g(x, q) : op == 2 ? adolc_tb_d_le(x, q) : op == 3 ? adolc_tb_d_l(x, q) : adolc_tb_d_eq(x, q);
      } else {
        auto p = B[i].h, q = B[j].h;
        if (form == 0) got = op == 0 ? ge_tl_adouble(p, q) : op == 1 ? g_tl_adouble(p, q) : op == 2 ? le_tl_adouble(p, q) : op == 3 ? l_tl_adouble(p, q) : eq_tl_adouble(p, q);
        else if (form == 1) got = op == 0 ? ge_tl_adouble_double(p, y) : op == 1 ? g_tl_adouble_double(p, y) : op == 2 ? le_tl_adouble_double(p, y) : op == 3 ? l_tl_adouble_double(p, y) : eq_tl_adouble_double(p, y);
        else got = op == 0 ? ge_double_tl_adouble(x, q) : op == 1 ? g_double_tl_adouble(x, q) : op == 2 ? le_double_tl_adouble(x, q) : op == 3 ? l_double_tl_adouble(x, q) : eq_double_tl_adouble(x, q);
      }
      c.check(got == want, "comparison", cat(tl ? "traceless" : "taped", " comparison ", op, " form ", form, " of ", x, " and ", y, " gives ", got));
    }
    if (rec) { double d; adolc_tb_dependent(A[0].v, &d); c.check(same(d, v[0]), "comparison", "a comparison changed a value"); }
  }
  if (rec) {
    adolc_trace_off(0);
    double y;
    int rc = zos_forward(id, 1, n, 0, v.data(), &y);
    c.check(rc >= 0 && same(y, v[0]), "comparison-rerun", cat("re-evaluation at the recording point returns ", rc, " value ", y));
  }
  if (k >= 8) c.interesting();
  c.label("comparisons");
}
void traceless(Gen &g, Case &c) {
  auto o = opts(g);
  o.nmax = 6; o.mmax = 4; o.imax = 22; o.npts = 1;
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m) { c.discard(); return; }
  size_t p = g.range(1, 6);
  set_num_dir(p); LH::np() = p;
  const Vec &x = P.pts[0];
  std::vector<Vec> S(P.n);
  for (auto &s : S) s = reals(g, (int)p);
  c.desc << "C traceless interface, directions " << p << "\n" << P.str();
  Vec v, dv;
  {
    std::vector<LH> X;
    for (int i = 0; i < P.n; ++i) {
      int how = (int)g.below(3);
      if (how == 0) X.push_back(mk(create_tl_adouble_with_ad(x[i], S[i].data())));
      else {
        X.push_back(how == 1 ? mk(create_tl_adouble(x[i])) : mk(create_tl_adouble_empty()));
        set_tl_value(X.back().h, x[i]);
        if (how == 1) set_tl_ad_value(X.back().h, S[i].data()); else for (size_t k = 0; k < p; ++k) set_tl_ad_value_idx(X.back().h, k, S[i][k]);
      }
    }
    auto Y = prog::eval<LH>(P, X);
    for (auto &y : Y) { v.push_back(get_tl_value(y.h)); for (size_t k = 0; k < p; ++k) { double a = get_tl_ad_value_idx(y.h, k); c.check(same(a, get_tl_ad_values(y.h)[k]), "tl-getters", "the two ways to read a derivative differ"); dv.push_back(a); } }
    for (int i = 0; i < P.n; ++i) { c.check(get_tl_value(X[i].h) == x[i], "tl-arguments", "an argument changed"); for (size_t k = 0; k < p; ++k) c.check(get_tl_ad_value_idx(X[i].h, k) == S[i][k], "tl-arguments", "derivatives of an argument changed"); }
  }
  auto F = evals::fun(P, P.params);
  Q q = evals::values(F, x), J = evals::jacobian(F, x), w;
  if (!finite(q) || !finite(J)) { c.discard(); return; }
  Bad b = cmp(v, q);
  c.check(!b.bad, "tl-value", [&] { return cat("value ", b.idx, " is ", b.got, " expected ", b.want); });
  for (int j = 0; j < P.m; ++j) for (size_t k = 0; k < p; ++k) {
    long double s = 0; double e = 0;
    for (int i = 0; i < P.n; ++i) { s += J.l[j * P.n + i] * S[i][k]; e += std::fabs((double)(J.d[j * P.n + i] - J.l[j * P.n + i]) * S[i][k]); }
    w.l.push_back(s); w.d.push_back((double)s + e);
  }
  b = cmp(dv, w, std::max(J.scale() * 2, w.scale()));
  c.check(!b.bad, "tl-derivative", [&] { return cat("output ", b.idx / p, " direction ", b.idx % p, " is ", b.got, " expected ", b.want); });
  if (P.nnonlin >= 2) c.interesting();
  c.label("traceless handles");
}
// column-major copies
struct Col { // matrix [a][b] or tensor [a][b][d], first index fastest
  int a, b, d;
  Vec v;
  Col(int aa, int bb, int dd = 1) : a(aa), b(bb), d(dd), v((size_t)aa * bb * dd, 1e30) {}
  double &at(int i, int j, int k = 0) { return v[((size_t)k * b + j) * a + i]; }
};
struct R { std::string nm; int rc; Vec out; };
void put2(Vec &o, const taping::Mat &M) { o.insert(o.end(), M.d.begin(), M.d.begin() + M.nr * M.nc); }
void wrappers(Gen &g, Case &c) {
  prog::Opts o;
  o.npts = 1; o.imax = 14;
  o.banned_fns = {prog::F_CBRT}; // not available at higher order
  int group = g.pick({5, 4, 5, 1, 1, 1});
  bool anf = group == 3;
  if (anf) { o.anf = true; o.mmax = 3; }
  if (group == 4) { o.nmin = o.nmax = o.mmin = o.mmax = g.range(1, 4); }
  if (group == 2 && g.coin()) { o.mmin = o.mmax = 1; }
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m || (group == 4 && P.n != P.m)) { c.discard(); return; }
  int n = P.n, m = P.m;
  Vec x = P.pts[0];
  c.desc << "wrappers, group " << group << "\n" << P.str();
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  if (anf) currentTape().enableMinMaxUsingAbs();
  taping::trace(id, P, x);
  fint ft = id, fm = m, fn = n;
  using taping::Mat; using taping::Ten;
  int top = g.chance(1, 12) ? 11 : 4;
  int d = g.range(1, top), p = g.range(1, top), q = g.range(1, top);
  int big = 0;
  auto eq = [&](const std::string &nm, long ra, const Vec &a, long rb, const Vec &b) {
    c.check(ra == rb, "rc-" + nm, cat(nm, " returned ", rb, ", the C++ function ", ra));
    c.check(a.size() == b.size(), nm, "size");
    for (size_t i = 0; i < a.size(); ++i) c.check(same(a[i], b[i]), nm, cat(nm, ": entry ", i, " is ", b[i], ", the C++ function gives ", a[i]));
    c.label(nm);
  };
  auto unchanged = [&](const std::string &nm, const Vec &a, const Vec &b) { for (size_t i = 0; i < a.size(); ++i) c.check(same(a[i], b[i]), nm + "-input", cat(nm, " changed input ", i)); };
  auto rand2 = [&](int a, int b) { Mat M(a, b); for (auto &z : M.d) z = g.real(-1, 1); return M; };
  auto colmat = [&](const Mat &M) { Col k((int)M.nr, (int)M.nc); for (int i = 0; i < k.a; ++i) for (int j = 0; j < k.b; ++j) k.at(i, j) = M.r[i][j]; return k; };
  auto cut = [&](Mat &M, bool ok = true) { return Vec(M.d.begin(), M.d.begin() + M.nr * M.nc); };
  Vec x0 = x;
  if (group == 0 || group == 1) { // sweeps
    // forward; its Taylor coefficients are used by the reverse sweep
    int kind = g.pick({2, 4, 2, 2}); // zos, hos, fov, hov
    bool f = group == 0;             // Fortran or C
    if (kind == 0) {
      Vec y1(m), y2(m, 1e30);
      int k = (int)g.below(2);
      int r1 = zos_forward(id, m, n, k, x.data(), y1.data());
      Vec u = reals(g, m), z1(n), z2(n);
      if (k) fos_reverse(id, m, n, u.data(), z1.data());
      long r2;
      std::string nm;
      if (f) { fint fk = k; r2 = zos_forward_(&ft, &fm, &fn, &fk, x.data(), y2.data()); nm = "zos_forward_"; }
      else if (g.coin()) { r2 = forward3(id, m, n, 0, k, x.data(), y2.data()); nm = "forward3"; }
      else if (g.coin()) { r2 = forward4(id, m, n, k, x.data(), y2.data()); nm = "forward4"; }
      else { Mat X(n, 1), Y(m, 1, 1e30); for (int i = 0; i < n; ++i) X.r[i][0] = x[i]; r2 = forward1(id, m, n, 0, k, X.r.data(), Y.r.data()); for (int j = 0; j < m; ++j) y2[j] = Y.r[j][0]; for (int i = 0; i < n; ++i) c.check(X.r[i][0] == x[i], "forward1-input", "changed"); nm = "forward1 d=0"; }
      eq(nm, r1, y1, r2, y2);
      if (k) {
        Vec z3(n, 1e30);
        fos_reverse(id, m, n, u.data(), z2.data());
        eq(nm + " kept values", 0, z1, 0, z2);
        zos_forward(id, m, n, 1, x.data(), y1.data());
        int rr = fos_reverse(id, m, n, u.data(), z1.data());
        long r3;
        int w = (int)g.below(3);
        if (f && w == 0) { r3 = fos_reverse_(&ft, &fm, &fn, u.data(), z3.data()); eq("fos_reverse_", rr, z1, r3, z3); }
        else if (!f && w == 0) { r3 = reverse3(id, m, n, 0, u.data(), z3.data()); eq("reverse3", rr, z1, r3, z3); if (m == 1) { r3 = reverse4(id, m, n, 0, u[0], z3.data()); eq("reverse4", rr, z1, r3, z3); } }
        else {
          Mat U = rand2(q, m), Z(q, n), Z2(q, n, 1e30);
          rr = fov_reverse(id, m, n, q, U.r.data(), Z.r.data());
          if (f) { auto cu = colmat(U); auto keepu = cu.v; Col cz(q, n); fint fq = q; r3 = fov_reverse_(&ft, &fm, &fn, &fq, cu.v.data(), cz.v.data()); eq("fov_reverse_", rr, colmat(Z).v, r3, cz.v); unchanged("fov_reverse_", cu.v, keepu); }
          else if (m == 1 && g.coin()) { Vec u1 = cut(U); r3 = reverse9(id, m, n, 0, q, u1.data(), Z2.r.data()); eq("reverse9", rr, cut(Z), r3, cut(Z2)); }
          else if (g.coin()) { r3 = reverse7(id, m, n, 0, q, U.r.data(), Z2.r.data()); eq("reverse7", rr, cut(Z), r3, cut(Z2)); }
          else { r3 = reverse8(id, m, n, q, U.r.data(), Z2.r.data()); eq("reverse8", rr, cut(Z), r3, cut(Z2)); }
          big = (q > 1) + (n > 1);
        }
      }
    } else if (kind == 1) { // one direction, any degree
      int k = g.coin() ? d + 1 : (int)g.below(d + 2);
      Mat X = rand2(n, d), Y(m, d, 1e30);
      Vec y1(m), y2(m, 1e30);
      auto fwd = [&]() { return hos_forward(id, m, n, d, k, x.data(), X.r.data(), y1.data(), Y.r.data()); };
      int r1 = d == 1 && !f ? 0 : fwd();
      long r2;
      if (f) {
        auto cx = colmat(X); auto kx = cx.v;
        Col cy(m, d);
        fint fd = d, fk = k;
        r2 = hos_forward_(&ft, &fm, &fn, &fd, &fk, x.data(), cx.v.data(), y2.data(), cy.v.data());
        eq("hos_forward_", r1, y1, r2, y2);
        eq("hos_forward_", r1, colmat(Y).v, r2, cy.v);
        unchanged("hos_forward_", cx.v, kx);
      } else {
        Mat XX(n, d + 1), YY(m, d + 1, 1e30);
        for (int i = 0; i < n; ++i) { XX.r[i][0] = x[i]; for (int j = 0; j < d; ++j) XX.r[i][j + 1] = X.r[i][j]; }
        Vec kx = XX.d;
        if (d == 1) { Vec xp(n), yp(m); for (int i = 0; i < n; ++i) xp[i] = X.r[i][0]; r1 = fos_forward(id, m, n, k, x.data(), xp.data(), y1.data(), yp.data()); for (int j = 0; j < m; ++j) Y.r[j][0] = yp[j]; }
        bool two = m == 1 && g.coin();
        if (two) r2 = forward2(id, m, n, d, k, XX.r.data(), YY.r[0]);
        else r2 = forward1(id, m, n, d, k, XX.r.data(), YY.r.data());
        Vec a, b;
        for (int j = 0; j < m; ++j) { a.push_back(y1[j]); for (int t = 0; t < d; ++t) a.push_back(Y.r[j][t]); for (int t = 0; t <= d; ++t) b.push_back(YY.r[j][t]); }
        eq(two ? "forward2" : "forward1", r1, a, r2, b);
        unchanged("forward", XX.d, kx);
      }
      big = (d > 1) + (n > 1);
      if (k == d + 1) {
        if (d == 1 && !f) fwd();
        // reverse sweeps from the coefficients kept by the last forward sweep
        fint fd = d, fq = q;
        int w = g.pick({2, 2, 2, 2});
        Vec u = reals(g, m);
        if (w == 0) {
          Mat Z(n, d + 1), Z2(n, d + 1, 1e30);
          int rr = hos_reverse(id, m, n, d, u.data(), Z.r.data());
          if (f) { Col cz(n, d + 1); long r3 = hos_reverse_(&ft, &fm, &fn, &fd, u.data(), cz.v.data()); eq("hos_reverse_", rr, colmat(Z).v, r3, cz.v); }
          else { long r3 = m == 1 && g.coin() ? reverse2(id, m, n, d, u[0], Z2.r.data()) : reverse1(id, m, n, d, u.data(), Z2.r.data()); eq("reverse1/2", rr, cut(Z), r3, cut(Z2)); }
        } else if (w == 1) {
          Mat U = rand2(m, d + 1), Z(n, d + 1);
          int rr = hos_ti_reverse(id, m, n, d, U.r.data(), Z.r.data());
          auto cu = colmat(U);
          Col cz(n, d + 1);
          long r3 = hos_ti_reverse_(&ft, &fm, &fn, &fd, cu.v.data(), cz.v.data());
          eq("hos_ti_reverse_", rr, colmat(Z).v, r3, cz.v);
        } else {
          Ten Z(q, n, d + 1), Z2(q, n, d + 1, 1e30);
          auto flat = [&](Ten &T, int A, int B, int D) { Col k(A, B, D); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int t = 0; t < D; ++t) k.at(i, j, t) = T.p()[i][j][t]; return k; };
          if (w == 2) {
            Mat U = rand2(q, m);
            if (f) {
              int rr = hov_reverse(id, m, n, d, q, U.r.data(), Z.p(), nullptr);
              auto cu = colmat(U);
              Col cz(q, n, d + 1);
              long r3 = hov_reverse_(&ft, &fm, &fn, &fd, &fq, cu.v.data(), cz.v.data());
              eq("hov_reverse_", rr, flat(Z, q, n, d + 1).v, r3, cz.v);
            } else {
              int way = g.pick({2, 1, 1});
              int qq = way == 2 ? m : q;
              Ten A(qq, n, d + 1), B(qq, n, d + 1, 1e30);
              short **n1 = alloc_short_mat(qq, n), **n2 = alloc_short_mat(qq, n);
              for (int i = 0; i < qq; ++i) for (int j = 0; j < n; ++j) n1[i][j] = n2[i][j] = 77;
              long rr, r3;
              std::string nm;
              if (way == 2) {
                Mat I(m, m); for (int i = 0; i < m; ++i) I.r[i][i] = 1;
                rr = hov_reverse(id, m, n, d, m, I.r.data(), A.p(), n1);
                r3 = reverse10(id, m, n, d, B.p(), n2); nm = "reverse10";
              } else if (way == 1 && m == 1) { Vec u1 = cut(U); rr = hov_reverse(id, m, n, d, q, U.r.data(), A.p(), n1); r3 = reverse6(id, m, n, d, q, u1.data(), B.p(), n2); nm = "reverse6"; }
              else { rr = hov_reverse(id, m, n, d, q, U.r.data(), A.p(), n1); r3 = reverse5(id, m, n, d, q, U.r.data(), B.p(), n2); nm = "reverse5"; }
              eq(nm, rr, flat(A, qq, n, d + 1).v, r3, flat(B, qq, n, d + 1).v);
              for (int i = 0; i < qq; ++i) for (int j = 0; j < n; ++j) c.check(n1[i][j] == n2[i][j] && n2[i][j] != 77, nm, cat("nonzero code ", i, ",", j, " is ", n2[i][j], " expected ", n1[i][j]));
              free_short_mat(n1); free_short_mat(n2);
            }
          } else {
            Ten U(q, m, d + 1);
            for (int i = 0; i < q; ++i) for (int j = 0; j < m; ++j) for (int t = 0; t <= d; ++t) U.p()[i][j][t] = g.real(-1, 1);
            int rr = hov_ti_reverse(id, m, n, d, q, U.p(), Z.p(), nullptr);
            auto cu = flat(U, q, m, d + 1);
            Col cz(q, n, d + 1);
            long r3 = hov_ti_reverse_(&ft, &fm, &fn, &fd, &fq, cu.v.data(), cz.v.data());
            eq("hov_ti_reverse_", rr, flat(Z, q, n, d + 1).v, r3, cz.v);
          }
        }
      }
    } else if (kind == 2) {
      Mat X = rand2(n, p), Y(m, p), Y2(m, p, 1e30);
      Vec y1(m), y2(m, 1e30);
      int r1 = fov_forward(id, m, n, p, x.data(), X.r.data(), y1.data(), Y.r.data());
      if (f) { auto cx = colmat(X); Col cy(m, p); fint fp = p; long r2 = fov_forward_(&ft, &fm, &fn, &fp, x.data(), cx.v.data(), y2.data(), cy.v.data()); eq("fov_forward_", r1, colmat(Y).v, r2, cy.v); }
      else { long r2 = forward6(id, m, n, p, x.data(), X.r.data(), y2.data(), Y2.r.data()); eq("forward6", r1, cut(Y), r2, cut(Y2)); }
      eq("fov_forward values", 0, y1, 0, y2);
      big = (p > 1) + (n > 1);
    } else {
      Ten X(n, p, d), Y(m, p, d), Y2(m, p, d, 1e30);
      for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) for (int t = 0; t < d; ++t) X.p()[i][j][t] = g.real(-1, 1);
      Vec y1(m), y2(m, 1e30);
      int r1 = hov_forward(id, m, n, d, p, x.data(), X.p(), y1.data(), Y.p());
      Col cy(m, p, d), want(m, p, d);
      for (int i = 0; i < m; ++i) for (int j = 0; j < p; ++j) for (int t = 0; t < d; ++t) want.at(i, j, t) = Y.p()[i][j][t];
      long r2;
      if (f) {
        Col cx(n, p, d);
        for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) for (int t = 0; t < d; ++t) cx.at(i, j, t) = X.p()[i][j][t];
        fint fp = p, fd = d;
        r2 = hov_forward_(&ft, &fm, &fn, &fd, &fp, x.data(), cx.v.data(), y2.data(), cy.v.data());
      } else {
        r2 = forward5(id, m, n, d, p, x.data(), X.p(), y2.data(), Y2.p());
        for (int i = 0; i < m; ++i) for (int j = 0; j < p; ++j) for (int t = 0; t < d; ++t) cy.at(i, j, t) = Y2.p()[i][j][t];
      }
      eq(f ? "hov_forward_" : "forward5", r1, want.v, r2, cy.v);
      eq("hov_forward values", 0, y1, 0, y2);
      big = (p > 1) + (d > 1) + (n > 1);
    }
  } else if (group == 2) { // drivers
    Vec u = reals(g, m), v = reals(g, n);
    Vec u0 = u, v0 = v;
    switch (g.pick({1, 1, 1, 1, 1, 1, 2, 1})) {
    case 0: { Vec a(m), b(m, 1e30); int r = ::function(id, m, n, x.data(), a.data()); eq("function_", r, a, function_(&ft, &fm, &fn, x.data(), b.data()), b); break; }
    case 1: if (m == 1) { Vec a(n), b(n, 1e30); int r = ::gradient(id, n, x.data(), a.data()); eq("gradient_", r, a, gradient_(&ft, &fn, x.data(), b.data()), b); break; } [[fallthrough]];
    case 2: { Vec a(n), b(n, 1e30); fint rep = 0; int r = vec_jac(id, m, n, 0, x.data(), u.data(), a.data()); eq("vec_jac_", r, a, vec_jac_(&ft, &fm, &fn, &rep, x.data(), u.data(), b.data()), b);
      u = reals(g, m); u0 = u; rep = 1; r = vec_jac(id, m, n, 1, x.data(), u.data(), a.data()); eq("vec_jac_ repeat", r, a, vec_jac_(&ft, &fm, &fn, &rep, x.data(), u.data(), b.data()), b); break; }
    case 3: { Mat J(m, n); Col k(m, n); int r = jacobian(id, m, n, x.data(), J.r.data()); eq("jacobian_", r, colmat(J).v, jacobian_(&ft, &fm, &fn, x.data(), k.v.data()), k.v); big = (m > 1) + (n > 1); break; }
    case 4: { Vec a(m), b(m, 1e30); int r = jac_vec(id, m, n, x.data(), v.data(), a.data()); eq("jac_vec_", r, a, jac_vec_(&ft, &fm, &fn, x.data(), v.data(), b.data()), b); break; }
    case 5: if (m == 1) { Vec a(n), b(n, 1e30); int r = hess_vec(id, n, x.data(), v.data(), a.data()); eq("hess_vec_", r, a, hess_vec_(&ft, &fn, x.data(), v.data(), b.data()), b); break; } [[fallthrough]];
    case 6: if (m == 1) {
      Mat H(n, n, 5.5); Col k(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { H.r[i][j] = 10 * i + j; k.at(i, j) = 10 * i + j; }
      int r = hessian(id, n, x.data(), H.r.data());
      eq("hessian_", r, colmat(H).v, hessian_(&ft, &fn, x.data(), k.v.data()), k.v); // the upper triangle stays as it was
      big = 2 * (n > 1);
      break;
    } [[fallthrough]];
    default: { Vec a(n), b(n, 1e30); int r = lagra_hess_vec(id, m, n, x.data(), v.data(), u.data(), a.data()); eq("lagra_hess_vec_", r, a, lagra_hess_vec_(&ft, &fm, &fn, x.data(), v.data(), u.data(), b.data()), b); big = (m > 1) + (n > 1); }
    }
    unchanged("driver", u, u0); unchanged("driver", v, v0);
  } else if (group == 3) {
    int s = get_num_switches(id);
    ADOLC::AbsNormalForm A({(size_t)m, (size_t)n, (size_t)s});
    int r = ADOLC::abs_normal(id, x, A);
    Vec y(m, 1e30), z(s, 1e30), cz(s, 1e30), cy(m, 1e30);
    Col J(m, s), Y(m, n), Z(s, n), L(s, s);
    fint fs = s;
    long r2 = abs_normal_(&ft, &fm, &fn, &fs, x.data(), y.data(), z.data(), cz.data(), cy.data(), J.v.data(), Y.v.data(), Z.v.data(), L.v.data());
    eq("abs_normal_", r, Vec(A.y.data(), A.y.data() + m), r2, y);
    eq("abs_normal_ z", 0, Vec(A.z.data(), A.z.data() + s), 0, z);
    eq("abs_normal_ cz", 0, Vec(A.cz.data(), A.cz.data() + s), 0, cz);
    eq("abs_normal_ cy", 0, Vec(A.cy.data(), A.cy.data() + m), 0, cy);
    auto mat = [&](const char *nm, double **M, Col &k) { Col w(k.a, k.b); for (int i = 0; i < k.a; ++i) for (int j = 0; j < k.b; ++j) w.at(i, j) = M[i][j]; eq(nm, 0, w.v, 0, k.v); };
    mat("abs_normal_ J", A.J.data(), J); mat("abs_normal_ Y", A.Y.data(), Y); mat("abs_normal_ Z", A.Z.data(), Z); mat("abs_normal_ L", A.L.data(), L);
    big = (s > 1) + (n > 1);
  } else if (group == 4) { // Taylor series of x' = f(x)
    int dol = g.coin() ? 0 : (int)g.below(d);
    double tau = g.real(0.3, 1.5);
    Mat Y(n, d + 1, 0);
    for (int i = 0; i < n; ++i) Y.r[i][0] = x[i];
    if (dol) forodec(id, n, tau, 0, dol, Y.r.data());
    Col k(n, d + 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= dol; ++j) k.at(i, j) = Y.r[i][j];
    int r = forodec(id, n, tau, dol, d, Y.r.data());
    fint fdol = dol, fdeg = d;
    double t = tau;
    long r2 = forodec_(&ft, &fn, &t, &fdol, &fdeg, k.v.data());
    eq("forodec_", r, colmat(Y).v, r2, k.v);
    big = (d > 1) + (n > 1);
  } else {
    double tau = g.real(0.3, 1.5);
    Ten A(n, n, d + 1), B(n, n, d + 1);
    Col a(n, n, d + 1), b(n, n, d + 1), want(n, n, d + 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int t = 0; t <= d; ++t) a.at(i, j, t) = A.p()[i][j][t] = g.real(-1, 1);
    Vec ka = a.v;
    accodec(n, tau, d, A.p(), B.p(), nullptr);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int t = 0; t <= d; ++t) want.at(i, j, t) = B.p()[i][j][t];
    fint fd = d;
    long r = accodec_(&fn, &tau, &fd, a.v.data(), b.v.data());
    eq("accodec_", 1, want.v, r, b.v);
    unchanged("accodec_", a.v, ka);
    big = (d > 1) + (n > 1);
  }
  unchanged("wrapper", x, x0);
  if (g.chance(1, 6)) { // element access helpers
    int A = g.range(1, 4), B = g.range(1, 4), C = g.range(1, 4);
    Ten T(A, B, C);
    Mat M(A, B);
    Vec v(A);
    int i = (int)g.below(A), j = (int)g.below(B), k = (int)g.below(C);
    setindex_tens(T.p(), 3.5, i, j, k); setindex_mat(M.r.data(), 2.5, i, j); setindex_vec(v.data(), 1.5, i);
    int nz = 0;
    for (int a = 0; a < A; ++a) for (int b = 0; b < B; ++b) for (int e = 0; e < C; ++e) nz += T.p()[a][b][e] != 0;
    c.check(nz == 1 && T.p()[i][j][k] == 3.5 && getindex_tens((const double ***)T.p(), i, j, k) == 3.5 && getindex_ten((const double ***)T.p(), i)[j][k] == 3.5, "array-handler", "tensor access");
    c.check(M.r[i][j] == 2.5 && getindex_mat((const double **)M.r.data(), i, j) == 2.5 && v[i] == 1.5 && getindex_vec(v.data(), i) == 1.5, "array-handler", "matrix access");
  }
  if (big >= 2) c.interesting();
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  flip = (unsigned)g.below(4);
  switch (g.pick({4, 3, 6, 1})) { case 0: taped(g, c); break; case 1: traceless(g, c); break; case 2: wrappers(g, c); break; default: compare(g, c); }
}
