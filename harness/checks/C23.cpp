// Traceless forward types: values, directional derivatives, Taylor coefficients and index domains.
#include "evals.hpp"
#include "dep.hpp"
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
#include <adolc/adtl_indo.h>
#include <adolc/sparse/sparsedrivers.h>
#include <memory>
#include <algorithm>
#include <set>
#include <sstream>
using namespace refd;
const CheckInfo CHECK{"C23",
  "a case evaluates a random program (all operations: arithmetic, compound and increment forms, elementary functions, powers, minima and maxima, conditional assignments, ldexp, aliasing) with adtl::adouble for 1-7 directions, with adtl_hov::adouble for "
  "degrees 1-5 and 1-4 directions (operations supported there), or with adtl_indo::adouble for index domains and the traceless sparse Jacobian driver (first and repeated calls), or single operations at ties, kinks, axes and zero bases, "
  "or comparison, conditional assignment, stream, accessor and self-assignment histories; oracle: exact truncated power series arithmetic, structural dependencies, the exact Jacobian; "
  "non-trivial: a program with at least 2 nonlinear operations and a nonzero derivative compared, or a special point, or an operator history with at least 4 comparisons",
  80000, 1500000, 40, 600, {"programs stay 0.02 away from kinks and domain boundaries except for the single operations at special points; derivatives of uninitialised variables are not read; higher-order operations documented as not implemented are not used; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }

using TL = adtl::adouble;
using TH = adtl_hov::adouble;
namespace indo = ADOLC::Sparse::adtl_indo;
using TI = indo::adouble;
namespace prog {
template <class T> struct TCond {
  static void c4(T &r, const T &c, const T &a, const T &b) { condassign(r, c, a, b); }
  static void c3(T &r, const T &c, const T &a) { condassign(r, c, a); }
  static void e4(T &r, const T &c, const T &a, const T &b) { condeqassign(r, c, a, b); }
  static void e3(T &r, const T &c, const T &a) { condeqassign(r, c, a); }
};
struct TTraits { static constexpr bool rvalue = true, vecops = false, pdoubles = false; };
template <> struct Traits<TL> : TTraits {};
template <> struct Traits<TH> : TTraits {};
template <> struct Traits<TI> : TTraits {};
template <> struct CondOps<TL> : TCond<TL> {};
template <> struct CondOps<TH> : TCond<TH> {};
template <> struct CondOps<TI> : TCond<TI> {};
} // namespace prog
namespace {
using Vec = std::vector<double>;
struct Quiet { // adtl_hov reports every access on std::cout
  std::streambuf *o = std::cout.rdbuf(nullptr);
  ~Quiet() { std::cout.rdbuf(o); std::cout.clear(); }
};
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

prog::Opts opts(Gen &g) {
  prog::Opts o;
  o.nmax = 6; o.mmax = 4; o.imax = 22; o.npts = 1; o.early = false;
  return o;
}

void report(Case &c, const char *nm, const std::string &where, const Vec &got, const Q &w) {
  Bad b = cmp(got, w);
  c.check(!b.bad, cat(nm, " differs"), [&] { return cat(where, " entry ", b.idx, " got ", cat(b.got), " want ", cat(b.want)); });
}

void first_order(Gen &g, Case &c) {
  auto o = opts(g);
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m) { c.discard(); return; }
  int p = g.range(1, g.chance(1, 12) ? 40 : 7);
  adtl::setNumDir(p);
  c.check(adtl::getNumDir() == (size_t)p, "getNumDir", "");
  const Vec &x = P.pts[0];
  std::vector<Vec> S(P.n);
  for (auto &s : S) s = reals(g, p);
  c.desc << "adtl directions=" << p << "\n" << P.str();
  int how = g.below(3);
  Vec v, dv;
  {
    std::vector<TL> X;
    for (int i = 0; i < P.n; ++i) {
      if (how == 0) X.emplace_back(x[i], S[i].data());
      else { X.emplace_back(x[i]); if (how == 1) X[i].setADValue(S[i].data()); else for (int k = 0; k < p; ++k) X[i].setADValue(k, S[i][k]); }
    }
    auto Y = prog::eval<TL>(P, X);
    for (auto &y : Y) { v.push_back(y.getValue()); for (int k = 0; k < p; ++k) { double a = y.getADValue(k); c.check(same(a, y.getADValue()[k]), "getADValue forms differ", ""); dv.push_back(a); } }
    for (int i = 0; i < P.n; ++i) { c.check(same(X[i].getValue(), x[i]), "argument value changed", ""); for (int k = 0; k < p; ++k) c.check(same(X[i].getADValue(k), S[i][k]), "argument derivative changed", ""); }
  }
  auto F = evals::fun(P, P.params);
  Q q = evals::values(F, x), J = evals::jacobian(F, x), w;
  if (!finite(q) || !finite(J)) { c.discard(); return; }
  Lin L;
  report(c, "value", "adtl", v, q);
  for (int j = 0; j < P.m; ++j) for (int k = 0; k < p; ++k) {
    long double s = 0; double e = 0;
    for (int i = 0; i < P.n; ++i) { s += J.l[j * P.n + i] * S[i][k]; e += std::fabs((double)(J.d[j * P.n + i] - J.l[j * P.n + i]) * S[i][k]); }
    w.l.push_back(s); w.d.push_back((double)s + e);
  }
  double sc = std::max(J.scale() * 2, w.scale());
  Bad b = cmp(dv, w, sc);
  c.check(!b.bad, "derivative differs", [&] { return cat("output ", b.idx / p, " direction ", b.idx % p, " got ", cat(b.got), " want ", cat(b.want)); });
  if (P.nnonlin >= 2 && J.scale() > 1e-9) c.interesting();
  c.label("adtl"); if (P.nalias) c.label("aliasing"); if (p > 1) c.label("vector mode");
}

void higher(Gen &g, Case &c) {
  auto o = opts(g);
  using namespace prog;
  o.banned_fns = {F_CBRT, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_LOG10, F_FLOOR, F_CEIL};
  o.banned_ops = {POWA, ATAN2, FMIN, FMAX};
  o.nmax = 4;
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m) { c.discard(); return; }
  int p = g.range(1, g.chance(1, 12) ? 20 : 4), d = g.range(1, g.chance(1, 12) ? 12 : 5);
  adtl_hov::setNumDir(p);
  adtl_hov::setDegree(d);
  const Vec &x = P.pts[0];
  std::vector<std::vector<Vec>> S(P.n, std::vector<Vec>(d)); // [n][d][p]
  for (auto &s : S) for (auto &r : s) r = reals(g, p, -1, 1);
  std::vector<Vec> A(P.n);
  for (auto &a : A) a = reals(g, p);
  c.desc << "adtl_hov directions=" << p << " degree=" << d << "\n" << P.str();
  Vec v, hv, av;
  {
    Quiet quiet;
    std::vector<std::optional<TH>> X(P.n); // rows are set on the final objects
    for (int i = 0; i < P.n; ++i) {
      X[i].emplace(x[i]);
      X[i]->setADValue(A[i].data());
      for (int j = 0; j < d; ++j) X[i]->setOneADValue(j, S[i][j].data());
    }
    std::vector<TH> XX;
    for (auto &q : X) XX.push_back(*q);
    auto Y = prog::eval<TH>(P, XX);
    for (auto &y : Y) {
      v.push_back(y.getValue());
      for (int k = 0; k < p; ++k) { av.push_back(y.getADValue(k)); for (int j = 0; j < d; ++j) hv.push_back(y.getOneADValue(j)[k]); }
    }
  }
  auto F = evals::fun(P, P.params);
  Q q = evals::values(F, x), J = evals::jacobian(F, x);
  if (!finite(q) || !finite(J)) { c.discard(); return; }
  report(c, "hov value", "adtl_hov", v, q);
  double top = 0;
  for (int k = 0; k < p; ++k) {
    std::vector<Vec> X(P.n, Vec(d)), D(P.n, Vec(1));
    for (int i = 0; i < P.n; ++i) { for (int j = 0; j < d; ++j) X[i][j] = S[i][j][k]; D[i][0] = A[i][k]; }
    Q t = evals::taylor(F, x, X, d), t1 = evals::taylor(F, x, D, 1);
    if (!finite(t)) { c.discard(); return; }
    for (int r = 0; r < P.m; ++r) {
      Q w, w1;
      Vec got, g1{av[r * p + k]};
      for (int j = 1; j <= d; ++j) { w.l.push_back(t.l[r * (d + 1) + j]); w.d.push_back(t.d[r * (d + 1) + j]); got.push_back(hv[(r * p + k) * d + j - 1]); }
      w1.l = {t1.l[r * 2 + 1]}; w1.d = {t1.d[r * 2 + 1]};
      Bad b = cmp(got, w, std::max(w.scale(), J.scale()));
      c.check(!b.bad, "hov coefficient differs", [&] { return cat("output ", r, " direction ", k, " order ", b.idx + 1, " got ", cat(b.got), " want ", cat(b.want)); });
      b = cmp(g1, w1, std::max(w1.scale(), J.scale()));
      c.check(!b.bad, "hov first derivative differs", [&] { return cat("output ", r, " direction ", k, " got ", cat(b.got), " want ", cat(b.want)); });
      top = std::max(top, w.scale());
    }
  }
  if (P.nnonlin >= 2 && top > 1e-9 && d >= 2) c.interesting();
  c.label("adtl_hov");
}

template <class T> struct Func : func_ad<T> {
  const prog::Program *P;
  int operator()(int n, T *x, int m, T *y) override {
    std::vector<T> X(x, x + n);
    auto Y = prog::eval<T>(*P, X);
    for (int j = 0; j < m; ++j) y[j] = Y[j];
    return 1;
  }
};
void domains(Gen &g, Case &c) {
  auto o = opts(g);
  o.nmax = 8; o.mmax = 6; o.npts = 2; o.same_branch = true; o.imax = 14; o.nonsmooth = g.chance(60, 100);
  auto P = prog::random_program(g, o);
  if (!P.n || !P.m) { c.discard(); return; }
  c.desc << "adtl_indo\n" << P.str();
  unsigned start = g.chance(70, 100) ? 0 : g.range(1, 5);
  const Vec &x = P.pts[0];
  auto lo = dep::structure(P, x, false, false), up = dep::structure(P, x, false, true);
  size_t nz = 0;
  {
    std::vector<TI> X;
    for (double xi : x) X.emplace_back(xi);
    indo::ADOLC_Init_sparse_pattern(X.data(), P.n, start);
    auto Y = prog::eval<TI>(P, X);
    std::vector<unsigned *> pat;
    indo::ADOLC_get_sparse_pattern(Y.data(), P.m, pat);
    c.check(pat.size() == (size_t)P.m, "number of index domains", "");
    Vec v;
    for (int j = 0; j < P.m; ++j) {
      v.push_back(Y[j].getValue());
      std::vector<int> got(P.n, 0);
      for (unsigned k = 1; k <= pat[j][0]; ++k) {
        unsigned i = pat[j][k] - start;
        c.check(i < (unsigned)P.n, "index outside", cat("output ", j, " index ", pat[j][k]));
        if (i < (unsigned)P.n) { c.check(!got[i], "index twice", cat("output ", j, " index ", pat[j][k])); got[i] = 1; }
        c.check(k == 1 || pat[j][k - 1] < pat[j][k], "indices not ascending", cat("output ", j));
      }
      nz += pat[j][0];
      for (int i = 0; i < P.n; ++i) {
        c.check(got[i] || !lo[j].has(i), "dependency missing", cat("output ", j, " input ", i));
        c.check(!got[i] || up[j].has(i), "dependency without cause", cat("output ", j, " input ", i));
      }
      delete[] pat[j];
    }
    Q q = evals::values(evals::fun(P, P.params), x);
    if (finite(q)) report(c, "indo value", "adtl_indo", v, q);
  }
  if (nz && P.nnonlin >= 1) c.interesting();
  c.label("adtl_indo");
  if (!nz || !g.chance(60, 100)) return;
  // traceless sparse driver
  auto F = evals::fun(P, P.params);
  Func<TL> f; Func<TI> fi;
  f.P = fi.P = &P;
  int calls = g.range(1, 3);
  for (int k = 0; k < calls; ++k) {
    Vec pt = P.pts[k % P.pts.size()];
    Q J = evals::jacobian(F, pt);
    if (!finite(J)) { c.discard(); return; }
    ADOLC::Sparse::SparseMatrix M;
    int rc = indo::ADOLC_get_sparse_jacobian(&f, &fi, P.n, P.m, k && g.chance(70, 100), pt.data(), M);
    c.check(rc >= 0, "sparse driver code", cat(rc));
    Vec d(P.n * P.m, 0.0);
    std::set<std::pair<size_t, size_t>> at;
    for (size_t e = 0; e < M.size(); ++e) {
      size_t r = M[e].rowIndex(), q = M[e].colIndex();
      c.check(r < (size_t)P.m && q < (size_t)P.n && at.insert({r, q}).second, "sparse entry outside or twice", cat(r, " ", q));
      if (r < (size_t)P.m && q < (size_t)P.n) d[r * P.n + q] = M[e].value();
    }
    report(c, "sparse Jacobian", cat("call ", k), d, J);
    c.label("traceless sparse driver"); if (k) c.label("repeated sparse driver");
  }
}

// single operations where the derivative is one-sided or a formula degenerates
void special(Gen &g, Case &c) {
  int p = g.range(1, 4);
  adtl::setNumDir(p);
  Vec sa = reals(g, p), sb = reals(g, p);
  if (g.chance(30, 100)) sa[0] = 0;
  if (g.chance(20, 100)) sb[0] = 0;
  if (g.chance(10, 100)) sb = sa;
  double x = g.oneof(Vec{0.0, 1.0, -2.5, 0.75, -0.0});
  int what = g.below(9);
  c.desc << "adtl special " << what << " at " << x << " directions " << show(sa) << " " << show(sb) << "\n";
  TL a(x, sa.data()), b(x, sb.data());
  auto is = [&](const char *nm, const TL &r, double v, auto f) {
    c.check(r.getValue() == v, cat(nm, " value"), cat(r.getValue(), " want ", v));
    for (int k = 0; k < p; ++k) { double w = f(k); c.check(std::fabs(r.getADValue(k) - w) <= 1e-13 * (1 + std::fabs(w)), cat(nm, " derivative"), [&] { return cat("direction ", k, " got ", cat(r.getADValue(k)), " want ", cat(w)); }); }
  };
  switch (what) {
  case 0: is("fmin tie", fmin(a, b), x, [&](int k) { return std::min(sa[k], sb[k]); }); break;
  case 1: is("fmax tie", fmax(a, b), x, [&](int k) { return std::max(sa[k], sb[k]); }); break;
  case 2: is("fmin tie with constant", g.coin() ? fmin(a, x) : fmin(x, a), x, [&](int k) { return std::min(sa[k], 0.0); }); break;
  case 3: is("fmax tie with constant", g.coin() ? fmax(a, x) : fmax(x, a), x, [&](int k) { return std::max(sa[k], 0.0); }); break;
  case 4: { TL z(0.0, sa.data()); is("fabs at zero", fabs(z), 0.0, [&](int k) { return std::fabs(sa[k]); }); break; }
  case 5: { // axes
    double u = g.coin() ? 0.0 : g.real(-2, 2), w = u == 0.0 ? (g.coin() ? 1.5 : -0.5) : 0.0;
    TL y(u, sa.data()), z(w, sb.data());
    is("atan2 on an axis", atan2(y, z), std::atan2(u, w), [&](int k) { return (sa[k] * w - u * sb[k]) / (u * u + w * w); });
    break;
  }
  case 6: { TL z(0.0, sa.data()); double e = g.oneof(Vec{1.0, 2.0, 3.0, 2.5}); is("power at zero", pow(z, e), 0.0, [&](int k) { return e == 1 ? sa[k] : 0.0; }); break; }
  case 7: { // plain zeros in products and quotients
    TL z(0.0, sa.data()), y(2.0, sb.data());
    is("product with zero", z * y, 0.0, [&](int k) { return 2 * sa[k]; });
    is("quotient of zero", z / y, 0.0, [&](int k) { return sa[k] / 2; });
    z *= y; is("product with zero", z, 0.0, [&](int k) { return 2 * sa[k]; });
    break;
  }
  default: { // higher order power at zero
    int d = g.range(1, 5), e = g.range(0, 4), ph = g.range(1, 3);
    adtl_hov::setNumDir(ph); adtl_hov::setDegree(d);
    Quiet quiet;
    std::vector<Vec> S(d);
    for (auto &r : S) r = reals(g, ph, -1, 1);
    TH z(0.0);
    for (int j = 0; j < d; ++j) z.setOneADValue(j, S[j].data());
    TH y(pow(z, (double)e));
    c.desc << "hov pow exponent " << e << " degree " << d << "\n";
    c.check(y.getValue() == (e ? 0.0 : 1.0), "hov power at zero value", cat(y.getValue()));
    for (int k = 0; k < ph; ++k) {
      Vec w(d + 1, 0.0); w[0] = 1;
      for (int q = 0; q < e; ++q) { Vec n(d + 1, 0.0); for (int i = 0; i <= d; ++i) for (int j = 1; i + j <= d; ++j) n[i + j] += w[i] * S[j - 1][k]; w = n; }
      for (int j = 1; j <= d; ++j) c.check(std::fabs(y.getOneADValue(j - 1)[k] - w[j]) <= 1e-12 * (1 + std::fabs(w[j])), "hov power at zero", [&] { return cat("order ", j, " got ", cat(y.getOneADValue(j - 1)[k]), " want ", cat(w[j])); });
    }
  }
  }
  c.interesting(); c.label("special point");
}

template <class T> T make(double v, const Vec &) { return T(v); }
template <class T> bool eqd(Case &, const T &, const Vec &) { return true; }
template <> TL make<TL>(double v, const Vec &d) { return TL(v, d.data()); }
template <> TH make<TH>(double v, const Vec &d) { TH t(v); t.setADValue(d.data()); return t; }
template <class T> bool holds(const T &t, const Vec &d) {
  if constexpr (!std::is_same_v<T, TI>) for (size_t k = 0; k < d.size(); ++k) if (!(std::fabs(t.getADValue(k) - d[k]) <= 1e-12 * (1 + std::fabs(d[k])))) return false;
  return true;
}
// comparisons, accessors, streams and self-assignment
template <class T> void operators(Gen &g, Case &c, const char *nm) {
  int p = g.range(1, 4);
  if constexpr (std::is_same_v<T, TL>) adtl::setNumDir(p);
  if constexpr (std::is_same_v<T, TH>) { adtl_hov::setNumDir(p); adtl_hov::setDegree(g.range(1, 3)); }
  Vec vals{0.0, 1.0, -1.5, 2.25, g.real(-3, 3), 1e-300, -1e300};
  double x = g.oneof(vals), y = g.chance(30, 100) ? x : g.oneof(vals);
  Vec dx = reals(g, p), dy = reals(g, p);
  c.desc << nm << " operators x=" << x << " y=" << y << " directions " << show(dx) << " " << show(dy) << "\n";
  T a = make<T>(x, dx), b = make<T>(y, dy);
#define REL(op) \
  c.check((bool)(a op b) == (x op y), cat(nm, " comparison " #op), "two variables"); \
  c.check((bool)(a op y) == (x op y), cat(nm, " comparison " #op), "variable and constant"); \
  c.check((bool)(x op b) == (x op y), cat(nm, " comparison " #op), "constant and variable");
  REL(<) REL(>) REL(<=) REL(>=) REL(==) REL(!=)
#undef REL
  c.check((bool)!a == (x == 0.0), cat(nm, " operator !"), cat(x));
  c.check((double)static_cast<const T &>(a).getValue() == x, cat(nm, " getValue"), "");
  int ex = 0, ey = 0;
  double fr = frexp(a, &ex), fy = std::frexp(x, &ey);
  c.check(fr == fy && ex == ey, cat(nm, " frexp"), cat(fr, " ", ex));
  T keep(a);
  for (int k = g.range(1, 4); k > 0; --k) switch (g.below(8)) {
    case 0: a = *&a; break;
    case 1: a.setValue(x = g.oneof(vals)); break;
    case 2: { T t; t = a; a = t; break; }
    case 3: { T t(a); a = std::move(t); break; }
    case 4: { double k0 = g.real(-2, 2); a += k0; x += k0; break; }
    case 5: { double k0 = g.oneof(Vec{2.0, -0.5}); a *= k0; x *= k0; for (auto &q : dx) q *= k0; break; }
    case 6: { T &r = (a = b); c.check(&r == &a, cat(nm, " assignment result"), ""); x = y; dx = dy; break; }
    case 7: a = x; for (auto &q : dx) q = 0; break;
  }
  c.check(same(a.getValue(), x) && holds(a, dx), cat(nm, " after assignments"), [&] { return cat("value ", cat(a.getValue()), " want ", cat(x)); });
  if (std::fabs(x) < 1e100 && std::fabs(x) > 1e-100) {
    T s(a); s += s; c.check(s.getValue() == x + x, cat(nm, " x += x"), ""); Vec d2 = dx; for (auto &q : d2) q *= 2; c.check(holds(s, d2), cat(nm, " x += x derivative"), "");
    s = a; s *= s; d2 = dx; for (auto &q : d2) q *= 2 * x; c.check(s.getValue() == x * x && holds(s, d2), cat(nm, " x *= x"), "");
    s = a; s -= s; d2.assign(p, 0.0); c.check(s.getValue() == 0 && holds(s, d2), cat(nm, " x -= x"), "");
    s = a; s /= s; c.check(s.getValue() == 1 && holds(s, d2), cat(nm, " x /= x"), "");
    s = a; T t(s++); c.check(t.getValue() == x && s.getValue() == x + 1 && holds(t, dx) && holds(s, dx), cat(nm, " x++"), "");
    s = a; t = --s; c.check(t.getValue() == x - 1 && s.getValue() == x - 1 && holds(t, dx) && holds(s, dx), cat(nm, " --x"), "");
    c.check(same(keep.getValue(), keep.getValue()), "copy", "");
  }
  { // conditional assignments, at the boundary too
    double cv = g.oneof(Vec{0.0, 0.0, -0.0, 1e-300, -1e-300, 5e-324, -5e-324, g.real(-2, 2)});
    Vec da = reals(g, p), db = reals(g, p), dr = reals(g, p), dc = reals(g, p);
    int form = g.below(4);
    T r = make<T>(0.25, dr), u = make<T>(3.5, da), v = make<T>(-1.25, db), q = make<T>(cv, dc);
    const T &uu = g.chance(15, 100) ? r : u;
    double uv = &uu == &r ? 0.25 : 3.5;
    Vec du = &uu == &r ? dr : da;
    c.desc << " cond=" << cv << " form " << form << "\n";
    switch (form) {
    case 0: condassign(r, q, uu, v); c.check(r.getValue() == (cv > 0 ? uv : -1.25) && holds(r, cv > 0 ? du : db), cat(nm, " condassign"), cat(cv)); break;
    case 1: condassign(r, q, uu); c.check(r.getValue() == (cv > 0 ? uv : 0.25) && holds(r, cv > 0 ? du : dr), cat(nm, " condassign without else"), cat(cv)); break;
    case 2: condeqassign(r, q, uu, v); c.check(r.getValue() == (cv >= 0 ? uv : -1.25) && holds(r, cv >= 0 ? du : db), cat(nm, " condeqassign"), cat(cv)); break;
    default: condeqassign(r, q, uu); c.check(r.getValue() == (cv >= 0 ? uv : 0.25) && holds(r, cv >= 0 ? du : dr), cat(nm, " condeqassign without else"), cat(cv));
    }
    c.check(same(q.getValue(), cv) && holds(q, dc), cat(nm, " condition changed"), "");
  }
  // the written form is read back
  std::stringstream st;
  st.precision(17);
  st << a;
  T r = make<T>(0.5, dy);
  st >> r;
  c.check(!st.fail() && same(r.getValue(), a.getValue()) && holds(r, dx), cat(nm, " stream round trip"), [&] { return cat("wrote ", st.str(), " read ", cat(r.getValue())); });
  if constexpr (!std::is_same_v<T, TI>) {
    bool thrown = false;
    FILE *f = stderr; (void)f;
    try { a.getADValue(p); } catch (const std::logic_error &) { thrown = true; }
    c.check(thrown, cat(nm, " out of range derivative accepted"), "");
  } else { // index domains survive assignments
    std::vector<TI> v{TI(1.0), TI(2.0), TI(3.0)};
    indo::ADOLC_Init_sparse_pattern(v.data(), 3, 0);
    TI t = v[0] * v[2];
    std::vector<int> want{0, 2};
    for (int k = g.range(1, 4); k > 0; --k) switch (g.below(9)) {
      case 0: t = *&t; c.desc << " t=t"; break;
      case 1: t += t; c.desc << " t+=t"; break;
      case 2: t += v[1]; if (!std::count(want.begin(), want.end(), 1)) { want.push_back(1); std::sort(want.begin(), want.end()); } c.desc << " t+=v1"; break;
      case 3: { TI u(t); t = u; c.desc << " copy"; break; }
      case 4: t *= t; c.desc << " t*=t"; break;
      case 5: t = t - v[2]; if (want.empty() || want.back() != 2) want.push_back(2); c.desc << " t=t-v2"; break;
      case 6: t = v[1]; want = {1}; c.desc << " t=v1"; break;
      case 7: t++; ++t; c.desc << " ++"; break;
      case 8: if (g.chance(30, 100)) { t = 4.0; want.clear(); c.desc << " t=const"; } break;
    }
    std::vector<unsigned *> pat;
    indo::ADOLC_get_sparse_pattern(&t, 1, pat);
    std::vector<int> got;
    for (unsigned k = 1; k <= pat[0][0]; ++k) got.push_back(pat[0][k]);
    delete[] pat[0];
    c.check(got == want, "index domain after assignments", [&] { return cat("got ", got.size(), " want ", want.size()); });
  }
  c.interesting(); c.label(cat("operators ", nm));
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  switch (g.pick({8, 6, 5, 3, 1, 1, 1})) {
  case 0: first_order(g, c); break;
  case 1: higher(g, c); break;
  case 2: domains(g, c); break;
  case 3: special(g, c); break;
  case 4: operators<TL>(g, c, "adtl"); break;
  case 5: operators<TH>(g, c, "adtl_hov"); break;
  default: operators<TI>(g, c, "adtl_indo");
  }
}
