// Special points: kinks, ties, zero bases of powers, boundary points of domains.
#include "evals.hpp"
#include <adolc/adolcerror.h>
using taping::Mat;
using taping::Ten;
using refd::show;
const CheckInfo CHECK{"C27",
  "a case is (a) a random piecewise polynomial program over small integers (sums, products, fabs, fmin, fmax of variables, temporaries, constants and own arguments, so that values and Taylor coefficients tie exactly) followed by smooth functions: "
  "every forward sweep must give the unique one-sided Taylor expansion and first-order reverse sweeps the documented convention (fabs: 0, fmin/fmax: one half each); (b) a random smooth program around quantities that are exactly 0, 1 or -1 at the point: "
  "powers with integer exponents (also 0 and 1) or exponents above the degree asked for, and functions at their neutral points, all sweeps and drivers against exact derivatives; (c) boundary points of sqrt, cbrt, pow, asin, acos, acosh, atanh, log: "
  "documented slopes in forward sweeps, and only 0, infinite or NaN beyond; non-trivial: a tie, zero or boundary was really met and a sweep ran there",
  30000, 500000, 24, 600, {"higher-order reverse sweeps at kinks are not compared (no documented meaning)", "coefficients beyond the first infinite one may be 0, infinite or NaN", "kinks and ties occur only on exactly representable values"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
thread_local bool reverse_mode = false;
thread_local long kinks = 0;
// scalar operations with the conventions under test
template <class R> int lex(const ref::Alg<R> &a) {
  if (a.c[0] == 0) ++kinks;
  for (size_t k = 0; k < (reverse_mode ? 1 : a.c.size()); ++k) if (a.c[k] != 0) return a.c[k] < 0 ? -1 : 1;
  return 0;
}
template <class R> ref::Alg<R> kabs(const ref::Alg<R> &a) { int s = lex(a); return s < 0 ? -a : s > 0 ? a : ref::Alg<R>(0.0); }
template <class R> ref::Alg<R> kmin(const ref::Alg<R> &a, const ref::Alg<R> &b) {
  int s = lex(a - b);
  if (s < 0) return a;
  if (s > 0) return b;
  if (!reverse_mode) return a;
  ref::Alg<R> r = (a + b) * ref::Alg<R>(0.5);
  r.c[0] = a.c[0];
  return r;
}
template <class R> ref::Alg<R> kmax(const ref::Alg<R> &a, const ref::Alg<R> &b) { return -kmin(-a, -b); }
adouble kabs(const adouble &a) { return fabs(a); }
adouble kmin(const adouble &a, const adouble &b) { return fmin(a, b); }
adouble kmax(const adouble &a, const adouble &b) { return fmax(a, b); }
double kabs(double a) { return std::fabs(a); }
double kmin(double a, double b) { return std::min(a, b); }
double kmax(double a, double b) { return std::max(a, b); }

enum { ADD, SUB, MUL, SCALE, SHIFT, ABS, MIN, MAX, MINC, MAXC, ABSIN, MININ, MAXIN, ADDIN, SUBIN, COPY, MAXTMP, NK };
struct Op { int k, r, a, b; double v; };
struct OutOp { int k, a, b; double v; };
struct Kink { int n, slots; std::vector<Op> ops; std::vector<OutOp> outs; };
template <class T> std::vector<T> run(const Kink &K, const std::vector<T> &x) {
  std::vector<T> s;
  for (auto &e : x) s.push_back(e);
  for (int i = K.n; i < K.slots; ++i) s.push_back(T(0.0));
  for (auto &o : K.ops) {
    T &r = s[o.r];
    const T &a = s[o.a], &b = s[o.b];
    switch (o.k) {
    case ADD: r = a + b; break;
    case SUB: r = a - b; break;
    case MUL: r = a * b; break;
    case SCALE: r = a * T(o.v); break;
    case SHIFT: r = a + T(o.v); break;
    case ABS: r = kabs(a); break;
    case MIN: r = kmin(a, b); break;
    case MAX: r = kmax(a, b); break;
    case MINC: r = o.b & 1 ? kmin(a, T(o.v)) : kmin(T(o.v), a); break;
    case MAXC: r = o.b & 1 ? kmax(a, T(o.v)) : kmax(T(o.v), a); break;
    case ABSIN: r = kabs(r); break;
    case MININ: r = kmin(r, a); break;
    case MAXIN: r = kmax(a, r); break;
    case ADDIN: r = r + a; break;
    case SUBIN: r = r - a; break;
    case MAXTMP: r = kmax(a - b, b - a); break;
    default: r = a;
    }
  }
  std::vector<T> y;
  for (auto &o : K.outs) {
    const T &a = s[o.a], &b = s[o.b];
    switch (o.k) {
    case 0: y.push_back(T(a) + T(0.0)); break;
    case 1: y.push_back(sin(a) * b); break;
    case 2: y.push_back(exp(a * T(o.v)) + b); break;
    case 3: y.push_back(a * b - a); break;
    default: y.push_back(cos(a * T(0.5)) * kabs(b)); break;
    }
  }
  return y;
}
std::string show_kink(const Kink &K) {
  std::ostringstream o;
  static const char *nm[] = {"add", "sub", "mul", "scale", "shift", "abs", "min", "max", "minc", "maxc", "absin", "minin", "maxin", "addin", "subin", "copy", "maxtmp"};
  for (auto &p : K.ops) o << " s" << p.r << "=" << nm[p.k] << "(s" << p.a << ",s" << p.b << "," << p.v << ")";
  for (auto &p : K.outs) o << " out" << p.k << "(s" << p.a << ",s" << p.b << "," << p.v << ")";
  return o.str();
}
struct Rec { // records T-generic body
  template <class B> static void go(short id, const Vec &x, int m, B body) {
    setCurrentTape(id);
    trace_on(id);
    {
      std::vector<adouble> X(x.size());
      for (size_t i = 0; i < x.size(); ++i) X[i] <<= x[i];
      auto Y = body(X);
      double d;
      for (auto &y : Y) y >>= d;
    }
    trace_off();
  }
};
void kink_case(Case &c) {
  Gen &g = c.g;
  Kink K;
  K.n = g.range(1, 4);
  K.slots = K.n + g.range(1, 3);
  int len = g.range(1, 9), muls = 0;
  for (int i = 0; i < len; ++i) {
    Op o;
    o.k = (int)g.below(NK);
    if (o.k == MUL && ++muls > 3) o.k = ABS;
    o.r = (int)g.below(K.slots); o.a = (int)g.below(K.slots); o.b = (int)g.below(K.slots);
    o.v = g.range(-2, 2);
    K.ops.push_back(o);
  }
  int m = g.range(1, 3);
  for (int j = 0; j < m; ++j) K.outs.push_back({(int)g.below(5), (int)g.below(K.slots), (int)g.below(K.slots), 0.25 * g.range(-2, 2)});
  auto ipt = [&] { Vec x(K.n); for (auto &e : x) e = g.range(-2, 2); return x; };
  short id = createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  setCurrentTape(id);
  bool viaabs = g.chance(1, 4);
  if (viaabs) currentTape().enableMinMaxUsingAbs();
  c.desc << "kink program n=" << K.n << " slots=" << K.slots << (viaabs ? " min/max through abs" : "") << show_kink(K) << "\n";
  Vec x0 = ipt();
  Rec::go(id, x0, m, [&](auto &X) { return run(K, std::vector<adouble>(X)); });
  if (viaabs) findTape(id).disableMinMaxUsingAbs();
  auto F = evals::fun(K.n, m, [&](const auto &x) { return run(K, x); });
  int n = K.n, rounds = g.range(1, 4);
  c.desc << "recorded at " << show(x0) << "\n";
  for (int r = 0; r < rounds; ++r) {
    Vec x = g.coin() ? x0 : ipt();
    auto dir = [&] { double v = g.chance(2, 5) ? 0 : g.range(-2, 2); return v; };
    Vec y(m, 1e30);
    kinks = 0;
    reverse_mode = false;
    int how = (int)g.below(8), rc = 0;
    auto cmp = [&](const char *nm, const std::string &at, const Vec &got, const refd::Q &q) {
      if (auto b = refd::cmp(got, q, q.scale()); b.bad) c.check(false, cat("kink-", nm, viaabs ? "-viaabs" : ""), cat(nm, " at ", show(x), " ", at, " entry ", b.idx, " is ", b.got, " expected ", b.want, "; all: ", show(got)));
      else c.check(true, "", "");
    };
    auto taylor = [&](const std::vector<Vec> &X, int d) { return evals::taylor(F, x, X, d); };
    switch (how) {
    case 0: { // fos_forward
      std::vector<Vec> X(n, Vec(1)); Vec X1(n), Y1(m, 1e30), got;
      for (int i = 0; i < n; ++i) X1[i] = X[i][0] = dir();
      rc = fos_forward(id, m, n, (int)g.below(3), x.data(), X1.data(), y.data(), Y1.data());
      for (int j = 0; j < m; ++j) { got.push_back(y[j]); got.push_back(Y1[j]); }
      cmp("fos_forward", show(X1), got, taylor(X, 1));
      break;
    }
    case 1: { // fov_forward
      int p = g.range(1, 3);
      Mat X(n, p), Y(m, p, 1e30);
      for (auto &v : X.d) v = dir();
      rc = fov_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p());
      for (int k = 0; k < p; ++k) {
        std::vector<Vec> C(n, Vec(1)); Vec got;
        for (int i = 0; i < n; ++i) C[i][0] = X[i][k];
        for (int j = 0; j < m; ++j) { got.push_back(y[j]); got.push_back(Y[j][k]); }
        cmp("fov_forward", cat("X=", show(X.d), " direction ", k), got, taylor(C, 1));
      }
      break;
    }
    case 2: case 3: { // hos_forward
      int d = g.range(1, 4);
      Mat X(n, d), Y(m, d, 1e30);
      for (auto &v : X.d) v = dir();
      rc = hos_forward(id, m, n, d, (int)g.below(d + 2), x.data(), X.p(), y.data(), Y.p());
      std::vector<Vec> C(n); Vec got;
      for (int i = 0; i < n; ++i) C[i] = Vec(X[i], X[i] + d);
      for (int j = 0; j < m; ++j) { got.push_back(y[j]); for (int k = 0; k < d; ++k) got.push_back(Y[j][k]); }
      cmp("hos_forward", cat("X=", show(X.d)), got, taylor(C, d));
      break;
    }
    case 4: case 5: { // hov_forward, hov_wk_forward
      int d = g.range(1, 3), p = g.range(1, 3);
      Ten X(n, p, d), Y(m, p, d, 1e30);
      for (auto &v : X.d) v = dir();
      rc = how == 4 ? hov_forward(id, m, n, d, p, x.data(), X.p(), y.data(), Y.p()) : hov_wk_forward(id, m, n, d, (int)g.below(d + 2), p, x.data(), X.p(), y.data(), Y.p());
      for (int k = 0; k < p; ++k) {
        std::vector<Vec> C(n); Vec got;
        for (int i = 0; i < n; ++i) C[i] = Vec(X[i][k], X[i][k] + d);
        for (int j = 0; j < m; ++j) { got.push_back(y[j]); for (int q = 0; q < d; ++q) got.push_back(Y[j][k][q]); }
        cmp(how == 4 ? "hov_forward" : "hov_wk_forward", cat("X=", show(X.d), " direction ", k), got, taylor(C, d));
      }
      break;
    }
    default: { // first-order reverse
      int p = g.range(1, 3);
      Mat U(p, m), Z(p, n, 1e30);
      for (auto &v : U.d) v = g.real(-1.5, 1.5);
      if (g.coin()) { Vec X1(n), Y1(m); for (auto &v : X1) v = dir(); rc = fos_forward(id, m, n, 1, x.data(), X1.data(), y.data(), Y1.data()); }
      else rc = zos_forward(id, m, n, 1, x.data(), y.data());
      int rv = how == 6 ? fos_reverse(id, m, n, U[0], Z[0]) : fov_reverse(id, m, n, p, U.p(), Z.p());
      reverse_mode = true;
      auto J = evals::jacobian(F, x);
      long met = kinks;
      reverse_mode = false;
      for (int k = 0; k < (how == 6 ? 1 : p); ++k) {
        refd::Lin L;
        for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> t; for (int j = 0; j < m; ++j) t.push_back({(size_t)(j * n + i), U[k][j]}); L.add(J, t); }
        cmp(how == 6 ? "fos_reverse" : "fov_reverse", cat("U=", show(U.d)), Vec(Z[k], Z[k] + n), L.q);
      }
      kinks = met;
      rc = std::min(rc, rv);
    }
    }
    c.check(rc >= -1 && rc <= 3, "kink-code", cat("code ", rc));
    c.label(cat("kink sweep ", how, kinks ? "" : " (no tie)"));
    if (kinks) c.nontrivial = true;
  }
  reverse_mode = false;
}

// --- smooth functions at special values
struct Node { int f; double e; bool self; int src; };
struct Smooth { int n; std::vector<std::array<int, 3>> base; std::vector<Node> nodes; std::vector<std::array<int, 4>> outs; };
template <class T> T power(const T &z, double e) { return pow(z, e); }
template <class R> ref::Alg<R> power(const ref::Alg<R> &z, double e) {
  if (e == 0) return ref::Alg<R>(1.0);
  if (e == std::floor(e)) { ref::Alg<R> r = z; for (int k = 1; k < (int)e; ++k) r = r * z; return r; }
  if (z.c[0] == 0) { // all coefficients up to the order asked for are known to vanish
    // z^e = z^floor(e) * z^frac, and every derivative below e vanishes
    return ref::Alg<R>(0.0);
  }
  return pow(z, e);
}
template <class T> std::vector<T> run(const Smooth &S, const std::vector<T> &x) {
  std::vector<T> z;
  for (auto &b : S.base) {
    const T &p = x[b[1]], &q = x[b[2]];
    switch (b[0]) {
    case 0: z.push_back(p + T(0.0)); break;
    case 1: z.push_back(p - q); break;
    case 2: z.push_back(p * q); break;
    case 3: z.push_back(p * p - q); break;
    case 4: z.push_back(T(2.0) * p - q * q); break;
    default: z.push_back(p + q); break;
    }
  }
  for (auto &o : S.nodes) {
    T a = z[o.src], r = a;
    switch (o.f) {
    case 0: if (o.self) { r = a; r = power(r, o.e); } else r = power(a, o.e); break;
    case 1: r = sin(a); break;
    case 2: r = tan(a); break;
    case 3: r = atan(a); break;
    case 4: r = asin(a); break;
    case 5: r = asinh(a); break;
    case 6: r = atanh(a); break;
    case 7: r = erf(a); break;
    case 8: r = log(a + T(1.0)); break;
    case 9: r = sqrt(a + T(1.0)); break;
    case 10: r = exp(a) - T(1.0); break;
    case 11: r = a / (a + T(1.0)); break;
    case 12: r = tanh(a); break;
    case 13: r = sinh(a); break;
    case 14: r = cosh(a) - T(1.0); break;
    case 15: r = acos(a); break;
    case 16: if (o.self) { r = r * r; } else r = a * a; break;
    case 17: r = T(1.0) / (T(1.0) + a); break;
    case 18: r = log10(a + T(1.0)); break;
    case 19: r = pow(T(1.0) + a, o.e); break;
    default: r = power(a, o.e) * a; break;
    }
    z.push_back(r);
  }
  std::vector<T> y;
  for (auto &o : S.outs) {
    const T &a = z[o[1] % z.size()], &b = z[o[2] % z.size()], &q = x[o[3]];
    switch (o[0]) {
    case 0: y.push_back(a + b * q); break;
    case 1: y.push_back(sin(a + q) * b); break;
    case 2: y.push_back(a * b + q * q); break;
    default: y.push_back(exp(T(0.3) * a) * q + b); break;
    }
  }
  return y;
}
void smooth_case(Case &c) {
  Gen &g = c.g;
  Smooth S;
  S.n = g.range(1, 4);
  int nb = g.range(1, 2), nn = g.range(1, 4), m = g.range(1, 2);
  Vec x(S.n);
  for (auto &e : x) e = g.chance(1, 2) ? 0.0 : g.range(-2, 2);
  std::vector<double> bv;
  for (int i = 0; i < nb; ++i) {
    int k = (int)g.below(6), p = (int)g.below(S.n), q = (int)g.below(S.n);
    S.base.push_back({k, p, q});
    double v = k == 0 ? x[p] : k == 1 ? x[p] - x[q] : k == 2 ? x[p] * x[q] : k == 3 ? x[p] * x[p] - x[q] : k == 4 ? 2 * x[p] - x[q] * x[q] : x[p] + x[q];
    if (v != 0) { S.base.back() = {1, p, p}; v = 0; if (g.chance(3, 4)) { x[p] = 0; for (auto &b : S.base) b = {0, p, p}; } }
    bv.push_back(0);
  }
  int frac = g.chance(1, 3) ? g.range(1, 4) : 0; // largest order that may be asked for
  // all nodes with value 0 can be arguments again
  std::vector<int> zero;
  for (int i = 0; i < nb; ++i) zero.push_back(i);
  for (int i = 0; i < nn; ++i) {
    Node o;
    o.f = g.chance(1, 2) ? 0 : (int)g.below(21);
    o.self = g.coin();
    o.src = g.oneof(zero);
    o.e = frac && g.coin() ? frac + g.oneof(std::vector<double>{0.25, 0.5, 1.5}) : (double)g.range(0, 6);
    if (o.f == 19) o.e = g.oneof(std::vector<double>{-1, 0, 0.5, 1, 2, 2.5, 3});
    S.nodes.push_back(o);
    bool one = ((o.f == 0 || o.f == 20) && o.e == 0 && o.f == 0) || o.f == 9 || o.f == 15 || o.f == 17 || o.f == 19;
    bool rounded = o.f == 15;
    if (!one && !rounded) zero.push_back(nb + i);
  }
  for (int j = 0; j < m; ++j) S.outs.push_back({(int)g.below(4), (int)g.below(nb + nn), (int)g.below(nb + nn), (int)g.below(S.n)});
  auto F = evals::fun(S.n, m, [&](const auto &v) { return run(S, v); });
  c.desc << "smooth program n=" << S.n;
  for (auto &b : S.base) c.desc << " base(" << b[0] << ",x" << b[1] << ",x" << b[2] << ")";
  for (auto &o : S.nodes) c.desc << " node(f" << o.f << " of z" << o.src << ", e=" << o.e << (o.self ? ", in place" : "") << ")";
  for (auto &o : S.outs) c.desc << " out(" << o[0] << ",z" << o[1] << ",z" << o[2] << ",x" << o[3] << ")";
  c.desc << " at " << show(x) << "\n";
  short id = createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  Rec::go(id, x, m, [&](auto &X) { return run(S, std::vector<adouble>(X)); });
  unsigned mask = evals::ALL;
  int maxdeg = 3;
  if (frac) {
    maxdeg = std::max(1, frac - 1);
    mask = evals::FIRST;
    if (frac >= 2) mask |= evals::HOS | evals::HOV | evals::HOVWK | evals::REVH | evals::OV | evals::DRV2 | evals::SPARSEH | evals::TENSOR;
    mask |= evals::SPARSEJ;
  }
  evals::Eval E{c, id, F, [](const Vec &, int rc) { return rc == 3; }, mask, frac ? "frac-" : "zero-", maxdeg};
  int rounds = g.range(1, 4);
  for (int r = 0; r < rounds; ++r) if (E.one(x)) { c.label(cat(frac ? "fractional power: " : "zero base: ", E.last)); c.nontrivial = true; }
}

// --- boundary points
bool soft(double v) { return v == 0 || !std::isfinite(v); }
void boundary_case(Case &c) {
  Gen &g = c.g;
  struct B { const char *nm; double at; int inward; int sign; }; // sign of the slope, inward direction (0: both)
  static const B bs[] = {{"sqrt", 0, 1, 1}, {"cbrt", 0, 0, 1}, {"asin", 1, -1, 1}, {"asin", -1, 1, 1}, {"acos", 1, -1, -1}, {"acos", -1, 1, -1}, {"acosh", 1, 1, 1}, {"atanh", 1, -1, 1}, {"atanh", -1, 1, 1}, {"log", 0, 1, 1}, {"pow0.5", 0, 1, 1}, {"pow1.5", 0, 1, 1}, {"pow2.5", 0, 1, 1}};
  int w = (int)g.below(13);
  const B &b = bs[w];
  bool pre = g.coin(), inplace = g.coin();
  int n = 2;
  short id = createNewTape();
  findTape(id).disableBranchSwitchWarnings();
  setCurrentTape(id);
  Vec x{b.at, g.real(-1, 1)};
  double xr = b.at == 0 ? 0.5 : 0.5 * b.at * (w == 6 ? 3 : 1); // recorded inside the domain
  c.desc << b.nm << " at " << b.at << (pre ? " after x1*0+x0" : "") << (inplace ? " in place" : "");
  auto app = [&](adouble &v, adouble &r) {
    switch (w) {
    case 0: r = sqrt(v); break;
    case 1: r = cbrt(v); break;
    case 2: case 3: r = asin(v); break;
    case 4: case 5: r = acos(v); break;
    case 6: r = acosh(v); break;
    case 7: case 8: r = atanh(v); break;
    case 9: r = log(v); break;
    case 10: r = pow(v, 0.5); break;
    case 11: r = pow(v, 1.5); break;
    default: r = pow(v, 2.5); break;
    }
  };
  trace_on(id);
  {
    adouble a, q, v, r = 7.0;
    a <<= xr; q <<= x[1];
    // the place of the result has held other coefficients before
    r = q * q * 3.0 + a;
    adouble keepit = r * 2.0;
    v = pre ? adouble(a + q * 0.0) : a;
    if (inplace) { app(v, v); r = v; } else app(v, r);
    double d;
    r >>= d; keepit >>= d;
  }
  trace_off();
  int m = 2, d = g.range(1, 4), p = g.range(1, 3), how = (int)g.below(6);
  if (w == 1 && how >= 2) how = how & 1; // cbrt: first order only
  Vec y(m, 1e30);
  double ew = w == 10 ? 0.5 : w == 11 ? 1.5 : w == 12 ? 2.5 : 0;
  auto judge = [&](const char *nm, const Vec &X, const Vec &Y, int dd) {
    size_t first = 0;
    while (first < X.size() && X[first] == 0) ++first;
    for (int k = 0; k < dd; ++k) {
      std::string at = cat(b.nm, " ", nm, " direction ", show(X), " result ", show(Y), " coefficient ", k + 1);
      if (ew && k + 1 < ew) { c.check(Y[k] == 0, cat("boundary-limit-", b.nm), at); continue; }
      if (k < (int)first && !ew) { if (w != 9) c.check(first < X.size() ? soft(Y[k]) : Y[k] == 0, cat("boundary-zero-", b.nm), at); continue; }
      if (k == 0 && first == 0 && !(ew && ew > 1)) {
        int s = X[0] > 0 ? 1 : -1;
        if (w != 9 && (b.inward == 0 || s == b.inward)) c.check(std::isinf(Y[0]) && (Y[0] > 0 ? 1 : -1) == s * b.sign, cat("boundary-slope-", b.nm), at);
        else if (!ew && w != 9) c.check(std::isnan(Y[0]), cat("boundary-outward-", b.nm), at);
        else c.check(soft(Y[0]), cat("boundary-value-", b.nm), at);
        continue;
      }
      c.check(soft(Y[k]), cat("boundary-value-", b.nm), at);
    }
  };
  auto dir = [&] { return g.chance(1, 3) ? 0.0 : g.real(-2, 2); };
  switch (how) {
  case 0: { Vec X{dir(), dir()}, Y(m, 1e30); fos_forward(id, m, n, (int)g.below(3), x.data(), X.data(), y.data(), Y.data()); judge("fos_forward", {X[0]}, {Y[0]}, 1); break; }
  case 1: { Mat X(n, p), Y(m, p, 1e30); for (auto &v : X.d) v = dir(); fov_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p()); for (int k = 0; k < p; ++k) judge("fov_forward", {X[0][k]}, {Y[0][k]}, 1); break; }
  case 2: { Mat X(n, d), Y(m, d, 1e30); for (auto &v : X.d) v = dir(); hos_forward(id, m, n, d, (int)g.below(d + 2), x.data(), X.p(), y.data(), Y.p()); judge("hos_forward", Vec(X[0], X[0] + d), Vec(Y[0], Y[0] + d), d); break; }
  case 3: { Ten X(n, p, d), Y(m, p, d, 1e30); for (auto &v : X.d) v = dir(); hov_forward(id, m, n, d, p, x.data(), X.p(), y.data(), Y.p()); for (int k = 0; k < p; ++k) judge("hov_forward", Vec(X[0][k], X[0][k] + d), Vec(Y[0][k], Y[0][k] + d), d); break; }
  case 4: { Vec u{1, 0}, z(n, 1e30); zos_forward(id, m, n, 1, x.data(), y.data()); fos_reverse(id, m, n, u.data(), z.data()); c.check(soft(z[0]) && (soft(z[1])), cat("boundary-reverse-", b.nm), cat(b.nm, " fos_reverse ", show(z))); if (ew > 1) c.check(z[0] == 0, cat("boundary-limit-", b.nm), "fos_reverse"); break; }
  default: {
    Mat X(n, d), Y(m, d, 1e30), Z(n, d + 1, 1e30); Vec u{1, 0};
    for (auto &v : X.d) v = dir();
    hos_forward(id, m, n, d, d + 1, x.data(), X.p(), y.data(), Y.p());
    hos_reverse(id, m, n, d, u.data(), Z.p());
    for (int k = 0; k <= d; ++k) {
      if (ew && k + 1 < ew) c.check(Z[0][k] == 0, cat("boundary-limit-", b.nm), cat("hos_reverse ", show(Z.d)));
      else if (Z[0][k] != 0) c.check(!std::isfinite(Z[0][k]), cat("boundary-hosreverse-", b.nm), cat(b.nm, " hos_reverse ", show(Z.d), " X=", show(X.d)));
    }
  }
  }
  c.label(cat("boundary ", b.nm, " ", how));
  c.nontrivial = true;
}
} // namespace
void run_case(Case &c) {
  taping::reset_library();
  switch (c.g.pick({4, 4, 2})) {
  case 0: kink_case(c); break;
  case 1: smooth_case(c); break;
  default: boundary_case(c);
  }
}
