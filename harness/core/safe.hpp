// Small programs of smooth total functions with moderate values: bodies of external functions, time steps and iterations.
#pragma once
#include "gen.hpp"
#include <string>
#include <vector>

namespace safe {
struct Op { int op, a, b, r; double c; };
struct Prog {
  int n = 0, m = 0, slots = 0;
  std::vector<Op> ops;
  std::vector<int> out;
  int nonlin = 0;
  std::string str() const {
    static const char *nm[] = {"a+b", "a-c*b", "sin(a)*b", "sin(a)", "cos(a)+c", "tanh(a)", "atan(a)", "sqrt(1+a*a)", "b/(1+a*a)", "c*a", "a", "exp(tanh(a))", "c"};
    std::string s = "(" + std::to_string(n) + " -> " + std::to_string(m) + ")";
    char buf[99];
    for (auto &q : ops) { snprintf(buf, sizeof buf, " t%d=[%s a=t%d b=t%d c=%.17g]", q.r, nm[q.op], q.a, q.b, q.c); s += buf; }
    s += " out";
    for (int o : out) s += " t" + std::to_string(o);
    return s;
  }
};
// inplace: also overwrites existing slots
inline Prog random(Gen &g, int n, int m, int len, bool inplace = true) {
  Prog p;
  p.n = n; p.m = m; p.slots = n;
  for (int i = 0; i < len; ++i) {
    Op o;
    o.op = g.pick({2, 3, 4, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1});
    o.a = (int)g.below(p.slots); o.b = (int)g.below(p.slots);
    o.c = g.real(-1.2, 1.2);
    o.r = inplace && g.chance(1, 4) ? (int)g.below(p.slots) : p.slots++;
    if (o.op >= 2 && o.op <= 8) ++p.nonlin;
    if (o.op == 11) ++p.nonlin;
    p.ops.push_back(o);
  }
  for (int j = 0; j < m; ++j) p.out.push_back(g.chance(1, 5) ? (int)g.below(p.slots) : (int)(p.slots - 1 - g.below(std::min(p.slots, m + 2))));
  return p;
}
template <class T> void step(const Op &o, std::vector<T> &s) {
  using std::sin; using std::cos; using std::tanh; using std::atan; using std::sqrt; using std::exp;
  switch (o.op) {
  case 0: s[o.r] = s[o.a] + s[o.b]; break;
  case 1: s[o.r] = s[o.a] - s[o.b] * T(o.c); break;
  case 2: s[o.r] = sin(s[o.a]) * s[o.b]; break;
  case 3: s[o.r] = sin(s[o.a]); break;
  case 4: s[o.r] = cos(s[o.a]) + T(o.c); break;
  case 5: s[o.r] = tanh(s[o.a]); break;
  case 6: s[o.r] = atan(s[o.a]); break;
  case 7: s[o.r] = sqrt(T(1) + s[o.a] * s[o.a]); break;
  case 8: s[o.r] = s[o.b] / (T(1) + s[o.a] * s[o.a]); break;
  case 9: s[o.r] = s[o.a] * T(o.c); break;
  case 10: s[o.r] = T(s[o.a]); break;
  case 11: s[o.r] = exp(tanh(s[o.a])); break;
  default: s[o.r] = T(o.c); break;
  }
}
template <class T> std::vector<T> eval(const Prog &p, const std::vector<T> &x) {
  std::vector<T> s(x.begin(), x.begin() + p.n);
  s.resize(p.slots);
  for (auto &o : p.ops) step(o, s);
  std::vector<T> y;
  for (int o : p.out) y.push_back(s[o]);
  return y;
}
struct Dual { double v = 0, d = 0; Dual() = default; Dual(double a, double b = 0) : v(a), d(b) {} };
inline Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
inline Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
inline Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline Dual operator/(Dual a, Dual b) { return {a.v / b.v, (a.d - a.v / b.v * b.d) / b.v}; }
inline Dual sin(Dual a) { return {std::sin(a.v), a.d * std::cos(a.v)}; }
inline Dual cos(Dual a) { return {std::cos(a.v), -a.d * std::sin(a.v)}; }
inline Dual tanh(Dual a) { double t = std::tanh(a.v); return {t, a.d * (1 - t * t)}; }
inline Dual atan(Dual a) { return {std::atan(a.v), a.d / (1 + a.v * a.v)}; }
inline Dual sqrt(Dual a) { double t = std::sqrt(a.v); return {t, a.d / (2 * t)}; }
inline Dual exp(Dual a) { double t = std::exp(a.v); return {t, a.d * t}; }
// J[j][i] at x
inline std::vector<std::vector<double>> jac(const Prog &p, const double *x) {
  std::vector<std::vector<double>> J(p.m, std::vector<double>(p.n));
  for (int i = 0; i < p.n; ++i) {
    std::vector<Dual> X;
    for (int k = 0; k < p.n; ++k) X.emplace_back(x[k], k == i ? 1.0 : 0.0);
    auto y = eval(p, X);
    for (int j = 0; j < p.m; ++j) J[j][i] = y[j].d;
  }
  return J;
}
} // namespace safe
