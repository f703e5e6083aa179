// Random straight-line programs and their generic interpretation.
#pragma once
#include "alg.hpp"
#include "gen.hpp"
#include <optional>
#include <type_traits>

namespace prog {
enum Op : int {
  NEWCONST, COPY, ASSIGN, ASSIGNC, KILL, MOVE,
  ADD, SUB, MUL, DIV,
  CADD, CSUB, CMUL, CDIV,  // compound
  PLUSPROD, MINPROD,       // d += a*b ; d -= a*b
  PREINC, PREDEC, POSTINC, POSTDEC,
  UNARY, POWC, CPOW, POWA, ATAN2, FMIN, FMAX, LDEXP,
  COND4, COND3, CONDEQ4, CONDEQ3,
  VCOPY, VAXPY,
  PBIN, PCOMP,             // with a parameter
  PFUN,                    // other operations with a parameter
  NOPS
};
enum Fn : int { F_NEG, F_POS, F_EXP, F_LOG, F_SQRT, F_CBRT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN,
  F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_ERF, F_ERFC, F_LOG10, F_FABS, F_FLOOR, F_CEIL, NFN };
inline const char *fname(int f) {
  static const char *n[] = {"-", "+", "exp", "log", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan",
    "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "log10", "fabs", "floor", "ceil"};
  return n[f];
}
// operand kinds in `form` for binary operations
enum Kind : int { K_L = 0, K_R = 1, K_C = 2 };

struct Ins {
  Op op;
  int d = -1, a = -1, b = -1, c = -1;
  double k = 0;
  int i = 0;            // function id / kind of lhs / integer constant
  int j = 0;            // kind of rhs
  std::vector<int> v, w; // vector operands
};

struct Program {
  int n = 0, m = 0;
  int nslots = 0;
  std::vector<Ins> ins;
  std::vector<int> out;
  std::vector<size_t> mark; // number of instructions before the marking of out[j] as a dependent (empty: all)
  std::vector<double> params;
  std::vector<std::vector<double>> parv; // admissible parameter vectors, parv[0] = params
  std::vector<std::vector<double>> pts; // admissible points, pts[0] = taping point
  bool smooth = true; // no non-analytic operation used
  int nkills = 0, nover = 0, nalias = 0, ncond = 0, nprod = 0, nnonlin = 0, nvec = 0;

  std::string str() const {
    std::ostringstream o;
    o.precision(17);
    o << "n=" << n << " m=" << m << "\n";
    for (size_t p = 0; p < pts.size(); ++p) {
      o << " x" << p << "=(";
      for (double x : pts[p]) o << x << " ";
      o << ")\n";
    }
    if (!params.empty()) {
      o << " params=(";
      for (double x : params) o << x << " ";
      o << ")\n";
    }
    for (size_t k = 1; k < parv.size(); ++k) {
      o << " params" << k << "=(";
      for (double x : parv[k]) o << x << " ";
      o << ")\n";
    }
    auto opd = [&](int s, int kind, double k) {
      return kind == K_C ? cat(k) : kind == K_R ? cat("T(s", s, ")") : cat("s", s);
    };
    for (auto &q : ins) {
      o << "  ";
      static const char *bo[] = {"+", "-", "*", "/"};
      switch (q.op) {
      case NEWCONST: o << "s" << q.d << " = T(" << q.k << ")"; break;
      case COPY: o << "s" << q.d << " = T(s" << q.a << ")"; break;
      case ASSIGN: o << "s" << q.d << " := s" << q.a; break;
      case ASSIGNC: o << "s" << q.d << " := " << q.k; break;
      case KILL: o << "destroy s" << q.d; break;
      case MOVE: o << "s" << q.d << " = move(s" << q.a << ")"; break;
      case ADD: case SUB: case MUL: case DIV:
        o << "s" << q.d << " = " << opd(q.a, q.i, q.k) << " " << bo[q.op - ADD] << " " << opd(q.b, q.j, q.k); break;
      case CADD: case CSUB: case CMUL: case CDIV:
        o << "s" << q.d << " " << bo[q.op - CADD] << "= " << opd(q.b, q.j, q.k); break;
      case PLUSPROD: o << "s" << q.d << " += s" << q.a << "*s" << q.b; break;
      case MINPROD: o << "s" << q.d << " -= s" << q.a << "*s" << q.b; break;
      case PREINC: o << "++s" << q.d; break;
      case PREDEC: o << "--s" << q.d; break;
      case POSTINC: o << "s" << q.d << " = s" << q.a << "++"; break;
      case POSTDEC: o << "s" << q.d << " = s" << q.a << "--"; break;
      case UNARY: o << "s" << q.d << " = " << fname(q.i) << "(" << opd(q.a, q.j, 0) << ")"; break;
      case POWC: o << "s" << q.d << " = pow(" << opd(q.a, q.j, 0) << "," << q.k << ")"; break;
      case CPOW: o << "s" << q.d << " = pow(" << q.k << ",s" << q.a << ")"; break;
      case POWA: o << "s" << q.d << " = pow(s" << q.a << ",s" << q.b << ")"; break;
      case ATAN2: o << "s" << q.d << " = atan2(s" << q.a << ",s" << q.b << ")"; break;
      case FMIN: case FMAX:
        o << "s" << q.d << " = " << (q.op == FMIN ? "fmin(" : "fmax(") << opd(q.a, q.i, q.k) << "," << opd(q.b, q.j, q.k) << ")"; break;
      case LDEXP: o << "s" << q.d << " = ldexp(s" << q.a << "," << q.i << ")"; break;
      case COND4: case CONDEQ4:
        o << (q.op == COND4 ? "condassign" : "condeqassign") << "(s" << q.d << ",s" << q.a << ",s" << q.b << ",s" << q.c << ")"; break;
      case COND3: case CONDEQ3:
        o << (q.op == COND3 ? "condassign" : "condeqassign") << "(s" << q.d << ",s" << q.a << ",s" << q.b << ")"; break;
      case VCOPY: case VAXPY: {
        o << "s" << q.d << (q.op == VCOPY ? " = veccopy" : " = vecaxpy") << (q.i ? "+dot" : "") << " scalar s" << q.a << " [";
        for (int x : q.v) o << " s" << x;
        o << " ] [";
        for (int x : q.w) o << " s" << x;
        o << " ]";
        break;
      }
      case PBIN:
        o << "s" << q.d << " = " << (q.j ? cat("s", q.a, " ", bo[q.i], " p", q.b) : cat("p", q.b, " ", bo[q.i], " s", q.a)); break;
      case PCOMP: o << "s" << q.d << " " << bo[q.i] << "= p" << q.b; break;
      case PFUN: {
        static const char *f[] = {"fmin(a,p)", "fmin(p,a)", "fmax(a,p)", "fmax(p,a)", "fmin(p,p2)+a", "fmax(k,p)+a", "fmin(p,k)+a", "pow(a,p)", "pow(p,a)", "atan2(a,p)", "atan2(p,a)", "f(p)*a", "(p op k)+a", "(k op p)+a",
          ":= p", "T(p)", "-p + a", "ldexp(p,1)*a", "pow(p,2.5)*a", "+p - a"};
        o << "s" << q.d << " = " << f[q.i] << " with a=s" << q.a << " p=p" << q.b << " p2=p" << q.c << " k=" << q.k << " op/f=" << q.j;
        break;
      }
      default: break;
      }
      o << "\n";
    }
    o << "  out:";
    for (size_t j = 0; j < out.size(); ++j) { o << " s" << out[j]; if (!mark.empty() && mark[j] < ins.size()) o << "(marked after instruction " << mark[j] << ")"; }
    o << "\n";
    return o.str();
  }
};

// capabilities of a scalar type; specialised by users of taped types
template <class T> struct Traits {
  static constexpr bool rvalue = false; // has meaningful rvalue overloads
  static constexpr bool vecops = false;
  static constexpr bool pdoubles = false;
};

template <class T> inline double val(const T &t) { return (double)ref::v0(t); }

template <class T> T apply_un(int f, const T &a) {
  using namespace std;
  using namespace ref;
  switch (f) {
  case F_NEG: return -a;
  case F_POS: if constexpr (requires { +a; }) return T(+a); else return a;
  case F_EXP: return exp(a);
  case F_LOG: return log(a);
  case F_SQRT: return sqrt(a);
  case F_CBRT: return cbrt(a);
  case F_SIN: return sin(a);
  case F_COS: return cos(a);
  case F_TAN: return tan(a);
  case F_ASIN: return asin(a);
  case F_ACOS: return acos(a);
  case F_ATAN: return atan(a);
  case F_SINH: return sinh(a);
  case F_COSH: return cosh(a);
  case F_TANH: return tanh(a);
  case F_ASINH: return asinh(a);
  case F_ACOSH: return acosh(a);
  case F_ATANH: return atanh(a);
  case F_ERF: return erf(a);
  case F_ERFC: return erfc(a);
  case F_LOG10: return log10(a);
  case F_FABS: return fabs(a);
  case F_FLOOR: return floor(a);
  case F_CEIL: return ceil(a);
  }
  return a;
}
template <class T> T apply_un_r(int f, T &&a) {
  switch (f) {
  case F_NEG: return -std::move(a);
  case F_POS: return +std::move(a);
  case F_EXP: return exp(std::move(a));
  case F_LOG: return log(std::move(a));
  case F_SQRT: return sqrt(std::move(a));
  case F_CBRT: return cbrt(std::move(a));
  case F_SIN: return sin(std::move(a));
  case F_COS: return cos(std::move(a));
  case F_TAN: return tan(std::move(a));
  case F_ASIN: return asin(std::move(a));
  case F_ACOS: return acos(std::move(a));
  case F_ATAN: return atan(std::move(a));
  case F_SINH: return sinh(std::move(a));
  case F_COSH: return cosh(std::move(a));
  case F_TANH: return tanh(std::move(a));
  case F_ASINH: return asinh(std::move(a));
  case F_ACOSH: return acosh(std::move(a));
  case F_ATANH: return atanh(std::move(a));
  case F_ERF: return erf(std::move(a));
  case F_ERFC: return erfc(std::move(a));
  case F_LOG10: return log10(std::move(a));
  case F_FABS: return fabs(std::move(a));
  case F_FLOOR: return floor(std::move(a));
  case F_CEIL: return ceil(std::move(a));
  }
  return std::move(a);
}

// plain condassign family for types without their own
template <class T> struct CondOps {
  static void c4(T &r, const T &c, const T &a, const T &b) { r = val(c) > 0 ? a : b; }
  static void c3(T &r, const T &c, const T &a) { if (val(c) > 0) r = a; }
  static void e4(T &r, const T &c, const T &a, const T &b) { r = val(c) >= 0 ? a : b; }
  static void e3(T &r, const T &c, const T &a) { if (val(c) >= 0) r = a; }
};
template <class T> struct VecOps { // generic meaning
  // returns sum_i dest_i^2 (before) + sum_i (i+1) * dest_i (after)
  static T run(const Ins &q, std::vector<std::optional<T>> &s) {
    size_t k = q.v.size();
    T t(0.0);
    std::vector<T> dst, src, src2;
    for (size_t i = 0; i < k; ++i) { dst.push_back(*s[q.w[i]]); src.push_back(*s[q.v[i]]); }
    for (size_t i = 0; i < k; ++i) t = t + dst[i] * dst[i];
    src2 = dst; // second vector equals the old destination shifted
    for (size_t i = 0; i < k; ++i) src2[i] = dst[(i + 1) % k];
    for (size_t i = 0; i < k; ++i) dst[i] = q.op == VCOPY ? src[i] : (*s[q.a]) * src[i] + src2[i];
    for (size_t i = 0; i < k; ++i) t = t + T((double)(i + 1)) * dst[i];
    if (q.i) {
      T e(0.0);
      for (size_t i = 0; i < k; ++i) e = e + dst[i] * src[i];
      t = t + T(0.5) * e;
    }
    return t;
  }
};
template <class T> struct ParOps { // parameter = constant
  static T bin(int op, bool left, const T &a, double p) {
    T c(p);
    switch (op) {
    case 0: return left ? a + c : c + a;
    case 1: return left ? a - c : c - a;
    case 2: return left ? a * c : c * a;
    default: return left ? a / c : c / a;
    }
  }
  static void comp(int op, T &d, double p) {
    T c(p);
    switch (op) {
    case 0: d = d + c; break;
    case 1: d = d - c; break;
    case 2: d = d * c; break;
    default: d = d / c; break;
    }
  }
};

// p, p2: parameters (T itself or a type that mixes with T)
template <class T, class PV> T pfun(const Ins &q, const T &a, const PV &p, const PV &p2) {
  using namespace std;
  using namespace ref;
  auto K = [&](double k) { if constexpr (is_same_v<T, PV> && !is_same_v<T, double>) return T(k); else return k; };
  auto bin = [&](auto &&x, auto &&y) -> T { switch (q.j) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; } };
  switch (q.i) {
  case 0: return T(fmin(a, p));
  case 1: return T(fmin(p, a));
  case 2: return T(fmax(a, p));
  case 3: return T(fmax(p, a));
  case 4: return T(fmin(p, p2)) + a;
  case 5: return T(fmax(K(q.k), p)) + a;
  case 6: return T(fmin(p, K(q.k))) + a;
  case 7: return T(pow(a, p));
  case 8: return T(pow(p, a));
  case 9: return T(atan2(a, p));
  case 10: return T(atan2(p, a));
  case 11: switch (q.j) { case 0: return T(sin(p)) * a; case 1: return T(exp(p)) * a; case 2: return T(cos(p)) * a; case 3: return T(atan(p)) * a; case 4: return T(tanh(p)) * a; case 5: return T(asinh(p)) * a; case 6: return T(cosh(p)) * a; default: return T(sinh(p)) * a; }
  case 12: return bin(p, K(q.k)) + a;
  case 13: return bin(K(q.k), p) + a;
  case 16: return T(-p) + a;
  case 17: if constexpr (is_same_v<T, PV>) return (p * K(2.0)) * a; else return T(ldexp(p, 1)) * a;
  case 18: return T(pow(p, 2.5)) * a;
  case 19: if constexpr (is_same_v<T, PV>) return p - a; else return T(+p) - a;
  default: return a;
  }
}

// scalar constants: how a T meets a double
template <class T> T cst(double k) { return T(k); }

template <class T> T bin_ll(int op, const T &a, const T &b) {
  switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
}
template <class T> T bin_lc(int op, const T &a, double k) {
  if constexpr (std::is_same_v<T, double> || Traits<T>::rvalue || requires { a + k; k + a; a / k; k / a; }) {
    switch (op) { case 0: return a + k; case 1: return a - k; case 2: return a * k; default: return a / k; }
  } else return bin_ll(op, a, T(k));
}
template <class T> T bin_cl(int op, double k, const T &a) {
  if constexpr (std::is_same_v<T, double> || Traits<T>::rvalue || requires { a + k; k + a; a / k; k / a; }) {
    switch (op) { case 0: return k + a; case 1: return k - a; case 2: return k * a; default: return k / a; }
  } else return bin_ll(op, T(k), a);
}

template <class T> T binary(int op, const Ins &q, std::vector<std::optional<T>> &s) {
  if constexpr (Traits<T>::rvalue) {
    int L = q.i, R = q.j;
    auto go = [&](auto &&x, auto &&y) -> T {
      using X = decltype(x);
      using Y = decltype(y);
      switch (op) {
      case 0: return std::forward<X>(x) + std::forward<Y>(y);
      case 1: return std::forward<X>(x) - std::forward<Y>(y);
      case 2: return std::forward<X>(x) * std::forward<Y>(y);
      default: return std::forward<X>(x) / std::forward<Y>(y);
      }
    };
    if (L == K_C) { const double k = q.k; if (R == K_R) return go(k, T(*s[q.b])); const T &b = *s[q.b]; return go(k, b); }
    if (R == K_C) { const double k = q.k; if (L == K_R) return go(T(*s[q.a]), k); const T &a = *s[q.a]; return go(a, k); }
    const T &a = *s[q.a], &b = *s[q.b];
    if (L == K_R && R == K_R) return go(T(a), T(b));
    if (L == K_R) return go(T(a), b);
    if (R == K_R) return go(a, T(b));
    return go(a, b);
  } else {
    if (q.i == K_C) return bin_cl(op, q.k, *s[q.b]);
    if (q.j == K_C) return bin_lc(op, *s[q.a], q.k);
    return bin_ll(op, *s[q.a], *s[q.b]);
  }
}
template <class T> T minmax(bool mn, const Ins &q, std::vector<std::optional<T>> &s) {
  using namespace std;
  using namespace ref;
  auto go = [&](auto &&x, auto &&y) -> T {
    using X = decltype(x);
    using Y = decltype(y);
    if (mn) return fmin(std::forward<X>(x), std::forward<Y>(y));
    return fmax(std::forward<X>(x), std::forward<Y>(y));
  };
  if constexpr (Traits<T>::rvalue) {
    const double k = q.k;
    if (q.i == K_C) { if (q.j == K_R) return go(k, T(*s[q.b])); const T &b = *s[q.b]; return go(k, b); }
    if (q.j == K_C) { if (q.i == K_R) return go(T(*s[q.a]), k); const T &a = *s[q.a]; return go(a, k); }
    const T &a = *s[q.a], &b = *s[q.b];
    if (q.i == K_R && q.j == K_R) return go(T(a), T(b));
    if (q.i == K_R) return go(T(a), b);
    if (q.j == K_R) return go(a, T(b));
    return go(a, b);
  } else {
    T a = q.i == K_C ? T(q.k) : *s[q.a], b = q.j == K_C ? T(q.k) : *s[q.b];
    return go(a, b);
  }
}

template <class T> void put(std::vector<std::optional<T>> &s, int d, T &&v) {
  if (s[d].has_value()) *s[d] = std::move(v); // assignment to an existing variable
  else s[d].emplace(std::move(v));
}

template <class T> void step(const Ins &q, std::vector<std::optional<T>> &s, const std::vector<double> &par) {
  using namespace std;
  using namespace ref;
  switch (q.op) {
  case NEWCONST: put(s, q.d, T(q.k)); break;
  case COPY: { T t(*s[q.a]); put(s, q.d, std::move(t)); break; }
  case ASSIGN: *s[q.d] = *s[q.a]; break;
  case ASSIGNC: if constexpr (requires(T t, double k) { t = k; }) *s[q.d] = q.k; else *s[q.d] = T(q.k); break;
  case KILL: s[q.d].reset(); break;
  case MOVE: put(s, q.d, std::move(*s[q.a])); s[q.a].reset(); break;
  case ADD: case SUB: case MUL: case DIV: put(s, q.d, binary<T>(q.op - ADD, q, s)); break;
  case CADD: case CSUB: case CMUL: case CDIV: {
    T &d = *s[q.d];
    if constexpr (Traits<T>::rvalue || std::is_same_v<T, double> || requires { d += d; d += 1.0; d /= d; d /= 1.0; }) {
      int o = q.op - CADD;
      if (q.j == K_C) {
        if (o == 0) d += q.k; else if (o == 1) d -= q.k; else if (o == 2) d *= q.k; else d /= q.k;
      } else if (q.j == K_R) {
        if (o == 0) d += T(*s[q.b]); else if (o == 1) d -= T(*s[q.b]); else if (o == 2) d *= T(*s[q.b]); else d /= T(*s[q.b]);
      } else {
        const T &b = *s[q.b];
        if (o == 0) d += b; else if (o == 1) d -= b; else if (o == 2) d *= b; else d /= b;
      }
    } else {
      T b = q.j == K_C ? T(q.k) : *s[q.b];
      d = bin_ll<T>(q.op - CADD, d, b);
    }
    break;
  }
  case PLUSPROD: case MINPROD: {
    T &d = *s[q.d];
    if constexpr (Traits<T>::rvalue || std::is_same_v<T, double> || requires { d += d * d; }) {
      if (q.op == PLUSPROD) d += *s[q.a] * *s[q.b]; else d -= *s[q.a] * *s[q.b];
    } else {
      T t = *s[q.a] * *s[q.b];
      d = q.op == PLUSPROD ? d + t : d - t;
    }
    break;
  }
  case PREINC: case PREDEC: {
    T &d = *s[q.d];
    if constexpr (requires { ++d; }) { if (q.op == PREINC) ++d; else --d; }
    else d = q.op == PREINC ? d + T(1.0) : d - T(1.0);
    break;
  }
  case POSTINC: case POSTDEC: {
    T &a = *s[q.a];
    if constexpr (requires { a++; }) { T t(q.op == POSTINC ? a++ : a--); put(s, q.d, std::move(t)); }
    else { T t = a; a = q.op == POSTINC ? a + T(1.0) : a - T(1.0); put(s, q.d, std::move(t)); }
    break;
  }
  case UNARY:
    if constexpr (Traits<T>::rvalue) { if (q.j == K_R) { put(s, q.d, apply_un_r<T>(q.i, T(*s[q.a]))); break; } }
    put(s, q.d, apply_un<T>(q.i, *s[q.a]));
    break;
  case POWC:
    if constexpr (Traits<T>::rvalue) { if (q.j == K_R) { put(s, q.d, T(pow(T(*s[q.a]), q.k))); break; } }
    { const T &a = *s[q.a]; put(s, q.d, T(pow(a, q.k))); }
    break;
  case CPOW: { const T &a = *s[q.a]; put(s, q.d, T(pow(q.k, a))); break; }
  case POWA: { const T &a = *s[q.a], &b = *s[q.b]; put(s, q.d, T(pow(a, b))); break; }
  case ATAN2: { const T &a = *s[q.a], &b = *s[q.b]; put(s, q.d, T(atan2(a, b))); break; }
  case FMIN: case FMAX: put(s, q.d, minmax<T>(q.op == FMIN, q, s)); break;
  case LDEXP: {
    const T &a = *s[q.a];
    if constexpr (std::is_same_v<T, double>) put(s, q.d, T(std::ldexp(a, q.i)));
    else if constexpr (Traits<T>::rvalue) put(s, q.d, T(ldexp(a, q.i)));
    else if constexpr (requires { ldexp(a, 1.0); }) put(s, q.d, T(ldexp(a, (double)q.i)));
    else put(s, q.d, a * T(std::ldexp(1.0, q.i)));
    break;
  }
  case COND4: CondOps<T>::c4(*s[q.d], *s[q.a], *s[q.b], *s[q.c]); break;
  case COND3: CondOps<T>::c3(*s[q.d], *s[q.a], *s[q.b]); break;
  case CONDEQ4: CondOps<T>::e4(*s[q.d], *s[q.a], *s[q.b], *s[q.c]); break;
  case CONDEQ3: CondOps<T>::e3(*s[q.d], *s[q.a], *s[q.b]); break;
  case VCOPY: case VAXPY: put(s, q.d, VecOps<T>::run(q, s)); break;
  case PBIN: put(s, q.d, ParOps<T>::bin(q.i, q.j != 0, *s[q.a], par[q.b])); break;
  case PCOMP: ParOps<T>::comp(q.i, *s[q.d], par[q.b]); break;
  case PFUN:
    if constexpr (requires(T t) { pow(t, t); atan2(t, t); fmin(t, t); pow(t, 2.5); } || std::is_same_v<T, double>) {
      if (q.i == 14 || q.i == 15) put(s, q.d, T(par[q.b]));
      else put(s, q.d, pfun<T, T>(q, *s[q.a], T(par[q.b]), T(par[q.c])));
    }
    break;
  default: break;
  }
}

// reference / plain evaluation: inputs given as T
template <class T> std::vector<T> eval(const Program &P, const std::vector<T> &x, const std::vector<double> *par = nullptr) {
  std::vector<std::optional<T>> s(P.nslots);
  for (int i = 0; i < P.n; ++i) s[i].emplace(x[i]);
  const auto &pp = par ? *par : P.params;
  for (auto &q : P.ins) step<T>(q, s, pp);
  std::vector<T> y;
  for (int o : P.out) y.push_back(*s[o]);
  return y;
}

// ------------------------------------------------------------ generation
struct Opts {
  int nmin = 1, nmax = 5, mmin = 1, mmax = 3, imin = 3, imax = 18;
  int npts = 2;           // number of admissible points
  bool early = true;      // dependents may be marked before the end and used afterwards
  bool nonsmooth = true;  // fabs,fmin,fmax,cond*,floor,ceil (away from kinks)
  bool steps = true;      // floor/ceil
  bool vec = true;
  bool rv = true;         // rvalue forms
  bool erfs = true;
  bool params = false;
  bool pfun = false;      // all operations with parameters
  int npar = 1;           // number of admissible parameter vectors
  bool same_branch = false; // every branch decision equal at all points
  bool kills = true;
  bool anf = false;       // abs-smooth: fabs, fmin, fmax anywhere, no other nonsmooth operation
  int maxslots = 9;
  double vmax = 25.0;
  std::vector<int> banned_fns;
  std::vector<int> banned_ops;
  std::vector<std::vector<double>> fixed_pts; // use these points
};

class Builder {
  Gen &g;
  const Opts &o;
  Program P;
  std::vector<std::vector<std::optional<double>>> st; // per point
  std::vector<char> live;

public:
  Builder(Gen &gg, const Opts &oo) : g(gg), o(oo) {}

  int newslot() {
    for (size_t i = 0; i < live.size(); ++i)
      if (!live[i]) return (int)i; // dead slots are reused first
    live.push_back(0);
    for (auto &s : st) s.emplace_back();
    return (int)live.size() - 1;
  }
  int nlive() { int c = 0; for (char l : live) c += l; return c; }
  int anylive() {
    int k = (int)g.below(nlive());
    // favour recently defined: draw and map so that 0 = last slot
    for (int i = (int)live.size() - 1; i >= 0; --i)
      if (live[i]) { if (k == 0) return i; --k; }
    return 0;
  }
  int dest() {
    if (nlive() >= o.maxslots || g.chance(1, 3)) { P.nover++; return anylive(); }
    return newslot();
  }
  template <class F> bool all(int s, F f) { for (auto &v : st) if (!f(*v[s])) return false; return true; }
  const std::vector<double> &parof(size_t si) const { return P.parv.empty() ? P.params : P.parv[si / P.pts.size()]; }
  template <class F> bool allp(F f) { for (size_t si = 0; si < st.size(); ++si) if (!f(parof(si), st[si])) return false; return true; }
  // evaluates a tentative instruction at every point; false if out of bounds
  bool admit(const Ins &q) {
    auto save = st;
    bool ok = true;
    for (size_t si = 0; si < st.size(); ++si) {
      auto &s = st[si];
      try { step<double>(q, s, parof(si)); } catch (...) { ok = false; }
      for (auto &x : s) if (x.has_value() && !(std::fabs(*x) <= o.vmax)) ok = false;
      if (!ok) break;
    }
    if (!ok) { st = save; return false; }
    P.ins.push_back(q);
    if (q.op == KILL) live[q.d] = 0;
    else if (q.op == MOVE) { live[q.a] = 0; live[q.d] = 1; }
    else if (q.d >= 0) live[q.d] = 1;
    return true;
  }
  bool banned_fn(int f) { for (int b : o.banned_fns) if (b == f) return true; return false; }
  bool banned_op(int f) { for (int b : o.banned_ops) if (b == f) return true; return false; }
  int kind() { return o.rv && g.chance(1, 4) ? K_R : K_L; }

  bool fn_ok(int f, int a) {
    switch (f) {
    case F_EXP: return all(a, [](double x) { return x <= 2.5; });
    case F_LOG: case F_LOG10: case F_SQRT: return all(a, [](double x) { return x >= 0.35; });
    case F_CBRT: return all(a, [](double x) { return std::fabs(x) >= 0.35; });
    case F_ASIN: case F_ACOS: case F_ATANH: return all(a, [](double x) { return std::fabs(x) <= 0.8; });
    case F_ACOSH: return all(a, [](double x) { return x >= 1.3; });
    case F_SINH: case F_COSH: return all(a, [](double x) { return std::fabs(x) <= 2.5; });
    case F_TAN: return all(a, [](double x) { return std::fabs(std::cos(x)) >= 0.4; });
    case F_FABS: return o.anf || all(a, [](double x) { return std::fabs(x) >= 0.02; }) && samesign(a);
    case F_FLOOR: case F_CEIL: return all(a, [](double x) { double r = std::fabs(x - std::nearbyint(x)); return r >= 0.02; });
    default: return true;
    }
  }
  bool samesign(int a) {
    if (!o.same_branch) return true;
    double s0 = *st[0][a];
    return all(a, [&](double x) { return (x > 0) == (s0 > 0); });
  }
  bool sep(int a, int b) { // a-b bounded away from 0
    if (o.anf) return true;
    bool pos = false, neg = false;
    for (auto &v : st) {
      double dd = *v[a] - *v[b];
      if (std::fabs(dd) < 0.02) return false;
      (dd > 0 ? pos : neg) = true;
    }
    return !(o.same_branch && pos && neg);
  }
  bool sepc(int a, double k) {
    if (o.anf) return true;
    bool pos = false, neg = false;
    for (auto &v : st) {
      double dd = *v[a] - k;
      if (std::fabs(dd) < 0.02) return false;
      (dd > 0 ? pos : neg) = true;
    }
    return !(o.same_branch && pos && neg);
  }

  void fallback(int a) {
    Ins q;
    q.op = UNARY;
    q.a = a;
    q.d = newslot();
    if (live.size() > 40) q.d = a;
    q.i = g.coin() ? F_SIN : F_ATAN; if (banned_fn(q.i)) q.i = F_SIN;
    admit(q);
  }

  void one() {
    //                 NC CP AS AC KI MV  +  -  *  /  C+ C- C* C/ P+ P- ++ -- p+ p- UN PC CP PA AT mn mx ld c4 c3 e4 e3 vc va pb pc
    std::vector<int> w{2, 3, 4, 2, 3, 2, 7, 7, 10, 6, 4, 4, 5, 3, 4, 4, 1, 1, 1, 1, 26, 4, 2, 3, 3, 3, 3, 1, 2, 2, 2, 2, 1, 1, 0, 0, 0};
    if (!o.nonsmooth) for (int k : {FMIN, FMAX, COND4, COND3, CONDEQ4, CONDEQ3}) w[k] = 0;
    if (o.anf) { w[FMIN] = w[FMAX] = 6; for (int k : {COND4, COND3, CONDEQ4, CONDEQ3, POWA, ATAN2}) w[k] = 0; }
    if (!o.vec) w[VCOPY] = w[VAXPY] = 0;
    if (!o.kills) w[KILL] = w[MOVE] = 0;
    if (o.params && !P.params.empty()) { w[PBIN] = 12; w[PCOMP] = 6; if (o.pfun) w[PFUN] = 16; }
    for (int b : o.banned_ops) w[b] = 0;
    // simplest first: put MUL at the front of the pick order
    static const int order[] = {MUL, ADD, SUB, UNARY, DIV, CADD, CSUB, CMUL, CDIV, PLUSPROD, MINPROD, COPY, ASSIGN, ASSIGNC,
      NEWCONST, KILL, MOVE, PREINC, PREDEC, POSTINC, POSTDEC, POWC, CPOW, POWA, ATAN2, FMIN, FMAX, LDEXP, COND4, COND3, CONDEQ4,
      CONDEQ3, VCOPY, VAXPY, PBIN, PCOMP, PFUN};
    std::vector<int> ww;
    for (int x : order) ww.push_back(w[x]);
    Op op = (Op)order[g.pick(ww)];
    Ins q;
    q.op = op;
    int a = anylive();
    switch (op) {
    case NEWCONST: q.k = g.real(-2, 2); q.d = dest(); admit(q); return;
    case COPY: q.a = a; q.d = dest(); admit(q); return;
    case ASSIGN: q.a = a; q.d = anylive(); P.nover++; admit(q); return;
    case ASSIGNC: q.k = g.real(-2, 2); q.d = a; if (nlive() > 1) { P.nover++; admit(q); } return;
    case KILL: q.d = a; if (nlive() > 2) { P.nkills++; admit(q); } return;
    case MOVE: q.a = a; q.d = anylive(); if (q.a != q.d && nlive() > 2) { P.nkills++; admit(q); } return;
    case ADD: case SUB: case MUL: case DIV: {
      int form = g.pick({6, 2, 2});
      if (form == 0) { q.a = a; q.b = anylive(); q.i = kind(); q.j = kind(); }
      else if (form == 1) { q.a = a; q.i = kind(); q.j = K_C; q.k = g.real(-2, 2); }
      else { q.b = a; q.j = kind(); q.i = K_C; q.k = g.real(-2, 2); }
      if (op == DIV) {
        if (form == 1) { if (std::fabs(q.k) < 0.3) q.k = 0.5; }
        else if (!all(q.b, [](double x) { return std::fabs(x) >= 0.4; })) q.op = MUL;
      }
      if (q.op == MUL || q.op == DIV) P.nnonlin++;
      if (q.a == q.b) P.nalias++;
      q.d = dest();
      if (q.d == q.a || q.d == q.b) P.nalias++;
      if (!admit(q)) fallback(a);
      return;
    }
    case CADD: case CSUB: case CMUL: case CDIV: {
      q.d = a;
      int form = g.pick({5, 2});
      if (form == 0) { q.b = anylive(); q.j = kind(); if (q.b == q.d) P.nalias++; }
      else { q.j = K_C; q.k = g.real(-2, 2); }
      if (op == CDIV) {
        if (form == 1) { if (std::fabs(q.k) < 0.3) q.k = 0.5; }
        else if (!all(q.b, [](double x) { return std::fabs(x) >= 0.4; })) q.op = CMUL;
      }
      P.nover++;
      P.nnonlin++;
      if (!admit(q)) fallback(a);
      return;
    }
    case PLUSPROD: case MINPROD:
      q.d = a; q.a = anylive(); q.b = anylive();
      if (q.d == q.a || q.d == q.b) P.nalias++;
      P.nprod++; P.nnonlin++; P.nover++;
      if (!admit(q)) fallback(a);
      return;
    case PREINC: case PREDEC: q.d = a; admit(q); return;
    case POSTINC: case POSTDEC: q.a = a; q.d = newslot(); if (nlive() < o.maxslots) admit(q); return;
    case UNARY: {
      q.a = a;
      q.j = kind();
      int nf = NFN;
      int f = (int)g.below(nf);
      static const int forder[] = {F_SIN, F_EXP, F_COS, F_LOG, F_SQRT, F_ATAN, F_NEG, F_POS, F_TAN, F_ASIN, F_ACOS, F_SINH, F_COSH,
        F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_CBRT, F_LOG10, F_ERF, F_ERFC, F_FABS, F_FLOOR, F_CEIL};
      q.i = forder[f];
      if (!o.nonsmooth && (q.i == F_FABS || q.i == F_FLOOR || q.i == F_CEIL)) q.i = F_SIN;
      if (o.anf && (q.i == F_FLOOR || q.i == F_CEIL || g.chance(1, 4))) q.i = F_FABS;
      if (!o.steps && (q.i == F_FLOOR || q.i == F_CEIL)) q.i = F_COS;
      if (!o.erfs && (q.i == F_ERF || q.i == F_ERFC)) q.i = F_EXP;
      if (banned_fn(q.i)) q.i = F_SIN;
      if (!fn_ok(q.i, a)) {
        // bring the argument into the domain by construction
        bool pos = q.i == F_LOG || q.i == F_LOG10 || q.i == F_SQRT || q.i == F_CBRT || q.i == F_ACOSH;
        bool unit = q.i == F_ASIN || q.i == F_ACOS || q.i == F_ATANH;
        int t = -1;
        if (pos && nlive() + 1 < o.maxslots) {
          Ins r; r.op = MUL; r.a = a; r.b = a; r.d = t = newslot();
          if (!admit(r)) { fallback(a); return; }
          Ins e; e.op = CADD; e.d = t; e.j = K_C; e.k = q.i == F_ACOSH ? 1.5 : 0.75;
          if (!admit(e)) return;
          q.a = t;
        } else if (unit && nlive() + 1 < o.maxslots) {
          Ins r; r.op = UNARY; r.i = F_SIN; r.a = a; r.d = t = newslot();
          if (!admit(r)) return;
          Ins e; e.op = CMUL; e.d = t; e.j = K_C; e.k = 0.75;
          if (!admit(e)) return;
          q.a = t;
        } else
          q.i = g.coin() ? F_SIN : F_ATAN; if (banned_fn(q.i)) q.i = F_SIN;
      }
      if (!fn_ok(q.i, q.a)) q.i = F_SIN;
      if (q.i != F_NEG && q.i != F_POS) P.nnonlin++;
      if (q.i == F_FABS || q.i == F_FLOOR || q.i == F_CEIL) P.smooth = false;
      q.d = dest();
      if (q.d == q.a) P.nalias++;
      if (!admit(q)) fallback(a);
      return;
    }
    case POWC: {
      q.a = a; q.j = kind();
      static const std::vector<double> es{2, 3, 1, 0.5, -1, 1.5, -2, 2.5, 4, 0, -0.5, 5};
      q.k = g.oneof(es);
      bool integral = q.k == std::floor(q.k);
      if (!all(a, [](double x) { return x >= 0.35; }) && !(integral && all(a, [](double x) { return std::fabs(x) >= 0.35; }))) { fallback(a); return; }
      q.d = dest();
      P.nnonlin++;
      if (!admit(q)) fallback(a);
      return;
    }
    case CPOW: q.a = a; q.k = g.oneof(std::vector<double>{2.0, 0.5, 1.5, 3.0}); q.d = dest(); P.nnonlin++;
      if (!all(a, [](double x) { return std::fabs(x) < 4; }) || !admit(q)) fallback(a);
      return;
    case POWA: q.a = a; q.b = anylive();
      if (!all(q.a, [](double x) { return x >= 0.35; }) || !all(q.b, [](double x) { return std::fabs(x) < 4 && std::fabs(x) >= 0.02; }) || !samesign(q.b)) { fallback(a); return; }
      P.smooth = false; // composed of condassign on the sign of the exponent
      q.d = dest(); P.nnonlin++;
      if (!admit(q)) fallback(a);
      return;
    case ATAN2: {
      q.a = a; q.b = anylive();
      bool ok = true;
      int br0 = -1;
      for (auto &v : st) {
        double y = *v[q.a], x = *v[q.b];
        // keep away from both axes and diagonals (branches of the implementation)
        if (std::fabs(y) < 0.05 || std::fabs(x) < 0.05 || std::fabs(std::fabs(x) - std::fabs(y)) < 0.02) ok = false;
        int br = (x > 0) + 2 * (y > 0) + 4 * (std::fabs(x) > std::fabs(y));
        if (br0 < 0) br0 = br;
        if (o.same_branch && br != br0) ok = false;
      }
      if (!ok) { fallback(a); return; }
      P.smooth = false; // composed of fabs and condassign
      q.d = dest(); P.nnonlin++;
      if (!admit(q)) fallback(a);
      return;
    }
    case FMIN: case FMAX: {
      int form = g.pick({4, 1, 1});
      if (form == 0) { q.a = a; q.b = anylive(); q.i = kind(); q.j = kind(); if (!sep(q.a, q.b)) { fallback(a); return; } }
      else if (form == 1) { q.a = a; q.i = kind(); q.j = K_C; q.k = g.real(-2, 2); if (!sepc(a, q.k)) { fallback(a); return; } }
      else { q.b = a; q.j = kind(); q.i = K_C; q.k = g.real(-2, 2); if (!sepc(a, q.k)) { fallback(a); return; } }
      P.smooth = false;
      q.d = dest();
      admit(q);
      return;
    }
    case LDEXP: q.a = a; q.i = g.range(-2, 2); q.d = dest(); admit(q); return;
    case COND4: case CONDEQ4: case COND3: case CONDEQ3:
      q.a = a; q.b = anylive(); q.c = anylive(); q.d = anylive();
      if (!sepc(a, 0)) { fallback(a); return; }
      P.smooth = false; P.ncond++; P.nover++;
      if (q.d == q.a || q.d == q.b || (q.d == q.c && (op == COND4 || op == CONDEQ4))) P.nalias++;
      admit(q);
      return;
    case VCOPY: case VAXPY: {
      int k = g.range(1, 4);
      for (int i = 0; i < k; ++i) { q.v.push_back(anylive()); q.w.push_back(anylive()); }
      q.a = a; q.i = (int)g.below(2); q.d = dest();
      P.nvec++; P.nnonlin++;
      if (!admit(q)) fallback(a);
      return;
    }
    case PBIN:
      q.a = a; q.b = (int)g.below(P.params.size()); q.i = (int)g.below(4); q.j = (int)g.below(2);
      if (q.i == 3 && q.j == 0 && !all(a, [](double x) { return std::fabs(x) >= 0.4; })) q.i = 2;
      q.d = dest();
      if (!admit(q)) fallback(a);
      return;
    case PCOMP:
      q.d = a; q.b = (int)g.below(P.params.size()); q.i = (int)g.below(4);
      if (!admit(q)) fallback(a);
      return;
    case PFUN: {
      using SV = std::vector<std::optional<double>>;
      using PVv = std::vector<double>;
      q.a = a; q.b = (int)g.below(P.params.size()); q.c = (int)g.below(P.params.size());
      q.i = (int)g.below(20); q.j = (int)g.below(8); q.k = g.real(-2, 2);
      int b = q.b, c2 = q.c, aa = q.a;
      double k = q.k;
      if (!o.nonsmooth && q.i <= 10) q.i = 11 + q.i % 3;
      bool ok = true;
      if (q.i <= 3) ok = allp([&](const PVv &p, const SV &s) { return std::fabs(*s[aa] - p[b]) >= 0.02; });
      else if (q.i == 4) ok = b != c2 && allp([&](const PVv &p, const SV &) { return std::fabs(p[c2] - p[b]) >= 0.02; });
      else if (q.i == 5 || q.i == 6) ok = allp([&](const PVv &p, const SV &) { return std::fabs(k - p[b]) >= 0.02; });
      else if (q.i == 7) ok = allp([&](const PVv &, const SV &s) { return *s[aa] >= 0.35; });
      else if (q.i == 8) ok = allp([&](const PVv &p, const SV &s) { return p[b] >= 0.35 && std::fabs(*s[aa]) < 4 && std::fabs(*s[aa]) >= 0.02; });
      else if (q.i == 9 || q.i == 10) ok = allp([&](const PVv &p, const SV &s) { return std::fabs(*s[aa]) >= 0.05 && std::fabs(std::fabs(*s[aa]) - std::fabs(p[b])) >= 0.02; });
      else if (q.i == 18) ok = allp([&](const PVv &p, const SV &) { return p[b] >= 0.35; });
      else if (q.i == 12 || q.i == 13) { q.j &= 3; if (q.j == 3 && std::fabs(k) < 0.3) q.k = 0.5; }
      if (!ok) q.i = 11 + q.i % 3;
      if (q.i == 12 || q.i == 13) { q.j &= 3; if (q.j == 3 && std::fabs(q.k) < 0.3) q.k = 0.5; }
      if (q.i <= 10) P.smooth = false;
      if (q.i >= 7 && q.i <= 10) P.nnonlin++;
      if (q.i == 14) { q.d = anylive(); P.nover++; } else q.d = dest();
      if (!admit(q)) fallback(a);
      return;
    }
    default: return;
    }
  }

  Program build() {
    P.n = g.range(o.nmin, o.nmax);
    P.m = g.range(o.mmin, o.mmax);
    P.pts.resize(o.npts);
    if (!o.fixed_pts.empty()) P.pts = o.fixed_pts;
    else for (auto &p : P.pts) for (int i = 0; i < P.n; ++i) p.push_back(g.real(-2, 2));
    if (o.params) { int np = g.range(1, 4); for (int i = 0; i < np; ++i) { double v = g.real(-2, 2); if (std::fabs(v) < 0.4) v = 0.5; P.params.push_back(v); } }
    if (o.npar > 1 && o.params) {
      P.parv.push_back(P.params);
      for (int k = 1; k < o.npar; ++k) {
        auto v = P.params;
        for (auto &t : v) if (g.chance(2, 3)) { t = g.real(-2, 2); if (std::fabs(t) < 0.4) t = 0.5; }
        P.parv.push_back(v);
      }
    }
    st.resize((size_t)o.npts * (P.parv.empty() ? 1 : P.parv.size()));
    live.assign(P.n, 1);
    for (size_t p = 0; p < st.size(); ++p) for (int i = 0; i < P.n; ++i) st[p].emplace_back(P.pts[p % P.pts.size()][i]);
    int len = g.range(o.imin, o.imax);
    for (int i = 0; i < len; ++i) one();
    // outputs: distinct live slots where possible
    std::vector<int> lv;
    for (int i = (int)live.size() - 1; i >= 0; --i) if (live[i]) lv.push_back(i);
    for (int j = 0; j < P.m; ++j) {
      if (lv.empty()) break;
      size_t k = g.below(lv.size());
      P.out.push_back(lv[k]);
      lv.erase(lv.begin() + (long)k);
    }
    P.m = (int)P.out.size();
    P.nslots = (int)live.size();
    if (o.early && g.chance(1, 3)) { // mark dependents as soon as they have their final value, possibly one variable twice
      if (P.m >= 2 && g.chance(1, 4)) P.out[g.below(P.m)] = P.out[g.below(P.m)];
      size_t low = 0;
      for (int j = 0; j < P.m; ++j) {
        size_t w = 0;
        for (size_t k = 0; k < P.ins.size(); ++k) {
          const Ins &q = P.ins[k];
          if (q.d == P.out[j] || (q.a == P.out[j] && (q.op == POSTINC || q.op == POSTDEC || q.op == MOVE))) w = k + 1;
        }
        low = std::max(low, w);
        if (g.coin()) low = (size_t)g.range((int)low, (int)P.ins.size());
        P.mark.push_back(low);
      }
    }
    return P;
  }
};
// every so often much larger programs: more independents, dependents and instructions than any small bound in the library
inline bool enlarge(Gen &g, Opts &o, int n, int m, int ins, int one_in = 12) {
  if (!g.chance(1, one_in)) return false;
  o.nmax = n; o.mmax = m; o.imax = ins; o.maxslots = n + 20;
  return true;
}
inline Program random_program(Gen &g, const Opts &o) { return Builder(g, o).build(); }
// many more parameters than the program uses, in front of and behind its own
inline void pad_params(Gen &g, Program &P, int most) {
  int k = g.range(1, most), at = g.range(0, k);
  auto pad = [&](std::vector<double> &p) {
    std::vector<double> v;
    for (int i = 0; i < k; ++i) v.push_back(0.5 + 0.01 * i);
    v.insert(v.begin() + at, p.begin(), p.end());
    p = v;
  };
  pad(P.params);
  for (auto &p : P.parv) pad(p);
  for (auto &q : P.ins) {
    if (q.op == PBIN || q.op == PCOMP || q.op == PFUN) q.b += at;
    if (q.op == PFUN) q.c += at;
  }
}
} // namespace prog
