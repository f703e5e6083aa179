// Control-flow changes are reported by every sweep.
#include "deriv.hpp"
#include <adolc/sparse/sparsedrivers.h>
#include <memory>
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C13",
  "a case is a random smooth program interleaved with random control flow over active values: nested if/else and loops on all six comparisons with every "
  "operand kind and side (variable, temporary, constant), fmin/fmax/fabs, condassign/condeqassign in both arities into variables and elements of active vectors, floor/ceil; operands are exact grid "
  "combinations of the inputs (so that ties occur) or program values with a margin; it is recorded at one point and evaluated at 4 points sharing components by "
  "random sweeps and drivers; oracle: the list of branch decisions of a plain double run (first different comparison: negative code; ties and changed minima: "
  "0/1/2 as documented) and exact derivatives of the executed branch; non-trivial: at least one comparison was recorded and some point switches it or ties",
  16000, 300000, 24, 600, {"where the tie happens at the recording point too, 2 and 3 are both accepted; fabs at zero may give 1 or 3; derivatives at ties of fmin/fmax/fabs/condassign/floor/ceil are not compared; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }

namespace {
enum EK { E_IN, E_ADD, E_SUB, E_DBL, E_CST, E_SLOT };
struct Ex { int k = E_IN, i = 0, j = 0; double c = 0; bool r = false; };
enum IK { I_IF, I_LOOP, I_MIN, I_MAX, I_ABS, I_C4, I_C3, I_Q4, I_Q3, I_FLOOR, I_CEIL };
struct Item {
  int kind = I_IF, op = 0, form = 0; // form 0: e1 op e2, 1: e1 op c, 2: c op e1
  Ex e1, e2, e3, e4;
  double c = 0, w = 1;
  bool el = false; // the target of a conditional assignment is an element of an active vector
  std::vector<Item> t, f;
  size_t pos = 0;
};
struct Ev { int kind; int out; bool tie; int op; double v; };

struct BP { // branching program
  Program P;
  std::vector<Item> items; // sorted by pos
  std::vector<int> add;    // outputs that receive the accumulator
};
static const char *ropname[] = {"<", "<=", ">", ">=", "==", "!="};
std::string show(const Ex &e) {
  std::string s;
  switch (e.k) {
  case E_IN: s = cat("x", e.i); break;
  case E_ADD: s = cat("(x", e.i, "+x", e.j, ")"); break;
  case E_SUB: s = cat("(x", e.i, "-x", e.j, ")"); break;
  case E_DBL: s = cat("(2*x", e.i, ")"); break;
  case E_CST: s = cat("T(", e.c, ")"); break;
  default: s = cat("s", e.i);
  }
  return e.r ? cat("rvalue ", s) : s;
}
std::string show(const std::vector<Item> &v, int ind) {
  std::ostringstream o;
  o.precision(17);
  std::string pad(ind * 2, ' ');
  for (auto &q : v) {
    o << pad;
    if (ind == 1) o << "[after instruction " << q.pos << "] ";
    auto lhs = q.form == 2 ? cat(q.c) : show(q.e1), rhs = q.form == 1 ? cat(q.c) : q.form == 2 ? show(q.e1) : show(q.e2);
    switch (q.kind) {
    case I_IF: o << "if (" << lhs << ropname[q.op] << rhs << ") { acc += 0.5*" << show(q.e3) << "\n" << show(q.t, ind + 1) << pad << "} else { acc = 0.7*acc + sin(" << show(q.e4) << ")\n" << show(q.f, ind + 1) << pad << "}"; break;
    case I_LOOP: o << "v = " << show(q.e1) << "; while (v " << ropname[q.op] << " " << q.c << " at most 6 times) v -= " << q.w << ", acc += 0.25*v*" << show(q.e3); break;
    case I_MIN: case I_MAX: o << "acc += " << q.w << "*" << (q.kind == I_MIN ? "fmin(" : "fmax(") << lhs << "," << rhs << ")"; break;
    case I_ABS: o << "acc += " << q.w << "*fabs(" << show(q.e1) << ")"; break;
    case I_C4: case I_Q4: o << (q.el ? "element " : "") << (q.kind == I_C4 ? "condassign" : "condeqassign") << "(r," << show(q.e1) << "," << show(q.e3) << "," << show(q.e4) << "); acc += " << q.w << "*r"; break;
    case I_C3: case I_Q3: o << (q.el ? "element " : "") << "r = " << show(q.e4) << "; " << (q.kind == I_C3 ? "condassign" : "condeqassign") << "(r," << show(q.e1) << "," << show(q.e3) << "); acc += " << q.w << "*r"; break;
    case I_FLOOR: case I_CEIL: o << "acc += " << q.w << "*" << (q.kind == I_FLOOR ? "floor(" : "ceil(") << show(q.e1) << ")*" << show(q.e3); break;
    }
    o << "\n";
  }
  return o.str();
}

template <class T> struct Run {
  const BP &B;
  std::vector<std::optional<T>> s;
  std::vector<T> x;
  std::optional<T> acc;
  std::vector<Ev> *log = nullptr;
  explicit Run(const BP &b) : B(b), s(b.P.nslots) {}
  void ev(int kind, int out, bool tie, int op, double v = 0) { if (log) log->push_back({kind, out, tie, op, v}); }
  T make(const Ex &e) {
    switch (e.k) {
    case E_IN: return T(x[e.i]);
    case E_ADD: return T(x[e.i] + x[e.j]);
    case E_SUB: return T(x[e.i] - x[e.j]);
    case E_DBL: return T(T(2.0) * x[e.i]);
    case E_CST: return T(e.c);
    default: return T(*s[e.i]);
    }
  }
  template <class F> auto with(const Ex &e, F f) {
    if (e.r) return f(make(e));
    if (e.k == E_IN) { const T &a = x[e.i]; return f(a); }
    if (e.k == E_SLOT) { const T &a = *s[e.i]; return f(a); }
    T t = make(e);
    const T &a = t;
    return f(a);
  }
  template <class A, class Bb> static bool rel(int op, A &&a, Bb &&b) {
    if constexpr (std::is_same_v<T, adouble>) {
      switch (op) {
      case 0: return std::forward<A>(a) < std::forward<Bb>(b);
      case 1: return std::forward<A>(a) <= std::forward<Bb>(b);
      case 2: return std::forward<A>(a) > std::forward<Bb>(b);
      case 3: return std::forward<A>(a) >= std::forward<Bb>(b);
      case 4: return std::forward<A>(a) == std::forward<Bb>(b);
      default: return std::forward<A>(a) != std::forward<Bb>(b);
      }
    } else {
      double p, q;
      if constexpr (std::is_same_v<std::decay_t<A>, double>) p = a; else p = val(a);
      if constexpr (std::is_same_v<std::decay_t<Bb>, double>) q = b; else q = val(b);
      switch (op) { case 0: return p < q; case 1: return p <= q; case 2: return p > q; case 3: return p >= q; case 4: return p == q; default: return p != q; }
    }
  }
  template <class F> auto operands(const Item &q, F f) {
    const double k = q.c;
    if (q.form == 1) return with(q.e1, [&](auto &&a) { return f(std::forward<decltype(a)>(a), k); });
    if (q.form == 2) return with(q.e1, [&](auto &&a) { return f(k, std::forward<decltype(a)>(a)); });
    return with(q.e1, [&](auto &&a) { return with(q.e2, [&](auto &&b) { return f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
  }
  double dv(const Ex &e) { if constexpr (std::is_same_v<T, adouble>) return 0; else return val(make(e)); }
  void mm(const Item &q) {
    using namespace ref;
    using namespace std;
    bool mn = q.kind == I_MIN;
    if (log) {
      double a = q.form == 2 ? q.c : dv(q.e1), b = q.form == 1 ? q.c : q.form == 2 ? dv(q.e1) : dv(q.e2);
      bool same = q.form == 0 && q.e1.k == E_IN && q.e2.k == E_IN && q.e1.i == q.e2.i && !q.e1.r && !q.e2.r;
      ev(q.kind, a < b ? -1 : a > b ? 1 : 0, a == b, same);
    }
    if constexpr (std::is_same_v<T, adouble>) {
      T r = operands(q, [&](auto &&a, auto &&b) -> T { if (mn) return fmin(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); return fmax(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); });
      *acc += q.w * r;
    } else {
      T a = q.form == 2 ? T(q.c) : make(q.e1), b = q.form == 1 ? T(q.c) : q.form == 2 ? make(q.e1) : make(q.e2);
      T r = mn ? T(fmin(a, b)) : T(fmax(a, b));
      *acc = *acc + T(q.w) * r;
    }
  }
  void block(const std::vector<Item> &v) { for (auto &q : v) item(q); }
  void item(const Item &q) {
    using namespace ref;
    using namespace std;
    switch (q.kind) {
    case I_IF: {
      bool b = operands(q, [&](auto &&a, auto &&bb) { return rel(q.op, std::forward<decltype(a)>(a), std::forward<decltype(bb)>(bb)); });
      if (log) {
        double l = q.form == 2 ? q.c : dv(q.e1), r = q.form == 1 ? q.c : q.form == 2 ? dv(q.e1) : dv(q.e2);
        ev(I_IF, b, l == r, q.op);
      }
      if (b) { *acc = *acc + T(0.5) * make(q.e3); block(q.t); }
      else { *acc = T(0.7) * *acc + T(sin(make(q.e4))); block(q.f); }
      break;
    }
    case I_LOOP: {
      T v = make(q.e1);
      for (int it = 0; it < 6; ++it) {
        bool b = rel(q.op, v, q.c);
        if (log) { double l = 0; if constexpr (!std::is_same_v<T, adouble>) l = val(v); ev(I_IF, b, l == q.c, q.op); }
        if (!b) break;
        v = v - T(q.w);
        *acc = *acc + T(0.25) * v * make(q.e3);
      }
      break;
    }
    case I_MIN: case I_MAX: mm(q); break;
    case I_ABS: {
      if (log) { double a = dv(q.e1); ev(I_ABS, a < 0 ? -1 : a > 0 ? 1 : 0, a == 0, 0); }
      T r = with(q.e1, [&](auto &&a) -> T { return T(fabs(std::forward<decltype(a)>(a))); });
      *acc = *acc + T(q.w) * r;
      break;
    }
    case I_C4: case I_C3: case I_Q4: case I_Q3: {
      if (log) { double a = dv(q.e1); bool eq = q.kind >= I_Q4; ev(q.kind, eq ? a >= 0 : a > 0, a == 0, 0); }
      T r = (q.kind == I_C4 || q.kind == I_Q4) ? T(0.0) : make(q.e4);
      if constexpr (std::is_same_v<T, adouble>) if (q.el) {
        advector v(2);
        v[(size_t)0] = 0.125;
        v[(size_t)1] = r;
        adouble one(1.0);
        with(q.e1, [&](const T &cnd) {
          return with(q.e3, [&](const T &a) {
            adubref &&e = v[one];
            if (q.kind == I_C3) condassign(e, cnd, a);
            else if (q.kind == I_Q3) condeqassign(e, cnd, a);
            else with(q.e4, [&](const T &b) { if (q.kind == I_C4) condassign(e, cnd, a, b); else condeqassign(e, cnd, a, b); return 0; });
            return 0;
          });
        });
        *acc += q.w * adouble(v[one]);
        break;
      }
      with(q.e1, [&](const T &cnd) {
        return with(q.e3, [&](const T &a) {
          if (q.kind == I_C3) CondOps<T>::c3(r, cnd, a);
          else if (q.kind == I_Q3) CondOps<T>::e3(r, cnd, a);
          else with(q.e4, [&](const T &b) { if (q.kind == I_C4) CondOps<T>::c4(r, cnd, a, b); else CondOps<T>::e4(r, cnd, a, b); return 0; });
          return 0;
        });
      });
      *acc = *acc + T(q.w) * r;
      break;
    }
    case I_FLOOR: case I_CEIL: {
      if (log) { double a = dv(q.e1); ev(q.kind, 0, a == std::floor(a), 0, q.kind == I_FLOOR ? std::floor(a) : std::ceil(a)); }
      T r = with(q.e1, [&](auto &&a) -> T { return q.kind == I_FLOOR ? T(floor(std::forward<decltype(a)>(a))) : T(ceil(std::forward<decltype(a)>(a))); });
      *acc = *acc + T(q.w) * r * make(q.e3);
      break;
    }
    }
  }
  void body() { // inputs are in s[0..n-1]
    for (int i = 0; i < B.P.n; ++i) x.push_back(*s[i]);
    acc.emplace(0.0);
    size_t k = 0;
    for (size_t pc = 0; pc <= B.P.ins.size(); ++pc) {
      while (k < B.items.size() && B.items[k].pos <= pc) item(B.items[k++]);
      if (pc < B.P.ins.size()) prog::step<T>(B.P.ins[pc], s, B.P.params);
    }
  }
  T out(int j) { return B.add[j] ? T(*s[B.P.out[j]] + *acc) : T(*s[B.P.out[j]]); }
};
template <class T> std::vector<T> eval(const BP &B, const std::vector<T> &x, std::vector<Ev> *log = nullptr) {
  Run<T> r(B);
  r.log = log;
  for (int i = 0; i < B.P.n; ++i) r.s[i].emplace(x[i]);
  r.body();
  std::vector<T> y;
  for (int j = 0; j < B.P.m; ++j) y.push_back(r.out(j));
  return y;
}
std::vector<Ev> events(const BP &B, const std::vector<double> &x) { std::vector<Ev> l; eval<double>(B, x, &l); return l; }
Q expand(const BP &B, const std::vector<double> &x, int deg) { // deg 0: values; 1: jacobian [m][n]; 2: hessians [m][n][n]
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::multi(n, std::max(deg, 1));
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<ref::Alg<R>> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x[i]); std::vector<int> e(n, 0); e[i] = 1; A.back().c[C.at(e)] = 1; }
    for (auto &y : eval<ref::Alg<R>>(B, A)) {
      if (deg == 0) out.push_back(y.c[0]);
      else for (int i = 0; i < n; ++i) {
        std::vector<int> e(n, 0);
        e[i]++;
        if (deg == 1) { out.push_back(y.c[C.at(e)]); continue; }
        for (int j = 0; j < n; ++j) { e[j]++; out.push_back(y.c[C.at(e)] * (i == j ? R(2) : R(1))); e[j]--; }
      }
    }
  };
  fold(f, q);
  return q;
}

Ex rex(Gen &g, int n, const std::vector<int> &slots = {}) {
  Ex e;
  e.k = g.pick({6, 2, 3, 1, 1, slots.empty() ? 0 : 3});
  e.i = e.k == E_SLOT ? slots[g.below(slots.size())] : (int)g.below(n);
  e.j = (int)g.below(n);
  e.c = 0.25 * g.range(-6, 6);
  e.r = g.chance(1, 3);
  return e;
}
Item ritem(Gen &g, int n, int depth) {
  Item q;
  q.kind = g.pick({12, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1});
  q.op = (int)g.below(6);
  q.form = (int)g.below(3);
  q.e1 = rex(g, n);
  if (q.e1.k == E_CST) q.e1.k = E_IN;
  q.e2 = rex(g, n); q.e3 = rex(g, n); q.e4 = rex(g, n);
  q.c = g.chance(1, 3) ? 0.0 : 0.25 * g.range(-6, 6);
  q.w = g.real(0.5, 2);
  q.el = g.chance(1, 3);
  if (q.kind == I_LOOP) q.w = g.coin() ? 0.5 : 0.75;
  if (q.kind == I_IF && depth < 2) {
    int a = g.pick({4, 2, 1}), b = g.pick({4, 2, 1});
    for (int i = 0; i < a; ++i) q.t.push_back(ritem(g, n, depth + 1));
    for (int i = 0; i < b; ++i) q.f.push_back(ritem(g, n, depth + 1));
  }
  return q;
}
bool hasel(const std::vector<Item> &v) {
  for (auto &q : v) if ((q.el && q.kind >= I_C4 && q.kind <= I_Q3) || hasel(q.t) || hasel(q.f)) return true;
  return false;
}
struct Rc { int lo = 3, hi = 3; bool tie = false; size_t len = 0; };
Rc model(const std::vector<Ev> &rec, const std::vector<Ev> &now) {
  Rc r;
  auto low = [&](int a, int b) { r.lo = std::min(r.lo, a); r.hi = std::min(r.hi, b); };
  for (size_t k = 0; k < rec.size(); ++k) {
    const Ev &a = rec[k], &b = now[k];
    r.len = k;
    switch (a.kind) {
    case I_IF:
      if (a.out != b.out) { r.lo = r.hi = -1; return r; }
      // recorded as <= 0, >= 0 or == 0 of the difference: a tie is reported
      if (b.tie) low(0, 0);
      break;
    case I_MIN: case I_MAX:
      if (b.tie) { low(1, a.op ? 3 : 1); r.tie = true; }
      else if (a.tie) { low(2, 3); }
      else if (a.out != b.out) low(2, 2);
      break;
    case I_ABS:
      if (b.tie) { low(1, 3); r.tie = true; }
      else if (a.tie) low(2, 3);
      else if (a.out != b.out) low(2, 2);
      break;
    case I_C4: case I_C3: case I_Q4: case I_Q3:
      if (a.out != b.out) low(2, 2);
      if (b.tie) { r.tie = true; if (a.kind == I_C4 || a.kind == I_C3) low(0, 0); else low(a.out != b.out ? 2 : 0, 3); }
      break;
    default:
      if (b.v != a.v) low(2, 2);
      r.tie |= b.tie;
    }
  }
  return r;
}
} // namespace

void run_case(Case &c) {
  Gen &g = c.g;
  int n = g.range(1, 4);
  Opts o;
  o.nmin = o.nmax = n; o.mmin = 1; o.mmax = 3; o.imin = 0; o.imax = 10; o.npts = 4; o.vmax = 10;
  o.nonsmooth = false; o.steps = false; o.early = false; o.banned_fns = {F_CBRT}; o.banned_ops = {ATAN2, POWA};
  o.fixed_pts.assign(4, std::vector<double>(n));
  for (auto &v : o.fixed_pts[0]) v = 0.25 * g.range(-6, 6);
  for (int p = 1; p < 4; ++p) for (int i = 0; i < n; ++i) {
    int h = g.pick({5, 2, 3});
    o.fixed_pts[p][i] = h == 0 ? o.fixed_pts[0][i] : h == 1 ? o.fixed_pts[p][g.below(n)] : 0.25 * g.range(-6, 6);
  }
  BP B;
  B.P = random_program(g, o);
  const Program &P = B.P;
  int m = P.m;
  if (m < 1) c.discard();
  int ni = g.range(1, 6);
  for (int k = 0; k < ni; ++k) {
    Item q = ritem(g, n, 0);
    q.pos = g.coin() ? g.below(P.ins.size() + 1) : 0;
    // half of the items that compare with a constant look at a value of the program, with a margin
    if (q.kind == I_IF && q.form != 0 && g.coin()) {
      std::vector<std::vector<double>> vals; // per point: values of live slots at pos
      std::vector<int> livef;
      for (auto &x : P.pts) {
        std::vector<std::optional<double>> s(P.nslots);
        for (int i = 0; i < n; ++i) s[i] = x[i];
        for (size_t pc = 0; pc < q.pos && pc < P.ins.size(); ++pc) prog::step<double>(P.ins[pc], s, P.params);
        livef.clear();
        std::vector<double> v;
        for (int i = 0; i < P.nslots; ++i) if (s[i]) { livef.push_back(i); v.push_back(*s[i]); }
        vals.push_back(v);
      }
      size_t z = g.below(livef.size());
      double lo = 1e30, hi = -1e30;
      for (auto &v : vals) { lo = std::min(lo, v[z]); hi = std::max(hi, v[z]); }
      double k0 = g.coin() ? vals[0][z] + 0.125 : (lo + hi) / 2;
      bool ok = true;
      for (auto &v : vals) if (std::fabs(v[z] - k0) < 1e-3) ok = false;
      if (ok) { q.e1.k = E_SLOT; q.e1.i = livef[z]; q.c = k0; }
    }
    B.items.push_back(q);
  }
  std::stable_sort(B.items.begin(), B.items.end(), [](const Item &a, const Item &b) { return a.pos < b.pos; });
  for (int j = 0; j < m; ++j) B.add.push_back(j == 0 || g.coin());
  c.desc << P.str() << show(B.items, 1) << "  accumulator added to outputs:";
  for (int j = 0; j < m; ++j) if (B.add[j]) c.desc << " " << j;
  c.desc << "\n";
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  findTape(id).disableBranchSwitchWarnings();
  // minima, maxima and absolute values as switches of the piecewise linear drivers, which run instead of the others
  bool pl = g.chance(1, 8);
  if (pl) { findTape(id).enableMinMaxUsingAbs(); c.desc << "minima, maxima and absolute values recorded as switches\n"; }
  auto recorded = [&](const std::vector<double> &x) {
    trace_on(id);
    std::vector<double> y(m);
    {
      Run<adouble> r(B);
      for (int i = 0; i < n; ++i) { r.s[i].emplace(); *r.s[i] <<= x[i]; }
      r.body();
      for (int j = 0; j < m; ++j) { adouble t = r.out(j); t >>= y[j]; }
    }
    trace_off();
    return y;
  };
  auto cmpv = [&](const std::string &nm, const std::vector<double> &got, const Q &w) {
    if (!finite(w)) return;
    auto b = cmp(got, w);
    c.check(!b.bad, "result-" + nm, cat(nm, ": entry ", b.idx, " is ", b.got, " expected ", b.want));
  };
  auto x0 = P.pts[0];
  auto rec = events(B, x0);
  auto y0 = recorded(x0);
  cmpv("recording", y0, expand(B, x0, 0));
  bool ncmp = false;
  for (auto &e : rec) { if (e.kind == I_IF) ncmp = true; else c.label(cat("item", e.kind)); }
  int nsw = g.range(3, 10);
  for (int it = 0; it < nsw; ++it) {
    auto x = P.pts[g.below(P.pts.size())];
    auto now = events(B, x);
    Rc w = model(rec, now);
    bool sw = w.hi < 0;
    if (ncmp && w.lo < 1) c.interesting();
    c.label(sw ? "switch" : w.lo == 0 ? "tie" : w.lo == 1 ? "tie-minmax" : w.lo == 2 ? "other minimum" : "same");
    int how = pl ? 20 : (int)g.below(20);
    int kept = 0, kdirs = 0; // degree + 1 of the Taylor values kept, directions if more than one
    std::vector<double> y(m, 1e30);
    std::string nm;
    int rc = 0;
    bool deriv = !sw && !w.tie, drv = false, none = false, codeonly = false;
    auto J = [&] { return expand(B, x, 1); };
    auto Jv = [&](const std::vector<double> &X) { Lin L; auto q = J(); for (int j = 0; j < m; ++j) { std::vector<std::pair<size_t, double>> v; for (int i = 0; i < n; ++i) v.push_back({(size_t)(j * n + i), X[i]}); L.add(q, v); } return L.q; };
    auto vJ = [&](const std::vector<double> &U) { Lin L; auto q = J(); for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> v; for (int j = 0; j < m; ++j) v.push_back({(size_t)(j * n + i), U[j]}); L.add(q, v); } return L.q; };
    auto Hv = [&](const std::vector<double> &U, const std::vector<double> &V) { Lin L; auto q = expand(B, x, 2); for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> v; for (int j = 0; j < m; ++j) for (int k = 0; k < n; ++k) v.push_back({(size_t)((j * n + i) * n + k), U[j] * V[k]}); L.add(q, v); } return L.q; };
    std::function<void()> after = [] {};
    switch (how) {
    case 0: nm = "zos_forward"; kept = (int)g.below(2); rc = zos_forward(id, m, n, kept, x.data(), y.data()); break;
    case 1: { nm = "fos_forward"; int keep = kept = (int)g.below(3); auto X = reals(g, n); std::vector<double> Y(m, 1e30); rc = fos_forward(id, m, n, keep, x.data(), X.data(), y.data(), Y.data()); if (deriv) cmpv(nm, Y, Jv(X)); break; }
    case 2: { nm = "fov_forward"; int p = g.range(1, 3); Mat X(n, p), Y(m, p, 1e30); for (auto &v : X.d) v = g.real(-2, 2); rc = fov_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p());
      if (deriv) for (int k = 0; k < p; ++k) { std::vector<double> a, b; for (int i = 0; i < n; ++i) a.push_back(X[i][k]); for (int j = 0; j < m; ++j) b.push_back(Y[j][k]); cmpv(nm, b, Jv(a)); } break; }
    case 3: case 4: { int d = g.range(1, 3), keep = kept = (int)g.below(d + 2); nm = "hos_forward"; Mat X(n, d), Y(m, d, 1e30); for (auto &v : X.d) v = g.real(-1, 1); rc = hos_forward(id, m, n, d, keep, x.data(), X.p(), y.data(), Y.p());
      if (deriv) { std::vector<double> a, b; for (int i = 0; i < n; ++i) a.push_back(X[i][0]); for (int j = 0; j < m; ++j) b.push_back(Y[j][0]); cmpv(nm, b, Jv(a)); } break; }
    case 5: case 6: { int d = g.range(1, 3), p = g.range(1, 2), wk = how == 6; nm = wk ? "hov_wk_forward" : "hov_forward"; Ten X(n, p, d), Y(m, p, d, 1e30); for (auto &v : X.d) v = g.real(-1, 1);
      if (wk) kept = (int)g.below(d + 2), kdirs = p;
      rc = wk ? hov_wk_forward(id, m, n, d, kept, p, x.data(), X.p(), y.data(), Y.p()) : hov_forward(id, m, n, d, p, x.data(), X.p(), y.data(), Y.p());
      if (deriv) for (int k = 0; k < p; ++k) { std::vector<double> a, b; for (int i = 0; i < n; ++i) a.push_back(X[i][k][0]); for (int j = 0; j < m; ++j) b.push_back(Y[j][k][0]); cmpv(nm, b, Jv(a)); } break; }
    case 7: nm = "function"; rc = function(id, m, n, x.data(), y.data()); break;
    case 8: { nm = "jacobian"; drv = true; Mat A(m, n, 1e30); rc = ::jacobian(id, m, n, x.data(), A.p()); if (deriv) cmpv(nm, A.d, J()); break; }
    case 9: { nm = "jac_vec"; drv = true; auto X = reals(g, n); std::vector<double> Y(m, 1e30); rc = jac_vec(id, m, n, x.data(), X.data(), Y.data()); if (deriv) cmpv(nm, Y, Jv(X)); break; }
    case 10: { nm = "vec_jac"; drv = true; auto U = reals(g, m); std::vector<double> Z(n, 1e30); rc = vec_jac(id, m, n, 0, x.data(), U.data(), Z.data()); if (deriv) cmpv(nm, Z, vJ(U)); break; }
    case 11: { nm = "large_jacobian"; int runs = g.range(1, n); Mat A(m, n, 1e30); rc = large_jacobian(id, m, n, runs, x.data(), y.data(), A.p()); if (deriv) cmpv(nm, A.d, J()); break; }
    case 12: { nm = "lagra_hess_vec"; drv = true; auto U = reals(g, m), V = reals(g, n); std::vector<double> W(n, 1e30); rc = lagra_hess_vec(id, m, n, x.data(), V.data(), U.data(), W.data()); if (deriv) cmpv(nm, W, Hv(U, V)); break; }
    case 13: if (m == 1) { nm = "gradient"; drv = true; std::vector<double> G(n, 1e30); rc = gradient(id, n, x.data(), G.data()); if (deriv) cmpv(nm, G, J()); } else none = true; break;
    case 14: if (m == 1) {
        drv = true;
        int v = (int)g.below(4);
        if (w.tie && !sw) v = v ? 2 : 0; // hos_ov_reverse does not support ties of minima
        Mat H(n, n, 0);
        if (v == 2) { nm = "hess_vec"; auto V = reals(g, n); std::vector<double> W(n, 1e30); rc = hess_vec(id, n, x.data(), V.data(), W.data()); if (deriv) cmpv(nm, W, Hv({1.0}, V)); break; }
        if (v == 3) {
          nm = "hess_mat"; int q = g.range(1, 3); Mat V(n, q), W(n, q, 1e30); for (auto &t : V.d) t = g.real(-1, 1);
          rc = hess_mat(id, n, q, x.data(), V.p(), W.p());
          if (deriv) for (int k = 0; k < q; ++k) { std::vector<double> a, b; for (int i = 0; i < n; ++i) { a.push_back(V[i][k]); b.push_back(W[i][k]); } cmpv(nm, b, Hv({1.0}, a)); }
          break;
        }
        nm = v ? "hessian2" : "hessian";
        rc = v ? hessian2(id, n, x.data(), H.p()) : hessian(id, n, x.data(), H.p());
        if (deriv) { auto h = expand(B, x, 2); Lin L; std::vector<double> got; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L.add(h, {{(size_t)(i * n + j), 1.0}}); got.push_back(H[i][j]); } cmpv(nm, got, L.q); }
      } else none = true;
      break;
    case 15: { nm = "sparse_jac"; drv = true; ADOLC::Sparse::SparseMatrix sm; using namespace ADOLC::Sparse;
      // active subscripts are not supported by the safe mode
      rc = hasel(B.items) ? sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Tight>(id, m, n, 0, x.data(), sm) : sparse_jac<>(id, m, n, 0, x.data(), sm); if (deriv) { Mat A(m, n, 0); for (size_t k = 0; k < sm.size(); ++k) A[sm.rowIndex(k)][sm.colIndex(k)] = sm.value(k); cmpv(nm, A.d, J()); } break; }
    case 16: if (m == n) { // only the code: the system may be singular
        nm = "jac_solv"; drv = true; std::vector<double> b(n, 1.0); rc = jac_solv(id, n, x.data(), b.data(), (unsigned short)g.below(3)); if (rc == -3 && !sw) rc = 3;
      } else none = true;
      break;
    case 17: { // the propagations behind the pattern drivers, with the codes of the sweeps
      int v = (int)g.below(5);
      if (v < 2) {
        int wd = g.range(1, 2);
        std::vector<std::vector<bitword_t>> S(n, std::vector<bitword_t>(wd)), R(m, std::vector<bitword_t>(wd));
        for (auto &r : S) for (auto &b : r) b = g.coin() ? 0 : ~(bitword_t)0;
        std::vector<bitword_t *> sp, rp;
        for (auto &r : S) sp.push_back(r.data());
        for (auto &r : R) rp.push_back(r.data());
        nm = "int_forward_tight";
        rc = v ? ADOLC::Sparse::forward<ADOLC::Sparse::ControlFlowMode::Tight>(id, m, n, wd, x.data(), sp, y.data(), rp) : int_forward_tight(id, m, n, wd, x.data(), sp.data(), y.data(), rp.data());
      } else {
        bool ind = v == 2;
        codeonly = true;
        std::vector<unsigned *> r(ind ? m : n, nullptr);
        nm = ind ? "indopro_forward_tight" : v == 3 ? "nonl_ind_forward_tight" : "nonl_ind_old_forward_tight";
        rc = ind ? indopro_forward_tight(id, m, n, x.data(), r.data()) : v == 3 ? nonl_ind_forward_tight(id, m, n, x.data(), r.data()) : nonl_ind_old_forward_tight(id, m, n, x.data(), r.data());
        for (auto *q : r) delete[] q;
      }
      break;
    }
    case 20: { // piecewise linear drivers: only the codes and the values
      int s = (int)get_num_switches(id), v = (int)g.below(6), p = g.range(1, 2);
      std::vector<double> z(s + 1, 0.0), z1(s + 1, 0.0), y1(m, 0.0), X = reals(g, n);
      std::vector<short> sg(s + 1, 1);
      drv = true;
      if (v == 5 && m != 1) v = 0;
      if (v < 2) {
        nm = "abs_normal"; Mat Y(m, n), Jm(m, s + 1), Z(s + 1, n), L(s + 1, s + 1); rc = abs_normal(id, m, n, s, x.data(), y.data(), z.data(), Y.p(), Jm.p(), Z.p(), L.p());
        if (!sw) cmpv(nm + "-value", y, expand(B, x, 0));
      } else if (v == 2) { nm = "zos_pl_forward"; kept = (int)g.below(2); rc = zos_pl_forward(id, m, n, kept, x.data(), y.data(), z.data()); }
      else if (v == 3) { nm = "fos_pl_forward"; rc = fos_pl_forward(id, m, n, x.data(), X.data(), y.data(), y1.data(), z.data(), z1.data()); }
      else if (v == 4) { nm = "fov_pl_forward"; Mat XX(n, p, 0.5), YY(m, p), ZZ(s + 1, p); rc = fov_pl_forward(id, m, n, p, x.data(), XX.p(), y.data(), YY.p(), z.data(), ZZ.p(), sg.data()); }
      else { nm = "directional_active_gradient"; std::vector<double> G(n); try { rc = directional_active_gradient(id, n, x.data(), X.data(), G.data(), sg.data()); } catch (const ADOLCError::ADOLCError &) { if (sw) throw; none = true; } }
      break;
    }
    default: {
      drv = true;
      bool hp = m == 1 && g.coin();
      nm = hp ? "hess_pat" : "jac_pat";
      std::vector<unsigned *> rows(hp ? n : m, nullptr);
      std::span<unsigned *> sp(rows);
      if (hp) rc = ADOLC::Sparse::hess_pat<ADOLC::Sparse::ControlFlowMode::Tight>(id, n, x.data(), sp);
      else {
        using namespace ADOLC::Sparse;
        using D = BitPatternPropagationDirection;
        switch (g.below(3)) {
        case 0: rc = jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(id, m, n, x.data(), sp); break;
        case 1: rc = jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, D::Forward>(id, m, n, x.data(), sp); break;
        default: rc = jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, D::Reverse>(id, m, n, x.data(), sp); break;
        }
      }
      for (auto *r : rows) delete[] r;
    }
    }
    if (none) continue;
    c.desc << nm << " at " << refd::show(x) << " returned " << rc << "\n";
    c.label(nm);
    if (sw) {
      c.check(rc < 0, "unreported-" + nm, cat(nm, " at ", refd::show(x), " returned ", rc, " although a recorded comparison comes out differently there"));
      if (kept && g.coin()) { // nothing was kept by a sweep that stopped: a reverse sweep must not deliver anything
        c.label("reverse after a switch");
        std::vector<double> U(m, 1.0), Z(n, 0.0);
        int r = -1;
        std::string rv = kdirs ? "hos_ov_reverse" : kept == 1 ? "fos_reverse" : "hos_reverse";
        try {
          if (kdirs) { Mat UU(kdirs, m, 1.0); Ten R(kdirs, n, kept, 0.0); r = hos_ov_reverse(id, m, n, kept - 1, kdirs, UU.p(), R.p()); }
          else if (kept == 1) r = fos_reverse(id, m, n, U.data(), Z.data());
          else { Mat R(n, kept, 0.0); r = hos_reverse(id, m, n, kept - 1, U.data(), R.p()); }
        } catch (const ADOLCError::ADOLCError &) {}
        c.check(r < 0, "reverse-after-switch", cat(rv, " after ", nm, " stopped at a comparison returned ", r));
      }
    } else {
      c.check(rc >= 0, "alarm-" + nm, cat(nm, " at ", refd::show(x), " returned ", rc, " although every comparison comes out as recorded"));
      if (!drv) {
        c.check(rc >= w.lo && rc <= w.hi, "code-" + nm, cat(nm, " at ", refd::show(x), " returned ", rc, ", expected ", w.lo, w.lo == w.hi ? "" : cat("..", w.hi)));
        if (!codeonly) cmpv(nm + "-value", y, expand(B, x, 0));
      }
    }
    if (g.chance(1, 6)) { x0 = x; rec = now; recorded(x0); c.desc << "re-recorded at " << refd::show(x0) << "\n"; c.label("re-recorded"); }
  }
}
