// Programs that address arrays through active subscripts against the same programs on plain arrays.
#include "evals.hpp"
#include "safe.hpp"
#include <adolc/advector.h>
#include <memory>
using namespace refd;
const CheckInfo CHECK{"C22",
  "a case records a random program on 1-3 arrays (1-5 elements) with reads and writes through active subscripts (subscripts computed from active values, constants, independents or array elements): assignment of constants, variables, "
  "array elements and parameters, compound updates, increments, conditional assignments with 2 or 3 operands, independents and dependents declared through subscripts, references held over several operations, array copies, table "
  "lookup; mixed with plain element access and smooth operations; recorded with or without keep, into files or small buffers, after fragmenting the locations; then evaluates it by random sweeps and drivers of any order at the recording point and two others; "
  "oracle: exact derivatives of the program on plain arrays; non-trivial: a derivative compared for a program with at least two subscript operations at a point where a subscript differs from the recording, or at the recording point with an updated element read back",
  12000, 200000, 25, 600, {"subscripts are non-negative, inside the array and 0.0001 away from integers unless constant; conditions 0.0001 away from zero or constant zero; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
inline double val(const adouble &a) { return a.value(); }
inline double val(double a) { return a; }
template <class R> double val(const ref::Alg<R> &a) { return (double)a.c[0]; }
inline double val(const ref::Alg<ref::Nz> &a) { return (double)a.c[0].v; }

enum Kind { PLAIN, RPLAIN, WPLAIN, READC, READ, REF, COPYA, LOOKUP, NONDEC, ASSIGNA };
enum Act { SETC, SETV, SETE, SETP, INC, DEC, PINC, PDEC, ADDC, ADDV, ADDP, SUBC, SUBV, SUBP, MULC, MULV, MULP, DIVC, DIVV, CA2, CA1, CEQ2, CEQ1, IND, DECIND, DEP, DECDEP, GET, PLAINOP, NACT };
const char *KN[] = {"op", "element", "set element", "read const", "read", "ref", "copy array", "lookup", "nondecreasing", "assign array"};
const char *AN[] = {"=c", "=v", "=element", "=param", "++x", "--x", "x++", "x--", "+=c", "+=v", "+=param", "-=c", "-=v", "-=param", "*=c", "*=v", "*=param", "/=c", "/=v", "condassign3", "condassign2", "condeqassign3", "condeqassign2", "<<=", "declareIndependent", ">>=", "declareDependent", "get", "op"};
struct A_ { int act, v, w, cond; double c; bool elem; int ei; };
struct St {
  Kind k; safe::Op op; int arr = 0, elem = 0, v = 0;
  int ik = 0, iv = 0; double ic = 0; // subscript: 0 constant, 1 computed, 2 computed and rounded, 3 element of the array
  std::vector<A_> acts;
};
struct Model {
  int n, m, pool;
  std::vector<int> size; // initial arrays
  std::vector<St> st;
  std::vector<int> init; // pool position per initial element
  std::vector<int> out;
  int deps = 0, inds = 0, subs = 0;
};
// what a run saw
struct Seen { std::vector<int> idx; std::vector<int> cond; bool tight = false, tie = false; };
thread_local Seen *seen = nullptr;
inline int use_index(double v, bool constant, int n) {
  int k = v >= 0 && v < n ? (int)v : 0; // outside only where the reference arithmetic carries noise into the subscript
  if (seen) { seen->idx.push_back(k); if (!constant && (std::fabs(v - std::round(v)) < 1e-4)) seen->tight = true; }
  return k;
}
inline int use_cond(double v, bool constant) {
  int s = v > 0 ? 1 : v < 0 ? -1 : 0;
  if (seen) { seen->cond.push_back(s); if (s == 0) seen->tie = true; if (!constant && std::fabs(v) < 1e-4) seen->tight = true; }
  return s;
}
template <class T> T subscript_of(const T &s, int n) { using std::tanh; return (tanh(s) + T(1.0)) * T(0.4999 * n); } // in (0, n)

template <class T> std::vector<T> plain(const Model &M, const std::vector<T> &x) {
  int ind = 0;
  std::vector<T> s;
  for (int i = 0; i < M.n - M.inds; ++i) s.push_back(x[ind++]);
  std::vector<std::vector<T>> A;
  std::vector<T> y;
  int p = 0;
  for (int n : M.size) { A.emplace_back(); for (int i = 0; i < n; ++i) A.back().push_back(s[M.init[p++]]); }
  auto index = [&](const St &q) -> int {
    auto &a = A[q.arr];
    int n = (int)a.size();
    switch (q.ik) {
    case 0: return use_index(q.ic, true, n);
    case 1: return use_index(val(subscript_of(s[q.iv], n)), false, n);
    case 2: { double v = val(subscript_of(s[q.iv], n)); use_index(v, false, n); return use_index(std::floor(v), true, n); }
    default: a[q.elem] = subscript_of(s[q.iv], n); return use_index(val(a[q.elem]), false, n);
    }
  };
  for (auto &q : M.st) switch (q.k) {
    case PLAIN: s.emplace_back(); safe::step(q.op, s); break;
    case RPLAIN: s.push_back(A[q.arr][q.elem]); break;
    case WPLAIN: { using std::sin; if (q.ik % 2) A[q.arr][q.elem] = sin(s[q.v]); else A[q.arr][q.elem] = s[q.v]; break; }
    case READC: case READ: { int k = index(q); s.push_back(A[q.arr][k]); break; }
    case COPYA: A.push_back(A[q.arr]); break;
    case ASSIGNA: A[q.elem] = A[q.arr]; break;
    case NONDEC: break;
    case LOOKUP: {
      double r = 0;
      int i = 0;
      for (auto &e : A[q.arr]) { ++i; double d = val(s[q.v]) - val(e) * q.ic; if (use_cond(d, false) > 0) r = i; }
      s.push_back(T(r));
      break;
    }
    case REF: {
      int k = index(q);
      auto &a = A[q.arr];
      for (auto &z : q.acts) {
        T v = z.elem ? a[z.ei] : s[z.v], w = s[z.w];
        T &e = a[k];
        switch (z.act) {
        case SETC: e = T(z.c); break;
        case SETV: e = v; break;
        case SETE: e = v; break;
        case SETP: e = T(z.c); break;
        case INC: e = e + T(1.0); break;
        case DEC: e = e - T(1.0); break;
        case PINC: s.push_back(e); e = e + T(1.0); break;
        case PDEC: s.push_back(e); e = e - T(1.0); break;
        case ADDC: case ADDP: e = e + T(z.c); break;
        case ADDV: e = e + v; break;
        case SUBC: case SUBP: e = e - T(z.c); break;
        case SUBV: e = e - v; break;
        case MULC: case MULP: e = e * T(z.c); break;
        case MULV: e = e * v; break;
        case DIVC: e = e * T(1.0 / z.c); break;
        case DIVV: e = e * (T(1.0) / (T(1.5) + w * w)); break;
        case CA2: { int d = z.cond < 0 ? use_cond(0, true) : use_cond(val(s[z.cond]), false); e = T(d > 0 ? v : w); break; }
        case CA1: { int d = z.cond < 0 ? use_cond(0, true) : use_cond(val(s[z.cond]), false); if (d > 0) e = T(v); break; }
        case CEQ2: { int d = z.cond < 0 ? use_cond(0, true) : use_cond(val(s[z.cond]), false); e = T(d >= 0 ? v : w); break; }
        case CEQ1: { int d = z.cond < 0 ? use_cond(0, true) : use_cond(val(s[z.cond]), false); if (d >= 0) e = T(v); break; }
        case IND: case DECIND: e = x[ind++]; break;
        case DEP: case DECDEP: y.push_back(e); break;
        case GET: s.push_back(e); break;
        case PLAINOP: { using std::sin; s.push_back(sin(v)); break; }
        }
      }
    }
  }
  for (int o : M.out) y.push_back(s[o]);
  return y;
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  Model M;
  bool big = g.chance(1, 12);
  if (big) c.label("large");
  int base = g.range(1, big ? 12 : 4);
  M.n = base;
  M.pool = base;
  int na = g.range(1, 2);
  std::vector<int> sizes;
  for (int k = 0; k < na; ++k) { M.size.push_back(g.range(1, big ? 40 : 5)); for (int i = 0; i < M.size.back(); ++i) M.init.push_back((int)g.below(M.pool)); }
  sizes = M.size;
  int len = g.range(2, big ? 60 : 14), updates = 0;
  bool anycond = false, mul = false, high = true;
  for (int k = 0; k < len; ++k) {
    St q;
    q.k = (Kind)g.pick({5, 2, 2, 4, 3, 10, 1, 1, 0, 1});
    q.arr = (int)g.below(sizes.size());
    int n = sizes[q.arr];
    q.elem = (int)g.below(n);
    q.v = (int)g.below(M.pool);
    q.ik = g.pick({1, 4, 1, 1}); q.iv = (int)g.below(M.pool); q.ic = (double)g.below(n) + (g.coin() ? 0.0 : 0.5);
    if (q.ik == 2) anycond = true; // floor
    switch (q.k) {
    case PLAIN: { auto p = safe::random(g, M.pool, 1, 1, false); q.op = p.ops[0]; q.op.r = M.pool++; break; }
    case RPLAIN: M.pool++; break;
    case READC: case READ: M.pool++; M.subs++; break;
    case COPYA: if (sizes.size() > 2) continue; q.elem = (int)g.below(3); sizes.push_back(n); break;
    case ASSIGNA: q.elem = (int)g.below(sizes.size()); if (q.elem == q.arr) continue; sizes[q.elem] = n; break;
    case LOOKUP: if (n < 2) continue; q.ic = g.real(0.1, 1.5); M.pool++; anycond = true; break;
    case REF: {
      M.subs++; updates++;
      int na = g.pick({5, 2, 1}) + 1;
      for (int i = 0; i < na; ++i) {
        A_ z;
        z.act = g.pick({1, 4, 2, 1, 1, 1, 1, 1, 1, 3, 1, 1, 3, 1, 1, 3, 1, 1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 3, 1});
        z.v = (int)g.below(M.pool); z.w = (int)g.below(M.pool); z.c = g.pick({1, 1, 4}) == 0 ? 0.0 : g.chance(1, 4) ? 1.0 : g.real(-1.2, 1.2);
        if (z.act >= MULC && std::fabs(z.c) < 0.4) z.c = 0.7;
        z.cond = g.chance(1, 8) ? -1 : (int)g.below(M.pool);
        z.elem = z.act == SETE || g.chance(1, 4); z.ei = (int)g.below(n);
        if (z.act >= CA2 && z.act <= CEQ1) anycond = true;
        if (z.act == PINC || z.act == PDEC || z.act == GET || z.act == PLAINOP) M.pool++;
        if (z.act == IND || z.act == DECIND) { M.n++; M.inds++; }
        if (z.act == DEP || z.act == DECDEP) M.deps++;
        if (z.act == MULV) mul = true;
        q.acts.push_back(z);
      }
      break;
    }
    default:;
    }
    M.st.push_back(q);
  }
  // read some elements back
  for (size_t k = 0; k < sizes.size(); ++k) if (g.coin()) { St q; q.k = g.coin() ? RPLAIN : READC; q.arr = (int)k; q.elem = (int)g.below(sizes[k]); q.ik = 1; q.iv = (int)g.below(M.pool); M.pool++; M.st.push_back(q); if (q.k == READC) M.subs++; }
  int mo = g.range(1, 3);
  for (int j = 0; j < mo; ++j) M.out.push_back(g.chance(1, 4) ? (int)g.below(M.pool) : M.pool - 1 - (int)g.below(std::min(M.pool, 4)));
  M.m = M.deps + mo;
  if (!M.subs) c.discard();
  int n = M.n, m = M.m;
  c.desc << n << " independents (" << M.inds << " through subscripts), arrays";
  { int p = 0; for (int z : M.size) { c.desc << " ["; for (int i = 0; i < z; ++i) c.desc << " s" << M.init[p++]; c.desc << " ]"; } }
  c.desc << "\n";
  int pos = base;
  for (auto &q : M.st) {
    c.desc << KN[q.k] << " array " << q.arr;
    if (q.k == PLAIN) c.desc << " op" << q.op.op << " s" << q.op.a << " s" << q.op.b << " c=" << q.op.c;
    else if (q.k >= READC && q.k <= REF) c.desc << " index kind " << q.ik << " s" << q.iv << " c=" << q.ic << " element " << q.elem;
    else c.desc << " element " << q.elem << " s" << q.v << " c=" << q.ic;
    for (auto &z : q.acts) c.desc << " [" << AN[z.act] << " v=" << (z.elem ? "element " : "s") << (z.elem ? z.ei : z.v) << " w=s" << z.w << " cond=s" << z.cond << " c=" << z.c << "]";
    c.desc << "\n";
  }
  (void)pos;
  c.desc << "dependents"; for (int o : M.out) c.desc << " s" << o; c.desc << "\n";
  auto F = evals::fun(n, m, [&](const auto &x) { return plain(M, x); });
  std::vector<Vec> pts;
  std::vector<Seen> sn(3);
  for (int k = 0; k < 3; ++k) {
    pts.push_back(reals(g, n));
    if (k == 2 && g.coin()) { pts[2] = pts[0]; for (auto &v : pts[2]) if (g.coin()) v += g.real(-0.3, 0.3); }
    seen = &sn[k];
    auto q = evals::values(F, pts[k]);
    seen = nullptr;
    if (sn[k].tight || !finite(q) || q.scale() > 1e6) c.discard();
  }
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  findTape(id).disableBranchSwitchWarnings();
  int nrec = g.chance(1, 5) ? 2 : 1, at = 0, keep = 0;
  for (int rec = 0; rec < nrec; ++rec) {
    at = (int)g.below(3);
    keep = (int)g.below(2);
    int store = g.pick({3, 1, 1}), frag = g.pick({2, 1});
    bool moved = g.coin();
    std::vector<std::unique_ptr<adouble>> junk;
    if (frag) { for (int i = 0; i < 24; ++i) junk.emplace_back(new adouble); for (auto &j : junk) if (g.coin()) j.reset(); }
    if (store == 1) trace_on(id, keep, g.range(12, 60), g.range(60, 160), g.range(6, 20), g.range(10, 64), 1); else trace_on(id, keep);
    Vec y(m, 1e30);
    {
      const Vec &x = pts[at];
      int ind = 0, dep = 0;
      std::vector<std::unique_ptr<adouble>> s;
      auto push = [&](const adouble &v) { s.emplace_back(new adouble(v)); };
      for (int i = 0; i < base; ++i) { s.emplace_back(new adouble); *s.back() <<= x[ind++]; }
      std::vector<std::unique_ptr<advector>> A;
      int p = 0;
      for (int z : M.size) { A.emplace_back(new advector((size_t)z)); for (int i = 0; i < z; ++i) { if (moved) (*A.back())[(size_t)i] = 1.0 * *s[M.init[p]]; else (*A.back())[(size_t)i] = *s[M.init[p]]; ++p; } }
      auto index = [&](const St &q) -> adouble {
        auto &a = *A[q.arr];
        int nn = (int)a.size();
        switch (q.ik) {
        case 0: return adouble(q.ic);
        case 1: return subscript_of<adouble>(*s[q.iv], nn);
        case 2: return floor(subscript_of<adouble>(*s[q.iv], nn));
        default: a[(size_t)q.elem] = subscript_of<adouble>(*s[q.iv], nn); return adouble(0.0);
        }
      };
      int cnt = 0;
      for (auto &q : M.st) {
        ++cnt;
        switch (q.k) {
        case PLAIN: { std::vector<adouble> v(3); v[0] = *s[q.op.a]; v[1] = *s[q.op.b]; auto o = q.op; o.a = 0; o.b = 1; o.r = 2; safe::step(o, v); push(v[2]); break; }
        case RPLAIN: push((*A[q.arr])[(size_t)q.elem]); break;
        case WPLAIN: if (q.ik % 2) (*A[q.arr])[(size_t)q.elem] = sin(*s[q.v]); else (*A[q.arr])[(size_t)q.elem] = *s[q.v]; break;
        case READC: { const advector &a = *A[q.arr]; adouble i = index(q); if (q.ik == 3) push(a[a[(size_t)q.elem]]); else push(a[i]); break; }
        case READ: { advector &a = *A[q.arr]; adouble i = index(q); if (q.ik == 3) push(adouble(a[a[(size_t)q.elem]])); else push(adouble(a[i])); break; }
        case COPYA:
          if (q.elem == 0) A.emplace_back(new advector(*A[q.arr]));
          else if (q.elem == 1) { const std::vector<adouble> &v = *A[q.arr]; A.emplace_back(new advector(v)); }
          else { A.emplace_back(new advector); *A.back() = *A[q.arr]; }
          break;
        case ASSIGNA: *A[q.elem] = *A[q.arr]; break;
        case NONDEC: break;
        case LOOKUP: {
          auto &a = *A[q.arr];
          bool nd = true;
          for (size_t i = 1; i < a.size(); ++i) nd &= a[i - 1].value() <= a[i].value();
          c.check(a.nondecreasing() == nd, "nondecreasing", cat("nondecreasing() returns ", !nd));
          if (nd) push(a.lookupindex(*s[q.v], adouble(q.ic)));
          else { // the same selection by hand
            adouble r = 0.0;
            for (size_t i = 0; i < a.size(); ++i) condassign(r, *s[q.v] - a[i] * adouble(q.ic), adouble((double)(i + 1)));
            push(r);
          }
          if (nd) c.label("lookupindex");
          break;
        }
        case REF: {
          advector &a = *A[q.arr];
          adouble i = index(q);
          adubref e = a[q.ik == 3 ? a[(size_t)q.elem] : i];
          for (auto &z : q.acts) {
            const adouble &v = z.elem ? a[(size_t)z.ei] : *s[z.v], &w = *s[z.w];
            c.label(AN[z.act]);
            std::unique_ptr<adouble> tmp;
            auto cond = [&]() -> const adouble & { if (z.cond >= 0) return *s[z.cond]; tmp.reset(new adouble(0.0)); return *tmp; };
            switch (z.act) {
            case SETC: e = z.c; break;
            case SETV: e = v; break;
            case SETE: e = adouble(a[adouble((double)z.ei)]); break;
            case SETP: e = pdouble(z.c); break;
            case INC: ++e; break;
            case DEC: --e; break;
            case PINC: push(e++); break;
            case PDEC: push(e--); break;
            case ADDC: e += z.c; break;
            case ADDV: e += v; break;
            case ADDP: e += pdouble(z.c); break;
            case SUBC: e -= z.c; break;
            case SUBV: e -= v; break;
            case SUBP: e -= pdouble(z.c); break;
            case MULC: e *= z.c; break;
            case MULV: e *= v; break;
            case MULP: e *= pdouble(z.c); break;
            case DIVC: e /= z.c; break;
            case DIVV: e /= (1.5 + w * w); break;
            case CA2: condassign(e, cond(), v, w); break;
            case CA1: condassign(e, cond(), v); break;
            case CEQ2: condeqassign(e, cond(), v, w); break;
            case CEQ1: condeqassign(e, cond(), v); break;
            case IND: e <<= x[ind++]; break;
            case DECIND: e = x[ind++]; e.declareIndependent(); break;
            case DEP: e >>= y[dep++]; break;
            case DECDEP: y[dep++] = adouble(e).value(); e.declareDependent(); break;
            case GET: push(e); break;
            case PLAINOP: push(sin(v)); break;
            }
          }
          break;
        }
        }
      }
      for (int o : M.out) *s[o] >>= y[dep++];
      c.check(dep == m && ind == n, "count", "harness");
      junk.clear();
    }
    trace_off(store == 2);
    c.desc << "recorded at " << show(pts[at]) << " keep " << keep << (store == 1 ? " small buffers" : store == 2 ? " file" : "") << (frag ? " fragmented" : "") << "\n";
    auto w = evals::values(F, pts[at]);
    for (int j = 0; j < m; ++j) c.check(close(y[j], w.l[j], w.d[j], w.scale()), "recording", cat("dependent ", j, " is ", y[j], " after recording, expected ", (double)w.l[j]));
  }
  (void)mul; (void)high;
  auto cmpcode = [&](const Vec &x, int rc) {
    Seen t;
    seen = &t; evals::values(F, x); seen = nullptr;
    if (!anycond) return rc == 3;
    if (t.cond == sn[at].cond && t.idx == sn[at].idx && !t.tie) return rc == 3;
    return rc >= 0 && rc <= 3;
  };
  evals::Eval E{c, id, F, cmpcode, evals::ALL};
  E.maxdeg = 3;
  E.tight_only = true;
  if (keep && g.coin()) {
    Vec U = reals(g, m), Z(n, 1e30);
    int rc = fos_reverse(id, m, n, U.data(), Z.data());
    c.check(rc >= 0, "code-kept", cat("fos_reverse after recording returned ", rc));
    E.cmpq("kept-reverse", cat("at ", show(pts[at]), " U=", show(U)), Z, E.vJ(pts[at], U));
    c.label("reverse after recording");
    if (M.subs >= 2 && updates) c.interesting();
  }
  int evs = g.range(1, 4);
  for (int k = 0; k < evs; ++k) {
    int z = (int)g.below(3);
    if (E.one(pts[z])) {
      bool differ = sn[z].idx != sn[at].idx;
      if (differ) c.label("other subscripts");
      if (M.subs >= 2 && (differ || updates)) c.interesting();
    }
    c.desc << E.last << "\n";
  }
}
