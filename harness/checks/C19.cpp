// Calls of external functions against the same program with the bodies inline.
#include "evals.hpp"
#include "safe.hpp"
#include <adolc/edfclasses.h>
#include <map>
#include <memory>
using namespace refd;
const CheckInfo CHECK{"C19",
  "a case records a random program mixing ordinary instructions with 1-6 calls of 1-3 external functions with different numbers of arguments, through every interface (plain, with "
  "integer arrays, several vectors, the three object classes), with hand-coded derivatives or through an inner tape (which may itself contain an external call), reusing one registration "
  "for several shapes, with fresh or overwritten argument arrays, a result array passed on as argument, random flags and return codes, small buffers or recorded twice, and performs "
  "random zero- and first-order sweeps and drivers, also a reverse sweep directly after recording; oracle: exact derivatives of the program with the bodies inline; callbacks check the arguments they get; "
  "non-trivial: at least two calls, nonlinear bodies, and a derivative compared",
  20000, 300000, 22, 600, {"argument and result arrays do not overlap; external functions leave their inputs unchanged; higher-order sweeps over external functions are documented as not implemented; comparison tolerance about 1e-9 relative"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using Vec = std::vector<double>;
struct Body { // one external function with hand-coded derivatives
  std::vector<safe::Prog> *all = nullptr;
  Case *c = nullptr;
  int rc = 3;
  std::map<std::vector<size_t>, int> *arrs = nullptr; // known integer arrays -> program
  const safe::Prog &of(int m, int n) const {
    for (auto &p : *all) if (p.n == n && p.m == m) return p;
    c->check(false, "shape", cat("a callback was given the shape ", n, " -> ", m, " that was never recorded"));
    throw std::logic_error("shape");
  }
  const safe::Prog &of(size_t len, size_t *a) const {
    std::vector<size_t> v(a, a + len);
    auto it = arrs->find(v);
    c->check(it != arrs->end(), "iarr", cat("a callback was given an unknown integer array of length ", len));
    if (it == arrs->end()) throw std::logic_error("iarr");
    return (*all)[it->second];
  }
  void val(const safe::Prog &p, const double *x, double *y) const { auto r = safe::eval(p, Vec(x, x + p.n)); for (int j = 0; j < p.m; ++j) y[j] = r[j]; }
  void same(const safe::Prog &p, const double *x, const double *y) const { // in reverse callbacks: y = f(x)
    auto r = safe::eval(p, Vec(x, x + p.n));
    for (int j = 0; j < p.m; ++j) c->check(std::fabs(r[j] - y[j]) <= 1e-9 * (1 + std::fabs(r[j])), "reverse-arguments", cat("a reverse callback was given result ", j, " = ", y[j], " instead of ", r[j]));
  }
  int fos(const safe::Prog &p, const double *x, const double *X, double *y, double *Y) const {
    auto J = safe::jac(p, x);
    Vec o(p.m, 0.0);
    for (int j = 0; j < p.m; ++j) for (int i = 0; i < p.n; ++i) o[j] += J[j][i] * X[i];
    val(p, x, y);
    for (int j = 0; j < p.m; ++j) Y[j] = o[j];
    return rc;
  }
  int fov(const safe::Prog &p, int np, const double *x, double **X, double *y, double **Y) const {
    auto J = safe::jac(p, x);
    std::vector<Vec> o(p.m, Vec(np, 0.0));
    for (int j = 0; j < p.m; ++j) for (int k = 0; k < np; ++k) for (int i = 0; i < p.n; ++i) o[j][k] += J[j][i] * X[i][k];
    val(p, x, y);
    for (int j = 0; j < p.m; ++j) for (int k = 0; k < np; ++k) Y[j][k] = o[j][k];
    return rc;
  }
  int rev(const safe::Prog &p, const double *u, double *z, const double *x, const double *y) const {
    same(p, x, y);
    auto J = safe::jac(p, x);
    for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.m; ++j) z[i] += u[j] * J[j][i];
    return rc;
  }
};
std::vector<double> flat(size_t k, const size_t *sz, double **x) { Vec v; for (size_t i = 0; i < k; ++i) v.insert(v.end(), x[i], x[i] + sz[i]); return v; }
void unflat(size_t k, const size_t *sz, double **x, const Vec &v) { size_t t = 0; for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < sz[i]; ++j) x[i][j] = v[t++]; }
// version 2 (plain functions): the body is found through the context or, for objects, is part of the object
int v2_zos(Body &b, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t *osz, double **y) {
  auto &p = b.of(il, ia);
  auto X = flat(nin, isz, x);
  b.c->check((int)X.size() == p.n, "v2-shape", "wrong sizes of the input vectors");
  Vec Y(p.m);
  b.val(p, X.data(), Y.data());
  unflat(nout, osz, y, Y);
  return b.rc;
}
int v2_fos(Body &b, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, double **xp, size_t *osz, double **y, double **yp) {
  auto &p = b.of(il, ia);
  auto X = flat(nin, isz, x), D = flat(nin, isz, xp);
  Vec Y(p.m), E(p.m);
  b.fos(p, X.data(), D.data(), Y.data(), E.data());
  unflat(nout, osz, y, Y); unflat(nout, osz, yp, E);
  return b.rc;
}
int v2_fov(Body &b, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t nd, double ***Xp, size_t *osz, double **y, double ***Yp) {
  auto &p = b.of(il, ia);
  auto X = flat(nin, isz, x);
  Vec Y(p.m);
  std::vector<double *> D, E;
  for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < isz[i]; ++j) D.push_back(Xp[i][j]);
  for (size_t i = 0; i < nout; ++i) for (size_t j = 0; j < osz[i]; ++j) E.push_back(Yp[i][j]);
  b.fov(p, (int)nd, X.data(), D.data(), Y.data(), E.data());
  unflat(nout, osz, y, Y);
  return b.rc;
}
int v2_rev(Body &b, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, double **up, size_t *isz, double **zp, double **x, double **y) {
  auto &p = b.of(il, ia);
  auto X = flat(nin, isz, x), Y = flat(nout, osz, y), U = flat(nout, osz, up), Z = flat(nin, isz, zp);
  b.rev(p, U.data(), Z.data(), X.data(), Y.data());
  unflat(nin, isz, zp, Z);
  return b.rc;
}
int v2_rvv(Body &b, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, size_t q, double ***Up, size_t *isz, double ***Zp, double **x, double **y) {
  auto &p = b.of(il, ia);
  auto X = flat(nin, isz, x), Y = flat(nout, osz, y);
  b.same(p, X.data(), Y.data());
  auto J = safe::jac(p, X.data());
  std::vector<double *> U, Z;
  for (size_t i = 0; i < nout; ++i) for (size_t j = 0; j < osz[i]; ++j) U.push_back(Up[i][j]);
  for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < isz[i]; ++j) Z.push_back(Zp[i][j]);
  for (size_t l = 0; l < q; ++l) for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.m; ++j) Z[i][l] += U[j][l] * J[j][i];
  return b.rc;
}
Body &B(void *ctx) { return *(Body *)ctx; }
int f2(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t *osz, double **y, void *ctx) { return v2_zos(B(ctx), il, ia, nin, nout, isz, x, osz, y); }
int f2_fos(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, double **xp, size_t *osz, double **y, double **yp, void *ctx) { return v2_fos(B(ctx), il, ia, nin, nout, isz, x, xp, osz, y, yp); }
int f2_fov(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t nd, double ***Xp, size_t *osz, double **y, double ***Yp, void *ctx) { return v2_fov(B(ctx), il, ia, nin, nout, isz, x, nd, Xp, osz, y, Yp); }
int f2_rev(short, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, double **up, size_t *isz, double **zp, double **x, double **y, void *ctx) { return v2_rev(B(ctx), il, ia, nout, nin, osz, up, isz, zp, x, y); }
int f2_rvv(short, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, size_t q, double ***Up, size_t *isz, double ***Zp, double **x, double **y, void *ctx) { return v2_rvv(B(ctx), il, ia, nout, nin, osz, q, Up, isz, Zp, x, y); }

struct Obj1 : EDFobject {
  Body b; short outer, ext; // ext: inner tape or the outer one
  Obj1(Body bb, short o, short e) : EDFobject(o, e), b(bb), outer(o), ext(e) {}
  ext_diff_fct *fct() { return edf; }
  int function(short, int m, int n, double *x, double *y) override { b.val(b.of(m, n), x, y); return b.rc; }
  int zos_forward(short, int m, int n, int, double *x, double *y) override { b.val(b.of(m, n), x, y); return b.rc; }
  int fos_forward(short, int m, int n, int, double *x, double *X, double *y, double *Y) override { return b.fos(b.of(m, n), x, X, y, Y); }
  int fov_forward(short, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return b.fov(b.of(m, n), p, x, X, y, Y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return -2; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return -2; }
  int fos_reverse(short, int m, int n, double *u, double *z, double *x, double *y) override { return b.rev(b.of(m, n), u, z, x, y); }
  int fov_reverse(short, int m, int n, int q, double **U, double **Z, double *x, double *y) override { for (int l = 0; l < q; ++l) b.rev(b.of(m, n), U[l], Z[l], x, y); return b.rc; }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return -2; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return -2; }
};
struct ObjA : EDFobject_iArr {
  Body b;
  explicit ObjA(Body bb) : b(bb) {}
  ext_diff_fct *fct() { return edf; }
  int function(short, size_t l, size_t *a, int, int, double *x, double *y) override { b.val(b.of(l, a), x, y); return b.rc; }
  int zos_forward(short, size_t l, size_t *a, int, int, int, double *x, double *y) override { b.val(b.of(l, a), x, y); return b.rc; }
  int fos_forward(short, size_t l, size_t *a, int, int, int, double *x, double *X, double *y, double *Y) override { return b.fos(b.of(l, a), x, X, y, Y); }
  int fov_forward(short, size_t l, size_t *a, int, int, int p, double *x, double **X, double *y, double **Y) override { return b.fov(b.of(l, a), p, x, X, y, Y); }
  int hos_forward(short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **) override { return -2; }
  int hov_forward(short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***) override { return -2; }
  int fos_reverse(short, size_t l, size_t *a, int, int, double *u, double *z, double *x, double *y) override { return b.rev(b.of(l, a), u, z, x, y); }
  int fov_reverse(short, size_t l, size_t *a, int, int, int q, double **U, double **Z, double *x, double *y) override { for (int k = 0; k < q; ++k) b.rev(b.of(l, a), U[k], Z[k], x, y); return b.rc; }
  int hos_reverse(short, size_t, size_t *, int, int, int, double *, double **, double **, double **) override { return -2; }
  int hov_reverse(short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **) override { return -2; }
};
struct Obj2 : EDFobject_v2 {
  Body b;
  Obj2(Body bb, short o, short e) : EDFobject_v2(o, e), b(bb) {}
  ext_diff_fct_v2 *fct() { return edf; }
  int function(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t *osz, double **y, void *) override { return v2_zos(b, il, ia, nin, nout, isz, x, osz, y); }
  int zos_forward(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t *osz, double **y, void *) override { return v2_zos(b, il, ia, nin, nout, isz, x, osz, y); }
  int fos_forward(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, double **xp, size_t *osz, double **y, double **yp, void *) override { return v2_fos(b, il, ia, nin, nout, isz, x, xp, osz, y, yp); }
  int fov_forward(short, size_t il, size_t *ia, size_t nin, size_t nout, size_t *isz, double **x, size_t nd, double ***Xp, size_t *osz, double **y, double ***Yp, void *) override { return v2_fov(b, il, ia, nin, nout, isz, x, nd, Xp, osz, y, Yp); }
  int fos_reverse(short, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, double **up, size_t *isz, double **zp, double **x, double **y, void *) override { return v2_rev(b, il, ia, nout, nin, osz, up, isz, zp, x, y); }
  int fov_reverse(short, size_t il, size_t *ia, size_t nout, size_t nin, size_t *osz, size_t q, double ***Up, size_t *isz, double ***Zp, double **x, double **y, void *) override { return v2_rvv(b, il, ia, nout, nin, osz, q, Up, isz, Zp, x, y); }
};
enum { PLAIN, INNER, IARR, OBJ, OBJA, V2, OBJ2, NKIND };
const char *kname[] = {"plain", "inner tape", "integer array", "EDFobject", "EDFobject_iArr", "several vectors", "EDFobject_v2"};
struct Stage {
  bool call = false;
  safe::Op op{};
  int kind = 0, prog = 0, chain = -1, reuse = 0;
  std::vector<int> in;          // positions in the pool
  std::vector<size_t> iarr, isz, osz;
};
void set_plain(ext_diff_fct *e, Body b) {
  e->zos_forward = [b](short, int m, int n, int, double *x, double *y) { b.val(b.of(m, n), x, y); return b.rc; };
  e->fos_forward = [b](short, int m, int n, int, double *x, double *X, double *y, double *Y) { return b.fos(b.of(m, n), x, X, y, Y); };
  e->fov_forward = [b](short, int m, int n, int p, double *x, double **X, double *y, double **Y) { return b.fov(b.of(m, n), p, x, X, y, Y); };
  e->fos_reverse = [b](short, int m, int n, double *u, double *z, double *x, double *y) { return b.rev(b.of(m, n), u, z, x, y); };
  e->fov_reverse = [b](short, int m, int n, int q, double **U, double **Z, double *x, double *y) { for (int l = 0; l < q; ++l) b.rev(b.of(m, n), U[l], Z[l], x, y); return b.rc; };
}
struct Arr { // contiguous active array
  std::unique_ptr<adouble[]> a; int n;
  explicit Arr(int k) : n(k) { currentTape().ensureContiguousLocations(k); a.reset(new adouble[k]); }
  bool ok() const { return a[n - 1].loc() - a[0].loc() == (size_t)n - 1; }
};
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  bool big = g.chance(1, 12);
  if (big) c.label("large");
  int n = g.range(1, big ? 12 : 4);
  std::vector<safe::Prog> progs;
  int np = g.range(1, 3);
  while ((int)progs.size() < np) {
    int a = g.range(1, big ? 15 : 4), b = g.range(1, big ? 15 : 4);
    bool dup = false;
    for (auto &p : progs) dup |= p.n == a && p.m == b;
    if (dup) continue;
    progs.push_back(safe::random(g, a, b, g.range(1, 6)));
  }
  std::vector<Stage> st;
  int pool = n, ncalls = 0, nl = 0, len = g.range(2, big ? 40 : 12), maxcalls = g.range(1, big ? 30 : 6);
  std::vector<int> kinds;
  int nk = g.range(1, 3);
  for (int i = 0; i < nk; ++i) kinds.push_back(g.pick({4, 4, 2, 2, 2, 3, 2}));
  std::vector<std::pair<int, int>> outs; // stage, first pool position of a call that kept its arrays
  for (int i = 0; i < len || !ncalls; ++i) {
    Stage s;
    s.call = ncalls < maxcalls && (g.coin() || i >= len);
    if (!s.call) {
      auto p = safe::random(g, pool, 1, 1, false);
      s.op = p.ops[0];
      s.op.r = pool++;
    } else {
      ++ncalls;
      s.kind = kinds[g.below(kinds.size())];
      s.prog = (int)g.below(progs.size());
      auto &p = progs[s.prog];
      nl += p.nonlin;
      s.reuse = g.coin();
      for (int k = 0; k < p.n; ++k) s.in.push_back((int)g.below(pool));
      if (s.kind < V2 && g.chance(1, 3))
        for (auto &o : outs) if (progs[st[o.first].prog].m == p.n) { s.chain = o.first; for (int k = 0; k < p.n; ++k) s.in[k] = o.second + k; }
      if (s.kind == IARR || s.kind == OBJA || s.kind >= V2) {
        int l = g.range(1, big ? 30 : 4);
        s.iarr.push_back(st.size());
        for (int k = 1; k < l; ++k) s.iarr.push_back(g.below(1000));
      }
      if (s.kind >= V2) {
        for (int k = 0; k < p.n; ++k) if (k == 0 || g.coin()) s.isz.push_back(1); else ++s.isz.back();
        for (int k = 0; k < p.m; ++k) if (k == 0 || g.coin()) s.osz.push_back(1); else ++s.osz.back();
      }
      if (!s.reuse && s.kind < V2) outs.push_back({(int)st.size(), pool});
      pool += p.m;
    }
    st.push_back(s);
  }
  int m = g.range(1, 3);
  std::vector<int> out;
  for (int j = 0; j < m; ++j) out.push_back(g.chance(1, 4) ? (int)g.below(pool) : pool - 1 - (int)g.below(std::min(pool, 4)));
  for (size_t k = 0; k < progs.size(); ++k) c.desc << "f" << k << ": " << progs[k].str() << "\n";
  c.desc << n << " independents\n";
  int pos = n;
  for (auto &s : st) {
    if (!s.call) { c.desc << "s" << s.op.r << " = op " << s.op.op << " a=s" << s.op.a << " b=s" << s.op.b << " c=" << s.op.c << "\n"; ++pos; continue; }
    c.desc << "s" << pos << ".. = f" << s.prog << "(";
    for (int i : s.in) c.desc << " s" << i;
    c.desc << ") " << kname[s.kind] << (s.reuse ? ", shared arrays" : "") << (s.chain >= 0 ? ", result array as argument" : "");
    for (auto v : s.isz) c.desc << " in" << v;
    for (auto v : s.osz) c.desc << " out" << v;
    c.desc << "\n";
    pos += progs[s.prog].m;
  }
  c.desc << "dependents";
  for (int o : out) c.desc << " s" << o;
  c.desc << "\n";
  auto body = [&](const auto &x) {
    using T = std::decay_t<decltype(x[0])>;
    std::vector<T> s(x.begin(), x.end());
    for (auto &q : st) {
      if (!q.call) { s.emplace_back(); safe::step(q.op, s); continue; }
      std::vector<T> a;
      for (int i : q.in) a.push_back(s[i]);
      for (auto &v : safe::eval(progs[q.prog], a)) s.push_back(v);
    }
    std::vector<T> y;
    for (int o : out) y.push_back(s[o]);
    return y;
  };
  auto F = evals::fun(n, m, body);
  std::vector<Vec> pts;
  for (int k = 0; k < 2; ++k) pts.push_back(reals(g, n));

  taping::reset_library();
  std::map<std::vector<size_t>, int> arrs;
  for (auto &s : st) if (!s.iarr.empty()) arrs[s.iarr] = s.prog;
  std::vector<short> dummies;
  for (int k = (int)g.below(3); k-- > 0;) dummies.push_back((short)createNewTape());
  short id = (short)createNewTape();
  auto mkbody = [&]() { Body b; b.all = &progs; b.c = &c; b.rc = g.pick({1, 1, 1, 9}); b.arrs = &arrs; return b; };
  int want = 3; // smallest return code
  // inner tapes, one for each program used that way
  std::map<int, ext_diff_fct *> inner;
  std::vector<std::unique_ptr<Body>> bodies;
  for (auto &s : st) if (s.call && s.kind == INNER && !inner.count(s.prog)) {
    auto &p = progs[s.prog];
    short t = (short)createNewTape();
    bool nest = g.chance(1, 3);
    ext_diff_fct *ne = nullptr;
    if (nest) {
      Body b = mkbody();
      b.rc = 3;
      ne = reg_ext_fct(t, t, [b](short, int mm, int nn, double *x, double *y) { b.val(b.of(mm, nn), x, y); return b.rc; });
      set_plain(ne, b);
      c.label("nested");
    }
    setCurrentTape(t);
    trace_on(t);
    {
      Arr x(p.n), y(p.m);
      for (int i = 0; i < p.n; ++i) x.a[i] <<= g.real(-1, 1);
      double d;
      if (nest) { call_ext_fct(ne, p.n, x.a.get(), p.m, y.a.get()); for (int j = 0; j < p.m; ++j) y.a[j] >>= d; }
      else { auto r = safe::eval(p, std::vector<adouble>(x.a.get(), x.a.get() + p.n)); for (auto &v : r) v >>= d; }
    }
    trace_off();
    auto fn = [](short e, int mm, int nn, double *x, double *y) { return ::zos_forward(e, mm, nn, 0, x, y); };
    ext_diff_fct *e = reg_ext_fct(id, t, fn);
    e->zos_forward = [e](short, int mm, int nn, int keep, double *x, double *y) { return ::zos_forward(e->extTapeId, mm, nn, keep, x, y); };
    e->fos_forward = [e](short, int mm, int nn, int keep, double *x, double *X, double *y, double *Y) { return ::fos_forward(e->extTapeId, mm, nn, keep, x, X, y, Y); };
    e->fov_forward = [e](short, int mm, int nn, int q, double *x, double **X, double *y, double **Y) { return ::fov_forward(e->extTapeId, mm, nn, q, x, X, y, Y); };
    e->fos_reverse = [e](short, int mm, int nn, double *u, double *z, double *x, double *y) {
      ::zos_forward(e->extTapeId, mm, nn, 1, x, y);
      findTape(e->extTapeId).nestedReverseEval(true);
      int rc = ::fos_reverse(e->extTapeId, mm, nn, u, z);
      findTape(e->extTapeId).nestedReverseEval(false);
      return rc;
    };
    e->fov_reverse = [e](short, int mm, int nn, int q, double **U, double **Z, double *x, double *y) {
      ::zos_forward(e->extTapeId, mm, nn, 1, x, y);
      findTape(e->extTapeId).nestedReverseEval(true);
      int rc = ::fov_reverse(e->extTapeId, mm, nn, q, U, Z);
      findTape(e->extTapeId).nestedReverseEval(false);
      return rc;
    };
    inner[s.prog] = e;
  }
  setCurrentTape(id);
  // one registration per other kind
  ext_diff_fct *plain = nullptr, *iarr = nullptr;
  ext_diff_fct_v2 *two = nullptr;
  std::unique_ptr<Obj1> o1;
  std::unique_ptr<ObjA> oa;
  std::unique_ptr<Obj2> o2;
  short ext = dummies.empty() || g.coin() ? id : dummies[0];
  std::map<int, int> krc;
  auto flags = [&](auto *e, bool fresh) {
    e->nestedAdolc = (char)g.below(2);
    e->dp_x_changes = (char)g.below(2);
    if (fresh) e->dp_y_priorRequired = (char)g.below(2);
  };
  auto fresh = [&](int kind) { for (auto &s : st) if (s.call && s.kind == kind && s.reuse) return false; return true; };
  for (auto &s : st) if (s.call && s.kind != INNER && !krc.count(s.kind)) {
    Body b = mkbody();
    krc[s.kind] = b.rc;
    want = std::min(want, b.rc);
    switch (s.kind) {
    case PLAIN:
      plain = reg_ext_fct(id, ext, [b](short, int mm, int nn, double *x, double *y) { b.val(b.of(mm, nn), x, y); return b.rc; });
      set_plain(plain, b);
      flags(plain, fresh(PLAIN));
      break;
    case IARR:
      iarr = reg_ext_fct(id, ext, [b](short, size_t l, size_t *a, int, int, double *x, double *y) { b.val(b.of(l, a), x, y); return b.rc; });
      iarr->zos_forward_iArr = [b](short, size_t l, size_t *a, int, int, int, double *x, double *y) { b.val(b.of(l, a), x, y); return b.rc; };
      iarr->fos_forward_iArr = [b](short, size_t l, size_t *a, int, int, int, double *x, double *X, double *y, double *Y) { return b.fos(b.of(l, a), x, X, y, Y); };
      iarr->fov_forward_iArr = [b](short, size_t l, size_t *a, int, int, int q, double *x, double **X, double *y, double **Y) { return b.fov(b.of(l, a), q, x, X, y, Y); };
      iarr->fos_reverse_iArr = [b](short, size_t l, size_t *a, int, int, double *u, double *z, double *x, double *y) { return b.rev(b.of(l, a), u, z, x, y); };
      iarr->fov_reverse_iArr = [b](short, size_t l, size_t *a, int, int, int q, double **U, double **Z, double *x, double *y) { for (int k = 0; k < q; ++k) b.rev(b.of(l, a), U[k], Z[k], x, y); return b.rc; };
      flags(iarr, fresh(IARR));
      break;
    case OBJ: o1.reset(new Obj1(b, id, ext)); flags(o1->fct(), fresh(OBJ)); break;
    case OBJA: oa.reset(new ObjA(b)); flags(oa->fct(), fresh(OBJA)); break;
    case V2:
      two = reg_ext_fct(id, ext, f2);
      bodies.emplace_back(new Body(b));
      two->context = bodies.back().get();
      two->zos_forward = f2; two->fos_forward = f2_fos; two->fov_forward = f2_fov; two->fos_reverse = f2_rev; two->fov_reverse = f2_rvv;
      flags(two, fresh(V2));
      break;
    default: o2.reset(new Obj2(b, id, ext)); flags(o2->fct(), fresh(OBJ2)); break;
    }
  }
  int nrec = g.chance(1, 4) ? 2 : 1;
  bool kept = false;
  Vec at;
  for (int rec = 0; rec < nrec; ++rec) {
    at = pts[g.below(2)];
    int keep = (int)g.below(2), store = g.pick({3, 1, 1});
    kept = keep;
    if (store == 1) trace_on(id, keep, g.range(12, 60), g.range(130, 200), g.range(6, 20), g.range(10, 64), 1); else trace_on(id, keep);
    Vec y(m, 1e30);
    {
      std::vector<std::unique_ptr<adouble>> own;
      std::vector<adouble *> s;
      std::map<int, std::unique_ptr<Arr>> xshare, yshare;
      std::vector<std::unique_ptr<Arr>> keepA;
      std::map<int, Arr *> res;
      auto fresh1 = [&]() { own.emplace_back(new adouble); return own.back().get(); };
      // holes in the free list
      { std::vector<std::unique_ptr<adouble>> h; for (int k = (int)g.below(8); k-- > 0;) h.emplace_back(new adouble(1.0)); for (auto &u : h) if (g.coin()) u.reset(); else own.push_back(std::move(u)); }
      for (int i = 0; i < n; ++i) { s.push_back(fresh1()); *s.back() <<= at[i]; }
      for (size_t k = 0; k < st.size(); ++k) {
        auto &q = st[k];
        if (!q.call) {
          std::vector<adouble> v(2);
          v[0] = *s[q.op.a]; v[1] = *s[q.op.b];
          v.emplace_back();
          safe::Op o = q.op; o.a = 0; o.b = 1; o.r = 2;
          safe::step(o, v);
          s.push_back(fresh1());
          *s.back() = v[2];
          continue;
        }
        auto &p = progs[q.prog];
        int rc = 3, expect = q.kind == INNER ? 3 : krc[q.kind];
        if (q.kind >= V2) {
          std::vector<std::unique_ptr<Arr>> xs, ys;
          std::vector<adouble *> xp, yp;
          int t = 0;
          for (auto z : q.isz) { xs.emplace_back(new Arr((int)z)); xp.push_back(xs.back()->a.get()); for (size_t u = 0; u < z; ++u) xs.back()->a[u] = *s[q.in[t++]]; }
          for (auto z : q.osz) { ys.emplace_back(new Arr((int)z)); yp.push_back(ys.back()->a.get()); }
          auto ia = q.iarr;
          auto isz = q.isz, osz = q.osz;
          if (q.kind == V2) rc = call_ext_fct(two, ia.size(), ia.data(), xp.size(), yp.size(), isz.data(), xp.data(), osz.data(), yp.data());
          else rc = o2->call(ia.size(), ia.data(), xp.size(), yp.size(), isz.data(), xp.data(), osz.data(), yp.data());
          for (auto &v : ys) for (int u = 0; u < v->n; ++u) { if (q.reuse) { s.push_back(fresh1()); *s.back() = v->a[u]; } else s.push_back(&v->a[u]); }
          if (!q.reuse) for (auto &v : ys) keepA.push_back(std::move(v));
        } else {
          Arr *x, *yy;
          if (q.chain >= 0) x = res.at(q.chain);
          else if (q.reuse) { auto &u = xshare[q.prog]; if (!u) u.reset(new Arr(p.n)); x = u.get(); }
          else { keepA.emplace_back(new Arr(p.n)); x = keepA.back().get(); }
          if (q.chain < 0) for (int u = 0; u < p.n; ++u) x->a[u] = *s[q.in[u]];
          if (q.reuse) { auto &u = yshare[q.prog]; if (!u) u.reset(new Arr(p.m)); yy = u.get(); }
          else { keepA.emplace_back(new Arr(p.m)); yy = keepA.back().get(); }
          c.check(x->ok() && yy->ok(), "contiguous", "ensureContiguousLocations did not yield contiguous locations");
          auto ia = q.iarr;
          switch (q.kind) {
          case PLAIN: rc = call_ext_fct(plain, p.n, x->a.get(), p.m, yy->a.get()); break;
          case INNER: rc = call_ext_fct(inner[q.prog], p.n, x->a.get(), p.m, yy->a.get()); break;
          case IARR: rc = call_ext_fct(iarr, ia.size(), ia.data(), p.n, x->a.get(), p.m, yy->a.get()); break;
          case OBJ: rc = o1->call(p.n, x->a.get(), p.m, yy->a.get()); break;
          default: rc = oa->call(ia.size(), ia.data(), p.n, x->a.get(), p.m, yy->a.get()); break;
          }
          for (auto &t : ia) t = 12345;
          if (!q.reuse) res[(int)k] = yy;
          for (int u = 0; u < p.m; ++u) { if (q.reuse) { s.push_back(fresh1()); *s.back() = yy->a[u]; } else s.push_back(&yy->a[u]); }
        }
        c.check(rc == expect, "call-code", cat("call_ext_fct returned ", rc, " but the function returned ", expect));
        c.label(kname[q.kind]);
      }
      for (int j = 0; j < m; ++j) { adouble v = *s[out[j]]; v >>= y[j]; }
    }
    trace_off(store == 2);
    c.desc << "recorded at " << show(at) << " keep " << keep << (store == 1 ? " small buffers" : store == 2 ? " file" : "") << "\n";
    auto w = evals::values(F, at);
    if (!finite(w)) c.discard();
    for (int j = 0; j < m; ++j) c.check(close(y[j], w.l[j], w.d[j], w.scale()), "recording", cat("dependent ", j, " is ", y[j], " after recording, expected ", (double)w.l[j]));
  }
  evals::Eval E{c, id, F, [&](const Vec &, int rc) { return rc == want; }, evals::FIRST};
  if (kept && g.coin()) { // Taylor stack written by the recording
    Vec U = reals(g, m), Z(n, 1e30);
    int rc = fos_reverse(id, m, n, U.data(), Z.data());
    c.check(rc == want, "code-kept", cat("fos_reverse after recording returned ", rc));
    E.cmpq("kept-reverse", cat("at ", show(at), " U=", show(U)), Z, E.vJ(at, U));
    c.label("reverse after recording");
  }
  int evs = g.range(1, 5);
  for (int k = 0; k < evs; ++k) {
    if (E.one(pts[g.below(2)]) && ncalls >= 2 && nl >= 2) c.interesting();
    c.desc << E.last << "\n";
  }
  if (g.chance(1, 4)) { // codes of the callbacks, errors included, next to recorded comparisons that hold with a tie
    c.label("codes");
    short t = (short)createNewTape();
    setCurrentTape(t);
    int k = g.range(1, 3), expect = 3;
    std::vector<int> code, tie;
    for (int i = 0; i < k; ++i) { code.push_back(g.range(-2, 3)); tie.push_back((int)g.below(5)); expect = std::min(expect, code.back()); if (tie.back() < 3) expect = std::min(expect, 0); }
    std::vector<ext_diff_fct *> e;
    for (int i = 0; i < k; ++i) {
      int r = code[i];
      e.push_back(reg_ext_fct(t, t, [](short, int, int, double *x, double *y) { y[0] = 2 * x[0]; return 3; }));
      e[i]->zos_forward = [r](short, int, int, int, double *x, double *y) { y[0] = 2 * x[0]; return r; };
      e[i]->fos_forward = [r](short, int, int, int, double *x, double *X, double *y, double *Y) { y[0] = 2 * x[0]; Y[0] = 2 * X[0]; return r; };
      e[i]->fov_forward = [r](short, int, int, int p, double *x, double **X, double *y, double **Y) { y[0] = 2 * x[0]; for (int l = 0; l < p; ++l) Y[0][l] = 2 * X[0][l]; return r; };
      e[i]->fos_reverse = [r](short, int, int, double *u, double *z, double *, double *) { z[0] = 2 * u[0]; return r; };
      e[i]->fov_reverse = [r](short, int, int, int q, double **U, double **Z, double *, double *) { for (int l = 0; l < q; ++l) Z[l][0] = 2 * U[l][0]; return r; };
    }
    double y = 0, want1 = 1;
    trace_on(t);
    {
      adouble x, zero;
      x <<= 0.75;
      zero = 0.0;
      bool before = g.coin();
      auto cmp0 = [&](int h) { bool b = h == 0 ? zero == 0.0 : h == 1 ? zero <= 0.0 : h == 2 ? zero >= 0.0 : h == 3 ? zero < 1.0 : true; c.check(b, "recorded-comparison", "a comparison of zero came out wrong"); };
      std::vector<std::unique_ptr<Arr>> keepA;
      for (int i = 0; i < k; ++i) {
        if (before) cmp0(tie[i]);
        keepA.emplace_back(new Arr(1)); Arr &a = *keepA.back();
        keepA.emplace_back(new Arr(1)); Arr &b = *keepA.back();
        a.a[0] = x;
        call_ext_fct(e[i], 1, a.a.get(), 1, b.a.get());
        x = b.a[0];
        want1 *= 2;
        if (!before) cmp0(tie[i]);
      }
      x >>= y;
    }
    trace_off();
    double x = 1.5, X = 0.5, Y = 0, u = 1, z = 0;
    taping::Mat XX(1, 2, 0.5), YY(1, 2, 0.0), UU(2, 1, 1.0), ZZ(2, 1, 0.0);
    struct { const char *nm; int rc; double v, w; } got[5];
    got[0].rc = fos_forward(t, 1, 1, 1, &x, &X, &y, &Y); got[0].nm = "fos_forward"; got[0].v = Y; got[0].w = want1 * X;
    got[1].rc = fov_forward(t, 1, 1, 2, &x, XX.p(), &y, YY.p()); got[1].nm = "fov_forward"; got[1].v = YY.d[1]; got[1].w = want1 * 0.5;
    got[2].rc = zos_forward(t, 1, 1, 1, &x, &y); got[2].nm = "zos_forward"; got[2].v = y; got[2].w = want1 * x;
    got[3].rc = fos_reverse(t, 1, 1, &u, &z); got[3].nm = "fos_reverse"; got[3].v = z; got[3].w = want1;
    got[4].rc = fov_reverse(t, 1, 1, 2, UU.p(), ZZ.p()); got[4].nm = "fov_reverse"; got[4].v = ZZ.d[1]; got[4].w = want1;
    for (auto &r : got) {
      c.check(r.rc == expect, cat("codes-", r.nm), cat(r.nm, " returned ", r.rc, " although the callbacks returned ", show(Vec(code.begin(), code.end())), ", expected ", expect));
      c.check(r.v == r.w, cat("codes-value-", r.nm), cat(r.nm, " delivered ", r.v, " expected ", r.w));
    }
  }
}
