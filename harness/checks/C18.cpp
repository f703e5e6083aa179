// Abs-normal form: switches, values, extended Jacobian, piecewise linearisation, generalised gradients.
#include "deriv.hpp"
#include <adolc/sparse/sparsedrivers.h>
using namespace prog;
using refd::Q;
using namespace ADOLC::Sparse;
const CheckInfo CHECK{"C18",
  "a case is an abs-smooth program: either random smooth operations with absolute values, minima and maxima anywhere, or a piecewise linear program over small dyadic numbers in which kinks are hit exactly; it is recorded with minima and "
  "maxima replaced by absolute values and a history of piecewise-linear sweeps, abs-normal drivers (dense, C++, sparse, reused containers) and directional active gradients is run at random points and increments; oracle: "
  "independent evaluation in which every absolute value is an extra variable, increments |z+dz|-|z|, and direct evaluation of the piecewise linear function; non-trivial: at least two switches, one of which depends on another, "
  "or an exact kink",
  20000, 400000, 24, 600, {"signatures passed to the signature sweeps are those of the point and direction; the sign of switches below 1e-9 in inexact programs is not judged"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
using LD = long double;
using Vec = std::vector<double>;
template <class R> using VA = std::vector<ref::Alg<R>>;
// piecewise linear programs
struct LI { int op, d, a, b; double k, l, c; bool mv; };
struct Lin {
  int n = 0, m = 0, slots = 0;
  std::vector<LI> ins;
  std::vector<int> out;
  std::string str() const {
    std::ostringstream o;
    for (auto &q : ins) {
      static const char *nm[] = {"lin", "fabs", "fmin", "fmax", "fminc", "fmaxc", "+=", "-=", "*=", "neg", "copy"};
      o << "  s" << q.d << " = " << nm[q.op] << (q.mv ? "&&" : "") << "(s" << q.a << ",s" << q.b << "; " << q.k << "," << q.l << "," << q.c << ")\n";
    }
    o << "  out";
    for (int x : out) o << " s" << x;
    return o.str() + "\n";
  }
  template <class T> std::vector<T> run(std::vector<T> s) const {
    s.reserve(slots);
    while ((int)s.size() < slots) s.push_back(T(0.0));
    for (auto &q : ins) {
      const T &a = s[q.a], &b = s[q.b];
      using std::fabs; using std::fmin; using std::fmax;
      constexpr bool ad = std::is_same_v<T, adouble>;
      switch (q.op) {
      case 0: { T t = T(q.k) * a + T(q.l) * b + T(q.c); s[q.d] = t; break; }
      case 1: if constexpr (ad) { if (q.mv) { s[q.d] = fabs(adouble(a)); break; } } s[q.d] = T(fabs(a)); break;
      case 2: if constexpr (ad) { if (q.mv) { s[q.d] = fmin(adouble(a), adouble(b)); break; } } s[q.d] = T(fmin(a, b)); break;
      case 3: if constexpr (ad) { if (q.mv) { s[q.d] = fmax(adouble(a), b); break; } } s[q.d] = T(fmax(a, b)); break;
      case 4: if constexpr (ad) { s[q.d] = q.mv ? fmin(adouble(a), q.c) : fmin(a, q.c); } else s[q.d] = T(fmin(a, T(q.c))); break;
      case 5: if constexpr (ad) { s[q.d] = q.mv ? fmax(adouble(a), q.c) : fmax(a, q.c); } else s[q.d] = T(fmax(a, T(q.c))); break;
      case 6: if constexpr (ad) s[q.d] += a; else s[q.d] = s[q.d] + a; break;
      case 7: if constexpr (ad) s[q.d] -= a; else s[q.d] = s[q.d] - a; break;
      case 8: if constexpr (ad) s[q.d] *= q.k; else s[q.d] = s[q.d] * T(q.k); break;
      case 9: s[q.d] = -a; break;
      case 10: s[q.d] = T(a); break;
      }
    }
    std::vector<T> r;
    for (int x : out) r.push_back(T(s[x]));
    return r;
  }
};
Lin random_lin(Gen &g) {
  Lin L;
  bool big = g.chance(1, 15);
  L.n = g.range(1, big ? 12 : 4); L.m = g.coin() ? 1 : g.range(1, 3);
  L.slots = L.n + g.range(1, 5);
  int k = g.range(2, big ? 50 : 14);
  auto dy = [&] { static const double v[] = {1, -1, 2, 0.5, -0.5, -2, 3, 1}; return v[g.below(8)]; };
  int live = L.n;
  for (int i = 0; i < k; ++i) {
    LI q;
    q.op = g.pick({6, 5, 3, 3, 1, 1, 3, 2, 1, 1, 1});
    q.a = (int)g.below(live); q.b = (int)g.below(live);
    q.k = dy(); q.l = g.chance(1, 5) ? 0 : dy(); q.c = g.chance(1, 3) ? 0 : (double)g.range(-4, 4) / 2;
    q.mv = g.coin();
    if (q.op >= 6 && q.op <= 8) q.d = (int)g.below(live);
    else if (live < L.slots && !g.chance(1, 4)) q.d = live++;
    else q.d = (int)g.below(live);
    L.ins.push_back(q);
  }
  for (int j = 0; j < L.m; ++j) L.out.push_back(g.coin() ? live - 1 : (int)g.below(live));
  return L;
}
struct F {
  int n = 0, m = 0;
  bool exact = false;
  Program P;
  Lin L;
  template <class R> VA<R> eval(const VA<R> &x) const { return exact ? L.run<ref::Alg<R>>(x) : prog::eval<ref::Alg<R>>(P, x, nullptr); }
};
template <class R> struct Hook {
  std::function<ref::Alg<R>(const ref::Alg<R> &)> f;
  template <class G> Hook(G g) : f(g) { ref::abs_hook<R>() = &f; }
  ~Hook() { ref::abs_hook<R>() = nullptr; }
};
int switches(const F &f, const Vec &x) {
  int s = 0;
  auto C = ref::Ctx::taylor(0);
  ref::Use u(C);
  Hook<LD> h([&](const ref::Alg<LD> &a) { ++s; return ref::Alg<LD>((double)std::fabs(a.c[0])); });
  VA<LD> X;
  for (double v : x) X.emplace_back(v);
  f.eval(X);
  return s;
}
// y[m], z[s], extended Jacobian [(m+s)][(n+s)]
struct Anf { Q y, z, E; };
Anf anf(const F &f, const Vec &x, int s) {
  Anf A;
  int n = f.n, N = n + s;
  auto C = ref::Ctx::taylor_grad(0, N);
  std::vector<int> at(N);
  for (int i = 0; i < N; ++i) { std::vector<int> e(N + 1, 0); e[i + 1] = 1; at[i] = C.at(e); }
  Q all;
  auto run = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> z;
    Hook<R> h([&](const ref::Alg<R> &a) {
      ref::Alg<R> r(0.0);
      using std::fabs;
      r.c[0] = fabs(a.c[0]);
      r.c[at[n + z.size()]] = R(1);
      z.push_back(a);
      return r;
    });
    VA<R> X;
    for (int i = 0; i < n; ++i) { X.emplace_back(x[i]); X.back().c[at[i]] = R(1); }
    auto y = f.eval(X);
    for (auto &v : y) out.push_back(v.c[0]);
    for (auto &v : z) out.push_back(v.c[0]);
    for (auto *w : {&y, &z}) for (auto &v : *w) for (int i = 0; i < N; ++i) out.push_back(v.c[at[i]]);
  };
  refd::fold(run, all);
  auto sub = [&](size_t a, size_t b) { Q q; q.l.assign(all.l.begin() + a, all.l.begin() + b); q.d.assign(all.d.begin() + a, all.d.begin() + b); return q; };
  A.y = sub(0, f.m); A.z = sub(f.m, f.m + s); A.E = sub(f.m + s, all.l.size());
  return A;
}
// increments of the piecewise linearisation: dy[m], dz[s]; in mode 1 absolute values get the slope sig[k]
struct Inc { Q y, z; };
Inc increment(const F &f, const Vec &x, const Vec &dx, const std::vector<short> *sig = nullptr) {
  auto C = ref::Ctx::taylor(1);
  Q all;
  auto run = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    std::vector<R> z;
    Hook<R> h([&](const ref::Alg<R> &a) {
      ref::Alg<R> r(0.0);
      using std::fabs;
      r.c[0] = fabs(a.c[0]);
      r.c[1] = sig ? R((double)(*sig)[z.size()]) * a.c[1] : R(fabs(a.c[0] + a.c[1]) - fabs(a.c[0]));
      z.push_back(a.c[1]);
      return r;
    });
    VA<R> X;
    for (int i = 0; i < f.n; ++i) { X.emplace_back(x[i]); X.back().c[1] = R(dx[i]); }
    for (auto &v : f.eval(X)) out.push_back(v.c[1]);
    for (auto &v : z) out.push_back(v);
  };
  refd::fold(run, all);
  Inc r;
  r.y.l.assign(all.l.begin(), all.l.begin() + f.m); r.y.d.assign(all.d.begin(), all.d.begin() + f.m);
  r.z.l.assign(all.l.begin() + f.m, all.l.end()); r.z.d.assign(all.d.begin() + f.m, all.d.end());
  return r;
}
int sgn(LD v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
} // namespace

void run_case(Case &c) {
  Gen &g = c.g;
  F f;
  f.exact = g.coin();
  std::vector<Vec> pts;
  if (f.exact) {
    f.L = random_lin(g);
    f.n = f.L.n; f.m = f.L.m;
    for (int p = 0; p < 3; ++p) { Vec x(f.n); for (auto &v : x) v = g.chance(1, 4) ? 0 : (double)g.range(-6, 6) / 2; pts.push_back(x); }
    c.desc << "n=" << f.n << " m=" << f.m << "\n" << f.L.str();
  } else {
    Opts o;
    o.anf = true; o.npts = 3; o.nmax = 4; o.mmax = 3; o.imax = 16; o.steps = false; o.early = g.coin();
    f.P = random_program(g, o);
    f.n = f.P.n; f.m = f.P.m;
    if (f.m < 1) c.discard();
    pts = f.P.pts;
    c.desc << f.P.str();
  }
  int n = f.n, m = f.m, s = switches(f, pts[0]);
  if (s > 24) c.discard();
  std::vector<Anf> A;
  for (auto &x : pts) { A.push_back(anf(f, x, s)); if (!refd::finite(A.back().E)) c.discard(); }
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  currentTape().enableMinMaxUsingAbs();
  findTape(id).disableBranchSwitchWarnings();
  int store = g.pick({3, 1, 1});
  if (f.exact) {
    if (store == 1) trace_on(id, 0, g.range(12, 60), g.range(80, 160), g.range(8, 20), 64, 1);
    else trace_on(id);
    {
      std::vector<adouble> X(n);
      for (int i = 0; i < n; ++i) X[i] <<= pts[0][i];
      auto y = f.L.run<adouble>(std::move(X));
      for (auto &v : y) { double d; v >>= d; }
    }
    trace_off(store == 2);
  } else {
    taping::set_trace_on({});
    if (store == 1) { int a = g.range(12, 60), b = g.range(80, 160), d = g.range(8, 20); taping::set_trace_on([=](short t, int k) { return trace_on(t, k, a, b, d, 64, 1); }); }
    taping::trace(id, f.P, f.P.pts[0], 0, store == 2);
    taping::set_trace_on({});
  }
  c.check((int)get_num_switches(id) == s, "switch count", [&] { return cat(get_num_switches(id), " switches, the program has ", s); });
  int N = n + s, M = m + s;
  bool nested = false, kink = false;
  for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) {
    if (A[0].E.l[(size_t)(m + i) * N + n + j] != 0) nested = true;
    if (j >= i) c.check(A[0].E.l[(size_t)(m + i) * N + n + j] == 0, "harness: L not triangular", [] { return std::string(); });
  }
  for (auto &a : A) for (auto v : a.z.l) if (v == 0 && f.exact) kink = true;
  if ((s >= 2 && nested) || kink) c.interesting();
  std::vector<short> cls(s);
  auto cmpq = [&](const std::string &nm, const Vec &got, const Q &w, double sc = -1) {
    if (!refd::finite(w)) return;
    double wide = sc < 0 ? w.scale() : sc;
    auto b = refd::cmp(got, w, wide);
    c.check(!b.bad, nm, [&] { return cat(nm, " at point; entry ", b.idx, " is ", b.got, ", expected ", b.want); });
  };
  ADOLC::AbsNormalForm keepf;
  SparseANF keeps;
  bool sparse_built = false;
  int len = g.range(2, 7);
  for (int st = 0; st < len; ++st) {
    int pi = (int)g.below(pts.size());
    const Vec &x = pts[pi];
    const Anf &a = A[pi];
    double es = std::max({a.E.scale(), a.y.scale(), a.z.scale()});
    auto rv = [&] { return f.exact ? (g.chance(1, 4) ? 0.0 : (double)g.range(-6, 6) / 2) : g.real(-1.5, 1.5); };
    auto dir = [&] { Vec d(n); for (auto &v : d) v = rv(); return d; };
    auto rcok = [&](const char *nm, int rc) { c.check(rc >= 0, std::string(nm) + " return code", [&] { return cat(nm, " returned ", rc); }); };
    auto clear_sign = [&](double z) { return f.exact || std::fabs(z) > 1e-9; };
    Vec y(m, 7e77), z(s + 1, 7e77);
    auto cut = [&](Vec v) { v.resize(s); return v; };
    std::ostringstream hist;
    int what = g.pick({1, 3, 3, 3, 3, 3, 3, 3, 3, 3, m == 1 ? 4 : 0, 1});
    c.desc << "[" << what << " at " << pi << "] ";
    switch (what) {
    case 0: {
      rcok("zos_pl_forward", zos_pl_forward(id, m, n, g.coin(), x.data(), y.data(), z.data()));
      cmpq("zos_pl_forward y", y, a.y); cmpq("zos_pl_forward z", cut(z), a.z);
      break;
    }
    case 1: {
      Vec d = dir(), y1(m, 7e77), z1(s + 1, 7e77);
      rcok("fos_pl_forward", fos_pl_forward(id, m, n, x.data(), d.data(), y.data(), y1.data(), z.data(), z1.data()));
      auto w = increment(f, x, d);
      cmpq("fos_pl_forward y", y, a.y); cmpq("fos_pl_forward z", cut(z), a.z);
      cmpq("fos_pl_forward dy", y1, w.y); cmpq("fos_pl_forward dz", cut(z1), w.z);
      if (f.exact) {
        Vec xx = x;
        for (int i = 0; i < n; ++i) xx[i] += d[i];
        Vec v = f.L.run<double>(xx);
        for (int j = 0; j < m; ++j)
          c.check(y[j] + y1[j] == v[j], "fos_pl_forward does not reproduce the piecewise linear function", [&] { return cat("y", j, "+dy = ", y[j] + y1[j], ", F(x+dx) = ", v[j]); });
      }
      break;
    }
    case 2: case 3: case 4: {
      // 2: fov_pl_forward, 3: fov_pl_sig_forward, 4: fos_pl_sig_forward
      int p = what == 4 ? 1 : g.range(1, g.chance(1, 15) ? 20 : 4);
      taping::Mat X(n, p), Y(m, p), Z(s + 1, p);
      std::vector<Vec> d(p);
      for (int l = 0; l < p; ++l) { d[l] = dir(); for (int i = 0; i < n; ++i) X[i][l] = d[l][i]; }
      std::vector<short> sg(s + 1, 99);
      // expected signature
      std::vector<short> want(s);
      bool clr = true;
      std::vector<Inc> plain;
      for (int l = 0; l < p; ++l) plain.push_back(increment(f, x, d[l]));
      if (what == 2) {
        rcok("fov_pl_forward", fov_pl_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p(), z.data(), Z.p(), sg.data()));
        for (int k = 0; k < s; ++k) {
          want[k] = (short)sgn(a.z.l[k]);
          bool cl = clear_sign((double)a.z.l[k]);
          for (int l = 0; l < p && !want[k]; ++l) want[k] = (short)sgn(plain[l].z.l[k]);
          if (cl) c.check(sg[k] == want[k], "fov_pl_forward signature", [&] { return cat("sigma ", k, " is ", sg[k], ", expected ", want[k]); });
        }
        cmpq("fov_pl_forward y", y, a.y); cmpq("fov_pl_forward z", cut(z), a.z);
        for (int l = 0; l < p; ++l) {
          Vec yy(m), zz(s);
          for (int j = 0; j < m; ++j) yy[j] = Y[j][l];
          for (int k = 0; k < s; ++k) zz[k] = Z[k][l];
          cmpq("fov_pl_forward dy", yy, plain[l].y); cmpq("fov_pl_forward dz", zz, plain[l].z);
        }
        break;
      }
      // the signature of (x, X) in the order of evaluation
      {
        std::vector<short> sgm;
        for (int k = 0; k < s; ++k) {
          short v = (short)sgn(a.z.l[k]);
          if (!clear_sign((double)a.z.l[k])) clr = false;
          sgm.push_back(v);
          for (int l = 0; l < p && !sgm[k]; ++l) { // dz_k in direction l under the signature so far
            std::vector<short> t = sgm;
            t.resize(s, 0);
            auto w = increment(f, x, d[l], &t);
            sgm[k] = (short)sgn(w.z.l[k]);
          }
        }
        want = sgm;
      }
      if (!clr) break;
      std::vector<short> base(s + 1), sdir(s + 1);
      std::vector<Inc> w;
      for (int l = 0; l < p; ++l) w.push_back(increment(f, x, d[l], &want));
      for (int k = 0; k < s; ++k) { base[k] = (short)sgn(a.z.l[k]); sdir[k] = (short)sgn(w[0].z.l[k]); }
      bool withdir = g.coin();
      if (what == 3) {
        rcok("fov_pl_sig_forward", fov_pl_sig_forward(id, m, n, p, x.data(), X.p(), s, base.data(), withdir ? sdir.data() : nullptr, y.data(), Y.p(), z.data(), Z.p(), sg.data()));
      } else {
        Vec y1(m), z1(s + 1), x1 = d[0];
        rcok("fos_pl_sig_forward", fos_pl_sig_forward(id, m, n, x.data(), x1.data(), s, base.data(), withdir ? sdir.data() : nullptr, y.data(), y1.data(), z.data(), z1.data(), sg.data()));
        for (int j = 0; j < m; ++j) Y[j][0] = y1[j];
        for (int k = 0; k < s; ++k) Z[k][0] = z1[k];
      }
      std::string nm = what == 3 ? "fov_pl_sig_forward" : "fos_pl_sig_forward";
      cmpq(nm + " y", y, a.y); cmpq(nm + " z", cut(z), a.z);
      for (int k = 0; k < s; ++k) c.check(sg[k] == want[k], nm + " signature", [&] { return cat("sigma ", k, " is ", sg[k], ", expected ", want[k]); });
      for (int l = 0; l < p; ++l) {
        Vec yy(m), zz(s);
        for (int j = 0; j < m; ++j) yy[j] = Y[j][l];
        for (int k = 0; k < s; ++k) zz[k] = Z[k][l];
        cmpq(nm + " dy", yy, w[l].y); cmpq(nm + " dz", zz, w[l].z);
      }
      break;
    }
    case 5: { // reverse sweeps
      rcok("zos_pl_forward", zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data()));
      int reps = g.range(1, 2);
      for (int r = 0; r < reps; ++r) {
        bool vec = g.coin();
        int q = vec ? g.range(1, 4) : 1;
        taping::Mat W(q, m), V(q, s + 1), RX(q, n), RS(q, s + 1);
        for (int l = 0; l < q; ++l) { for (int j = 0; j < m; ++j) W[l][j] = rv(); for (int k = 0; k < s; ++k) V[l][k] = rv(); for (int i = 0; i < n; ++i) RX[l][i] = 7e77; for (int k = 0; k < s; ++k) RS[l][k] = 7e77; }
        if (vec) rcok("fov_pl_reverse", fov_pl_reverse(id, m, n, s, q, W.p(), V.p(), RX.p(), RS.p()));
        else rcok("fos_pl_reverse", fos_pl_reverse(id, m, n, s, W[0], V[0], RX[0], RS[0]));
        for (int l = 0; l < q; ++l) {
          refd::Lin L;
          Vec got;
          for (int i = 0; i < N; ++i) {
            std::vector<std::pair<size_t, double>> t;
            for (int j = 0; j < M; ++j) t.push_back({(size_t)j * N + i, j < m ? W[l][j] : V[l][j - m]});
            L.add(a.E, t);
            got.push_back(i < n ? RX[l][i] : RS[l][i - n]);
          }
          cmpq(vec ? "fov_pl_reverse" : "fos_pl_reverse", got, L.q, std::max(L.q.scale(), es));
        }
      }
      break;
    }
    case 6: { // reverse with a given signature
      rcok("zos_pl_forward", zos_pl_forward(id, m, n, 1, x.data(), y.data(), z.data()));
      std::vector<short> sg(s + 1);
      for (auto &v : sg) v = (short)g.range(-1, 1);
      Vec w(m), r(n, 7e77);
      for (auto &v : w) v = rv();
      rcok("fos_pl_sig_reverse", fos_pl_sig_reverse(id, m, n, s, sg.data(), w.data(), r.data()));
      refd::Lin L;
      for (int i = 0; i < n; ++i) {
        Vec e(n, 0); e[i] = 1;
        auto t = increment(f, x, e, &sg);
        std::vector<std::pair<size_t, double>> cf;
        for (int j = 0; j < m; ++j) cf.push_back({(size_t)j, w[j]});
        L.add(t.y, cf);
      }
      cmpq("fos_pl_sig_reverse", r, L.q, std::max(L.q.scale(), es));
      break;
    }
    case 7: case 8: { // dense drivers
      Vec E((size_t)M * N), cy, cz;
      bool consts = false;
      if (what == 7) {
        taping::Mat Y(m, n), J(m, s + 1), Z(s + 1, n), L(s + 1, s + 1);
        rcok("abs_normal", abs_normal(id, m, n, s, x.data(), y.data(), z.data(), Y.p(), J.p(), Z.p(), L.p()));
        for (int j = 0; j < M; ++j) for (int i = 0; i < N; ++i) E[(size_t)j * N + i] = j < m ? (i < n ? Y[j][i] : J[j][i - n]) : (i < n ? Z[j - m][i] : L[j - m][i - n]);
      } else {
        int how = g.pick({2, 2, 1});
        ADOLC::AbsNormalForm fresh = how == 0 ? ADOLC::AbsNormalForm::fromTape(id) : how == 1 ? ADOLC::AbsNormalForm(ADOLC::DenseShape(m, n, s)) : ADOLC::AbsNormalForm();
        if (how == 2) { c.check(fresh.empty(), "default form not empty", [] { return std::string(); }); fresh.resize(ADOLC::DenseShape(m, n, s)); }
        if (g.coin()) {
          if (keepf.empty()) keepf = std::move(fresh);
          else if (g.coin()) { keepf.clear(); c.check(keepf.empty(), "cleared form not empty", [] { return std::string(); }); keepf.resize(ADOLC::DenseShape(m, n, s)); }
          fresh = std::move(keepf);
          keepf = ADOLC::AbsNormalForm();
        }
        c.check(fresh.dims().m == (size_t)m && fresh.dims().n == (size_t)n && fresh.dims().s == (size_t)s, "shape of the form", [] { return std::string(); });
        consts = g.chance(2, 3);
        std::span<const double> xs(x.data(), x.size());
        if (consts) rcok("abs_normal<True>", ADOLC::abs_normal<ADOLC::UpdateConsts::True>(id, xs, fresh));
        else rcok("abs_normal<False>", ADOLC::abs_normal<ADOLC::UpdateConsts::False>(id, xs, fresh));
        for (int j = 0; j < M; ++j) for (int i = 0; i < N; ++i)
          E[(size_t)j * N + i] = j < m ? (i < n ? fresh.Y[j][i] : fresh.J[j][i - n]) : (i < n ? fresh.Z[j - m][i] : fresh.L[j - m][i - n]);
        y = fresh.y; z = fresh.z; z.resize(s + 1); cy = fresh.cy; cz = fresh.cz;
        if (g.coin()) keepf = std::move(fresh);
      }
      std::string nm = what == 7 ? "abs_normal" : "AbsNormalForm";
      cmpq(nm + " y", y, a.y); cmpq(nm + " z", cut(z), a.z);
      cmpq(nm + " matrices", E, a.E, es);
      if (consts) {
        refd::Lin L;
        Vec got = cy;
        got.insert(got.end(), cz.begin(), cz.end());
        for (int j = 0; j < M; ++j) {
          double v = j < m ? y[j] : z[j - m], mag = std::fabs(v);
          for (int k = 0; k < s; ++k) { double t = E[(size_t)j * N + n + k] * std::fabs(z[k]); v -= t; mag += std::fabs(t); }
          c.check(std::fabs(got[j] - v) <= 1e-12 * mag, nm + " constants", [&] { return cat("constant ", j, " is ", got[j], ", expected ", v); });
        }
      }
      break;
    }
    case 9: { // sparse
      int rep = sparse_built && g.coin();
      bool reuse = g.coin();
      SparseANF fresh;
      SparseANF &S = reuse ? keeps : fresh;
      Vec E((size_t)M * N, 0);
      bool manual = reuse && sparse_built && g.chance(1, 3) && S.dims().y + S.dims().j + S.dims().z + S.dims().l > 0;
      int rc = manual ? sparse_jac<PiecewiseLinear{}, MemoryHandler::Manual>(id, m, n, s, rep, x.data(), S) : sparse_jac<PiecewiseLinear{}, MemoryHandler::Auto>(id, m, n, s, rep, x.data(), S);
      rcok("sparse_jac", rc);
      sparse_built = true;
      std::vector<char> seen((size_t)M * N, 0);
      auto put = [&](SparseMatrix &B, int r0, int c0, int nr, int nc) {
        for (auto &t : B.entries()) {
          c.check((int)t.rowIndex() < nr && (int)t.colIndex() < nc, "sparse block index", [&] { return cat(t.rowIndex(), ",", t.colIndex(), " outside ", nr, "x", nc); });
          size_t k = (size_t)(r0 + t.rowIndex()) * N + c0 + t.colIndex();
          c.check(!seen[k], "sparse block entry twice", [&] { return cat(t.rowIndex(), ",", t.colIndex()); });
          seen[k] = 1;
          E[k] = t.value();
        }
      };
      put(S.Y, 0, 0, m, n); put(S.J, 0, n, m, s); put(S.Z, m, 0, s, n); put(S.L, m, n, s, s);
      c.check(S.Y.size() == S.dims().y && S.J.size() == S.dims().j && S.Z.size() == S.dims().z && S.L.size() == S.dims().l, "sparse shape", [] { return std::string(); });
      cmpq("sparse y", S.y, a.y); cmpq("sparse z", S.z, a.z); cmpq("sparse matrices", E, a.E, es);
      for (int j = 0; j < M; ++j) {
        double v = j < m ? S.y[j] : S.z[j - m], mag = std::fabs(v), got = j < m ? S.cy[j] : S.cz[j - m];
        for (int k = 0; k < s; ++k) { double t = E[(size_t)j * N + n + k] * std::fabs(S.z[k]); v -= t; mag += std::fabs(t); }
        c.check(std::fabs(got - v) <= 1e-12 * mag, "sparse constants", [&] { return cat("constant ", j, " is ", got, ", expected ", v); });
      }
      if (g.coin()) { // pattern alone
        std::vector<unsigned *> rows(M, nullptr);
        std::span<unsigned *> sp(rows);
        rcok("jac_pat", jac_pat<PiecewiseLinear{}>(id, m, n, s, x.data(), sp));
        for (int j = 0; j < M; ++j) {
          std::vector<char> has(N, 0);
          for (unsigned k = 1; k <= rows[j][0]; ++k) { c.check(rows[j][k] < (unsigned)N, "pattern index", [&] { return cat(rows[j][k]); }); has[rows[j][k]]++; }
          for (int i = 0; i < N; ++i) {
            c.check(has[i] <= 1, "pattern entry twice", [&] { return cat(j, ",", i); });
            if (a.E.l[(size_t)j * N + i] != 0) c.check(has[i], "pattern lacks a nonzero", [&] { return cat("row ", j, " column ", i, " is ", (double)a.E.l[(size_t)j * N + i]); });
            c.check(has[i] == seen[(size_t)j * N + i], "pattern differs from sparse_jac", [&] { return cat(j, ",", i); });
            if (j >= m && i >= n && i - n >= j - m) c.check(!has[i], "pattern of L not strictly lower triangular", [&] { return cat(j - m, ",", i - n); });
          }
          delete[] rows[j];
        }
      }
      break;
    }
    case 10: { // directional active gradient
      Vec d = dir(), gr(n, 7e77);
      std::vector<short> sg(s + 1, 0);
      bool ok = true;
      try {
        directional_active_gradient(id, n, x.data(), d.data(), gr.data(), sg.data());
      } catch (ADOLCError::ADOLCError &) { ok = false; }
      bool clr = true;
      for (auto v : a.z.l) if (!clear_sign((double)v)) clr = false;
      if (!ok) {
        bool tie = false;
        for (auto v : a.z.l) if (v == 0 || !clear_sign((double)v)) tie = true;
        c.check(tie, "directional_active_gradient failed without a kink", [] { return std::string(); });
        c.label("dirgrad failed");
        break;
      }
      for (int k = 0; k < s; ++k) c.check(sg[k] == 1 || sg[k] == -1, "directional_active_gradient signature", [&] { return cat(sg[k]); });
      refd::Lin L;
      for (int i = 0; i < n; ++i) { Vec e(n, 0); e[i] = 1; auto t = increment(f, x, e, &sg); L.add(t.y, {{0, 1.0}}); }
      cmpq("directional_active_gradient", gr, L.q, std::max(L.q.scale(), es));
      if (clr && f.exact) { // slope along d: increments of the linearisation are linear close to x
        double h = 0x1p-40;
        Vec hd = d;
        for (auto &v : hd) v *= h;
        LD slope = increment(f, x, hd).y.l[0] / h, got = 0;
        for (int i = 0; i < n; ++i) got += (LD)gr[i] * d[i];
        c.check(got == slope, "active gradient is not the directional derivative", [&] { return cat("g.d = ", (double)got, ", F'(x;d) = ", (double)slope); });
        c.label("dirgrad exact");
      }
      break;
    }
    case 11: {
      rcok("zos_forward", zos_forward(id, m, n, 0, x.data(), y.data()));
      cmpq("zos_forward", y, a.y);
      break;
    }
    }
  }
  taping::reset_library();
}
