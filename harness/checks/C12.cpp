// Active variables may live, die and move in any order.
#include "deriv.hpp"
#include <numeric>
#include <algorithm>
using namespace refd;
using taping::Mat;
const CheckInfo CHECK{"C12",
  "a case is a random history of 20-160 events on active variables of one or two tapes (block or singleton location manager with random "
  "garbage-collection control): arrays, vectors and single variables are created (with contiguity requests), copied, moved, swapped, rotated, "
  "inserted, erased, reallocated, passed by value, assigned (also to themselves) and destroyed, before, during and after recordings; model: "
  "an expression graph per variable; oracle: all live variables have their value and pairwise different locations, the tape counts them "
  "right, contiguous requests are contiguous, and every recording reproduces values and gradient at another point; non-trivial: a recording "
  "that used a location freed earlier and at least 5 lifetime events",
  20000, 300000, 24, 600, {"locations are observed through adouble::loc(); moved-from variables are only destroyed or move-assigned, as the class documents"}};
std::vector<Pinned> pinned_cases() { return {}; }

namespace {
struct Node { int op; int a = -1, b = -1; double k = 0; };
constexpr int NP = 2;
struct Dual { long double v; std::array<long double, 3> g; };
struct World {
  Case &c;
  Gen &g;
  World(Case &c_) : c(c_), g(c_.g) {}
  std::vector<Node> nodes;             // all expressions ever built
  std::vector<std::array<Dual, NP>> e; // their values and gradients at the points
  double pt[NP][3];
  struct Group { std::vector<adouble> v; std::vector<int> n; };
  struct Tape {
    short id;
    std::vector<std::unique_ptr<Group>> G;
    std::vector<int> deps;
    int ninds = 0;
    bool rec = false, have = false, frozen = false;
    int keep = 0;
    std::set<size_t> freed;
    bool singles = false;
  };
  std::vector<std::unique_ptr<Tape>> T;
  Tape *t = nullptr;
  int lifetimes = 0;
  bool reused = false;

  int mk(Node n) {
    std::array<Dual, NP> r;
    for (int p = 0; p < NP; ++p) {
      Dual d{};
      auto A = n.a >= 0 ? e[n.a][p] : Dual{}, B = n.b >= 0 ? e[n.b][p] : Dual{};
      switch (n.op) {
      case 0: d.v = n.k; break;
      case 1: d.v = pt[p][(int)n.k]; d.g[(int)n.k] = 1; break;
      case 2: d.v = A.v + B.v; for (int i = 0; i < 3; ++i) d.g[i] = A.g[i] + B.g[i]; break;
      case 3: d.v = A.v - B.v; for (int i = 0; i < 3; ++i) d.g[i] = A.g[i] - B.g[i]; break;
      case 4: d.v = A.v * B.v; for (int i = 0; i < 3; ++i) d.g[i] = A.g[i] * B.v + A.v * B.g[i]; break;
      case 5: d.v = std::sin(A.v); for (int i = 0; i < 3; ++i) d.g[i] = A.g[i] * std::cos(A.v); break;
      case 6: d.v = A.v * n.k; for (int i = 0; i < 3; ++i) d.g[i] = A.g[i] * n.k; break;
      case 7: d.v = A.v + n.k; d.g = A.g; break;
      }
      r[p] = d;
    }
    nodes.push_back(n);
    e.push_back(r);
    return (int)nodes.size() - 1;
  }
  bool tame(int k) { for (auto &d : e[k]) { if (fabsl(d.v) > 50) return false; for (auto x : d.g) if (fabsl(x) > 1e3) return false; } return true; }
  int con(double k) { return mk({0, -1, -1, k}); }
  double val(int k) { return (double)e[k][0].v; }
  // freeze: after a recording, variables are constants for the next one
  std::map<int, int> frozen;
  Group *anyG() { if (t->G.empty()) { std::vector<int> n; addGroup(1, false); } return t->G[g.below(t->G.size())].get(); }
  struct Ref { Group *G; size_t i; adouble &a() { return G->v[i]; } int &n() { return G->n[i]; } };
  bool any(Ref &r) {
    size_t tot = 0;
    for (auto &G : t->G) tot += G->v.size();
    if (!tot) return false;
    size_t k = g.below(tot);
    for (auto &G : t->G) { if (k < G->v.size()) { r = {G.get(), k}; return true; } k -= G->v.size(); }
    return false;
  }
  void note_loc(const adouble &a) { if (t->freed.count(a.loc())) { reused = true; } }
  void addGroup(size_t k, bool contig) {
    auto G = std::make_unique<Group>();
    if (contig && !t->singles) {
      currentTape().ensureContiguousLocations(k);
      c.label("contiguous");
      G->v = std::vector<adouble>(k);
      for (size_t i = 1; i < k; ++i) c.check(G->v[i].loc() == G->v[0].loc() + i, "contiguous", cat("requested ", k, " contiguous locations, got ", G->v[0].loc(), " and ", G->v[i].loc(), " at ", i));
    } else G->v = std::vector<adouble>(k);
    for (size_t i = 0; i < k; ++i) { double v = g.real(-2, 2); G->v[i] = v; G->n.push_back(con(v)); note_loc(G->v[i]); }
    t->G.push_back(std::move(G));
  }
  static adouble byval(adouble a, adouble b) { adouble s = a * b; a = s; return a; }
  static adouble rec(std::vector<adouble> v, size_t k) {
    if (k == 0) return v[0];
    adouble h = 0.5 * v[k];
    return h + rec(v, k - 1);
  }
  void check_all(const char *when) {
    std::set<size_t> L;
    size_t cnt = 0;
    for (auto &G : t->G)
      for (size_t i = 0; i < G->v.size(); ++i) {
        ++cnt;
        size_t l = G->v[i].loc();
        c.check(L.insert(l).second, "shared-location", cat("after ", when, " two live variables share location ", l));
        double got = G->v[i].value(), w = val(G->n[i]);
        c.check(std::fabs(got - w) <= 1e-9 * (1 + std::fabs(w)), "value", cat("after ", when, " the variable at location ", l, " has value ", got, " instead of ", w));
        t->freed.erase(l);
      }
    size_t nl = currentTape().numLives();
    c.check(nl == cnt, "live-count", cat("after ", when, " the tape counts ", nl, " live variables instead of ", cnt));
  }
  void freeloc(const adouble &a) { t->freed.insert(a.loc()); }
  void set(Ref r, int n) { r.n() = n; }
  void begin() {
    bool small = g.chance(1, 4);
    int keep = g.coin();
    // live variables keep their values as constants of the new recording
    for (auto &G : t->G) for (auto &n : G->n) n = con(val(n));
    if (small) trace_on(t->id, keep, (size_t)g.range(6, 40), (size_t)g.range(60, 120), (size_t)g.range(6, 40), (size_t)g.range(4, 40), 0);
    else trace_on(t->id, keep);
    t->rec = true; t->have = false; t->keep = keep;
    t->ninds = g.range(1, 3);
    c.desc << "trace_on tape " << t->id << " keep=" << keep << " with " << t->ninds << " independents\n";
    for (int i = 0; i < t->ninds; ++i) {
      Ref r;
      if (g.coin() || !any(r) || nodes[r.n()].op == 1) { addGroup(1, false); r = {t->G.back().get(), 0}; }
      else c.label("independent made of an old variable");
      r.a() <<= pt[0][i];
      r.n() = mk({1, -1, -1, (double)i});
      c.desc << "independent at location " << r.a().loc() << "\n";
    }
  }
  void end() {
    t->deps.clear();
    int m = g.range(1, 3);
    Ref r;
    for (int j = 0; j < m; ++j) {
      if (!any(r)) { addGroup(1, false); r = {t->G.back().get(), 0}; }
      double y;
      r.a() >>= y;
      t->deps.push_back(r.n());
      c.check(y == r.a().value(), "dependent-value", "marking a dependent gave another value than the variable has");
    }
    trace_off(g.chance(1, 4));
    t->rec = false; t->have = true;
    c.desc << "trace_off tape " << t->id << " with " << m << " dependents\n";
    if (lifetimes >= 5 && reused) c.interesting();
    if (t->keep) reverse_at(0, "reverse after recording");
    setCurrentTape(t->id);
    // from now on the variables keep their values without dependence
    for (auto &G : t->G) for (auto &n : G->n) n = con(val(n));
  }
  void reverse_at(int p, const char *nm) {
    int n = t->ninds, m = (int)t->deps.size();
    auto U = reals(g, m);
    std::vector<double> Z(n, 1e30);
    int rc = fos_reverse(t->id, m, n, U.data(), Z.data());
    (void)rc;
    for (int i = 0; i < n; ++i) {
      long double w = 0, s = 0;
      for (int j = 0; j < m; ++j) { w += U[j] * e[t->deps[j]][p].g[i]; s += fabsl(U[j] * e[t->deps[j]][p].g[i]); }
      c.check(fabsl(Z[i] - w) <= 1e-9L * (1 + s), "gradient", cat(nm, ": component ", i, " is ", Z[i], " expected ", (double)w));
    }
    c.label(nm);
  }
  void evaluate() {
    int n = t->ninds, m = (int)t->deps.size();
    int p = (int)g.below(NP);
    double x[3] = {pt[p][0], pt[p][1], pt[p][2]};
    std::vector<double> y(m, 1e30);
    int rc = zos_forward(t->id, m, n, 1, x, y.data());
    c.desc << "evaluate tape " << t->id << " at point " << p << "\n";
    c.check(rc == 3, "rc", cat("zos_forward returned ", rc));
    for (int j = 0; j < m; ++j) {
      double w = (double)e[t->deps[j]][p].v;
      c.check(std::fabs(y[j] - w) <= 1e-9 * (1 + std::fabs(w)), "tape-value", cat("tape ", t->id, " at point ", p, ": y[", j, "]=", y[j], " expected ", w));
    }
    reverse_at(p, "reverse");
    Mat X(n, 2), Y(m, 2, 1e30);
    for (int i = 0; i < n; ++i) { X[i][0] = g.real(-2, 2); X[i][1] = g.real(-2, 2); }
    rc = fov_forward(t->id, m, n, 2, x, X.p(), y.data(), Y.p());
    c.check(rc == 3, "rc", cat("fov_forward returned ", rc));
    for (int j = 0; j < m; ++j) for (int l = 0; l < 2; ++l) {
      long double w = 0, s = 0;
      for (int i = 0; i < n; ++i) { w += e[t->deps[j]][p].g[i] * X[i][l]; s += fabsl(e[t->deps[j]][p].g[i] * X[i][l]); }
      c.check(fabsl(Y[j][l] - w) <= 1e-9L * (1 + s), "tangent", cat("tangent ", j, ",", l, " is ", Y[j][l], " expected ", (double)w));
    }
  }
  void newTape() {
    auto q = std::make_unique<Tape>();
    q->id = createNewTape();
    setCurrentTape(q->id);
    if (g.chance(1, 4)) { currentTape().setStoreManagerType(StoreManager::ADOLC_LOCATION_SINGLETONS); q->singles = true; c.label("singleton locations"); }
    else if (g.coin()) { static const double rs[] = {1.5, 1.01, 2.5, 100}; double r = rs[g.below(4)]; size_t mx = (size_t)g.range(1, 200); currentTape().setStoreManagerControl(r, mx); c.desc << "gc control " << r << " " << mx << "\n"; }
    c.desc << "create tape " << q->id << (q->singles ? " (singletons)" : "") << "\n";
    T.push_back(std::move(q));
    t = T.back().get();
  }
  void op() {
    Ref a, b, d;
    int k = (int)g.below(24);
    const char *nm = "?";
    switch (k) {
    case 0: case 1: { nm = "new array"; size_t s = (size_t)g.range(1, 6); addGroup(s, g.coin()); c.desc << nm << " of " << s << " at " << t->G.back()->v[0].loc() << "\n"; ++lifetimes; break; }
    case 2: { nm = "destroy array"; if (t->G.empty()) return; size_t i = g.below(t->G.size()); for (auto &x : t->G[i]->v) freeloc(x); t->G.erase(t->G.begin() + (long)i); c.desc << nm << " " << i << "\n"; ++lifetimes; break; }
    case 3: { nm = "push_back copy"; if (!any(a)) return; Group *G = anyG(); int n = a.n(); if (g.coin()) G->v.push_back(a.a()); else { adouble t(a.a()); G->v.emplace_back(std::move(t)); } G->n.push_back(n); note_loc(G->v.back()); c.desc << nm << "\n"; ++lifetimes; break; }
    case 4: { nm = "insert"; if (!any(a)) return; Group *G = anyG(); size_t pos = g.below(G->v.size() + 1); adouble t(a.a()); int n = a.n(); G->v.insert(G->v.begin() + (long)pos, std::move(t)); G->n.insert(G->n.begin() + (long)pos, n); c.desc << nm << " at " << pos << "\n"; ++lifetimes; break; }
    case 5: { nm = "erase"; Group *G = anyG(); if (G->v.empty()) return; size_t pos = g.below(G->v.size()); freeloc(G->v[pos]); G->v.erase(G->v.begin() + (long)pos); G->n.erase(G->n.begin() + (long)pos); c.desc << nm << " " << pos << "\n"; ++lifetimes; break; }
    case 6: { nm = "swap"; if (!any(a) || !any(b)) return; std::swap(a.a(), b.a()); if (!(a.G == b.G && a.i == b.i)) std::swap(a.n(), b.n()); c.desc << nm << "\n"; ++lifetimes; break; }
    case 7: { nm = "rotate"; Group *G = anyG(); if (G->v.empty()) return; size_t s = g.below(G->v.size()); std::rotate(G->v.begin(), G->v.begin() + (long)s, G->v.end()); std::rotate(G->n.begin(), G->n.begin() + (long)s, G->n.end()); c.desc << nm << " " << s << "\n"; ++lifetimes; break; }
    case 8: { nm = "copy array"; Group *G = anyG(); auto H = std::make_unique<Group>(); if (g.coin()) H->v = G->v; else { std::vector<adouble> tmp(G->v); H->v = std::move(tmp); } H->n = G->n; if (H->v.size() > 12) return; for (auto &x : H->v) note_loc(x); t->G.push_back(std::move(H)); c.desc << nm << "\n"; ++lifetimes; break; }
    case 9: { nm = "resize"; Group *G = anyG(); size_t s = (size_t)g.range(0, 8); for (size_t i = s; i < G->v.size(); ++i) freeloc(G->v[i]); size_t old = G->v.size(); G->v.resize(s); G->n.resize(s); for (size_t i = old; i < s; ++i) { double v = g.real(-2, 2); G->v[i] = v; G->n[i] = con(v); } if (g.coin()) G->v.shrink_to_fit(); c.desc << nm << " to " << s << "\n"; ++lifetimes; break; }
    case 10: { nm = "assign array"; Group *G = anyG(), *H = anyG(); G->v = H->v; G->n = H->n; c.desc << nm << "\n"; ++lifetimes; break; }
    case 11: { nm = "move assign"; if (!any(a) || !any(b)) return; if (a.G == b.G && a.i == b.i) { adouble &x = a.a(); adouble &y = x; x = std::move(y); nm = "self move"; break; }
      int n = b.n(); freeloc(a.a()); a.a() = std::move(b.a()); a.n() = n;
      if (g.coin()) { b.G->v.erase(b.G->v.begin() + (long)b.i); b.G->n.erase(b.G->n.begin() + (long)b.i); }
      else { double v = g.real(-2, 2); b.a() = adouble(v); b.n() = con(v); }
      c.desc << nm << "\n"; ++lifetimes; break; }
    case 12: { nm = "self operations"; if (!any(a)) return; int n = a.n(); adouble &x = a.a(), &y = x; int w = (int)g.below(4); if (w == 0) x = y; else if (w == 1) { int r = mk({2, n, n}); if (!tame(r)) return; x += y; a.n() = r; } else if (w == 2) { int r = mk({3, n, n}); x -= y; a.n() = r; } else { int r = mk({4, n, n}); if (!tame(r)) return; x *= y; a.n() = r; } c.desc << nm << " " << w << "\n"; break; }
    case 13: { nm = "pass by value"; if (!any(a) || !any(b) || !any(d)) return; int r = mk({4, a.n(), b.n()}); if (!tame(r)) return; if (g.coin()) d.a() = byval(a.a(), b.a()); else { adouble t(byval(adouble(a.a()), adouble(b.a()))); d.a() = t; } d.n() = r; c.desc << nm << "\n"; ++lifetimes; break; }
    case 14: { nm = "recursion"; Group *G = anyG(); if (G->v.empty() || !any(d)) return; int r = G->n[0]; for (size_t i = 1; i < G->v.size(); ++i) { int h = mk({6, G->n[i], -1, 0.5}); r = mk({2, h, r}); } if (!tame(r)) return; d.a() = rec(G->v, G->v.size() - 1); d.n() = r; c.desc << nm << " over " << G->v.size() << "\n"; ++lifetimes; break; }
    case 15: { nm = "accumulate"; Group *G = anyG(); if (G->v.empty() || !any(d)) return; int r = con(0.25); for (size_t i = 0; i < G->v.size(); ++i) r = mk({2, r, G->n[i]}); if (!tame(r)) return; d.a() = std::accumulate(G->v.begin(), G->v.end(), adouble(0.25)); d.n() = r; c.desc << nm << "\n"; break; }
    case 16: { nm = "raw array"; if (!any(a) || !any(d)) return; size_t s = (size_t)g.range(1, 5); int r = a.n(); { adouble *p = new adouble[s]; p[0] = a.a(); for (size_t i = 1; i < s; ++i) { p[i] = p[i - 1] + 0.5; r = mk({7, r, -1, 0.5}); } if (tame(r)) { d.a() = p[s - 1]; d.n() = r; } delete[] p; } c.desc << nm << " of " << s << "\n"; ++lifetimes; break; }
    case 17: { nm = "move array"; Group *G = anyG(); auto H = std::make_unique<Group>(); H->v = std::move(G->v); H->n = std::move(G->n); G->v.clear(); G->n.clear(); t->G.push_back(std::move(H)); c.desc << nm << "\n"; ++lifetimes; break; }
    case 18: { nm = "reserve"; Group *G = anyG(); G->v.reserve(G->v.capacity() + (size_t)g.range(1, 9)); c.desc << nm << "\n"; ++lifetimes; break; }
    default: {
      nm = "arithmetic";
      if (!any(a) || !any(b) || !any(d)) return;
      int w = (int)g.below(8), r;
      double q = g.real(-1.5, 1.5);
      switch (w) {
      case 0: r = mk({2, a.n(), b.n()}); break;
      case 1: r = mk({3, a.n(), b.n()}); break;
      case 2: r = mk({4, a.n(), b.n()}); break;
      case 3: case 4: r = mk({5, a.n()}); break;
      case 5: r = mk({6, a.n(), -1, q}); break;
      case 6: r = mk({7, a.n(), -1, q}); break;
      default: { int h = mk({5, a.n()}); int h2 = mk({3, b.n(), a.n()}); r = mk({4, h, h2}); break; }
      }
      if (!tame(r)) { double v = g.real(-2, 2); d.a() = v; d.n() = con(v); break; }
      const adouble &A = a.a(), &B = b.a();
      switch (w) {
      case 0: d.a() = A + B; break;
      case 1: d.a() = A - B; break;
      case 2: d.a() = A * B; break;
      case 3: d.a() = sin(A); break;
      case 4: d.a() = sin(adouble(A)); break;
      case 5: d.a() = g.coin() ? A * q : q * adouble(A); break;
      case 6: d.a() = g.coin() ? A + q : q + adouble(A); break;
      default: d.a() = sin(A) * (B - A); break;
      }
      d.n() = r;
      c.desc << nm << " " << w << " -> " << d.a().loc() << "\n";
      if (t->freed.count(d.a().loc())) reused = true;
    }
    }
    c.label(nm);
    size_t tot = 0;
    for (auto &G : t->G) tot += G->v.size();
    while (tot > 120) { tot -= t->G.back()->v.size(); t->G.pop_back(); }
    t->G.erase(std::remove_if(t->G.begin(), t->G.end(), [&](auto &G) { return G->v.empty() && t->G.size() > 6; }), t->G.end());
    check_all(nm);
  }
  void go() {
    taping::reset_library();
    for (auto &p : pt) for (auto &x : p) x = g.real(-2, 2);
    newTape();
    int len = g.range(20, 160);
    for (int k = 0; k < len; ++k) {
      int ev = (int)g.below(20);
      if (ev == 0 && !t->rec) begin();
      else if (ev == 1 && t->rec) end();
      else if (ev == 2 && t->have) { evaluate(); check_all("evaluation"); }
      else if (ev == 3 && T.size() < 2) newTape();
      else if (ev == 3) { t = T[g.below(T.size())].get(); setCurrentTape(t->id); c.desc << "current tape " << t->id << "\n"; check_all("switching tapes"); }
      else op();
    }
    for (auto &q : T) {
      t = q.get();
      setCurrentTape(t->id);
      if (!t->rec && !t->have) begin();
      if (t->rec) end();
      evaluate();
    }
  }
  ~World() {
    for (auto &q : T) { setCurrentTape(q->id); q->G.clear(); }
  }
};
} // namespace
void run_case(Case &c) { World w(c); w.go(); }
