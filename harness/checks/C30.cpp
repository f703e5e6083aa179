// Array helpers: allocation, population, identity rows, Fortran layouts, partitioned arguments.
#include "deriv.hpp"
#include <adolc/fortutils.h>
#include <cstring>
#include <set>
using namespace refd;
const CheckInfo CHECK{"C30",
  "a case is a random history of allocations of every kind (vectors, matrices, tensors of doubles, unsigned and size_t arrays, identity matrices, pointer tables laid over "
  "caller memory) with random shapes, writes of distinct numbers into every element, conversions to and from Fortran layout, releases in random order, and partitioned "
  "evaluations of a random program; the oracle is a plain model of the elements: fresh elements are zero (or the identity), elements are distinct and keep what was written "
  "whatever is allocated, filled or released meanwhile, matrices and tensors are contiguous in row-major order, tables end exactly where documented, conversions are column-major, exact and "
  "touch nothing else; non-trivial: at least two arrays alive at once and one conversion with two dimensions above 1",
  100000, 2000000, 15, 300, {"shapes up to 40 x 40 x 12"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
struct Arr { int kind; size_t m, n, p; double *a1 = nullptr; double **a2 = nullptr; double ***a3 = nullptr; unsigned *u = nullptr; size_t *s1 = nullptr; size_t **s2 = nullptr;
             char *raw = nullptr; std::vector<double> model; };
double *at(Arr &a, size_t i, size_t j, size_t k) {
  switch (a.kind) { case 0: return &a.a1[i]; case 1: case 3: return &a.a2[i][j]; default: return &a.a3[i][j][k]; }
}
template <class F> void each(Arr &a, F f) { size_t q = 0; for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) for (size_t k = 0; k < a.p; ++k) f(i, j, k, q++); }
double value(Arr &a, size_t i, size_t j, size_t k) {
  if (a.kind == 6) return a.u[i];
  if (a.kind == 7) return (double)a.s1[i];
  if (a.kind == 8) return (double)a.s2[i][j];
  return *at(a, i, j, k);
}
void store(Arr &a, size_t i, size_t j, size_t k, double v) {
  if (a.kind == 6) a.u[i] = (unsigned)v;
  else if (a.kind == 7) a.s1[i] = (size_t)v;
  else if (a.kind == 8) a.s2[i][j] = (size_t)v;
  else *at(a, i, j, k) = v;
}
void release(Arr &a, bool over) {
  switch (a.kind) {
    case 0: if (over) myfree(a.a1); else myfree1(a.a1); break;
    case 1: if (over) myfree(a.a2); else myfree2(a.a2); break;
    case 2: if (over) myfree(a.a3); else myfree3(a.a3); break;
    case 3: case 4: case 5: free(a.raw); break;
    case 6: myfree1_uint(a.u); break;
    case 7: myfree1_ulong(a.s1); break;
    case 8: myfree2_ulong(a.s2); break;
  }
}
const char *kindname[] = {"myalloc1", "myalloc2", "myalloc3", "populate_dpp", "populate_dppp", "populate_dppp_nodata", "myalloc1_uint", "myalloc1_ulong", "myalloc2_ulong"};
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  std::vector<Arr> live;
  bool two = false, conv = false;
  double next = 1;
  auto verify = [&](Arr &a, const char *when) {
    each(a, [&](size_t i, size_t j, size_t k, size_t q) {
      if (value(a, i, j, k) != a.model[q])
        c.check(false, cat("element-", kindname[a.kind]), cat(kindname[a.kind], "(", a.m, ",", a.n, ",", a.p, ") element [", i, "][", j, "][", k, "] is ", value(a, i, j, k), " expected ", a.model[q], " ", when));
    });
  };
  auto dim = [&](int big) { return (size_t)(g.chance(1, 8) ? g.range(1, big) : g.range(1, 6)); };
  int steps = 4 + (int)g.below(14);
  for (int st = 0; st < steps; ++st) {
    int what = (int)g.pick({40, 15, 15, 20, 10});
    if (what == 0) {                                                     // a new array
      Arr a{(int)g.below(9), dim(40), dim(40), dim(12)};
      if (a.kind == 0 || a.kind == 6 || a.kind == 7) a.n = a.p = 1;
      if (a.kind == 1 || a.kind == 3 || a.kind == 8) a.p = 1;
      size_t m = a.m, n = a.n, p = a.p;
      bool over = g.coin();
      c.desc << "new " << kindname[a.kind] << " " << m << " " << n << " " << p << "\n";
      char *end = nullptr;
      bool zero = true;
      switch (a.kind) {
        case 0: a.a1 = over ? myalloc(m) : myalloc1(m); break;
        case 1: a.a2 = over ? myalloc(m, n) : myalloc2(m, n); break;
        case 2: a.a3 = over ? myalloc(m, n, p) : myalloc3(m, n, p); break;
        case 3: { size_t len = m * sizeof(double *) + m * n * sizeof(double); a.raw = (char *)malloc(len); end = a.raw + len; zero = false;
                  char *e = populate_dpp(&a.a2, a.raw, m, n);
                  c.check(e == end, "populate-end", cat("populate_dpp returned offset ", e - a.raw, " expected ", len)); break; }
        case 4: { size_t len = m * sizeof(double **) + m * n * sizeof(double *) + m * n * p * sizeof(double); a.raw = (char *)malloc(len); end = a.raw + len; zero = false;
                  char *e = populate_dppp(&a.a3, a.raw, m, n, p);
                  c.check(e == end, "populate-end", cat("populate_dppp returned offset ", e - a.raw, " expected ", len)); break; }
        case 5: { size_t tab = m * sizeof(double **) + m * n * sizeof(double *), len = tab + m * n * p * sizeof(double); a.raw = (char *)malloc(len); zero = false;
                  char *e = populate_dppp_nodata(&a.a3, a.raw, m, n);
                  c.check(e == a.raw + tab, "populate-end", cat("populate_dppp_nodata returned offset ", e - a.raw, " expected ", tab));
                  double *d = (double *)(a.raw + tab);                    // the rows are the caller's: any order will do
                  std::vector<size_t> ord(m * n);
                  for (size_t i = 0; i < m * n; ++i) ord[i] = i;
                  for (size_t i = m * n; i-- > 1;) std::swap(ord[i], ord[g.below(i + 1)]);
                  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) a.a3[i][j] = d + ord[i * n + j] * p;
                  break; }
        case 6: a.u = myalloc1_uint(m); break;
        case 7: a.s1 = myalloc1_ulong(m); break;
        case 8: a.s2 = myalloc2_ulong(m, n); break;
      }
      if (a.kind == 1 || a.kind == 2 || a.kind == 3 || a.kind == 4)
        each(a, [&](size_t i, size_t j, size_t k, size_t q) { if (at(a, i, j, k) != at(a, 0, 0, 0) + q) c.check(false, "contiguous", cat(kindname[a.kind], " is not contiguous at [", i, "][", j, "][", k, "]")); });
      if (a.kind == 3 || a.kind == 4) c.check((char *)(at(a, 0, 0, 0) + m * n * p) == end, "data-end", "the elements do not end at the returned address");
      if (a.kind == 8) for (size_t i = 1; i < m; ++i) c.check(a.s2[i] == a.s2[0] + i * n, "contiguous", "myalloc2_ulong is not contiguous");
      a.model.assign(m * n * p, 0.0);
      if (zero) verify(a, "after allocation");
      each(a, [&](size_t i, size_t j, size_t k, size_t q) { a.model[q] = next; store(a, i, j, k, next); next += 1; });
      live.push_back(std::move(a));
      if (live.size() > 1) two = true;
    } else if (what == 1) {                                              // release one
      if (live.empty()) continue;
      size_t i = g.below(live.size());
      verify(live[i], "before release");
      c.desc << "free " << kindname[live[i].kind] << "\n";
      release(live[i], g.coin());
      live.erase(live.begin() + (long)i);
      for (auto &a : live) verify(a, "after releasing another array");
    } else if (what == 2) {                                              // identity matrix
      size_t n = dim(60);
      c.desc << "identity " << n << "\n";
      double **I = myallocI2(n);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
        if (I[i][j] != (i == j ? 1.0 : 0.0)) c.check(false, "identity", cat("myallocI2(", n, ")[", i, "][", j, "] = ", I[i][j]));
      if (n > 1) c.label("identity");
      for (auto &a : live) verify(a, "after an identity matrix");
      myfreeI2(n, I);
    } else if (what == 3) {                                              // Fortran layouts
      size_t m = dim(20), n = dim(20), p = dim(8);
      int d = 1 + (int)g.below(3);
      if (d == 1) n = 1;
      if (d <= 2) p = 1;
      c.desc << "layout " << d << " " << m << " " << n << " " << p << "\n";
      if ((m > 1) + (n > 1) + (p > 1) >= 2) conv = true;
      size_t N = m * n * p;
      std::vector<double> f(N), f0;
      for (auto &v : f) v = next++;
      f0 = f;
      double *A1 = myalloc1(m), **A2 = myalloc2(m, n), ***A3 = myalloc3(m, n, p);
      if (d == 1) spread1((int)m, f.data(), A1);
      else if (d == 2) spread2((int)m, (int)n, f.data(), A2);
      else spread3((int)m, (int)n, (int)p, f.data(), A3);
      c.check(f == f0, "spread-input", "spread changed its argument");
      for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < p; ++k) {
        double v = d == 1 ? A1[i] : d == 2 ? A2[i][j] : A3[i][j][k], w = f0[i + m * (j + n * k)];
        if (v != w) c.check(false, cat("spread", d), cat("spread", d, " [", i, "][", j, "][", k, "] of ", m, "x", n, "x", p, " is ", v, " expected ", w));
      }
      // back, from arrays with other contents, in rows that lie anywhere
      std::vector<std::vector<double>> rows(m * n, std::vector<double>(p));
      std::vector<std::vector<double>> row2(m, std::vector<double>(n));
      std::vector<double *> r2(m); std::vector<std::vector<double *>> t3(m, std::vector<double *>(n)); std::vector<double **> r3(m);
      std::vector<double> r1(m);
      for (size_t i = 0; i < m; ++i) { r2[i] = row2[i].data(); r3[i] = t3[i].data(); r1[i] = next++;
        for (size_t j = 0; j < n; ++j) { row2[i][j] = next++; t3[i][j] = rows[i * n + j].data(); for (auto &v : rows[i * n + j]) v = next++; } }
      std::vector<double> back(N, -1);
      auto k1 = r1; auto k2 = row2; auto k3 = rows;
      if (d == 1) pack1((int)m, r1.data(), back.data());
      else if (d == 2) pack2((int)m, (int)n, r2.data(), back.data());
      else pack3((int)m, (int)n, (int)p, r3.data(), back.data());
      c.check(k1 == r1 && k2 == row2 && k3 == rows, "pack-input", "pack changed its argument");
      for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < p; ++k) {
        double w = d == 1 ? r1[i] : d == 2 ? row2[i][j] : rows[i * n + j][k], v = back[i + m * (j + n * k)];
        if (v != w) c.check(false, cat("pack", d), cat("pack", d, " [", i, "][", j, "][", k, "] of ", m, "x", n, "x", p, " is ", v, " expected ", w));
      }
      myfree1(A1); myfree2(A2); myfree3(A3);
    } else {                                                             // degenerate shapes and releases
      c.desc << "empty\n";
      c.check(!myalloc1(0) && !myalloc2(0, 3) && !myalloc2(3, 0) && !myalloc3(0, 2, 2) && !myalloc3(2, 0, 2) && !myalloc3(2, 2, 0), "empty", "an empty array is not a null pointer");
      myfree1(nullptr); myfree2(nullptr); myfree3(nullptr);
    }
  }
  for (auto &a : live) verify(a, "at the end");
  // elements of different arrays never share memory
  std::set<const void *> seen; size_t total = 0;
  for (auto &a : live) if (a.kind < 6) each(a, [&](size_t i, size_t j, size_t k, size_t) { seen.insert(at(a, i, j, k)); ++total; });
  c.check(seen.size() == total, "shared", "elements of arrays share memory");
  while (!live.empty()) { size_t i = g.below(live.size()); release(live[i], g.coin()); live.erase(live.begin() + (long)i); }
  if (two && conv) c.interesting();
}
