// A random evaluation of a recorded tape (any sweep or driver), compared with exact derivatives of a
// reference function given as a map of truncated power series.
#pragma once
#include "deriv.hpp"
#include <adolc/sparse/sparsedrivers.h>

namespace evals {
using refd::Q;
using refd::Lin;
using LD = long double;
using Vec = std::vector<double>;
template <class R> using VA = std::vector<ref::Alg<R>>;

struct Fun {
  int n = 0, m = 0;
  std::function<VA<LD>(const VA<LD> &)> l;
  std::function<VA<ref::Nz>(const VA<ref::Nz> &)> z;
  VA<LD> operator()(const VA<LD> &x) const { return l(x); }
  VA<ref::Nz> operator()(const VA<ref::Nz> &x) const { return z(x); }
};
template <class G> Fun fun(int n, int m, G g) { return {n, m, g, g}; }
inline Fun fun(const prog::Program &P, Vec par) {
  return fun(P.n, P.m, [&P, par](const auto &x) { return prog::eval<std::decay_t<decltype(x[0])>>(P, x, &par); });
}
inline Q values(const Fun &F, const Vec &x) {
  Q q;
  auto C = ref::Ctx::taylor(0);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> X;
    for (double v : x) X.emplace_back(v);
    for (auto &y : F(X)) out.push_back(y.c[0]);
  };
  refd::fold(f, q);
  return q;
}
inline Q jacobian(const Fun &F, const Vec &x) {
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::taylor_grad(0, n);
  std::vector<int> at(n);
  for (int i = 0; i < n; ++i) { std::vector<int> e(n + 1, 0); e[i + 1] = 1; at[i] = C.at(e); }
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> X;
    for (int i = 0; i < n; ++i) { X.emplace_back(x[i]); X.back().c[at[i]] = 1; }
    for (auto &y : F(X)) for (int i = 0; i < n; ++i) out.push_back(y.c[at[i]]);
  };
  refd::fold(f, q);
  return q;
}
inline Q taylor(const Fun &F, const Vec &x, const std::vector<Vec> &X, int d) { // [m][d+1]
  Q q;
  auto C = ref::Ctx::taylor(d);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> A;
    for (size_t i = 0; i < x.size(); ++i) { A.emplace_back(x[i]); for (int j = 0; j < d; ++j) A.back().c[j + 1] = X[i][j]; }
    for (auto &y : F(A)) for (int j = 0; j <= d; ++j) out.push_back(y.c[j]);
  };
  refd::fold(f, q);
  return q;
}
inline Q jacpath(const Fun &F, const Vec &x, const std::vector<Vec> &X, int d) { // [m][n][d+1]
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::taylor_grad(d, n);
  auto at = [&](int j, int i) { std::vector<int> e(n + 1, 0); e[0] = j; if (i >= 0) e[i + 1] = 1; return C.at(e); };
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> A;
    for (int i = 0; i < n; ++i) {
      A.emplace_back(x[i]);
      for (int j = 0; j < d; ++j) A.back().c[at(j + 1, -1)] = X[i][j];
      A.back().c[at(0, i)] = 1;
    }
    for (auto &y : F(A)) for (int i = 0; i < n; ++i) for (int j = 0; j <= d; ++j) out.push_back(y.c[at(j, i)]);
  };
  refd::fold(f, q);
  return q;
}
inline Q hessians(const Fun &F, const Vec &x) { // [m][n][n]
  Q q;
  int n = (int)x.size();
  auto C = ref::Ctx::multi(n, 2);
  auto f = [&](auto tag, auto &out) {
    using R = decltype(tag);
    ref::Use u(C);
    VA<R> A;
    for (int i = 0; i < n; ++i) { A.emplace_back(x[i]); std::vector<int> e(n, 0); e[i] = 1; A.back().c[C.at(e)] = 1; }
    for (auto &y : F(A))
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        std::vector<int> e(n, 0); e[i]++; e[j]++;
        out.push_back(y.c[C.at(e)] * (i == j ? R(2) : R(1)));
      }
  };
  refd::fold(f, q);
  return q;
}

// groups of modes
enum : unsigned { ZOS = 1, FOS = 2, FOV = 4, HOS = 8, HOV = 16, HOVWK = 32, REV1 = 64, REVH = 128, OV = 256, DRV1 = 512, DRV2 = 1024, SPARSEJ = 2048, SPARSEH = 4096, TENSOR = 8192,
  FIRST = ZOS | FOS | FOV | REV1 | DRV1, ALL = 0xffff };

struct Eval {
  Case &c;
  short id;
  const Fun &F;
  std::function<bool(const Vec &, int)> rc_ok; // codes acceptable at x
  unsigned allow = ALL;
  std::string pre;  // prefix of failure signatures
  int maxdeg = 3;
  bool tight_only = false; // sparse drivers in tight mode only
  double slack = 1; // widens the tolerance
  void cmpq(const std::string &nm, const std::string &where, const Vec &got, const Q &w, double sc = -1) {
    if (!refd::finite(w)) return;
    double s = (sc < 0 ? w.scale() : sc) * slack;
    for (size_t i = 0; i < w.l.size(); ++i) {
      bool ok = close(got[i], w.l[i], w.d[i], s);
      if (!ok && slack > 1 && std::isfinite(got[i])) ok = std::fabs(got[i] - (double)w.l[i]) <= 1e-9 * slack * (1 + s / slack);
      c.check(ok, pre + nm, cat(nm, " ", where, ": entry ", i, " is ", got[i], " expected ", (double)w.l[i]));
    }
  }
  Q Jv(const Vec &x, const Vec &X) { Lin L; auto q = jacobian(F, x); int n = F.n; for (int j = 0; j < F.m; ++j) { std::vector<std::pair<size_t, double>> v; for (int i = 0; i < n; ++i) v.push_back({(size_t)(j * n + i), X[i]}); L.add(q, v); } return L.q; }
  Q vJ(const Vec &x, const Vec &U) { Lin L; auto q = jacobian(F, x); int n = F.n; for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> v; for (int j = 0; j < F.m; ++j) v.push_back({(size_t)(j * n + i), U[j]}); L.add(q, v); } return L.q; }
  Q Hv(const Vec &x, const Vec &U, const Vec &V) { Lin L; auto q = hessians(F, x); int n = F.n; for (int i = 0; i < n; ++i) { std::vector<std::pair<size_t, double>> v; for (int j = 0; j < F.m; ++j) for (int k = 0; k < n; ++k) v.push_back({(size_t)((j * n + i) * n + k), U[j] * V[k]}); L.add(q, v); } return L.q; }
  std::string last;
  // performs one random evaluation at x; false if nothing suitable was drawn
  bool one(const Vec &xin) {
    using taping::Mat;
    using taping::Ten;
    using refd::reals;
    Gen &g = c.g;
    Vec x = xin;
    int n = F.n, m = F.m;
    std::vector<int> ok;
    auto add = [&](unsigned bit, std::initializer_list<int> l) { if (allow & bit) ok.insert(ok.end(), l); };
    add(ZOS, {0}); add(FOS, {1}); add(FOV, {2}); add(HOS, {3}); add(HOV, {4}); add(HOVWK, {5}); add(REV1, {6, 7}); add(REVH, {8, 9}); add(OV, {10});
    add(DRV1, {11, 12, 13, 14, 15, 16}); add(DRV2, {17, 18}); add(SPARSEJ, {19}); if (m == 1) { add(DRV2, {20, 21}); add(SPARSEH, {22}); } add(TENSOR, {23});
    if (ok.empty()) return false;
    int how = ok[g.below(ok.size())];
    Vec y(m, 1e30);
    std::string nm;
    int rc = 3;
    bool haveY = true;
    std::string at = cat("at ", refd::show(x));
    auto code = [&](const std::string &n2, int r) { c.check(rc_ok(x, r), pre + "code-" + n2, cat(n2, " ", at, " returned ", r)); };
    auto rnd = [&](auto &M, double lo = -1.5, double hi = 1.5) { for (auto &v : M.d) v = g.chance(1, 5) ? 0.0 : g.real(lo, hi); };
    switch (how) {
    case 0: nm = "zos_forward"; rc = zos_forward(id, m, n, (int)g.below(2), x.data(), y.data()); break;
    case 1: { nm = "fos_forward"; auto X = reals(g, n); Vec Y(m, 1e30); rc = fos_forward(id, m, n, (int)g.below(3), x.data(), X.data(), y.data(), Y.data()); cmpq(nm, at, Y, Jv(x, X)); break; }
    case 2: { nm = "fov_forward"; int p = g.range(1, 3); Mat X(n, p), Y(m, p, 1e30); rnd(X); rc = fov_forward(id, m, n, p, x.data(), X.p(), y.data(), Y.p());
      for (int k = 0; k < p; ++k) { Vec a, b; for (int i = 0; i < n; ++i) a.push_back(X[i][k]); for (int j = 0; j < m; ++j) b.push_back(Y[j][k]); cmpq(nm, at, b, Jv(x, a)); } break; }
    case 3: case 8: case 9: {
      int d = g.range(1, maxdeg), keep = how == 3 ? (int)g.below(d + 2) : d + 1;
      nm = "hos_forward";
      Mat X(n, d), Y(m, d, 1e30);
      rnd(X, -1, 1);
      rc = hos_forward(id, m, n, d, keep, x.data(), X.p(), y.data(), Y.p());
      std::vector<Vec> C(n, Vec(d));
      for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) C[i][k] = X[i][k];
      at += cat(" degree ", d, " keep ", keep, " X=", refd::show(X.d));
      auto q = taylor(F, x, C, d);
      Vec got;
      for (int j = 0; j < m; ++j) { got.push_back(y[j]); for (int k = 0; k < d; ++k) got.push_back(Y[j][k]); }
      cmpq(nm, at, got, q);
      if (how == 3) break;
      code(nm, rc);
      auto A = jacpath(F, x, C, d);
      int nq = how == 9 ? g.range(1, 3) : 1;
      Mat U(nq, m);
      rnd(U);
      Ten Z(nq, n, d + 1, 1e30);
      nm = how == 8 ? "hos_reverse" : "hov_reverse";
      rc = how == 8 ? hos_reverse(id, m, n, d, U[0], Z[0]) : hov_reverse(id, m, n, d, nq, U.p(), Z.p(), nullptr);
      for (int r = 0; r < nq; ++r) {
        Lin L;
        Vec gz;
        for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) {
          std::vector<std::pair<size_t, double>> t;
          for (int j = 0; j < m; ++j) t.push_back({(size_t)((j * n + i) * (d + 1) + k), U[r][j]});
          L.add(A, t);
          gz.push_back(Z[r][i][k]);
        }
        cmpq(nm, cat(at, " U=", refd::show(U.d)), gz, L.q, L.sc);
      }
      break;
    }
    case 4: case 5: case 10: {
      int d = g.range(1, maxdeg), p = g.range(1, 3);
      nm = how == 4 ? "hov_forward" : "hov_wk_forward";
      Ten X(n, p, d), Y(m, p, d, 1e30);
      for (auto &v : X.d) v = g.chance(1, 5) ? 0.0 : g.real(-1, 1);
      rc = how == 4 ? hov_forward(id, m, n, d, p, x.data(), X.p(), y.data(), Y.p()) : hov_wk_forward(id, m, n, d, how == 10 ? d + 1 : (int)g.below(d + 2), p, x.data(), X.p(), y.data(), Y.p());
      at += cat(" degree ", d, " p=", p, " X=", refd::show(X.d));
      std::vector<std::vector<Vec>> C(p, std::vector<Vec>(n, Vec(d)));
      for (int r = 0; r < p; ++r) {
        for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) C[r][i][k] = X[i][r][k];
        auto q = taylor(F, x, C[r], d);
        Vec got;
        for (int j = 0; j < m; ++j) { got.push_back(y[j]); for (int k = 0; k < d; ++k) got.push_back(Y[j][r][k]); }
        cmpq(nm, at, got, q);
      }
      if (how != 10) break;
      code(nm, rc);
      nm = "hos_ov_reverse";
      Mat U(m, d + 1, 0);
      for (int j = 0; j < m; ++j) U[j][0] = g.real(-1.5, 1.5);
      Ten Z(p, n, d + 1, 1e30);
      rc = hos_ov_reverse(id, m, n, d, p, U.p(), Z.p());
      for (int r = 0; r < p; ++r) {
        auto A = jacpath(F, x, C[r], d);
        Lin L;
        Vec gz;
        for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) {
          std::vector<std::pair<size_t, double>> t;
          for (int j = 0; j < m; ++j) t.push_back({(size_t)((j * n + i) * (d + 1) + k), U[j][0]});
          L.add(A, t);
          gz.push_back(Z[r][i][k]);
        }
        cmpq(nm, at, gz, L.q, L.sc);
      }
      break;
    }
    case 6: case 7: {
      int pre1 = (int)g.below(2);
      if (!(allow & FOS)) pre1 = 0;
      nm = pre1 ? "fos_forward" : "zos_forward";
      Vec X(n, 0.5), Y(m);
      rc = pre1 ? fos_forward(id, m, n, 1, x.data(), X.data(), y.data(), Y.data()) : zos_forward(id, m, n, 1, x.data(), y.data());
      code(nm, rc);
      int q = how == 6 ? 1 : g.range(1, 3);
      nm = how == 6 ? "fos_reverse" : "fov_reverse";
      Mat U(q, m), Z(q, n, 1e30);
      rnd(U);
      rc = how == 6 ? fos_reverse(id, m, n, U[0], Z[0]) : fov_reverse(id, m, n, q, U.p(), Z.p());
      for (int r = 0; r < q; ++r) cmpq(nm, cat(at, " U=", refd::show(U.d)), Vec(Z[r], Z[r] + n), vJ(x, Vec(U[r], U[r] + m)));
      break;
    }
    case 11: nm = "function"; rc = function(id, m, n, x.data(), y.data()); break;
    case 12: { nm = "jacobian"; haveY = false; Mat A(m, n, 1e30); rc = ::jacobian(id, m, n, x.data(), A.p()); cmpq(nm, at, A.d, jacobian(F, x)); break; }
    case 13: { nm = "jac_vec"; haveY = false; auto X = reals(g, n); Vec Y(m, 1e30); rc = jac_vec(id, m, n, x.data(), X.data(), Y.data()); cmpq(nm, at, Y, Jv(x, X)); break; }
    case 14: { nm = "vec_jac"; haveY = false;
      for (int rep = 0; rep < 2; ++rep) { auto U = reals(g, m); Vec Z(n, 1e30); rc = vec_jac(id, m, n, rep, x.data(), U.data(), Z.data()); cmpq(nm, cat(at, " repeat ", rep), Z, vJ(x, U)); if (!g.coin()) break; } break; }
    case 15: { nm = "large_jacobian"; int runs = g.range(1, n); Mat A(m, n, 1e30); rc = large_jacobian(id, m, n, runs, x.data(), y.data(), A.p()); cmpq(nm, at, A.d, jacobian(F, x)); break; }
    case 16: if (m == 1) { nm = "gradient"; haveY = false; Vec G(n, 1e30); rc = gradient(id, n, x.data(), G.data()); cmpq(nm, at, G, jacobian(F, x)); } else return false; break;
    case 17: case 18: { nm = "lagra_hess_vec"; haveY = false; auto U = reals(g, m), V = reals(g, n); Vec W(n, 1e30); rc = lagra_hess_vec(id, m, n, x.data(), V.data(), U.data(), W.data()); cmpq(nm, at, W, Hv(x, U, V)); break; }
    case 19: {
      nm = "sparse_jac"; haveY = false;
      using namespace ADOLC::Sparse;
      SparseMatrix sm;
      int v = tight_only ? 2 + (int)g.below(3) : (int)g.below(5);
      using D = BitPatternPropagationDirection;
      if (v == 0) rc = sparse_jac<>(id, m, n, 0, x.data(), sm);
      else if (v == 1) rc = sparse_jac<SparseMethod::BitPattern, CompressionMode::Column, ControlFlowMode::Safe, D::Forward>(id, m, n, 0, x.data(), sm);
      else if (v == 2) rc = sparse_jac<SparseMethod::BitPattern, CompressionMode::Row, ControlFlowMode::Tight, D::Reverse>(id, m, n, 0, x.data(), sm);
      else if (v == 3) rc = sparse_jac<SparseMethod::IndexDomains, CompressionMode::Row, ControlFlowMode::Tight>(id, m, n, 0, x.data(), sm);
      else rc = sparse_jac<SparseMethod::BitPattern, CompressionMode::Column, ControlFlowMode::Tight, D::Reverse>(id, m, n, 0, x.data(), sm);
      Mat A(m, n, 0);
      for (size_t k = 0; k < sm.size(); ++k) A[sm.rowIndex(k)][sm.colIndex(k)] = sm.value(k);
      cmpq(nm, cat(at, " variant ", v), A.d, jacobian(F, x));
      break;
    }
    case 20: {
      haveY = false;
      bool v = g.coin() && (allow & OV);
      nm = v ? "hessian2" : "hessian";
      Mat H(n, n, 0);
      rc = v ? hessian2(id, n, x.data(), H.p()) : hessian(id, n, x.data(), H.p());
      auto h = hessians(F, x);
      Lin L;
      Vec got;
      for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L.add(h, {{(size_t)(i * n + j), 1.0}}); got.push_back(H[i][j]); }
      cmpq(nm, at, got, L.q);
      break;
    }
    case 21: { nm = "hess_vec"; haveY = false; auto V = reals(g, n); Vec W(n, 1e30); rc = hess_vec(id, n, x.data(), V.data(), W.data()); cmpq(nm, at, W, Hv(x, {1.0}, V)); break; }
    case 22: {
      nm = "sparse_hess"; haveY = false;
      using namespace ADOLC::Sparse;
      int nnz = 0;
      unsigned *ri = nullptr, *ci = nullptr;
      double *v = nullptr;
      rc = tight_only ? sparse_hess<ControlFlowMode::Tight, RecoveryMethod::Indirect>(id, n, 0, x.data(), &nnz, &ri, &ci, &v) : sparse_hess<ControlFlowMode::Safe, RecoveryMethod::Indirect>(id, n, 0, x.data(), &nnz, &ri, &ci, &v);
      Mat H(n, n, 0);
      for (int k = 0; k < nnz; ++k) H[ri[k]][ci[k]] = H[ci[k]][ri[k]] = v[k];
      delete[] ri; delete[] ci; delete[] v;
      cmpq(nm, at, H.d, hessians(F, x));
      break;
    }
    case 23: { // all tensors up to degree 2 along p directions
      nm = "tensor_eval"; haveY = false;
      int p = g.range(1, 2), d = 2, sz = 1;
      sz = (p + 1) * (p + 2) / 2;
      Mat S(n, p), T(m, sz, 1e30);
      rnd(S, -1, 1);
      rc = tensor_eval(id, m, n, d, p, x.data(), T.p(), S.p());
      auto Jq = jacobian(F, x), Hq = hessians(F, x);
      for (int j = 0; j < m; ++j) {
        Lin L;
        Vec got;
        for (int a = 0; a < p; ++a) {
          std::vector<std::pair<size_t, double>> t;
          for (int i = 0; i < n; ++i) t.push_back({(size_t)(j * n + i), S[i][a]});
          L.add(Jq, t);
          int mi[2] = {a + 1, 0};
          got.push_back(T[j][tensor_address(d, mi)]);
        }
        cmpq(nm, cat(at, " S=", refd::show(S.d)), got, L.q, L.sc);
        Lin L2;
        Vec got2;
        for (int a = 0; a < p; ++a) for (int b = 0; b <= a; ++b) {
          std::vector<std::pair<size_t, double>> t;
          for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) t.push_back({(size_t)((j * n + i) * n + k), S[i][a] * S[k][b]});
          L2.add(Hq, t);
          int mi[2] = {a + 1, b + 1};
          got2.push_back(T[j][tensor_address(d, mi)]);
        }
        cmpq(nm, cat(at, " S=", refd::show(S.d)), got2, L2.q, L2.sc);
      }
      rc = 3; // the drivers for tensors return sizes
      break;
    }
    default: return false;
    }
    last = nm;
    c.label(nm);
    code(nm, rc);
    if (haveY) cmpq(nm + "-value", at, y, values(F, x));
    return true;
  }
};
} // namespace evals
