// The listing written by tape_doc is read back, executed and compared with the tape it documents.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <numbers>
#include <string>
#include <string_view>
#include <vector>
#include "deriv.hpp"
#include "safe.hpp"
#include <adolc/adalloc.h>
#include <adolc/adolcerror.h>
#include <adolc/advector.h>
#include <adolc/checkpointing.h>
#include <adolc/dvlparms.h>
#include <adolc/externfcts.h>
#include <adolc/internal/common.h>
#include <adolc/oplate.h>
#include <adolc/tape_interface.h>
#include <adolc/tapedoc/tapedoc.h>
#include <adolc/valuetape/valuetape.h>
#include <math.h>
#include <string.h>
// the same source with ENABLE_TAPEDOC_VALUES, beside the one of the library
namespace with_values {
#undef BEGIN_C_DECLS
#undef END_C_DECLS
#define BEGIN_C_DECLS
#define END_C_DECLS
#ifndef ADOLC_TAPE_DOC_VALUES
#define ADOLC_TAPE_DOC_VALUES 1
#endif
#include "tapedoc/tapedoc.cpp"
#undef ADOLC_TAPE_DOC_VALUES
} // namespace with_values
using namespace prog;
using namespace refd;
using taping::Mat;
using Vec = std::vector<double>;
const CheckInfo CHECK{"C28",
  "a case records a random program (all operations, parameters, vector operations, conditional assignments; or a program on an array with active subscripts; or one with an external function; sometimes small tape buffers, "
  "tape files, several pages) and documents it with tape_doc of the default build and of the build with ENABLE_TAPEDOC_VALUES, at the recording point and at others; oracle: the listing is parsed, its form, "
  "counters and number of entries compared with the statistics, and executed by an interpreter (with bounds for the six printed digits), whose results must be those of the tape; listed values must be those of the interpreter; "
  "the tape, its statistics and all later evaluations stay the same; non-trivial: outputs of an executed listing with at least eight operations compared",
  9000, 200000, 25, 600, {"constants and values are printed with six digits, so smaller differences are not seen; quadratures and fixed points are not recorded; listings with external functions are not executed beyond their form"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
struct Row { std::vector<std::string> f; int op = -1; };
std::string trim(std::string s) { size_t a = s.find_first_not_of(" $\t"), b = s.find_last_not_of(" $\t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
// value with a bound of the error caused by printed digits
struct N { double v = NAN, e = 0; };
N mk(double v, double e) { return {v, e + 4e-16 * std::fabs(v)}; }
struct Doc {
  std::vector<Row> rows;
  int pages = 0;
  std::string err;
};
Doc read_doc(const std::string &file, int cols) {
  Doc d;
  std::ifstream in(file);
  if (!in) { d.err = "no file " + file; return d; }
  std::string line, all;
  std::vector<std::string> L;
  while (std::getline(in, line)) L.push_back(line);
  auto bad = [&](const std::string &s) { if (d.err.empty()) d.err = s; };
  if (L.empty() || L[0].find("\\documentclass") != 0) bad("does not start with \\documentclass");
  size_t i = 0;
  while (i < L.size() && L[i].find("\\begin{document}") != 0) ++i;
  bool in_tab = false, ended = false;
  int onpage = 0;
  for (++i; i < L.size(); ++i) {
    std::string s = L[i];
    if (ended) { if (!trim(s).empty()) bad("text after the end of the document"); continue; }
    if (s.find("\\begin{tabular}") == 0) { if (in_tab) bad("table in a table"); in_tab = true; ++d.pages; onpage = 0; int bars = 0; size_t e = s.find("} \\hline"); for (size_t k = 16; k < e; ++k) bars += s[k] == 'r' || s[k] == 'l'; if (bars != cols) bad(cat("table with ", bars, " columns")); continue; }
    if (s.find("\\end{tabular}\\end{document}") == 0) { if (!in_tab) bad("end outside a table"); ended = true; continue; }
    if (s.find("\\end{tabular}") == 0) { in_tab = false; continue; }
    if (s.find("\\newpage") == 0 || s.find("\\tiny") == 0) { continue; }
    if (trim(s).empty()) continue;
    size_t e = s.find("\\\\ \\hline");
    if (e == std::string::npos || !in_tab) { bad("unexpected line: " + s); continue; }
    Row r;
    std::string cell;
    for (char ch : s.substr(0, e)) if (ch == '&') { r.f.push_back(trim(cell)); cell.clear(); } else cell += ch;
    r.f.push_back(trim(cell));
    if ((int)r.f.size() != cols) bad(cat("row with ", r.f.size(), " of ", cols, " cells: ", s));
    r.f.resize(cols);
    if (r.f[2] == "code") continue;
    if (++onpage > 102) bad("page too long");
    char *q = nullptr;
    r.op = (int)std::strtol(r.f[2].c_str(), &q, 10);
    if (q == r.f[2].c_str() || *q) bad("no opcode: " + s);
    d.rows.push_back(r);
  }
  if (!ended) bad("the document is not finished");
  return d;
}
struct Machine {
  std::map<size_t, N> T;
  std::vector<double> x, params;
  std::vector<N> y;
  size_t ind = 0;
  std::string err;
  bool unclear = false; // a decision within the error of the printed digits
  int nops = 0;
  std::function<void(const Row &, const std::vector<N> &)> values;
};
// executes the listing
void execute(const Doc &d, Machine &M) {
  for (auto &r : d.rows) {
    if (!M.err.empty()) return;
    std::vector<size_t> l;
    std::vector<double> k;
    auto num = [&](const std::string &s, double &v) { char *q = nullptr; v = std::strtod(s.c_str(), &q); return q != s.c_str() && !*q; };
    bool gap = false;
    for (int i = 4; i < 8; ++i) {
      if (r.f[i].empty()) { gap |= !l.empty(); continue; }
      if (r.f[i].find("fctn") == 0) { l.push_back(0); continue; }
      double v; if (!num(r.f[i], v)) { M.err = cat("location '", r.f[i], "' in the row of opcode ", r.op); return; }
      l.push_back((size_t)v);
    }
    for (int i = 8; i < 10; ++i) { if (r.f[i].empty()) continue; double v; if (!num(r.f[i], v)) { M.err = cat("constant '", r.f[i], "' in the row of opcode ", r.op); return; } k.push_back(v); }
    auto need = [&](size_t nl, size_t nk) { if (gap || l.size() != nl || k.size() != nk) { M.err = cat("row ", r.f[0], ", opcode ", r.op, " (", r.f[3], "): ", l.size(), " locations and ", k.size(), " constants instead of ", nl, " and ", nk); return false; } return true; };
    auto C = [&](size_t i) { return N{k[i], 6e-7 * std::fabs(k[i])}; };
    auto T = [&](size_t i) -> N & { return M.T[l[i]]; };
    auto add = [](N a, N b, double s = 1) { return mk(a.v + s * b.v, a.e + b.e); };
    auto mul = [](N a, N b) { return mk(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); };
    auto div = [&](N a, N b) { double lo = std::fabs(b.v) - b.e; if (!(lo > 0)) { M.unclear = true; lo = 1; } return mk(a.v / b.v, a.e / lo + std::fabs(a.v) * b.e / lo / lo); };
    // function with the error estimated from its values beside the argument
    auto fn = [&](N a, double (*f)(double)) { double v = f(a.v), e = 0; if (a.e > 0) { double h = a.e * 2, p = f(a.v + h), q = f(a.v - h); if (!std::isfinite(p) || !std::isfinite(q)) M.unclear = true; else e = std::max(std::fabs(p - v), std::fabs(q - v)); } return mk(v, e); };
    auto pos = [&](N a, bool strict) { if (a.v != 0 && std::fabs(a.v) <= 4 * a.e) M.unclear = true; if (a.v == 0 && a.e > 0) M.unclear = true; return strict ? a.v > 0 : a.v >= 0; };
    auto at = [&](N a) -> N & { return M.T[(size_t)std::llround(a.v)]; };
    std::vector<N> v; // values expected in the value columns
    ++M.nops;
    switch (r.op) {
    case start_of_tape: case end_of_tape: --M.nops; break;
    case end_of_op: case end_of_int: case end_of_val: need(0, 0); --M.nops; break;
    case eq_zero: case neq_zero: case le_zero: case gt_zero: case ge_zero: case lt_zero: if (need(1, 0)) v = {T(0)}; break;
    case assign_a: case pos_sign_a: if (need(2, 0)) { N a = T(0); T(1) = a; v = {a, a}; } break;
    case neg_sign_a: if (need(2, 0)) { N a = T(0); T(1) = {-a.v, a.e}; v = {a, T(1)}; } break;
    case assign_d: if (need(1, 1)) { T(0) = C(0); v = {T(0)}; } break;
    case assign_d_one: if (need(1, 0)) { T(0) = {1, 0}; v = {T(0)}; } break;
    case assign_d_zero: if (need(1, 0)) { T(0) = {0, 0}; v = {T(0)}; } break;
    case assign_ind: if (!k.empty() ? need(1, 1) : need(1, 0)) {
      if (M.ind >= M.x.size()) { M.err = "more independents than the tape has"; return; }
      double xv = M.x[M.ind++]; T(0) = {xv, 0}; v = {T(0)};
      if (!k.empty() && std::fabs(k[0] - xv) > 1e-6 * std::fabs(xv)) M.err = cat("the row of independent ", M.ind - 1, " shows ", k[0], " instead of ", xv);
      break;
    } break;
    case assign_dep: if (need(1, 0)) { M.y.push_back(T(0)); v = {T(0)}; } break;
    case eq_plus_d: if (need(1, 1)) { T(0) = add(T(0), C(0)); v = {T(0)}; } break;
    case eq_min_d: if (need(1, 1)) { T(0) = add(T(0), C(0), -1); v = {T(0)}; } break;
    case eq_mult_d: if (need(1, 1)) { T(0) = mul(T(0), C(0)); v = {T(0)}; } break;
    case eq_plus_a: if (need(2, 0)) { N a = T(0); T(1) = add(T(1), a); v = {a, T(1)}; } break;
    case eq_min_a: if (need(2, 0)) { N a = T(0); T(1) = add(T(1), a, -1); v = {a, T(1)}; } break;
    case eq_mult_a: if (need(2, 0)) { N a = T(0); T(1) = mul(T(1), a); v = {a, T(1)}; } break;
    case eq_plus_prod: case eq_min_prod: if (need(3, 0)) { N a = T(0), b = T(1); T(2) = add(T(2), mul(a, b), r.op == eq_plus_prod ? 1 : -1); v = {a, b, T(2)}; } break;
    case incr_a: if (need(1, 0)) { T(0) = add(T(0), {1, 0}); v = {T(0)}; } break;
    case decr_a: if (need(1, 0)) { T(0) = add(T(0), {-1, 0}); v = {T(0)}; } break;
    case plus_a_a: case min_a_a: if (need(3, 0)) { N a = T(0), b = T(1); T(2) = add(a, b, r.op == plus_a_a ? 1 : -1); v = {a, b, T(2)}; } break;
    case mult_a_a: if (need(3, 0)) { N a = T(0), b = T(1); T(2) = mul(a, b); v = {a, b, T(2)}; } break;
    case div_a_a: if (need(3, 0)) { N a = T(0), b = T(1); T(2) = div(a, b); v = {a, b, T(2)}; } break;
    case plus_d_a: if (need(2, 1)) { N a = T(0); T(1) = add(a, C(0)); v = {a, T(1)}; } break;
    case min_d_a: if (need(2, 1)) { N a = T(0); T(1) = add(C(0), a, -1); v = {a, T(1)}; } break;
    case mult_d_a: if (need(2, 1)) { N a = T(0); T(1) = mul(a, C(0)); v = {a, T(1)}; } break;
    case div_d_a: if (need(2, 1)) { N a = T(0); T(1) = div(C(0), a); v = {a, T(1)}; } break;
    case exp_op: if (need(2, 0)) { N a = T(0); T(1) = fn(a, std::exp); v = {a, T(1)}; } break;
    case log_op: if (need(2, 0)) { N a = T(0); T(1) = fn(a, std::log); v = {a, T(1)}; } break;
    case sqrt_op: if (need(2, 0)) { N a = T(0); T(1) = fn(a, std::sqrt); v = {a, T(1)}; } break;
    case cbrt_op: if (need(2, 0)) { N a = T(0); T(1) = fn(a, std::cbrt); v = {a, T(1)}; } break;
    case sin_op: case cos_op: if (need(3, 0)) { N a = T(0); T(1) = fn(a, r.op == sin_op ? (double (*)(double))std::cos : (double (*)(double))std::sin); T(2) = fn(a, r.op == sin_op ? (double (*)(double))std::sin : (double (*)(double))std::cos); v = {a, T(1), T(2)}; } break;
    case atan_op: case asin_op: case acos_op: case asinh_op: case acosh_op: case atanh_op: case erf_op: case erfc_op: if (need(3, 0)) {
      double (*f)(double) = r.op == atan_op ? (double (*)(double))std::atan : r.op == asin_op ? (double (*)(double))std::asin : r.op == acos_op ? (double (*)(double))std::acos : r.op == asinh_op ? (double (*)(double))std::asinh
        : r.op == acosh_op ? (double (*)(double))std::acosh : r.op == atanh_op ? (double (*)(double))std::atanh : r.op == erf_op ? (double (*)(double))std::erf : (double (*)(double))std::erfc;
      N a = T(0), b = T(1); N q = fn(a, f); T(2) = q; if (l[1] == l[2]) b = q; v = {a, b, q};
      } break;
    case pow_op: if (need(2, 1)) { N a = T(0), q = C(0); double w = std::pow(a.v, q.v), e = 0;
      for (int s = 0; s < 4; ++s) { double z = std::pow(a.v + (s & 1 ? 2 : -2) * a.e, q.v == std::floor(q.v) ? q.v : q.v + (s & 2 ? 2 : -2) * q.e); if (!std::isfinite(z)) M.unclear = true; else e = std::max(e, std::fabs(z - w)); }
      if (std::fabs(q.v) >= 1e5) M.unclear = true;
      T(1) = mk(w, e); v = {a, T(1)}; } break;
    case min_op: if (need(3, 1)) { N a = T(0), b = T(1); if (std::fabs(a.v - b.v) <= 4 * (a.e + b.e) && a.v != b.v) M.unclear = true; T(2) = a.v > b.v ? b : a; v = {a, b, T(2)}; } break;
    case abs_val: if (need(2, 1)) { N a = T(0); T(1) = {std::fabs(a.v), a.e}; v = {a, T(1)}; } break;
    case ceil_op: case floor_op: if (need(2, 1)) { N a = T(0); double near = std::fabs(a.v - std::round(a.v)); if (near <= 4 * a.e) M.unclear = true; T(1) = {r.op == ceil_op ? std::ceil(a.v) : std::floor(a.v), 0}; v = {a, T(1)}; } break;
    case cond_assign: case cond_eq_assign: if (need(4, 1)) { N a = T(0), b = T(1), e = T(2); T(3) = pos(a, r.op == cond_assign) ? b : e; v = {a, b, e, T(3)}; } break;
    case cond_assign_s: case cond_eq_assign_s: if (need(3, 1)) { N a = T(0), b = T(1); if (pos(a, r.op == cond_assign_s)) T(2) = b; v = {a, b, T(2)}; } break;
    case vec_copy: if (need(3, 0)) { std::vector<N> w; for (size_t i = 0; i < l[1]; ++i) w.push_back(M.T[l[0] + i]); for (size_t i = 0; i < l[1]; ++i) M.T[l[2] + i] = w[i]; } break;
    case vec_dot: if (need(4, 0)) { N s{0, 0}; for (size_t i = 0; i < l[2]; ++i) s = add(s, mul(M.T[l[0] + i], M.T[l[1] + i])); T(3) = s; v = {s}; } break;
    case vec_axpy: if (need(4, 1)) { N a = T(0); size_t z = (size_t)k[0]; std::vector<N> w; for (size_t i = 0; i < z; ++i) w.push_back(add(mul(a, M.T[l[1] + i]), M.T[l[2] + i])); for (size_t i = 0; i < z; ++i) M.T[l[3] + i] = w[i]; v = {a}; } break;
    case death_not: if (need(2, 0)) for (size_t i = l[0]; i <= l[1]; ++i) M.T.erase(i); break;
    case assign_p: if (need(2, 0)) { if (l[0] >= M.params.size()) { M.err = "parameter without a value"; return; } T(1) = {M.params[l[0]], 0}; v = {T(1), T(1)}; } break;
    case subscript: case subscript_ref: if (need(3, 1)) {
      N a = T(0);
      size_t i = (size_t)std::fabs(a.v);
      if (std::fabs(a.v - std::round(a.v)) <= 4 * a.e && a.e > 0) { M.unclear = true; return; }
      if (i >= (size_t)k[0]) { M.err = cat("subscript ", a.v, " in an array of ", k[0]); return; }
      N b = T(1);
      T(2) = r.op == subscript ? M.T[l[1] + i] : N{(double)(l[1] + i), 0};
      if (l[2] == l[1]) b = T(2);
      v = {a, N{}, T(2)};
      } break;
    case ref_assign_d_zero: if (need(1, 0)) { v = {T(0)}; at(T(0)) = {0, 0}; } break;
    case ref_assign_d_one: if (need(1, 0)) { v = {T(0)}; at(T(0)) = {1, 0}; } break;
    case ref_assign_d: if (need(1, 1)) { v = {T(0)}; at(T(0)) = C(0); } break;
    case ref_assign_a: if (need(2, 0)) { N b = T(0); v = {b, T(1)}; at(T(1)) = b; } break;
    case ref_assign_ind: if (need(1, 0)) { if (M.ind >= M.x.size()) { M.err = "more independents than the tape has"; return; } v = {T(0)}; at(T(0)) = {M.x[M.ind++], 0}; } break;
    case ref_incr_a: case ref_decr_a: if (need(1, 0)) { v = {T(0)}; N &z = at(T(0)); z = add(z, {r.op == ref_incr_a ? 1. : -1., 0}); } break;
    case ref_eq_plus_d: case ref_eq_min_d: if (need(1, 1)) { v = {T(0)}; N &z = at(T(0)); z = add(z, C(0), r.op == ref_eq_plus_d ? 1 : -1); } break;
    case ref_eq_mult_d: if (need(1, 1)) { v = {T(0)}; N &z = at(T(0)); z = mul(z, C(0)); } break;
    case ref_eq_plus_a: case ref_eq_min_a: if (need(2, 0)) { N b = T(0); v = {b, T(1)}; N &z = at(T(1)); z = add(z, b, r.op == ref_eq_plus_a ? 1 : -1); } break;
    case ref_eq_mult_a: if (need(2, 0)) { N b = T(0); v = {b, T(1)}; N &z = at(T(1)); z = mul(z, b); } break;
    case ref_copyout: if (need(2, 0)) { N a = T(0), b = at(a); T(1) = b; v = {a, b}; } break;
    case ref_cond_assign: case ref_cond_eq_assign: if (need(4, 1)) { N a = T(0), b = T(1), e = T(2); v = {a, b, e, T(3)}; bool p = pos(a, r.op == ref_cond_assign); at(T(3)) = p ? b : e; } break;
    case ref_cond_assign_s: case ref_cond_eq_assign_s: if (need(3, 1)) { N a = T(0), b = T(1); v = {a, b, T(2)}; if (pos(a, r.op == ref_cond_assign_s)) at(T(2)) = b; } break;
    default: M.err = cat("row ", r.f[0], ": opcode ", r.op, " (", r.f[3], ") is not one that was recorded"); return;
    }
    if (!M.err.empty() || M.unclear) return;
    if (M.values && !v.empty()) M.values(r, v);
  }
}
using Fn = void (*)(short, int, int, const double *, double *);
void check_doc(Case &c, short id, int n, int m, const Vec &x, const Vec &params, bool vals, bool run, bool inspect, const std::vector<double> &want, int &nops) {
  const char *nm = vals ? "tape_doc with values" : "tape_doc";
  auto st = findTape(id).tapestats();
  Vec xx = x, y(m, -7.5);
  (vals ? (Fn)with_values::tape_doc : (Fn)::tape_doc)(id, m, n, xx.data(), y.data());
  c.check(xx == x, "arguments changed", cat(nm, " changed its arguments"));
  auto st2 = findTape(id).tapestats();
  for (size_t i = 0; i < st.size(); ++i) if (i != (size_t)TapeInfos::OP_FILE_ACCESS) c.check(st[i] == st2[i], "statistics changed", cat(nm, " changed entry ", i, " of the statistics"));
  Doc d = read_doc(cat("tape_", id, ".tex"), vals ? 14 : 10);
  if (!inspect) std::remove(cat("tape_", id, ".tex").c_str());
  c.check(d.err.empty(), "malformed listing", cat(nm, ": ", d.err));
  c.check(d.rows.size() >= 2 && d.rows[0].op == start_of_tape && d.rows.back().op == end_of_tape, "start or end missing", cat(nm, ": the listing does not go from the start to the end of the tape"));
  long tot = (long)st[TapeInfos::NUM_OPERATIONS], prev = 1;
  int ni = 0, nd = 0;
  for (size_t i = 1; i < d.rows.size(); ++i) {
    auto &r = d.rows[i];
    long a = std::atol(r.f[0].c_str()), b = std::atol(r.f[1].c_str());
    c.check(a == prev + 1, "wrong counter", cat(nm, ": entry ", i, " has number ", a, " after ", prev));
    c.check(a + b == tot + 1, "wrong reverse counter", cat(nm, ": entry ", i, " has numbers ", a, " and ", b, " with ", tot, " operations"));
    prev = a + (r.op == end_of_op);
    ni += r.op == assign_ind || r.op == ref_assign_ind;
    nd += r.op == assign_dep;
  }
  c.check(prev == tot, "wrong number of entries", cat(nm, ": the last entry has number ", prev, ", the tape ", tot, " operations"));
  c.check(ni == n && nd == m, "wrong number of variables", cat(nm, ": ", ni, " independents and ", nd, " dependents are listed, the tape has ", n, " and ", m));
  if (d.pages > 1) c.label("several pages");
  if (vals && !want.empty()) for (int j = 0; j < m; ++j) c.check(std::fabs(y[j] - want[j]) <= 1e-11 * (1 + std::fabs(want[j])) || y[j] == want[j], "dependent values", cat(nm, " at ", show(x), ": dependent ", j, " is ", y[j], ", the sweep has ", want[j]));
  if (!vals) c.check(y == Vec(m, -7.5), "arguments changed", cat(nm, " wrote dependent values"));
  if (!run) return;
  Machine M;
  M.x = x; M.params = params;
  if (vals) M.values = [&](const Row &r, const std::vector<N> &v) {
    std::vector<std::string> f;
    for (int i = 10; i < 14; ++i) if (!r.f[i].empty()) f.push_back(r.f[i]);
    c.check(f.size() == v.size(), "number of values", cat(nm, ": the row of opcode ", r.op, " (", r.f[3], ") has ", f.size(), " values instead of ", v.size()));
    for (size_t i = 0; i < v.size(); ++i) if (std::isfinite(v[i].v)) {
      double got = std::atof(f[i].c_str());
      c.check(std::fabs(got - v[i].v) <= 8 * v[i].e + 2e-6 * std::fabs(v[i].v) + 1e-290, cat("value of ", r.f[3]), cat(nm, " at ", show(x), ": row ", r.f[0], " (", r.f[3], ") shows value ", got, " for operand ", i, ", expected ", v[i].v));
    }
  };
  execute(d, M);
  if (M.unclear && M.err.empty()) { c.label("decision too close"); return; }
  c.check(M.err.empty(), "listing cannot be executed", cat(nm, ": ", M.err));
  if (want.empty()) return;
  c.check((int)M.y.size() == m, "outputs", cat(nm, ": ", M.y.size(), " outputs"));
  for (int j = 0; j < m; ++j) {
    if (!std::isfinite(want[j]) || !std::isfinite(M.y[j].e)) continue;
    c.check(std::fabs(M.y[j].v - want[j]) <= 10 * M.y[j].e + 1e-10 * (1 + std::fabs(want[j])), "listed program", cat(nm, ": the listing computes ", M.y[j].v, " for dependent ", j, " at ", show(x), ", the tape ", want[j]));
    if (M.y[j].e < 1e-2 * std::fabs(want[j])) nops = std::max(nops, M.nops);
  }
}
int extf(short, int m, int n, double *x, double *y) { for (int j = 0; j < m; ++j) { y[j] = 0; for (int i = 0; i < n; ++i) y[j] += (i + j + 1) * x[i]; } return 3; }
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  taping::reset_library();
  short id = (short)createNewTape();
  setCurrentTape(id);
  int kind = g.pick({5, 3, 1});
  int n = 1, m = 1, nops = 0;
  std::vector<Vec> pts;
  Vec params;
  int store = g.pick({3, 1});
  int ob = g.range(12, 80), lb = g.range(60, 200), vb = g.range(6, 24), tb = g.range(10, 64);
  auto on = [=](short t, int keep) { return store ? trace_on(t, keep, ob, lb, vb, tb, 1) : trace_on(t, keep); };
  std::shared_ptr<Program> P;
  ext_diff_fct *ef = nullptr;
  if (kind == 0) {
    Opts o;
    o.nmax = 6; o.mmax = 4; o.imin = 3; o.imax = g.pick({4, 1}) ? 160 : 25; o.npts = 3; o.same_branch = true; o.params = g.coin(); o.pfun = o.params && g.coin();
    P = std::make_shared<Program>(random_program(g, o));
    n = P->n; m = P->m; pts = P->pts; params = P->params;
    if (m < 1) c.discard();
    c.desc << P->str();
    taping::set_trace_on([&](int t, int k) { return on((short)t, k); });
    struct Off { ~Off() { taping::set_trace_on(nullptr); } } off;
    taping::trace(id, *P, pts[0]);
    c.label("program");
  } else if (kind == 1) {
    n = g.range(1, 4);
    int sz = g.range(1, 5), len = g.range(2, 20);
    m = g.range(1, 2);
    Vec x(n); for (auto &v : x) v = g.real(-1.2, 1.2);
    pts.push_back(x);
    for (auto &v : x) v = g.real(-1.2, 1.2);
    pts.push_back(x);
    c.desc << "array of " << sz << ", " << n << " independents at " << show(pts[0]) << "\n";
    on(id, 0);
    {
      std::vector<adouble> s(n);
      for (int i = 0; i < n; ++i) s[i] <<= pts[0][i];
      advector A((size_t)sz);
      for (int i = 0; i < sz; ++i) A[(size_t)i] = s[i % n] * (1.0 + i);
      int nind = n;
      for (int k = 0; k < len; ++k) {
        int act = g.pick({2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 3, 1}), a = g.below(s.size()), b = g.below(s.size());
        double q = g.real(0.3, 1.6);
        bool konst = g.coin();
        adouble idx = konst ? adouble((double)g.below(sz) + 0.5) : adouble((tanh(s[b]) + 1.0) * (0.4999 * sz));
        c.desc << "op " << act << " s" << a << " index " << (konst ? "constant " : "") << idx.value() << " c " << q << "\n";
        if (act == 17) { const advector &B = A; s.push_back(B[idx]); continue; }
        adubref e = A[idx];
        switch (act) {
        case 0: e = 0.0; break;
        case 1: e = 1.0; break;
        case 2: e = q; break;
        case 3: e = s[a]; break;
        case 4: ++e; break;
        case 5: --e; break;
        case 6: e += q; break;
        case 7: e -= q; break;
        case 8: e *= q; break;
        case 9: e += s[a]; break;
        case 10: e -= s[a]; break;
        case 11: e *= sin(s[a]); break;
        case 12: condassign(e, s[a], s[b]); break;
        case 13: condassign(e, s[a], s[b], s[0]); break;
        case 14: condeqassign(e, s[a], s[b]); break;
        case 15: condeqassign(e, s[a], s[b], s[0]); break;
        case 16: if (nind < 7) { double z = g.real(-1, 1); e <<= z; ++nind; for (auto &p : pts) p.push_back(&p == &pts[0] ? z : g.real(-1, 1)); } break;
        default: s.push_back(adouble(e)); s.back() = tanh(s.back()); break;
        }
      }
      n = nind;
      double yy;
      adouble sum = 0.0;
      for (int i = 0; i < sz; ++i) sum += A[(size_t)i] * (1.0 + 0.5 * i);
      sum >>= yy;
      for (int j = 1; j < m; ++j) s.back() >>= yy;
    }
    trace_off();
    c.label("active subscripts");
  } else {
    n = g.range(1, 3); m = g.range(1, 3);
    pts.push_back(reals(g, n));
    c.desc << "external function of " << n << " arguments and " << m << " results\n";
    on(id, 0);
    {
      short ext = (short)createNewTape(); setCurrentTape(id);
      ef = reg_ext_fct(id, ext, ADOLC_ext_fct(extf));
      ef->zos_forward = [](short t, int m, int n, int, double *x, double *y) { return extf(t, m, n, x, y); };
      currentTape().ensureContiguousLocations((size_t)(n + m));
      std::unique_ptr<adouble[]> s(new adouble[n]), r(new adouble[m]);
      for (int i = 0; i < n; ++i) s[i] <<= pts[0][i];
      int rep = g.range(1, 3);
      double yy;
      for (int k = 0; k < rep; ++k) { call_ext_fct(ef, n, s.get(), m, r.get()); adouble t = sin(r[0]) * g.real(-1, 1) + s[0]; r[0] = t; if (g.coin()) s[0] = r[0]; }
      for (int j = 0; j < m; ++j) r[j] >>= yy;
    }
    trace_off();
    c.label("external function");
  }
  if (store) c.label("small buffers");
  findTape(id).disableBranchSwitchWarnings();
  auto sweep = [&](const Vec &x) { Vec y(m); zos_forward(id, m, n, 0, x.data(), y.data()); return y; };
  std::vector<Vec> Y;
  std::vector<bool> fin;
  for (auto &p : pts) {
    Vec y(m);
    int rc = zos_forward(id, m, n, 0, p.data(), y.data());
    bool ok = rc >= 0 || kind == 1; for (double v : y) ok &= std::isfinite(v);
    Y.push_back(y); fin.push_back(ok);
  }
  Mat J0(m, n, 0);
  if (kind != 2) jacobian(id, m, n, pts[0].data(), J0.p());
  for (int w = 0; w < g.range(1, 3); ++w) {
    size_t p = g.below(pts.size());
    bool vals = g.coin();
    // at other points the listing without values is that of the recorded path, as all points take the same one
    check_doc(c, id, n, m, pts[p], params, vals, kind != 2, false, fin[p] && !(vals && kind == 2) ? Y[p] : Vec(), nops);
    if (vals) c.label("values");
  }
  if (nops >= 8) c.interesting();
  for (size_t p = 0; p < pts.size(); ++p) { Vec y = sweep(pts[p]); for (int j = 0; j < m; ++j) c.check(y[j] == Y[p][j] || (y[j] != y[j] && Y[p][j] != Y[p][j]), "tape changed", "an evaluation after tape_doc gives other values"); }
  if (kind != 2) { Mat J(m, n, 0); jacobian(id, m, n, pts[0].data(), J.p()); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) c.check(J.p()[i][j] == J0.p()[i][j] || J0.p()[i][j] != J0.p()[i][j], "tape changed", "a Jacobian after tape_doc differs"); }
}
