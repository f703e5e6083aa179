// Buffer sizes and disk spilling never change a result.
#include "deriv.hpp"
#include <adolc/drivers/taylor.h>
#include <adolc/sparse/sparsedrivers.h>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
using namespace prog;
using namespace refd;
using taping::Mat;
using taping::Ten;
const CheckInfo CHECK{"C10",
  "a case records one random program (up to 90 instructions, with parameters in a third of the cases) with default buffers and again with random small "
  "sizes of the operation (3-70), location (56-150), value (6-60) and Taylor (1-70) buffers, set by setter, .adolcrc or the long form of trace_on, kept in memory or forced to files, then runs the same random sequence "
  "of sweeps and drivers on both; oracle: bitwise equality of every result and return code, and no tape file left after the tapes are gone; "
  "non-trivial: the small-buffer tape was written to files or its Taylor store was spilled",
  20000, 400000, 24, 600, {"the default-size run is the reference; its own correctness is the subject of C01-C09"}};
std::vector<Pinned> pinned_cases() { return {}; }

struct Step { int kind, d, q, keep, pt; std::vector<double> r; };
static std::vector<double> run_steps(short id, const Program &P, const std::vector<Step> &steps, const std::vector<std::string> *, std::vector<size_t> &ends) {
  std::vector<double> out;
  int n = P.n, m = P.m;
  for (auto &s : steps) {
    auto x = P.pts[s.pt];
    size_t k = 0;
    auto rnd = [&] { return s.r[k++ % s.r.size()]; };
    auto mat = [&](size_t a, size_t b) { Mat M(a, b); for (auto &v : M.d) v = rnd(); return M; };
    auto put = [&](const std::vector<double> &v) { out.insert(out.end(), v.begin(), v.end()); };
    std::vector<double> y(m, 1e30);
    switch (s.kind) {
    case 0: out.push_back(zos_forward(id, m, n, 0, x.data(), y.data())); put(y); break;
    case 1: { Mat X = mat(1, n), Y(1, m, 1e30); out.push_back(fos_forward(id, m, n, 0, x.data(), X[0], y.data(), Y[0])); put(y); put(Y.d); break; }
    case 2: { Mat X = mat(n, s.q), Y(m, s.q, 1e30); out.push_back(fov_forward(id, m, n, s.q, x.data(), X.p(), y.data(), Y.p())); put(y); put(Y.d); break; }
    case 3: { Mat X = mat(n, s.d), Y(m, s.d, 1e30); out.push_back(hos_forward(id, m, n, s.d, 0, x.data(), X.p(), y.data(), Y.p())); put(y); put(Y.d); break; }
    case 4: { Ten X(n, s.q, s.d), Y(m, s.q, s.d, 1e30); for (auto &v : X.d) v = rnd(); out.push_back(hov_forward(id, m, n, s.d, s.q, x.data(), X.p(), y.data(), Y.p())); put(y); put(Y.d); break; }
    case 5: case 6: { // zero or first order keep, then first-order reverse (maybe twice)
      if (s.kind == 5) out.push_back(zos_forward(id, m, n, 1, x.data(), y.data()));
      else { Mat X = mat(1, n), Y(1, m); out.push_back(fos_forward(id, m, n, 1, x.data(), X[0], y.data(), Y[0])); }
      Mat U = mat(s.q, m), Z(s.q, n, 1e30);
      for (int rep = 0; rep < 1 + s.keep % 3; ++rep) {
        if (s.d % 2) out.push_back(fos_reverse(id, m, n, U[0], Z[0]));
        else out.push_back(fov_reverse(id, m, n, s.q, U.p(), Z.p()));
        put(Z.d);
      }
      break;
    }
    case 7: case 8: { // higher order
      int keep = s.d + 1;
      Mat X = mat(n, s.d), Y(m, s.d, 1e30);
      out.push_back(hos_forward(id, m, n, s.d, keep, x.data(), X.p(), y.data(), Y.p()));
      put(Y.d);
      for (int rep = 0; rep < 1 + s.keep % 3; ++rep) {
        if (s.kind == 7) { Mat U = mat(1, m), Z(n, s.d + 1, 1e30); out.push_back(hos_reverse(id, m, n, s.d, U[0], Z.p())); put(Z.d); }
        else {
          Mat U = mat(s.q, m); Ten Z(s.q, n, s.d + 1, 1e30);
          std::vector<short> nzd(s.q * n); std::vector<short *> nz(s.q);
          for (int i = 0; i < s.q; ++i) nz[i] = nzd.data() + i * n;
          out.push_back(hov_reverse(id, m, n, s.d, s.q, U.p(), Z.p(), nz.data())); put(Z.d);
          for (short v : nzd) out.push_back(v);
        }
      }
      break;
    }
    case 9: { // hov_wk_forward + hos_ov_reverse
      int keep = 2;
      Mat X2(1, 1); Ten X(n, s.q, 1), Y(m, s.q, 1, 1e30);
      for (auto &v : X.d) v = rnd();
      out.push_back(hov_wk_forward(id, m, n, 1, keep, s.q, x.data(), X.p(), y.data(), Y.p())); put(Y.d);
      Mat Lg(m, 2); Ten Z(s.q, n, 2, 1e30);
      Ten U(1, 1, 1);
      for (int i = 0; i < m; ++i) { Lg[i][0] = rnd(); Lg[i][1] = 0; }
      if (P.smooth) { out.push_back(hos_ov_reverse(id, m, n, 1, s.q, Lg.p(), Z.p())); put(Z.d); }
      break;
    }
    case 10: { Mat J(m, n, 1e30); out.push_back(jacobian(id, m, n, x.data(), J.p())); put(J.d); break; }
    case 11: if (m == 1) { std::vector<double> g(n, 1e30); out.push_back(gradient(id, n, x.data(), g.data())); put(g); } break;
    case 12: if (m == 1) { Mat H(n, n, 0); out.push_back(hessian(id, n, x.data(), H.p())); put(H.d); } break;
    case 13: if (m == 1) { auto v = mat(1, n); std::vector<double> z(n, 1e30); out.push_back(hess_vec(id, n, x.data(), v[0], z.data())); put(z); } break;
    case 14: {
      int p = std::min(s.q, 3), d = std::min(s.d, 3), dim = binomi(p + d, d);
      Mat S = mat(n, p), T(m, dim, 1e30);
      out.push_back(tensor_eval(id, m, n, d, p, x.data(), T.p(), S.p())); put(T.d);
      break;
    }
    case 15: {
      std::vector<uint *> crs(m, nullptr); std::span<uint *> sp(crs);
      std::vector<double> xx = x;
      ADOLC::Sparse::jac_pat<ADOLC::Sparse::SparseMethod::IndexDomains, ADOLC::Sparse::ControlFlowMode::Safe, ADOLC::Sparse::BitPatternPropagationDirection::Auto>(id, m, n, xx.data(), sp);
      for (auto *r : crs) { for (uint i = 0; i <= r[0]; ++i) out.push_back(r[i]); delete[] r; }
      break;
    }
    case 16: if (m == 1) {
      std::vector<uint *> crs(n, nullptr); std::span<uint *> sp(crs);
      ADOLC::Sparse::hess_pat<ADOLC::Sparse::ControlFlowMode::Safe>(id, n, x.data(), sp);
      for (auto *r : crs) { for (uint i = 0; i <= r[0]; ++i) out.push_back(r[i]); delete[] r; }
      break;
    }
    case 17: if (!P.params.empty()) { std::vector<double> v; for (size_t i = 0; i < P.params.size(); ++i) v.push_back(P.params[i] * (1 + 0.01 * (s.q + (double)i))); findTape(id).set_param_vec(id, v.size(), v.data()); out.push_back((double)get_num_param(id)); } break;
    case 18: { // mixed: bit patterns forward and reverse
      std::vector<bitword_t> a(n, 0), b(m, 0); std::vector<bitword_t *> A(n), B(m);
      for (int i = 0; i < n; ++i) { a[i] = (bitword_t)1 << (i % 30); A[i] = &a[i]; }
      for (int i = 0; i < m; ++i) B[i] = &b[i];
      out.push_back(int_forward_safe(id, m, n, 1, A.data(), B.data()));
      for (auto v : b) out.push_back((double)v);
      std::vector<std::vector<bitword_t>> uu(1, std::vector<bitword_t>(m, 0)), zz(1, std::vector<bitword_t>(n, 0));
      std::vector<bitword_t *> U{uu[0].data()}, Z{zz[0].data()};
      for (int i = 0; i < m; ++i) uu[0][i] = (bitword_t)1 << (i % 30);
      out.push_back(int_reverse_safe(id, m, n, 1, U.data(), Z.data()));
      for (auto v : zz[0]) out.push_back((double)v);
      break;
    }
    }
    ends.push_back(out.size());
  }
  return out;
}
static std::vector<std::string> tapfiles() {
  std::vector<std::string> r;
  DIR *d = opendir(".");
  while (auto *e = readdir(d)) { std::string n = e->d_name; if (n.find(".tap") != std::string::npos) r.push_back(n); }
  closedir(d);
  return r;
}
void run_case(Case &c) {
  Gen &g = c.g;
  taping::reset_library();
  Opts o;
  o.npts = 3; o.nmax = 5; o.mmax = g.coin() ? 1 : 3; o.imax = g.coin() ? 90 : 25; o.maxslots = 14; o.same_branch = true;
  o.params = g.chance(1, 3);
  o.banned_fns = {F_CBRT};
  Program P = random_program(g, o);
  if (!P.params.empty() && g.coin()) { // more parameters than a value buffer holds
    pad_params(g, P, 90);
    c.label("many parameters");
  }
  c.desc << P.str();
  if (P.m == 0) c.discard();
  int keep = g.chance(1, 3);
  short ref = (short)createNewTape();
  taping::trace(ref, P, P.pts[0], keep);
  // ---- the small configuration
  taping::Sizes z{(size_t)g.range(3, 70), (size_t)g.range(56, 150), (size_t)g.range(6, 60), (size_t)g.range(1, 70)};
  for (size_t *s : {&z.op, &z.loc, &z.val, &z.tay}) if (g.chance(1, 5)) *s = 524288;
  int how = (int)g.below(3), off = g.chance(1, 3);
  int predecessor = (int)g.below(3); // what the tape held before
  if (how == 1) {
    std::ofstream f(".adolcrc");
    // numbers may be decimal, octal (0...) or hexadecimal (0x... or 0X...); the order of the lines is free
    auto num = [&](size_t v) {
      std::ostringstream t;
      switch (g.below(4)) {
      case 0: t << "0" << std::oct << v; break;
      case 1: t << "0x" << std::hex << v; break;
      case 2: t << "0X" << std::hex << std::uppercase << v; break;
      default: t << v;
      }
      return t.str();
    };
    std::vector<std::string> L = {cat("\"OBUFSIZE\" \"", num(z.op), "\""), cat("\"LBUFSIZE\" \"", num(z.loc), "\""), cat("\"VBUFSIZE\" \"", num(z.val), "\""), cat("  \"TBUFSIZE\"   \"", num(z.tay), "\"  ")};
    if (g.coin()) L.push_back("a line without any setting");
    if (g.coin()) L.push_back("\"NOSUCHSIZE\" \"12\"");
    if (g.coin()) L.push_back("\"OBUFSIZE\" 77");
    if (g.coin()) L.push_back(cat("\"INITLIVE\" \"", num((size_t)g.range(1, 40)), "\""));
    for (size_t i = L.size(); i > 1; --i) std::swap(L[i - 1], L[g.below(i)]);
    for (auto &l : L) { f << l << "\n"; c.desc << ".adolcrc: " << l << "\n"; }
  }
  short id = (short)createNewTape();
  if (how == 1) unlink(".adolcrc");
  if (how == 0) {
    auto &t = findTape(id);
    t.operationBufferSize(z.op); t.locationBufferSize(z.loc); t.valueBufferSize(z.val); t.taylorBufferSize(z.tay);
  }
  c.desc << "sizes op=" << z.op << " loc=" << z.loc << " val=" << z.val << " tay=" << z.tay << " by " << (how == 0 ? "setter" : how == 1 ? ".adolcrc" : "trace_on") << " file=" << off << " keep=" << keep << " pre=" << predecessor << "\n";
  auto record = [&](const Program &Q, int kp, int fl) {
    if (how == 2) {
      taping::set_trace_on([&](short t, int k) { return trace_on(t, k, z.op, z.loc, z.val, z.tay, 0); });
      taping::trace(id, Q, Q.pts[0], kp, fl);
      taping::set_trace_on({});
    } else taping::trace(id, Q, Q.pts[0], kp, fl);
  };
  std::vector<Step> steps;
  int ns = g.range(1, 6);
  for (int i = 0; i < ns; ++i) {
    Step s;
    s.kind = (int)g.below(19); s.d = g.range(1, 4); s.q = g.range(1, 4); s.keep = g.range(0, 2); s.pt = (int)g.below(3);
    s.r = reals(g, 6, -1, 1);
    steps.push_back(s);
  }
  if (predecessor) {
    Opts o2 = o; o2.imax = 40;
    Program Q = predecessor == 1 ? P : random_program(g, o2);
    if (Q.m) {
      record(Q, g.coin(), g.coin());
      std::vector<size_t> e;
      if (g.coin()) run_steps(id, Q, {steps[0]}, nullptr, e);
    }
  }
  { // variables that exist before the recording starts are put on the tape first
    setCurrentTape(id);
    std::vector<adouble> stock;
    if (g.chance(2, 5)) {
      int k = g.range(1, 150);
      c.desc << k << " live variables before the recording\n";
      c.label("live variables before the recording");
      for (int i = 0; i < k; ++i) stock.emplace_back(0.01 * i);
    }
    record(P, keep, off);
  }
  auto st = tapestats(id);
  bool disk = st[TapeInfos::OP_FILE_ACCESS] || st[TapeInfos::LOC_FILE_ACCESS] || st[TapeInfos::VAL_FILE_ACCESS];
  bool spill = st[TapeInfos::NUM_TAYS] > z.tay;
  if (disk) c.label("tape on disk");
  if (spill) c.label("Taylor store spilled");
  c.label(how == 0 ? "setter" : how == 1 ? ".adolcrc" : "trace_on");
  if (disk || spill) c.interesting();
  c.check(st[TapeInfos::OP_BUFFER_SIZE] == z.op && st[TapeInfos::LOC_BUFFER_SIZE] == z.loc && st[TapeInfos::VAL_BUFFER_SIZE] == z.val && st[TapeInfos::TAY_BUFFER_SIZE] == z.tay, "sizes", "the tape statistics report other buffer sizes than set");
  auto st0 = tapestats(ref);
  for (int k : {TapeInfos::NUM_INDEPENDENTS, TapeInfos::NUM_DEPENDENTS, TapeInfos::NUM_EQ_PROD, TapeInfos::NUM_SWITCHES, TapeInfos::NUM_PARAM})
    c.check(st[k] == st0[k], "stats", cat("tape statistic ", k, " is ", st[k], " instead of ", st0[k]));
  if (off) c.check(st[TapeInfos::OP_FILE_ACCESS] && st[TapeInfos::LOC_FILE_ACCESS] && st[TapeInfos::VAL_FILE_ACCESS], "forced", "trace_off(1) did not write files");
  if (keep) { // reverse straight after recording
    std::vector<double> u = reals(g, P.m), a(P.n), b(P.n);
    for (int rep = 0; rep < 2; ++rep) {
      int ra = fos_reverse(ref, P.m, P.n, u.data(), a.data()), rb = fos_reverse(id, P.m, P.n, u.data(), b.data());
      c.check(ra == rb && !memcmp(a.data(), b.data(), 8 * a.size()), "reverse-after-recording", cat("fos_reverse after recording with keep differs: rc ", ra, " ", rb, " ", show(a), " ", show(b)));
    }
  }
  std::vector<size_t> e0, e1;
  for (auto &s : steps) c.desc << "step kind=" << s.kind << " d=" << s.d << " q=" << s.q << " rep=" << s.keep << " pt=" << s.pt << "\n";
  auto r0 = run_steps(ref, P, steps, nullptr, e0);
  auto r1 = run_steps(id, P, steps, nullptr, e1);
  for (size_t i = 0; i < steps.size(); ++i) {
    size_t b = i ? e0[i - 1] : 0;
    c.label(cat("step ", steps[i].kind));
    c.check(e0[i] == e1[i], cat("length-step-", steps[i].kind), "results of different length");
    for (size_t k = b; k < e0[i]; ++k)
      c.check(r0[k] == r1[k] || (std::isnan(r0[k]) && std::isnan(r1[k])), cat("differs-step-", steps[i].kind), cat("step ", i, " kind ", steps[i].kind, " result ", k - b, ": ", r1[k], " with small buffers, ", r0[k], " with default buffers"));
  }
  taping::reset_library();
  auto left = tapfiles();
  c.check(left.empty(), "files-left", cat("tape file left behind: ", left.empty() ? "" : left[0]));
}
