// Choice-sequence generator: every random decision of a case is one integer
// drawn from a recorded sequence, so that a case is replayed (and shrunk) from
// that sequence alone.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

struct Overrun : std::exception {};

class Gen {
public:
  std::vector<uint64_t> seq; // recorded (or replayed) choices
  size_t pos = 0;
  bool replay = false;
  Rng rng{0};
  static constexpr size_t MAXC = 100000;

  explicit Gen(uint64_t seed) { rng.s = seed; }
  explicit Gen(std::vector<uint64_t> s) : seq(std::move(s)), replay(true) {}

  // uniform in [0,n)
  uint64_t below(uint64_t n) {
    if (n <= 1)
      return 0;
    uint64_t v;
    if (replay) {
      v = pos < seq.size() ? seq[pos] : 0;
      if (v >= n)
        v %= n;
      if (pos < seq.size())
        seq[pos] = v;
    } else {
      if (pos > MAXC)
        throw Overrun();
      v = rng.next() % n;
      seq.push_back(v);
    }
    ++pos;
    return v;
  }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { // true is the "complicated" outcome
    return (int)below(den) >= den - num;
  }
  bool coin() { return below(2) != 0; }
  // weighted pick: index i with probability w[i]/sum; index 0 simplest
  int pick(const std::vector<int> &w) {
    int tot = 0;
    for (int x : w)
      tot += x;
    int v = (int)below(tot);
    for (size_t i = 0; i < w.size(); ++i) {
      if (v < w[i])
        return (int)i;
      v -= w[i];
    }
    return 0;
  }
  template <class T> const T &oneof(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // moderate real in [lo,hi]; grid points are preferred (and simpler)
  double real(double lo, double hi) {
    int mode = (int)below(3);
    if (mode == 0) { // grid of eighths
      long a = (long)std::ceil(lo * 8), b = (long)std::floor(hi * 8);
      if (b >= a) {
        // simplest = value closest to +1 / 0
        uint64_t k = below((uint64_t)(b - a + 1));
        // order the values by distance to `one`
        long one = 8;
        if (one < a)
          one = a;
        if (one > b)
          one = b;
        // enumerate one, one+1, one-1, one+2 ...
        long lo_room = one - a, hi_room = b - one;
        long m = std::min(lo_room, hi_room);
        long kk = (long)k;
        long v;
        if (kk <= 2 * m)
          v = (kk % 2) ? one + (kk + 1) / 2 : one - kk / 2;
        else if (hi_room > lo_room)
          v = one + (kk - m);
        else
          v = one - (kk - m);
        return (double)v / 8.0;
      }
    }
    uint64_t k = below(1u << 20);
    return lo + (hi - lo) * ((double)k / (double)(1u << 20));
  }
};

struct Violation : std::exception {
  std::string sig, msg;
  Violation(std::string s, std::string m) : sig(std::move(s)), msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};

struct Discard : std::exception {};

struct Case {
  Gen &g;
  std::ostringstream desc;
  bool nontrivial = false;
  std::set<std::string> labels;
  bool verbose = false;
  explicit Case(Gen &gg) : g(gg) { desc.precision(17); }
  void label(const std::string &s) { labels.insert(s); }
  void interesting() { nontrivial = true; }
  [[noreturn]] void fail(const std::string &sig, const std::string &msg) {
    throw Violation(sig, msg);
  }
  template <class L> auto check(bool ok, const std::string &sig, L msg) -> decltype(std::string(msg())) { if (!ok) check(false, sig, std::string(msg())); return {}; }
  void check(bool ok, const std::string &sig, const std::string &msg) {
    if (!ok)
      fail(sig, msg);
  }
  [[noreturn]] void discard() { throw Discard(); }
};

template <class... A> std::string cat(A &&...a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}

// ---- what each check provides -------------------------------------------
struct CheckInfo {
  const char *prop;
  const char *rule;
  long quick_cases;
  long thorough_cases;
  double quick_sec;    // wall cap (budget), not a verdict
  double thorough_sec;
  std::vector<std::string> assumptions;
  int batch = 50;
  int cpu_limit = 20; // CPU seconds one case may use
  bool schedules = false; // depends on thread schedules: a failure counts when it is seen again in one of several repetitions
};
extern const CheckInfo CHECK;
void publish_desc(Case &c); // leaves the description behind in case the process is ended
void run_case(Case &c);

struct Pinned {
  const char *name;
  std::function<void(Case &)> fn;
};
// fixed regression inputs (found defects); may be empty
std::vector<Pinned> pinned_cases();
