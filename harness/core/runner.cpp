// Search / replay / shrink driver shared by all checks.
#include "gen.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace {
using Clock = std::chrono::steady_clock;
double now_s() {
  return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

enum Status : uint8_t { NOTRUN = 0, OK = 1, DISCARD = 2, FAIL = 3, CRASH = 4, TIMEOUT = 5, RUNNING = 6 };

struct Rec {
  uint64_t hash;
  uint64_t labels;
  uint8_t status;
  uint8_t nontrivial;
};

struct Shared {
  std::atomic<long> next_batch;
  std::atomic<int> stop;
  std::atomic<int> fails;
  std::atomic<int> lock;
  int nlabels;
  char names[64][40];
};
Shared *sh;
Rec *recs;
std::string scratch; // private scratch dir
uint64_t base_seed = 1;

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r{a * 0x9E3779B97F4A7C15ull + b + 0x1234567};
  r.next();
  return r.next() ^ b;
}
uint64_t case_seed(long i) { return mix(base_seed, (uint64_t)i); }

uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

int label_id(const std::string &s) {
  while (sh->lock.exchange(1))
    ;
  int id = -1;
  for (int i = 0; i < sh->nlabels; ++i)
    if (s.substr(0, 39) == sh->names[i]) {
      id = i;
      break;
    }
  if (id < 0 && sh->nlabels < 64) {
    id = sh->nlabels;
    std::strncpy(sh->names[id], s.c_str(), 39);
    sh->nlabels++;
  }
  sh->lock = 0;
  return id;
}

void rm_rf(const std::string &d) {
  DIR *dp = opendir(d.c_str());
  if (!dp)
    return;
  while (auto *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rm_rf(p);
    else
      unlink(p.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}
void clear_dir(const std::string &d) {
  DIR *dp = opendir(d.c_str());
  if (!dp)
    return;
  while (auto *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rm_rf(p);
    else
      unlink(p.c_str());
  }
  closedir(dp);
}

void arm_cpu(int sec) {
  itimerval it{};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

struct Outcome {
  Status st = NOTRUN;
  std::string sig, msg, desc;
  std::vector<uint64_t> seq;
  bool nontrivial = false;
};

// body executed in a child; writes the outcome to fd
void write_outcome(int fd, const Outcome &o) {
  std::ostringstream s;
  s << (int)o.st << ' ' << (o.nontrivial ? 1 : 0) << '\n'
    << o.sig.size() << ' ' << o.msg.size() << ' ' << o.desc.size() << ' '
    << o.seq.size() << '\n';
  for (auto v : o.seq)
    s << v << ' ';
  s << '\n' << o.sig << o.msg << o.desc;
  std::string t = s.str();
  size_t off = 0;
  while (off < t.size()) {
    ssize_t k = write(fd, t.data() + off, t.size() - off);
    if (k <= 0)
      break;
    off += (size_t)k;
  }
}
bool parse_outcome(const std::string &t, Outcome &o) {
  std::istringstream s(t);
  int st, nt;
  size_t a, b, c, d;
  if (!(s >> st >> nt >> a >> b >> c >> d))
    return false;
  o.st = (Status)st;
  o.nontrivial = nt;
  o.seq.resize(d);
  for (auto &v : o.seq)
    if (!(s >> v))
      return false;
  s.get();
  if (d)
    s.get();
  std::string rest((std::istreambuf_iterator<char>(s)),
                   std::istreambuf_iterator<char>());
  // after the sequence there is " \n"; locate by size from the end
  if (rest.size() < a + b + c)
    return false;
  rest = rest.substr(rest.size() - (a + b + c));
  o.sig = rest.substr(0, a);
  o.msg = rest.substr(a, b);
  o.desc = rest.substr(a + b, c);
  return true;
}

std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)),
                     std::istreambuf_iterator<char>());
}

// a crashing case leaves its description behind for the report
Case *current_case = nullptr;
std::string desc_file;
void save_desc(Case *c) {
  if (c && !desc_file.empty()) {
    std::string d = c->desc.str();
    int fd = open(desc_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      (void)!write(fd, d.data(), d.size());
      close(fd);
    }
  }
}
void on_abort(int sig) {
  signal(sig, SIG_DFL);
  save_desc(current_case);
  raise(sig);
}

void run_body(Case &c, const std::function<void(Case &)> &fn, Outcome &o) {
  current_case = &c;
  try {
    fn(c);
    o.st = OK;
  } catch (Violation &v) {
    o.st = FAIL;
    o.sig = v.sig;
    o.msg = v.msg;
  } catch (Discard &) {
    o.st = DISCARD;
  } catch (Overrun &) {
    o.st = DISCARD;
  } catch (std::exception &e) {
    o.st = FAIL;
    o.sig = "unexpected-exception";
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  o.nontrivial = c.nontrivial;
}

std::string crash_sig(const std::string &err, int wst) {
  // sanitizer summary or assertion text, else the signal
  auto grab = [&](const char *key) -> std::string {
    auto p = err.find(key);
    if (p == std::string::npos)
      return "";
    auto e = err.find('\n', p);
    return err.substr(p, std::min<size_t>(e == std::string::npos ? 160 : e - p, 160));
  };
  std::string s = grab("SUMMARY: ");
  if (s.empty())
    s = grab("runtime error: ");
  if (s.empty()) {
    auto p = err.find("Assertion `");
    if (p != std::string::npos)
      s = grab("Assertion `");
  }
  if (s.empty() && WIFSIGNALED(wst))
    s = std::string("signal ") + std::to_string(WTERMSIG(wst));
  if (s.empty())
    s = "exit " + std::to_string(WEXITSTATUS(wst));
  return "crash: " + s;
}

// run one thing in a fresh child inside its own directory
Outcome isolated(const std::function<Outcome()> &body, const std::string &dir) {
  mkdir(dir.c_str(), 0755);
  clear_dir(dir);
  std::string of = dir + ".out", ef = dir + ".err", df = dir + ".desc";
  unlink(of.c_str());
  unlink(df.c_str());
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    if (chdir(dir.c_str()))
      _exit(99);
    int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(e, 1);
    dup2(e, 2);
    arm_cpu(CHECK.cpu_limit);
    desc_file = df;
    if (!CHECK.schedules) signal(SIGABRT, on_abort);
    Outcome o = body();
    int fd = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    write_outcome(fd, o);
    _exit(0);
  }
  int wst = 0;
  double t0 = now_s();
  Outcome o;
  while (true) {
    pid_t r = waitpid(p, &wst, WNOHANG);
    if (r == p)
      break;
    if (now_s() - t0 > 20.0 * CHECK.cpu_limit) { // wall backstop
      kill(-p, SIGKILL);
      waitpid(p, &wst, 0);
      break;
    }
    usleep(300);
  }
  if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && parse_outcome(slurp(of), o)) {
  } else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGPROF) {
    o.st = TIMEOUT;
    o.sig = "timeout";
    o.msg = "case did not terminate within the CPU limit";
  } else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL) {
    o.st = DISCARD; // killed from outside: no verdict
  } else {
    o.st = CRASH;
    std::string err = slurp(ef);
    o.sig = crash_sig(err, wst);
    o.msg = err.substr(0, 3000);
    o.desc = slurp(df);
  }
  unlink(df.c_str());
  unlink(of.c_str());
  unlink(ef.c_str());
  return o;
}

Outcome run_seed_child(uint64_t seed) {
  Outcome o;
  Gen g(seed);
  Case c(g);
  run_body(c, run_case, o);
  o.seq = g.seq;
  o.desc = c.desc.str();
  return o;
}
Outcome run_seq_child(const std::vector<uint64_t> &seq) {
  Outcome o;
  Gen g(seq);
  Case c(g);
  run_body(c, run_case, o);
  size_t used = std::min(g.pos, g.seq.size());
  o.seq.assign(g.seq.begin(), g.seq.begin() + used);
  o.desc = c.desc.str();
  return o;
}
// recovers the choices of a case that crashes: the generator writes them to a
// file as they are drawn
} // namespace

void publish_desc(Case &c) { save_desc(&c); }

static bool bad(Status s) { return s == FAIL || s == CRASH || s == TIMEOUT; }

// a case that crashes never reports its sequence; recover it by regenerating
// the random stream (the stream does not depend on the code under test unless
// the case feeds results back into the generator, which no check does)
static std::vector<uint64_t> raw_stream(uint64_t seed, size_t n) {
  Rng r{seed};
  std::vector<uint64_t> v(n);
  for (auto &x : v)
    x = r.next();
  return v;
}

static std::string sig_class(const std::string &s) {
  return s; // class = whole signature
}

struct Failure {
  long idx = -1;
  std::vector<long> batch; // non-empty: history replay
  Outcome o;
  std::vector<uint64_t> seq;
};

static std::string dir0() { return scratch + "/iso"; }

static Outcome eval_seq(const std::vector<uint64_t> &seq) {
  return isolated([&] { return run_seq_child(seq); }, dir0());
}
static Outcome eval_batch(const std::vector<uint64_t> &seeds) {
  return isolated(
      [&] {
        Outcome o;
        for (auto s : seeds) {
          arm_cpu(CHECK.cpu_limit);
          o = run_seed_child(s);
          if (bad(o.st))
            break;
        }
        return o;
      },
      dir0());
}

// schedules differ from run to run
template <class F> static Outcome again(F &&f) {
  Outcome o = f();
  for (int r = 0; CHECK.schedules && r < 5 && !bad(o.st); ++r) o = f();
  return o;
}
static std::vector<uint64_t> shrink(std::vector<uint64_t> seq, const std::string &cls,
                                    double budget, Outcome &best) {
  double t0 = now_s();
  int evals = 0;
  auto ok = [&](const std::vector<uint64_t> &s) {
    if (now_s() - t0 > budget || evals > 6000)
      return false;
    ++evals;
    Outcome o = eval_seq(s);
    if (bad(o.st) && sig_class(o.sig) == cls) {
      best = o;
      return true;
    }
    return false;
  };
  auto simpler = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  bool improved = true;
  while (improved && now_s() - t0 < budget) {
    improved = false;
    for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = 0; i + len <= seq.size();) {
        std::vector<uint64_t> t = seq;
        t.erase(t.begin() + (long)i, t.begin() + (long)(i + len));
        if (ok(t)) {
          if (best.st == FAIL && !best.seq.empty() && simpler(best.seq, t))
            t = best.seq;
          seq = t;
          improved = true;
        } else
          i += (len > 4 ? len / 2 : 1);
        if (now_s() - t0 > budget)
          break;
      }
    }
    for (size_t i = 0; i < seq.size(); ++i) {
      if (seq[i] == 0)
        continue;
      std::vector<uint64_t> t = seq;
      t[i] = 0;
      if (ok(t)) {
        seq = t;
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = seq[i];
      while (lo + 1 < hi) {
        uint64_t mid = lo + (hi - lo) / 2;
        t = seq;
        t[i] = mid;
        if (ok(t)) {
          hi = mid;
          seq = t;
          improved = true;
        } else
          lo = mid;
        if (now_s() - t0 > budget)
          break;
      }
      // deleting one element while lowering a preceding count
      if (i + 1 < seq.size() && seq[i] > 0) {
        t = seq;
        t[i]--;
        t.erase(t.begin() + (long)i + 1);
        if (ok(t)) {
          seq = t;
          improved = true;
        }
      }
      if (now_s() - t0 > budget)
        break;
    }
  }
  return seq;
}

// known findings: lines "finding: property=<id> sig=<text> # what"
struct Known {
  std::string prop, sig, what;
};
static std::vector<Known> load_known(const std::string &path) {
  std::vector<Known> v;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("finding:", 0) != 0)
      continue;
    auto p = l.find("property="), s = l.find(" sig="), h = l.find(" # ");
    if (p == std::string::npos || s == std::string::npos)
      continue;
    Known k;
    k.prop = l.substr(p + 9, s - p - 9);
    k.sig = l.substr(s + 5, (h == std::string::npos ? l.size() : h) - s - 5);
    k.what = h == std::string::npos ? "" : l.substr(h + 3);
    v.push_back(k);
  }
  return v;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

int main(int argc, char **argv) {
  std::string tier = "quick", evid, replay, repdir = "replays", known_file;
  long cases = -1, only = -1;
  double maxsec = -1;
  int workers = 8;
  bool noshrink = false, keepgoing = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") tier = val();
    else if (a == "--seed") base_seed = std::stoull(val());
    else if (a == "--cases") cases = std::stol(val());
    else if (a == "--sec") maxsec = std::stod(val());
    else if (a == "--evidence") evid = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") repdir = val();
    else if (a == "--known") known_file = val();
    else if (a == "--workers") workers = std::stoi(val());
    else if (a == "--case") only = std::stol(val());
    else if (a == "--noshrink") noshrink = true;
    else if (a == "--keepgoing") keepgoing = true;
  }
  bool thorough = tier == "thorough";
  if (cases < 0) cases = thorough ? CHECK.thorough_cases : CHECK.quick_cases;
  if (maxsec < 0) maxsec = thorough ? CHECK.thorough_sec : CHECK.quick_sec;
  double tstart = now_s();

  const char *base = getenv("VERIF_SCRATCH");
  std::string tmpl = std::string(base && *base ? base : "/tmp") + "/vchk-" + CHECK.prop + "-XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) {
    std::cerr << "cannot create scratch dir\n";
    return 3;
  }
  scratch = tb.data();
  struct Cleaner {
    ~Cleaner() { rm_rf(scratch); }
  } cleaner;

  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared{};
  recs = (Rec *)mmap(nullptr, sizeof(Rec) * (size_t)std::max<long>(cases, 1), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

  auto known = load_known(known_file);
  auto is_known = [&](const std::string &sig) -> const Known * {
    for (auto &k : known)
      if (k.prop == CHECK.prop && !k.sig.empty() && k.sig == sig)
        return &k;
    return nullptr;
  };

  std::vector<Pinned> pins = pinned_cases();

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l, kind;
    std::vector<uint64_t> nums;
    std::string pin;
    while (std::getline(f, l)) {
      if (l.rfind("kind: ", 0) == 0) kind = l.substr(6);
      if (l.rfind("pinned: ", 0) == 0) pin = l.substr(8);
      if (l.rfind("numbers:", 0) == 0) {
        std::istringstream s(l.substr(8));
        uint64_t v;
        while (s >> v) nums.push_back(v);
      }
    }
    Outcome o;
    if (kind == "choices") o = again([&] { return eval_seq(nums); });
    else if (kind == "batch") o = again([&] { return eval_batch(nums); });
    else
      for (auto &p : pins)
        if (pin == p.name)
          o = isolated([&] { Outcome q; Gen g(1); Case c(g); run_body(c, p.fn, q); q.desc = c.desc.str(); return q; }, dir0());
    std::cout << "status " << (int)o.st << "\nsig: " << o.sig << "\nmsg: " << o.msg << "\ncase:\n" << o.desc << std::endl;
    if (bad(o.st)) {
      std::cout << "VIOLATION property=" << CHECK.prop << " replay=" << replay << std::endl;
      return 1;
    }
    return 0;
  }
  if (only >= 0) {
    Outcome o = eval_batch({case_seed(only)});
    std::cout << "status " << (int)o.st << "\nsig: " << o.sig << "\nmsg: " << o.msg << "\ncase:\n" << o.desc << std::endl;
    return bad(o.st);
  }

  int violations = 0;
  mkdir(repdir.c_str(), 0755);
  auto write_replay = [&](const std::string &kind, const std::vector<uint64_t> &nums, const std::string &pin,
                          const Outcome &o) {
    std::ostringstream body;
    body << "property: " << CHECK.prop << "\nkind: " << kind << "\n";
    if (!pin.empty()) body << "pinned: " << pin << "\n";
    body << "numbers:";
    for (auto v : nums) body << ' ' << v;
    body << "\nsignature: " << o.sig << "\nmessage:\n" << o.msg << "\ncase:\n" << o.desc << "\n";
    std::string path = repdir + "/" + CHECK.prop + "-" + std::to_string(fnv(body.str()) % 100000000ull) + ".txt";
    std::ofstream(path) << body.str();
    return path;
  };

  // ---- pinned regression inputs
  long pin_run = 0;
  std::vector<std::string> known_hits;
  for (auto &p : pins) {
    ++pin_run;
    auto body = [&] { Outcome q; Gen g(1); Case c(g); run_body(c, p.fn, q); q.desc = c.desc.str(); return q; };
    Outcome o = isolated(body, dir0());
    if (!bad(o.st)) continue;
    bool stable = true;
    for (int r = 0; r < 2; ++r) stable &= bad(isolated(body, dir0()).st);
    if (!stable) { std::cout << "NOTE unstable pinned case " << p.name << std::endl; continue; }
    std::string psig = std::string("pinned:") + p.name;
    if (auto *k = is_known(psig)) {
      std::cout << "KNOWN-FINDING: property=" << CHECK.prop << " " << k->what << std::endl;
      known_hits.push_back(psig);
      continue;
    }
    ++violations;
    std::string path = write_replay("pinned", {}, p.name, o);
    std::cout << "pinned case " << p.name << ": " << o.sig << "\n" << o.msg << std::endl;
    std::cout << "VIOLATION property=" << CHECK.prop << " replay=" << path << std::endl;
  }

  // ---- search
  long nb = (cases + CHECK.batch - 1) / CHECK.batch;
  std::vector<pid_t> ws;
  double tsearch = now_s();
  for (int w = 0; w < workers; ++w) {
    pid_t p = fork();
    if (p) { ws.push_back(p); continue; }
    // supervisor
    std::string wd = scratch + "/w" + std::to_string(w);
    mkdir(wd.c_str(), 0755);
    while (true) {
      long b = sh->next_batch.fetch_add(1);
      if (b >= nb || sh->stop) break;
      if (now_s() - tsearch > maxsec) break;
      long i = b * CHECK.batch, e = std::min(cases, i + CHECK.batch);
      while (i < e && !sh->stop) {
        clear_dir(wd);
        pid_t c = fork();
        if (c == 0) {
          setpgid(0, 0);
          if (chdir(wd.c_str())) _exit(99);
          int nul = open((wd + "/../w" + std::to_string(w) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          dup2(nul, 1); dup2(nul, 2);
          for (long k = i; k < e; ++k) {
            arm_cpu(CHECK.cpu_limit);
            recs[k].status = RUNNING;
            Gen g(case_seed(k));
            Case cc(g);
            Outcome o;
            run_body(cc, run_case, o);
            recs[k].hash = fnv(cc.desc.str());
            uint64_t m = 0;
            for (auto &s : cc.labels) { int id = label_id(s); if (id >= 0) m |= 1ull << id; }
            recs[k].labels = m;
            recs[k].nontrivial = cc.nontrivial;
            recs[k].status = o.st;
            if (o.st == FAIL) _exit(77);
          }
          _exit(0);
        }
        int wst;
        double lastp = now_s();
        long lastk = -1;
        bool killed = false;
        while (true) {
          pid_t r = waitpid(c, &wst, WNOHANG);
          if (r == c) break;
          usleep(500);
          long kk = i;
          while (kk < e && recs[kk].status != RUNNING && recs[kk].status != NOTRUN) ++kk;
          if (kk != lastk) { lastk = kk; lastp = now_s(); }
          if (now_s() - lastp > 15.0 * CHECK.cpu_limit) { kill(-c, SIGKILL); waitpid(c, &wst, 0); killed = true; break; }
        }
        // kill stragglers of the process group
        kill(-c, SIGKILL);
        if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0) break;
        long k = i;
        while (k < e && recs[k].status != RUNNING && !bad((Status)recs[k].status)) ++k;
        if (k >= e) break;
        if (recs[k].status == RUNNING) {
          if (killed || (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL)) recs[k].status = DISCARD;
          else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGPROF) recs[k].status = TIMEOUT;
          else recs[k].status = CRASH;
        }
        if (bad((Status)recs[k].status)) { if (sh->fails.fetch_add(1) >= (keepgoing ? 400 : 12)) sh->stop = 1; }
        i = k + 1;
      }
    }
    _exit(0);
  }
  for (auto p : ws) { int st; waitpid(p, &st, 0); }
  double search_s = now_s() - tsearch;

  long evals = 0, nontriv = 0, disc = 0, failn = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<long> labcnt(64, 0);
  std::vector<long> bads, samples;
  for (long i = 0; i < cases; ++i) {
    if (recs[i].status == NOTRUN || recs[i].status == RUNNING) continue;
    ++evals;
    if (recs[i].status == DISCARD) { ++disc; continue; }
    for (int l = 0; l < 64; ++l) if (recs[i].labels >> l & 1) labcnt[l]++;
    if (bad((Status)recs[i].status)) { bads.push_back(i); ++failn; }
    if (recs[i].nontrivial) {
      ++nontriv;
      if (distinct.insert(recs[i].hash).second && recs[i].status == OK && samples.size() < 3) samples.push_back(i);
    }
  }

  // ---- failures: confirm, classify, shrink
  std::set<std::string> seen;
  long unrepro = 0;
  double post0 = now_s();
  for (long i : bads) {
    if (now_s() - post0 > 150) break;
    if (violations >= 3 && !keepgoing) break;
    uint64_t sd = case_seed(i);
    Outcome o = again([&] { return eval_batch({sd}); });
    if (bad(o.st)) {
      if (seen.count(o.sig)) continue;
      bool stable = true;
      for (int r = 0; r < 2 && stable; ++r) { Outcome q = again([&] { return eval_batch({sd}); }); stable = bad(q.st); }
      if (!stable) { ++unrepro; std::cout << "NOTE case " << i << " failed but does not reproduce reliably: " << o.sig << std::endl; continue; }
      seen.insert(o.sig);
      if (auto *k = is_known(o.sig)) {
        std::cout << "KNOWN-FINDING: property=" << CHECK.prop << " " << k->what << std::endl;
        known_hits.push_back(o.sig);
        continue;
      }
      std::vector<uint64_t> seq = o.seq;
      if (o.st != FAIL) {
        // raw stream replays identically (choices are taken modulo n)
        size_t n = 4096;
        seq = raw_stream(sd, n);
        Outcome q = again([&] { return eval_seq(seq); });
        while (n < 70000 && !(bad(q.st))) { n *= 4; seq = raw_stream(sd, n); q = again([&] { return eval_seq(seq); }); }
        // cut to the shortest prefix that still fails
        size_t lo = 0, hi = seq.size();
        for (int it = 0; it < 24 && lo + 1 < hi; ++it) {
          size_t mid = (lo + hi) / 2;
          std::vector<uint64_t> t(seq.begin(), seq.begin() + (long)mid);
          Outcome z = again([&] { return eval_seq(t); });
          if (bad(z.st) && z.sig == o.sig) hi = mid; else lo = mid;
        }
        std::vector<uint64_t> t(seq.begin(), seq.begin() + (long)hi);
        if (bad(again([&] { return eval_seq(t); }).st)) seq = t;
      }
      Outcome best = o;
      if (!noshrink) seq = shrink(seq, o.sig, 25, best);
      best = again([&] { return eval_seq(seq); });
      ++violations;
      std::string path;
      if (bad(best.st)) path = write_replay("choices", seq, "", best);
      else path = write_replay("batch", {sd}, "", o);
      std::cout << "case " << i << ": " << o.sig << "\n" << (bad(best.st) ? best.msg : o.msg) << "\n" << (bad(best.st) ? best.desc : o.desc) << std::endl;
      std::cout << "VIOLATION property=" << CHECK.prop << " replay=" << path << std::endl;
      continue;
    }
    // depends on earlier cases of its batch
    long b0 = (i / CHECK.batch) * CHECK.batch;
    std::vector<uint64_t> seeds;
    // the child restarted after the previous failure in the batch
    long st = b0;
    for (long k = b0; k < i; ++k) if (bad((Status)recs[k].status)) st = k + 1;
    for (long k = st; k <= i; ++k) seeds.push_back(case_seed(k));
    int good = 0;
    Outcome q;
    for (int r = 0; r < 3; ++r) { q = again([&] { return eval_batch(seeds); }); good += bad(q.st); }
    if (good == 3) {
      if (seen.count("H:" + q.sig)) continue;
      seen.insert("H:" + q.sig);
      if (auto *k = is_known(q.sig)) {
        std::cout << "KNOWN-FINDING: property=" << CHECK.prop << " " << k->what << std::endl;
        continue;
      }
      double t0 = now_s();
      for (size_t k = 0; k + 1 < seeds.size() && now_s() - t0 < 20;) {
        auto t = seeds;
        t.erase(t.begin() + (long)k);
        Outcome z = again([&] { return eval_batch(t); });
        if (bad(z.st) && z.sig == q.sig) seeds = t; else ++k;
      }
      ++violations;
      std::string path = write_replay("batch", seeds, "", q);
      std::cout << "history of " << seeds.size() << " cases: " << q.sig << "\n" << q.msg << std::endl;
      std::cout << "VIOLATION property=" << CHECK.prop << " replay=" << path << std::endl;
    } else {
      ++unrepro;
      std::cout << "NOTE case " << i << " failed once and did not reproduce (" << good << "/3)" << std::endl;
    }
  }

  // ---- samples and evidence
  std::vector<std::string> stext;
  for (long i : samples) {
    Outcome o = eval_batch({case_seed(i)});
    stext.push_back(cat("case ", i, ": ", o.desc.substr(0, 1500)));
  }
  for (int l = 0; l < sh->nlabels; ++l) std::cout << "  " << sh->names[l] << ": " << labcnt[l] << "\n";
  double wall = now_s() - tstart;
  std::cout << CHECK.prop << " " << tier << " seed=" << base_seed << ": " << evals << " cases, " << distinct.size()
            << " distinct non-trivial, " << disc << " discarded, " << failn << " failing, " << unrepro
            << " unreproducible, " << violations << " violations, search " << search_s << " s, wall " << wall << " s" << std::endl;
  if (!evid.empty()) {
    std::ofstream e(evid);
    e << "{\n \"property\": \"" << CHECK.prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << base_seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
      << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"discarded\": " << disc
      << ",\n  \"pinned_inputs\": " << pin_run << ",\n  \"unreproducible\": " << unrepro << ",\n  \"requested\": " << cases << ",\n  \"rule\": \"" << jesc(CHECK.rule)
      << "\",\n  \"classes\": {";
    for (int l = 0; l < sh->nlabels; ++l)
      e << (l ? ", " : "") << "\"" << jesc(sh->names[l]) << "\": " << labcnt[l];
    e << "},\n  \"known_findings\": [";
    for (size_t k = 0; k < known_hits.size(); ++k) e << (k ? ", " : "") << "\"" << jesc(known_hits[k]) << "\"";
    e << "],\n  \"samples\": [";
    for (size_t k = 0; k < stext.size(); ++k) e << (k ? ",\n   " : "\n   ") << "\"" << jesc(stext[k]) << "\"";
    e << "]\n },\n \"assumptions\": [";
    for (size_t k = 0; k < CHECK.assumptions.size(); ++k)
      e << (k ? ", " : "") << "\"" << jesc(CHECK.assumptions[k]) << "\"";
    e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  }
  if (evals == 0 && pins.empty()) return 4;
  return violations ? 1 : 0;
}
