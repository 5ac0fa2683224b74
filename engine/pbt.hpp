// pbt.hpp - a small property-based testing engine.
//
//  * Generators draw choices from a tape (T::draw).  Random runs fill the tape
//    from a PRNG seeded by VERIF_SEED and the case number; replays and shrink
//    candidates read a given tape; fuzzing runs decode libFuzzer's bytes.
//  * A property is a function of T&; it fails by T::fail (exception), by a
//    crash or sanitizer report (the case runs in a forked child), or by using
//    more CPU time than allowed for one case.
//  * A failure is shrunk on its tape, replayed three times, and only then
//    reported, with a replay file.
//
// No internals of the code under test are known here.
#pragma once
#include <cmath>
#include <cerrno>
#include <cfloat>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };
struct Known { std::string id; std::string msg; };
struct Discard {};

static const size_t TAPE_CAP = 1u << 19;

struct Shared {               // shared between the parent and one child
  volatile uint64_t case_idx;
  volatile uint32_t test_idx;
  volatile uint32_t state;    // 0 running, 1 ok, 2 failed, 3 discarded, 4 known
  volatile uint64_t tape_len;
  volatile uint64_t done;
  char msg[4096];
  char known[64];
  uint64_t tape[TAPE_CAP];
};

static inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0x9E3779B97F4A7C15ull + b + 0x1234567;
  splitmix(s);
  return splitmix(s) ^ b;
}

class T {
 public:
  enum Mode { RANDOM, TAPE, BYTES };
  Mode mode = RANDOM;
  uint64_t rng = 0;
  const uint64_t* in = nullptr; size_t nin = 0;
  const uint8_t* bytes = nullptr; size_t nbytes = 0;
  size_t pos = 0;
  Shared* sh = nullptr;
  std::vector<uint64_t> own;
  size_t len = 0;
  bool verbose = false;
  bool is_nontrivial = false;
  std::vector<std::string> labels;
  std::string notes;
  uint64_t hash = 1469598103934665603ull;
  bool thorough = false;
  int nfd = -1;   // where notes also go, so that they survive a crash

  uint64_t draw(uint64_t max) {
    uint64_t v = 0;
    if (max == 0) return 0;
    if (mode == RANDOM) {
      v = splitmix(rng);
      if (max != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (max + 1)) >> 64);
    } else if (mode == TAPE) {
      if (pos < nin) v = in[pos] > max ? max : in[pos];
      ++pos;
    } else {
      int k = 0; uint64_t m = max;
      while (m) { ++k; m >>= 8; }
      for (int i = 0; i < k; ++i) { v = (v << 8) | (pos < nbytes ? bytes[pos] : 0); ++pos; }
      if (max != UINT64_MAX) v %= (max + 1);
    }
    hash = (hash ^ v) * 1099511628211ull;
    hash ^= hash >> 29;
    if (sh) {
      if (len < TAPE_CAP) { sh->tape[len] = v; sh->tape_len = len + 1; }
    } else own.push_back(v);
    ++len;
    if (len >= TAPE_CAP) throw Discard();
    return v;
  }
  bool flag() { return draw(1) != 0; }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  long range(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo)); }
  // like range but small values are more likely
  long small(long lo, long hi) {
    long a = (long)draw((uint64_t)(hi - lo));
    switch (draw(2)) { case 0: return lo + a % 4 * ((hi - lo) >= 3) ; case 1: return lo + std::min<long>(a, (long)draw((uint64_t)(hi - lo))); default: return lo + a; }
  }
  // like small, and seldom a large size (around a power of two, a round number or any) up to big
  long size(long lo, long hi, long big, unsigned rarity = 40) {
    if (!chance(1, rarity)) return small(lo, hi);
    static const long pick[] = {10, 16, 20, 25, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000};
    long k = 0; while (k < 20 && pick[k] <= hi) ++k;
    long e = k; while (e < 20 && pick[e + 1] <= big) ++e;
    long n = flag() ? pick[range(k, e)] + range(-1, 2) : range(lo, big);
    return n < lo ? lo : n > big ? big : n;
  }
  // a length beyond 16 bits
  long giant() { static const long p[] = {65535, 65536, 65537, 65800, 70000, 100000, 131071, 131073}; label("giant"); return p[draw(7)]; }
  // like range, and seldom beyond up to big
  long dim(long lo, long hi, long big, unsigned rarity = 30) { return chance(1, rarity) ? range(hi + 1, big) : range(lo, hi); }
  double unit() { return (double)draw((1ull << 40) - 1) / (double)(1ull << 40); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double sym(double scale) { double u = unit(); return flag() ? -scale * u : scale * u; }
  double loguniform(double lo, double hi) { return std::exp(uniform(std::log(lo), std::log(hi))); }
  double normal() { double s = 0; for (int i = 0; i < 4; ++i) s += unit(); return (s - 2.0) * 1.7320508; }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[draw(c.size() - 1)]; }
  template <class V> V of(std::initializer_list<V> l) { return *(l.begin() + draw(l.size() - 1)); }
  // index with given weights; the first is the simplest
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0; for (unsigned x : w) tot += x;
    uint64_t v = draw(tot - 1); size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }
  // a finite real number: mostly moderate, sometimes exactly representable small
  // integers, sometimes 0, sometimes of extreme-but-safe magnitude
  double real(double big = 1e3) {
    switch (weighted({4, 4, 1, 1})) {
      case 0: return (double)range(-4, 4) * (flag() ? 0.5 : 1.0);
      case 1: return sym(10.0);
      case 2: return 0.0;
      default: { double m = loguniform(1.0 / big, big); return flag() ? -m : m; }
    }
  }
  // coefficient for linear combinations: 0, 1 and -1 are frequent
  double coef() {
    switch (draw(5)) { case 0: return 1.0; case 1: return 0.0; case 2: return -1.0; default: return real(100.0); }
  }
  void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
  void label(const std::string& s) { labels.push_back(s); }
  void add_note(const std::string& s) { notes += s; if (nfd >= 0 && write(nfd, s.data(), s.size()) < 0) nfd = -1; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose || notes.size() > 20000) return;
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    add_note(std::string(buf) + "; ");
  }
  void notev(const char* name, const double* x, size_t n) {
    if (!verbose) return;
    std::string s = name; s += "=[";
    char b[40];
    for (size_t i = 0; i < n && i < 24; ++i) { snprintf(b, sizeof b, "%s%.17g", i ? "," : "", x[i]); s += b; }
    if (n > 24) s += ",...";
    s += "]; "; add_note(s);
  }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf};
  }
  // Failure that matches a recorded finding (honoured only when listed).
  [[noreturn]] void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Known{id, buf};
  }
  [[noreturn]] void discard() { throw Discard(); }
};

#define PBT_CHECK(t, cond, ...) do { if (!(cond)) (t).fail(__VA_ARGS__); } while (0)

struct Test {
  const char* name;
  void (*fn)(T&);
  unsigned weight;
};

struct Check {
  const char* id;
  const char* rule;
  std::vector<Test> tests;
  uint64_t quick_cases;      // number of cases in the quick tier
  double quick_wall = 60;    // wall-clock cap of the quick tier (s)
  double case_cpu = 10;      // CPU seconds one case may use
  std::vector<std::string> assumptions;
};

// ------------------------------------------------------------------ runner

enum Out { OK, FAIL, CRASH, HANG, DISC, KNOWN };
struct Result { Out out = OK; std::string msg; std::string known; std::vector<uint64_t> tape; std::string notes; };

static inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

static inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

struct Runner {
  Check& c;
  std::string tier = "quick", scratch = "/tmp", known_file, evidence, replay_dir, replay_file, bytes_file;
  uint64_t seed = 1, cases = 0; double wall = 0; int jobs = 8; int only = -1;
  std::set<std::string> known_ids;
  std::vector<unsigned> wcum; unsigned wtot = 0;
  bool verbose_replay = false;
  explicit Runner(Check& c_) : c(c_) {}

  unsigned pick_test(uint64_t idx) {
    if (only >= 0) return only;
    uint64_t s = mix(seed ^ 0xABCDEF, idx); uint64_t v = splitmix(s) % wtot;
    for (unsigned i = 0; i < wcum.size(); ++i) if (v < wcum[i]) return i;
    return 0;
  }
  uint64_t case_seed(uint64_t idx, unsigned test) {
    uint64_t h = mix(seed, idx);
    for (const char* p = c.id; *p; ++p) h = mix(h, (uint64_t)*p);
    return mix(h, test);
  }
  static void arm(double s) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
  }
  static void redirect(const std::string& path) {
    fflush(stdout); fflush(stderr);
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  }
  static Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Shared*)p;
  }
  void body(T& t, unsigned test, Shared* sh) {
    try {
      c.tests[test].fn(t);
      sh->state = 1;
    } catch (Failure& f) {
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->state = 2;
    } catch (Known& k) {
      snprintf(sh->msg, sizeof sh->msg, "%s", k.msg.c_str());
      snprintf(sh->known, sizeof sh->known, "%s", k.id.c_str());
      sh->state = known_ids.count(k.id) ? 4 : 2;
    } catch (Discard&) { sh->state = 3; }
  }
  static std::string tail(const std::string& path) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = s.find("ERROR: LeakSanitizer");
    if (p != std::string::npos) { size_t b = p > 200 ? p - 200 : 0; return s.substr(b, 1500); }
    return s.size() > 400 ? s.substr(s.size() - 400) : s;
  }
  // Run one case in its own child; tape==nullptr: random case idx.
  Result run_one(unsigned test, const std::vector<uint64_t>* tape, uint64_t idx, Shared* sh, bool verbose,
                 const std::vector<uint8_t>* bytes = nullptr) {
    sh->state = 0; sh->tape_len = 0; sh->msg[0] = 0; sh->known[0] = 0;
    std::string log = scratch + "/case." + std::to_string(getpid()) + ".log";
    std::string nf = scratch + "/case." + std::to_string(getpid()) + ".notes";
    unlink(nf.c_str());
    pid_t pid = fork();
    if (pid == 0) {
      redirect(log); signal(SIGPROF, SIG_DFL); arm(c.case_cpu);
      T t; t.sh = sh; t.verbose = verbose; t.thorough = tier == "thorough";
      if (bytes) { t.mode = T::BYTES; t.bytes = bytes->data(); t.nbytes = bytes->size(); }
      else if (tape) { t.mode = T::TAPE; t.in = tape->data(); t.nin = tape->size(); }
      else { t.mode = T::RANDOM; t.rng = case_seed(idx, test); }
      if (verbose) t.nfd = open(nf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      body(t, test, sh);
      fflush(stdout); fflush(stderr);
      _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.msg = sh->msg; r.known = sh->known;
    r.tape.assign(sh->tape, sh->tape + std::min<uint64_t>((uint64_t)sh->tape_len, (uint64_t)TAPE_CAP));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.out = HANG; r.msg = "no answer within the CPU time allowed for one case"; }
    else if (WIFSIGNALED(st)) { r.out = CRASH; r.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + ": " + tail(log); if (WTERMSIG(st) == SIGKILL) r.out = DISC; }
    else if (sh->state == 0) { r.out = CRASH; r.msg = "process ended: " + tail(log); }
    else r.out = sh->state == 1 ? OK : sh->state == 2 ? FAIL : sh->state == 4 ? KNOWN : DISC;
    if (verbose) { std::ifstream f(nf); std::stringstream ss; ss << f.rdbuf(); r.notes = ss.str(); }
    unlink(log.c_str()); unlink(nf.c_str());
    return r;
  }
  static bool bad(Out o) { return o == FAIL || o == CRASH || o == HANG; }

  std::vector<uint64_t> shrink(unsigned test, std::vector<uint64_t> best, Shared* sh, Out kind, int& tries) {
    double t0 = now(); int budget = 1500; double tmax = kind == HANG ? 60 : 40;
    if (kind == HANG) budget = 12;
    auto ok = [&](std::vector<uint64_t>& cand) {
      if (tries >= budget || now() - t0 > tmax) return false;
      ++tries;
      Result r = run_one(test, &cand, 0, sh, false);
      // keep the kind of failure: a crash must not be mistaken for another failure
      if (r.out == kind) { if (r.tape.size() <= cand.size()) cand = r.tape; return true; }
      return false;
    };
    bool progress = true;
    while (progress && tries < budget && now() - t0 < tmax) {
      progress = false;
      for (size_t blk = std::max<size_t>(best.size() / 2, 1); blk >= 1; blk /= 2) {
        for (size_t i = 0; i + blk <= best.size();) {
          std::vector<uint64_t> cand(best.begin(), best.begin() + i);
          cand.insert(cand.end(), best.begin() + i + blk, best.end());
          if (cand.size() < best.size() && ok(cand)) { best = cand; progress = true; } else i += blk;
          if (tries >= budget || now() - t0 > tmax) break;
        }
        if (blk == 1 || tries >= budget || now() - t0 > tmax) break;
      }
      for (size_t blk = std::max<size_t>(best.size() / 2, 1);; blk /= 2) {
        for (size_t i = 0; i + blk <= best.size(); i += blk) {
          bool nz = false; for (size_t j = i; j < i + blk; ++j) nz |= best[j] != 0;
          if (!nz) continue;
          auto cand = best; for (size_t j = i; j < i + blk; ++j) cand[j] = 0;
          if (ok(cand)) { best = cand; progress = true; }
          if (tries >= budget || now() - t0 > tmax) break;
        }
        if (blk <= 1 || tries >= budget || now() - t0 > tmax) break;
      }
      for (size_t i = 0; i < best.size(); ++i) {
        if (best[i] == 0) continue;
        uint64_t lo = 0, hi = best[i];
        int k = 0;
        while (lo + 1 < hi && k++ < 12) {
          uint64_t mid = lo + (hi - lo) / 2; auto cand = best; cand[i] = mid;
          if (ok(cand) && i < cand.size()) { best = cand; hi = best[i] < mid ? best[i] : mid; progress = true; } else lo = mid;
          if (i >= best.size()) break;
        }
        if (tries >= budget || now() - t0 > tmax) break;
      }
    }
    return best;
  }

  void load_known() {
    // lines: "known: property=<id> id=<KF-id> ..." ; "fixed:" lines suppress nothing
    std::ifstream f(known_file); std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("known:", 0) != 0) continue;
      if (line.find(std::string("property=") + c.id + " ") == std::string::npos) continue;
      size_t p = line.find(" id="); if (p == std::string::npos) continue;
      size_t e = line.find(' ', p + 4); known_ids.insert(line.substr(p + 4, e == std::string::npos ? e : e - p - 4));
    }
  }

  std::string write_replay(unsigned test, const Result& r, const std::vector<uint64_t>& tape, const std::string& origin) {
    uint64_t h = 7; for (auto v : tape) h = mix(h, v);
    char nm[64]; snprintf(nm, sizeof nm, "/%s-%016llx.replay", c.id, (unsigned long long)h);
    std::string path = replay_dir + nm;
    std::ofstream f(path);
    f << "property " << c.id << "\ntest " << c.tests[test].name << "\nseed " << seed << "\norigin " << origin << "\n";
    f << "tape " << tape.size(); for (auto v : tape) f << ' ' << v; f << "\n";
    f << "failure " << json_str(r.msg) << "\ncase " << json_str(r.notes) << "\n";
    f << "rerun tools/replay.sh " << path << "\n";
    return path;
  }

  int report(unsigned test, Result r, const std::string& origin, Shared* sh, int& violations) {
    // confirm, shrink, replay three times
    std::vector<uint64_t> orig = r.tape;
    Result again = run_one(test, &orig, 0, sh, false);
    if (!bad(again.out)) return 0;
    int tries = 0;
    std::vector<uint64_t> best = shrink(test, orig, sh, again.out, tries);
    Result fin; bool stable = true;
    for (int i = 0; i < 3; ++i) { fin = run_one(test, &best, 0, sh, true); if (!bad(fin.out)) stable = false; }
    if (!stable) {
      best = orig; stable = true;
      for (int i = 0; i < 3; ++i) { fin = run_one(test, &best, 0, sh, true); if (!bad(fin.out)) stable = false; }
    }
    if (!stable) return 0;
    std::string path = write_replay(test, fin, best, origin);
    printf("failure in %s/%s (%s, shrunk in %d runs to %zu choices): %s\n  case: %s\n", c.id, c.tests[test].name,
           origin.c_str(), tries, best.size(), fin.msg.c_str(), fin.notes.substr(0, 3000).c_str());
    printf("VIOLATION property=%s replay=%s\n", c.id, path.c_str());
    fflush(stdout);
    ++violations;
    return 1;
  }

  struct WStats {
    uint64_t evals = 0, disc = 0; std::unordered_set<uint64_t> nt; std::map<std::string, uint64_t> labels, per_test, known;
    std::vector<std::string> samples;
  };

  void worker(int w, Shared* sh, uint64_t start, double deadline, const std::string& out) {
    redirect(scratch + "/w" + std::to_string(w) + ".log");
    signal(SIGPROF, SIG_DFL);
    WStats s; int want = 2;
    for (uint64_t i = start; i < cases; i += jobs) {
      if (now() > deadline) break;
      unsigned test = pick_test(i);
      sh->case_idx = i; sh->test_idx = test; sh->state = 0; sh->tape_len = 0; sh->msg[0] = 0;
      if ((s.evals & 63) == 0) { struct stat sb; if (fstat(2, &sb) == 0 && sb.st_size > (1 << 22)) { if (ftruncate(2, 0)) {} } }
      arm(c.case_cpu);
      T t; t.sh = sh; t.rng = case_seed(i, test); t.thorough = tier == "thorough";
      t.verbose = (int)s.samples.size() < want;
      body(t, test, sh);
      ++s.evals; s.per_test[c.tests[test].name]++;
      if (sh->state == 2) { arm(0); flush_stats(s, out); fflush(stdout); fflush(stderr); _exit(3); }
      if (sh->state == 3) ++s.disc;
      if (sh->state == 4) s.known[sh->known]++;
      if (sh->state == 1 || sh->state == 4) {
        for (auto& l : t.labels) s.labels[l]++;
        if (t.is_nontrivial) {
          if (s.nt.size() < 1500000) s.nt.insert(mix(t.hash, test));
          if (t.verbose && !t.notes.empty()) s.samples.push_back(std::string(c.tests[test].name) + ": " + t.notes.substr(0, 1200));
        }
      }
      sh->done = s.evals;
    }
    arm(0);
    flush_stats(s, out); fflush(stdout); fflush(stderr);
    _exit(0);
  }
  static void flush_stats(WStats& s, const std::string& out) {
    std::ofstream f(out, std::ios::binary | std::ios::app);
    f << "E " << s.evals << " " << s.disc << "\n";
    for (auto& k : s.labels) f << "L " << k.second << " " << k.first << "\n";
    for (auto& k : s.per_test) f << "P " << k.second << " " << k.first << "\n";
    for (auto& k : s.known) f << "K " << k.second << " " << k.first << "\n";
    for (auto& k : s.samples) { std::string q = k; std::replace(q.begin(), q.end(), '\n', ' '); f << "S " << q << "\n"; }
    for (auto h : s.nt) f << "H " << h << "\n";
  }

  int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
      else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10); else if (a == "--wall") wall = atof(val().c_str());
      else if (a == "--jobs") jobs = atoi(val().c_str()); else if (a == "--evidence") evidence = val();
      else if (a == "--replay-dir") replay_dir = val(); else if (a == "--replay") replay_file = val();
      else if (a == "--bytes") bytes_file = val(); else if (a == "--scratch") scratch = val();
      else if (a == "--known") known_file = val();
      else if (a == "--only") { std::string n = val(); for (unsigned k = 0; k < c.tests.size(); ++k) if (n == c.tests[k].name) only = k; }
      else if (a == "--id") { printf("%s\n", c.id); return 0; }
    }
    for (auto& t : c.tests) { wtot += t.weight; wcum.push_back(wtot); }
    if (replay_dir.empty()) replay_dir = scratch;
    load_known();
    double t0 = now();
    Shared* ctl = map_shared();
    if (!replay_file.empty()) {
      std::ifstream f(replay_file); if (!f) { fprintf(stderr, "cannot read %s\n", replay_file.c_str()); return 2; } std::string line; unsigned test = 0; std::vector<uint64_t> tape;
      while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "test") { std::string n; is >> n; for (unsigned i = 0; i < c.tests.size(); ++i) if (n == c.tests[i].name) test = i; }
        if (k == "tape") { size_t n; is >> n; for (size_t i = 0; i < n; ++i) { uint64_t v; is >> v; tape.push_back(v); } }
      }
      Result r = run_one(test, &tape, 0, ctl, true);
      const char* nm[] = {"ok", "FAIL", "CRASH", "HANG", "discarded", "known"};
      printf("%s/%s: %s %s\n  case: %s\n", c.id, c.tests[test].name, nm[r.out], r.msg.c_str(), r.notes.c_str());
      return bad(r.out) ? 1 : 0;
    }
    int violations = 0, unrepro = 0;
    if (!bytes_file.empty()) {  // an input found by the coverage-guided fuzzer
      std::ifstream f(bytes_file, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
      if (s.empty()) return 0;
      unsigned test = (uint8_t)s[0] % c.tests.size();
      std::vector<uint8_t> b(s.begin() + 1, s.end());
      Result r = run_one(test, nullptr, 0, ctl, false, &b);
      if (!bad(r.out)) { printf("fuzzer input does not reproduce\n"); return 0; }
      if (!report(test, r, "fuzzing", ctl, violations)) { printf("fuzzer failure is not reproducible: ignored\n"); return 0; }
      return 1;
    }
    if (cases == 0) cases = tier == "thorough" ? UINT64_MAX / 4 : c.quick_cases;
    if (wall <= 0) wall = tier == "thorough" ? 300 : c.quick_wall;
    double deadline = t0 + wall;
    std::vector<Shared*> sh(jobs); std::vector<pid_t> pid(jobs, -1); std::vector<std::string> outs(jobs);
    std::vector<uint64_t> next(jobs); std::vector<int> fails(jobs, 0);
    for (int w = 0; w < jobs; ++w) { sh[w] = map_shared(); outs[w] = scratch + "/stats." + std::to_string(w); unlink(outs[w].c_str()); next[w] = w; }
    auto spawn = [&](int w) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) { worker(w, sh[w], next[w], deadline, outs[w]); _exit(0); }
      pid[w] = p;
    };
    for (int w = 0; w < jobs; ++w) spawn(w);
    int alive = jobs; uint64_t extra_evals = 0;
    while (alive > 0) {
      int st; pid_t p = waitpid(-1, &st, 0);
      if (p < 0) break;
      int w = -1; for (int k = 0; k < jobs; ++k) if (pid[k] == p) w = k;
      if (w < 0) continue;
      pid[w] = -1; --alive;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++unrepro; continue; }
      // failure or crash in case sh[w]->case_idx
      uint64_t idx = sh[w]->case_idx; unsigned test = sh[w]->test_idx;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) extra_evals += sh[w]->done + 1;
      Result r = run_one(test, nullptr, idx, ctl, false);
      int rep = 0;
      if (bad(r.out)) rep = report(test, r, "case " + std::to_string(idx), ctl, violations);
      if (!rep) {
        ++unrepro;
        if (++fails[w] < 20 && now() < deadline) { next[w] = idx + jobs; sh[w]->done = 0; spawn(w); ++alive; }
        continue;
      }
      deadline = 0;  // stop: one confirmed violation is enough
      for (int k = 0; k < jobs; ++k) if (pid[k] > 0) kill(pid[k], SIGTERM);
      for (int k = 0; k < jobs; ++k) if (pid[k] > 0) { waitpid(pid[k], &st, 0); extra_evals += sh[k]->done; pid[k] = -1; --alive; }
    }
    // merge statistics
    WStats m; 
    for (int w = 0; w < jobs; ++w) {
      std::ifstream f(outs[w]); std::string line;
      while (std::getline(f, line)) {
        if (line.size() < 3) continue;
        std::istringstream is(line.substr(2)); uint64_t n = 0; std::string rest;
        switch (line[0]) {
          case 'E': { uint64_t d; is >> n >> d; m.evals += n; m.disc += d; break; }
          case 'L': is >> n; std::getline(is, rest); m.labels[rest.substr(1)] += n; break;
          case 'P': is >> n; std::getline(is, rest); m.per_test[rest.substr(1)] += n; break;
          case 'K': is >> n; std::getline(is, rest); m.known[rest.substr(1)] += n; break;
          case 'S': if (m.samples.size() < 8) m.samples.push_back(line.substr(2)); break;
          case 'H': is >> n; m.nt.insert(n); break;
        }
      }
      unlink(outs[w].c_str()); unlink((scratch + "/w" + std::to_string(w) + ".log").c_str());
    }
    m.evals += extra_evals;
    double dt = now() - t0;
    if (!evidence.empty()) {
      std::ofstream f(evidence);
      f << "{\n \"property\": " << json_str(c.id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
        << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << m.evals << ",\n  \"distinct_nontrivial\": " << m.nt.size()
        << ",\n  \"discarded\": " << m.disc << ",\n  \"unreproduced\": " << unrepro << ",\n  \"rule\": " << json_str(c.rule) << ",\n  \"per_test\": {";
      bool first = true;
      for (auto& k : m.per_test) { f << (first ? "" : ", ") << json_str(k.first) << ": " << k.second; first = false; }
      f << "},\n  \"classes\": {"; first = true;
      for (auto& k : m.labels) { f << (first ? "" : ", ") << json_str(k.first) << ": " << k.second; first = false; }
      f << "},\n  \"known_findings_met\": {"; first = true;
      for (auto& k : m.known) { f << (first ? "" : ", ") << json_str(k.first) << ": " << k.second; first = false; }
      f << "},\n  \"samples\": ["; first = true;
      for (auto& k : m.samples) { f << (first ? "\n   " : ",\n   ") << json_str(k); first = false; }
      f << "]\n },\n \"assumptions\": ["; first = true;
      for (auto& k : c.assumptions) { f << (first ? "" : ", ") << json_str(k); first = false; }
      f << "],\n \"wall_s\": " << dt << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, %d unreproduced, %.1f s\n", c.id, tier.c_str(),
           (unsigned long long)seed, (unsigned long long)m.evals, m.nt.size(), (unsigned long long)m.disc, unrepro, dt);
    for (auto& k : m.known) fprintf(stderr, "  (known finding %s met %llu times)\n", k.first.c_str(), (unsigned long long)k.second);
    return violations ? 1 : 0;
  }
};

}  // namespace pbt

pbt::Check& pbt_check();

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static pbt::Check& c = pbt_check();
  if (size < 2) return 0;
  unsigned test = data[0] % c.tests.size();
  pbt::T t; t.mode = pbt::T::BYTES; t.bytes = data + 1; t.nbytes = size - 1;
  try { c.tests[test].fn(t); }
  catch (pbt::Failure& f) { fprintf(stderr, "FAILED: %s\n", f.msg.c_str()); abort(); }
  catch (pbt::Known&) {} catch (pbt::Discard&) {}
  return 0;
}
#else
int main(int argc, char** argv) { pbt::Runner r(pbt_check()); return r.main(argc, argv); }
#endif
