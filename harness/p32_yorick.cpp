// P32: the Yorick plug-in gives what the C interface gives.
#ifdef __SSE2__
#include <immintrin.h>
#endif
#include "optsim.hpp"
#include "powell.hpp"
#include "optimpack-linalg.h"
#include <sys/resource.h>
#include <cfenv>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>

// ---------------------------------------------------------------- the coprocess
struct Yorick {
  pid_t pid = 0, owner = 0; int in = -1, out = -1; std::string dir, base;
  static std::string exe_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? n : 0); return s.substr(0, s.rfind('/')); }
  static std::string here() { std::string s = __FILE__; return s.substr(0, s.rfind('/')); }
  double cpu() const {
    std::ifstream f("/proc/" + std::to_string(pid) + "/stat"); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t p = s.rfind(')'); if (p == std::string::npos) return 0;
    std::istringstream q(s.substr(p + 2)); std::string w; long u = 0, k = 0; for (int i = 0; i < 11; ++i) q >> w; q >> u >> k; return (double)(u + k) / sysconf(_SC_CLK_TCK);
  }
  void stop() { if (pid > 0 && owner == getpid()) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } pid = 0; }
  void begin(T& t) {
    if (pid > 0 && owner == getpid()) return;
    if (pid > 0) { close(in); close(out); pid = 0; }
    dir = exe_dir() + "/yorick"; base = exe_dir() + "/y" + std::to_string(getpid()); owner = getpid();
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw pbt::Discard();
    pid_t me = getpid();
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1);
      dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2);
      struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      std::ifstream pf(dir + "/preload"); std::string pre; std::getline(pf, pre);
      if (!pre.empty()) setenv("LD_PRELOAD", pre.c_str(), 1);
      setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:handle_segv=2:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1", 1);
      if (chdir(dir.c_str())) _exit(1);
      execlp("yorick", "yorick", "-q", (char*)nullptr); _exit(127);
    }
    close(a[0]); close(b[1]); in = a[1]; out = b[0];
    std::string s = "set_path,\"" + dir + "/:\"+get_path();plug_dir,[\"" + dir + "/\"];include,\"" + dir + "/opky.i\",1;include,\"" + here() + "/p32_yorick.i\",1;write,format=\"%s\\n\",\"VPDONE\"\n";
    std::string txt; if (!talk(s, txt, t)) t.fail("Yorick cannot load the plug-in: %s", txt.c_str());
  }
  // returns false on an error outside of the case
  bool talk(const std::string& line, std::string& txt, T& t) {
    size_t k = 0; while (k < line.size()) { ssize_t w = write(in, line.data() + k, line.size() - k); if (w <= 0) break; k += w; }
    double c0 = cpu(), w0 = pbt::now(); txt.clear();
    for (;;) {
      struct pollfd p = {out, POLLIN, 0}; int r = poll(&p, 1, 1000);
      if (r > 0) {
        char b[4096]; ssize_t n = read(out, b, sizeof b);
        if (n <= 0) { int st = 0; waitpid(pid, &st, 0); close(in); close(out); pid = 0; t.fail("Yorick ended with status %#x: %.900s", st, txt.size() > 1500 ? txt.substr(0, 900).c_str() : txt.c_str()); }
        txt.append(b, n);
        if (txt.find("VPDONE\n") != std::string::npos) return true;
        if (txt.find("To enter debug mode") != std::string::npos || txt.find("SYNTAX:") != std::string::npos) { stop(); return false; }
        continue;
      }
      if (cpu() - c0 > 15) { stop(); t.fail("Yorick does not answer: %.400s", txt.c_str()); }
      if (pbt::now() - w0 > 150) { stop(); throw pbt::Discard(); }
    }
  }
};
static Yorick Y;

// ---------------------------------------------------------------- a case
struct Case {
  std::string fns, s; dvec data, want; std::vector<std::pair<size_t, std::string>> marks; bool error = false;   // error: the script must end with an error
  static std::string num(long v) { return std::to_string(v); }
  long put(const dvec& v) { long k = (long)data.size(); data.insert(data.end(), v.begin(), v.end()); return k; }
  std::string lit(double v) { return "vpD(" + num(put({v}) + 1) + ")"; }
  void line(const std::string& q) { s += q; s += "\n"; }
  void mark(const std::string& w) { marks.emplace_back(want.size(), w); }
  void nil(const std::string& e) { out(e); want.push_back(0); }
  void out(const std::string& e) { mark(e); line("vpo," + e + ";"); }
  void i(const std::string& e, long v) { out(e); want.insert(want.end(), {1, 0, (double)v}); }
  void l(const std::string& e, long v) { out(e); want.insert(want.end(), {2, 0, (double)v}); }
  void d(const std::string& e, double v) { out(e); want.insert(want.end(), {4, 0, v}); }
  void str(const std::string& e, const char* v) { out(e); if (!v) { want.push_back(6); return; } want.insert(want.end(), {5, (double)strlen(v)}); for (; *v; ++v) want.push_back((double)(unsigned char)*v); }
  void arr(const std::string& e, int type, const std::vector<long>& dims, const dvec& v) { out(e); want.insert(want.end(), {(double)type, (double)dims.size()}); for (long q : dims) want.push_back((double)q); want.insert(want.end(), v.begin(), v.end()); }
  // the statement raises an error
  int nerr = 0;
  void refuses(const std::string& stmt, const std::string& args) {
    std::string n = "vp_e" + num(nerr++); fns += "func " + n + "(" + args + ")\n{\n  if (catch(-1)) return 1n;\n  " + stmt + ";\n  return 0n;\n}\n";
    std::string call = args; std::string q; for (char ch : call) if (ch != '&') q += ch;
    i(n + "(" + q + ")", 1); marks.back().second = "error of " + stmt;
  }
  void run(T& t) {
    Y.begin(t);
    std::string f = Y.base + ".i", din = Y.base + ".in", dout = Y.base + ".out"; unlink(dout.c_str());
    { std::ofstream o(f); o << fns << "func vp_case\n{\n  extern vpB, vpR, vpX, vpM, vpDims, vpType;\n" << s << "}\n"; }
    { std::ofstream o(din, std::ios::binary); o.write((const char*)data.data(), (std::streamsize)(data.size() * 8)); }
    std::string txt, line = "vp_run,\"" + f + "\",\"" + din + "\"," + num((long)data.size()) + ",\"" + dout + "\"\n";
    t.note("script: %.900s", s.c_str());
    if (!Y.talk(line, txt, t)) t.fail("Yorick: %.600s", txt.c_str());
    size_t e = txt.find("VPERR:"); std::string err = e == std::string::npos ? "" : txt.substr(e + 6, txt.find('\n', e) - e - 6);
    dvec got; { std::ifstream o(dout, std::ios::binary); std::string b((std::istreambuf_iterator<char>(o)), std::istreambuf_iterator<char>()); got.resize(b.size() / 8); if (!got.empty()) memcpy(got.data(), b.data(), got.size() * 8); }
    size_t k = 0; while (k < got.size() && k < want.size() && same_bits(got[k], want[k])) ++k;
    if (k < got.size() && k < want.size()) {
      std::string m = "?"; size_t o = 0; for (auto& q : marks) if (q.first <= k) { m = q.second; o = q.first; }
      t.fail("%s: element %zu is %.17g instead of %.17g", m.c_str(), k - o, got[k], want[k]);
    }
    if (error != !err.empty()) t.fail(error ? "an error is expected" : "unexpected error: %s", err.c_str());
    if (got.size() != want.size()) t.fail("%zu values are produced instead of %zu", got.size(), want.size());
  }
};
static std::string dimlist(const std::vector<long>& d) { std::string s = "[" + std::to_string(d.size()); for (long q : d) s += "," + std::to_string(q); return s + "]"; }
static std::vector<long> random_dims(T& t, long& n) {
  std::vector<long> d; if (t.chance(1, 30)) {   // many dimensions or a large one
    if (t.flag()) d = {t.range(11, 150)}; else { int big = 0; for (long r = t.range(4, 10); r > 0; --r) { long q = big < 3 && t.chance(1, 4) ? 2 : 1; big += q > 1; d.push_back(q); } }
    n = 1; for (long q : d) n *= q; return d;
  }
  switch (t.weighted({5, 2, 1, 1})) {
    case 0: d = {t.small(1, 10)}; break; case 1: d = {t.range(1, 4), t.range(1, 3)}; break; case 2: d = {t.range(1, 2), t.range(1, 3), t.range(1, 2)}; break; default: break; }
  n = 1; for (long q : d) n *= q; return d;
}
// Yorick runs with subnormal numbers flushed to zero: so does this program.
static struct FlushSubnormals { FlushSubnormals() {
#ifdef __SSE2__
  _mm_setcsr(_mm_getcsr() | 0x8040);
#endif
} } flush_subnormals;
struct Fe { bool bad = false; void begin() { feclearexcept(FE_ALL_EXCEPT); } void end() { if (fetestexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW)) throw pbt::Discard(); } };
static bool finite_all(const dvec& v) { for (double q : v) if (!std::isfinite(q)) return false; return true; }

// ---------------------------------------------------------------- optimizers
struct Setup {
  bool single = false, nlcg = false, blmvm = false, invalid = false; long n = 1; std::vector<long> dims; opk_nlcg_options no; opk_vmlmb_options vo; std::string keys;
  int lk = 0, uk = 0; dvec lo, hi; double slo = 0, shi = 0; std::vector<float> flo, fhi; opk_optimizer* opt = nullptr; std::string prep, after; Prob p; bool flags_given = false;
  ~Setup() { if (opt) opk_destroy_optimizer(opt); }
  int type() const { return single ? 3 : 4; }
  double el(double v) const { return single ? (double)(float)v : v; }
  void make(T& t, Case& c, bool minimize) {
    dims = random_dims(t, n); single = t.chance(1, 3); int m = (int)t.draw(2); nlcg = m == 1; blmvm = m == 2;
    opk_get_nlcg_default_options(&no); opk_get_vmlmb_default_options(&vo); vo.blmvm = blmvm ? OPK_TRUE : OPK_FALSE;
    p.make(t, (int)n);
    auto key = [&](const char* name, double* a, double* b, double v) { if (t.chance(1, 3)) { if (a) *a = v; if (b) *b = v; if (v == floor(v) && fabs(v) < 1e6 && t.flag()) keys += std::string(",") + name + "=" + std::to_string((long)v); else keys += std::string(",") + name + "=" + c.lit(v); } else if (t.chance(1, 6)) keys += std::string(",") + name + "=[]"; };
    bool bad = !minimize && t.chance(1, 12); int which = (int)t.draw(3);
    key("delta", &no.delta, &vo.delta, bad && which == 0 ? t.of({0.0, -1.0}) : t.of({0.05, 0.5, 1e-3, 1.0}));
    key("epsilon", &no.epsilon, &vo.epsilon, bad && which == 1 ? t.of({1.0, -0.5}) : t.of({0.0, 1e-3, 0.1, 0.5}));
    key("gatol", &no.gatol, &vo.gatol, bad && which == 2 ? -1.0 : t.of({0.0, 1e-3, 0.1, 1.0}));
    key("grtol", &no.grtol, &vo.grtol, bad && which == 3 ? -1.0 : t.of({1e-6, 0.0, 1e-2, 0.3}));
    key("stpmin", &no.stpmin, &vo.stpmin, t.of({1e-20, 1e-3, 0.0, 0.1}));
    key("stpmax", &no.stpmax, &vo.stpmax, t.of({1e20, 2.0, 1.0, 1.5}));
    if (single || t.chance(1, 4)) keys += std::string(",single=") + (single ? t.of({"1n", "1", "\"yes\""}) : t.of({"0", "[]", "0n"}));
    if (nlcg) {
      if (t.flag()) { no.flags = (unsigned)(1 + t.draw(7)); if (t.flag()) no.flags |= OPK_NLCG_POWELL; if (t.flag()) no.flags |= OPK_NLCG_SHANNO_PHUA; if (!minimize && t.chance(1, 20)) no.flags = 0;
        static const char* nm[] = {"FLETCHER_REEVES", "HESTENES_STIEFEL", "POLAK_RIBIERE_POLYAK", "FLETCHER", "LIU_STOREY", "DAI_YUAN", "PERRY_SHANNO", "HAGER_ZHANG"};
        if (no.flags && t.flag()) keys += std::string(",flags=OPK_NLCG_") + nm[(no.flags & 15) - 1] + (no.flags & OPK_NLCG_POWELL ? "|OPK_NLCG_POWELL" : "") + (no.flags & OPK_NLCG_SHANNO_PHUA ? "|OPK_NLCG_SHANNO_PHUA" : ""); else keys += ",flags=" + std::to_string(no.flags); }
      if (t.chance(1, 3)) { double v = t.of({0.0, -5.0, -100.0}) + p.off; no.fmin = v; no.fmin_given = OPK_TRUE; keys += ",fmin=" + c.lit(v); } else if (t.chance(1, 8)) keys += ",fmin=[]";
      if (minimize) keys += t.of({",nlcg=1", ",nlcg=1n"});
      invalid = opk_check_nlcg_options(&no) != OPK_SUCCESS;
    } else {
      if (t.flag()) { vo.mem = t.range(1, 12); if (!minimize && t.chance(1, 20)) vo.mem = -(long)t.draw(1); keys += ",mem=" + std::to_string(vo.mem); }
      for (int up = 0; up < 2; ++up) {
        int& k = up ? uk : lk; dvec& v = up ? hi : lo; double& sc = up ? shi : slo; std::string key = up ? ",upper=" : ",lower=", var = up ? "hi" : "lo"; std::vector<float>& fv = up ? fhi : flo;
        k = (int)t.weighted({4, 2, 4, 1});
        if (k == 0) { if (t.chance(1, 4)) keys += key + "[]"; continue; }
        if (k == 3) k = dims.empty() ? 1 : 2;
        if (dims.empty()) k = 1;
        double shift = up ? 2.0 : -2.0;
        bool isint = t.flag();
        if (k == 1) { sc = isint ? shift + (double)t.range(-1, 2) : shift + t.sym(3); if (lk == 1 && up && sc < slo) sc = slo + 1; keys += key + (isint ? std::to_string((long)sc) + t.of({"", "n", "."}) : c.lit(sc)); }
        else {
          v.resize(n); for (long q = 0; q < n; ++q) { v[q] = isint ? shift + (double)t.range(-1, 1) : shift + t.sym(1.5); if (up && lk == 2 && v[q] < lo[q]) v[q] = lo[q] + (double)t.range(0, 1); if (up && lk == 1 && v[q] < slo) v[q] = slo + 1; }
          const char* ty = isint ? t.of({"long", "int", "short", "double", "float"}) : t.of({"double", "double", "float"});
          if (!strcmp(ty, "float")) for (auto& q : v) q = (float)q;
          std::string e = std::string("vpa(") + ty + "," + dimlist(dims) + "," + std::to_string(c.put(v)) + ")";
          if (t.flag()) { prep += var + "=" + e + ";\n"; after += var + "=[];\n"; keys += key + var; } else keys += key + e;
          for (auto& q : v) q = el(q);
          fv.assign(v.begin(), v.end());
        }
      }
      for (long q = 0; q < n; ++q) { double a = lk == 0 ? -INFINITY : lk == 1 ? slo : lo[q], b = uk == 0 ? INFINITY : uk == 1 ? shi : hi[q]; if (el(a) > el(b) || a > b) throw pbt::Discard(); }
      if (minimize && blmvm) keys += ",blmvm=1";
      invalid = opk_check_vmlmb_options(&vo) != OPK_SUCCESS || vo.mem < 1;
    }
  }
  void create() {
    auto bt = [&](int k) { return k == 0 ? OPK_BOUND_NONE : k == 1 ? OPK_BOUND_SCALAR_DOUBLE : single ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE; };
    void* la = lk == 0 ? nullptr : lk == 1 ? (void*)&slo : single ? (void*)flo.data() : (void*)lo.data();
    void* ua = uk == 0 ? nullptr : uk == 1 ? (void*)&shi : single ? (void*)fhi.data() : (void*)hi.data();
    opt = opk_new_optimizer(nlcg ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, nlcg ? (void*)&no : (void*)&vo, single ? OPK_FLOAT : OPK_DOUBLE, n, bt(lk), la, bt(uk), ua, nullptr);
  }
  const char* fn() const { return nlcg ? "opk_nlcg" : blmvm ? "opk_blmvm" : "opk_vmlmb"; }
};
// arrays of either type given to the C interface
struct Arr {
  bool single; std::vector<float> f; dvec d; explicit Arr(bool s, const dvec& v) : single(s), f(v.begin(), v.end()), d(v) { if (s) d.assign(f.begin(), f.end()); }
  void* p() { return single ? (void*)f.data() : (void*)d.data(); }
  const dvec& v() { if (single) d.assign(f.begin(), f.end()); return d; }
};
static dvec start_point(T& t, const Setup& u) { dvec x(u.n); for (auto& q : x) q = t.flag() ? (double)t.range(-3, 3) : u.el(t.sym(5)); return x; }
static void members(T& t, Case& c, Setup& u, bool all) {
  auto want = [&](unsigned k) { return all || t.chance(1, k); };
  char b[200];
  if (want(3)) c.i(t.flag() ? "opt.task" : "opk_get_task(opt)", opk_get_task(u.opt));
  if (want(3)) c.i(t.flag() ? "opt.status" : "opk_get_status(opt)", opk_get_status(u.opt));
  if (want(6)) c.str(t.flag() ? "opt.reason" : "opk_get_reason(opt.status)", opk_get_reason(opk_get_status(u.opt)));
  if (want(3)) c.l("opt.iterations", opk_get_iterations(u.opt));
  if (want(3)) c.l("opt.evaluations", opk_get_evaluations(u.opt));
  if (want(3)) c.l("opt.restarts", opk_get_restarts(u.opt));
  if (want(3)) c.d("opt.step", opk_get_step(u.opt));
  if (want(3)) c.d("opt.gnorm", opk_get_gnorm(u.opt));
  if (want(12)) { opk_get_name(b, sizeof b, u.opt); c.str("opt.name", b); }
  if (want(12)) { opk_get_description(b, 100, u.opt); c.str("opt.description", b); }
  if (want(8)) c.l("opt.size", u.n);
  if (want(8)) { dvec d(1, (double)u.dims.size()); for (long q : u.dims) d.push_back((double)q); c.arr("opt.dims", 2, {(long)d.size()}, d); }
  if (want(8)) c.i("opt.single!=0", u.single);
  if (want(8)) { if (u.lk == 0) c.nil("opt.lower"); else if (u.lk == 1) c.d("opt.lower", u.slo); else c.arr("opt.lower", u.type(), u.dims, u.lo); }
  if (want(8)) { if (u.uk == 0) c.nil("opt.upper"); else if (u.uk == 1) c.d("opt.upper", u.shi); else c.arr("opt.upper", u.type(), u.dims, u.hi); }
  if (want(30)) c.nil("opt.foo");
}
static void session(T& t) {
  Case c; Setup u; u.make(t, c, false); u.create();
  if ((u.opt == nullptr) != u.invalid) throw pbt::Discard();
  c.line(u.prep);
  std::string dl = u.dims.empty() ? t.of({"[]", "[0]"}) : u.dims.size() == 1 && t.flag() ? std::to_string(u.dims[0]) : dimlist(u.dims);
  std::string create = std::string(u.fn()) + "(" + dl + u.keys + ")";
  if (t.chance(1, 3)) create = std::string(u.fn()) + "(" + (u.keys.empty() ? "" : u.keys.substr(1) + ",") + dl + ")";
  if (u.invalid) { std::string args = ""; c.line("opt=" + create + ";"); c.error = true; c.run(t); t.nontrivial(); t.label("invalid option"); return; }
  c.line("opt=" + create + ";"); c.line(u.after);
  if (t.flag()) c.line("junk=array(1e9,1000);junk=[];");
  Fe fe; dvec x0 = start_point(t, u); Arr x(u.single, x0);
  std::string ty = u.single ? "float" : "double", dm = dimlist(u.dims);
  auto yarr = [&](const dvec& v) { return "vpa(" + ty + "," + dm + "," + std::to_string(c.put(v)) + ")"; };
  c.line("x=" + yarr(x.v()) + ";");
  if (t.chance(1, 8)) members(t, c, u, true);
  fe.begin(); opk_task task = opk_start(u.opt, x.p()); fe.end();
  c.i("opk_start(opt,x)", task); c.arr("x", u.type(), u.dims, x.v());
  int steps = (int)t.small(1, 30), k = 0; double f = 0; dvec g(u.n, 0.0); Arr ga(u.single, g); bool have = false;
  for (; k < steps; ++k) {
    if (t.chance(1, 25)) {
      c.line("x=" + yarr(start_point(t, u)) + ";"); x = Arr(u.single, dvec(c.data.end() - u.n, c.data.end()));
      fe.begin(); task = opk_start(u.opt, x.p()); fe.end(); c.i("opk_start(opt,x)", task); c.arr("x", u.type(), u.dims, x.v());
    }
    if (t.chance(1, 25)) {   // refused calls change nothing
      std::string other = u.single ? "double" : "float"; dvec z(u.n, 1.0);
      switch (t.draw(4)) {
        case 0: c.line("w=vpa(" + other + "," + dm + "," + std::to_string(c.put(z)) + ");"); c.refuses("opk_iterate,opt,w,0.0,w", "opt,&w"); break;
        case 1: { auto d2 = u.dims; if (d2.empty()) d2 = {1}; else if (t.flag() || d2.size() >= 10) d2.back()++; else d2.push_back(1); long m = 1; for (long q : d2) m *= q; c.line("w=vpa(" + ty + "," + dimlist(d2) + "," + std::to_string(c.put(dvec(m, 0.0))) + ");"); c.refuses(t.of({"opk_start,opt,w", "opk_iterate,opt,w,0.0,w"}), "opt,&w"); break; }
        case 2: c.refuses("opk_start,opt", "opt"); break;
        case 3: c.refuses("opk_iterate,3,4,5,6", "opt"); break;
        default: c.refuses("opk_iterate,opt,x,1.0", "opt,&x");
      }
    }
    if (task == OPK_TASK_COMPUTE_FG) {
      f = u.p.fg(x.v(), g); ga = Arr(u.single, g); have = true; if (!std::isfinite(f) || !finite_all(ga.v())) throw pbt::Discard();
      c.line("g=" + yarr(ga.v()) + ";f=" + c.lit(f) + ";");
    } else if ((task != OPK_TASK_NEW_X && !t.chance(1, 3)) || !have) break;
    fe.begin(); task = opk_iterate(u.opt, x.p(), f, ga.p()); fe.end();
    c.i("opk_iterate(opt,x,f,g)", task); c.arr("x", u.type(), u.dims, x.v());
    if (t.chance(1, 5)) c.arr("g", u.type(), u.dims, ga.v());
    members(t, c, u, false);
  }
  members(t, c, u, true);
  if (t.chance(1, 3)) c.line("y=x;opt2=opt;opt=[];"), c.l("opt2.evaluations", opk_get_evaluations(u.opt));
  c.run(t); t.nontrivial(k >= 3); t.label(u.fn()); if (u.dims.empty()) t.label("scalar variable");
}
static void minimize(T& t) {
  Case c; Setup u; u.make(t, c, true); u.create(); if (!u.opt || u.invalid) throw pbt::Discard();
  dvec x0 = start_point(t, u); bool ints = true; for (double q : x0) if (q != floor(q)) ints = false;
  long maxeval = t.flag() ? (long)t.small(0, 40) : -1, maxiter = t.flag() ? (long)t.small(0, 30) : -1; bool useref = u.dims.empty() || t.flag();
  if (maxeval >= 0) u.keys += ",maxeval=" + std::to_string(maxeval);
  if (maxiter >= 0) u.keys += ",maxiter=" + std::to_string(maxiter);
  if (maxeval == 0) ; else if (t.chance(1, 10)) u.keys += ",verb=" + std::to_string(t.draw(3)); else if (t.chance(1, 10)) u.keys += ",verb=1,output=\"" + Yorick::exe_dir() + "/yorick.log\"";
  Fe fe; Arr x(u.single, x0), g(u.single, dvec(u.n, 0.0)), bx = x, bg = g; double f = 0, bf = 0; bool have = false, saved = false; dvec rec; long nr = 0;
  fe.begin(); opk_task task = opk_start(u.opt, x.p()); fe.end();
  for (;;) {
    if (task == OPK_TASK_COMPUTE_FG) {
      if (maxeval >= 0 && opk_get_evaluations(u.opt) >= maxeval) { if (saved) { x = bx; g = bg; f = bf; } break; }
      dvec gg; f = u.p.fg(x.v(), gg); g = Arr(u.single, gg); have = true; if (!std::isfinite(f) || !finite_all(g.v())) throw pbt::Discard();
      rec.insert(rec.end(), x.v().begin(), x.v().end()); rec.push_back(f); rec.insert(rec.end(), g.v().begin(), g.v().end()); if (++nr > 400) throw pbt::Discard();
    } else if (task == OPK_TASK_NEW_X) {
      saved = true; bx = x; bg = g; bf = f;
      if (maxiter >= 0 && opk_get_iterations(u.opt) >= maxiter) break;
    } else if (task == OPK_TASK_FINAL_X || task == OPK_TASK_WARNING) break;
    else throw pbt::Discard();
    fe.begin(); task = opk_iterate(u.opt, x.p(), f, g.p()); fe.end();
  }
  std::string ty = u.single ? "float" : "double", dm = dimlist(u.dims);
  c.line("vpB=" + std::to_string(c.put(rec)) + ";vpR=" + std::to_string(nr) + ";vpX=" + std::to_string(u.n) + ";vpM=vpX;vpDims=dimsof(array(0," + (u.dims.empty() ? "[0]" : dm) + "));vpType=" + ty + ";");
  c.line(u.prep);
  const char* xt = ints ? t.of({"double", "float", "long", "int"}) : u.single ? t.of({"double", "float"}) : "double";
  c.line(std::string("x0=vpa(") + xt + "," + dm + "," + std::to_string(c.put(x0)) + ");fx=gx=[];");
  c.line("x=opk_minimize(" + std::string(useref ? "vp_fgr" : "vp_fg") + ",x0,fx,gx" + u.keys + ");");
  c.arr("x", u.type(), u.dims, x.v());
  if (have) { c.d("fx", f); c.arr("gx", u.type(), u.dims, g.v()); } else c.nil("fx");
  c.arr("x0", !strcmp(xt, "double") ? 4 : !strcmp(xt, "float") ? 3 : !strcmp(xt, "long") ? 2 : 1, u.dims, x0);
  c.run(t); t.nontrivial(nr >= 3); t.label(maxeval >= 0 && task == OPK_TASK_COMPUTE_FG ? "stopped by the number of evaluations" : task == OPK_TASK_NEW_X ? "stopped by the number of iterations" : task == OPK_TASK_FINAL_X ? "converged" : "warning");
}

// ---------------------------------------------------------------- Powell's methods
struct Ctx {
  bool cob; newuoa_context* w = nullptr; cobyla_context* k = nullptr;
  ~Ctx() { if (w) newuoa_delete(w); if (k) cobyla_delete(k); }
  void create(bool c, long n, long q, double rb, double re, long ip, long mf) { cob = c; if (c) k = cobyla_create(n, q, rb, re, ip, mf); else w = newuoa_create(n, q, rb, re, ip, mf); }
  bool ok() const { return w || k; }
  int iterate(double f, double* x, double* con) { return cob ? cobyla_iterate(k, f, x, con) : newuoa_iterate(w, f, x); }
  int restart() { return cob ? cobyla_restart(k) : newuoa_restart(w); }
  int status() const { return cob ? cobyla_get_status(k) : newuoa_get_status(w); }
  long nevals() const { return cob ? cobyla_get_nevals(k) : newuoa_get_nevals(w); }
  double rho() const { return cob ? cobyla_get_rho(k) : newuoa_get_rho(w); }
  const char* reason() const { return cob ? cobyla_reason((cobyla_status)status()) : newuoa_reason((newuoa_status)status()); }
  int go() const { return cob ? COBYLA_ITERATE : NEWUOA_ITERATE; }
  int done() const { return cob ? COBYLA_SUCCESS : NEWUOA_SUCCESS; }
};
static void cmembers(T& t, Case& c, Ctx& x, long n, long q, bool all) {
  auto want = [&](unsigned k) { return all || t.chance(1, k); };
  if (want(4)) c.i("ctx.status", x.status());
  if (want(4)) c.l("ctx.nevals", x.nevals());
  if (want(4)) c.d("ctx.rho", x.rho());
  if (want(8)) c.str(t.flag() ? "ctx.reason" : x.cob ? "cobyla_reason(ctx.status)" : "newuoa_reason(ctx.status)", x.reason());
  if (want(8)) c.l("ctx.n", n);
  if (want(8)) c.l(x.cob ? "ctx.m" : "ctx.npt", q);
}
static void context(T& t) {
  Case c; bool cob = t.flag(); std::string pre = cob ? "cobyla_" : "newuoa_"; std::vector<long> dims; long n; dims = random_dims(t, n); if (n > 8) throw pbt::Discard();
  long m = cob && t.flag() ? (long)t.range(1, 4) : 0, npt = n + 2 + (long)t.draw((uint64_t)std::max<long>(0, (n + 1) * (n + 2) / 2 - n - 2)); if (t.flag() && 2 * n + 1 >= n + 2) npt = 2 * n + 1;
  long q = cob ? m : npt; double rb = t.loguniform(0.1, 2), re = rb * t.loguniform(1e-5, 1); long mf = t.of({1000l, 1000l, (long)t.small(1, 60)});
  bool bad = t.chance(1, 12); if (bad) switch (t.draw(4)) { case 0: q = cob ? -1 : n + 1; break; case 1: if (!cob) q = (n + 1) * (n + 2) / 2 + 1; else q = -3; break; case 2: rb = re / 2; break; case 3: re = t.of({0.0, -1.0}); break; default: mf = 0; }
  Ctx x; x.create(cob, n, q, rb, re, 0, mf);
  std::string args = std::to_string(n) + "," + std::to_string(q) + "," + c.lit(rb) + "," + c.lit(re) + ",0," + std::to_string(mf);
  if (!x.ok()) { c.line("ctx=" + pre + "create(" + args + ");"); c.error = true; c.run(t); t.nontrivial(); t.label("refused context"); return; }
  c.line("ctx=" + pre + "create(" + args + ");");
  cmembers(t, c, x, n, q, t.flag());
  Fn f = random_fn(t, n, false); if (cob) random_constraints(t, f, m);
  dvec v(n); bool ints = t.flag(); for (auto& e : v) e = ints ? (double)t.range(-3, 3) : t.sym(4);
  const char* xt = ints ? t.of({"double", "long", "int", "float"}) : "double";
  c.line(std::string("x=vpa(") + xt + "," + dimlist(dims) + "," + std::to_string(c.put(v)) + ");");
  int steps = (int)t.small(1, 60), k = 0; dvec con(m + 1); Fe fe;
  for (; k < steps; ++k) {
    if (t.chance(1, 30)) { c.i(pre + "restart(ctx)", x.restart()); cmembers(t, c, x, n, q, true); if (t.flag()) { for (auto& e : v) e = t.sym(4); c.line("x=vpa(double," + dimlist(dims) + "," + std::to_string(c.put(v)) + ");"); } }
    if (t.chance(1, 40)) { if (cob) { c.line("w=array(0.0," + std::to_string(m + 1) + ");"); c.refuses("cobyla_iterate,ctx,1.0,x,w", "ctx,&x,w"); } else { c.line("w=array(0.0," + std::to_string(n + 1) + ");"); c.refuses("newuoa_iterate,ctx,1.0,w", "ctx,&w"); } }
    if (t.chance(1, 40)) c.refuses(pre + "iterate,ctx,1.0,x+0.0" + (m ? ",x" : ""), "ctx,&x");
    double fx = f(v.data()); f.con(v.data(), con.data()); if (!std::isfinite(fx) || fabs(fx) > 1e100) throw pbt::Discard();
    std::string ca; if (m) ca = ",vpd(" + std::to_string(c.put(dvec(con.begin(), con.begin() + m))) + "," + std::to_string(m) + ")"; else if (cob && t.flag()) ca = ",[]";
    fe.begin(); int s = x.iterate(fx, v.data(), m ? con.data() : nullptr); fe.end();
    c.i(pre + "iterate(ctx," + c.lit(fx) + ",x" + ca + ")", s); c.arr("x", 4, dims, v);
    cmembers(t, c, x, n, q, false);
    if (s != x.go() && !t.chance(1, 3)) break;
  }
  cmembers(t, c, x, n, q, true);
  c.run(t); t.nontrivial(k >= 5); t.label(cob ? "cobyla" : "newuoa");
}
static void powell(T& t) {
  Case c; bool cob = t.flag(), mx = t.chance(1, 3); long n; std::vector<long> dims = random_dims(t, n); if (n > 6 || (!cob && n < 2)) throw pbt::Discard();
  std::string pre = cob ? "cobyla_" : "newuoa_"; long m = cob && t.flag() ? (long)t.range(1, 3) : 0; long npt = 2 * n + 1, mf = (cob ? 50 : 30) * n; std::string keys;
  if (!cob && t.flag()) { npt = n + 2 + (long)t.draw((uint64_t)((n + 1) * (n + 2) / 2 - n - 2)); keys += ",npt=" + std::to_string(npt); }
  if (t.flag()) { mf = t.of({500l, (long)t.small(1, 60)}); keys += ",maxfun=" + std::to_string(mf); }
  bool all = t.flag(); int err = (int)t.range(-1, 1); if (all) keys += t.of({",all=1", ",all=1n"}); if (err || t.flag()) keys += ",err=" + std::to_string(err); if (t.chance(1, 5)) keys += ",verb=0";
  double rb = t.loguniform(0.1, 2), re = rb * t.loguniform(1e-4, 1);
  Fn f = random_fn(t, n, false); if (f.kind == 6) f.kind = 2; if (cob) random_constraints(t, f, m);
  dvec x(n), u(n), sc(n, 1.0); bool ints = t.flag(), scaled = t.flag(); for (auto& e : x) e = ints ? (double)t.range(-3, 3) : t.sym(4); dvec x0 = x;
  if (scaled) for (auto& e : sc) e = t.flag() ? t.loguniform(0.05, 20) : (double)t.range(1, 5);
  bool scint = true; for (double e : sc) if (e != floor(e)) scint = false;
  Ctx k; k.create(cob, n, cob ? m : npt, rb, re, 0, mf); if (!k.ok()) throw pbt::Discard();
  for (long i = 0; i < n; ++i) u[i] = x[i] / sc[i];
  dvec rec, con(m + 1), bx = x, bc(m + 1); double bf = 0; long nr = 0; int s; Fe fe;
  auto record = [&]() { double v = f(x.data()); f.con(x.data(), con.data()); if (!std::isfinite(v) || fabs(v) > 1e100) throw pbt::Discard(); rec.insert(rec.end(), x.begin(), x.end()); rec.push_back(v); rec.insert(rec.end(), con.begin(), con.begin() + m); ++nr; return v; };
  do {
    double v = record(); if (nr > 1500) throw pbt::Discard();
    if (nr == 1 || (mx ? v > bf : v < bf)) { bf = v; bx = x; bc = con; }
    fe.begin(); s = k.iterate(mx ? -v : v, u.data(), m ? con.data() : nullptr); fe.end();
    for (long i = 0; i < n; ++i) x[i] = sc[i] * u[i];
  } while (s == k.go());
  double v = record(); if (m) { bf = v; bx = x; bc = con; }
  bool soft = s == k.done() || (err && (cob ? s == COBYLA_ROUNDING_ERRORS || s == COBYLA_TOO_MANY_EVALUATIONS : s == NEWUOA_ROUNDING_ERRORS || s == NEWUOA_TOO_MANY_EVALUATIONS || s == NEWUOA_STEP_FAILED));
  c.line("vpB=" + std::to_string(c.put(rec)) + ";vpR=" + std::to_string(nr) + ";vpX=" + std::to_string(n) + ";vpM=" + std::to_string(m) + ";vpDims=" + (dims.empty() ? "[0]" : dimlist(dims)) + ";vpType=double;");
  const char* xt = ints ? t.of({"double", "long", "float"}) : "double";
  c.line(std::string("x0=vpa(") + xt + "," + dimlist(dims) + "," + std::to_string(c.put(x0)) + ");");
  std::string sa; if (scaled) sa = std::string(",vpa(") + (scint ? t.of({"double", "long"}) : "double") + "," + dimlist(dims) + "," + std::to_string(c.put(sc)) + ")";
  c.line("r=" + pre + (mx ? "maximize" : "minimize") + "(vp_f," + (cob ? (m ? "vp_c," : "[],") : "") + "x0," + c.lit(rb) + "," + c.lit(re) + sa + keys + ");");
  if (!soft) { c.error = true; c.run(t); t.label("error"); t.nontrivial(nr >= 3); return; }
  if (!all) c.arr("r", 4, dims, x);
  else {
    std::string w = mx ? "max" : "min"; dvec rs(n); for (long i = 0; i < n; ++i) rs[i] = k.rho() * sc[i];
    c.d("r.f" + w, bf); c.arr("r.x" + w, 4, dims, bx); c.l("r.nevals", k.nevals()); c.i("r.status", s); c.arr("r.rho", 4, dims, rs);
    if (cob) { if (m) c.arr("r.c" + w, 4, {m}, dvec(bc.begin(), bc.begin() + m)); else c.nil("r.c" + w); }
  }
  c.arr("x0", !strcmp(xt, "double") ? 4 : !strcmp(xt, "long") ? 2 : 3, dims, x0);
  c.run(t); t.nontrivial(nr >= 5); t.label(pre + (all ? "all" : "variables"));
}

// ---------------------------------------------------------------- trust region, constants
static const char* const ytypes[] = {"double", "float", "long", "int", "short"};
static void gqt(T& t) {
  Case c; long n = t.small(1, 6); int ta = (int)t.weighted({5, 3, 1, 1}), tb = (int)t.weighted({5, 3, 1, 1}); bool packed = t.flag(), var = t.flag(), bvar = t.flag(); bool dbl = ta == 0 || tb == 0;
  dvec a(n * n), b(n); for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) { double v = ta >= 2 || t.chance(1, 4) ? (double)t.range(-4, 4) : t.sym(5); if (i == j && t.flag()) v = fabs(v) + 1; a[j * n + i] = ta == 1 || !dbl ? (double)(float)v : v; }
  for (auto& v : b) { v = tb >= 2 ? (double)t.range(-4, 4) : t.sym(5); if (tb == 1 || !dbl) v = (float)v; }
  double delta = t.loguniform(0.1, 10), rtol = 5e-2, atol = 1e-8, lam = 0, fx = 0; long itmax = 7; std::string keys; if (t.flag()) { rtol = t.loguniform(1e-6, 0.5); keys += ",rtol=" + c.lit(rtol); } if (t.flag()) { atol = t.of({0.0, 1e-4, 1e-10}); keys += ",atol=" + c.lit(atol); } if (t.flag()) { itmax = t.range(1, 30); keys += ",maxiter=" + std::to_string(itmax); }
  dvec full(n * n), pk; for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) { full[j * n + i] = i <= j ? a[j * n + i] : t.flag() ? a[i * n + j] : 7.0; if (i <= j) pk.push_back(a[j * n + i]); }
  bool scalar = n == 1 && t.flag(); int nout = (int)t.draw(4); bool lamset = nout >= 1 && t.flag(); if (lamset) lam = t.flag() ? t.uniform(0, 3) : 0;
  std::string ae = std::string("vpa(") + ytypes[ta] + "," + (scalar ? "[0]" : packed ? dimlist({n * (n + 1) / 2}) : dimlist({n, n})) + "," + std::to_string(c.put(packed ? pk : full)) + ")", be = std::string("vpa(") + ytypes[tb] + "," + (scalar ? "[0]" : dimlist({n})) + "," + std::to_string(c.put(b)) + ")";
  c.line("A=" + ae + ";b=" + be + ";l=f=it=st=[];"); if (lamset) c.line("l=" + c.lit(lam) + ";");
  std::string out; static const char* ov[] = {",l", ",f", ",it", ",st"}; for (int i = 0; i < nout; ++i) out += ov[i];
  int st; opk_index it = 0; dvec x(n); Fe fe;
  if (dbl) { dvec A = full, z(n), w1(n), w2(n); double l = lam; fe.begin(); st = opk_dgqt(n, A.data(), n, b.data(), delta, rtol, atol, itmax, &l, &fx, x.data(), &it, z.data(), w1.data(), w2.data()); fe.end(); lam = l; }
  else { std::vector<float> A(full.begin(), full.end()), bb(b.begin(), b.end()), xx(n), z(n), w1(n), w2(n); float l = (float)lam, ff = 0; fe.begin(); st = opk_sgqt(n, A.data(), n, bb.data(), (float)delta, (float)rtol, (float)atol, itmax, &l, &ff, xx.data(), &it, z.data(), w1.data(), w2.data()); fe.end(); lam = l; fx = ff; x.assign(xx.begin(), xx.end()); }
  c.arr("opk_gqtpar(" + (var ? "A" : ae) + "," + (bvar ? "b" : be) + "," + c.lit(delta) + out + keys + ")", dbl ? 4 : 3, {n}, x);
  if (nout > 0) c.d("l", lam);
  if (nout > 1) c.d("f", fx);
  if (nout > 2) c.l("it", it);
  if (nout > 3) c.i("st", st);
  auto yt = [](int k) { return k == 0 ? 4 : k == 1 ? 3 : k == 2 ? 2 : 1; };
  c.arr("A", yt(ta), scalar ? std::vector<long>{} : packed ? std::vector<long>{n * (n + 1) / 2} : std::vector<long>{n, n}, packed ? pk : full);
  c.arr("b", yt(tb), scalar ? std::vector<long>{} : std::vector<long>{n}, b);
  if (t.chance(1, 6)) { std::string bad = t.of({"opk_gqtpar(A,b,0.0)", "opk_gqtpar(A,b,-1.0)", "opk_gqtpar(A,b)", "opk_gqtpar(A,b,1.0,maxiter=0)", "opk_gqtpar(A,b,1.0,rtol=-1)", "opk_gqtpar(A,b,1.0,atol=-1)", "opk_gqtpar(array(0.0,3,2),[1.0,2.0],1.0)", "opk_gqtpar(\"a\",b,1.0)", "opk_gqtpar(A,grow([b](*),[1,2,3,4,5]),1.0)", "opk_gqtpar(A,b,1.0,foo=1)"}); c.refuses(bad, "A,b"); }
  c.run(t); t.nontrivial(n >= 2); t.label(dbl ? "double" : "float"); t.label(packed ? "packed" : var ? "variable" : "temporary");
}
static void constants(T& t) {
  Case c; struct K { const char* n; long v; };
#define C(x) {#x, (long)(x)}
  static const K ks[] = {C(OPK_TASK_ERROR), C(OPK_TASK_COMPUTE_FG), C(OPK_TASK_NEW_X), C(OPK_TASK_FINAL_X), C(OPK_TASK_WARNING), C(OPK_NLCG_FLETCHER_REEVES), C(OPK_NLCG_HESTENES_STIEFEL), C(OPK_NLCG_POLAK_RIBIERE_POLYAK), C(OPK_NLCG_FLETCHER), C(OPK_NLCG_LIU_STOREY), C(OPK_NLCG_DAI_YUAN), C(OPK_NLCG_PERRY_SHANNO), C(OPK_NLCG_HAGER_ZHANG), C(OPK_NLCG_POWELL), C(OPK_NLCG_SHANNO_PHUA), C(OPK_NLCG_DEFAULT),
    C(NEWUOA_ITERATE), C(NEWUOA_SUCCESS), C(NEWUOA_BAD_NVARS), C(NEWUOA_BAD_NPT), C(NEWUOA_BAD_RHO_RANGE), C(NEWUOA_BAD_SCALING), C(NEWUOA_ROUNDING_ERRORS), C(NEWUOA_TOO_MANY_EVALUATIONS), C(NEWUOA_STEP_FAILED), C(NEWUOA_BAD_ADDRESS), C(NEWUOA_CORRUPTED),
    C(COBYLA_ITERATE), C(COBYLA_SUCCESS), C(COBYLA_BAD_NVARS), C(COBYLA_BAD_NCONS), C(COBYLA_BAD_RHO_RANGE), C(COBYLA_BAD_SCALING), C(COBYLA_ROUNDING_ERRORS), C(COBYLA_TOO_MANY_EVALUATIONS), C(COBYLA_BAD_ADDRESS), C(COBYLA_CORRUPTED)};
#undef C
  int m = (int)t.small(1, 12);
  for (int i = 0; i < m; ++i) {
    switch (t.draw(4)) {
      case 0: { const K& k = ks[t.draw(sizeof ks / sizeof *ks - 1)]; c.i(k.n, k.v); break; }
      case 1: { std::string n = t.flag() ? ks[t.draw(sizeof ks / sizeof *ks - 1)].n : t.of({"OPK_SUCCESS", "OPK_INVALID_ARGUMENT", "OPK_WOULD_BLOCK", "OPK_FOO", "", "OPK_", "OPK_DOUBLE", "OPK_TOO_MANY_ITERATIONS"}); long v; if (opk_get_integer_constant(n.c_str(), &v) == OPK_SUCCESS) c.i("opk_get_constant(\"" + n + "\")", v); else c.nil("opk_get_constant(\"" + n + "\")"); break; }
      case 2: { long v = t.range(-40, 40); c.str("opk_get_reason(" + std::to_string(v) + ")", opk_get_reason((opk_status)v)); break; }
      case 3: { int v = (int)t.range(-20, 20); c.str("newuoa_reason(" + std::to_string(v) + "n)", newuoa_reason((newuoa_status)v)); break; }
      default: { int v = (int)t.range(-20, 20); c.str("cobyla_reason(" + std::to_string(v) + "n)", cobyla_reason((cobyla_status)v)); break; }
    }
    if (t.chance(1, 10)) c.line(t.of({"opk_init;", "newuoa_init;", "cobyla_init;"}));
  }
  c.run(t); t.nontrivial(m >= 3);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P32", "a session counts when it has 3 exchanges, a minimization when 3 points are evaluated (5 for the derivative-free methods), a trust region step when there are 2 variables", {{"session", session, 5}, {"minimize", minimize, 4}, {"context", context, 3}, {"powell", powell, 4}, {"trust-region", gqt, 2}, {"constants", constants, 1}}, 60000, 60, 30, {}};
  return c;
}
