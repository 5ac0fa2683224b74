// P27 to P29: reverse communication, equivalent formulations and arguments of the derivative-free solvers.
#include <cfenv>
#include "powell.hpp"
#if defined(CHECK_P27)
extern "C" { void vp_on(long); void vp_off(void); long vp_live(void); void vp_reset(void); long vp_failed(void); }
#endif
// Bitwise comparison of two runs.
static const char* diff(const Job& j, const Result& a, const Result& b, bool f = true) {
  static char s[200];
  size_t n = std::min(a.y.size(), b.y.size());
  for (size_t k = 0; k < n; ++k) for (long i = 0; i < j.n; ++i) if (a.xs[k][i] != b.xs[k][i]) { snprintf(s, sizeof s, "evaluation %zu: variable %ld is %.17g instead of %.17g", k, i, b.xs[k][i], a.xs[k][i]); return s; }
  if (a.y.size() != b.y.size()) { snprintf(s, sizeof s, "%zu evaluations instead of %zu", b.y.size(), a.y.size()); return s; }
  if (a.status != b.status) { snprintf(s, sizeof s, "status %d instead of %d", b.status, a.status); return s; }
  for (long i = 0; i < j.n; ++i) if (a.xend[i] != b.xend[i]) { snprintf(s, sizeof s, "final variable %ld is %.17g instead of %.17g", i, b.xend[i], a.xend[i]); return s; }
  if (f && a.f != b.f && (j.solver != BOBYQA || a.status == 0)) { snprintf(s, sizeof s, "final value is %.17g instead of %.17g", b.f, a.f); return s; }
  return nullptr;
}
static void check_run(T& t, const Job& j, const Result& r) {
  if (r.bad) t.fail("%s", r.bad);
  if (r.runaway) t.fail("%ld evaluations and still not ended", j.cap);
  if (!running(j, r.status)) t.fail("returned %d (%s)", r.status, reason(j, r.status));
}
static Fn any_fn(T& t, Solver s) {
  Fn f = random_fn(t, t.dim(s == COBYLA ? 1 : 2, 5, 12), s == BOBYQA);
  if (s == COBYLA) random_constraints(t, f, some_constraints(t, 4));
  return f;
}

#if defined(CHECK_P27)
// Reverse communication runs the same algorithm as the direct call.
struct Rev {
  Job j; Fn f; Result ref; newuoa_context* nw = nullptr; cobyla_context* cb = nullptr;
  dvec x, c, rhos; long k = 0; int st = 1; bool over = false; int laps = 0;
  Rev() {}
  Rev(const Rev&) = delete;
  int get_status() const { return nw ? (int)newuoa_get_status(nw) : (int)cobyla_get_status(cb); }
  long nevals() const { return nw ? (long)newuoa_get_nevals(nw) : (long)cobyla_get_nevals(cb); }
  double rho() const { return nw ? newuoa_get_rho(nw) : cobyla_get_rho(cb); }
  int restart() { return nw ? (int)newuoa_restart(nw) : (int)cobyla_restart(cb); }
  int iterate(double v, double* px, double* pc) { return nw ? (int)newuoa_iterate(nw, v, px) : (int)cobyla_iterate(cb, v, px, pc); }
  ~Rev() { newuoa_delete(nw); cobyla_delete(cb); }
};
static const int ITERATE = 1;
static int bad_address(const Rev& r) { return r.nw ? (int)NEWUOA_BAD_ADDRESS : (int)COBYLA_BAD_ADDRESS; }
static int corrupted(const Rev& r) { return r.nw ? (int)NEWUOA_CORRUPTED : (int)COBYLA_CORRUPTED; }

static void fresh(T& t, Rev& r, const char* when) {
  if (r.get_status() != ITERATE) t.fail("%s: status is %d", when, r.get_status());
  if (r.nevals() != 0) t.fail("%s: %ld evaluations reported", when, r.nevals());
  if (r.rho() != 0) t.fail("%s: the radius is %g instead of 0", when, r.rho());
  r.k = 0; r.over = false; r.rhos.clear(); r.x = r.j.x0;
}
static void setup(T& t, Rev& r) {
  r.j.solver = t.flag() ? COBYLA : NEWUOA; r.f = any_fn(t, r.j.solver); random_job(t, r.j, r.f, false); r.j.plain = true;
  if (t.chance(1, 3)) r.j.rhoend = r.j.rhobeg * t.uniform(0.2, 1);   // short runs: the last steps are also the first ones
  r.j.maxfun = std::max(r.j.maxfun, 1l); note_job(t, r.j);
  r.ref = run_solver(r.j); check_run(t, r.j, r.ref);
  vp_on(0);
  if (r.j.solver == NEWUOA) r.nw = newuoa_create(r.j.n, r.j.npt, r.j.rhobeg, r.j.rhoend, 0, r.j.maxfun);
  else r.cb = cobyla_create(r.j.n, r.j.m, r.j.rhobeg, r.j.rhoend, 0, r.j.maxfun);
  vp_off();
  if (!r.nw && !r.cb) t.fail("no context created");
  fresh(t, r, "creation");
}
static void step(T& t, Rev& r) {
  const char* sn = solver_name[r.j.solver];
  if (r.k >= (long)r.ref.y.size()) t.fail("%s: more evaluations requested than by the direct call (%zu)", sn, r.ref.y.size());
  for (long i = 0; i < r.j.n; ++i) if (r.x[i] != r.ref.xs[r.k][i]) t.fail("%s: evaluation %ld requested for another point (variable %ld is %.17g instead of %.17g)", sn, r.k, i, r.x[i], r.ref.xs[r.k][i]);
  r.c.assign(r.j.m + 1, 0.0); r.f.con(r.x.data(), r.c.data()); dvec c0 = r.c; double v = r.f(r.x.data());
  { // exact lengths
    Buf<double> px(r.j.n), pc(r.j.m); std::copy(r.x.begin(), r.x.end(), px.p); for (long i = 0; i < r.j.m; ++i) pc.p[i] = r.c[i];
    r.st = r.iterate(v, px.p, r.j.m || t.flag() ? pc.p : nullptr);
    for (long i = 0; i < r.j.m; ++i) if (pc.p[i] != c0[i]) t.fail("%s: the given constraints have been modified", sn);
    r.x.assign(px.p, px.p + r.j.n);
  }
  ++r.k; double rho = r.rho();
  if (r.get_status() != r.st) t.fail("%s: status is %d, %d returned", sn, r.get_status(), r.st);
  if (r.nevals() != r.k) t.fail("%s: %ld evaluations reported after %ld", sn, r.nevals(), r.k);
  if (!(rho >= r.j.rhoend && rho <= r.j.rhobeg)) t.fail("%s: radius is %g after %ld evaluations, not in [%g,%g]", sn, rho, r.k, r.j.rhoend, r.j.rhobeg);
  if (!r.rhos.empty() && rho > r.rhos.back()) t.fail("%s: radius increases", sn);
  r.rhos.push_back(rho);
  if (r.cb && r.st == ITERATE && cobyla_get_last_f(r.cb) != v) t.fail("last function value is %.17g instead of %.17g", cobyla_get_last_f(r.cb), v);
  if (r.st != ITERATE) {
    r.over = true;
    if (r.st != r.ref.status) t.fail("%s: status is %d instead of %d after %ld evaluations", sn, r.st, r.ref.status, r.k);
    if (r.k != (long)r.ref.y.size()) t.fail("%s: %ld evaluations instead of %zu", sn, r.k, r.ref.y.size());
    for (long i = 0; i < r.j.n; ++i) if (r.x[i] != r.ref.xend[i]) t.fail("%s: final variable %ld is %.17g instead of %.17g", sn, i, r.x[i], r.ref.xend[i]);
    if (r.cb && cobyla_get_last_f(r.cb) != r.ref.f) t.fail("last function value is %.17g at the end instead of %.17g", cobyla_get_last_f(r.cb), r.ref.f);
    if (r.st == 0 && rho > r.j.rhoend && r.nw) t.fail("%s: converged with a radius %g larger than the final one %g", sn, rho, r.j.rhoend);
  }
}
static void revcom(T& t) {
  vp_reset();
  {
    long nr = t.small(1, 3); std::vector<std::unique_ptr<Rev>> rs; long events = 0, restarts = 0;
    for (long k = 0; k < nr; ++k) { rs.emplace_back(new Rev); setup(t, *rs.back()); }
    long budget = 6000;
    for (;;) {
      std::vector<Rev*> live; for (auto& r : rs) if (!r->over) live.push_back(r.get());
      if (live.empty() || --budget < 0) break;
      Rev& r = *live[live.size() == 1 ? 0 : t.draw(live.size() - 1)];
      long burst = live.size() == 1 ? 1000000 : t.small(1, 40);
      long stop = t.chance(1, 6) ? t.range(1, 60) : -1;
      for (long b = 0; b < burst && !r.over; ++b) { step(t, r); if (--stop == 0) break; }
      if (stop == 0 && r.laps < 2) {   // something unusual in the middle or at the end
        ++r.laps; ++events; errno = 0; bool dead = true;
        switch (t.draw(2)) {
          case 0: dead = false; break;
          case 1: { dvec sx = r.x; int st = r.iterate(0.0, nullptr, r.c.data()); if (r.over) { if (st != bad_address(r) && st != corrupted(r)) t.fail("a null address of variables yields %d", st); } else if (st != bad_address(r)) t.fail("a null address of variables yields %d", st); if (r.get_status() != st) t.fail("other status than returned"); break; }
          default: if (r.cb && r.j.m > 0) { int st = r.iterate(0.0, r.x.data(), nullptr); if (!r.over && st != bad_address(r)) t.fail("a null address of constraints yields %d", st); } else dead = r.over; break;
        }
        if (dead || r.over) { int st = r.iterate(1.0, r.x.data(), r.c.data()); if (st != corrupted(r)) t.fail("iterating after the end yields %d", st); if (r.get_status() != st) t.fail("other status than returned"); }
        if (r.restart() != ITERATE) t.fail("restart fails");
        fresh(t, r, "restart"); ++restarts;
      }
    }
    for (auto& r : rs) { t.label(solver_name[r->j.solver]); if (r->over) t.label(r->st == 0 ? "converged" : reason(r->j, r->st)); }
    if (restarts) t.label("restart"); if (nr > 1) t.label("interleaved");
    bool longer = false; for (auto& r : rs) longer |= (long)r->ref.y.size() > (r->nw ? r->j.npt : r->j.n + 1);
    t.nontrivial(longer);
    vp_on(0); rs.clear(); vp_off();
  }
  if (vp_live() != 0) t.fail("%ld blocks of memory are left after the contexts are deleted", vp_live());
}
static void misuse(T& t) {
  vp_reset(); errno = 0; bool nw = t.flag();
  switch (t.draw(2)) {
    case 0: {   // no context
      errno = 0; int op = (int)t.draw(6); bool ef = false; double x[2] = {0, 0}, c[2] = {0, 0};
      if (nw) switch (op) {
        case 0: if (newuoa_get_status(nullptr) != NEWUOA_BAD_ADDRESS) t.fail("status of no context"); break;
        case 1: if (newuoa_get_nevals(nullptr) != -1) t.fail("evaluations of no context"); break;
        case 2: if (newuoa_get_rho(nullptr) != -1) t.fail("radius of no context"); break;
        case 3: if (newuoa_restart(nullptr) != NEWUOA_BAD_ADDRESS) t.fail("restart of no context"); break;
        case 4: case 5: if (newuoa_iterate(nullptr, 0.0, x) != NEWUOA_BAD_ADDRESS) t.fail("iterating no context"); ef = true; break;
        default: newuoa_delete(nullptr); ef = true;
      } else switch (op) {
        case 0: if (cobyla_get_status(nullptr) != COBYLA_BAD_ADDRESS) t.fail("status of no context"); break;
        case 1: if (cobyla_get_nevals(nullptr) != -1) t.fail("evaluations of no context"); break;
        case 2: if (cobyla_get_rho(nullptr) != -1) t.fail("radius of no context"); break;
        case 3: if (cobyla_restart(nullptr) != COBYLA_BAD_ADDRESS) t.fail("restart of no context"); break;
        case 4: if (cobyla_get_last_f(nullptr) != -1) t.fail("last value of no context"); break;
        case 5: if (cobyla_iterate(nullptr, 0.0, x, c) != COBYLA_BAD_ADDRESS) t.fail("iterating no context"); break;
        default: cobyla_delete(nullptr); ef = true;
      }
      if (!ef && errno != EFAULT) t.fail("errno is %d for a null context", errno);
      t.label("null-context"); break;
    }
    case 1: {   // invalid parameters
      long n = t.range(2, 6), npt = t.range(n + 2, (n + 1) * (n + 2) / 2), m = t.range(0, 4), mf = t.range(1, 100); double rb = t.loguniform(1e-3, 10), re = rb * t.loguniform(1e-6, 1);
      int k = (int)t.draw(6);
      switch (k) {
        case 0: n = nw ? t.range(-2, 1) : t.range(-2, 0); if (nw) npt = n + 2; break;
        case 1: if (nw) npt = t.flag() ? n + 1 - t.range(0, 3) : (n + 1) * (n + 2) / 2 + t.range(1, 4); else m = -t.range(1, 3); break;
        case 2: re = t.flag() ? 0 : -re; break;
        case 3: std::swap(rb, re); if (rb == re) re = 2 * rb; break;
        case 4: (t.flag() ? rb : re) = NAN; break;
        case 5: mf = -t.range(0, 3); break;
        default: rb = -rb; break;
      }
      t.note("%s_create n=%ld npt=%ld m=%ld rhobeg=%g rhoend=%g maxfun=%ld", nw ? "newuoa" : "cobyla", n, npt, m, rb, re, mf);
      errno = 0; vp_on(0); void* p = nw ? (void*)newuoa_create(n, npt, rb, re, 0, mf) : (void*)cobyla_create(n, m, rb, re, 0, mf); int e = errno; vp_off();
      if (p) { if (nw) newuoa_delete((newuoa_context*)p); else cobyla_delete((cobyla_context*)p); t.fail("a context is created with invalid parameters"); }
      if (e != EINVAL) t.fail("errno is %d for invalid parameters", e);
      t.label("invalid"); break;
    }
    default: {  // no memory
      long n = t.range(2, 6), npt = t.range(n + 2, (n + 1) * (n + 2) / 2); errno = 0; vp_on(1);
      void* p = nw ? (void*)newuoa_create(n, npt, 1.0, 0.1, 0, 10) : (void*)cobyla_create(n, t.range(0, 3), 1.0, 0.1, 0, 10); int e = errno; long nf = vp_failed(); vp_off();
      if (nf && p) t.fail("a context is created without memory"); if (nf && e != ENOMEM) t.fail("errno is %d without memory", e);
      if (p) { if (nw) newuoa_delete((newuoa_context*)p); else cobyla_delete((cobyla_context*)p); }
      t.label("no-memory"); break;
    }
  }
  t.nontrivial(true);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P27", "a case counts when a run goes on after its initial points, or is a misuse", {{"revcom", revcom, 6}, {"misuse", misuse, 1}}, 50000, 60, 20, {"functions are finite", "the caller evaluates at the requested points"}};
  return c;
}
#endif

#if defined(CHECK_P28)
extern "C" int bobyqa_(const opk_index*, const opk_index*, double*, const double*, const double*, const double*, const double*, const opk_index*, const opk_index*, double*);
extern "C" int newuoa_(const opk_index*, const opk_index*, double*, const double*, const double*, const opk_index*, const opk_index*, double*);
extern "C" int cobyla_(opk_index*, opk_index*, double*, double*, double*, opk_index*, opk_index*, double*, opk_index*);
static Cb* ftn;
extern "C" int calfun_(const opk_index* n, double* x, double* f) { *f = cb_fun(*n, x, ftn); return 0; }
extern "C" void calcfc_(opk_index* n, opk_index* m, const double* x, double* f, double* con) { *f = cb_fun_con(*n, *m, x, con, ftn); }

static void start(T& t, Job& j, Fn& f, bool scaled) {
  j.solver = (Solver)t.draw(2); f = any_fn(t, j.solver); random_job(t, j, f, scaled);
}
static bool far(const Job& j, const Result& r) { return (long)r.y.size() > (j.solver == COBYLA ? j.n + 1 : j.npt); }
static void same(T& t, const char* what, const Job& j, const Result& a, const Result& b, bool f = true) {
  check_run(t, j, b); const char* d = diff(j, a, b, f);
  if (d) t.fail("%s, %s: %s", solver_name[j.solver], what, d);
  if (j.solver == COBYLA && (a.maxcv != b.maxcv || a.nevals != b.nevals)) t.fail("cobyla, %s: other violation or number of evaluations", what);
  t.label(what); t.nontrivial(far(j, a));
}
static void senses(T& t) {
  Job j; Fn f; start(t, j, f, t.chance(1, 4)); note_job(t, j); Result a = run_solver(j); check_run(t, j, a);
  Job k = j; k.neg = k.maximize = true; k.fill = (int)t.draw(2); Result b = run_solver(k); b.f = -b.f;
  same(t, "maximize", j, a, b);
}
static void interfaces(T& t) {
  Job j; Fn f; start(t, j, f, false); note_job(t, j); Result a = run_solver(j); check_run(t, j, a);
  Job k = j;
  switch (t.draw(3)) {
    case 0: { k.plain = true; Result b = run_solver(k); same(t, "simple call", j, a, b); break; }
    case 1: { k.scl.assign(j.n, 1.0); Result b = run_solver(k); same(t, "unit scaling", j, a, b); break; }
    case 2: { k.fill = (int)t.range(1, 5); Result b = run_solver(k); same(t, "workspace contents", j, a, b); break; }
    default: {
      Result b; Cb cb{&k, &b}; ftn = &cb; long nw = work_size(k); Buf<double> w(nw), x(k.n), xl(k.n), xu(k.n); Buf<opk_index> ia(k.m + 1);
      for (long i = 0; i < k.n; ++i) { x.p[i] = k.x0[i]; if (!k.xl.empty()) { xl.p[i] = k.xl[i]; xu.p[i] = k.xu[i]; } }
      opk_index n = k.n, m = k.m, npt = k.npt, ip = 0, mf = k.maxfun; double rb = k.rhobeg, re = k.rhoend; b.status = a.status;
      try {
        switch (k.solver) {
          case BOBYQA: bobyqa_(&n, &npt, x.p, xl.p, xu.p, &rb, &re, &ip, &mf, w.p); break;
          case NEWUOA: newuoa_(&n, &npt, x.p, &rb, &re, &ip, &mf, w.p); break;
          default: cobyla_(&n, &m, x.p, &rb, &re, &ip, &mf, w.p, ia.p); b.maxcv = w.p[1]; b.nevals = ia.p[0]; if (mf != (opk_index)b.y.size()) t.fail("cobyla: the Fortran call reports %ld evaluations instead of %zu", (long)mf, b.y.size()); break;
        }
      } catch (Cb*) {}
      b.f = w.p[0]; b.xend.assign(x.p, x.p + k.n);
      same(t, "Fortran call", j, a, b); break;
    }
  }
}
// Changes of units by powers of two are exact unless a product underflows (which occurs where the model is flat up to rounding errors).
static bool tiny(T& t) { if (!fetestexcept(FE_UNDERFLOW)) return false; t.label("underflow"); return true; }
static void scaling(T& t) {   // scaling by powers of two is the change of variables
  Job j; Fn f; start(t, j, f, false); long n = j.n; dvec s(n); for (auto& q : s) q = ldexp(1.0, (int)t.range(-4, 4));
  Job k = j; k.scl = s; j.pre = s;
  for (long i = 0; i < n; ++i) { k.x0[i] = j.x0[i] * s[i]; if (!j.xl.empty()) { k.xl[i] = j.xl[i] * s[i]; k.xu[i] = j.xu[i] * s[i]; } }
  note_job(t, k); feclearexcept(FE_ALL_EXCEPT); Result a = run_solver(j); check_run(t, j, a); Result b = run_solver(k); if (tiny(t)) return;
  for (long i = 0; i < n; ++i) a.xend[i] *= s[i];
  same(t, "scaled variables", k, a, b);
}
// Powers of two: other units for the function or for all variables.  COBYLA compares residuals of constraints with leftovers of multipliers, at the level of
// rounding errors, which have the same units when those of the function and of the variables are changed alike.
static void units(T& t) {
  Job j; Fn f; start(t, j, f, t.chance(1, 5)); Fn g = f; Job k = j; k.f = &g; long n = j.n;
  int e = (int)t.range(-30, 30);
  note_job(t, j); t.note("2^%d", e);
  feclearexcept(FE_ALL_EXCEPT); Result a = run_solver(j); check_run(t, j, a);
  bool both = j.solver == COBYLA && j.m > 0;
  if (!both && t.flag()) {
    g.fscale = ldexp(1.0, e); Result b = run_solver(k); if (tiny(t)) return; b.f *= ldexp(1.0, -e); b.maxcv *= ldexp(1.0, -e); same(t, "units of the function", j, a, b);
  } else {
    double u = ldexp(1.0, e); k.rhobeg *= u; k.rhoend *= u; g.xscale = 1 / u; if (both) g.fscale = u;
    for (long i = 0; i < n; ++i) { k.x0[i] *= u; if (!k.xl.empty()) { k.xl[i] *= u; k.xu[i] *= u; } }
    Result b = run_solver(k); if (tiny(t)) return; for (auto& q : b.xs) for (auto& v : q) v /= u; for (auto& v : b.xend) v /= u; if (both) { b.f /= u; b.maxcv /= u; }
    same(t, "units of the variables", j, a, b);
  }
}
static void printing(T& t) {
  Job j; Fn f; start(t, j, f, t.chance(1, 4)); j.neg = j.maximize = t.chance(1, 4); note_job(t, j);
  Capture c; Result a = run_solver(j); long q = c.end(); check_run(t, j, a);
  if (q != 0) t.fail("%s writes %ld characters although no output is requested", solver_name[j.solver], q);
  Job k = j; k.iprint = t.range(1, 3); Capture c2; Result b = run_solver(k); long p = c2.end();
  same(t, "printing", j, a, b);
  if (p == 0) t.fail("%s writes nothing although output is requested (level %ld)", solver_name[j.solver], k.iprint);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P28", "a case counts when the run goes on after its initial points", {{"senses", senses, 2}, {"interfaces", interfaces, 2}, {"scaling", scaling, 2}, {"units", units, 2}, {"printing", printing, 1}}, 30000, 60, 20, {"functions are finite"}};
  return c;
}
#endif

#if defined(CHECK_P29)
static void reject(T& t) {
  Job j; j.solver = (Solver)t.draw(2); Fn f = any_fn(t, j.solver); random_job(t, j, f, t.chance(1, 3)); j.plain = j.scl.empty() && t.flag(); j.fill = 2; j.maximize = !j.plain && t.chance(1, 4);
  std::set<int> ok; long nb = t.chance(1, 4) ? 2 : 1; bool valid = t.chance(1, 6);
  Job good = j; note_job(t, j);
  for (long b = 0; b < nb && !valid; ++b) switch (t.draw(5)) {
    case 0: j.n = j.solver == COBYLA ? t.range(-2, 0) : t.range(-1, 1); ok.insert(-1); t.note("n=%ld", j.n); break;
    case 1: if (j.solver == COBYLA) { j.m = -t.range(1, 3); ok.insert(COBYLA_BAD_NCONS); t.note("m=%ld", j.m); }
            else { j.npt = t.flag() ? good.n + 1 - t.range(0, 8) : (good.n + 1) * (good.n + 2) / 2 + t.range(1, 9); ok.insert(-2); t.note("npt=%ld", j.npt); } break;
    case 2: case 3: switch (t.draw(4)) { case 0: j.rhoend = 0; break; case 1: j.rhoend = -fabs(j.rhoend); break; case 2: j.rhoend = j.rhobeg * (1 + t.loguniform(1e-15, 1)); if (!(j.rhoend > j.rhobeg)) j.rhoend = 2 * fabs(j.rhobeg); break; case 3: j.rhobeg = t.flag() ? NAN : -fabs(j.rhobeg); break; default: j.rhoend = NAN; }
            ok.insert(-3); t.note("rho %g %g", j.rhobeg, j.rhoend); break;
    case 4: if (j.plain) { j.rhoend = 0; ok.insert(-3); break; }
            { j.scl.resize(good.n, 1.0); long i = t.range(0, good.n - 1); j.scl[i] = t.of<double>({0.0, -1.0, NAN, INFINITY, -INFINITY, -1e-300}); ok.insert(-4); t.note("scl[%ld]=%g", i, j.scl[i]); } break;
    default: if (j.solver != BOBYQA) { j.rhoend = -1; ok.insert(-3); break; }
            { long i = t.range(0, good.n - 1); double s = good.scl.empty() ? 1 : good.scl[i]; j.xu[i] = j.xl[i] + 2 * good.rhobeg * s * (t.flag() ? t.unit() * 0.99 : t.of<double>({0.0, -1.0, 0.999999})); if (j.xl[i] < -1e19) { j.xl[i] = -1; j.xu[i] = -1 + 2 * good.rhobeg * s * 0.99; } ok.insert(BOBYQA_TOO_CLOSE); t.note("bounds %ld: [%.17g,%.17g]", i, j.xl[i], j.xu[i]); } break;
  }
  if (valid) {   // limits of what is valid
    switch (t.draw(2)) { case 0: j.rhoend = j.rhobeg; break; case 1: if (j.solver != COBYLA) j.npt = t.flag() ? j.n + 2 : (j.n + 1) * (j.n + 2) / 2; break; default: if (j.solver == BOBYQA && j.scl.empty()) { j.rhobeg = 0.5; j.rhoend = std::min(j.rhoend, 0.5); for (long i = 0; i < j.n; ++i) { j.xl[i] = (double)t.range(-5, 5); j.xu[i] = j.xl[i] + 1; } } break; }
    Result r = run_solver(j); check_run(t, j, r); t.label("valid"); t.nontrivial(true); return;
  }
  // blocks of the valid sizes
  Result r; Cb cb{&j, &r}; long nw = work_size(good); Buf<double> w(nw), x(good.n), xl(good.n), xu(good.n), sc(good.n); Buf<opk_index> ia(good.m + 1);
  for (long i = 0; i < good.n; ++i) { x.p[i] = j.x0[i]; xl.p[i] = j.xl.empty() ? 0 : j.xl[i]; xu.p[i] = j.xu.empty() ? 0 : j.xu[i]; sc.p[i] = j.scl.empty() ? 1 : j.scl[i]; }
  const double* scl = j.scl.empty() ? nullptr : sc.p; int st = 0; long out = 0; long lev = t.flag() ? 0 : t.range(-1, 3); t.note("level %ld", lev);
  {
    Capture c;
    try {
      switch (j.solver) {
        case BOBYQA: st = j.plain ? bobyqa(j.n, j.npt, cb_fun, &cb, x.p, xl.p, xu.p, j.rhobeg, j.rhoend, lev, j.maxfun, w.p) : bobyqa_optimize(j.n, j.npt, (opk_bool)j.maximize, cb_fun, &cb, x.p, xl.p, xu.p, scl, j.rhobeg, j.rhoend, lev, j.maxfun, w.p); break;
        case NEWUOA: st = j.plain ? newuoa(j.n, j.npt, cb_fun, &cb, x.p, j.rhobeg, j.rhoend, lev, j.maxfun, w.p) : newuoa_optimize(j.n, j.npt, (opk_bool)j.maximize, cb_fun, &cb, x.p, scl, j.rhobeg, j.rhoend, lev, j.maxfun, w.p); break;
        default: st = j.plain ? cobyla(j.n, j.m, cb_fun_con, &cb, x.p, j.rhobeg, j.rhoend, lev, j.maxfun, w.p, ia.p) : cobyla_optimize(j.n, j.m, (opk_bool)j.maximize, cb_fun_con, &cb, x.p, scl, j.rhobeg, j.rhoend, lev, j.maxfun, w.p, ia.p); break;
      }
    } catch (Cb*) {}
    out = c.end();
  }
  const char* sn = solver_name[j.solver];
  if (!r.y.empty()) t.fail("%s evaluates the function although its arguments are invalid", sn);
  if (!ok.count(st)) t.fail("%s returns %d (%s) for invalid arguments (%d)", sn, st, reason(j, st), *ok.begin());
  for (long i = 0; i < good.n; ++i) if (!same_bits(x.p[i], j.x0[i])) t.fail("%s modifies the variables although its arguments are invalid", sn);
  if (out != 0 && lev <= 0) t.fail("%s prints although no output is requested", sn);
  t.label(reason(j, st)); t.nontrivial(true);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P29", "every case counts: one or two arguments are invalid, or at the limit of what is valid", {{"reject", reject, 1}}, 60000, 60, 20, {}};
  return c;
}
#endif
