// P33: computations do not influence each other, whatever their interleaving.
#include "optsim.hpp"
#include "powell.hpp"
#include "optimpack-linalg.h"
#include <condition_variable>
#include <mutex>
#include <thread>

typedef std::function<void()> Hook;
// One complete computation: everything is drawn by its constructor, run() calls the hook whenever the caller has the control.
struct Task {
  Hook hook; std::string name; long points = 0; bool busy = false; int kind = 0; dvec ref; long refpoints = 0;
  virtual ~Task() {}
  virtual void body(dvec& out) = 0;
  dvec run(Hook h) { hook = h; points = 0; dvec out; busy = true; body(out); busy = false; hook = nullptr; return out; }
  void point() { ++points; if (hook) hook(); }
};

struct Direct : Task {   // BOBYQA, NEWUOA and COBYLA with a callback
  Job j; Fn f;
  explicit Direct(T& t) {
    j.solver = (Solver)t.draw(2); f = random_fn(t, t.dim(j.solver == COBYLA ? 1 : 2, 4, 9), j.solver == BOBYQA);
    if (j.solver == COBYLA) random_constraints(t, f, some_constraints(t, 3));
    random_job(t, j, f, t.chance(1, 4)); j.maxfun = std::min(j.maxfun, 120l); note_job(t, j); name = solver_name[j.solver];
    f.hook = [this] { point(); }; j.f = &f;
  }
  void body(dvec& out) override {
    Result r = run_solver(j); out.push_back(r.status); out.push_back(r.f); out.insert(out.end(), r.xend.begin(), r.xend.end()); out.insert(out.end(), r.y.begin(), r.y.end());
    for (auto& x : r.xs) out.insert(out.end(), x.begin(), x.end());
    out.push_back(r.maxcv); out.push_back((double)r.nevals); if (r.bad) out.push_back(-12345);
  }
};
struct Reverse : Task {   // NEWUOA and COBYLA by reverse communication
  Job j; Fn f;
  explicit Reverse(T& t) {
    j.solver = t.flag() ? COBYLA : NEWUOA; f = random_fn(t, t.dim(j.solver == COBYLA ? 1 : 2, 4, 9), false);
    if (j.solver == COBYLA) random_constraints(t, f, some_constraints(t, 3));
    random_job(t, j, f, false); j.maxfun = std::max(1l, std::min(j.maxfun, 120l)); note_job(t, j); name = j.solver == NEWUOA ? "newuoa context" : "cobyla context";
  }
  void body(dvec& out) override {
    newuoa_context* a = nullptr; cobyla_context* b = nullptr; dvec x = j.x0, c(j.m + 1); int st = 1;
    if (j.solver == NEWUOA) a = newuoa_create(j.n, j.npt, j.rhobeg, j.rhoend, 0, j.maxfun); else b = cobyla_create(j.n, j.m, j.rhobeg, j.rhoend, 0, j.maxfun);
    for (long k = 0; k < 300 && st == 1 && (a || b); ++k) {
      point(); double v = f(x.data()); f.con(x.data(), c.data());
      st = a ? (int)newuoa_iterate(a, v, x.data()) : (int)cobyla_iterate(b, v, x.data(), c.data());
      out.push_back(st); out.insert(out.end(), x.begin(), x.end()); out.push_back(a ? newuoa_get_rho(a) : cobyla_get_rho(b)); if (b) out.push_back(cobyla_get_last_f(b));
    }
    newuoa_delete(a); cobyla_delete(b);
  }
};
template <class R> struct Gradient : Task {   // conjugate gradients and quasi-Newton methods
  Optim<R> o; Prob p; dvec x0; long limit;
  explicit Gradient(T& t) { int n = t.chance(1, 20) ? (int)t.range(7, 100) : (int)t.small(1, 6); o.make(t, n); p.make(t, n); o.start_point(t, p); x0 = o.X(); limit = t.range(2, 80); name = o.mname(); }
  void body(dvec& out) override {
    set(o.x.v(), x0); opk_task k = o.start();
    for (long q = 0; q < limit; ++q) {
      out.push_back(k); out.push_back(o.status()); dvec x = o.X(); out.insert(out.end(), x.begin(), x.end()); if (q > 2) { out.push_back(o.step()); out.push_back(o.gnorm()); }
      if (k != OPK_TASK_COMPUTE_FG && k != OPK_TASK_NEW_X) break;
      point(); double f = 0;
      if (k == OPK_TASK_COMPUTE_FG) { dvec g; f = p.fg(x, g); for (auto& v : g) { if (!(fabs(v) < 1e15)) v = v < 0 ? -1e15 : 1e15; v = (R)v; } set(o.g.v(), g); last = f; } else f = last;
      k = o.iterate(f);
    }
  }
  double last = 0;
};
struct Fmin : Task {
  double a, b, c, prec; unsigned flags; long maxeval; int kind;
  explicit Fmin(T& t) {
    a = t.sym(10); b = a + t.loguniform(1e-2, 10); c = t.sym(12); flags = (unsigned)t.draw(7); prec = t.loguniform(1e-12, 1e-2); maxeval = t.range(3, 60); kind = (int)t.draw(2); name = "fmin";
    t.note("fmin kind=%d a=%.17g b=%.17g c=%.17g flags=%u prec=%g maxeval=%ld", kind, a, b, c, flags, prec, maxeval);
  }
  static double eval(void* d, double x) { Fmin* m = (Fmin*)d; m->point(); m->seen.push_back(x); double u = x - m->c; return m->kind == 0 ? u * u : m->kind == 1 ? fabs(u) : 0.01 * u * u + sin(u); }
  dvec seen;
  void body(dvec& out) override {
    double o[7] = {0, 0, 0, 0, 0, 0, 0}; seen.clear(); int st = opk_fmin_with_context(eval, a, b, flags, maxeval, prec, o, this); out = seen; out.push_back(st); out.insert(out.end(), o, o + 7);
  }
};
struct Search : Task {   // a line search
  LS l; double a, c, w, first, lo, hi;
  explicit Search(T& t) {
    l.kind = 1 + (int)t.draw(2); l.ftol = t.of({1e-4, 1e-2}); l.gtol = t.of({0.9, 0.5, 0.1, 0.01}); l.m = t.range(1, 4); l.xtol = 1e-10; a = t.loguniform(0.1, 10); c = t.loguniform(0.01, 100); w = t.flag() ? 0 : t.sym(3);
    first = t.loguniform(0.01, 10); lo = 0; hi = t.of({1e10, 100.0}); name = "line search"; t.note("line search %d ftol=%g gtol=%g m=%ld phi a=%.17g c=%.17g w=%.17g first=%.17g", l.kind, l.ftol, l.gtol, (long)l.m, a, c, w, first);
  }
  void body(dvec& out) override {
    Ref r(l.kind == 1 ? opk_lnsrch_new_csrch(l.ftol, l.gtol, l.xtol) : l.kind == 2 ? opk_lnsrch_new_backtrack(l.ftol, l.amin) : opk_lnsrch_new_nonmonotone(l.m, l.ftol, l.s1, l.s2));
    opk_lnsrch* s = (opk_lnsrch*)r.p; double x = 0;
    for (int rep = 0; rep < 4; ++rep) {
      double f, g, stp = first; phi(x, f, g); double dir = g > 0 ? -1 : 1; if (!(fabs(g) > 1e-9)) break;
      int k = opk_lnsrch_start(s, f, g * dir, stp, lo, hi); double y = x;
      for (int q = 0; q < 40 && k == OPK_LNSRCH_SEARCH; ++q) { point(); y = x + dir * stp; phi(y, f, g); k = opk_lnsrch_iterate(s, &stp, f, g * dir); out.push_back(stp); out.push_back(k); out.push_back(opk_lnsrch_get_status(s)); }
      x = y; if (k != OPK_LNSRCH_CONVERGENCE) break;
    }
  }
  void phi(double x, double& f, double& g) const { double u = x - c; f = 0.5 * a * u * u + w * sin(u); g = a * u + w * cos(u); }
};
struct Algebra : Task {   // trust region steps and linear algebra, without callbacks
  long n; dvec a, b; double delta; int reps;
  explicit Algebra(T& t) { n = t.dim(1, 6, 20); a = random_spd(t, n, 0.1, 10); b.resize(n); for (auto& q : b) q = t.sym(3); delta = t.loguniform(0.01, 10); reps = (int)t.range(1, 5); if (t.flag()) for (long i = 0; i < n; ++i) a[i * n + i] -= 3; name = "linear algebra"; t.note("linear algebra n=%ld delta=%.17g", n, delta); t.notev("a", a.data(), n * n); t.notev("b", b.data(), n); }
  void body(dvec& out) override {
    for (int r = 0; r < reps; ++r) {
      point(); dvec m = a, x(n, 0.0), z(n), w1(n), w2(n), y(n); double par = 0, f = 0; opk_index it = 0;
      int info = opk_dgqt(n, m.data(), n, b.data(), delta * (r + 1), 1e-4, 1e-8, 50, &par, &f, x.data(), &it, z.data(), w1.data(), w2.data());
      out.push_back(info); out.push_back(par); out.push_back(f); out.push_back((double)it); out.insert(out.end(), x.begin(), x.end()); out.insert(out.end(), m.begin(), m.end());
      point(); opk_dgemv(OPK_BLAS_NO_TRANS, n, n, 1.0, a.data(), n, b.data(), 1, 0.0, y.data(), 1); opk_dtrsv(OPK_BLAS_LOWER, OPK_BLAS_NO_TRANS, OPK_BLAS_NON_UNIT, n, m.data(), n, y.data(), 1); out.insert(out.end(), y.begin(), y.end());
      out.push_back(opk_ddot(n, x.data(), 1, b.data(), 1)); out.push_back(opk_dnrm2(n, x.data(), 1));
    }
  }
};
struct Texts : Task {   // descriptions and messages
  Optim<double> o; int n;
  explicit Texts(T& t) { n = (int)t.small(1, 6); o.make(t, n); name = "texts"; }
  static void put(dvec& out, const char* s) { for (; s && *s; ++s) out.push_back(*s); out.push_back(-1); }
  void body(dvec& out) override {
    for (int k = -2; k < 25; ++k) {
      const char* s = opk_get_reason((opk_status)k); point(); put(out, s);
      const char* q = bobyqa_reason((bobyqa_status)(k - 12)); const char* w = newuoa_reason((newuoa_status)(k - 12)); const char* u = cobyla_reason((cobyla_status)(k - 12)); point(); put(out, q); put(out, w); put(out, u);
    }
    char a[200]; if (o.is_nlcg()) opk_get_nlcg_description(a, sizeof a, o.cg()); else opk_get_vmlmb_description(a, sizeof a, o.vm());
    point(); a[199] = 0; put(out, a);
  }
};
template <class R> struct Simple : Task {   // the optimizers on conventional arrays
  Prob p; long n, limit; std::vector<R> x0, lo, up; bool lb, ub; int algo; opk_nlcg_options cg; opk_vmlmb_options vm;
  explicit Simple(T& t) {
    n = t.small(1, 6); p.make(t, (int)n); x0.resize(n); lo.resize(n); up.resize(n); for (long i = 0; i < n; ++i) { x0[i] = (R)t.sym(3); lo[i] = (R)t.sym(3); up[i] = (R)(lo[i] + t.loguniform(1e-3, 10)); }
    algo = t.flag() ? 1 : 0; lb = algo && t.flag(); ub = algo && t.flag(); limit = t.range(2, 80); opk_get_nlcg_default_options(&cg); opk_get_vmlmb_default_options(&vm); vm.mem = t.range(1, 7); cg.flags = OPK_NLCG_DEFAULT; name = algo ? "simple VMLMB" : "simple NLCG";
    t.note("%s %s n=%ld mem=%ld limit=%ld bounds=%d%d", name.c_str(), sizeof(R) == 4 ? "float" : "double", n, (long)vm.mem, limit, lb, ub);
  }
  void body(dvec& out) override {
    std::vector<R> x = x0, g(n); R l0 = lo[0], u0 = lo[0] + 5; bool scalar = n & 1;
    opk_optimizer* o = opk_new_optimizer(algo ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, algo ? (void*)&vm : (void*)&cg, sizeof(R) == 4 ? OPK_FLOAT : OPK_DOUBLE, n,
      !lb ? OPK_BOUND_NONE : scalar ? (sizeof(R) == 4 ? OPK_BOUND_SCALAR_FLOAT : OPK_BOUND_SCALAR_DOUBLE) : (sizeof(R) == 4 ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE), !lb ? nullptr : scalar ? &l0 : lo.data(),
      !ub ? OPK_BOUND_NONE : scalar ? (sizeof(R) == 4 ? OPK_BOUND_SCALAR_FLOAT : OPK_BOUND_SCALAR_DOUBLE) : (sizeof(R) == 4 ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE), !ub ? nullptr : scalar ? &u0 : up.data(), nullptr);
    if (!o) { out.push_back(-99); return; }
    opk_task k = opk_start(o, x.data());
    for (long q = 0; q < limit; ++q) {
      out.push_back(k); out.push_back(opk_get_status(o)); out.insert(out.end(), x.begin(), x.end()); if (q > 2) { out.push_back(opk_get_step(o)); out.push_back(opk_get_gnorm(o)); out.push_back((double)opk_get_iterations(o)); }
      if (k != OPK_TASK_COMPUTE_FG && k != OPK_TASK_NEW_X) break;
      point();
      if (k == OPK_TASK_COMPUTE_FG) { dvec gg, xx(x.begin(), x.end()); last = p.fg(xx, gg); for (long i = 0; i < n; ++i) g[i] = (R)(fabs(gg[i]) < 1e15 ? gg[i] : 1e15); }
      k = opk_iterate(o, x.data(), last, g.data());
    }
    opk_destroy_optimizer(o);
  }
  double last = 0;
};
struct Vectors : Task {   // operations on vectors and bound sets, each computation on its own objects
  long n; bool flt; dvec a, b, l, u; int reps;
  explicit Vectors(T& t) { n = t.dim(1, 9, 300); flt = t.flag(); for (long i = 0; i < n; ++i) { a.push_back(t.sym(3)); b.push_back(t.sym(3)); l.push_back(t.sym(2)); u.push_back(l[i] + t.loguniform(1e-2, 3)); } reps = (int)t.range(1, 4); name = "vectors"; t.note("vectors %s n=%ld reps=%d", flt ? "float" : "double", n, reps); }
  void body(dvec& out) override {
    opk_vspace* s = flt ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n); opk_vector* v[6]; dvec h(n);
    for (auto& q : v) q = opk_vcreate(s);
    auto put = [&](opk_vector* w) { opk_vexport(h.data(), OPK_DOUBLE, n, w); out.insert(out.end(), h.begin(), h.end()); };
    opk_vimport(v[0], a.data(), OPK_DOUBLE, n); opk_vimport(v[1], b.data(), OPK_DOUBLE, n); opk_vimport(v[2], l.data(), OPK_DOUBLE, n); opk_vimport(v[3], u.data(), OPK_DOUBLE, n);
    opk_convexset* set = opk_new_boxset(s, OPK_BOUND_VECTOR, v[2], OPK_BOUND_VECTOR, v[3]);
    for (int r = 0; r < reps; ++r) {
      point(); opk_project_variables(v[4], v[0], set); put(v[4]); point(); opk_project_direction(v[5], v[4], set, v[1], OPK_ASCENT); put(v[5]);
      double s1 = 0, s2 = 0, s3 = 0; out.push_back(opk_get_step_limits(&s1, &s2, &s3, v[4], set, v[1], OPK_DESCENT)); out.push_back(s1); out.push_back(s2); out.push_back(s3);
      point(); opk_get_free_variables(v[5], v[4], set, v[1], OPK_ASCENT); put(v[5]); out.push_back(opk_vdot(v[0], v[1])); out.push_back(opk_vdot3(v[5], v[0], v[1])); out.push_back(opk_vnorm1(v[0])); out.push_back(opk_vnorm2(v[0])); out.push_back(opk_vnorminf(v[1]));
      point(); opk_vaxpby(v[4], 0.5, v[0], -1.5, v[1]); put(v[4]); opk_vaxpbypcz(v[4], 1, v[0], 2, v[1], -0.25, v[5]); put(v[4]); opk_vswap(v[0], v[1]); opk_vscale(v[0], 1.25, v[0]); opk_vproduct(v[5], v[0], v[1]); put(v[5]);
    }
    OPK_DROP(set); for (auto& q : v) OPK_DROP(q); OPK_DROP(s);
  }
};
static Task* new_task(T& t, int kind) {
  switch (kind) {
    case 0: return new Direct(t);
    case 1: return new Reverse(t);
    case 2: return new Gradient<double>(t);
    case 3: return new Gradient<float>(t);
    case 4: return new Fmin(t);
    case 5: return new Search(t);
    case 6: return new Algebra(t);
    case 8: return new Simple<double>(t);
    case 9: return new Simple<float>(t);
    case 10: return new Vectors(t);
    default: return new Texts(t);
  }
}
static Task* make_task(T& t, int kind = -1) {
  if (kind < 0) kind = (int)t.weighted({5, 3, 3, 2, 2, 2, 1, 1, 2, 1, 1});
  Task* k = new_task(t, kind); k->kind = kind; return k;
}
typedef std::vector<std::unique_ptr<Task>> Tasks;
static void alone(T& t, Tasks& ts, long n) {
  for (long i = 0; i < n; ++i) ts.emplace_back(make_task(t));
  for (auto& k : ts) { k->ref = k->run(nullptr); k->refpoints = k->points; }
}
static void same(T& t, const Task& k, const dvec& r, const char* how) {
  size_t n = std::min(r.size(), k.ref.size());
  for (size_t i = 0; i < n; ++i) if (!same_bits(r[i], k.ref[i])) t.fail("%s %s: value %zu is %.17g instead of %.17g when alone", k.name.c_str(), how, i, r[i], k.ref[i]);
  if (r.size() != k.ref.size()) t.fail("%s %s: %zu values instead of %zu when alone", k.name.c_str(), how, r.size(), k.ref.size());
}
static uint64_t next(uint64_t& s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// A computation started while another one waits for its function value.
static void nested(T& t) {
  Tasks ts; alone(t, ts, t.range(2, 5)); uint64_t s = t.draw(1000000); int rate = (int)t.of({1, 5, 20}); long budget = 60, depth = 0, deepest = 0, inner = 0;
  std::function<void()> hook = [&] {
    if (budget <= 0 || depth >= 4 || next(s) % rate) return;
    std::vector<Task*> idle; for (auto& k : ts) if (!k->busy) idle.push_back(k.get());
    if (idle.empty()) return;
    Task* k = idle[next(s) % idle.size()]; --budget; ++depth; deepest = std::max(deepest, depth); ++inner;
    dvec r = k->run(hook); --depth; same(t, *k, r, "run inside another computation");
  };
  for (auto& k : ts) { if (k->busy) continue; dvec r = k->run(hook); same(t, *k, r, "with others run inside"); }
  for (auto& k : ts) t.label(k->name);
  if (deepest > 1) t.label("deep"); t.nontrivial(inner > 0);
}
// Several computations progressing in turn, one thread each, only one running at a time.
static void interleaved(T& t) {
  Tasks ts; long n = t.range(2, 5); alone(t, ts, n); uint64_t s = t.draw(1000000); int rate = (int)t.of({1, 2, 10}); long switches = 0;
  std::mutex m; std::condition_variable cv; long turn = 0; std::vector<char> done(n, 0); std::vector<dvec> res(n); std::vector<std::thread> th;
  auto pass = [&](long) { std::vector<long> q; for (long i = 0; i < n; ++i) if (!done[i]) q.push_back(i); turn = q.empty() ? -1 : q[next(s) % q.size()]; cv.notify_all(); };
  for (long i = 0; i < n; ++i) th.emplace_back([&, i] {
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == i; }); }
    res[i] = ts[i]->run([&, i] { std::unique_lock<std::mutex> l(m); if (next(s) % rate) return; pass(i); if (turn != i) ++switches; cv.wait(l, [&] { return turn == i; }); });
    std::unique_lock<std::mutex> l(m); done[i] = 1; pass(i);
  });
  for (auto& q : th) q.join();
  for (long i = 0; i < n; ++i) { same(t, *ts[i], res[i], "interleaved with others"); t.label(ts[i]->name); }
  t.nontrivial(switches > 1);
}
// Several computations running at the same time.
static void parallel(T& t) {
  Tasks ts; long n = t.range(2, 4), reps = 3; alone(t, ts, n); long total = 0; for (auto& k : ts) total += k->refpoints;
  std::mutex m; std::condition_variable cv; long ready = 0; std::vector<std::vector<dvec>> res(n); std::vector<std::thread> th;
  for (long i = 0; i < n; ++i) th.emplace_back([&, i] {
    { std::unique_lock<std::mutex> l(m); ++ready; cv.notify_all(); cv.wait(l, [&] { return ready == n; }); }
    for (long k = 0; k < reps; ++k) res[i].push_back(ts[i]->run(nullptr));
  });
  for (auto& q : th) q.join();
  for (long i = 0; i < n; ++i) { for (auto& r : res[i]) same(t, *ts[i], r, "at the same time as others"); t.label(ts[i]->name); }
  t.nontrivial(total > 20);
}
// The same, watched for accesses to shared memory (in the build with ThreadSanitizer, which does nothing else).
static volatile int races;
extern "C" void __tsan_on_report(void*) { ++races; }
static void race(T& t) {
  races = 0; Tasks ts; long n = t.range(2, 3); bool alike = !t.chance(1, 4); int kind = -1;
  for (long i = 0; i < n; ++i) { ts.emplace_back(make_task(t, kind)); if (alike) kind = ts[0]->kind; }
  std::mutex m; std::condition_variable cv; long ready = 0; std::vector<std::thread> th; std::vector<dvec> res(n);
  for (long i = 0; i < n; ++i) th.emplace_back([&, i] {
    { std::unique_lock<std::mutex> l(m); ++ready; cv.notify_all(); cv.wait(l, [&] { return ready == n; }); }
    res[i] = ts[i]->run(nullptr);
  });
  for (auto& q : th) q.join();
  for (long i = 0; i < n; ++i) t.label(ts[i]->name);
  if (races) t.fail("%d conflicting accesses to the same memory by %s and %s run at the same time by different threads", races, ts[0]->name.c_str(), ts[n - 1]->name.c_str());
  size_t total = 0; for (auto& r : res) total += r.size(); t.nontrivial(total > 40);
}
pbt::Check& pbt_check() {
#ifdef PBT_TSAN
  static pbt::Check r{"P33", "a case counts when more than 40 values are computed", {{"race", race, 1}}, 40000, 15, 60, {"no object is used by two computations at once"}};
  return r;
#endif
  static pbt::Check c{"P33", "a case counts when a computation is really interrupted by another one (or runs at the same time, with more than 20 evaluations in all)", {{"nested", nested, 4}, {"interleaved", interleaved, 3}, {"parallel", parallel, 1}}, 20000, 60, 20, {"no object is used by two computations at once"}};
  return c;
}
