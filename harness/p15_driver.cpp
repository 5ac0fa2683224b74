// P15 the simple driver is the optimizer it wraps; P17 independence and restart; P31 units and signs.
#include "optsim.hpp"

namespace {

// Everything a caller can observe after one exchange.
struct Seen {
  opk_task task = OPK_TASK_ERROR; opk_status status = OPK_SUCCESS; dvec x; double step = 0, gnorm = 0; opk_index evals = 0, iters = 0, restarts = 0;
};
static bool eqv(const dvec& a, const dvec& b) { for (size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false; return a.size() == b.size(); }
static void compare(T& t, const Seen& a, const Seen& b, const char* what, int k, bool numbers = true) {
  if (a.task != b.task || a.status != b.status) t.fail("%s: exchange %d gives task %d status %d, expected task %d status %d", what, k, (int)b.task, (int)b.status, (int)a.task, (int)a.status);
  for (size_t i = 0; i < a.x.size(); ++i) if (!same_bits(a.x[i], b.x[i])) t.fail("%s: exchange %d gives variable %zu = %.17g, expected %.17g", what, k, i, b.x[i], a.x[i]);
  if (a.evals != b.evals || a.iters != b.iters || a.restarts != b.restarts) t.fail("%s: exchange %d counts %ld evaluations, %ld iterations, %ld restarts, expected %ld, %ld, %ld", what, k, (long)b.evals, (long)b.iters, (long)b.restarts, (long)a.evals, (long)a.iters, (long)a.restarts);
  if (numbers && (!same_bits(a.step, b.step) || !same_bits(a.gnorm, b.gnorm))) t.fail("%s: exchange %d reports step %.17g and norm %.17g, expected %.17g and %.17g", what, k, b.step, b.gnorm, a.step, a.gnorm);
}

static Ref clone_ls(const LS& l) {
  if (l.kind == 1) return Ref(opk_lnsrch_new_csrch(l.ftol, l.gtol, l.xtol));
  if (l.kind == 2) return Ref(opk_lnsrch_new_backtrack(l.ftol, l.amin));
  if (l.kind == 3) return Ref(opk_lnsrch_new_nonmonotone(l.m, l.ftol, l.s1, l.s2));
  return Ref();
}
template <class R> static opk_nlcg_options nlcg_opts(const Optim<R>& o) {
  opk_nlcg_options q; opk_get_nlcg_default_options(&q);
  q.flags = o.flags; q.delta = o.delta; q.epsilon = o.epsilon; q.stpmin = o.stpmin; q.stpmax = o.stpmax; q.grtol = o.grtol; q.gatol = o.gatol; return q;
}
template <class R> static opk_vmlmb_options vmlmb_opts(const Optim<R>& o) {
  opk_vmlmb_options q; opk_get_vmlmb_default_options(&q);
  q.mem = o.mem; q.save_memory = o.save_memory ? OPK_TRUE : OPK_FALSE; q.blmvm = o.meth == BLMVM ? OPK_TRUE : OPK_FALSE; q.delta = o.delta; q.epsilon = o.epsilon; q.stpmin = o.stpmin; q.stpmax = o.stpmax; q.grtol = o.grtol; q.gatol = o.gatol; return q;
}
// A second optimizer with the same settings (same space and, on request, same set).
template <class R> static void twin(T& t, const Optim<R>& o, Optim<R>& w, const dvec* flip = nullptr, double xs = 1, double gs = 1) {
  w.n = o.n; w.meth = o.meth; w.flags = o.flags; w.ls = o.ls; w.mem = o.mem; w.save_memory = o.save_memory; w.delta = o.delta; w.epsilon = o.epsilon; w.grtol = o.grtol; w.gatol = o.gatol * gs; w.stpmin = o.stpmin; w.stpmax = o.stpmax;
  w.space = Ref(OPK_HOLD(o.space.p)); w.lns = clone_ls(o.ls);
  w.box.kind = o.box.kind; w.box.lo = o.box.lo; w.box.hi = o.box.hi; w.box.slo = o.box.slo; w.box.shi = o.box.shi;
  opk_convexset* set = o.box.set.set();
  if (set && !flip) w.box.set = Ref(OPK_HOLD(o.box.set.p));
  if (o.box.bounded() && flip) {
    dvec lo(o.n), hi(o.n);
    for (int i = 0; i < o.n; ++i) { bool neg = (*flip)[i] < 0; double l = (double)o.box.lo[i] * xs, h = (double)o.box.hi[i] * xs; lo[i] = neg ? -h : l; hi[i] = neg ? -l : h; w.box.lo[i] = (R)lo[i]; w.box.hi[i] = (R)hi[i]; }
    w.box.set = Ref(opk_new_boxset(w.space.s(), OPK_BOUND_VOLATILE_DOUBLE, lo.data(), OPK_BOUND_VOLATILE_DOUBLE, hi.data())); set = w.box.set.set();
    if (!set) t.fail("box set cannot be created");
  }
  if (o.is_nlcg()) { auto q = nlcg_opts(w); w.opt = Ref(opk_new_nlcg_optimizer(&q, w.space.s(), (opk_lnsrch*)w.lns.p)); }
  else { auto q = vmlmb_opts(w); w.opt = Ref(opk_new_vmlmb_optimizer(&q, w.space.s(), (opk_lnsrch*)w.lns.p, set)); }
  if (!w.opt.p) t.fail("a second optimizer with the same settings cannot be created");
  w.x = Ref(opk_vcreate(w.space.s())); w.g = Ref(opk_vcreate(w.space.s()));
}
template <class R> static Seen look(const Optim<R>& o, opk_task task) {
  Seen s; s.task = task; s.status = o.status(); s.x = o.X(); s.step = o.step(); s.gnorm = o.gnorm(); s.evals = o.evals(); s.iters = o.iters(); s.restarts = o.restarts(); return s;
}
static bool going(opk_task k) { return k == OPK_TASK_COMPUTE_FG || k == OPK_TASK_NEW_X || k == OPK_TASK_FINAL_X; }
template <class R> static double feval(Prob& p, const dvec& x, dvec& g) {
  double f = p.fg(x, g);
  for (auto& v : g) { if (!(fabs(v) < 1e15)) v = v < 0 ? -1e15 : 1e15; v = (R)v; }
  return f;
}

#if defined(CHECK_P15)
// One side of the bounds as an argument of the driver.
template <class R> struct Side {
  opk_bound_type type = OPK_BOUND_NONE; void* addr = nullptr;
  std::unique_ptr<float[]> f; std::unique_ptr<double[]> d; bool is_static = false;
  void make(T& t, const std::vector<R>& v, bool absent, bool scalar) {
    size_t n = v.size(); bool fits = true; for (R e : v) fits = fits && (R)(float)e == e;
    if (absent && t.flag()) return;
    int k = scalar || absent ? (int)t.draw(2) : 1 + (int)t.draw(1);
    bool use_f = fits && t.flag();
    size_t m = k == 0 ? 1 : n;
    if (use_f) { f.reset(new float[m]); for (size_t i = 0; i < m; ++i) f[i] = (float)v[i]; addr = f.get(); }
    else { d.reset(new double[m]); for (size_t i = 0; i < m; ++i) d[i] = v[i]; addr = d.get(); }
    is_static = k == 2;
    type = k == 0 ? (use_f ? OPK_BOUND_SCALAR_FLOAT : OPK_BOUND_SCALAR_DOUBLE) : k == 1 ? (use_f ? OPK_BOUND_VOLATILE_FLOAT : OPK_BOUND_VOLATILE_DOUBLE) : (use_f ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE);
  }
  void created() { if (is_static) return; if (f) f[0] = -1e30f; if (d) d[0] = -1e30; f.reset(); d.reset(); }
};

template <class R> struct Drv {
  T& t; opk_optimizer* o = nullptr; int n; std::unique_ptr<R[]> xb, gb; bool move = false;
  explicit Drv(T& t_, int n_) : t(t_), n(n_) {}
  ~Drv() { opk_destroy_optimizer(o); }
  void set(const dvec& x) { if (!xb || move) xb.reset(new R[n]); for (int i = 0; i < n; ++i) xb[i] = (R)x[i]; }
  void relocate() { std::unique_ptr<R[]> q(new R[n]); for (int i = 0; i < n; ++i) { q[i] = xb[i]; xb[i] = (R)-12345; } xb = std::move(q); }
  Seen look(opk_task task) {
    Seen s; s.task = task; s.status = opk_get_status(o); s.x.assign(xb.get(), xb.get() + n); s.step = opk_get_step(o); s.gnorm = opk_get_gnorm(o); s.evals = opk_get_evaluations(o); s.iters = opk_get_iterations(o); s.restarts = opk_get_restarts(o);
    if (opk_get_task(o) != task) t.fail("driver: pending task is %d after task %d was returned", (int)opk_get_task(o), (int)task);
    return s;
  }
};

template <class R> static void driver(T& t) {
  Optim<R> o; Prob p; int n = (int)t.size(1, 10, 100); o.make(t, n); p.make(t, n);
  Side<R> lo, hi;
  if (o.box.bounded()) {
    auto absent = [&](const std::vector<R>& v, R s) { for (R e : v) if (e != s) return false; return true; };
    auto same = [&](const std::vector<R>& v) { for (R e : v) if (e != v[0]) return false; return true; };
    bool al = absent(o.box.lo, -Box<R>::inf), ah = absent(o.box.hi, Box<R>::inf);
    lo.make(t, o.box.lo, al, same(o.box.lo)); hi.make(t, o.box.hi, ah, same(o.box.hi));
    if (lo.type == OPK_BOUND_NONE && hi.type == OPK_BOUND_NONE) { lo.type = OPK_BOUND_SCALAR_DOUBLE; lo.d.reset(new double[1]); lo.d[0] = -INFINITY; lo.addr = lo.d.get(); }
    t.note("bounds given as types %d and %d", lo.type, hi.type);
  }
  Ref ls = clone_ls(o.ls);
  Drv<R> d(t, n); d.move = t.flag();
  if (o.is_nlcg()) { auto q = nlcg_opts(o); d.o = opk_new_optimizer(OPK_ALGORITHM_NLCG, &q, Kind<R>::type, n, lo.type, lo.addr, hi.type, hi.addr, (opk_lnsrch*)ls.p); }
  else { auto q = vmlmb_opts(o); d.o = opk_new_optimizer(OPK_ALGORITHM_VMLMB, &q, Kind<R>::type, n, lo.type, lo.addr, hi.type, hi.addr, (opk_lnsrch*)ls.p); }
  if (!d.o) t.fail("driver cannot be created (%s %s)", Kind<R>::name, o.mname());
  lo.created(); hi.created();
  if (t.flag()) ls.drop();
  // names
  char b1[200], b2[200]; size_t k1 = 0, k2 = 0;
  if (o.is_nlcg()) { k1 = opk_get_nlcg_name(b1, sizeof b1, o.cg()); } else { k1 = strlen(opk_get_vmlmb_method_name(o.vm())) + 1; snprintf(b1, sizeof b1, "%s", opk_get_vmlmb_method_name(o.vm())); }
  k2 = opk_get_name(b2, sizeof b2, d.o);
  if (k1 != k2 || strcmp(b1, b2)) t.fail("driver name \"%s\" (%zu), optimizer \"%s\" (%zu)", b2, k2, b1, k1);
  k1 = o.is_nlcg() ? opk_get_nlcg_description(b1, sizeof b1, o.cg()) : opk_get_vmlmb_description(b1, sizeof b1, o.vm());
  k2 = opk_get_description(b2, sizeof b2, d.o);
  if (k1 != k2 || strcmp(b1, b2)) t.fail("driver description \"%s\" (%zu), optimizer \"%s\" (%zu)", b2, k2, b1, k1);
  o.start_point(t, p);
  if (opk_get_task(d.o) != OPK_TASK_ERROR || opk_get_status(d.o) != OPK_NOT_STARTED) t.fail("new driver has task %d status %d", (int)opk_get_task(d.o), (int)opk_get_status(d.o));
  if (t.chance(1, 8)) {
    dvec x0 = o.X(); d.set(x0); std::unique_ptr<R[]> g(new R[n]); for (int i = 0; i < n; ++i) g[i] = 1;
    opk_task k = opk_iterate(d.o, d.xb.get(), 1.0, g.get());
    if (k != OPK_TASK_ERROR || opk_get_status(d.o) != OPK_NOT_STARTED) t.fail("iterating before starting: task %d status %d", (int)k, (int)opk_get_status(d.o));
    for (int i = 0; i < n; ++i) if (d.xb[i] != (R)x0[i]) t.fail("iterating before starting changes the variables");
  }
  int sessions = 1 + (int)t.weighted({4, 2, 1}), total = 0, its = 0;
  for (int s = 0; s < sessions; ++s) {
    if (s) o.start_point(t, p);
    dvec x0 = o.X(); d.set(x0);
    opk_task k1 = o.start(), k2 = opk_start(d.o, d.xb.get());
    compare(t, look(o, k1), d.look(k2), "driver after start", 0);
    int budget = (int)t.range(2, 60), k = 0; double f = 0; dvec g;
    while (going(k1) && ++k <= budget) {
      if (k1 == OPK_TASK_COMPUTE_FG) f = feval<R>(p, o.X(), g);
      if (k1 == OPK_TASK_FINAL_X && !t.chance(1, 6)) break;
      ::set(o.g.v(), g);
      if (d.move) d.relocate();
      if (!d.gb || d.move) d.gb.reset(new R[n]);
      for (int i = 0; i < n; ++i) d.gb[i] = (R)g[i];
      if (t.chance(1, 40)) {   // a null address: reported, nothing else happens
        bool nx = t.flag(); dvec xbef(d.xb.get(), d.xb.get() + n); opk_index e = opk_get_evaluations(d.o), it = opk_get_iterations(d.o);
        opk_task q = nx ? opk_iterate(d.o, nullptr, f, d.gb.get()) : opk_iterate(d.o, d.xb.get(), f, nullptr);
        if (q != OPK_TASK_ERROR || opk_get_task(d.o) != OPK_TASK_ERROR || opk_get_status(d.o) != OPK_ILLEGAL_ADDRESS) t.fail("null %s: task %d, pending %d, status %d", nx ? "variables" : "gradient", (int)q, (int)opk_get_task(d.o), (int)opk_get_status(d.o));
        for (int i = 0; i < n; ++i) if (d.xb[i] != (R)xbef[i]) t.fail("null address: variables changed");
        if (e != opk_get_evaluations(d.o) || it != opk_get_iterations(d.o)) t.fail("null address: counters changed");
        t.note("null address"); break;
      }
      if (k1 == OPK_TASK_FINAL_X && o.gnorm() == 0) break;   // nothing to go along: the step depends on how missing bounds are given
      k1 = o.iterate(f); k2 = opk_iterate(d.o, d.xb.get(), f, d.gb.get());
      compare(t, look(o, k1), d.look(k2), "driver", k);
      for (int i = 0; i < n; ++i) if (d.gb[i] != (R)g[i]) t.fail("the driver changes the gradient of the caller");
    }
    total += k; its += (int)o.iters();
    if (t.chance(1, 12)) {
      opk_task q = opk_start(d.o, nullptr);
      if (q != OPK_TASK_ERROR || opk_get_status(d.o) != OPK_ILLEGAL_ADDRESS || opk_get_task(d.o) != OPK_TASK_ERROR) t.fail("start without variables: task %d status %d", (int)q, (int)opk_get_status(d.o));
    }
  }
  // nothing
  if (opk_start(nullptr, d.xb.get()) != OPK_TASK_ERROR || opk_iterate(nullptr, d.xb.get(), 0, d.xb.get()) != OPK_TASK_ERROR || opk_get_task(nullptr) != OPK_TASK_ERROR || opk_get_status(nullptr) != OPK_ILLEGAL_ADDRESS || opk_get_evaluations(nullptr) || opk_get_iterations(nullptr) || opk_get_restarts(nullptr))
    t.fail("a null driver is not reported as such");
  t.nontrivial(its >= 2 && total >= 6);
  t.label(std::string(o.mname()) + (o.ls.kind ? "/given line search" : "/default line search"));
}
#endif

#if defined(CHECK_P17)
// Settings and a problem, and the full dialogue of one session run alone.
template <class R> struct Plan {
  Prob p; dvec x0; int budget = 0; std::vector<Seen> seen;
};
template <class R> struct Session {
  Optim<R>* o; Prob p; opk_task task; int k = 0, budget = 0; double f = 0; dvec g; bool past_final = false;
  std::vector<Seen> seen;
  void begin(const dvec& x0) { ::set(o->x.v(), x0); task = o->start(); seen.push_back(look(*o, task)); }
  bool more() const { return going(task) && k < budget && (task != OPK_TASK_FINAL_X || past_final); }
  void step() {
    ++k;
    if (task == OPK_TASK_COMPUTE_FG) { f = feval<R>(p, o->X(), g); ::set(o->g.v(), g); }
    task = o->iterate(f); seen.push_back(look(*o, task));
    dvec gg = get(o->g.v(), o->n); (void)gg;
  }
};
template <class R> static void same_dialogue(T& t, const std::vector<Seen>& a, const std::vector<Seen>& b, const char* what) {
  if (a.size() != b.size()) t.fail("%s: %zu exchanges, expected %zu", what, b.size(), a.size());
  // the step and the norm are those of the session once an evaluation was made
  for (size_t i = 0; i < a.size(); ++i) compare(t, a[i], b[i], what, (int)i, i >= 2);
}

template <class R> static void restart(T& t) {
  Optim<R> o, w; int n = (int)t.size(1, 10, 100); o.make(t, n); twin(t, o, w);
  Prob p, q; p.make(t, n);
  Session<R> a; a.o = &w; a.p = p; a.past_final = t.chance(1, 6); a.budget = (int)t.range(2, 60);
  o.start_point(t, p); dvec x0 = o.X();
  // any history of the optimizer
  int hist = 1 + (int)t.weighted({4, 2, 1}), old = 0;
  for (int h = 0; h < hist; ++h) {
    if (t.flag()) { q = p; } else q.make(t, n);
    Session<R> s; s.o = &o; s.p = q; s.budget = (int)t.range(0, 40); s.past_final = t.chance(1, 4); o.start_point(t, q); s.begin(o.X());
    int bad = t.chance(1, 6) ? (int)t.range(1, 20) : 0;   // the caller's values become senseless: the session may fail
    while (s.more()) {
      if (bad && s.k >= bad && s.task == OPK_TASK_COMPUTE_FG) { s.f = feval<R>(s.p, o.X(), s.g); for (auto& v : s.g) v = -v; ::set(o.g.v(), s.g); s.task = o.iterate(s.f + s.k); ++s.k; }
      else s.step();
    }
    old += s.k; t.note("session of %d exchanges, task %d", s.k, (int)s.task);
  }
  // fresh optimizer
  a.begin(x0); while (a.more()) a.step();
  Session<R> b; b.o = &o; b.p = p; b.budget = a.budget; b.past_final = a.past_final;
  b.begin(x0); while (b.more()) b.step();
  same_dialogue<R>(t, a.seen, b.seen, "restarted optimizer");
  t.nontrivial(w.iters() >= 2 && old >= 6); t.label(std::string(o.mname()) + " line search " + std::to_string(o.ls.kind));
}

template <class R> static void interleave(T& t) {
  int nopt = 2 + (int)t.draw(1); std::vector<std::unique_ptr<Optim<R>>> os, ws; std::vector<Session<R>> ss(nopt), aa(nopt); std::vector<dvec> x0(nopt);
  for (int i = 0; i < nopt; ++i) {
    os.emplace_back(new Optim<R>); ws.emplace_back(new Optim<R>);
    if (i && t.flag()) twin(t, *os[0], *os[i]); else os[i]->make(t, (int)t.small(1, 8));
    twin(t, *os[i], *ws[i]);
    ss[i].o = os[i].get(); aa[i].o = ws[i].get(); ss[i].p.make(t, os[i]->n); aa[i].p = ss[i].p;
    ss[i].past_final = aa[i].past_final = t.chance(1, 6); ss[i].budget = aa[i].budget = (int)t.range(2, 40);
    os[i]->start_point(t, ss[i].p); x0[i] = os[i]->X();
  }
  for (int i = 0; i < nopt; ++i) { aa[i].begin(x0[i]); while (aa[i].more()) aa[i].step(); }
  std::vector<char> begun(nopt, 0); int switches = 0, last = -1;
  while (true) {
    std::vector<int> ready; for (int i = 0; i < nopt; ++i) if (!begun[i] || ss[i].more()) ready.push_back(i);
    if (ready.empty()) break;
    int i = ready[t.draw(ready.size() - 1)]; switches += i != last; last = i;
    if (!begun[i]) { begun[i] = 1; ss[i].begin(x0[i]); } else ss[i].step();
  }
  int its = 0;
  for (int i = 0; i < nopt; ++i) { same_dialogue<R>(t, aa[i].seen, ss[i].seen, "interleaved optimizer"); its += (int)os[i]->iters(); }
  t.nontrivial(switches >= 6 && its >= 4);
}
#endif

#if defined(CHECK_P31)
template <class R> static double vnorm0(const dvec& x) { for (double e : x) if (e != 0) return 1; return 0; }
// f' = 2^a f, x' = 2^b s.x with signs s: the same dialogue in other units.
template <class R> static void units(T& t) {
  const bool single = sizeof(R) == 4;
  Optim<R> o, w; int n = (int)t.size(1, 10, 100); o.make(t, n);
  int lim = single ? 6 : t.chance(1, 3) ? 100 : 30, a = (int)t.range(-lim, lim), b = (int)t.range(-lim, lim); dvec flip(n, 1.0);
  bool signs = t.flag(); if (signs) for (auto& v : flip) v = t.flag() ? -1 : 1;
  switch (t.draw(3)) { case 0: a = 0; break; case 1: b = 0; break; default:; }
  Prob p; p.make(t, n); o.start_point(t, p); dvec x0 = o.X();
  if (!vnorm0<R>(x0)) b = 0;
  if (o.ls.kind == 3) { b /= 2; a = 2 * b; }   // this line search has an absolute lower bound of the steps: keep their lengths
  double fs = ldexp(1, a), xs = ldexp(1, b), gs = ldexp(1, a - b);
  t.note("function times 2^%d, variables times 2^%d, %s", a, b, signs ? "signs changed" : "same signs"); t.notev("signs", flip.data(), n);
  twin(t, o, w, &flip, xs, gs);
  ::set(o.x.v(), x0); dvec y0(n); for (int i = 0; i < n; ++i) y0[i] = flip[i] * xs * x0[i]; ::set(w.x.v(), y0);
  opk_task k1 = o.start(), k2 = w.start(); double f = 0; bool far = false; dvec g, h(n); int k = 0, budget = (int)t.range(2, 60);
  while (true) {
    dvec x = o.X(), y = w.X();
    if (k1 != k2 || o.status() != w.status()) t.fail("exchange %d: task %d status %d, expected task %d status %d as in the other units", k, (int)k2, (int)w.status(), (int)k1, (int)o.status());
    for (int i = 0; i < n; ++i) if (y[i] != flip[i] * xs * x[i]) t.fail("exchange %d: variable %d is %.17g, expected %.17g (2^%d times %.17g)", k, i, y[i], flip[i] * xs * x[i], b, flip[i] * x[i]);
    if (o.evals() != w.evals() || o.iters() != w.iters() || o.restarts() != w.restarts()) t.fail("exchange %d: %ld evaluations, %ld iterations, %ld restarts in other units, expected %ld, %ld, %ld", k, (long)w.evals(), (long)w.iters(), (long)w.restarts(), (long)o.evals(), (long)o.iters(), (long)o.restarts());
    if (k && w.gnorm() != gs * o.gnorm()) t.fail("exchange %d: norm of the gradient is %.17g, expected %.17g", k, w.gnorm(), gs * o.gnorm());
    if (!going(k1) || ++k > budget || k1 == OPK_TASK_FINAL_X) break;
    if (k1 == OPK_TASK_COMPUTE_FG) {
      f = feval<R>(p, x, g); double m = 0, big = 0; for (double e : g) { m = std::max(m, fabs(e)); }
      for (double e : x) big = std::max(big, fabs(e));
      // far from overflow and underflow, where the products of the two runs differ by exact powers of two
      for (auto& e : g) if (fabs(e) < (single ? 1e-5 : 1e-30)) e = 0;
      if (big > 1e4 || m > 1e4 || (m != 0 && m < (single ? 1e-4 : 1e-20))) { t.label("stopped near underflow or overflow"); break; }
      if (f == 0 || !vnorm0<R>(x)) { if (b) { t.label("stopped at zero"); break; } }
      ::set(o.g.v(), g); for (int i = 0; i < n; ++i) h[i] = flip[i] * gs * g[i]; ::set(w.g.v(), h);
    }
    k1 = o.iterate(f); k2 = w.iterate(fs * f);
    for (double a : {o.step(), w.step()}) if (a != 0 && !(fabs(a) > (single ? 1e-10 : 1e-100) && fabs(a) < (single ? 1e10 : 1e100))) far = true;
    if (far) { t.label("stopped at extreme steps"); break; }
  }
  t.nontrivial(o.iters() >= 2 && (a || b || signs)); t.label(o.mname());
}
#endif
}  // namespace

pbt::Check& pbt_check() {
#if defined(CHECK_P15)
  static pbt::Check c{"P15", "at least two iterations and six exchanges compared", {{"driver-double", driver<double>, 1}, {"driver-float", driver<float>, 1}}, 300000, 60, 10, {}};
#elif defined(CHECK_P17)
  static pbt::Check c{"P17", "at least two iterations after a former session, or at least six changes of optimizer and four iterations", {{"restart-double", restart<double>, 2}, {"restart-float", restart<float>, 1}, {"interleave-double", interleave<double>, 2}, {"interleave-float", interleave<float>, 1}}, 300000, 60, 10, {}};
#else
  static pbt::Check c{"P31", "at least two iterations in changed units", {{"units-double", units<double>, 2}, {"units-float", units<float>, 1}}, 300000, 60, 10, {"no overflow or underflow in either units", "the nonmonotone line search, whose lower bound of the steps is documented as absolute, is used in units that keep the lengths of steps"}};
#endif
  return c;
}
