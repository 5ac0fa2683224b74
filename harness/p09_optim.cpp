// P09 feasibility, P10 descent, P11 convergence, P12 truthful reporting of the gradient based optimizers.
#include "optsim.hpp"

namespace {
template <class R> struct Run {
  T& t; Optim<R> o; Prob p; int max_evals;
  std::vector<double> facc;      // accepted function values
  dvec x, g, xk, gk; double f = 0, fk = 0;
  int evals = 0, iters = 0; opk_task task;
  bool shortened = false; int active = 0;
  explicit Run(T& t_) : t(t_) {}
  void init(int n, bool convex, int meth = -1, int lsk = -1, bool tol = true) {
    o.make(t, n, meth, lsk, tol); p.make(t, n, convex); o.start_point(t, p);
  }
  void eval() {
    x = o.X(); f = p.fg(x, g);
    for (auto& v : g) { if (!(fabs(v) < 1e30)) v = v < 0 ? -1e30 : 1e30; v = (R)v; }
    ::set(o.g.v(), g);
  }
};

static double norm(const dvec& v) { ld s = 0; for (double e : v) s += (ld)e * e; return (double)sqrtl(s); }
template <class R> static double pgnorm(const Run<R>& r, const dvec& x, const dvec& g) {
  if (!r.o.box.bounded()) return norm(g);
  dvec w = r.o.box.mask(x, g); for (size_t i = 0; i < w.size(); ++i) w[i] *= g[i];
  return norm(w);
}

#if defined(CHECK_P09)
template <class R> static void feasible(T& t) {
  Run<R> r(t); int n = (int)t.size(1, 12, 200); r.init(n, false, t.flag() ? VMLMB : BLMVM);
  auto& o = r.o; int met = 0;
  // the solution may be within a few rounding errors of the bounds
  if (t.chance(1, 4)) {
    for (int i = 0; i < n; ++i) {
      R b = t.flag() ? o.box.lo[i] : o.box.hi[i]; if (!std::isfinite((double)b)) continue;
      for (int k = (int)t.range(-3, 3); k; k += k < 0 ? 1 : -1) b = std::nextafter(b, k < 0 ? (R)-INFINITY : (R)INFINITY);
      r.p.c[i] = b;
    }
    t.label("solution-near-bounds");
  }
  auto check = [&](const char* when) {
    dvec x = o.X();
    for (int i = 0; i < n; ++i) {
      if (!(x[i] >= o.box.lo[i] && x[i] <= o.box.hi[i])) t.fail("%s %s: variable %d is %.17g, outside [%.17g, %.17g] %s", Kind<R>::name, o.mname(), i, x[i], (double)o.box.lo[i], (double)o.box.hi[i], when);
      met += x[i] == o.box.lo[i] || x[i] == o.box.hi[i];
    }
  };
  int sessions = t.chance(1, 5) ? 2 : 1;
  for (int s = 0; s < sessions; ++s) {
    if (s) o.start_point(t, r.p);
    dvec x0 = o.X();
    opk_task task = o.start();
    check("after start");
    dvec want = o.box.clamp(x0), x1 = o.X();
    for (int i = 0; i < n; ++i) if (want[i] != x1[i]) t.fail("start moves variable %d from %.17g to %.17g, its projection is %.17g", i, x0[i], x1[i], want[i]);
    int evals = 0, budget = t.chance(1, 6) ? 400 : (int)t.range(1, 60);
    while (true) {
      if (task == OPK_TASK_COMPUTE_FG) {
        if (evals++ >= budget) break;
        check("where the objective function is requested"); r.eval();
        if (std::is_same<R, float>::value && std::any_of(r.x.begin(), r.x.end(), [](double v) { return std::isinf(v); })) break;   // overflow of an unbounded variable in single precision
      } else if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
        check("at an iterate");
        if (task == OPK_TASK_FINAL_X && !t.chance(1, 8)) break;
        if (o.iters() > 400) break;
        { double q = pgnorm(r, r.x, r.g); if (std::is_same<R, float>::value && q * q * 1e35 < fabs(r.f)) break; }   // the length of a restarted step is not representable in single precision
      } else { check("after a failure"); break; }
      task = o.iterate(r.f);
    }
    t.note("session %d: %d evaluations, task %d", s, evals, (int)task);
    if (evals > 3 && met) t.nontrivial();
  }
  t.label(o.mname()); t.label(o.uses_csrch() ? "cubic" : o.ls.kind == 3 ? "nonmonotone" : "backtracking"); t.label(Prob::fname(r.p.fam));
}
#endif

#if defined(CHECK_P10)
template <class R> static void descent(T& t) {
  Run<R> r(t); int n = (int)t.size(1, 10, 200); r.init(n, false);
  auto& o = r.o; opk_task task = o.start();
  std::vector<double> acc; dvec xk, gk; double best = INFINITY;
  bool bounded = o.box.bounded(); int evals = 0, budget = t.chance(1, 10) ? 400 : (int)t.range(5, 120), judged = 0;
  size_t hist = o.ls.kind == 3 ? (size_t)o.ls.m : 1;
  while (true) {
    if (task == OPK_TASK_COMPUTE_FG) {
      if (evals++ >= budget) break;
      r.eval(); t.note("f=%.17g stp=%g", r.f, o.step());
      if (std::is_same<R, double>::value) for (int i = 0; i < n; ++i) if (!std::isfinite(r.x[i])) t.fail("%s: variable %d is %g where the objective function is requested", o.mname(), i, r.x[i]);
    } else if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
      dvec x = o.X();
      if (!acc.empty() && x != r.x) t.fail("the accepted iterate is not the last point where the function was evaluated");
      if (!acc.empty()) {
        double ref = -INFINITY; for (size_t i = acc.size() > hist ? acc.size() - hist : 0; i < acc.size(); ++i) ref = std::max(ref, acc[i]);
        ld slope = 0, cond = 0; for (int i = 0; i < n; ++i) { ld v = ((ld)x[i] - xk[i]) * gk[i]; slope += v; cond += fabsl(v); }
        double eps = 16 * DBL_EPSILON * (fabs(ref) + fabs(r.f));
        if (!(r.f <= ref + eps)) t.fail("%s iterate %zu has f=%.17g, above %.17g (%s)", o.mname(), acc.size(), r.f, ref, hist > 1 ? "worst of the remembered iterates" : "previous iterate");
        // sufficient decrease, except when rounding stops the cubic search
        if (!bounded && r.f < ref) {
          // x is rounded to R after x0 - stp*d
          ld err = 0; for (int i = 0; i < n; ++i) err += fabsl((ld)gk[i]) * (fabsl((ld)xk[i]) + fabsl((ld)x[i])) * 2 * Kind<R>::eps;
          err += cond * 64 * Kind<R>::eps;
          if ((ld)r.f > ref + o.ftol() * slope + o.ftol() * err + eps && -slope > 2 * err) {
            // rounding errors prevent progress: tolerated only for tiny steps
            ld sx = 0, sn = 0; for (int i = 0; i < n; ++i) { sx += ((ld)x[i] - xk[i]) * ((ld)x[i] - xk[i]); sn += (ld)x[i] * x[i]; }
            t.fail("%s iterate %zu lacks sufficient decrease: f=%.17g reference %.17g slope %Lg ftol %g, relative step %Lg", o.mname(), acc.size(), r.f, ref, slope, o.ftol(), sqrtl(sx / (sn + 1e-300L)));
          }
          ++judged;
        }
      }
      acc.push_back(r.f); xk = x; gk = r.g; best = std::min(best, r.f);
      if (task == OPK_TASK_FINAL_X) break;
    } else break;
    task = o.iterate(r.f);
  }
  if (acc.size() > 3) t.nontrivial();
  t.label(o.mname()); t.label(o.uses_csrch() ? "cubic" : o.ls.kind == 3 ? "nonmonotone" : "backtracking"); t.label(Prob::fname(r.p.fam));
}
#endif

#if defined(CHECK_P11)
static void converge(T& t) {
  typedef double R;
  Run<R> r(t); int n = (int)t.size(1, 12, 200);
  r.init(n, true, -1, -2, false);
  auto& o = r.o;
  opk_task task = o.start(); int evals = 0, budget = o.is_nlcg() ? 6000 : 3000; double g0 = -1; int nact = 0;
  while (true) {
    if (task == OPK_TASK_COMPUTE_FG) {
      if (evals++ >= budget) t.fail("%s (line search %d) has not converged on a strictly convex %s problem after %d evaluations (gradient norm %g, initially %g)", o.mname(), o.ls.kind, Prob::fname(r.p.fam), budget, o.gnorm(), g0);
      r.eval(); if (g0 < 0) {
        g0 = pgnorm(r, r.x, r.g);
        // the decrease that remains to be seen must not be lost in the rounding of the function
        double thr = o.grtol * g0; if (g0 > 0 && (thr * thr < 500 * DBL_EPSILON * fabs(r.p.off) || g0 < 1e-3)) t.discard();
      }
      t.note("f=%.17g stp=%g", r.f, o.step());
    } else if (task == OPK_TASK_FINAL_X) break;
    else if (task != OPK_TASK_NEW_X && n == 1 && o.is_nlcg()) t.discard();   // conjugate directions of a single variable are null but for rounding errors
    else if (task != OPK_TASK_NEW_X) t.fail("%s (line search %d) fails on a strictly convex %s problem: %s (gradient norm %g, initially %g, %ld iterations)", o.mname(), o.ls.kind, Prob::fname(r.p.fam), opk_get_reason(o.status()), o.gnorm(), g0, (long)o.iters());
    task = o.iterate(r.f);
  }
  dvec x = o.X(), g; double f = r.p.fg(x, g);
  double pg = pgnorm(r, x, g), thr = o.grtol * g0;
  if (pg > thr * (1 + 1e-9) + 1e-300) t.fail("%s stops at a point with projected gradient norm %g, threshold %g", o.mname(), pg, thr);
  if (o.box.bounded()) { if (!o.box.feasible(x)) t.fail("final point is not feasible"); for (int i = 0; i < n; ++i) nact += x[i] == o.box.lo[i] || x[i] == o.box.hi[i]; }
  // strong convexity: f(x) - f* <= |pg|^2/(2 mu); compare with feasible points found independently
  double mu = r.p.mu(), gap = pg * pg / (2 * mu);
  dvec z = x, gz; double fz = f;
  for (int k = 0; k < 200; ++k) {   // projected gradient with backtracking, from the final point
    dvec gg; double fc = r.p.fg(z, gg); double s = 1; bool ok = false;
    for (int j = 0; j < 40 && !ok; ++j, s *= 0.5) { dvec y(n); for (int i = 0; i < n; ++i) y[i] = z[i] - s * gg[i]; if (o.box.bounded()) y = o.box.clamp(y); double fy = r.p.fg(y, gz); if (fy < fc) { z = y; fz = fy; ok = true; } }
    if (!ok) break;
  }
  if (f - fz > gap * (1 + 1e-6) + 64 * DBL_EPSILON * (fabs(f) + 1)) t.fail("%s: a feasible point with f=%.17g is better than the solution (f=%.17g) by more than %g", o.mname(), fz, f, gap);
  // separable problems have a closed form solution
  if (r.p.fam == 0 || r.p.fam == 2 || r.p.fam == 5) for (int i = 0; i < n; ++i) {
    double s = o.box.bounded() ? std::min((double)o.box.hi[i], std::max((double)o.box.lo[i], r.p.c[i])) : r.p.c[i];
    if (fabs(x[i] - s) > pg / mu * (1 + 1e-6) + 1e-12 * (1 + fabs(s))) t.fail("%s: variable %d is %.17g at the solution, should be %.17g (tolerance %g)", o.mname(), i, x[i], s, pg / mu);
  }
  if (evals > 3) t.nontrivial();
  t.label(o.mname()); t.label(o.uses_csrch() ? "cubic" : o.ls.kind == 3 ? "nonmonotone" : "backtracking"); t.label(Prob::fname(r.p.fam)); if (nact) t.label("active bounds");
}
#endif

#if defined(CHECK_P12)
// Counters over tens of thousands of exchanges: the values decrease and the gradients have a random direction, hence the search never ends.
static void marathon(T& t) {
  long n = t.range(1, 3), total = t.of({40000l, 70000l, 140000l}); bool cg = t.flag(), bounds = !cg && t.chance(1, 3); uint64_t s = t.draw(1000000); opk_vspace* sp = opk_new_simple_double_vector_space(n);
  auto rnd = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)(s >> 33) / 2147483648.0 * 2 - 1; };
  Ref space(sp), x(opk_vcreate(sp)), g(opk_vcreate(sp)), ls(opk_lnsrch_new_backtrack(1e-6, 0.1)); double lo = -1e9; Ref box(bounds ? opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, nullptr) : nullptr);
  opk_nlcg_options a; opk_get_nlcg_default_options(&a); a.gatol = a.grtol = 0; opk_vmlmb_options b; opk_get_vmlmb_default_options(&b); b.gatol = b.grtol = 0; b.mem = t.range(1, 4);
  Ref op(cg ? (void*)opk_new_nlcg_optimizer(&a, sp, (opk_lnsrch*)ls.p) : (void*)opk_new_vmlmb_optimizer(&b, sp, (opk_lnsrch*)ls.p, (opk_convexset*)box.p)); opk_nlcg* c = (opk_nlcg*)op.p; opk_vmlmb* v = (opk_vmlmb*)op.p;
  t.note("%ld evaluations of %ld variables by %s", total, n, cg ? "NLCG" : bounds ? "VMLMB" : "L-BFGS"); if (!op.p) t.fail("no optimizer");
  opk_vzero(x.v()); opk_task k = cg ? opk_start_nlcg(c, x.v()) : opk_start_vmlmb(v, x.v()); long e = 0, it = 0, rs = 0; dvec h(n);
  while (e < total) {
    if (k == OPK_TASK_COMPUTE_FG) { double q = 0; for (auto& w : h) { w = rnd(); q += w * w; } for (auto& w : h) w /= sqrt(q) + 1e-9; opk_vimport(g.v(), h.data(), OPK_DOUBLE, n); ++e; }
    else if (k != OPK_TASK_NEW_X) { t.discard(); }
    double f = -(double)e * 1e3; opk_task was = k; k = cg ? opk_iterate_nlcg(c, x.v(), f, g.v()) : opk_iterate_vmlmb(v, x.v(), f, g.v());
    if (was == OPK_TASK_COMPUTE_FG && k == OPK_TASK_NEW_X && e > 1) ++it;
    if (e % 64 < 2 || e > total - 9) {
      long re = cg ? opk_get_nlcg_evaluations(c) : opk_get_vmlmb_evaluations(v), ri = cg ? opk_get_nlcg_iterations(c) : opk_get_vmlmb_iterations(v), rr = cg ? opk_get_nlcg_restarts(c) : opk_get_vmlmb_restarts(v);
      if (re != e) t.fail("%ld evaluations reported, %ld made", re, e);
      if (ri != it) t.fail("%ld iterations reported, %ld made", ri, it);
      if (rr < rs || rr > it) t.fail("%ld restarts after %ld, %ld iterations", rr, rs, it);
      rs = rr;
    }
  }
  t.label("marathon"); t.nontrivial();
}
template <class R> static void report(T& t) {
  if (t.chance(1, 5000)) return marathon(t);
  Run<R> r(t); int n = (int)t.size(1, 10, 200); r.init(n, false);
  auto& o = r.o;
  if (o.task() != OPK_TASK_ERROR || o.status() != OPK_NOT_STARTED) t.fail("a new optimizer reports task %d and status %d", (int)o.task(), (int)o.status());
  { dvec x0 = o.X(); opk_task k = o.iterate(1.0); if (k != OPK_TASK_ERROR || o.X() != x0 || o.status() != OPK_NOT_STARTED) t.fail("iterating before starting returns task %d", (int)k); }
  int sessions = (int)t.dim(1, 2, 6, 20);
  for (int ses = 0; ses < sessions; ++ses) {
    if (ses) o.start_point(t, r.p);
    opk_task task = o.start(); int evals = 0, iters = 0, restarts = 0; double ginit = -1, gthr = 0; int after = t.chance(1, 12) ? 3000 : (int)t.draw(3), budget = t.chance(1, 20) ? 1500 : (int)t.range(1, 80); bool pending = false; int since = 0;
    dvec xk, gk; bool searching = false;
    if (task != OPK_TASK_COMPUTE_FG) t.fail("start returns task %d", (int)task);
    auto common = [&](const char* when) {
      if (o.task() != task) t.fail("%s: pending task is %d but %d was returned", when, (int)o.task(), (int)task);
      if ((task == OPK_TASK_ERROR || task == OPK_TASK_WARNING) == (o.status() == OPK_SUCCESS)) t.fail("%s: task %d with status %d", when, (int)task, (int)o.status());
      if ((int)o.evals() != evals) t.fail("%s: %ld evaluations reported, %d made", when, (long)o.evals(), evals);
      if ((int)o.iters() != iters) t.fail("%s: %ld iterations reported, %d made", when, (long)o.iters(), iters);
      int rs = (int)o.restarts(); if (rs < restarts || rs > iters) t.fail("%s: %d restarts after %d, %d iterations", when, rs, restarts, iters); restarts = rs;
    };
    common("after start");
    while (true) {
      dvec before = o.X();
      if (task == OPK_TASK_COMPUTE_FG) {
        if (evals >= budget) break;
        r.eval(); t.note("f=%.17g stp=%g", r.f, o.step());
        if (std::is_same<R, float>::value && std::any_of(r.x.begin(), r.x.end(), [](double v) { return std::isinf(v); })) break;   // overflow of an unbounded variable in single precision
        if (searching && !o.box.bounded()) {
          if (!(o.step() >= 0)) t.fail("the step is %g during a line search", o.step());
        }
        opk_task nt = o.iterate(r.f); ++evals;
        task = nt;
        if (nt == OPK_TASK_NEW_X || nt == OPK_TASK_FINAL_X) {
          if (o.X() != before) t.fail("accepting an iterate changes the variables");
          if (evals > 1) ++iters;
          common("at an iterate");
          double gn = pgnorm(r, r.x, r.g), tol = (n + 8) * Kind<R>::eps * gn + (sizeof(R) == 4 ? 1e-17 : 1e-150);  // squares may underflow
          if (fabs(o.gnorm() - gn) > tol) t.fail("%s %s reports gradient norm %.17g, the norm of the (projected) gradient is %.17g", Kind<R>::name, o.mname(), o.gnorm(), gn);
          if (evals == 1) { ginit = o.gnorm(); gthr = std::max(o.gatol, o.grtol * ginit); }
          bool fin = o.gnorm() <= gthr; double band = 4 * DBL_EPSILON * gthr;
          if (fabs(o.gnorm() - gthr) > band || o.gnorm() == 0) if (fin != (nt == OPK_TASK_FINAL_X)) t.fail("task %d with gradient norm %.17g, threshold %.17g", (int)nt, o.gnorm(), gthr);
          searching = false;
        } else {
          common("during a line search");
          if (evals == 1 && (nt == OPK_TASK_COMPUTE_FG || nt == OPK_TASK_WARNING)) t.fail("first evaluation answered by task %d", (int)nt);
          if (nt == OPK_TASK_WARNING) t.fail("undocumented warning task");
        }
      } else if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
        if (task == OPK_TASK_FINAL_X && after-- <= 0) break;
        if (pgnorm(r, r.x, r.g) < (sizeof(R) == 4 ? 1e-12 : 1e-100)) break;   // squares underflow
        xk = before; gk = r.g;
        task = o.iterate(r.f); common("starting a line search");
        if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X || task == OPK_TASK_WARNING) t.fail("task %d when starting a line search", (int)task);
        searching = task == OPK_TASK_COMPUTE_FG;
        if (task == OPK_TASK_ERROR && o.X() != before) t.fail("a failure to start a line search changes the variables");
      } else {
        opk_status s = o.status();
        opk_task nt = o.iterate(1.0);
        if (nt != task || o.status() != s || o.X() != before) t.fail("iterating after task %d: task %d, status %d -> %d", (int)task, (int)nt, (int)s, (int)o.status());
        common("after the end"); t.label("failure");
        break;
      }
    }
    if (iters >= 2) t.nontrivial();
  }
  t.label(o.mname()); t.label(Kind<R>::name); t.label(Prob::fname(r.p.fam));
}
#endif
}  // namespace

pbt::Check& pbt_check() {
#if defined(CHECK_P09)
  static pbt::Check c{"P09", "at least four evaluations and at least one variable met one of its bounds", {{"feasible-double", feasible<double>, 3}, {"feasible-float", feasible<float>, 3}}, 700000, 60, 10, {}};
#elif defined(CHECK_P10)
  static pbt::Check c{"P10", "at least three accepted steps", {{"descent-double", descent<double>, 3}, {"descent-float", descent<float>, 1}}, 400000, 60, 10, {}};
#elif defined(CHECK_P11)
  static pbt::Check c{"P11", "more than three evaluations were needed", {{"convergence", converge, 1}}, 200000, 60, 10, {"the reference solution is closed form or bounded through strong convexity"}};
#else
  static pbt::Check c{"P12", "at least two accepted steps in the last session", {{"report-double", report<double>, 2}, {"report-float", report<float>, 1}}, 300000, 60, 10, {}};
#endif
  return c;
}
