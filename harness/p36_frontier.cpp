// P36: trial points where the objective function is infinite or undefined.
#include "optsim.hpp"

static double norm(const dvec& v) { ld s = 0; for (double e : v) s += (ld)e * e; return (double)sqrtl(s); }
template <class R> struct Wall {
  int mode = 0;   // 0 where the function is large or in a half space, 1 some trials, 2 both
  double f[3] = {NAN, NAN, NAN}; double gv[3] = {NAN, NAN, NAN}; dvec dir; double thr = INFINITY; int first = 0, period = 1, left = 0, hits = 0, trial = 0;
  double level = INFINITY;
  bool at(const dvec& x, double fx) {
    bool bad = false; ++trial;
    if (mode != 1 && fx > level) bad = true;
    if (mode != 1 && !dir.empty()) { ld s = 0; for (size_t i = 0; i < dir.size(); ++i) s += (ld)dir[i] * x[i]; bad = bad || s > thr; }
    if (mode != 0 && trial > 1 && trial >= first && left > 0 && (trial - first) % period == 0) { --left; bad = true; }
    if (bad) ++hits;
    return bad;
  }
  void values(T& t, bool conv) {
    for (int k = 0; k < 3; ++k) { f[k] = t.flag() ? NAN : INFINITY; gv[k] = t.of({(double)NAN, (double)INFINITY, -(double)INFINITY, 0.0, 1.0, -1e30, (double)NAN}); }
    if (t.flag()) { f[1] = f[2] = f[0]; gv[1] = gv[2] = gv[0]; }
    first = (int)t.range(2, 20); period = (int)t.range(1, 6); left = (int)t.range(1, conv ? 3 : 30);
    t.note("where undefined: f=%g, %g, %g, g=%g, %g, %g; mode %d, from trial %d every %d, at most %d", f[0], f[1], f[2], gv[0], gv[1], gv[2], mode, first, period, left);
  }
};
template <class R> static double pg(const Optim<R>& o, const dvec& x, const dvec& g) {
  if (!o.box.bounded()) return norm(g);
  dvec w = o.box.mask(x, g); for (size_t i = 0; i < w.size(); ++i) w[i] *= g[i];
  return norm(w);
}
template <class R> static void frontier(T& t) {
  Optim<R> o; Prob p; int n = (int)t.size(1, 10, 60); bool conv = std::is_same<R, double>::value && t.chance(2, 3);
  int meth = conv ? (int)t.draw(2) : (int)t.draw(3);
  if (conv) o.make(t, n, meth, meth == VMLMB || meth == BLMVM ? -2 : 2 + (int)t.draw(1), false);
  else o.make(t, n, meth, meth == VMLMB || meth == BLMVM ? (int)t.of({0, 2, 3}) : 2 + (int)t.draw(1));
  p.make(t, n, conv); o.start_point(t, p);
  Wall<R> w; w.mode = (int)t.draw(2);
  // a run of the same optimizer with the function defined everywhere
  dvec x0 = o.X(); std::vector<dvec> seen; dvec xs, fs; bool solved = false; double g0 = -1; int plain = 0;
  auto eval = [&](dvec& x, dvec& g) { x = o.X(); double f = p.fg(x, g); for (auto& v : g) { if (!(fabs(v) < 1e30)) v = v < 0 ? -1e30 : 1e30; v = (R)v; } return f; };
  {
    opk_task k = o.start(); dvec x, g; double f = 0;
    while (plain < 3000) {
      if (k == OPK_TASK_COMPUTE_FG) { f = eval(x, g); ++plain; seen.push_back(x); fs.push_back(f); ::set(o.g.v(), g); if (g0 < 0) { g0 = pg(o, x, g); if (conv) { double thr = o.grtol * g0; if (g0 > 0 && (thr * thr < 500 * DBL_EPSILON * fabs(p.off) || g0 < 1e-3)) t.discard(); } } }
      else if (k != OPK_TASK_NEW_X) break;
      k = o.iterate(f);
    }
    solved = k == OPK_TASK_FINAL_X; xs = o.X();
  }
  if (conv && (!solved || o.stpmin > 1e-10)) t.discard();
  w.values(t, conv);
  // The domain is either a level set (which every accepted point of a descent stays in) or a half space (whose frontier may hold up a method
  // which ignores it, so no convergence is required).
  if (conv) { w.level = *std::max_element(fs.begin(), fs.end()); w.level = fs[0] + (w.level - fs[0]) * t.uniform(0, 0.9); t.note("undefined above f=%.17g", w.level); }
  else {
  // the frontier separates some of the trial points of that run from its first and last points
  w.dir.assign(n, 0); ld a = -INFINITY, b = -INFINITY; const dvec& far = seen[(size_t)t.range(0, (long)seen.size() - 1)];
  for (int i = 0; i < n; ++i) w.dir[i] = t.flag() ? far[i] - xs[i] : t.sym(1);
  auto along = [&](const dvec& x) { ld s = 0; for (int i = 0; i < n; ++i) s += (ld)w.dir[i] * x[i]; return s; };
  a = std::max(along(seen[0]), along(xs)); for (auto& x : seen) b = std::max(b, along(x));
  double dn = norm(w.dir), gap = b > a ? (double)(b - a) : dn; w.thr = (double)(a + gap * t.uniform(0.05, 0.95));
  if (w.thr <= a + 1e-3 * dn) w.thr = (double)(a + 1e-3 * dn);
  if (w.mode != 1) { t.notev("undefined above a threshold along", w.dir.data(), n); t.note("threshold %.17g", w.thr); }
  }
  // the run
  ::set(o.x.v(), x0); opk_task k = o.start(); dvec x, g; double f = 0, last = -1, stp0 = 0; int evals = 0, budget = conv ? 6000 : (int)t.range(20, 300), row = 0, iters = 0; bool bad = false, fresh = true;
  while (true) {
    if (k == OPK_TASK_COMPUTE_FG) {
      x = o.X(); double stp = evals ? o.step() : 0;
      if (!conv && std::is_same<R, float>::value && o.stpmin < 1e-10 && stp < 1e-30 && std::any_of(x.begin(), x.end(), [](double v) { return std::isinf(v); })) break;   // overflow of a direction which grows while steps vanish, in single precision
      for (int i = 0; i < n; ++i) if (!std::isfinite(x[i])) t.fail("%s: variable %d of trial point %d is %g after %d undefined values", o.mname(), i, evals, x[i], w.hits);
      if (o.box.bounded() && !o.box.feasible(x)) t.fail("%s: trial point %d is not feasible", o.mname(), evals);
      if (bad && !(stp < last)) t.fail("%s: step %.17g is followed by step %.17g although the function is undefined there", o.mname(), last, stp);
      if (row > 400) t.fail("%s: %d successive trial points where the function is undefined", o.mname(), row);
      if (evals >= budget) { if (conv) t.fail("%s (line search %d) has not converged after %d evaluations on a convex %s problem undefined at %d points (%d evaluations when it is defined everywhere), gradient norm %g, initially %g", o.mname(), o.ls.kind, evals, Prob::fname(p.fam), w.hits, plain, o.gnorm(), g0); break; }
      f = eval(x, g); if (fresh) stp0 = stp; fresh = false;
      bad = w.at(x, f); if (bad) { f = w.f[w.hits % 3]; for (auto& v : g) v = (R)w.gv[w.hits % 3]; ++row; } else row = 0;
      ::set(o.g.v(), g); last = stp; ++evals; t.note("f=%.17g stp=%g", f, stp);
    } else if (k == OPK_TASK_NEW_X || k == OPK_TASK_FINAL_X) {
      if (bad) t.fail("%s: the point of step %g is accepted although the function is %g", o.mname(), last, f);
      ++iters; fresh = true; if (!conv && pg(o, x, g) < 1e-10 * g0) break; if (k == OPK_TASK_FINAL_X) break;
    } else {
      if (k != OPK_TASK_WARNING && k != OPK_TASK_ERROR) t.fail("%s: task %d", o.mname(), (int)k);
      if (conv) t.fail("%s (line search %d) fails on a convex %s problem undefined at %d points: %s (gradient norm %g, initially %g, %d iterations)", o.mname(), o.ls.kind, Prob::fname(p.fam), w.hits, opk_get_reason(o.status()), o.gnorm(), g0, iters);
      if (bad && o.status() != OPK_STEP_EQ_STPMIN) t.fail("%s: a point where the function is %g ends the search with: %s", o.mname(), f, opk_get_reason(o.status()));
      if (bad && last > stp0 * 1e-3 && o.stpmin < 1e-10) t.fail("%s: the search fails for the lower bound of the step at step %g, the first one is %g", o.mname(), last, stp0);
      break;
    }
    k = o.iterate(f);
  }
  if ((int)o.evals() != evals) t.fail("%s: %ld evaluations reported, %d made", o.mname(), (long)o.evals(), evals);
  if (conv) {
    dvec xx, gg; eval(xx, gg); double q = pg(o, xx, gg);
    if (q > o.grtol * g0 * (1 + 1e-9) + 1e-300) t.fail("%s stops at a point with projected gradient norm %g, threshold %g", o.mname(), q, o.grtol * g0);
  }
  if (w.hits && iters > 1) t.nontrivial();
  t.label(o.mname()); t.label(o.ls.kind == 3 ? "nonmonotone" : "backtracking"); t.label(w.mode == 0 ? "frontier" : w.mode == 1 ? "some trials" : "both"); if (conv) t.label("convergence");
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P36", "a case counts when the function was undefined at a trial point at least and two steps were accepted", {{"frontier-double", frontier<double>, 4}, {"frontier-float", frontier<float>, 1}}, 200000, 60, 10, {"runs required to converge have a strictly convex function, whose solution is inside the domain"}};
  return c;
}
