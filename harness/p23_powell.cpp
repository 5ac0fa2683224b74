// P23 to P26: bounds, budget, best point and convergence of the derivative-free solvers.
#include "powell.hpp"

static void basic(T& t, const Job& j, const Result& r) {
  if (r.bad) t.fail("%s", r.bad);
  if (r.runaway) t.fail("%ld evaluations and still not ended", j.cap);
  if (!running(j, r.status)) t.fail("returned %d (%s)", r.status, reason(j, r.status));
}

#if defined(CHECK_P23)
// Bounds are never violated, the number of evaluations is limited.
static void feasible(T& t) {
  Fn f = random_fn(t, t.dim(2, 6, 24, 120), true); Job j; j.solver = BOBYQA;
  bool scaled = t.chance(1, 4); random_job(t, j, f, scaled); j.plain = !scaled && t.flag(); j.maximize = !j.plain && t.chance(1, 4);
  if (j.maximize) j.neg = false;
  note_job(t, j);
  Result r = run_solver(j); basic(t, j, r);
  long n = j.n, ne = (long)r.y.size();
  if (ne < 1) t.fail("no evaluation");
  for (long k = 0; k < ne; ++k) for (long i = 0; i < n; ++i) if (!(r.xs[k][i] >= j.xl[i] && r.xs[k][i] <= j.xu[i])) t.fail("evaluation %ld: variable %ld is %.17g, out of [%.17g,%.17g]", k, i, r.xs[k][i], j.xl[i], j.xu[i]);
  for (long i = 0; i < n; ++i) if (!(r.xend[i] >= j.xl[i] && r.xend[i] <= j.xu[i])) t.fail("final variable %ld is %.17g, out of [%.17g,%.17g]", i, r.xend[i], j.xl[i], j.xu[i]);
  // first point: the given one when far enough from the bounds; the following ones are at a distance of the initial radius
  for (long i = 0; i < n; ++i) {
    double s = scaled ? j.scl[i] : 1, e = 1e-12 * (fabs(j.x0[i]) + j.rhobeg * s);
    if (j.x0[i] - j.xl[i] > j.rhobeg * s + e && j.xu[i] - j.x0[i] > j.rhobeg * s + e && !(fabs(r.xs[0][i] - j.x0[i]) <= (scaled ? e : 0))) t.fail("first evaluation is not at the initial variables: %.17g instead of %.17g", r.xs[0][i], j.x0[i]);
    double cl = std::min(std::max(j.x0[i], j.xl[i]), j.xu[i]);
    if (!(fabs(r.xs[0][i] - cl) <= j.rhobeg * s + e)) t.fail("first evaluation is too far from the initial variables");
    for (long k = 1; k < std::min(ne, j.npt); ++k) if (!(fabs(r.xs[k][i] - r.xs[0][i]) <= 2 * j.rhobeg * s * (1 + 1e-12) + 1e-14 * fabs(r.xs[0][i]))) t.fail("initial evaluation %ld is too far from the first one", k);
  }
  t.label(r.status == BOBYQA_SUCCESS ? "converged" : reason(j, r.status));
  bool bound = false; for (long k = 0; k < ne; ++k) for (long i = 0; i < n; ++i) bound |= r.xs[k][i] == j.xl[i] || r.xs[k][i] == j.xu[i];
  t.label(bound ? "bound-reached" : "interior");
  t.nontrivial(bound && ne > j.npt);
}
static void budget(T& t) {
  Job j; j.solver = (Solver)t.draw(2);
  Fn f = random_fn(t, t.dim(j.solver == COBYLA ? 1 : 2, 6, 24, 120), j.solver == BOBYQA);
  if (j.solver == COBYLA) random_constraints(t, f, some_constraints(t, 5));
  bool scaled = t.chance(1, 4); random_job(t, j, f, scaled); j.plain = !scaled && t.flag();
  j.maxfun = t.chance(1, 8) ? t.range(-1, 1) : t.range(1, 4 * j.npt);
  note_job(t, j);
  Result r = run_solver(j); basic(t, j, r);
  long ne = (long)r.y.size(), mx = std::max(j.maxfun, 1l);
  if (ne > mx) t.fail("%s: %ld evaluations, at most %ld allowed", solver_name[j.solver], ne, mx);
  if (r.status == too_many(j) && ne != mx) t.fail("%s: too many evaluations reported after %ld of %ld", solver_name[j.solver], ne, mx);
  if (r.status == 0 && ne < (j.solver == COBYLA ? j.n + 1 : j.npt)) t.fail("%s: success after %ld evaluations", solver_name[j.solver], ne);
  if (j.solver == COBYLA && r.nevals != ne) t.fail("cobyla reports %ld evaluations instead of %ld", r.nevals, ne);
  if (t.flag()) {  // the limit does not change what is evaluated before
    Job j2 = j; j2.maxfun = mx + t.range(1, 30); Result r2 = run_solver(j2);
    long n2 = (long)r2.y.size();
    if (n2 < ne) t.fail("%s: fewer evaluations with a larger limit", solver_name[j.solver]);
    for (long k = 0; k < ne; ++k) for (long i = 0; i < j.n; ++i) if (r.xs[k][i] != r2.xs[k][i]) t.fail("%s: evaluation %ld depends on the limit of evaluations", solver_name[j.solver], k);
    if (r.status != too_many(j) && n2 != ne) t.fail("%s: other end with a larger limit of evaluations", solver_name[j.solver]);
    t.label("prefix");
  }
  t.label(std::string(solver_name[j.solver]) + (r.status == too_many(j) ? "-limited" : "-ended"));
  t.nontrivial(ne >= 2);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P23", "a case counts when a bound is reached after the initial points, or when at least two evaluations are made under a limit", {{"feasible", feasible, 3}, {"budget", budget, 2}}, 60000, 60, 20,
    {"functions are finite", "infinite bounds are given as 1e20"}};
  return c;
}
#endif

#if defined(CHECK_P24)
static void best(T& t) {
  Job j; j.solver = (Solver)t.weighted({3, 3, 1});
  Fn f = random_fn(t, t.dim(j.solver == COBYLA ? 1 : 2, 6, 24, 120), j.solver == BOBYQA);
  bool scaled = t.chance(1, 4); random_job(t, j, f, scaled); j.plain = !scaled && t.flag(); j.maximize = !j.plain && t.chance(1, 4);
  if (j.maximize) { j.neg = true; }
  j.fill = (int)t.draw(2); note_job(t, j);
  Result r = run_solver(j); basic(t, j, r);
  long ne = (long)r.y.size(), at = -1; double b = r.best();
  for (long k = 0; k < ne && at < 0; ++k) if (r.y[k] == b && r.xs[k] == r.xend) at = k;
  if (at < 0) {
    long any = -1; for (long k = 0; k < ne; ++k) if (r.xs[k] == r.xend) any = k;
    if (any < 0) t.fail("%s (%s): the returned variables were not evaluated", solver_name[j.solver], reason(j, r.status));
    t.fail("%s (%s): value %.17g returned (evaluation %ld of %ld), %.17g was found", solver_name[j.solver], reason(j, r.status), r.y[any], any, ne, b);
  }
  if (j.solver != BOBYQA || r.status == BOBYQA_SUCCESS) if (r.f != (j.neg ? -b : b)) t.fail("%s: reported value %.17g instead of %.17g", solver_name[j.solver], r.f, j.neg ? -b : b);
  t.label(std::string(solver_name[j.solver]) + (r.status == 0 ? "-converged" : r.status == too_many(j) ? "-limited" : "-failed"));
  t.nontrivial(at > 0 && ne > j.n + 2);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P24", "a case counts when the best point is not the first one and more than n+2 evaluations are made", {{"best", best, 1}}, 60000, 60, 20, {"functions are finite", "COBYLA without constraints"}};
  return c;
}
#endif

#if defined(CHECK_P25)
static void converge(T& t) {
  Job j; j.solver = t.flag() ? BOBYQA : NEWUOA; long n = t.dim(2, 6, 12);
  Fn f; f.n = n; f.kind = 0; f.c.resize(n); for (auto& q : f.c) q = t.sym(5);
  double cond = t.loguniform(1, 30); f.a = random_spd(t, n, 1, cond); f.f0 = t.chance(1, 2) ? 0 : t.sym(10);
  long hi = (n + 1) * (n + 2) / 2; j.n = n; j.f = &f; j.npt = t.chance(1, 3) ? hi : t.chance(1, 2) ? std::min(hi, 2 * n + 1) : t.range(n + 2, hi);
  j.rhobeg = t.loguniform(0.1, 2); j.rhoend = j.rhobeg * t.loguniform(f.f0 != 0 ? 1e-5 : 1e-7, 1e-2); if (t.chance(1, 4)) f.quart = t.loguniform(0.01, 1); j.maxfun = 100000; j.cap = 5000;
  j.x0.resize(n); for (auto& q : j.x0) q = t.sym(5);
  if (t.chance(1, 5)) { j.scl.resize(n); for (auto& q : j.scl) q = t.loguniform(0.5, 2); }
  long nact = 0;
  if (j.solver == BOBYQA) {
    j.xl.resize(n); j.xu.resize(n); f.g.assign(n, 0.0);
    for (long i = 0; i < n; ++i) {
      double s = j.scl.empty() ? 1 : j.scl[i];
      j.xl[i] = f.c[i] - t.unit() * 3; j.xu[i] = f.c[i] + t.unit() * 3;
      switch (t.draw(4)) {
        case 0: j.xl[i] = f.c[i]; f.g[i] = t.unit() * cond; ++nact; break;
        case 1: j.xu[i] = f.c[i]; f.g[i] = -t.unit() * cond; ++nact; break;
        case 2: j.xl[i] = -1e20; break;
        case 3: j.xu[i] = 1e20; break;
      }
      double gap = 2.01 * j.rhobeg * s;
      if (j.xu[i] - j.xl[i] < gap) { if (f.g[i] < 0) j.xl[i] = j.xu[i] - gap; else if (f.g[i] > 0) j.xu[i] = j.xl[i] + gap; else { j.xl[i] -= gap / 2; j.xu[i] += gap / 2; } }
    }
  }
  note_job(t, j); t.note("condition %g", cond);
  Result r = run_solver(j); basic(t, j, r);
  double d = 0, sx = 0; for (long i = 0; i < n; ++i) { double s = j.scl.empty() ? 1 : j.scl[i]; d += (r.xend[i] - f.c[i]) * (r.xend[i] - f.c[i]) / s / s; sx = std::max(sx, fabs(f.c[i])); }
  d = sqrt(d); long ne = (long)r.y.size();
  // limits: at least five times what is observed over 100000 problems
  bool full = j.npt == hi, quartic = f.quart != 0;
  double lim = full ? (quartic ? 10 : 2) : quartic ? 1000 : 100; long evmax = j.npt + (full ? (quartic ? 150 * n : 40 + 15 * n) : quartic ? 800 * n : 150 * n);
  const char* sn = solver_name[j.solver];
  if (r.status == BOBYQA_ROUNDING_ERRORS && j.solver == BOBYQA) { if (!(d <= 0.05 * j.rhobeg)) t.fail("%s: rounding errors reported at a distance %g of the minimum for an initial radius %g", sn, d, j.rhobeg); t.label("rounding-errors"); return; }
  if (r.status != 0) t.fail("%s: %s (after %ld evaluations)", sn, reason(j, r.status), ne);
  if (!(d <= lim * j.rhoend)) t.fail("%s: distance to the minimum is %g for a final radius %g (%s model, %ld evaluations)", sn, d, j.rhoend, full ? "complete" : "incomplete", ne);
  if (ne > evmax) t.fail("%s: %ld evaluations (%ld interpolation points, initial radius %g, final radius %g)", sn, ne, j.npt, j.rhobeg, j.rhoend);
  if (full) t.label("complete-model");
  if (nact) t.label("active-bounds");
  if (!j.scl.empty()) t.label("scaled");
  t.label(solver_name[j.solver]);
  t.nontrivial(ne > j.npt + 3);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P25", "a case counts when trust region steps follow the initial points", {{"converge", converge, 1}}, 80000, 60, 20, {"strictly convex quadratic functions with a condition number up to 30, possibly plus fourth powers", "limits of accuracy and cost are five times the worst observed over 100000 problems"}};
  return c;
}
#endif

#if defined(CHECK_P26)
// The best vertex is known by its displacement from another one, it may be left with rounding errors.
static bool close_to(const dvec& a, const dvec& b, double rho) {
  for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i]) <= 1e-14 * (fabs(a[i]) + rho))) return false;
  return true;
}
// Convex problem whose solution is known by its optimality conditions; tells whether it is solved.
static bool solve_one(T& t, std::string& why, bool& nontriv) {
  Job j; j.solver = COBYLA; long n = j.n = t.dim(1, 5, 9); Fn f; f.n = n; f.kind = 0; j.f = &f;
  f.c.resize(n); for (auto& q : f.c) q = t.sym(3);
  bool lp = t.chance(1, 8), curv = t.chance(1, 3); double cond = t.loguniform(1, 4); f.a = lp ? dvec(n * n, 0.0) : random_spd(t, n, 1, cond); if (n == 1 && !lp) f.a[0] = cond;
  long act = lp ? n : t.range(0, n), ina = t.range(0, 3); f.m = j.m = act + ina;
  f.ca.assign(f.m * n, 0.0); f.cb.assign(f.m, 0.0); f.cq.assign(f.m, 0.0); f.g.assign(n, 0.0);
  std::vector<long> perm(f.m); for (long k = 0; k < f.m; ++k) perm[k] = k; for (long k = f.m - 1; k > 0; --k) std::swap(perm[k], perm[t.range(0, k)]);
  for (long k = 0; k < f.m; ++k) {
    double* a = &f.ca[perm[k] * n]; bool curved = curv && t.chance(1, 2);
    if (k < act) { double s = t.flag() ? 1 : -1; for (long i = 0; i < n; ++i) a[i] = (i == k ? s : 0) + t.sym(0.6) / n; double lam = t.uniform(0.2, 2); for (long i = 0; i < n; ++i) f.g[i] += lam * a[i]; }
    else { for (long i = 0; i < n; ++i) a[i] = t.sym(1); f.cb[perm[k]] = t.uniform(0.1, 3); }
    if (curved && !(lp && k < act && false)) f.cq[perm[k]] = t.uniform(0, 0.3);
  }
  f.f0 = t.flag() ? 0 : t.sym(3); j.npt = 0; j.rhobeg = t.loguniform(0.1, 1); j.rhoend = j.rhobeg * t.loguniform(1e-5, 1e-2); j.maxfun = 5000 + 1000 * n; j.cap = 20000;
  j.x0.resize(n); for (long i = 0; i < n; ++i) j.x0[i] = f.c[i] + t.sym(3);
  j.maximize = t.chance(1, 4); j.neg = j.maximize; if (t.chance(1, 5)) { j.scl.resize(n); for (auto& q : j.scl) q = t.loguniform(0.5, 2); }
  note_job(t, j); t.notev("a", f.ca.data(), f.m * n); t.notev("b", f.cb.data(), f.m); t.notev("q", f.cq.data(), f.m); t.notev("g", f.g.data(), n); t.notev("A", f.a.data(), n * n);
  Result r = run_solver(j); basic(t, j, r);
  long ne = (long)r.y.size(), at = -1;
  for (long k = ne - 1; k >= 0 && at < 0; --k) if (close_to(r.xs[k], r.xend, j.rhobeg) && r.f == (j.neg ? -r.y[k] : r.y[k]) && r.cv[k] == r.maxcv) at = k;
  if (at < 0) for (long k = ne - 1; k >= 0 && at < 0; --k) if (close_to(r.xs[k], r.xend, j.rhobeg)) at = k;
  if (at < 0) t.fail("the returned variables were not evaluated");
  if (r.f != (j.neg ? -r.y[at] : r.y[at])) t.fail("reported value is %.17g instead of %.17g", r.f, r.y[at]);
  if (r.maxcv != r.cv[at]) t.fail("reported violation is %.17g instead of %.17g", r.maxcv, r.cv[at]);
  if (r.nevals != ne) t.fail("%ld evaluations reported, %ld made", r.nevals, ne);
  double d = 0; for (long i = 0; i < n; ++i) d = std::max(d, fabs(r.xend[i] - f.c[i]));
  double df = r.y[at] - f.f0, dm = d / j.rhoend; const char* w = lp ? "linear" : "quadratic";
  t.label(w); if (f.m == 0) t.label("unconstrained");
  nontriv = act > 0 && ne > 2 * n + 2;
  if (r.status == 0 && dm <= 60 && r.maxcv <= 10 * j.rhoend) return true;
  char s[300]; snprintf(s, sizeof s, "%s problem (n=%ld m=%ld): %s, distance to the solution is %g for a final radius %g, violation %g, difference of function %g, %ld evaluations", w, n, j.m, reason(j, r.status), d, j.rhoend, r.maxcv, df, ne);
  why = why.empty() ? s : why + "; " + s; t.label("unsolved"); return false;
}
// The method is a heuristic: about one problem of 100000 (one linear problem of 10000) is left unsolved, two of six are not.
static void constrained(T& t) {
  int bad = 0; std::string why; bool nt = false;
  for (int k = 0; k < 6; ++k) { bool q = false; if (!solve_one(t, why, q)) ++bad; nt |= q; }
  t.nontrivial(nt);
  if (bad >= 2) t.fail("%d problems of 6 are not solved: %s", bad, why.c_str());
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P26", "a case (six problems) counts when a constraint is active at the solution of one of them", {{"constrained", constrained, 1}}, 40000, 60, 20, {"convex problems with independent active constraints", "an isolated failure to converge is accepted, the documentation of the method promises no accuracy"}};
  return c;
}
#endif
