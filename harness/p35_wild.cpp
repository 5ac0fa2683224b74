// P35: functions whose values are not finite, huge or tiny.
#include "powell.hpp"

static double wild(T& t) {
  switch (t.draw(8)) { case 0: return INFINITY; case 1: return NAN; case 2: return -INFINITY; case 3: return 1e308; case 4: return -1e308; case 5: return t.flag() ? 1e200 : -1e200; case 6: return t.flag() ? 5e-324 : -1e-310; case 7: return t.flag() ? 1e-160 : -1e-170; default: return t.flag() ? DBL_MAX : -DBL_MAX; }
}
// Which values are replaced: some evaluations, or those made in a half space (the objective is not defined there).
struct Spoiler {
  double v[3]; int mode; long first, period, left; dvec dir; double thr = 0;
  long k = 0, hits = 0; const double* at = nullptr; bool barrier = false;
  void make(T& t, long n, const double* x0) {
    v[0] = wild(t); if (t.flag()) v[1] = v[2] = v[0]; else { v[1] = wild(t); v[2] = wild(t); }
    mode = (int)t.draw(3); first = t.small(0, 40); period = t.range(1, 12); left = mode == 0 ? 1 : mode == 1 ? t.range(2, 20) : 1000000000;
    barrier = t.chance(1, 3);
    if (barrier) { dir.resize(n); double s = 0; for (long i = 0; i < n; ++i) { dir[i] = t.sym(1); s += dir[i] * x0[i]; } thr = s + t.loguniform(1e-3, 10); t.notev("values replaced above a threshold along", dir.data(), n); }
    t.note("from value %ld replaced by %g, %g, %g (mode %d, every %ld, at most %ld, threshold %.17g)", first, v[0], v[1], v[2], mode, period, left, thr);
  }
  void reset() { k = hits = 0; left0 = left; }
  long left0 = 0;
  double operator()(double x, const double* p) {
    long q = k++;
    if (barrier) { double s = 0; for (size_t i = 0; i < dir.size(); ++i) s += dir[i] * p[i]; if (s > thr) { ++hits; return v[0]; } return x; }
    if (q < first || left0 <= 0 || (mode != 3 && (q - first) % period)) return x;
    --left0; ++hits; return v[hits % 3];
  }
};
struct Wild { Job j; Fn f; Spoiler s; };
static void make(T& t, Wild& w, bool revcom) {
  Job& j = w.j; j.solver = revcom ? (t.flag() ? COBYLA : NEWUOA) : (Solver)t.draw(2); w.f = random_fn(t, t.dim(j.solver == COBYLA ? 1 : 2, 5, 12), j.solver == BOBYQA);
  if (j.solver == COBYLA) random_constraints(t, w.f, some_constraints(t, 4));
  random_job(t, j, w.f, !revcom && t.chance(1, 4)); if (!revcom) j.maximize = t.chance(1, 4); j.neg = j.maximize; j.maxfun = std::min(j.maxfun, 300l); if (revcom) j.maxfun = std::max(j.maxfun, 1l);
  if (t.flag()) { j.maxfun = std::max(j.maxfun, 200l); }   // else often too short
  note_job(t, j); t.note("%s", revcom ? "reverse communication" : ""); w.s.make(t, j.n, j.x0.data()); w.s.reset(); w.f.spoil = [&w](double v, const double* p) { return w.s(v, p); };
}
static void points(T& t, const Job& j, const char* what, const double* x) {
  const char* sn = solver_name[j.solver]; if (j.solver == NEWUOA) return;
  for (long i = 0; i < j.n; ++i) {
    if (!std::isfinite(x[i])) t.fail("%s: variable %ld of the %s is %g", sn, i, what, x[i]);
    double e = j.scl.empty() ? 0 : 4 * DBL_EPSILON;
    if (j.solver == BOBYQA && !(x[i] >= j.xl[i] - e * fabs(j.xl[i]) && x[i] <= j.xu[i] + e * fabs(j.xu[i]))) t.fail("%s: variable %ld of the %s is %.17g, not in [%.17g,%.17g]", sn, i, what, x[i], j.xl[i], j.xu[i]);
  }
}
static void finish(T& t, const Wild& w, int status, long n) {
  t.label(solver_name[w.j.solver]); t.label(status == 0 ? "success" : reason(w.j, status)); if (w.s.barrier) t.label("half space"); t.nontrivial(w.s.hits > 0 && n > (w.j.solver == COBYLA ? w.j.n + 1 : w.j.npt));
}
static void direct(T& t) {
  Wild w; make(t, w, false); const Job& j = w.j; const char* sn = solver_name[j.solver];
  Result r = run_solver(j); long n = (long)r.y.size();
  if (r.bad) t.fail("%s: %s", sn, r.bad);
  if (!running(j, r.status)) t.fail("%s: returned %d (%s)", sn, r.status, reason(j, r.status));
  if (n > std::max(1l, j.maxfun)) t.fail("%s: %ld evaluations, the limit is %ld", sn, n, j.maxfun);
  if (j.solver == COBYLA && r.nevals != n) t.fail("%s: %ld evaluations reported, %ld made", sn, r.nevals, n);
  for (auto& x : r.xs) points(t, j, "evaluated point", x.data());
  points(t, j, "result", r.xend.data());
  finish(t, w, r.status, n);
}
static void revcom(T& t) {
  Wild w; make(t, w, true); const Job& j = w.j; const char* sn = solver_name[j.solver];
  struct C { newuoa_context* a = nullptr; cobyla_context* b = nullptr; ~C() { newuoa_delete(a); cobyla_delete(b); } } c;
  if (j.solver == NEWUOA) c.a = newuoa_create(j.n, j.npt, j.rhobeg, j.rhoend, 0, j.maxfun); else c.b = cobyla_create(j.n, j.m, j.rhobeg, j.rhoend, 0, j.maxfun);
  if (!c.a && !c.b) t.fail("no context created");
  Result ref = run_solver(j); w.s.reset();
  dvec x = j.x0, con(j.m + 1); int st = 1; long k = 0;
  while (st == 1) {
    points(t, j, "requested point", x.data());
    if (k >= (long)ref.xs.size()) t.fail("%s: evaluation %ld, the direct call makes %zu", sn, k, ref.xs.size());
    for (long i = 0; i < j.n; ++i) if (x[i] != ref.xs[k][i] && (x[i] == x[i] || ref.xs[k][i] == ref.xs[k][i])) t.fail("%s: evaluation %ld: variable %ld is %.17g instead of %.17g", sn, k, i, x[i], ref.xs[k][i]);
    if (k >= j.maxfun) t.fail("%s: more than %ld evaluations requested", sn, j.maxfun);
    if (j.m) j.f->con(x.data(), con.data()); double v = (*j.f)(x.data()); ++k;
    st = c.a ? (int)newuoa_iterate(c.a, v, x.data()) : (int)cobyla_iterate(c.b, v, x.data(), con.data());
  }
  if (!running(j, st)) t.fail("%s: ended with %d (%s)", sn, st, reason(j, st));
  if (st != ref.status || k != (long)ref.y.size()) t.fail("%s: status %d after %ld evaluations instead of %d after %zu", sn, st, k, ref.status, ref.y.size());
  points(t, j, "result", x.data());
  finish(t, w, st, k); t.label("reverse communication");
}
// One dimensional search.
struct Line { Fn f; Spoiler s; dvec x; };
static double line(void* d, double x) { Line* l = (Line*)d; l->x.push_back(x); return l->f(&x); }
static void univariate(T& t) {
  Line l; l.f = random_fn(t, 1, false); double a = t.sym(10), b = a + t.loguniform(1e-3, 10); if (t.flag()) std::swap(a, b); unsigned flags = (unsigned)t.draw(7); long me = t.range(3, 300); double prec = t.chance(1, 8) ? 0 : t.loguniform(1e-14, 1e-1);
  t.note("fmin function %d k=%g a=%.17g b=%.17g flags=%u maxeval=%ld prec=%g", l.f.kind, l.f.k, a, b, flags, me, prec); t.notev("c", l.f.c.data(), 1);
  l.s.make(t, 1, &a); l.s.reset(); l.f.spoil = [&](double v, const double* p) { return l.s(v, p); };
  double o[7]; int st = opk_fmin_with_context(line, a, b, flags, me, prec, o, &l);
  if (st < 0 || st > 2) t.fail("fmin returns %d", st);
  if ((long)l.x.size() > me || o[6] != (double)l.x.size()) t.fail("fmin: %zu evaluations made, %g reported, at most %ld allowed", l.x.size(), o[6], me);
  double lo = std::min(a, b), hi = std::max(a, b);
  if ((flags & OPK_FMIN_BOUNDED_BY_A) && (flags & OPK_FMIN_BOUNDED_BY_B)) for (double x : l.x) if (!(x >= lo && x <= hi)) t.fail("fmin: evaluation at %.17g, not between %.17g and %.17g", x, lo, hi);
  t.label("fmin"); t.nontrivial(l.s.hits > 0 && l.x.size() > 4);
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P35", "a case counts when a value has been replaced in a run which goes on after its initial points", {{"direct", direct, 4}, {"revcom", revcom, 2}, {"univariate", univariate, 2}}, 300000, 60, 20, {}};
  return c;
}
