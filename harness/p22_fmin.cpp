// P22: minimization of a function of one variable.
#include "opk.hpp"
extern "C" {
struct opk_fmin_context_;
opk_fmin_context_* opk_fmin_new(int);
void opk_fmin_destroy(opk_fmin_context_*);
opk_status opk_fmin_set_precision(opk_fmin_context_*, double);
double opk_fmin_get_precision(opk_fmin_context_*);
unsigned int opk_fmin_get_flags(opk_fmin_context_*);
opk_fmin_task opk_fmin_get_status(opk_fmin_context_*);
opk_status opk_fmin_start(opk_fmin_context_*, double, double, unsigned int);
opk_status opk_fmin_get_initial(opk_fmin_context_*, double*, double*, unsigned int*);
opk_status opk_fmin_get_final(opk_fmin_context_*, double*, double*, double*, double*, double*, double*, long*);
opk_fmin_task opk_fmin_next(opk_fmin_context_*, double*, double);
}

struct Fun {
  int kind = 0; double c = 0, p = 1, l = 1, r = 1, k = 1; bool unimodal = true;
  double operator()(double x) const {
    switch (kind) {
      case 0: { double d = x - c; return d < 0 ? -l * d : r * d; }
      case 1: { double d = x - c; return (d < 0 ? l : r) * d * d; }
      case 2: { double d = fabs(x - c); return (x < c ? l : r) * pow(d, p); }
      case 3: { double d = x - c; return d * d * 0.01 + l * sin(k * d); }       // several minima
      case 4: return l * floor(fabs(x - c) * k);                                // plateaus
      case 5: return r;                                                         // constant
      default: return fabs(x - 12.7) * (x + 5.2) * (x - 4.8);
    }
  }
};
struct Rec { const Fun* f; std::vector<double> x, y; long cap; bool over = false; };
static double eval(void* d, double x) {
  Rec* r = (Rec*)d;
  if ((long)r->x.size() >= r->cap) { r->over = true; throw r; }
  double y = (*r->f)(x); r->x.push_back(x); r->y.push_back(y); return y;
}
static Rec* current;
static double eval1(double x) { return eval(current, x); }

static void search(T& t) {
  Fun f; f.kind = (int)t.weighted({3, 3, 3, 2, 1, 1, 1}); f.unimodal = f.kind <= 2;
  f.c = t.chance(1, 8) ? 0.0 : t.real(1e3); f.p = t.of({0.5, 1.0, 1.5, 2.0, 3.0, 4.0}); f.l = t.loguniform(0.1, 10); f.r = t.loguniform(0.1, 10); f.k = t.uniform(0.2, 4);
  unsigned flags = (unsigned)t.draw(7);
  double a = t.real(1e3), b = t.chance(1, 4) ? a + t.sym(1) : t.real(1e3);
  if (t.chance(1, 4)) { a = f.c - t.loguniform(1e-3, 10); b = f.c + t.loguniform(1e-3, 10); if (t.flag()) std::swap(a, b); }
  double prec = t.weighted({4, 1, 1}) == 0 ? t.loguniform(1e-14, 0.1) : t.flag() ? -1.0 : 0.0;
  long maxeval = t.chance(1, 2) ? -1 : t.chance(1, 6) ? 0 : t.range(1, 60);
  double out[7]; for (double& q : out) q = NAN;
  bool abound = flags & OPK_FMIN_BOUNDED_BY_A, bbound = flags & OPK_FMIN_BOUNDED_BY_B;
  // a bounded search with an infinitely remote minimum on the wrong side still converges to the bound
  Rec rec{&f, {}, {}, 20000};
  t.note("function %d c=%.17g p=%g l=%g r=%g k=%g a=%.17g b=%.17g flags=%u prec=%g maxeval=%ld", f.kind, f.c, f.p, f.l, f.r, f.k, a, b, flags, prec, maxeval);
  int st; bool ctx = t.flag();
  errno = 0; current = &rec;
  try { st = ctx ? opk_fmin_with_context(eval, a, b, flags, maxeval, prec, out, &rec) : opk_fmin(eval1, a, b, flags, maxeval, prec, out); }
  catch (Rec*) {
    t.fail("search not ended after %ld evaluations (function %d with its minimum at %g, interval %g to %g, flags %u, precision %g, at most %ld evaluations allowed)", rec.cap, f.kind, f.c, a, b, flags, prec, maxeval);
  }
  long n = (long)rec.x.size();
  if (a == b) { if (st != -1 || errno != EINVAL || n) t.fail("identical ends: returned %d, errno %d, %ld evaluations", st, errno, n); t.label("identical-ends"); return; }
  if (st < 0 || st > 2) t.fail("search returns %d", st);
  long mini = 1 + !abound + !bbound;
  if (out[6] != (double)n) t.fail("%g evaluations reported, %ld made", out[6], n);
  if (maxeval >= 0 && n > std::max(maxeval, mini)) t.fail("%ld evaluations, at most %ld allowed (at least %ld needed)", n, maxeval, mini);
  if (n < mini) t.fail("%ld evaluations", n);
  if (st > 0 && (maxeval < 0 || n < maxeval)) t.fail("returned %d after %ld evaluations of at most %ld", st, n, maxeval);
  long k = 0;
  if (!abound && rec.x[k++] != a) t.fail("first evaluation is not at the first end");
  if (!bbound && rec.x[k++] != b) t.fail("second end is not evaluated first");
  double lo = std::min(a, b), hi = std::max(a, b), best = INFINITY;
  bool lob = a < b ? abound : bbound, hib = a < b ? bbound : abound;
  for (long i = 0; i < n; ++i) {
    if (i == k && !(rec.x[i] > lo && rec.x[i] < hi) && fabs(hi - lo) > 8 * DBL_EPSILON * (fabs(lo) + fabs(hi))) t.fail("first inner point %.17g is not between %.17g and %.17g", rec.x[i], lo, hi);
    bool tight = prec == 0 || prec < 1e-13;   // the distance to the bound may vanish by rounding
    if ((lob && (tight ? rec.x[i] < lo : rec.x[i] <= lo)) || (hib && (tight ? rec.x[i] > hi : rec.x[i] >= hi))) if (!(fabs(hi - lo) <= 1e-14 * (fabs(lo) + fabs(hi)))) t.fail("evaluation at %.17g, outside the strict bounds %.17g and %.17g", rec.x[i], lo, hi);
    best = std::min(best, rec.y[i]);
  }
  auto value = [&](double x, double y, const char* what) {
    for (long i = 0; i < n; ++i) if (rec.x[i] == x && rec.y[i] == y) return;
    if ((abound && x == a && y == HUGE_VAL) || (bbound && x == b && y == HUGE_VAL)) return;
    t.fail("%s: (%.17g, %.17g) was not evaluated", what, x, y);
  };
  value(out[0], out[3], "solution"); value(out[1], out[4], "lower end"); value(out[2], out[5], "upper end");
  if (!(out[1] <= out[2])) t.fail("lower end %.17g above upper end %.17g", out[1], out[2]);
  t.label(st == 0 ? "converged" : st == 1 ? "bracketed" : "not-bracketed");
  if (st == 2) {
    // three successive positions towards the decreasing side
    if (!(out[1] < out[0] && out[0] < out[2]) && !(fabs(out[2] - out[1]) <= 1e-14 * (fabs(out[1]) + fabs(out[2])))) t.fail("without bracket, positions %.17g, %.17g, %.17g are not ordered", out[1], out[0], out[2]);
    if (n > mini ? !((out[4] >= out[3] && out[3] > out[5]) || (out[5] >= out[3] && out[3] > out[4])) : !(out[3] > std::min(out[4], out[5]))) t.fail("without bracket, values %.17g, %.17g, %.17g are not monotone", out[4], out[3], out[5]);
    { std::set<double> got{out[0], out[1], out[2]}; if (n >= 3 && !got.count(rec.x[n - 1])) t.fail("the last position is not reported"); }
    if (best != std::min(std::min(out[3], out[4]), out[5])) t.fail("lowest value %.17g is lost", best);
    return;
  }
  if (out[3] != best) t.fail("value of the solution is %.17g but %.17g was found", out[3], best);
  if (!(out[1] <= out[0] && out[0] <= out[2])) t.fail("solution %.17g not in the final interval [%.17g,%.17g]", out[0], out[1], out[2]);
  if (!(out[4] >= out[3] && out[5] >= out[3])) t.fail("final interval is not a bracket");
  double eff = prec < 0 ? sqrt(DBL_EPSILON) : prec, r = std::max(std::max(fabs(out[0]), fabs(out[1])), fabs(out[2]));
  double ulp = 4 * DBL_EPSILON * r + 64 * DBL_TRUE_MIN;
  if (st == 0) {
    double wdt = std::max(out[2] - out[0], out[0] - out[1]);
    if (!(wdt <= eff * r + ulp)) t.fail("convergence announced with an uncertainty of %g for a precision %g and a magnitude %g", wdt, eff, r);
  } else {
    double wdt = std::max(out[2] - out[0], out[0] - out[1]);
    if (wdt <= eff * r * 0.5) t.fail("too many evaluations reported though converged");
  }
  if (f.unimodal) {
    // the minimizer over the search domain is in the final interval
    double c = f.c; if (lob) c = std::max(c, lo); if (hib) c = std::min(c, hi);
    double flat = (f.kind == 0 ? 0 : f.kind == 1 ? 1e-160 : f.p > 2 ? pow(DBL_TRUE_MIN * 1e10, 1 / f.p) : 1e-150) + ulp;
    if (!(c >= out[1] - flat && c <= out[2] + flat)) t.fail("minimizer %.17g is not in the final interval [%.17g,%.17g]", c, out[1], out[2]);
  }
  t.nontrivial(n > 8);

  // same search by reverse communication
  if (maxeval >= 0) return;
  opk_fmin_context_* o = opk_fmin_new(0);
  struct D { opk_fmin_context_* o; ~D() { opk_fmin_destroy(o); } } guard{o};
  double x = 0, fx = 0;
  if (opk_fmin_next(o, &x, fx) != OPK_FMIN_ERROR) t.fail("search not started is not refused");
  if (prec >= 0 && opk_fmin_set_precision(o, prec) != OPK_SUCCESS) t.fail("precision refused");
  if (opk_fmin_set_precision(o, -1) != OPK_INVALID_ARGUMENT || opk_fmin_get_precision(o) != eff) t.fail("precision is %g", opk_fmin_get_precision(o));
  if (opk_fmin_start(o, a, b, flags) != OPK_SUCCESS) t.fail("start refused");
  double a1, b1; unsigned f1;
  if (opk_fmin_get_initial(o, &a1, &b1, &f1) != OPK_SUCCESS || a1 != a || b1 != b || f1 != flags || opk_fmin_get_flags(o) != flags) t.fail("initial settings are not those given");
  bool cont = t.chance(1, 3); double finalprec = eff;
  if (cont) { eff = std::min(0.3, std::max(eff * 1e3, 1e-3)); opk_fmin_set_precision(o, eff); }
  for (int phase = 0; phase < 2; ++phase) {
    long i = phase == 0 ? 0 : -1; static long reached;
    if (phase == 1) { if (!cont) break; opk_fmin_set_precision(o, finalprec); i = reached; }
    for (;; ++i) {
      opk_fmin_task k2 = opk_fmin_next(o, &x, fx);
      if (k2 != opk_fmin_get_status(o)) t.fail("status differs from the returned task");
      if (k2 == OPK_FMIN_CONVERGENCE) break;
      if (k2 != OPK_FMIN_FX) t.fail("reverse communication: task %d", (int)k2);
      if (i >= n || !(x == rec.x[i])) {
        t.fail("reverse communication%s: evaluation %ld at %.17g instead of %.17g", phase ? " continued with a higher precision" : "", i, x, i < n ? rec.x[i] : NAN);
      }
      fx = f(x);
    }
    reached = i;
    if (phase == 1 || !cont) if (i != n) t.fail("reverse communication: %ld evaluations instead of %ld", i, n);
    double q[6]; long ne;
    if (opk_fmin_get_final(o, q, q + 1, q + 2, q + 3, q + 4, q + 5, &ne) != OPK_SUCCESS || ne != i) t.fail("reverse communication: %ld evaluations reported, %ld made", ne, i);
    if (phase == 1 || !cont) for (int j = 0; j < 6; ++j) if (!(q[j] == out[j])) t.fail("reverse communication: result %d is %.17g instead of %.17g", j, q[j], out[j]);
  }
  t.label(cont ? "continued" : "reverse-communication");
  if (t.chance(1, 3)) {
    // other searches with the same context, possibly abandoned before their end, give what a new context gives
    int more = (int)t.range(1, 2);
    for (int m = 0; m < more; ++m) {
      double a2 = t.real(1e3), b2 = t.real(1e3), out2[7]; unsigned flags2 = (unsigned)t.draw(7); double pr = t.loguniform(1e-10, 0.1);
      if (a2 == b2) continue;
      Rec rec2{&f, {}, {}, 20000};
      try { if (opk_fmin_with_context(eval, a2, b2, flags2, -1, pr, out2, &rec2) != 0) t.fail("search without limit of evaluations not converged"); }
      catch (Rec*) { continue; }
      long n2 = (long)rec2.x.size(), quit = m + 1 < more && t.flag() ? t.range(0, 6) : n2 + 1, i = 0;
      opk_fmin_set_precision(o, pr);
      if (opk_fmin_start(o, a2, b2, flags2) != OPK_SUCCESS) t.fail("another search refused");
      bool done = false;
      for (; i < quit; ++i) {
        opk_fmin_task k2 = opk_fmin_next(o, &x, fx);
        if (k2 == OPK_FMIN_CONVERGENCE) { done = true; break; }
        if (k2 != OPK_FMIN_FX) t.fail("other search with the same context: task %d", (int)k2);
        if (i >= n2 || !(x == rec2.x[i])) t.fail("other search with the same context: evaluation %ld at %.17g instead of %.17g", i, x, i < n2 ? rec2.x[i] : NAN);
        fx = f(x);
      }
      if (!done) continue;
      double q[6]; long ne;
      if (opk_fmin_get_final(o, q, q + 1, q + 2, q + 3, q + 4, q + 5, &ne) != OPK_SUCCESS || ne != n2) t.fail("other search with the same context: %ld evaluations reported, %ld made", ne, n2);
      for (int j = 0; j < 6; ++j) if (!(q[j] == out2[j])) t.fail("other search with the same context: result %d is %.17g instead of %.17g", j, q[j], out2[j]);
      t.label("same-context-again");
    }
  }
  if (t.chance(1, 4)) {
    x = x + 1; fx = f(x);
    if (opk_fmin_start(o, b, a, flags) != OPK_SUCCESS) t.fail("second start refused");
    opk_fmin_task k2 = opk_fmin_next(o, &x, fx);
    if (k2 != OPK_FMIN_FX) t.fail("task %d after a second start", (int)k2);
    x = x + 1 + fabs(x);
    if (opk_fmin_next(o, &x, fx) != OPK_FMIN_ERROR) t.fail("a variable changed by the caller is not refused");
    if (opk_fmin_next(o, &x, fx) != OPK_FMIN_ERROR) t.fail("an error does not persist");
  } else if (t.chance(1, 4)) {
    // misuse is reported, a missing output is only not written
    double q[6]; long ne; int miss = (int)t.draw(6);
    if (opk_fmin_get_status(o) >= OPK_FMIN_START) {
      double* pq[6]; for (int j = 0; j < 6; ++j) { q[j] = -3.25; pq[j] = j == miss ? nullptr : q + j; }
      if (opk_fmin_get_final(o, pq[0], pq[1], pq[2], pq[3], pq[4], pq[5], miss == 6 ? nullptr : &ne) != OPK_SUCCESS) t.fail("results not given");
      double r6[6]; opk_fmin_get_final(o, r6, r6 + 1, r6 + 2, r6 + 3, r6 + 4, r6 + 5, &ne);
      for (int j = 0; j < 6; ++j) if (j == miss ? q[j] != -3.25 : !(q[j] == r6[j] || (std::isnan(q[j]) && std::isnan(r6[j])))) t.fail("result %d is %g instead of %g when result %d is not wanted", j, q[j], r6[j], miss);
    }
    if (opk_fmin_start(o, a, a, flags) != OPK_INVALID_ARGUMENT) t.fail("identical ends are not refused");
    if (opk_fmin_start(o, b, a, flags) != OPK_SUCCESS) t.fail("second start refused");
    int pos = (int)t.range(0, 3);
    for (int i = 0; i < pos; ++i) { if (opk_fmin_next(o, &x, fx) != OPK_FMIN_FX) break; fx = f(x); }
    errno = 0;
    if (opk_fmin_next(o, nullptr, fx) != OPK_FMIN_ERROR || errno != EFAULT) t.fail("a missing variable is not refused (errno %d)", errno);
    if (opk_fmin_get_status(o) != OPK_FMIN_ERROR || opk_fmin_next(o, &x, fx) != OPK_FMIN_ERROR) t.fail("the error of a missing variable does not persist");
    if (opk_fmin_get_final(o, q, q + 1, q + 2, q + 3, q + 4, q + 5, &ne) != OPK_INVALID_ARGUMENT) t.fail("results given after an error");
    errno = 0; if (opk_fmin_next(nullptr, &x, fx) != OPK_FMIN_ERROR || errno != EFAULT) t.fail("a missing context is not refused (errno %d)", errno);
    errno = 0; if (opk_fmin_get_status(nullptr) != OPK_FMIN_ERROR || errno != EFAULT) t.fail("status of a missing context, errno %d", errno);
    errno = 0; if (opk_fmin_get_flags(nullptr) != 0 || errno != EFAULT) t.fail("flags of a missing context, errno %d", errno);
    if (opk_fmin_start(nullptr, a, b, 0) != OPK_ILLEGAL_ADDRESS || opk_fmin_set_precision(nullptr, 0) != OPK_ILLEGAL_ADDRESS) t.fail("a missing context is not refused");
    t.label("misuse");
  }
}

pbt::Check& pbt_check() {
  static pbt::Check c{"P22", "a case counts when a bracket is found and more than 8 evaluations are made", {{"search", search, 1}}, 1500000, 60, 10,
    {"functions have a minimum or the number of evaluations is limited"}};
  return c;
}
