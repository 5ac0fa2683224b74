// P07 (a line search stops exactly when its criterion holds) and P08 (bounds, progress, termination, protocol, safeguarded step).
#include "opk.hpp"

namespace {
// A univariate function with its derivative.
struct Phi {
  int kind; double a, b, c, sc, off; std::vector<double> fv; int calls = 0;
  void make(T& t) {
    kind = (int)t.draw(7); a = t.loguniform(0.01, 50); b = t.uniform(0.05, 3); c = t.uniform(0.1, 8);
    sc = t.flag() ? 1.0 : t.loguniform(1e-6, 1e6); off = t.flag() ? 0.0 : t.sym(100.0);
  }
  void raw(double s, double& f, double& g) const {
    switch (kind) {
      case 0: f = 0.5 * (s - a) * (s - a); g = s - a; break;                                   // quadratic
      case 1: f = -s / (s * s + b); g = (s * s - b) / ((s * s + b) * (s * s + b)); break;      // More and Thuente 1
      case 2: f = pow(s + b / 100, 5) - 2 * pow(s + b / 100, 4); g = 5 * pow(s + b / 100, 4) - 8 * pow(s + b / 100, 3); break;  // More and Thuente 2
      case 3: f = cos(s * c) * b - s * 0.3 - 0.2 * sin(2 * s); g = -c * sin(s * c) * b - 0.3 - 0.4 * cos(2 * s); if (true) { f += 0.02 * s * s; g += 0.04 * s; } break;
      case 4: f = exp(b * s) - c * s * (b + 1); g = b * exp(b * s) - c * (b + 1); if (!(f < 1e300)) { f = 1e300; g = 1e300; } break;
      case 5: f = -s * b - sqrt(s + 1e-2); g = -b - 0.5 / sqrt(s + 1e-2); break;               // unbounded below
      case 6: { double u = s - a; f = fabs(u) + 0.1 * u * u; g = (u < 0 ? -1 : 1) + 0.2 * u; break; }  // kink
      default: { double u = s - a; f = sqrt(1 + c * u * u) + 0.1 * cos(3 * u); g = c * u / sqrt(1 + c * u * u) - 0.3 * sin(3 * u); }
    }
  }
  void eval(double s, double& f, double& g) { raw(s, f, g); f = f * sc + off; g *= sc; ++calls; }
  const char* name() const { static const char* n[] = {"quadratic", "rational", "quintic", "cosines", "exponential", "unbounded", "kink", "waves"}; return n[kind]; }
  bool smooth() const { return kind != 6; }
};

struct Search {
  int kind; double ftol, gtol, xtol, amin, s1, s2; opk_index m; Ref r; std::vector<double> hist;
  opk_lnsrch* ls() const { return (opk_lnsrch*)r.p; }
  void make(T& t, bool wide = true) {
    kind = (int)t.draw(2);
    ftol = t.flag() ? t.loguniform(1e-8, 0.45) : 1e-4; gtol = t.flag() ? t.uniform(0.05, 0.99) : 0.9; xtol = t.of({1e-10, 1e-17, 1e-3, 1e-6, 0.1});
    if (kind == 0 && t.chance(1, 6)) std::swap(ftol, gtol);
    amin = t.of({0.1, 0.01, 0.3, 0.5, 0.9}); m = t.dim(1, 5, 40, 10); s1 = t.loguniform(1e-3, 0.3); s2 = t.uniform(0.4, 0.99);
    if (kind == 2 && wide) ftol = t.of({1e-4, 0.1, 0.4, 0.8});
    r = Ref(kind == 0 ? opk_lnsrch_new_csrch(ftol, gtol, xtol) : kind == 1 ? opk_lnsrch_new_backtrack(ftol, amin) : opk_lnsrch_new_nonmonotone(m, ftol, s1, s2));
    if (!r.p) t.fail("line search of kind %d cannot be created (ftol=%g gtol=%g xtol=%g amin=%g)", kind, ftol, gtol, xtol, amin);
    if (!!opk_lnsrch_use_deriv(ls()) != (kind == 0)) t.fail("use of derivatives is misreported for kind %d", kind);
    hist.clear();
  }
  const char* name() const { static const char* n[] = {"cubic", "backtracking", "nonmonotone"}; return n[kind]; }
  void started(double f0) { hist.push_back(f0); if ((opk_index)hist.size() > m) hist.erase(hist.begin()); }
  // +1: criterion holds, -1: it does not, 0: too close to call
  int criterion(double f0, double g0, double s, double f, double g) const {
    double ref = kind == 2 ? *std::max_element(hist.begin(), hist.end()) : f0;
    double thr = ref + ftol * s * g0, e = 8 * DBL_EPSILON * (fabs(ref) + fabs(ftol * s * g0));
    int a = fabs(f - thr) <= e ? 0 : f < thr ? 1 : -1;
    // exactly equal values are decided by the definition when nothing rounds
    if (f == ref && ftol * s * g0 == 0) a = 1;
    int b = 1;
    if (kind == 0) { double u = fabs(g), v = gtol * fabs(g0); b = fabs(u - v) <= 8 * DBL_EPSILON * v ? 0 : u < v ? 1 : -1; }
    if (a < 0 || b < 0) return -1;
    return a > 0 && b > 0 ? 1 : 0;
  }
};

// The search of More and Thuente as specified by MINPACK-2, on top of the safeguarded step (which is checked on its own).
struct Model {
  bool on = false; double ftol, gtol, xtol, lo, hi, f0, g0, gt, stx, fx, gx, sty, fy, gy, stmin, stmax, w, w1; bool br; int stage;
  bool tie = false;
  bool close(double a, double b) { return fabs(a - b) <= 1e-11 * (fabs(a) + fabs(b)); }
  void start(const Search& S, double f, double g, double s, double l, double h) {
    on = S.kind == 0; ftol = S.ftol; gtol = S.gtol; xtol = S.xtol; lo = l; hi = h; f0 = f; g0 = g; gt = ftol * g0; stx = sty = 0; fx = fy = f; gx = gy = g;
    stmin = 0; stmax = 5 * s; w = hi - lo; w1 = 2 * w; br = false; stage = 1;
  }
  // expected status (OPK_SUCCESS with next step in s, or converged); on=false when undecidable
  int step(double& s, double f, double g, bool& conv) {
    conv = false; double ft = f0 + s * gt; const double e = 1e-11 * (fabs(f) + fabs(f0) + fabs(s * gt));
    if (fabs(f - ft) <= e || close(fabs(g), -gtol * g0) || close(g, gt)) { on = false; return 0; }
    if (f <= ft && fabs(g) <= -gtol * g0) { conv = true; return OPK_SUCCESS; }
    if (s == lo && (f > ft || g >= gt)) return OPK_STEP_EQ_STPMIN;
    if (s == hi && f <= ft && g <= gt) return OPK_STEP_EQ_STPMAX;
    if (br && close(stmax - stmin, xtol * stmax)) { on = false; return 0; }
    if (br && stmax - stmin <= xtol * stmax) return OPK_XTOL_TEST_SATISFIED;
    if (br && (s <= stmin || s >= stmax)) return OPK_ROUNDING_ERRORS_PREVENT_PROGRESS;
    if (stage == 1 && f <= ft && g >= 0) stage = 2;
    if (f != fx && fabs(f - fx) <= 1e-11 * (fabs(f) + fabs(fx))) { on = false; return 0; }
    opk_bool b = br ? OPK_TRUE : OPK_FALSE; int st; double old = s;
    const bool modified = stage == 1 && f <= fx && f > ft;
    // how sensitive is the interpolation to the rounding of the values?
    double smin = INFINITY, smax = -INFINITY;
    for (int k = 0; k < 5; ++k) {
      const double u = 8 * DBL_EPSILON, q = k ? (k & 1 ? u : -u) : 0, q2 = k ? (k & 2 ? u : -u) : 0;
      double mod = modified ? gt : 0, pf = f * (1 + q) - s * mod, px = fx * (1 + q2) - stx * mod, py = fy * (1 - q) - sty * mod, pg = g - mod, pgx = gx - mod, pgy = gy - mod, X = stx, Y = sty, S = s; opk_bool B = b;
      if (opk_cstep(&X, &px, &pgx, &Y, &py, &pgy, &S, pf, pg, &B, stmin, stmax) != OPK_SUCCESS) continue;
      smin = std::min(smin, S); smax = std::max(smax, S);
    }
    if (!(smax - smin <= 1e-8 * fabs(smax - old))) { on = false; return 0; }
    if (modified) {
      double fm = f - s * gt, fxm = fx - stx * gt, fym = fy - sty * gt, gm = g - gt, gxm = gx - gt, gym = gy - gt;
      if (fabs(fm - fxm) <= 1e-11 * (fabs(f) + fabs(fx))) { on = false; return 0; }
      st = opk_cstep(&stx, &fxm, &gxm, &sty, &fym, &gym, &s, fm, gm, &b, stmin, stmax);
      fx = fxm + stx * gt; fy = fym + sty * gt; gx = gxm + gt; gy = gym + gt;
    } else st = opk_cstep(&stx, &fx, &gx, &sty, &fy, &gy, &s, f, g, &b, stmin, stmax);
    br = b != OPK_FALSE;
    if (st != OPK_SUCCESS) { on = false; return 0; }
    if (br) {
      double nw = fabs(sty - stx); if (close(nw, 0.66 * w1)) { on = false; return 0; }
      if (nw >= 0.66 * w1) s = stx + 0.5 * (sty - stx);
      w1 = w; w = nw; stmin = std::min(stx, sty); stmax = std::max(stx, sty);
    } else { stmin = s + 1.1 * (s - stx); stmax = s + 4 * (s - stx); }
    s = std::min(std::max(s, lo), hi);
    if (br && ((s != stx && s != sty && (close(s, stmin) || close(s, stmax))) || close(stmax - stmin, xtol * stmax))) { on = false; return 0; }
    if (br && (s <= stmin || s >= stmax || stmax - stmin <= xtol * stmax)) s = stx;
    if (!(s == s)) on = false;
    // a search that stays at a bound of the step is blocked there
    if (s <= lo && old <= lo) return OPK_STEP_EQ_STPMIN;
    if (s >= hi && old >= hi) return OPK_STEP_EQ_STPMAX;
    return OPK_SUCCESS;
  }
};

struct Limits { double stp, lo, hi; };
static Limits limits(T& t) {
  Limits L; L.stp = t.flag() ? 1.0 : t.loguniform(1e-4, 1e3);
  switch (t.draw(5)) { case 0: L.lo = 0; break; case 1: L.lo = L.stp * 1e-20; break; case 2: L.lo = L.stp * t.loguniform(1e-6, 0.5); break; case 3: L.lo = L.stp; break; default: L.lo = L.stp * t.loguniform(1e-14, 1e-6); }
  switch (t.draw(3)) { case 0: L.hi = L.stp * 1e6; break; case 1: L.hi = L.stp; break; case 2: L.hi = L.stp * t.uniform(1.0, 20.0); break; default: L.hi = L.stp * 1e20; }
  return L;
}

static void accessors(T& t, Search& S, int task, double s) {
  opk_lnsrch* l = S.ls();
  if ((int)opk_lnsrch_get_task(l) != task) t.fail("%s: pending task is %d but %d was returned", S.name(), (int)opk_lnsrch_get_task(l), task);
  if (!!opk_lnsrch_has_errors(l) != (task == OPK_LNSRCH_ERROR) || !!opk_lnsrch_has_warnings(l) != (task == OPK_LNSRCH_WARNING) || !!opk_lnsrch_converged(l) != (task == OPK_LNSRCH_CONVERGENCE) || !!opk_lnsrch_finished(l) != (task != OPK_LNSRCH_SEARCH))
    t.fail("%s: the queries disagree with task %d", S.name(), task);
  double g = opk_lnsrch_get_step(l);
  if (task == OPK_LNSRCH_SEARCH ? g != s : g != -1.0) t.fail("%s: reported step is %g while the step is %g and the task %d", S.name(), g, s, task);
  int st = opk_lnsrch_get_status(l);
  if (((task == OPK_LNSRCH_SEARCH || task == OPK_LNSRCH_CONVERGENCE)) != (st == OPK_SUCCESS)) t.fail("%s: status %d (%s) with task %d", S.name(), st, opk_get_reason((opk_status)st), task);
}

// One complete search; reports through the hooks below.
static void search(T& t, bool criterion_check) {
  Search S; S.make(t);
  int rounds = S.kind == 2 ? (int)t.dim(1, 7, 90, 12) : (int)t.range(1, 2), evals = 0; bool adversarial = !criterion_check ? t.chance(1, 4) : t.chance(1, 3);
  Phi F; F.make(t);
  for (int r = 0; r < rounds; ++r) {
    if (r && t.flag()) F.make(t);
    double f0, g0; F.eval(0, f0, g0);
    if (adversarial) g0 = -t.loguniform(1e-3, 1e3);
    Limits L = limits(t); double s = L.stp, prev = s;
    int task = opk_lnsrch_start(S.ls(), f0, g0, s, L.lo, L.hi);
    t.note("%s on %s(%g,%g,%g,x%g+%g)%s ftol=%g gtol=%g xtol=%g amin=%g sigma=%g,%g m=%ld: f0=%.17g g0=%.17g stp=%.17g in [%.17g,%.17g]", S.name(), F.name(), F.a, F.b, F.c, F.sc, F.off, adversarial ? " (arbitrary values)" : "", S.ftol, S.gtol, S.xtol, S.amin, S.s1, S.s2, (long)S.m, f0, g0, s, L.lo, L.hi);
    if (!(g0 < 0)) { if (task != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(S.ls()) != OPK_NOT_A_DESCENT) t.fail("%s: start with a derivative %g at zero gives task %d status %d", S.name(), g0, task, opk_lnsrch_get_status(S.ls())); accessors(t, S, task, s); continue; }
    if (task != OPK_LNSRCH_SEARCH) t.fail("%s: start returns %d (%s)", S.name(), task, opk_get_reason(opk_lnsrch_get_status(S.ls())));
    S.started(f0); accessors(t, S, task, s);
    Model M; if (!criterion_check) M.start(S, f0, g0, s, L.lo, L.hi);
    int k = 0; bool at_lo = false, at_hi = false; (void)at_lo; (void)at_hi;
    const int LIMIT = S.kind == 0 && !adversarial ? 400 : S.kind == 0 ? 4500 : 3000;
    for (;; ++k) {
      if (k > LIMIT) { t.fail("%s: the search is not finished after %d evaluations (step %.17g in [%.17g,%.17g])", S.name(), k, s, L.lo, L.hi); }
      double f, g; F.eval(s, f, g);
      if (adversarial) { f = f0 + (t.flag() ? 1 : -1) * t.loguniform(1e-6, 1e2) * fabs(g0) * s; g = (t.flag() ? 1 : -1) * fabs(g0) * t.loguniform(1e-3, 1e2); }
      if (!std::isfinite(f) || !std::isfinite(g)) t.discard();
      ++evals;
      double old = s; task = opk_lnsrch_iterate(S.ls(), &s, f, g);
      int st = opk_lnsrch_get_status(S.ls());
      t.note("f(%.17g)=%.17g g=%.17g -> %d/%d %.17g", old, f, g, task, st, s);
      accessors(t, S, task, s);
      int crit = S.criterion(f0, g0, old, f, g);
      if (criterion_check) {
        if (crit > 0 && task != OPK_LNSRCH_CONVERGENCE) t.fail("%s: the criterion holds at step %.17g (f=%.17g g=%.17g) but the task is %d (%s)", S.name(), old, f, g, task, opk_get_reason((opk_status)st));
        if (crit < 0 && task == OPK_LNSRCH_CONVERGENCE) t.fail("%s: the search converges at step %.17g (f=%.17g g=%.17g) where the criterion does not hold", S.name(), old, f, g);
        if (task == OPK_LNSRCH_CONVERGENCE && s != old) t.fail("%s: the step is changed from %.17g to %.17g although it is accepted", S.name(), old, s);
        // warnings tell the truth
        double ftest = f0 + S.ftol * old * g0, tol = 8 * DBL_EPSILON * (fabs(f0) + fabs(ftest));
        if (task == OPK_LNSRCH_WARNING && st == OPK_STEP_EQ_STPMIN && s != L.lo) t.fail("%s: step said to be blocked at its lower bound %g is %g", S.name(), L.lo, s);
        if (task == OPK_LNSRCH_WARNING && st == OPK_STEP_EQ_STPMAX && s != L.hi) t.fail("%s: step said to be blocked at its upper bound %g is %g", S.name(), L.hi, s);
        if (S.kind != 0 && task == OPK_LNSRCH_WARNING && old > L.lo && !(S.kind == 2 && s <= 0)) t.fail("%s: gives up at step %.17g above its lower bound %.17g", S.name(), old, L.lo);
        (void)tol;
      } else {
        if (M.on) {
          double ms = old; bool conv; int ws = M.step(ms, f, g, conv);
          if (M.on) {
            int wt = conv ? OPK_LNSRCH_CONVERGENCE : ws == OPK_SUCCESS ? OPK_LNSRCH_SEARCH : OPK_LNSRCH_WARNING;
            if (task != wt || st != ws) t.fail("cubic: at step %.17g the task is %d (%s), the algorithm specifies %d (%s)", old, task, opk_get_reason((opk_status)st), wt, opk_get_reason((opk_status)ws));
            if (wt == OPK_LNSRCH_SEARCH) {
              if (fabs(s - ms) > 1e-6 * (fabs(ms) + fabs(ms - old))) t.fail("cubic: from step %.17g the next one is %.17g, the algorithm specifies %.17g", old, s, ms);
              if (s != ms) M.on = false;
            }
            t.label("cubic-modelled");
          }
        }
        if (!(s >= L.lo && s <= L.hi)) t.fail("%s: step %.17g is outside [%.17g,%.17g]", S.name(), s, L.lo, L.hi);
        if (task == OPK_LNSRCH_ERROR && !adversarial && F.smooth() && S.ftol < S.gtol) t.fail("%s: error %d (%s) on a smooth function", S.name(), st, opk_get_reason((opk_status)st));
        if (task == OPK_LNSRCH_SEARCH) {
          if (S.kind == 1) {
            // documented safeguards: between amin and the quadratic minimizer, at most one half when bisecting
            double up = S.amin >= 0.5 ? 0.5 : 1.0 / (2 * (1 - S.ftol)), dn = S.amin >= 0.5 ? 0.5 : S.amin;
            if (s > L.lo && !(s <= old * up * (1 + 1e-12) && s >= old * std::min(dn, 0.5) * (1 - 1e-12))) t.fail("backtracking from %.17g to %.17g is outside [%g,%g] of the step", old, s, dn, up);
            double q = -old * g0, r = 2 * (f - (f0 - q)), want;  // minimum of the parabola, with safeguards
            want = S.amin >= 0.5 || r <= 0 ? 0.5 * old : std::max(old * q / r, S.amin * old);
            want = std::max(want, L.lo);
            double cond = 1e-10 + 64 * DBL_EPSILON * (fabs(f) + fabs(f0) + fabs(q)) / std::max(fabs(r), 1e-300);
            if (cond < 1e-3 && fabs(s - want) > cond * want + 4e-320) t.fail("backtracking from %.17g gives %.17g instead of %.17g", old, s, want);
          } else if (S.kind == 2) {
            // either the quadratic minimizer, when it is in the safeguarding interval, or the middle of the step and its lower bound
            double q = -g0 * old * old, r = 2 * (f - f0 - old * g0); bool inside = r > 0 && q >= S.s1 * r && q <= S.s2 * old * r;
            double cond = 64 * DBL_EPSILON * (fabs(f) + fabs(f0) + fabs(old * g0)) / std::max(fabs(r), 1e-300) + 1e-10;
            double w1 = std::max(q / r, L.lo), w2 = 0.5 * (old + L.lo);
            bool edge = cond > 1e-4 || (r > 0 && (fabs(q - S.s1 * r) <= 10 * cond * q || fabs(q - S.s2 * old * r) <= 10 * cond * q));
            auto near = [&](double w) { return fabs(s - w) <= cond * w + 4e-320; };
            if (edge ? !(near(w1) || near(w2) || s == L.lo || cond > 1e-4) : !(near(inside ? w1 : w2) || (s == L.lo && !inside))) t.fail("nonmonotone search goes from %.17g to %.17g, expected %.17g (%s)", old, s, inside ? w1 : w2, inside ? "quadratic" : "bisection");
            if (!(s < old)) t.fail("nonmonotone search does not shrink the step %.17g: next is %.17g (lower bound %.17g)", old, s, L.lo);
          }
        }
        prev = old;
      }
      if (task != OPK_LNSRCH_SEARCH) break;
    }
    (void)prev;
    t.label(std::string(S.name()) + (task == OPK_LNSRCH_CONVERGENCE ? "-converged" : task == OPK_LNSRCH_WARNING ? "-warning" : "-error"));
    if (k > 0) t.nontrivial();
    // finished: no further iteration without a start
    if (t.chance(1, 4)) {
      double z = s; int tk = opk_lnsrch_iterate(S.ls(), &z, f0, g0);
      if (tk != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(S.ls()) != OPK_NOT_STARTED || z != s) t.fail("%s: iterating a finished search gives %d (%s)", S.name(), tk, opk_get_reason(opk_lnsrch_get_status(S.ls())));
    }
  }
}

#ifdef CHECK_P07
static void crit(T& t) { search(t, true); }
#else
static void steps(T& t) { search(t, false); }

static void protocol(T& t) {
  Search S; S.make(t); opk_lnsrch* l = S.ls(); accessors(t, S, OPK_LNSRCH_ERROR, 0);
  double z = 1; int tk = opk_lnsrch_iterate(l, &z, 0, 0);
  if (tk != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(l) != OPK_NOT_STARTED || z != 1) t.fail("iterate before start gives %d", tk);
  int n = (int)t.range(1, 6); bool searching = false; double stp = 0;
  for (int i = 0; i < n; ++i) {
    double g0 = t.flag() ? -t.loguniform(1e-3, 1e3) : t.of({0.0, -0.0, 1.0, -1.0, -1e-300}), lo = t.of({0.0, 0.5, -0.25, 2.0, -1e-300}), hi = t.of({1.0, 0.25, 1e20, 2.0}); stp = t.of({1.0, 0.25, 0.75, 2.0, 3.0, 0.0});
    int want = lo < 0 ? OPK_STPMIN_LT_ZERO : lo > hi ? OPK_STPMIN_GT_STPMAX : stp < lo ? OPK_STEP_LT_STPMIN : stp > hi ? OPK_STEP_GT_STPMAX : !(g0 < 0) ? OPK_NOT_A_DESCENT : OPK_SUCCESS;
    std::set<int> ok; if (lo < 0) ok.insert(OPK_STPMIN_LT_ZERO); if (lo > hi) ok.insert(OPK_STPMIN_GT_STPMAX); if (stp < lo) ok.insert(OPK_STEP_LT_STPMIN); if (stp > hi) ok.insert(OPK_STEP_GT_STPMAX); if (!(g0 < 0)) ok.insert(OPK_NOT_A_DESCENT);
    int task = opk_lnsrch_start(l, 1.0, g0, stp, lo, hi), st = opk_lnsrch_get_status(l);
    t.note("start(g0=%g,stp=%g,[%g,%g]) -> %d/%d", g0, stp, lo, hi, task, st);
    if (want == OPK_SUCCESS ? (task != OPK_LNSRCH_SEARCH || st != OPK_SUCCESS) : (task != OPK_LNSRCH_ERROR || !ok.count(st))) t.fail("%s: start with derivative %g, step %g in [%g,%g] gives task %d status %d (%s)", S.name(), g0, stp, lo, hi, task, st, opk_get_reason((opk_status)st));
    accessors(t, S, task, stp); searching = task == OPK_LNSRCH_SEARCH;
    if (!searching) { t.nontrivial(); double y = stp; tk = opk_lnsrch_iterate(l, &y, 0.5, -1); if (tk != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(l) != OPK_NOT_STARTED || y != stp) t.fail("iterate after a refused start gives %d", tk); }
    else if (t.flag()) {
      double y = stp == 0 ? 0.1 : std::nextafter(stp, t.flag() ? 1e9 : -1e9); double y0 = y; tk = opk_lnsrch_iterate(l, &y, 0.5, -1);
      if (tk != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(l) != OPK_STEP_CHANGED || y != y0) t.fail("iterate with another step than expected gives %d (%s)", tk, opk_get_reason(opk_lnsrch_get_status(l)));
      t.nontrivial();
    }
  }
  // null arguments: strictly negative (documented), harmless
  if (opk_lnsrch_start(nullptr, 1, -1, 1, 0, 2) >= 0) t.fail("start without a line search is not an error");
  double y = 1; if (opk_lnsrch_iterate(nullptr, &y, 1, -1) >= 0) t.fail("iterate without a line search is not an error");
  if (opk_lnsrch_iterate(l, nullptr, 1, -1) >= 0) t.fail("iterate without a step is not an error");
  if (opk_lnsrch_get_step(nullptr) != -1 || opk_lnsrch_get_task(nullptr) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(nullptr) != OPK_ILLEGAL_ADDRESS || !opk_lnsrch_has_errors(nullptr) || opk_lnsrch_has_warnings(nullptr) || opk_lnsrch_converged(nullptr) || !opk_lnsrch_finished(nullptr)) t.fail("queries without a line search");
}

// invalid parameters are refused by the constructors
static void params(T& t) {
  static const double bad[] = {-1, -1e-300, 0, 0.25, 0.5, 0.75, 1, 1.5, -INFINITY};
  double a = bad[t.draw(8)], b = bad[t.draw(8)], c = bad[t.draw(8)]; opk_index m = t.range(-2, 4);
  errno = 0; Ref r1(opk_lnsrch_new_csrch(a, b, c)); bool ok1 = a >= 0 && b >= 0 && c >= 0;
  if (ok1 != (r1.p != nullptr) || (!ok1 && errno != EINVAL)) t.fail("cubic line search with tolerances %g, %g, %g is %s", a, b, c, r1.p ? "created" : "refused");
  errno = 0; Ref r2(opk_lnsrch_new_backtrack(a, b)); bool ok2 = a > 0 && a < 0.5 && b > 0 && b < 1;
  if (a != 0.5 && (ok2 != (r2.p != nullptr) || (!ok2 && errno != EINVAL))) t.fail("backtracking with ftol=%g, amin=%g is %s", a, b, r2.p ? "created" : "refused");
  errno = 0; Ref r3(opk_lnsrch_new_nonmonotone(m, a, b, c)); bool ok3 = m >= 1 && a > 0 && std::isfinite(a) && b > 0 && b < c && c < 1;
  if (ok3 != (r3.p != nullptr) || (!ok3 && errno != EINVAL)) t.fail("nonmonotone search with m=%ld, ftol=%g, sigma=%g,%g is %s", (long)m, a, b, c, r3.p ? "created" : "refused");
  t.note("a=%g b=%g c=%g m=%ld", a, b, c, (long)m); t.nontrivial(!ok1 || !ok2 || !ok3);
}

// the safeguarded step against a direct solution of the interpolation problems
static void cstep(T& t) {
  typedef long double ld;
  bool brackt = t.flag(); double stx = t.flag() ? 0.0 : t.sym(5), stp, sty; double dir = t.flag() ? 1 : -1;
  stp = stx + dir * t.loguniform(1e-2, 10); sty = brackt ? stp + dir * t.loguniform(1e-2, 10) : stx;
  double fx = t.sym(10), dx = -dir * t.loguniform(1e-2, 10), fp, dp, fy, dy;
  double h = stp - stx;
  switch (t.draw(3)) { case 0: fp = fx + t.loguniform(1e-3, 10); break; case 1: fp = fx - t.loguniform(1e-3, 10); break; case 2: fp = fx; break; default: fp = fx + dx * h * t.uniform(0, 2); }
  switch (t.draw(3)) { case 0: dp = dir * t.loguniform(1e-2, 10); break; case 1: dp = dx * t.uniform(0.01, 0.99); break; case 2: dp = dx * t.uniform(1.01, 5); break; default: dp = 0; }
  fy = brackt ? fx + t.loguniform(1e-3, 20) : fx; dy = brackt ? t.sym(10) : dx;
  double lo = std::min(stx, stp) - t.loguniform(1e-3, 10), hi = std::max(stp, sty) + t.loguniform(1e-3, 50);
  int bad = (int)t.draw(7);  // some invalid calls
  if (bad == 1 && brackt) stp = t.flag() ? sty : sty + (sty - stx);
  if (bad == 2) dx = t.flag() ? -dx : 0.0;
  if (bad == 3) std::swap(lo, hi);
  if (!(lo != hi)) t.discard();
  h = stp - stx;
  double X[3] = {stx, fx, dx}, Y[3] = {sty, fy, dy}, S = stp; opk_bool br = brackt ? OPK_TRUE : OPK_FALSE;
  int st = opk_cstep(&X[0], &X[1], &X[2], &Y[0], &Y[1], &Y[2], &S, fp, dp, &br, lo, hi);
  t.note("x=(%.17g,%.17g,%.17g) y=(%.17g,%.17g,%.17g) p=(%.17g,%.17g,%.17g) %s [%g,%g] -> %d %.17g", stx, fx, dx, sty, fy, dy, stp, fp, dp, brackt ? "bracketed" : "open", lo, hi, st, S);
  bool outside = brackt && (stp <= std::min(stx, sty) || stp >= std::max(stx, sty)); bool nodesc = dx * h >= 0, badlim = lo > hi;
  if (outside || nodesc || badlim) {
    bool ok = (outside && st == OPK_STEP_OUTSIDE_BRACKET) || (nodesc && st == OPK_NOT_A_DESCENT) || (badlim && st == OPK_STPMIN_GT_STPMAX);
    if (!ok) t.fail("invalid call (outside=%d, no descent=%d, limits=%d) gives status %d", outside, nodesc, badlim, st);
    if (S != stp || X[0] != stx || Y[0] != sty || X[1] != fx || Y[1] != fy || X[2] != dx || Y[2] != dy || !!br != brackt) t.fail("a refused call changes its arguments");
    t.label("refused"); return;
  }
  if (st != OPK_SUCCESS) t.fail("valid call gives status %d", st);
  bool opp = dp * dx < 0;
  // interval update
  double ex[3], ey[3];
  if (fp > fx) { ex[0] = stx; ex[1] = fx; ex[2] = dx; ey[0] = stp; ey[1] = fp; ey[2] = dp; }
  else { ex[0] = stp; ex[1] = fp; ex[2] = dp; ey[0] = opp ? stx : sty; ey[1] = opp ? fx : fy; ey[2] = opp ? dx : dy; }
  for (int i = 0; i < 3; ++i) if (X[i] != ex[i] || Y[i] != ey[i]) t.fail("the interval is not updated as specified: x=(%g,%g,%g) y=(%g,%g,%g) instead of x=(%g,%g,%g) y=(%g,%g,%g)", X[0], X[1], X[2], Y[0], Y[1], Y[2], ex[0], ex[1], ex[2], ey[0], ey[1], ey[2]);
  if (!!br != (brackt || fp > fx || opp)) t.fail("bracketing flag is %d", (int)br);
  // minimizer of the cubic with values and slopes at (a,fa,da) and (b,fb,db); NaN if there is none
  auto cubic = [](ld a, ld fa, ld da, ld b, ld fb, ld db) -> ld {
    ld w = b - a, c3 = (da + db) * w - 2 * (fb - fa), c2 = 3 * (fb - fa) - (2 * da + db) * w, c1 = da * w;  // in u=(s-a)/w
    ld disc = c2 * c2 - 3 * c3 * c1;
    if (disc < 0) return NAN;
    ld sq = sqrtl(disc);
    ld den = c2 + sq; ld u;  // root with positive curvature: 2 c2 + 6 c3 u = 2 sq
    if (fabsl(den) > fabsl(sq - c2)) u = -c1 / den; else u = (sq - c2) / (3 * c3);
    return a + u * w;
  };
  ld want = NAN, alt = NAN; bool two = false; const ld near = 1e-6L;
  auto choose = [&](ld a, ld b, ld da, ld db, bool closer) { bool pickA = closer ? da < db : da > db; want = pickA ? a : b; if (fabsl(da - db) <= near * (da + db)) { two = true; alt = pickA ? b : a; } };
  int cs = 0;
  if (fp > fx) {
    cs = 1; ld c = cubic(stx, fx, dx, stp, fp, dp), q = stx - 0.5L * dx * h * h / ((ld)fp - fx - (ld)dx * h);
    choose(c, c + (q - c) / 2, fabsl(c - stx), fabsl(q - stx), true);
  } else if (opp) {
    cs = 2; ld c = cubic(stx, fx, dx, stp, fp, dp), q = stp - (ld)dp * h / ((ld)dp - dx);
    choose(c, q, fabsl(c - stp), fabsl(q - stp), false);
  } else if (fabs(dp) < fabs(dx)) {
    cs = 3; ld c = cubic(stx, fx, dx, stp, fp, dp), q = stp - (ld)dp * h / ((ld)dp - dx);
    // the cubic counts only if it has a minimum beyond the step
    ld th = 3 * ((ld)fx - fp) / h + dx + dp, disc = th * th - (ld)dx * dp; ld mag = th * th + fabsl((ld)dx * dp);
    if (fabsl(disc) < 1e-8L * mag || fabs(dp) < 1e-300) { t.label("ill-conditioned"); return; }
    if (!(disc > 0) || !(h > 0 ? c > stp : c < stp)) { c = h > 0 ? hi : lo; }
    else if (fabsl(c - stp) > 1e6L * fabsl(h) || fabsl(c - stp) < 1e-6L * fabsl(h)) { t.label("ill-conditioned"); return; }
    choose(c, q, fabsl(c - stp), fabsl(q - stp), brackt);
    auto post = [&](ld w) { if (brackt) { ld m = stp + 0.66L * ((ld)sty - stp); return h > 0 ? std::min(w, m) : std::max(w, m); } return std::max((ld)lo, std::min((ld)hi, w)); };
    want = post(want); alt = post(alt);
  } else {
    cs = 4;
    if (!brackt) want = h > 0 ? hi : lo;
    else { ld th = 3 * ((ld)fp - fy) / ((ld)sty - stp) + dy + dp; if (th * th - (ld)dy * dp < 1e-8L * (th * th + fabsl((ld)dy * dp))) { t.label("ill-conditioned"); return; } want = cubic(stp, fp, dp, sty, fy, dy); if (fabsl(want - stp) > 1e6L) { t.label("ill-conditioned"); return; } }
  }
  ld tol = 1e-7L * (fabsl(h) + fabsl(want - stp) + (brackt ? fabsl((ld)sty - stp) : 0));
  if (!(fabsl(S - want) <= tol) && !(two && fabsl(S - alt) <= tol)) t.fail("case %d: safeguarded step is %.17g instead of %.17Lg", cs, S, want);
  t.label("case" + std::to_string(cs) + (brackt ? "-bracketed" : "")); t.nontrivial();
}
#endif
}  // namespace

pbt::Check& pbt_check() {
#ifdef CHECK_P07
  static pbt::Check c{"P07", "a case counts when a search needs more than one trial step",
    {{"criterion", crit, 1}}, 2000000, 60, 10, {"verdicts within a few units of rounding of the threshold are not judged", "function values are finite"}};
#else
  static pbt::Check c{"P08", "a case counts when a search needs more than one trial step, a call is refused, or a safeguarded step is well conditioned",
    {{"steps", steps, 6}, {"protocol", protocol, 1}, {"params", params, 1}, {"cstep", cstep, 4}}, 2500000, 60, 10, {"function values are finite", "the backtracking parameter ftol=1/2, excluded by the documentation and accepted by the code, is not judged"}};
#endif
  return c;
}
