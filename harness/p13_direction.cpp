// P13 memorized pairs and quasi-Newton directions, P14 conjugate gradient directions, against independent formulas.
#include "optsim.hpp"

namespace {
typedef std::vector<ld> lvec;
template <class Q> struct Num;   // arithmetic with vectors rounded to Q after each operation, scalars to S
struct Exact { static ld v(ld x) { return x; } static ld s(ld x) { return x; } };
struct RoundD { static ld v(ld x) { return (double)x; } static ld s(ld x) { return (double)x; } };
struct RoundF { static ld v(ld x) { return (float)x; } static ld s(ld x) { return (double)x; } };
// perturbed by a pseudo-random error of a few units of rounding after each operation
static uint64_t pert_state = 1;
static ld pert(ld x, ld e) { pert_state = pert_state * 6364136223846793005ull + 1442695040888963407ull; return x * (1 + e * ((ld)(int64_t)pert_state / 9.2e18L)); }
struct PertD { static ld v(ld x) { return pert(x, 4e-16L); } static ld s(ld x) { return pert(x, 4e-16L); } };
struct PertF { static ld v(ld x) { return pert(x, 2e-7L); } static ld s(ld x) { return pert(x, 2e-7L); } };
template <class Q> struct Shadow { typedef PertD type; }; template <> struct Shadow<RoundF> { typedef PertF type; };
template <class R> struct Rnd; template <> struct Rnd<double> { typedef RoundD type; }; template <> struct Rnd<float> { typedef RoundF type; };

template <class Q> static ld dot(const lvec& a, const lvec& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += Q::v(a[i] * b[i]); return Q::s(s); }
template <class Q> static ld wdot(const lvec& w, const lvec& a, const lvec& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += Q::v(w[i] * Q::v(a[i] * b[i])); return Q::s(s); }
template <class Q> static lvec lin(ld a, const lvec& x, ld b, const lvec& y) { lvec r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = Q::v(Q::v(Q::v(a) * x[i]) + Q::v(Q::v(b) * y[i])); return r; }
static lvec L(const dvec& x) { return lvec(x.begin(), x.end()); }
static ld norm(const lvec& x) { ld s = 0; for (ld v : x) s += v * v; return sqrtl(s); }
static ld dist(const lvec& a, const lvec& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrtl(s); }

#if defined(CHECK_P13)
struct Pair { lvec s, y; };
// Two-loop recursion with the pairs listed from the newest to the oldest; w empty: plain inner products.
// Returns false if no pair is usable.  `amb' is set when the sign of a curvature is not certain.
template <class Q> static bool twoloop(lvec& d, const lvec& g, const std::vector<Pair>& P, const lvec& w, bool& amb, ld eps) {
  d = g; std::vector<ld> rho(P.size(), 0), al(P.size(), 0); ld gamma = 0; bool ok = false;
  auto ip = [&](const lvec& a, const lvec& b) { return w.empty() ? dot<Q>(a, b) : wdot<Q>(w, a, b); };
  for (size_t j = 0; j < P.size(); ++j) {
    ld sy = ip(P[j].y, P[j].s), c = 0; for (size_t i = 0; i < d.size(); ++i) c += fabsl(P[j].y[i] * P[j].s[i] * (w.empty() ? 1 : w[i]));
    if (c != 0 && c < (eps > 1e-9L ? 1e-30L : 1e-280L)) amb = true;   // products may underflow
    if (sy != 0 ? fabsl(sy) <= eps * c : c != 0) amb = true;
    if (sy <= 0) continue;
    rho[j] = Q::s(1 / sy); ok = true;
    if (gamma == 0) gamma = Q::s(sy / ip(P[j].y, P[j].y));
    al[j] = Q::s(rho[j] * ip(d, P[j].s)); d = lin<Q>(1, d, -al[j], P[j].y);
  }
  if (!ok) return false;
  for (auto& v : d) v = Q::v(Q::v(gamma) * v);
  for (size_t j = P.size(); j-- > 0;) if (rho[j] > 0) { ld be = Q::s(rho[j] * ip(d, P[j].y)); d = lin<Q>(1, d, al[j] - be, P[j].s); }
  if (!w.empty()) for (size_t i = 0; i < d.size(); ++i) d[i] *= w[i];
  return true;
}

template <class R> static void quasi(T& t) {
  typedef typename Rnd<R>::type Q; const ld eps = Kind<R>::eps;
  bool lng = t.chance(1, 400);   // a long run: hundreds of updates
  Optim<R> o; Prob p; int n = lng ? (int)t.range(40, 120) : (int)t.size(1, 9, 100); o.make(t, n, (int)t.draw(2), -1, !lng); p.make(t, n); if (lng) { p.fam = 6; p.a[0] = t.of({100.0, 1000.0, 30.0}); t.note("long run, Rosenbrock %g", p.a[0]); } o.start_point(t, p);
  bool bounded = o.box.bounded(); opk_index m = o.maxpairs();
  int judged = 0, skippedpairs = 0, full = 0;
  int sessions = t.chance(1, 6) ? 2 : 1;
  for (int ses = 0; ses < sessions; ++ses) {
    if (ses) o.start_point(t, p);
    opk_task task = o.start(); dvec x, g; double f = 0; int evals = 0, budget = lng ? 900 : t.chance(1, 25) ? 300 : (int)t.range(4, 40);
    std::vector<Pair> P; std::vector<lvec> X, G; lvec d, ds, xk; bool judge = false, sloppy = false; ld derr = 0; opk_index restarts = 0; bool dead = false; bool fresh = false; size_t npairs = 0;
    if (opk_get_vmlmb_mp(o.vm()) != 0) t.fail("%ld memorized pairs after start", (long)opk_get_vmlmb_mp(o.vm()));
    while (!dead) {
      if (task == OPK_TASK_COMPUTE_FG) {
        x = o.X();
        if (judge) {
          // trial point against the reference direction
          ld stp = o.step(); lvec want(n); ld scale = 0, err = 0;
          if (fresh) { // first trial of an iteration with a quasi-Newton direction: a unit step, or one with the same projection
            stp = 1; fresh = false;
          }
          for (int i = 0; i < n; ++i) { want[i] = xk[i] - stp * d[i]; if (bounded) want[i] = std::min(std::max(want[i], (ld)o.box.lo[i]), (ld)o.box.hi[i]); scale = std::max(scale, fabsl(xk[i]) + fabsl(stp * d[i])); err = std::max(err, fabsl(want[i] - x[i])); }
          ld tol = 4 * eps * scale + stp * derr;
          if (err > tol) { int b = 0; for (int i = 0; i < n; ++i) if (fabsl(want[i] - x[i]) > tol) b = i; t.fail("%s %s with %zu pairs: variable %d of the trial point at step %.17Lg is %.17g, the reference direction gives %.17Lg (tolerance %Lg)", Kind<R>::name, o.mname(), npairs, b, stp, x[b], want[b], tol); }
          if (derr < 1e-2L * norm(d)) ++judged;
        }
        if (evals++ >= budget) break;
        f = p.fg(x, g); for (auto& v : g) v = (R)v; ::set(o.g.v(), g);
        task = o.iterate(f);
        if (task == OPK_TASK_COMPUTE_FG) continue;
      } else if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
        x = o.X(); if (task == OPK_TASK_FINAL_X && t.flag()) break;
        lvec w; if (bounded) w = L(o.box.mask(x, g));
        lvec gk = L(g); if (o.meth == BLMVM) for (int i = 0; i < n; ++i) gk[i] *= w[i];
        xk = L(x);
        if (norm(gk) < 1e-12L) break;
        if (!X.empty()) {
          Pair q; q.s = lin<Q>(1, xk, -1, X.back()); q.y = lin<Q>(1, gk, -1, G.back());
          P.insert(P.begin(), q); if ((opk_index)P.size() > m) P.pop_back();
        }
        X.push_back(xk); G.push_back(gk); npairs = P.size();
        // reference direction
        bool amb = false, amb2 = false; lvec ww = o.meth == VMLMB ? w : lvec();
        lvec gl = L(g); bool qn = twoloop<Exact>(d, gl, P, ww, amb, 64 * n * eps); twoloop<Q>(ds, gl, P, ww, amb2, 0); ld spread = dist(d, ds); if (qn) for (int k = 0; k < 3; ++k) { lvec dp; pert_state = 77 + k; twoloop<typename Shadow<Q>::type>(dp, gl, P, ww, amb2, 0); ld q = dist(d, dp); if (q > spread) { spread = q; ds = dp; } }
        bool ok = qn; ld dgv = 0;
        if (amb) { t.label("uncertain curvature"); break; }
        if (qn) {
          if (bounded) { // project: a variable at the bound it would cross does not move (directions are subtracted)
            for (int i = 0; i < n; ++i) {
              if (d[i] != 0 && fabsl(d[i]) <= fabsl(d[i] - ds[i]) * 100 && (xk[i] == (ld)o.box.lo[i] || xk[i] == (ld)o.box.hi[i])) amb = true;
              bool blocked = d[i] > 0 ? !(xk[i] > (ld)o.box.lo[i]) : d[i] < 0 ? !(xk[i] < (ld)o.box.hi[i]) : false;
              if (blocked) d[i] = ds[i] = 0;
            }
          }
          ld dg = dot<Exact>(d, gl); dgv = dg; ld gn = norm(o.meth == VMLMB && bounded ? [&] { lvec q(n); for (int i = 0; i < n; ++i) q[i] = w[i] * g[i]; return q; }() : gk), cond = 0; for (int i = 0; i < n; ++i) cond += fabsl(d[i] * gl[i]);
          ld unc = 256 * n * eps * cond + spread * norm(gl) * 64, thr = o.epsilon > 0 ? o.epsilon * norm(d) * gn : 0;
          if (fabsl(dg - thr) <= unc + 64 * eps * thr) { t.label("uncertain descent"); break; }
          if (dg < thr) ok = false; 
          if (!(dg > 0)) ok = false;
        }
        if (amb) { t.label("uncertain projection"); break; }
        task = o.iterate(f);
        if (task != OPK_TASK_COMPUTE_FG) break;
        judge = false; fresh = false;
        opk_index mp = opk_get_vmlmb_mp(o.vm());
        if (!ok) {
          if (!P.empty()) { if (o.restarts() != restarts + 1) t.fail("%s: %ld restarts after %ld although the direction is not a descent", o.mname(), (long)o.restarts(), (long)restarts); ++restarts; P.clear(); t.label("restart"); }
          d = gl; if (bounded) for (int i = 0; i < n; ++i) d[i] *= w[i];
          derr = 8 * eps * norm(d); judge = true; npairs = 0;
        } else {
          if (o.restarts() != restarts) t.fail("%s: %ld restarts after %ld although the direction is a descent (slope=%Lg)", o.mname(), (long)o.restarts(), (long)restarts, dgv);
          derr = 64 * spread + 64 * n * eps * norm(d); judge = derr < 0.1L * norm(d); fresh = judge;
        }
        // when the step was limited, a unit step would be projected at the same point only if all moving variables hit a bound
        size_t want = P.size(), least = want; if (o.save_memory && (opk_index)want == m) least = want - 1;
        if (mp < (opk_index)least || mp > (opk_index)want) t.fail("%s (mem=%ld n=%d): %ld memorized pairs, expected %zu", o.mname(), (long)o.mem, n, (long)mp, want);
        for (opk_index j = 1; j <= mp; ++j) {
          opk_vector *s = opk_get_vmlmb_s(o.vm(), j), *y = opk_get_vmlmb_y(o.vm(), j);
          if (!s || !y) t.fail("memorized pair %ld of %ld is null", (long)j, (long)mp);
          dvec sv = get(s, n), yv = get(y, n);
          for (int i = 0; i < n; ++i) {
            if (fabsl(sv[i] - P[j - 1].s[i]) > eps * fabsl(P[j - 1].s[i])) t.fail("%s: memorized variable change %ld of %ld is %.17g for variable %d instead of %.17Lg", o.mname(), (long)j, (long)mp, sv[i], i, P[j - 1].s[i]);
            if (fabsl(yv[i] - P[j - 1].y[i]) > eps * fabsl(P[j - 1].y[i])) t.fail("%s: memorized gradient change %ld of %ld is %.17g for variable %d instead of %.17Lg", o.mname(), (long)j, (long)mp, yv[i], i, P[j - 1].y[i]);
          }
        }
        if (opk_get_vmlmb_s(o.vm(), -1) || opk_get_vmlmb_y(o.vm(), -1) || opk_get_vmlmb_s(o.vm(), mp + 1) || opk_get_vmlmb_y(o.vm(), mp + 1)) t.fail("a pair out of range is returned");
        if (!opk_get_vmlmb_s(o.vm(), 0) || !opk_get_vmlmb_y(o.vm(), 0)) t.fail("the next pair to save is not available");
        if ((opk_index)P.size() == m && X.size() > (size_t)m + 2) ++full;
        (void)sloppy; (void)skippedpairs;
        // first step after a restart with a null function value
        if (!ok && f == 0 && !bounded) { ld xn = norm(xk), want1 = xn > 0 ? o.delta * xn / norm(d) : o.delta / norm(d); if (fabsl(o.step() - want1) > 1e-5L * want1) t.fail("first step is %g instead of %Lg", o.step(), want1); }
      } else break;
    }
  }
  if (judged >= 3) t.nontrivial();
  if (lng) t.label(judged > 300 ? "long run, more than 300 judged" : judged > 100 ? "long run, more than 100 judged" : "long run");
  t.label(o.mname()); t.label(full ? "memory full" : "memory partial");
  if (opk_get_vmlmb_s(nullptr, 1) || opk_get_vmlmb_y(nullptr, 1) || opk_get_vmlmb_mp(nullptr)) t.fail("pairs of a null optimizer");
}
#else
struct CG { lvec d; ld beta = 0; };
// new (anti-)direction; returns false when a restart is due
// `raw' is the uncertainty of d on entry, of the new direction on return; `ub' the uncertainty of beta.
template <class Q> static bool update(unsigned flags, lvec& d, ld& beta, const lvec& g, const lvec& g0, bool& amb, ld eps, ld& raw, ld& ub) {
  lvec y = lin<Q>(1, g, -1, g0); ld gg = dot<Q>(g, g), g0g0 = dot<Q>(g0, g0), gy = dot<Q>(g, y), yy = dot<Q>(y, y);
  // with the search direction p = -d
  ld py = -dot<Q>(d, y), pg = -dot<Q>(d, g), pg0 = -dot<Q>(d, g0); ld c1 = 1, c2, c3 = 0; bool powell = flags & OPK_NLCG_POWELL;
  size_t n = g.size(); auto cond = [&](const lvec& a, const lvec& b) { ld s = 0; for (size_t i = 0; i < n; ++i) s += fabsl(a[i] * b[i]); return s; };
  ld upy = eps * (cond(d, y) + norm(d) * (norm(g) + norm(g0))) + raw * norm(y), upg = eps * cond(d, g) + raw * norm(g), upg0 = eps * cond(d, g0) + raw * norm(g0), ugy = eps * cond(g, y), uc3 = 0, nd = norm(d);
  switch (flags & 0xff) {
    case OPK_NLCG_FLETCHER_REEVES: beta = gg / g0g0; ub = eps * beta; powell = false; break;
    case OPK_NLCG_HESTENES_STIEFEL: if (fabsl(py) <= upy) amb = true; beta = gy / py; ub = (ugy + fabsl(beta) * upy) / fabsl(py); break;
    case OPK_NLCG_POLAK_RIBIERE_POLYAK: beta = gy / g0g0; ub = ugy / g0g0; break;
    case OPK_NLCG_FLETCHER: if (fabsl(pg0) <= upg0) amb = true; beta = -gg / pg0; ub = fabsl(beta) * (eps + upg0 / fabsl(pg0)); powell = false; break;
    case OPK_NLCG_LIU_STOREY: if (fabsl(pg0) <= upg0) amb = true; beta = -gy / pg0; ub = (ugy + fabsl(beta) * upg0) / fabsl(pg0); break;
    case OPK_NLCG_DAI_YUAN: if (fabsl(py) <= upy) amb = true; beta = gg / py; ub = beta * (eps + upy / fabsl(py)); break;
    case OPK_NLCG_HAGER_ZHANG: if (fabsl(py) <= upy) amb = true; beta = (gy - 2 * (yy / py) * pg) / py; ub = (ugy + 2 * yy / fabsl(py) * (upg + fabsl(pg) * (eps + upy / fabsl(py))) + fabsl(beta) * upy) / fabsl(py); break;
    default:
      if (fabsl(py) <= upy || yy <= 1e-16L) amb = true; powell = false;   // squares may underflow
      c1 = py / yy; c2 = gy / yy - 2 * pg / py; c3 = -pg / yy; beta = c2 / c1; if (beta == 0) amb = true; ub = (ugy / yy + 2 * (upg + fabsl(pg / py) * upy) / fabsl(py) + fabsl(beta) * upy / yy) / fabsl(c1); uc3 = upg / yy;
  }
  if (!(fabsl(beta) < 1e300L)) { amb = true; return false; }
  if (powell && fabsl(beta) < 1e-30L) amb = true;
  if (powell && beta < 0) beta = 0;
  if (c3 == 0 && c1 == 1) { if (beta == 0) return false; c2 = beta; } else c2 = beta * c1;
  raw = fabsl(c1) * eps * norm(g) + fabsl(c2) * raw + fabsl(c1) * ub * nd + (c1 != 1 ? upy / yy * norm(g) + fabsl(c2) * upy / fabsl(py) * nd : 0) + (uc3 + fabsl(c3) * eps) * norm(y) + eps * fabsl(c2) * nd;
  for (size_t i = 0; i < n; ++i) d[i] = Q::v(Q::v(c1 * g[i]) + Q::v(c2 * d[i]) + Q::v(c3 * y[i]));
  return true;
}

template <class R> static void conj(T& t) {
  typedef typename Rnd<R>::type Q; const ld eps = Kind<R>::eps;
  bool lng = t.chance(1, 400);   // a long run
  Optim<R> o; Prob p; int n = lng ? (int)t.range(40, 120) : (int)t.size(1, 9, 100); o.make(t, n, NLCG, -1, !lng); p.make(t, n); if (lng) { if (t.flag()) { p.fam = 6; p.a[0] = t.of({100.0, 10.0}); } else p.fam = (int)t.draw(1); t.note("long run, %s %g", p.fname(p.fam), p.a[0]); } o.start_point(t, p);
  static const char* names[] = {"", "Fletcher-Reeves", "Hestenes-Stiefel", "Polak-Ribiere-Polyak", "Fletcher", "Liu-Storey", "Dai-Yuan", "Perry-Shanno", "Hager-Zhang"};
  const char* name = names[o.flags & 0xff];
  int judged = 0, measured = 0, sessions = t.chance(1, 6) ? 2 : 1; bool powell_restart = false;
  for (int ses = 0; ses < sessions; ++ses) {
    if (ses) o.start_point(t, p);
    opk_task task = o.start(); dvec x, g; double f = 0; int evals = 0, budget = lng ? 900 : t.chance(1, 25) ? 300 : (int)t.range(4, 40); lvec d, ds, xk, gk, g0; ld derr = 0; bool judge = false; opk_index restarts = 0; ld raw = 0, dtg0 = 0, dtg0s = 0, urel = 0, urel0 = 0; bool first = true, drift = false;
    while (true) {
      if (task == OPK_TASK_COMPUTE_FG) {
        x = o.X();
        if (judge) {
          ld stp = o.step(), scale = 0, err = 0; int b = 0;
          for (int i = 0; i < n; ++i) { ld w = xk[i] - stp * d[i], e = fabsl(w - x[i]); scale = std::max(scale, fabsl(xk[i]) + fabsl(stp * d[i])); if (e > err) { err = e; b = i; } }
          ld tol = 4 * eps * scale + stp * derr;
          if (err > tol) t.fail("%s %s: variable %d of the trial point at step %.17Lg is %.17g, the reference direction gives %.17Lg (tolerance %Lg)", Kind<R>::name, name, b, stp, x[b], xk[b] - stp * d[b], tol);
          if (!first) { ++judged;
            // the direction is measured by the trial point when this is more precise than following the recurrence
            ld nm = 4 * eps * scale * sqrtl(n) / stp; if (nm < 0.25L * (64 * dist(d, ds) + 2 * raw)) { for (int i = 0; i < n; ++i) d[i] = (xk[i] - (ld)x[i]) / stp; ds = d; raw = nm; derr = std::min(derr, 2 * nm); ++measured; } }
        }
        if (evals++ >= budget) break;
        f = p.fg(x, g); for (auto& v : g) v = (R)v; ::set(o.g.v(), g);
        task = o.iterate(f);
      } else if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
        x = o.X(); if (task == OPK_TASK_FINAL_X && t.flag()) break;
        g0 = gk; gk = L(g); xk = L(x); double prev = o.step();
        if (norm(gk) < (sizeof(R) == 4 ? 1e-6L : 1e-12L)) break;
        bool ok = false, amb = false, amb2 = false; ld beta = 0, betas = 0, dtg = 0;
        lvec d1 = d, d2 = ds; ld ub = 0, ub2 = 0, raw1 = raw, raw2 = 0;
        if (evals > 1) {
          // errors in g - g0 matter: perturbing y by its rounding
          ok = update<Exact>(o.flags, d1, beta, gk, g0, amb, 8 * n * eps, raw1, ub); bool ok2 = update<Q>(o.flags, d2, betas, gk, g0, amb2, 0, raw2, ub2); if (ok && ok2) for (int k = 0; k < 3; ++k) { lvec dp = ds; ld bp = 0, rp = 0, up = 0; bool ap = false; pert_state = 77 + k; if (update<typename Shadow<Q>::type>(o.flags, dp, bp, gk, g0, ap, 0, rp, up) && dist(d1, dp) > dist(d1, d2)) { d2 = dp; betas = bp; } }
          if (!amb && ok != ok2) amb = true;
          if (amb) { t.label("uncertain update"); break; }
          if (ok) {
            dtg = -dot<Exact>(d1, gk); ld unc = (64 * dist(d1, d2) + 2 * raw1) * norm(gk), thr = o.epsilon > 0 ? -o.epsilon * norm(d1) * norm(gk) : 0; for (int i = 0; i < n; ++i) unc += 256 * eps * fabsl(d1[i] * gk[i]);
            urel = unc / fabsl(dtg); if (norm(d1) > 1e12L || norm(d1) < 1e-12L) amb = true;
            if (amb || fabsl(dtg - thr) <= unc + 64 * eps * fabsl(thr)) { t.label("uncertain descent"); break; }
            if (dtg > thr || dtg >= 0) ok = false;
            dtg0s = -dot<Q>(d2, gk);
          } else if (o.flags & OPK_NLCG_POWELL) powell_restart = true;
        }
        task = o.iterate(f);
        if (task != OPK_TASK_COMPUTE_FG) break;
        if (!ok) {
          if (evals > 1 && o.restarts() != restarts + 1) t.fail("%s: %ld restarts after %ld although a restart is due (beta=%Lg, slope=%Lg)", name, (long)o.restarts(), (long)restarts, beta, dtg);
          if (evals > 1) { ++restarts; t.label("restart"); }
          d = ds = gk; dtg = -norm(gk) * norm(gk); derr = 4 * eps * norm(d); raw = n * eps * norm(d); first = true; judge = true; drift = false;
          if (opk_get_nlcg_beta(o.cg()) != 0) t.fail("%s: beta is %g after a restart", name, opk_get_nlcg_beta(o.cg()));
          ld want;
          if (f == 0) { ld xn = norm(xk); want = xn > 0 ? o.delta * xn / norm(gk) : o.delta / norm(gk); if (fabsl(o.step() - want) > 1e-5L * want) t.fail("first step is %g instead of %Lg", o.step(), want); }
        } else {
          if (o.restarts() != restarts) t.fail("%s: %ld restarts after %ld although no restart is due (beta=%Lg, slope=%Lg)", name, (long)o.restarts(), (long)restarts, beta, dtg);
          d = d1; ds = d2; raw = raw1; derr = 64 * dist(d, ds) + 64 * n * eps * norm(d) + 2 * raw; first = false;
          if (derr > 0.1L * norm(d)) drift = true;
          judge = !drift;
          if (!drift) {
            double b = opk_get_nlcg_beta(o.cg()); ld tb = 256 * fabsl(beta - betas) + 1e4L * n * eps * fabsl(beta) + 2 * ub + 1e-30L;
            ld gsum = 0; for (int i = 0; i < n; ++i) gsum += fabsl(gk[i]) * (fabsl(gk[i]) + fabsl(g0[i]));
            (void)gsum; if (fabsl(b - beta) > tb && tb < 0.1L * fabsl(beta)) t.fail("%s: beta is %.17g instead of %.17Lg (tolerance %Lg)", name, b, beta, tb);
            // length of the first step
            ld want = prev, tw = 1e-9L * want; if (o.flags & OPK_NLCG_SHANNO_PHUA) { want = prev * dtg0 / dtg; tw = want * (fabsl(dtg0s / dtg - 1) * 64 + 1e4L * eps + 64 * derr / norm(d) + 4 * (urel + urel0)); }
            if (tw < 0.1L * want && fabsl(o.step() - want) > tw) t.fail("%s: first step of the line search is %.17g instead of %.17Lg (%s)", name, o.step(), want, (o.flags & OPK_NLCG_SHANNO_PHUA) ? "same first order change as the previous one" : "previous step");
          }
        }
        dtg0 = dtg; urel0 = ok ? urel : 64 * eps;
        if (drift) { t.label("drift"); break; }
      } else break;
    }
  }
  if (judged >= 3) t.nontrivial();
  if (lng) t.label(judged > 300 ? "long run, more than 300 judged" : judged > 100 ? "long run, more than 100 judged" : "long run"); if (measured) t.label("measured direction");
  t.label(name); if (powell_restart) t.label("beta truncated");
}
#endif
}  // namespace

pbt::Check& pbt_check() {
#ifdef CHECK_P13
  static pbt::Check c{"P13", "at least three trial points compared with a well conditioned reference direction", {{"quasi-newton-double", quasi<double>, 3}, {"quasi-newton-float", quasi<float>, 1}}, 150000, 60, 10, {"directions whose reference is sensitive to rounding (by comparing two precisions) are not judged"}};
#else
  static pbt::Check c{"P14", "at least three trial points of iterations that are not restarts compared with the reference direction", {{"conjugate-double", conj<double>, 3}, {"conjugate-float", conj<float>, 1}}, 150000, 60, 10, {"directions whose reference is sensitive to rounding (by comparing two precisions) are not judged"}};
#endif
  return c;
}
