// Generated problems, generated optimizers, and a recorded reverse-communication run.
#pragma once
#include "opk.hpp"
typedef long double ld;

struct Prob {
  int n = 1, fam = 0; dvec a, c, b; double off = 0, w = 0; int calls = 0;
  // fam: 0 separable quadratic, 1 quadratic with a rank-one coupling, 2 log-cosh, 3 hyperbolic + coupling, 4 exponentials,
  //      5 quartic, 6 Rosenbrock-like, 7 cosines, 8 tilted plane with small curvature, 9 plane
  static const char* fname(int f) { static const char* s[] = {"quadratic", "coupled quadratic", "logcosh", "hyperbolic", "exponential", "quartic", "rosenbrock", "cosines", "nearly linear", "linear"}; return s[f]; }
  void make(T& t, int n_, bool convex_only = false) {
    n = n_; fam = (int)t.draw(8);
    if (convex_only && (fam == 6 || fam == 7)) fam -= 6; else if (!convex_only && t.chance(1, 30)) fam = 9;
    a.resize(n); c.resize(n); b.resize(n);
    double spread = t.of({3.0, 1.0, 10.0, 30.0});
    for (int i = 0; i < n; ++i) { a[i] = t.loguniform(1 / spread, spread); c[i] = t.flag() ? (double)t.range(-3, 3) : t.sym(5); b[i] = t.sym(1.5); }
    switch (t.draw(3)) { case 0: off = 0; break; case 1: off = t.sym(10); break; case 2: off = 0; break; default: off = t.sym(200); }
    w = t.uniform(0.1, 1);
    t.note("problem %s n=%d off=%g w=%g", fname(fam), n, off, w); t.notev("a", a.data(), n); t.notev("c", c.data(), n); t.notev("b", b.data(), n);
  }
  bool convex() const { return fam != 6 && fam != 7; }
  // exponential, extended quadratically above 3/k
  static void softexp(ld k, ld u, ld& f, ld& g) {
    ld m = 3 / k; if (u <= m) { f = expl(k * u); g = k * f; return; }
    ld e = expl(3.0L), d = k * (u - m); f = e * (1 + d + 0.5L * d * d); g = e * k * (1 + d);
  }
  // a lower bound of the curvature (strong convexity)
  double mu() const { double m = *std::min_element(a.begin(), a.end()); return fam <= 1 ? m : fam == 8 ? 0.02 : w; }
  double fg(const dvec& x, dvec& g) {
    ++calls; g.assign(n, 0); ld f = off; dvec u(n);
    for (int i = 0; i < n; ++i) u[i] = x[i] - c[i];
    switch (fam) {
      case 0: case 1:
        for (int i = 0; i < n; ++i) { f += 0.5L * a[i] * u[i] * u[i]; g[i] = a[i] * u[i]; }
        if (fam == 1) { ld s = 0; for (int i = 0; i < n; ++i) s += (ld)b[i] * u[i]; f += 0.5L * s * s; for (int i = 0; i < n; ++i) g[i] += (double)(s * b[i]); }
        break;
      case 2: for (int i = 0; i < n; ++i) { double q = fabs(u[i]); f += a[i] * (q + log1p(exp(-2 * q)) - M_LN2) + 0.5 * w * u[i] * u[i]; g[i] = a[i] * tanh(u[i]) + w * u[i]; } break;
      case 3: { ld s = 0; for (int i = 0; i < n; ++i) s += (ld)b[i] * u[i];
        for (int i = 0; i < n; ++i) { ld h = sqrtl(1 + (ld)u[i] * u[i]); f += a[i] * (h - 1) + 0.5L * w * u[i] * u[i]; g[i] = (double)(a[i] * u[i] / h + w * u[i] + s * b[i]); }
        f += 0.5L * s * s; break; }
      case 4: for (int i = 0; i < n; ++i) { double k = a[i] > 2 ? 2 : a[i]; ld e1, d1, e2, d2; softexp(k, u[i], e1, d1); softexp(k, -u[i], e2, d2); f += e1 + 0.5L * e2 + 0.5L * w * u[i] * u[i]; g[i] = (double)(d1 - 0.5L * d2 + w * u[i]); } break;
      case 5: for (int i = 0; i < n; ++i) { ld q = (ld)u[i] * u[i]; f += 0.25L * a[i] * q * q + 0.5L * w * q; g[i] = (double)(a[i] * u[i] * q + w * u[i]); } break;
      case 6: for (int i = 0; i < n; ++i) { ld e = (ld)x[i] - 1; f += e * e; g[i] += (double)(2 * e); }
        for (int i = 0; i + 1 < n; ++i) { ld e = (ld)x[i + 1] - (ld)x[i] * x[i]; f += a[0] * e * e; g[i + 1] += (double)(2 * a[0] * e); g[i] -= (double)(4 * a[0] * e * x[i]); } break;
      case 7: for (int i = 0; i < n; ++i) { f += a[i] * (1 - cosl(u[i])) + 0.05L * u[i] * u[i]; g[i] = (double)(a[i] * sinl(u[i]) + 0.1L * u[i]); } break;
      case 9: for (int i = 0; i < n; ++i) { double s = b[i] < 0 ? floor(b[i]) : ceil(b[i]), q = std::max(0.0, fabs(x[i]) - 1000); f += (ld)s * x[i] + 0.5L * q * q; g[i] = s + (x[i] < 0 ? -q : q); } break;   // bounded below
      default: for (int i = 0; i < n; ++i) { f += (ld)b[i] * x[i] + 0.01L * u[i] * u[i]; g[i] = (double)(b[i] + 0.02L * u[i]); }
    }
    if (!(f < 1e300L)) f = 1e300L;
    for (auto& v : g) if (!(fabs(v) < 1e300)) v = v < 0 ? -1e300 : 1e300;
    return (double)f;
  }
};

// Bounds with values of the element type (infinite when absent).
template <class R> struct Box {
  int kind = 0;  // 0 none, 1 lower scalar, 2 upper scalar, 3 both scalars, 4 vectors
  std::vector<R> lo, hi; Ref lv, hv; double slo = -INFINITY, shi = INFINITY; Ref set;
  static constexpr R inf = std::numeric_limits<R>::infinity();
  bool bounded() const { return kind != 0; }
  void make(T& t, int n, opk_vspace* s, int force = -1) {
    kind = force >= 0 ? force : (int)t.weighted({2, 1, 1, 2, 4});
    lo.assign(n, -inf); hi.assign(n, inf);
    if (kind == 1 || kind == 3) { slo = (R)(t.flag() ? (double)t.range(-3, 1) : t.uniform(-4, 2)); }
    if (kind == 2 || kind == 3) { shi = (R)(kind == 3 ? slo + (t.flag() ? (double)t.range(1, 4) : t.loguniform(1e-3, 6)) : t.uniform(-2, 4)); }
    if (kind == 3 && shi < slo) shi = slo;
    for (int i = 0; i < n; ++i) {
      if (kind <= 3) { lo[i] = (R)slo; hi[i] = (R)shi; continue; }
      switch (t.draw(5)) {
        case 0: break;
        case 1: lo[i] = (R)t.real(20); break;
        case 2: hi[i] = (R)t.real(20); break;
        case 3: lo[i] = (R)t.real(20); hi[i] = lo[i] + (R)t.loguniform(1e-3, 5); break;
        case 4: lo[i] = (R)t.real(20); hi[i] = lo[i] + (R)t.range(0, 3); break;
        default: lo[i] = (R)t.uniform(-1, 0); hi[i] = (R)t.uniform(0, 1);
      }
    }
    if (kind == 0) return;
    if (kind == 4) {
      lv = Ref(opk_vcreate(s)); hv = Ref(opk_vcreate(s));
      dvec a(lo.begin(), lo.end()), b(hi.begin(), hi.end());
      ::set(lv.v(), a); ::set(hv.v(), b);
      set = Ref(opk_new_boxset(s, OPK_BOUND_VECTOR, lv.p, OPK_BOUND_VECTOR, hv.p));
      t.notev("lower", a.data(), n); t.notev("upper", b.data(), n);
    } else {
      set = Ref(opk_new_boxset(s, (kind & 1) ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, (kind & 1) ? &slo : nullptr, (kind & 2) ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, (kind & 2) ? &shi : nullptr));
      t.note("box scalars [%g,%g]", slo, shi);
    }
    if (!set.p) t.fail("box set cannot be created");
  }
  bool feasible(const dvec& x) const { for (size_t i = 0; i < x.size(); ++i) if (!(x[i] >= lo[i] && x[i] <= hi[i])) return false; return true; }
  dvec clamp(dvec x) const { for (size_t i = 0; i < x.size(); ++i) { if (x[i] < lo[i]) x[i] = lo[i]; if (x[i] > hi[i]) x[i] = hi[i]; } return x; }
  // 1 where variable i may move against the gradient
  dvec mask(const dvec& x, const dvec& g) const {
    dvec w(x.size());
    for (size_t i = 0; i < x.size(); ++i) w[i] = g[i] > 0 ? x[i] > lo[i] : g[i] < 0 ? x[i] < hi[i] : 0;
    return w;
  }
};

enum Meth { LBFGS, VMLMB, BLMVM, NLCG };
struct LS { int kind = 0; double ftol = 1e-4, gtol = 0.9, xtol = DBL_EPSILON, amin = 0.1, s1 = 0.1, s2 = 0.9; opk_index m = 1; };  // 0 default, 1 csrch, 2 backtrack, 3 nonmonotone

template <class R> struct Optim {
  int n = 1; Meth meth = LBFGS; unsigned flags = 0; LS ls; opk_index mem = 5; bool save_memory = true; double delta = 5e-2, epsilon = 0, grtol = 1e-6, gatol = 0, stpmin = 1e-20, stpmax = 1e20;
  Ref space, lns, opt, x, g; Box<R> box;
  bool is_nlcg() const { return meth == NLCG; }
  opk_vmlmb* vm() const { return (opk_vmlmb*)opt.p; }
  opk_nlcg* cg() const { return (opk_nlcg*)opt.p; }
  opk_task start() { return is_nlcg() ? opk_start_nlcg(cg(), x.v()) : opk_start_vmlmb(vm(), x.v()); }
  opk_task iterate(double f) { return is_nlcg() ? opk_iterate_nlcg(cg(), x.v(), f, g.v()) : opk_iterate_vmlmb(vm(), x.v(), f, g.v()); }
  opk_task task() const { return is_nlcg() ? opk_get_nlcg_task(cg()) : opk_get_vmlmb_task(vm()); }
  opk_status status() const { return is_nlcg() ? opk_get_nlcg_status(cg()) : opk_get_vmlmb_status(vm()); }
  double gnorm() const { return is_nlcg() ? opk_get_nlcg_gnorm(cg()) : opk_get_vmlmb_gnorm(vm()); }
  double step() const { return is_nlcg() ? opk_get_nlcg_step(cg()) : opk_get_vmlmb_step(vm()); }
  opk_index iters() const { return is_nlcg() ? opk_get_nlcg_iterations(cg()) : opk_get_vmlmb_iterations(vm()); }
  opk_index evals() const { return is_nlcg() ? opk_get_nlcg_evaluations(cg()) : opk_get_vmlmb_evaluations(vm()); }
  opk_index restarts() const { return is_nlcg() ? opk_get_nlcg_restarts(cg()) : opk_get_vmlmb_restarts(vm()); }
  opk_index maxpairs() const { return std::min<opk_index>(mem, n); }
  double ftol() const { return ls.kind == 0 ? 1e-4 : ls.ftol; }
  const char* mname() const { static const char* s[] = {"L-BFGS", "VMLMB", "BLMVM", "NLCG"}; return s[meth]; }
  bool uses_csrch() const { return ls.kind == 1 || (ls.kind == 0 && !box.bounded()); }
  void make_ls(T& t, int force = -1, bool wild = false) {
    ls.kind = force >= 0 ? force : (int)t.weighted({3, 1, 1, 1});
    ls.ftol = t.flag() ? 1e-4 : t.loguniform(1e-6, 0.1); ls.gtol = t.flag() ? 0.9 : t.uniform(0.15, 0.95); ls.xtol = DBL_EPSILON;
    ls.amin = t.of({0.1, 0.3, 0.01}); ls.m = t.dim(1, 5, 30, 15);
    if (wild && t.chance(1, 4)) { ls.xtol = t.of({DBL_EPSILON, 1e-10, 1e-3, 0.1, 0.5}); ls.gtol = t.loguniform(1e-3, 0.9); ls.ftol = t.loguniform(1e-4, 0.45); }
    lns.drop(); lns = Ref();
    if (ls.kind == 1) lns = Ref(opk_lnsrch_new_csrch(ls.ftol, ls.gtol, ls.xtol));
    if (ls.kind == 2) lns = Ref(opk_lnsrch_new_backtrack(ls.ftol, ls.amin));
    if (ls.kind == 3) lns = Ref(opk_lnsrch_new_nonmonotone(ls.m, ls.ftol, ls.s1, ls.s2));
    if (ls.kind && !lns.p) t.fail("line search cannot be created");
  }
  void make(T& t, int n_, int force_meth = -1, int force_ls = -1, bool tolerances = true) {
    n = n_; space = Ref(Kind<R>::space(n));
    meth = force_meth >= 0 ? (Meth)force_meth : (Meth)t.weighted({3, 3, 2, 3});
    if (meth == VMLMB || meth == BLMVM) box.make(t, n, space.s(), 1 + (int)t.weighted({1, 1, 2, 4}));
    make_ls(t, force_ls == -2 ? (box.bounded() ? (int)t.of({0, 2, 3}) : is_nlcg() ? (int)t.draw(1) : (int)t.draw(3)) : force_ls, force_ls != -2);
    if (force_ls != -2 && t.chance(1, 4)) { stpmin = t.of({1e-20, 1e-3, 0.1, 0.5, 0.99}); stpmax = t.of({1e20, 1.0, 1.5, 4.0}); }
    if (force_ls == -2 && is_nlcg() && ls.kind == 1) { ls.gtol = t.uniform(0.05, 0.4); lns = Ref(opk_lnsrch_new_csrch(ls.ftol, ls.gtol, ls.xtol)); }
    mem = t.size(1, 8, 40, 25); save_memory = t.flag(); delta = t.of({5e-2, 1e-3, 0.5}); epsilon = t.of({0.0, 0.0, 1e-3, 0.1});
    if (tolerances) { grtol = t.of({1e-6, 1e-3, 0.0, 0.1}); gatol = t.of({0.0, 1e-3, 0.1}); }
    if (is_nlcg()) {
      if (force_ls == -2 && epsilon == 0) epsilon = 1e-3;   // a sufficient descent is required to converge
      flags = (unsigned)(1 + t.draw(7));
      // the rules whose coefficient is a ratio of gradient norms stall without restarts (jamming)
      if (force_ls == -2 && (flags == OPK_NLCG_FLETCHER_REEVES || flags == OPK_NLCG_FLETCHER || flags == OPK_NLCG_DAI_YUAN)) flags = t.of({2u, 3u, 5u, 7u, 8u}); if (t.flag()) flags |= OPK_NLCG_POWELL; if (t.flag()) flags |= OPK_NLCG_SHANNO_PHUA;
      opk_nlcg_options o; opk_get_nlcg_default_options(&o); o.flags = flags; o.delta = delta; o.epsilon = epsilon; o.stpmin = stpmin; o.stpmax = stpmax; o.grtol = grtol; o.gatol = gatol;
      opt = Ref(opk_new_nlcg_optimizer(&o, space.s(), (opk_lnsrch*)lns.p));
    } else {
      opk_vmlmb_options o; opk_get_vmlmb_default_options(&o); o.mem = mem; o.save_memory = save_memory ? OPK_TRUE : OPK_FALSE; o.blmvm = meth == BLMVM ? OPK_TRUE : OPK_FALSE; o.delta = delta; o.epsilon = epsilon; o.stpmin = stpmin; o.stpmax = stpmax; o.grtol = grtol; o.gatol = gatol;
      opt = Ref(opk_new_vmlmb_optimizer(&o, space.s(), (opk_lnsrch*)lns.p, box.set.set()));
    }
    if (!opt.p) t.fail("%s optimizer cannot be created", mname());
    x = Ref(opk_vcreate(space.s())); g = Ref(opk_vcreate(space.s()));
    t.note("%s %s flags=%#x mem=%ld save=%d lnsrch=%d ftol=%g gtol=%g amin=%g m=%ld delta=%g epsilon=%g grtol=%g gatol=%g xtol=%g step=[%g,%g]", Kind<R>::name, mname(), flags, (long)mem, save_memory, ls.kind, ls.ftol, ls.gtol, ls.amin, (long)ls.m, delta, epsilon, grtol, gatol, ls.xtol, stpmin, stpmax);
  }
  void start_point(T& t, const Prob& p) {
    dvec x0(n);
    for (int i = 0; i < n; ++i) {
      switch (t.draw(4)) {
        case 0: x0[i] = 0; break;
        case 1: x0[i] = (R)p.c[i]; if (!t.chance(1, 4)) x0[i] = (R)(p.c[i] + t.sym(3)); break;
        case 2: x0[i] = std::isfinite((double)(box.bounded() ? box.lo[i] : R(0))) && box.bounded() ? (double)box.lo[i] : t.sym(4); break;
        case 3: x0[i] = box.bounded() && std::isfinite((double)box.hi[i]) ? (double)box.hi[i] : t.sym(4); break;
        default: x0[i] = (R)t.sym(6);
      }
      if (p.fam == 4) x0[i] = std::max(-6.0 + p.c[i], std::min(6.0 + p.c[i], x0[i]));
    }
    ::set(x.v(), x0); t.notev("x0", x0.data(), n);
  }
  dvec X() const { return get(x.v(), n); }
};

// What was seen at one point of the dialogue.
struct Rec { opk_task task; dvec x, g; double f = 0, step = 0; };
