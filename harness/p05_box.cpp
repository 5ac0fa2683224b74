// P05 (projection of variables), P06 (directions, free variables, step limits) of box sets.
#include "opk.hpp"

namespace {
struct Bounds { int kind; dvec v; };  // kind: 0 none, 1 scalar, 2 elementwise; values as the library sees them

template <class R> struct BoxCase {
  typedef Kind<R> K;
  opk_index n; Ref sp, box, lov, hiv; Bounds lo, hi;
  std::vector<double> lod, hid; std::vector<float> lof, hif; double sld, shd; float slf, shf;
  int lty = 0, uty = 0;

  double value(T& t, bool bare) {
    switch (t.draw(5)) { case 0: return (double)t.range(-3, 3); case 1: return t.sym(2); case 2: return 0.0; case 3: return (double)(float)t.sym(5); default: return t.real(1e5); }
  }
  bool hit = false;
  void make(T& t) {
    n = t.chance(1, 4000) ? t.giant() : t.size(1, 40, 5000); sp = Ref(K::space(n));
    lo.kind = hi.kind = 0; lo.v.assign(n, -INFINITY); hi.v.assign(n, INFINITY);
    lod.resize(n); hid.resize(n); lof.resize(n); hif.resize(n);
    lty = (int)t.draw(7); uty = (int)t.draw(7);
    for (opk_index i = 0; i < n; ++i) {
      if (n > 20000 && i >= 1009) { lod[i] = lod[i - 1009]; hid[i] = hid[i - 1009]; continue; }
      double a = value(t, false), b = t.chance(1, 6) ? a : value(t, false);
      if (t.chance(1, 8)) a = -INFINITY;
      if (t.chance(1, 8)) b = INFINITY;
      if (a > b) std::swap(a, b);
      if (a == INFINITY) a = 0;
      if (b == -INFINITY) b = 0;
      lod[i] = a; hid[i] = b;
    }
    bool ls = lty == 1 || lty == 2, us = uty == 1 || uty == 2;
    // make the bounds consistent as the variables' type sees them
    if (ls || us) {
      double L = *std::max_element(lod.begin(), lod.end()), U = *std::min_element(hid.begin(), hid.end());
      if (ls && us) { sld = lod[0]; shd = hid[0]; }
      else if (ls) { sld = std::isinf(U) ? lod[0] : std::min(lod[0], U); if (sld == -INFINITY) sld = std::isinf(U) ? -1 : U - 1; }
      else { shd = std::isinf(L) ? hid[0] : std::max(hid[0], L); if (shd == INFINITY) shd = std::isinf(L) ? 1 : L + 1; }
      if (ls && us && !(sld <= shd)) std::swap(sld, shd);
    }
    for (opk_index i = 0; i < n; ++i) { lof[i] = (float)lod[i]; hif[i] = (float)hid[i]; }
    slf = (float)sld; shf = (float)shd;
    void *la = nullptr, *ua = nullptr;
    auto side = [&](int ty, void*& ad, std::vector<double>& d, std::vector<float>& f, double& sd, float& sf, Ref& vec, Bounds& b) {
      switch (ty) {
        case OPK_BOUND_NONE: return;
        case OPK_BOUND_SCALAR_FLOAT: ad = &sf; b.kind = 1; b.v.assign(n, (double)(R)sf); return;
        case OPK_BOUND_SCALAR_DOUBLE: ad = &sd; b.kind = 1; b.v.assign(n, (double)(R)sd); return;
        case OPK_BOUND_STATIC_FLOAT: case OPK_BOUND_VOLATILE_FLOAT: ad = f.data(); b.kind = 2; for (opk_index i = 0; i < n; ++i) b.v[i] = (double)(R)f[i]; return;
        case OPK_BOUND_STATIC_DOUBLE: case OPK_BOUND_VOLATILE_DOUBLE: ad = d.data(); b.kind = 2; for (opk_index i = 0; i < n; ++i) b.v[i] = (double)(R)d[i]; return;
        default: vec = Ref(opk_vcreate(sp.s())); set(vec.v(), d); ad = vec.p; b.kind = 2; for (opk_index i = 0; i < n; ++i) b.v[i] = (double)(R)d[i];
      }
    };
    side(lty, la, lod, lof, sld, slf, lov, lo);
    side(uty, ua, hid, hif, shd, shf, hiv, hi);
    for (opk_index i = 0; i < n; ++i) if (!(lo.v[i] <= hi.v[i])) t.discard();
    box = Ref(opk_new_boxset(sp.s(), (opk_bound_type)lty, la, (opk_bound_type)uty, ua));
    if (!box.p) t.fail("no box set for types %d and %d", lty, uty);
    // volatile arrays and scalars may be changed by the caller afterwards
    auto spoil = [&](int ty, std::vector<double>& d, std::vector<float>& f, double& sd, float& sf, Ref& vec) {
      if (ty == OPK_BOUND_VOLATILE_DOUBLE) for (auto& q : d) q = 1e30;
      if (ty == OPK_BOUND_VOLATILE_FLOAT) for (auto& q : f) q = 1e30f;
      if (ty == OPK_BOUND_SCALAR_DOUBLE) sd = -1e30;
      if (ty == OPK_BOUND_SCALAR_FLOAT) sf = -1e30f;
      if (ty == OPK_BOUND_VECTOR && t.flag()) vec.drop();  // the set holds its own reference
    };
    spoil(lty, lod, lof, sld, slf, lov); spoil(uty, hid, hif, shd, shf, hiv);
    char lb[32]; snprintf(lb, sizeof lb, "bounds-%d-%d", lo.kind, hi.kind); t.label(lb); t.label(K::name);
  }
  // a feasible (or arbitrary) point with many coordinates exactly at bounds
  dvec point(T& t, bool feasible) {
    dvec x(n);
    for (opk_index i = 0; i < n; ++i) {
      double a = lo.v[i], b = hi.v[i], v;
      if (n > 20000 && i >= 1013) { v = x[i - 1013]; x[i] = feasible ? v < a ? a : v > b ? b : v : v; continue; }
      switch (t.draw(4)) {
        case 0: v = std::isinf(a) ? 0.0 : a; break;
        case 1: v = std::isinf(b) ? 0.0 : b; break;
        case 2: v = std::isinf(a) || std::isinf(b) ? t.sym(5) : a + (b - a) * t.unit(); break;
        case 3: { double base = std::isinf(a) ? 1.0 : a; v = (double)std::nextafter((R)base, t.flag() ? (R)INFINITY : (R)-INFINITY); break; }
        default: v = !feasible && t.chance(1, 4) ? t.flag() ? INFINITY : -INFINITY : t.real(1e6);
      }
      v = (double)(R)v;
      if (fabs(v) < 1e6 * K::tiny) v = 0;  // no subnormal differences
      if (feasible) { if (v < a) v = a; if (v > b) v = b; }
      x[i] = v;
    }
    return x;
  }
};

template <class R> static void project(T& t) {
  BoxCase<R> c; c.make(t); opk_index n = c.n;
  dvec x = c.point(t, t.chance(1, 3));
  bool inplace = t.flag();
  Ref src(opk_vcreate(c.sp.s())), out; set(src.v(), x);
  opk_vector* dst = src.v();
  if (!inplace) { out = Ref(opk_vcreate(c.sp.s())); set(out.v(), dvec(n, 1234.5)); dst = out.v(); }
  if (!opk_can_project_variables(c.box.set())) t.fail("projection is said not to be implemented");
  opk_status st = opk_project_variables(dst, src.v(), c.box.set());
  if (st != OPK_SUCCESS) t.fail("projection returns %d", (int)st);
  dvec y = get(dst, n), x2 = get(src.v(), n);
  t.note("%s n=%ld types %d/%d%s", Kind<R>::name, (long)n, c.lty, c.uty, inplace ? " in place" : ""); t.notev("x", x.data(), n); t.notev("lower", c.lo.v.data(), n); t.notev("upper", c.hi.v.data(), n);
  int moved = 0;
  for (opk_index i = 0; i < n; ++i) {
    double want = x[i] < c.lo.v[i] ? c.lo.v[i] : x[i] > c.hi.v[i] ? c.hi.v[i] : x[i];
    if (y[i] != want) t.fail("%s: projection of %.17g on [%.17g,%.17g] is %.17g (element %ld of %ld, bound types %d and %d)", Kind<R>::name, x[i], c.lo.v[i], c.hi.v[i], y[i], (long)i, (long)n, c.lty, c.uty);
    if (want != x[i]) ++moved;
    if (!inplace && x2[i] != x[i]) t.fail("the source of the projection was changed");
  }
  // idempotent
  opk_project_variables(dst, dst, c.box.set());
  dvec z = get(dst, n);
  for (opk_index i = 0; i < n; ++i) if (z[i] != y[i]) t.fail("projecting twice changes element %ld from %.17g to %.17g", (long)i, y[i], z[i]);
  t.nontrivial(moved > 0 && moved < n);
  t.label(inplace ? "in-place" : "separate");
}

template <class R> static void direction(T& t) {
  BoxCase<R> c; c.make(t); opk_index n = c.n;
  dvec x = c.point(t, true), d(n);
  for (opk_index j = 0; j < n; ++j) d[j] = n > 20000 && j >= 1019 ? d[j - 1019] : (double)(R)(t.chance(1, 5) ? 0.0 : t.chance(1, 6) ? -0.0 : t.real(1e3));
  int orient = t.flag() ? 1 : -1; int oval = t.chance(1, 4) ? orient * (int)t.range(2, 5) : orient;
  Ref vx(opk_vcreate(c.sp.s())), vd(opk_vcreate(c.sp.s())), vp(opk_vcreate(c.sp.s())), vw(opk_vcreate(c.sp.s()));
  set(vx.v(), x); set(vd.v(), d); set(vp.v(), dvec(n, 55.0)); set(vw.v(), dvec(n, 55.0));
  opk_convexset* s = c.box.set();
  if (!opk_can_project_directions(s) || !opk_can_get_free_variables(s) || !opk_can_get_step_limits(s)) t.fail("an operation is said not to be implemented");
  bool inplace = t.flag();
  opk_vector* dp = vp.v();
  if (inplace) { set(vp.v(), d); }
  opk_status st = opk_project_direction(dp, vx.v(), s, inplace ? dp : vd.v(), (opk_orientation)oval);
  if (st != OPK_SUCCESS) t.fail("projection of the direction returns %d", (int)st);
  st = opk_get_free_variables(vw.v(), vx.v(), s, vd.v(), (opk_orientation)oval);
  if (st != OPK_SUCCESS) t.fail("free variables: status %d", (int)st);
  dvec p = get(dp, n), w = get(vw.v(), n), x2 = get(vx.v(), n), d2 = get(vd.v(), n);
  t.note("%s n=%ld types %d/%d orient %d", Kind<R>::name, (long)n, c.lty, c.uty, oval);
  t.notev("x", x.data(), n); t.notev("lower", c.lo.v.data(), n); t.notev("upper", c.hi.v.data(), n); t.notev("d", d.data(), n);
  int blocked = 0, freev = 0; bool unbounded = c.lo.kind == 0 && c.hi.kind == 0;
  for (opk_index i = 0; i < n; ++i) {
    double dir = orient * d[i];
    bool stuck = (dir < 0 && !(x[i] > c.lo.v[i])) || (dir > 0 && !(x[i] < c.hi.v[i]));
    if (p[i] != (stuck ? 0.0 : d[i])) t.fail("%s: direction %.17g at %.17g in [%.17g,%.17g] (orientation %d) is projected to %.17g", Kind<R>::name, d[i], x[i], c.lo.v[i], c.hi.v[i], oval, p[i]);
    if (w[i] != 0.0 && w[i] != 1.0) t.fail("mask element %ld is %g", (long)i, w[i]);
    if (d[i] != 0.0 && w[i] != (stuck ? 0.0 : 1.0)) t.fail("%s: variable %.17g in [%.17g,%.17g] with direction %.17g (orientation %d) is marked %s", Kind<R>::name, x[i], c.lo.v[i], c.hi.v[i], d[i], oval, w[i] ? "free" : "blocked");
    if (x2[i] != x[i] || d2[i] != d[i]) t.fail("an input was changed");
    blocked += stuck; freev += !stuck && d[i] != 0;
  }
  // step limits
  bool projected = t.flag();
  opk_vector* dv = projected ? dp : vd.v(); dvec dd = projected ? p : d;
  double s1 = -7, s2 = -7, s3 = -7;
  unsigned ask = (unsigned)t.draw(7); if (t.flag()) ask = 7;
  st = opk_get_step_limits(ask & 1 ? &s1 : nullptr, ask & 2 ? &s2 : nullptr, ask & 4 ? &s3 : nullptr, vx.v(), s, dv, (opk_orientation)oval);
  if (st != OPK_SUCCESS) t.fail("step limits: status %d", (int)st);
  // reference, in extended precision; "never" is +inf
  long double r1 = INFINITY, r2 = INFINITY, r3 = 0; int moving = 0; bool any_inf = false;
  for (opk_index i = 0; i < n; ++i) {
    double dir = orient * dd[i]; if (dir == 0) continue;
    ++moving;
    double b = dir > 0 ? c.hi.v[i] : c.lo.v[i];
    long double q = std::isinf(b) ? (long double)INFINITY : ((long double)b - x[i]) / dir;
    if (q > 0.9L * Kind<R>::huge) any_inf = true;
    if (q < r1) r1 = q;
    if (q > 0 && q < r2) r2 = q;
    if (q > r3) r3 = q;
  }
  const double HUGE_ = 0.9 * Kind<R>::huge, tol = 16 * Kind<R>::eps;
  auto cmp = [&](const char* nm, double got, long double want) {
    if (want >= 0.9L * HUGE_) { if (!(got >= 0.8 * HUGE_)) t.fail("%s: %s is %g although no bound is reached", Kind<R>::name, nm, got); return; }
    // the bound minus the variable may underflow or round
    if (!(fabsl(got - want) <= tol * fabsl(want) + 4 * Kind<R>::tiny)) t.fail("%s: %s is %.17g instead of %.17Lg (n=%ld, bound types %d and %d, orientation %d)", Kind<R>::name, nm, got, want, (long)n, c.lty, c.uty, oval);
  };
  if (ask & 1) cmp("smin1", s1, r1);
  if (ask & 2) cmp("smin2", s2, r2);
  if ((ask & 4) && (moving > 0 || !unbounded)) {
    if (moving > 0) cmp("smax", s3, r3);
  }
  if (ask == 7) {
    if (!(0 <= s1 && s1 <= s2 && s2 > 0)) t.fail("%s: limits are not ordered: %g, %g, %g", Kind<R>::name, s1, s2, s3);
    if (projected && s1 != s2) t.fail("%s: the direction is projected but smin1=%.17g differs from smin2=%.17g", Kind<R>::name, s1, s2);
  }
  if (!(ask & 1) && s1 != -7) t.fail("smin1 was stored although not asked");
  if (projected) t.label("limits-of-projected-direction");
  if (any_inf) t.label("some-never-reached");
  t.nontrivial(blocked > 0 && freev > 0);
}
}  // namespace

pbt::Check& pbt_check() {
#ifdef CHECK_P05
  static pbt::Check c{"P05", "a case counts when the projection moves at least one variable and leaves at least one where it was",
    {{"float", project<float>, 1}, {"double", project<double>, 1}}, 1700000, 60, 10, {"bounds are consistent (lower <= upper) as seen in the type of the variables"}};
#else
  static pbt::Check c{"P06", "a case counts when at least one variable is blocked at a bound and at least one is free to move",
    {{"float", direction<float>, 1}, {"double", direction<double>, 1}}, 1300000, 60, 10,
    {"variables are feasible, as the documentation assumes", "the mask of a variable whose direction component is zero is only required to be 0 or 1"}};
#endif
  return c;
}
