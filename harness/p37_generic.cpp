// P37: user-defined vectors, convex sets and line searches.
#include "optsim.hpp"
#include "xspace.h"
#include <sys/mman.h>

struct Cfg { bool space = false, set = false, ls = false, reset = true, arrays = false; unsigned missing = 0; };
struct Snap { opk_task task; opk_status status; dvec x; double gnorm, step, f; opk_index it, ev, rs; long calls[XS_KINDS]; };

// The optimizer of O on user-defined objects.
template <class R> struct Side {
  xs_env env; Ref inspace, space, lo, hi, inset, set, inls, ls, x, g; Optim<R> o; bool made = false; int stage = 0, can[4] = {0, 0, 0, 0};
  void* vec(const dvec& v) { void* q = opk_vcreate(space.s()); if (q) ::set((opk_vector*)xs_inner(q), v); return q; }
  // returns false when a creation failed
  bool build(const Optim<R>& r, const Cfg& c) {
    o.n = r.n; o.meth = r.meth; int n = r.n; const Box<R>& b = r.box;
    inspace = Ref(Kind<R>::space(n)); space = c.space ? Ref(xs_space(&env, inspace.p, c.set ? c.missing & 3 : c.missing)) : Ref(OPK_HOLD(inspace.p)); if (!space.p) return false;
    if (b.bounded()) {
      opk_vspace* s = c.set ? inspace.s() : space.s(); opk_bound_type lt = OPK_BOUND_NONE, ht = OPK_BOUND_NONE; void *lp = nullptr, *hp = nullptr; double sl = b.slo, sh = b.shi;
      std::vector<R> la, ha;
      if (b.kind == 4) {
        dvec a(b.lo.begin(), b.lo.end()), d(b.hi.begin(), b.hi.end());
        if (c.arrays) { la = b.lo; ha = b.hi; lt = ht = sizeof(R) == 4 ? OPK_BOUND_VOLATILE_FLOAT : OPK_BOUND_VOLATILE_DOUBLE; lp = la.data(); hp = ha.data(); }
        else {
          lt = ht = OPK_BOUND_VECTOR; if (c.set) { lo = Ref(opk_vcreate(s)); hi = Ref(opk_vcreate(s)); ::set(lo.v(), a); ::set(hi.v(), d); }
          else { lo = Ref(vec(a)); if (!lo.p) return false; hi = Ref(vec(d)); if (!hi.p) return false; }
          lp = lo.p; hp = hi.p;
        }
      } else { if (b.kind & 1) { lt = OPK_BOUND_SCALAR_DOUBLE; lp = &sl; } if (b.kind & 2) { ht = OPK_BOUND_SCALAR_DOUBLE; hp = &sh; } }
      stage = 1;
      Ref bx(opk_new_boxset(s, lt, lp, ht, hp)); if (!bx.p) return false;
      if (c.set) { inset = std::move(bx); set = Ref(xs_set(&env, space.p, inset.p, c.missing)); if (!set.p) return false; } else set = std::move(bx);
      lo.drop(); hi.drop();
    }
    const LS& q = r.ls;
    if (q.kind == 1) inls = Ref(opk_lnsrch_new_csrch(q.ftol, q.gtol, q.xtol));
    if (q.kind == 2) inls = Ref(opk_lnsrch_new_backtrack(q.ftol, q.amin));
    if (q.kind == 3) inls = Ref(opk_lnsrch_new_nonmonotone(q.m, q.ftol, q.s1, q.s2));
    if (q.kind && c.ls) ls = Ref(xs_lnsrch(&env, inls.p, c.reset || q.kind == 3)); else ls = std::move(inls);
    stage = 2;
    if (r.is_nlcg()) {
      opk_nlcg_options w; opk_get_nlcg_default_options(&w); w.flags = r.flags; w.delta = r.delta; w.epsilon = r.epsilon; w.stpmin = r.stpmin; w.stpmax = r.stpmax; w.grtol = r.grtol; w.gatol = r.gatol;
      o.opt = Ref(opk_new_nlcg_optimizer(&w, space.s(), (opk_lnsrch*)ls.p));
    } else {
      opk_vmlmb_options w; opk_get_vmlmb_default_options(&w); w.mem = r.mem; w.save_memory = r.save_memory ? OPK_TRUE : OPK_FALSE; w.blmvm = r.meth == BLMVM ? OPK_TRUE : OPK_FALSE; w.delta = r.delta; w.epsilon = r.epsilon; w.stpmin = r.stpmin; w.stpmax = r.stpmax; w.grtol = r.grtol; w.gatol = r.gatol;
      o.opt = Ref(opk_new_vmlmb_optimizer(&w, space.s(), (opk_lnsrch*)ls.p, set.set()));
    }
    if (!o.opt.p) return false;
    stage = 3;
    o.x = Ref(opk_vcreate(space.s())); if (!o.x.p) return false; o.g = Ref(opk_vcreate(space.s())); if (!o.g.p) return false;
    { opk_convexset* q = set.set(); can[0] = opk_can_project_variables(q); can[1] = opk_can_project_directions(q); can[2] = opk_can_get_free_variables(q); can[3] = opk_can_get_step_limits(q); }
    // the optimizer keeps what it needs
    space.drop(); inspace.drop(); set.drop(); inset.drop(); ls.drop(); inls.drop();
    return made = true;
  }
  Side() { memset(&env, 0, sizeof env); }
  void drop() { o.opt.drop(); o.x.drop(); o.g.drop(); lo.drop(); hi.drop(); set.drop(); inset.drop(); ls.drop(); inls.drop(); space.drop(); inspace.drop(); }
};
template <class O> static Snap snap(const O& o, opk_task k, double f, const xs_env* e) {
  Snap s; s.task = k; s.status = o.status(); s.x = get((opk_vector*)xs_inner(o.x.p), o.n); s.gnorm = o.gnorm(); s.step = o.step(); s.f = f; s.it = o.iters(); s.ev = o.evals(); s.rs = o.restarts();
  for (int k2 = 0; k2 < XS_KINDS; ++k2) s.calls[k2] = e ? e->calls[k2] : 0;
  return s;
}
// runs until BUDGET evaluations, a final iterate (sometimes more) or an error
template <class O> static std::vector<Snap> run(T& t, O& o, const Prob& p0, const dvec& x0, int budget, int beyond, xs_env* e, size_t stop = 1u << 30) {
  std::vector<Snap> h; Prob p = p0; dvec g, x; double f = 0; int evals = 0; (void)t;
  ::set((opk_vector*)xs_inner(o.x.p), x0); opk_task k = o.start(); h.push_back(snap(o, k, f, e));
  while (h.size() < stop) {
    if (e && e->bad[0]) break;
    if (k == OPK_TASK_COMPUTE_FG) { if (evals++ >= budget) break; x = get((opk_vector*)xs_inner(o.x.p), o.n); f = p.fg(x, g); for (auto& v : g) if (sizeof(typename std::decay<decltype(o.box.lo[0])>::type) == 4 && !(fabs(v) < 1e30)) v = v < 0 ? -1e30 : 1e30; ::set((opk_vector*)xs_inner(o.g.p), g); }
    else if (k == OPK_TASK_FINAL_X) { if (--beyond < 0) break; }
    else if (k != OPK_TASK_NEW_X) break;
    if (e) { e->f = f; e->expect = 1; }
    k = o.iterate(f); h.push_back(snap(o, k, f, e));
  }
  return h;
}
static void same(T& t, const std::vector<Snap>& a, const std::vector<Snap>& b, size_t upto, const char* what) {
  for (size_t i = 0; i < upto; ++i) {
    if (i >= a.size() || i >= b.size()) t.fail("%s: ends after %zu calls instead of %zu", what, b.size(), a.size());
    const Snap &u = a[i], &v = b[i];
    if (u.task != v.task || u.status != v.status) t.fail("%s: call %zu gives task %d, status %d (%s) instead of task %d, status %d", what, i, (int)v.task, (int)v.status, opk_get_reason(v.status), (int)u.task, (int)u.status);
    for (size_t j = 0; j < u.x.size(); ++j) if (!same_bits(u.x[j], v.x[j])) t.fail("%s: call %zu, variable %zu is %.17g instead of %.17g", what, i, j, v.x[j], u.x[j]);
    if (i && (!same_bits(u.gnorm, v.gnorm) || (i > 1 && !same_bits(u.step, v.step)))) t.fail("%s: call %zu, gradient norm %.17g and step %.17g instead of %.17g and %.17g", what, i, v.gnorm, v.step, u.gnorm, u.step);
    if (u.it != v.it || u.ev != v.ev || u.rs != v.rs) t.fail("%s: call %zu, counters %ld/%ld/%ld instead of %ld/%ld/%ld", what, i, (long)v.it, (long)v.ev, (long)v.rs, (long)u.it, (long)u.ev, (long)u.rs);
  }
}
static void clean(T& t, xs_env& e, const char* what) {
  if (e.bad[0]) t.fail("%s: %s", what, e.bad);
  if (e.vectors || e.spaces || e.sets || e.searches) t.fail("%s: %ld vectors, %ld spaces, %ld sets, %ld line searches not finalized", what, e.vectors, e.spaces, e.sets, e.searches);
}
// What is written on the standard error meanwhile.
struct Hush {
  int fd = -1, old = -1;
  void begin() { fflush(stderr); fd = memfd_create("err", MFD_CLOEXEC); old = dup(2); dup2(fd, 2); }
  std::string end() { if (fd < 0) return ""; fflush(stderr); dup2(old, 2); close(old); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); if (n && pread(fd, &s[0], (size_t)n, 0) != n) s = "?"; close(fd); fd = -1; return s; }
  ~Hush() { end(); }
};
template <class R> static void optimize(T& t) {
  Optim<R> r; Prob p; int n = (int)t.size(1, 8, 100); Cfg c; int which = 1 + (int)t.draw(6); c.space = which & 1; c.set = which & 2; c.ls = which & 4; c.reset = t.flag(); c.arrays = t.flag();
  if (c.set) r.make(t, n, 1 + (int)t.draw(1), c.ls ? 1 + (int)t.draw(2) : -1); else r.make(t, n, -1, c.ls ? 1 + (int)t.draw(2) : -1);
  p.make(t, n); r.start_point(t, p); dvec x0 = r.X(); int budget = (int)t.range(2, 60), beyond = (int)t.draw(3);
  t.note("user-defined:%s%s%s", c.space ? " vectors" : "", c.set ? " set" : "", c.ls ? " line search" : "");
  auto ref = run(t, r, p, x0, budget, beyond, nullptr);
  std::vector<Snap> h; xs_env e0;
  {
    Side<R> s; if (!s.build(r, c)) t.fail("creation on user-defined objects fails (stage %d, %s)", s.stage, strerror(errno));
    h = run(t, s.o, p, x0, budget, beyond, &s.env); if (s.env.bad[0]) t.fail("run on user-defined objects: %s", s.env.bad);
    same(t, ref, h, ref.size(), "run on user-defined objects"); if (h.size() != ref.size()) t.fail("run on user-defined objects goes on after the end");
    if (t.chance(1, 6)) { auto h2 = run(t, s.o, p, x0, budget, beyond, &s.env); same(t, ref, h2, ref.size(), "second run on user-defined objects"); }
    e0 = s.env; s.drop(); clean(t, s.env, "after the run");
    if (c.ls && e0.calls[XS_LSTART] == 0 && ref.size() > 3) t.fail("the given line search is not used");
  }
  bool acted = false;
  if (t.chance(2, 3)) {
    // one of the calls fails
    int kinds[XS_KINDS], nk = 0; for (int k = 0; k <= XS_LITERATE; ++k) if (k == XS_CREATE ? e0.calls[k] > 0 : h.back().calls[k] > 0) kinds[nk++] = k;
    if (nk) {
      int kind = kinds[t.draw(nk - 1)]; long total = kind == XS_CREATE ? e0.calls[kind] : h.back().calls[kind], at = t.range(1, total); static const char* nm[] = {"creation of a vector", "projection of variables", "projection of a direction", "free variables", "step limits", "start of the line search", "iteration of the line search"};
      Side<R> s; s.env.where = kind; s.env.countdown = at; s.env.status = (int)t.range(1, (int)OPK_MAX_STATUS); bool warn = t.flag(); s.env.task = warn ? OPK_LNSRCH_WARNING : OPK_LNSRCH_ERROR; if (warn && t.flag()) s.env.status = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS;
      int status = s.env.status; char what[120]; snprintf(what, sizeof what, "%s %ld of %ld fails with status %d", nm[kind], at, total, status); t.note("%s%s", what, kind >= XS_LSTART && warn ? " (warning)" : "");
      bool ok = s.build(r, c);
      if (kind == XS_CREATE) {
        if (s.env.faults && ok) t.fail("%s, which is ignored", what);
        if (!s.env.faults && !ok) t.fail("creation fails without a reason");
        acted = true; t.label("creation-fails");
      } else {
        if (!ok) t.fail("creation fails");
        size_t step = 0; while (step < h.size() && h[step].calls[kind] < at) ++step;   // the call of the library during which it happens
        Hush hush; if (kind == XS_STEPLIM) hush.begin();
        auto h2 = run(t, s.o, p, x0, budget, beyond, &s.env, step + 1); std::string err = hush.end(); if (s.env.bad[0]) t.fail("%s: %s", what, s.env.bad);
        if (!err.empty()) t.fail("%s: step limits which are not set are used: %s", what, err.c_str());
        same(t, ref, h2, step, what); if (h2.size() != step + 1 || s.env.faults != 1) t.fail("%s: not reached", what);
        const Snap& z = h2.back();
        bool go = kind == XS_LITERATE && warn && status == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS;
        if (go) {
          if (z.task != OPK_TASK_NEW_X && z.task != OPK_TASK_FINAL_X) t.fail("%s: task %d", what, (int)z.task);
          if (z.it != h2[step - 1].it + 1 || z.x != h2[step - 1].x) t.fail("%s: the point is not accepted", what);
        } else {
          if (z.task != OPK_TASK_ERROR || (int)z.status != status) t.fail("%s: task %d, status %d (%s)", what, (int)z.task, (int)z.status, opk_get_reason(z.status));
          opk_task k = s.o.iterate(1.0); if (k != OPK_TASK_ERROR || (int)s.o.status() != status || s.o.task() != OPK_TASK_ERROR) t.fail("%s: the error does not persist (task %d, status %d)", what, (int)k, (int)s.o.status());
          if (s.env.bad[0]) t.fail("%s, after the error: %s", what, s.env.bad);
        }
        auto h3 = run(t, s.o, p, x0, budget, beyond, &s.env); same(t, ref, h3, ref.size(), "run started again after an error");
        acted = true; t.label(nm[kind]);
      }
      s.drop(); s.env.countdown = 0; clean(t, s.env, what);
    }
  }
  if (r.box.bounded() && (c.set || c.space) && t.chance(1, 4)) {
    // one of the methods is missing
    Cfg m = c; int j = (int)t.draw(3), kind = XS_PROJVAR + j; m.missing = 4u << j; Side<R> s; if (!s.build(r, m)) t.fail("creation fails when a method is missing");
    if (c.set) { const int* can = s.can; for (int q = 0; q < 4; ++q) if (!can[q] != (q == j)) t.fail("method %d is missing: operation %d is said to be %s", j, q, can[q] ? "available" : "missing"); }
    size_t step = 0; while (step < h.size() && h[step].calls[kind] < 1) ++step;
    auto h2 = run(t, s.o, p, x0, budget, beyond, &s.env); if (s.env.bad[0]) t.fail("method %d missing: %s", j, s.env.bad);
    if (step >= h.size()) same(t, ref, h2, ref.size(), "a method which is not used is missing");
    else { same(t, ref, h2, step, "a method is missing"); const Snap& z = h2.back(); if (h2.size() != step + 1 || z.task != OPK_TASK_ERROR || z.status != OPK_NOT_IMPLEMENTED) t.fail("method %d is missing: task %d, status %d after %zu calls instead of %zu", j, (int)z.task, (int)z.status, h2.size(), step + 1); }
    s.drop(); clean(t, s.env, "after a missing method"); acted = true; t.label("missing-method");
  }
  t.nontrivial(h.back().it >= 2 && (acted || e0.calls[XS_OPS] + e0.calls[XS_LITERATE] + e0.calls[XS_FREEVAR] > 10));
  t.label(r.mname()); if (c.space) t.label("vectors"); if (c.set) t.label("set"); if (c.ls) t.label("line-search");
}
// operations on user-defined vectors give those of the built-in ones
template <class R> static void operations(T& t) {
  int n = (int)t.size(1, 9, 1000), nv = (int)t.range(1, 4); Ref in(Kind<R>::space(n)); xs_env env; memset(&env, 0, sizeof env);
  Ref sp(xs_space(&env, in.p, 0)); std::vector<Ref> a, b; std::vector<dvec> val;
  for (int i = 0; i < nv; ++i) { dvec v(n); for (auto& e : v) e = (R)t.real(1e3); a.emplace_back(opk_vcreate(sp.s())); b.emplace_back(opk_vcreate(in.s())); if (!a[i].p || !b[i].p) t.fail("vector cannot be created"); opk_vimport(a[i].v(), v.data(), OPK_DOUBLE, n); ::set(b[i].v(), v); }
  auto co = [&]() { return t.flag() ? t.of({0.0, 1.0, -1.0, 2.0, 0.5, -0.0}) : t.real(10); };
  int steps = (int)t.range(1, 12);
  for (int s = 0; s < steps; ++s) {
    int i = (int)t.draw(nv - 1), j = (int)t.draw(nv - 1), k = (int)t.draw(nv - 1), l = (int)t.draw(nv - 1), op = (int)t.draw(16); double p = co(), q = co(), r = co(), u = 0, v = 0; opk_index w = t.range(0, n - 1);
    t.note("op %d on %d %d %d %d with %g %g %g", op, i, j, k, l, p, q, r);
    for (int side = 0; side < 2; ++side) {
      auto& x = side ? b : a; double z = 0; opk_vector *d = x[i].v(), *e = x[j].v(), *f = x[k].v(), *h = x[l].v();
      switch (op) {
        case 0: opk_vzero(d); break; case 1: opk_vfill(d, p); break; case 2: opk_vcopy(d, e); break; case 3: opk_vscale(d, p, e); break; case 4: opk_vswap(d, e); break;
        case 5: z = opk_vdot(d, e); break; case 6: z = opk_vdot3(d, e, f); break; case 7: z = opk_vnorm1(d); break; case 8: z = opk_vnorm2(d); break; case 9: z = opk_vnorminf(d); break;
        case 10: opk_vproduct(d, e, f); break; case 11: case 12: opk_vaxpby(d, p, e, q, f); break; case 13: case 14: opk_vaxpbypcz(d, p, e, q, f, r, h); break;
        case 15: if (opk_vpoke(d, w, p) != OPK_SUCCESS || opk_vpoke(d, n, p) != OPK_OUT_OF_BOUNDS_INDEX) t.fail("poke"); break;
        default: if (opk_vpeek(d, w, &z) != OPK_SUCCESS || opk_vpeek(d, -1, &z) != OPK_OUT_OF_BOUNDS_INDEX) t.fail("peek");
      }
      (side ? v : u) = z;
    }
    if (env.bad[0]) t.fail("operation %d with %g, %g, %g: %s", op, p, q, r, env.bad);
    if (!same_bits(u, v)) t.fail("operation %d gives %.17g instead of %.17g", op, u, v);
  }
  for (int i = 0; i < nv; ++i) {
    dvec x(n), y = get(b[i].v(), n); if (opk_vexport(x.data(), OPK_DOUBLE, n, a[i].v()) != OPK_SUCCESS) t.fail("export fails");
    for (int j = 0; j < n; ++j) if (!same_bits(x[j], y[j])) t.fail("vector %d, element %d is %.17g instead of %.17g", i, j, x[j], y[j]);
    std::string txt[2]; for (int s = 0; s < 2; ++s) { char* buf = nullptr; size_t len = 0; FILE* fp = open_memstream(&buf, &len); opk_vprint(fp, "v", s ? b[i].v() : a[i].v(), 4); fclose(fp); txt[s].assign(buf, len); free(buf); }
    if (txt[0] != txt[1]) t.fail("printed as %s instead of %s", txt[0].c_str(), txt[1].c_str());
  }
  {
    Ref sp2(xs_space(&env, in.p, 3)); Ref v(opk_vcreate(sp2.s())); dvec x(n, 0.0); double lo = 0;
    if (opk_vimport(v.v(), x.data(), OPK_DOUBLE, n) != OPK_NOT_IMPLEMENTED || opk_vexport(x.data(), OPK_DOUBLE, n, v.v()) != OPK_NOT_IMPLEMENTED) t.fail("missing import or export is not reported");
    errno = 0; if (opk_new_boxset(sp2.s(), OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_VOLATILE_DOUBLE, x.data()) || errno != EINVAL) t.fail("array of bounds without import: errno %d", errno);
    errno = 0; if (opk_new_boxset(sp2.s(), OPK_BOUND_VECTOR, a[0].p, OPK_BOUND_NONE, nullptr) || errno != EINVAL) t.fail("bounds of another space: errno %d", errno);
  }
  if (t.flag()) { sp.drop(); in.drop(); a.clear(); b.clear(); } else { a.clear(); b.clear(); sp.drop(); in.drop(); }
  clean(t, env, "after the operations"); t.nontrivial(steps >= 4 && nv > 1); t.label("operations");
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P37", "a case counts when two steps were accepted on user-defined objects whose methods were called more than ten times or failed once, or four operations were made on several vectors",
    {{"optimize-double", optimize<double>, 4}, {"optimize-float", optimize<float>, 2}, {"operations-double", operations<double>, 1}, {"operations-float", operations<float>, 1}}, 300000, 60, 10, {"methods of the user leave their arguments valid"}};
  return c;
}
