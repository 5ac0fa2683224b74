// P16 validation of settings; P30 texts, constants and buffers.
#include "optsim.hpp"
#include <sys/types.h>
extern "C" { void vp_on(long); void vp_off(void); long vp_live(void); void vp_reset(void); }

namespace {
#if defined(CHECK_P16)
static const double BAD[] = {NAN, INFINITY, -INFINITY};
// A value of an option; `ok` tells whether the documentation accepts it.
static double opt_value(T& t, bool& ok, double lo, bool lo_open, double hi, bool hi_open, double dflt) {
  switch (t.weighted({10, 3, 2, 1, 1})) {
    case 0: return dflt;
    case 1: { double v = t.loguniform(1e-6, std::isfinite(hi) ? hi * 0.999 : 1e3); return v; }
    case 2: ok = ok && !lo_open; return lo;
    case 3: if (std::isfinite(hi)) { ok = ok && !hi_open; return t.flag() ? hi : (ok = false, hi * 1.5); } return 1e6;
    default: ok = false; switch (t.draw(3)) { case 0: return -t.loguniform(1e-9, 10); case 1: return NAN; case 2: return INFINITY; default: return -INFINITY; }
  }
}
// a valid setting exactly at a limit must be judged like the documentation: 0 <= epsilon < 1, delta > 0, gatol, grtol >= 0, 0 <= stpmin < stpmax
struct Gen { bool ok = true; };
template <class O> static void common(T& t, O& o, bool& ok) {
  o.delta = opt_value(t, ok, 0, true, INFINITY, true, 5e-2);
  o.epsilon = opt_value(t, ok, 0, false, 1, true, 0);
  o.grtol = opt_value(t, ok, 0, false, INFINITY, true, 1e-6);
  o.gatol = opt_value(t, ok, 0, false, INFINITY, true, 0);
  switch (t.weighted({6, 2, 1, 1, 1})) {
    case 0: break;
    case 1: o.stpmin = t.loguniform(1e-12, 1); o.stpmax = o.stpmin * t.loguniform(1.5, 1e6); break;
    case 2: o.stpmin = 0; o.stpmax = t.flag() ? 1e-3 : (ok = false, 0.0); break;
    case 3: o.stpmin = t.loguniform(1e-3, 10); o.stpmax = t.flag() ? o.stpmin : o.stpmin * 0.5; ok = false; break;
    default: ok = false; (t.flag() ? o.stpmin : o.stpmax) = t.of({(double)NAN, (double)INFINITY, -1.0, -(double)INFINITY});
      if (o.stpmin == 0) o.stpmin = -1;
  }
}
static bool rule_ok(unsigned flags) { unsigned r = flags & 0xff; return flags == 0 || (r >= 1 && r <= 8); }

template <class R> static void options(T& t) {
  int n = (int)t.small(1, 8); Ref sp(Kind<R>::space(n)), other(t.flag() ? Kind<R>::space(n) : Kind<R>::space(n + 1));
  double sd = -1; Ref box(opk_new_boxset(sp.s(), OPK_BOUND_SCALAR_DOUBLE, &sd, OPK_BOUND_NONE, nullptr)), fbox(opk_new_boxset(other.s(), OPK_BOUND_SCALAR_DOUBLE, &sd, OPK_BOUND_NONE, nullptr));
  Ref ls; if (t.flag()) ls = Ref(opk_lnsrch_new_backtrack(1e-4, 0.1));
  bool ok = true, nl = t.flag(), nullspace = t.chance(1, 12), foreign = false, drv = t.chance(1, 3); int kind = 0; void* p = nullptr; opk_status st; int e = 0;
  auto refs = [&]() { return std::vector<opk_index>{OPK_REFS(sp.p), OPK_REFS(other.p), OPK_REFS(box.p), OPK_REFS(fbox.p), ls.p ? OPK_REFS(ls.p) : 0}; };
  auto before = refs(); vp_reset();
  if (nl) {
    opk_nlcg_options o; opk_get_nlcg_default_options(&o);
    if (opk_check_nlcg_options(&o) != OPK_SUCCESS) t.fail("the default options of NLCG are refused");
    common(t, o, ok);
    o.fmin_given = t.flag() ? OPK_TRUE : OPK_FALSE; o.fmin = t.weighted({4, 1}) ? BAD[t.draw(2)] : t.real(10);
    if (o.fmin_given && !std::isfinite(o.fmin)) ok = false;
    st = opk_check_nlcg_options(&o);
    if ((st == OPK_SUCCESS) != ok || (!ok && st != OPK_INVALID_ARGUMENT)) t.fail("options of NLCG delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g fmin=%g (%s): status %d, they are %s", o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax, o.fmin, o.fmin_given ? "given" : "not given", (int)st, ok ? "valid" : "not valid");
    o.flags = t.weighted({3, 1}) ? t.of({9u, 0x100u, 0x200u, 0x300u, 0xffu, 0x109u}) : (unsigned)t.range(0, 8);
    if (t.flag()) o.flags |= OPK_NLCG_POWELL; if (t.flag()) o.flags |= OPK_NLCG_SHANNO_PHUA;
    bool fine = ok && rule_ok(o.flags);
    errno = 0; vp_on(0);
    p = drv ? (void*)opk_new_optimizer(OPK_ALGORITHM_NLCG, &o, Kind<R>::type, n, OPK_BOUND_NONE, nullptr, OPK_BOUND_NONE, nullptr, (opk_lnsrch*)ls.p)
            : (void*)opk_new_nlcg_optimizer(&o, nullspace ? nullptr : sp.s(), (opk_lnsrch*)ls.p);
    e = errno; vp_off();
    if (!drv && nullspace) { if (p || (e != EFAULT && !(e == EINVAL && !fine))) t.fail("no space: %s, errno %d", p ? "created" : "refused", e); }
    else if ((p != nullptr) != fine || (!fine && e != EINVAL)) t.fail("NLCG optimizer with %s options (flags %#x) is %s, errno %d", fine ? "valid" : "invalid", o.flags, p ? "created" : "refused", e);
    t.note("NLCG delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g fmin=%g flags=%#x", o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax, o.fmin, o.flags);
    kind = fine;
  } else {
    opk_vmlmb_options o; opk_get_vmlmb_default_options(&o);
    if (opk_check_vmlmb_options(&o) != OPK_SUCCESS) t.fail("the default options of VMLMB are refused");
    common(t, o, ok);
    switch (t.weighted({5, 1, 1})) { case 0: o.mem = t.range(1, 12); break; case 1: o.mem = t.of({(opk_index)0, (opk_index)-1, (opk_index)PTRDIFF_MIN}); ok = false; break; default: o.mem = t.of({(opk_index)PTRDIFF_MAX, (opk_index)1 << 61, (opk_index)1 << 40}); }
    st = opk_check_vmlmb_options(&o);
    if ((st == OPK_SUCCESS) != ok || (!ok && st != OPK_INVALID_ARGUMENT)) t.fail("options of VMLMB delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g mem=%ld: status %d, they are %s", o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax, (long)o.mem, (int)st, ok ? "valid" : "not valid");
    int b = (int)t.weighted({2, 2, 1}); foreign = b == 2 && !drv;
    o.blmvm = t.flag() ? OPK_TRUE : OPK_FALSE; o.save_memory = t.flag() ? OPK_TRUE : OPK_FALSE;
    bool fine = ok && !foreign;
    errno = 0; vp_on(0);
    p = drv ? (void*)opk_new_optimizer(OPK_ALGORITHM_VMLMB, &o, Kind<R>::type, n, b ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, b ? &sd : nullptr, OPK_BOUND_NONE, nullptr, (opk_lnsrch*)ls.p)
            : (void*)opk_new_vmlmb_optimizer(&o, nullspace ? nullptr : sp.s(), (opk_lnsrch*)ls.p, b == 0 ? nullptr : b == 1 ? box.set() : fbox.set());
    e = errno; vp_off();
    if (!drv && nullspace) { if (p || (e != EFAULT && !(e == EINVAL && !fine))) t.fail("no space: %s, errno %d", p ? "created" : "refused", e); }
    else if ((p != nullptr) != fine || (!fine && e != EINVAL)) t.fail("VMLMB optimizer with %s options is %s, errno %d%s", fine ? "valid" : "invalid", p ? "created" : "refused", e, foreign ? " (set of another space)" : "");
    if (p && !drv) {
      opk_vmlmb_method want = b == 0 ? OPK_LBFGS : o.blmvm ? OPK_BLMVM : OPK_VMLMB, got = opk_get_vmlmb_method((opk_vmlmb*)p);
      if (got != want) t.fail("method %d is selected instead of %d", (int)got, (int)want);
    }
    t.note("VMLMB delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g mem=%ld", o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax, (long)o.mem);
    kind = fine;
  }
  if (p) { vp_on(0); OPK_DROP(p); vp_off(); }
  if (vp_live()) t.fail("%ld blocks are leaked", vp_live());
  if (refs() != before) t.fail("reference counts have changed");
  if (opk_check_nlcg_options(nullptr) != OPK_ILLEGAL_ADDRESS || opk_check_vmlmb_options(nullptr) != OPK_ILLEGAL_ADDRESS) t.fail("null options pass the check");
  opk_get_nlcg_default_options(nullptr); opk_get_vmlmb_default_options(nullptr);
  t.nontrivial(); t.label(std::string(nl ? "NLCG " : "VMLMB ") + (kind ? "accepted" : "refused"));
}

// the generic arguments of the driver
static void driver_args(T& t) {
  int n = (int)t.range(1, 6); bool single = t.flag(); int defects = 0; bool fault = false, inval = false;
  double d[8] = {0}, u[8]; float f[8] = {0}, fu[8]; for (int i = 0; i < 8; ++i) { u[i] = 1; fu[i] = 1; }
  int alg = t.flag() ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, type = single ? OPK_FLOAT : OPK_DOUBLE;
  long size = n;
  int lt = alg == OPK_ALGORITHM_VMLMB ? (int)t.draw(6) : 0, ut = alg == OPK_ALGORITHM_VMLMB ? (int)t.draw(6) : 0;
  auto addr = [&](int ty, bool up) -> void* { return ty == 0 ? nullptr : ty % 2 ? (void*)(up ? fu : f) : (void*)(up ? u : d); };
  void *la = addr(lt, false), *ua = addr(ut, true);
  int nd = (int)t.draw(2);
  for (int k = 0; k < nd; ++k) switch (t.draw(7)) {
    case 0: size = t.of({0L, -1L, -1000L}); inval = true; break;
    case 1: type = t.of({-1, 17, 100}); inval = true; break;
    case 2: lt = t.of({8, -1, 77}); inval = true; if (!la) la = d; break;
    case 3: ut = t.of({8, -1, 77}); inval = true; if (!ua) ua = u; break;
    case 4: if (lt > 0 && lt < 7) { la = nullptr; fault = true; } break;
    case 5: if (ut > 0 && ut < 7) { ua = nullptr; fault = true; } else if (ut == 0 && !ua) { ua = u; fault = true; } break;
    case 6: alg = t.of({2, -1, 50}); inval = true; break;
    default: if (alg == OPK_ALGORITHM_NLCG && lt == 0) { lt = t.of({1, 2, 4, 6}); la = addr(lt, false); inval = true; }
  }
  if (alg == OPK_ALGORITHM_NLCG && (lt != 0 || ut != 0)) inval = true;
  if ((lt == 0) != (la == nullptr) || (ut == 0) != (ua == nullptr)) fault = true;
  // a vector of another space
  Ref sp(single ? Kind<float>::space(n) : Kind<double>::space(n)), v(opk_vcreate(sp.s()));
  if (alg == OPK_ALGORITHM_VMLMB && !inval && !fault && t.chance(1, 6)) { (t.flag() ? lt : ut) = 7; if (lt == 7) la = v.p; if (ut == 7) ua = v.p; inval = true; }
  opk_index r0 = OPK_REFS(v.p); vp_reset();
  typedef opk_optimizer* (*maker)(int, const void*, int, opk_index, int, void*, int, void*, opk_lnsrch*);   // enumerations as integers
  maker mk = (maker)(void*)opk_new_optimizer;
  errno = 0; vp_on(0); opk_optimizer* o = mk(alg, nullptr, type, size, lt, la, ut, ua, nullptr); int e = errno; vp_off();
  defects = inval + fault;
  t.note("algorithm %d type %d n=%ld bounds %d (%s) %d (%s)", alg, type, size, lt, la ? "given" : "null", ut, ua ? "given" : "null");
  if ((o != nullptr) != (defects == 0)) t.fail("driver with %s arguments is %s (errno %d)", defects ? "invalid" : "valid", o ? "created" : "refused", e);
  if (!o && !((inval && e == EINVAL) || (fault && e == EFAULT))) t.fail("driver is refused with errno %d for %s", e, inval ? fault ? "an invalid value or a null address" : "an invalid value" : "a null address");
  if (o) { vp_on(0); opk_destroy_optimizer(o); vp_off(); }
  if (vp_live()) t.fail("%ld blocks are leaked", vp_live());
  if (OPK_REFS(v.p) != r0) t.fail("reference counts have changed");
  opk_destroy_optimizer(nullptr);
  t.nontrivial(); t.label(defects ? "refused" : "accepted");
}

// no options means the default options, and the options given are those used
template <class R> static void defaults(T& t) {
  int n = (int)t.small(1, 8); Prob p; p.make(t, n); Ref sp(Kind<R>::space(n)); bool nl = t.flag(); double sd = t.sym(2); Ref box; if (!nl && t.flag()) box = Ref(opk_new_boxset(sp.s(), OPK_BOUND_SCALAR_DOUBLE, &sd, OPK_BOUND_NONE, nullptr));
  opk_nlcg_options no, n2; opk_vmlmb_options vo, v2; int fill = t.of({0, 0xff, 0x5a, 0x01}), fill2 = fill ^ 0x3c;   // whatever the structures held before
  memset(&no, fill, sizeof no); memset(&vo, fill, sizeof vo); memset(&n2, fill2, sizeof n2); memset(&v2, fill2, sizeof v2);
  opk_get_nlcg_default_options(&no); opk_get_vmlmb_default_options(&vo); opk_get_nlcg_default_options(&n2); opk_get_vmlmb_default_options(&v2);
  if (!same_bits(no.delta, n2.delta) || !same_bits(no.epsilon, n2.epsilon) || !same_bits(no.grtol, n2.grtol) || !same_bits(no.gatol, n2.gatol) || !same_bits(no.stpmin, n2.stpmin) || !same_bits(no.stpmax, n2.stpmax) || no.flags != n2.flags || no.fmin_given != n2.fmin_given || no.fmin_given) t.fail("default options of NLCG depend on what the structure held");
  if (!same_bits(vo.delta, v2.delta) || !same_bits(vo.epsilon, v2.epsilon) || !same_bits(vo.grtol, v2.grtol) || !same_bits(vo.gatol, v2.gatol) || !same_bits(vo.stpmin, v2.stpmin) || !same_bits(vo.stpmax, v2.stpmax) || vo.mem != v2.mem || vo.blmvm != v2.blmvm || vo.save_memory != v2.save_memory) t.fail("default options of VMLMB depend on what the structure held");
  if (nl && t.flag()) no.flags = 0;   // the default rule
  Ref o[2]; o[0] = Ref(nl ? (void*)opk_new_nlcg_optimizer(nullptr, sp.s(), nullptr) : (void*)opk_new_vmlmb_optimizer(nullptr, sp.s(), nullptr, box.set()));
  o[1] = Ref(nl ? (void*)opk_new_nlcg_optimizer(&no, sp.s(), nullptr) : (void*)opk_new_vmlmb_optimizer(&vo, sp.s(), nullptr, box.set()));
  if (!o[0].p || !o[1].p) t.fail("optimizer with default options cannot be created");
  no.delta = -1; no.grtol = NAN; no.flags = 77; vo.delta = -1; vo.mem = -1;   // the structure is no longer used
  dvec x0(n); for (auto& v : x0) v = (R)t.sym(4);
  std::vector<dvec> xs[2]; std::vector<int> ts[2];
  for (int s = 0; s < 2; ++s) {
    Ref x(opk_vcreate(sp.s())), g(opk_vcreate(sp.s())); ::set(x.v(), x0); dvec gr; double f = 0;
    opk_task k = nl ? opk_start_nlcg((opk_nlcg*)o[s].p, x.v()) : opk_start_vmlmb((opk_vmlmb*)o[s].p, x.v());
    for (int i = 0; i < 60; ++i) {
      xs[s].push_back(get(x.v(), n)); ts[s].push_back(k);
      if (k == OPK_TASK_COMPUTE_FG) { f = p.fg(xs[s].back(), gr); for (auto& v : gr) { if (!(fabs(v) < 1e15)) v = v < 0 ? -1e15 : 1e15; v = (R)v; } ::set(g.v(), gr); }
      else if (k != OPK_TASK_NEW_X) break;
      k = nl ? opk_iterate_nlcg((opk_nlcg*)o[s].p, x.v(), f, g.v()) : opk_iterate_vmlmb((opk_vmlmb*)o[s].p, x.v(), f, g.v());
    }
  }
  if (ts[0] != ts[1]) t.fail("%s: default options given explicitly lead to other tasks", nl ? "NLCG" : "VMLMB");
  for (size_t i = 0; i < xs[0].size(); ++i) for (int j = 0; j < n; ++j) if (!same_bits(xs[0][i][j], xs[1][i][j])) t.fail("%s: default options given explicitly lead to another point at exchange %zu", nl ? "NLCG" : "VMLMB", i);
  t.nontrivial(ts[0].size() > 6); t.label(nl ? "NLCG" : "VMLMB");
}

// the expected minimum of the function sets the length of the first step of NLCG
template <class R> static void first_step(T& t) {
  int n = (int)t.small(1, 8); Ref sp(Kind<R>::space(n)); opk_nlcg_options o; opk_get_nlcg_default_options(&o);
  o.fmin_given = t.flag() ? OPK_TRUE : OPK_FALSE; double f = t.weighted({3, 1}) ? 0 : t.sym(50); o.fmin = t.flag() ? f - t.loguniform(1e-3, 100) : t.sym(50); o.delta = t.loguniform(1e-3, 1); o.flags = 1 + (unsigned)t.draw(7);
  Ref q(opk_new_nlcg_optimizer(&o, sp.s(), nullptr)); if (!q.p) t.fail("optimizer cannot be created");
  Ref x(opk_vcreate(sp.s())), g(opk_vcreate(sp.s())); dvec x0(n), gr(n); bool zero = t.chance(1, 4); long double gg = 0, xx = 0;
  for (int i = 0; i < n; ++i) { x0[i] = zero ? 0 : (R)t.sym(4); gr[i] = (R)(t.flag() ? t.loguniform(0.1, 10) : -t.loguniform(0.1, 10)); gg += (long double)gr[i] * gr[i]; xx += (long double)x0[i] * x0[i]; }
  ::set(x.v(), x0); ::set(g.v(), gr);
  opk_nlcg* c = (opk_nlcg*)q.p;
  if (opk_start_nlcg(c, x.v()) != OPK_TASK_COMPUTE_FG || opk_iterate_nlcg(c, x.v(), f, g.v()) != OPK_TASK_NEW_X || opk_iterate_nlcg(c, x.v(), f, g.v()) != OPK_TASK_COMPUTE_FG) t.fail("unexpected task");
  bool used = o.fmin_given && o.fmin < f;
  double want = used ? (double)(2 * ((long double)f - o.fmin) / gg) : f != 0 ? (double)(2 * fabsl(f) / gg) : o.delta * (double)sqrtl(xx > 0 ? xx / gg : 1 / gg), got = opk_get_nlcg_step(c);
  if (!(fabs(got - want) <= 50 * Kind<R>::eps * want)) t.fail("first step is %.17g instead of %.17g (f=%g, %s minimum %g)", got, want, f, o.fmin_given ? "expected" : "unused", o.fmin);
  t.note("f=%g fmin=%g %s", f, o.fmin, used ? "used" : "not used"); t.nontrivial(used); t.label(used ? "expected minimum" : f != 0 ? "value" : "small step");
}

// sizes whose storage cannot be addressed
static void sizes(T& t) {
  bool single = t.flag(); size_t es = single ? 4 : 8; opk_index n = (opk_index)((SIZE_MAX / es) / (size_t)t.of({1, 2})) + (opk_index)t.range(-4, 4);
  if (single && t.flag()) n = PTRDIFF_MAX - (opk_index)t.range(0, 20);
  if (t.flag()) n = PTRDIFF_MAX - (opk_index)t.range(0, 1000);
  Ref sp(single ? Kind<float>::space(n) : Kind<double>::space(n));
  t.note("%s n=%ld", single ? "float" : "double", (long)n);
  if (sp.p) { errno = 0; Ref v(opk_vcreate(sp.s())); if (v.p) t.fail("a vector of %ld elements is created", (long)n); if (errno != ENOMEM && errno != EINVAL) t.fail("errno is %d when a vector is too large", errno); }
  if (sp.p) {
    opk_vmlmb_options o; opk_get_vmlmb_default_options(&o); o.mem = t.flag() ? (opk_index)PTRDIFF_MAX : ((opk_index)t.range(1, 15) << 59) + (opk_index)t.range(0, 20); if (o.mem < 1) o.mem = 3;
    errno = 0; Ref q(opk_new_vmlmb_optimizer(&o, sp.s(), nullptr, nullptr)); if (q.p) t.fail("an optimizer of %ld variables which memorizes %ld steps is created", (long)n, (long)o.mem);
    if (errno != ENOMEM && errno != EINVAL) t.fail("errno is %d when an optimizer is too large", errno);
  }
  opk_index m = t.of({(opk_index)1 << 61, (opk_index)1 << 62, (opk_index)PTRDIFF_MAX}) - (opk_index)t.range(-0, 20);
  errno = 0; Ref l(opk_lnsrch_new_nonmonotone(m, 1e-4, 0.1, 0.9)); if (l.p) t.fail("a nonmonotone line search with %ld memorized values is created", (long)m);
  if (errno != ENOMEM && errno != EINVAL) t.fail("errno is %d when a line search is too large", errno);
  t.nontrivial();
}
static void notnumbers(T& t) {
  double v[3] = {1e-4, 0.1, 0.9}; int i = (int)t.draw(2); v[i] = NAN; int k = (int)t.draw(2); if (k == 1 && i == 2) i = 1, v[1] = NAN, v[2] = 0.9;
  errno = 0; Ref l(k == 0 ? opk_lnsrch_new_csrch(v[0], v[1], v[2]) : k == 1 ? opk_lnsrch_new_backtrack(v[0], v[1]) : opk_lnsrch_new_nonmonotone(3, v[0], v[1], v[2]));
  if (l.p || errno != EINVAL) t.fail("line search %d with a parameter that is not a number is %s", k, l.p ? "created" : "refused with another error");
  t.nontrivial(); t.note("line search %d parameter %d", k, i);
}
#endif

#if defined(CHECK_P30)
static void copy_string(T& t) {
  std::string src; int len = (int)t.small(0, 40); for (int i = 0; i < len; ++i) src += (char)t.range(1, 126);
  bool null = t.chance(1, 10), nodst = t.chance(1, 8); if (null) src = "";
  size_t size = t.flag() ? (size_t)t.range(0, 60) : (size_t)std::max<long>(0, (long)src.size() + t.range(-2, 3));
  std::unique_ptr<char[]> s(new char[src.size() + 1]); memcpy(s.get(), src.c_str(), src.size() + 1);
  std::unique_ptr<char[]> d(new char[size ? size : 1]); memset(d.get(), 0x5a, size ? size : 1);
  size_t r = opk_copy_string(nodst ? nullptr : size ? d.get() : d.get(), nodst && t.flag() ? 0 : size, null ? nullptr : s.get());
  if (r != src.size() + 1) t.fail("returns %zu for a string of %zu characters", r, src.size());
  if (!nodst && size > 0) {
    size_t k = std::min(src.size(), size - 1);
    if (memcmp(d.get(), src.data(), k) || d[k] != 0) t.fail("the copy of %zu characters in %zu bytes is wrong", src.size(), size);
  }
  t.note("length %zu, buffer of %zu", src.size(), size); t.nontrivial(src.size() >= size); t.label(src.size() >= size ? "truncated" : "whole");
}
template <class F> static std::string whole(T& t, F f, const char* what) {
  char big[512]; memset(big, 0x5a, sizeof big); size_t r = f(big, sizeof big), l = strnlen(big, sizeof big);
  if (r != l + 1) t.fail("%s: returns %zu for \"%s\"", what, r, big);
  if (f(nullptr, 0) != r) t.fail("%s: another size is returned without a buffer", what);
  size_t size = (size_t)std::max<long>(0, t.flag() ? t.range(0, (long)l + 4) : (long)l + t.range(-1, 1));
  std::unique_ptr<char[]> d(new char[size ? size : 1]); memset(d.get(), 0x5a, size ? size : 1);
  if (f(size ? d.get() : (char*)nullptr, size) != r) t.fail("%s: the returned size depends on the buffer", what);
  if (size) { size_t k = std::min(l, size - 1); if (memcmp(d.get(), big, k) || d[k]) t.fail("%s: wrong contents in a buffer of %zu bytes", what, size); }
  return big;
}
template <class R> static void descriptions(T& t) {
  int n = (int)t.small(1, 30); Ref sp(Kind<R>::space(n)); bool drv = t.flag(); double sd = 0;
  if (t.flag()) {
    opk_nlcg_options o; opk_get_nlcg_default_options(&o); unsigned rule = 1 + (unsigned)t.draw(7); bool pw = t.flag(), sp2 = t.flag(); o.flags = rule | (pw ? OPK_NLCG_POWELL : 0) | (sp2 ? OPK_NLCG_SHANNO_PHUA : 0);
    Ref q(opk_new_nlcg_optimizer(&o, sp.s(), nullptr)); Ref dr; if (drv) dr = Ref(opk_new_optimizer(OPK_ALGORITHM_NLCG, &o, Kind<R>::type, n, OPK_BOUND_NONE, nullptr, OPK_BOUND_NONE, nullptr, nullptr));
    std::string d = whole(t, [&](char* b, size_t s) { return drv ? opk_get_description(b, s, (opk_optimizer*)dr.p) : opk_get_nlcg_description(b, s, (opk_nlcg*)q.p); }, "description");
    std::string nm = whole(t, [&](char* b, size_t s) { return drv ? opk_get_name(b, s, (opk_optimizer*)dr.p) : opk_get_nlcg_name(b, s, (opk_nlcg*)q.p); }, "name");
    static const char* names[8][2] = {{"Fletcher", "Reeves"}, {"Hestenes", "Stiefel"}, {"Polak", "Polyak"}, {"Fletcher", "descent"}, {"Liu", "Storey"}, {"Dai", "Yuan"}, {"Perry", "Shanno"}, {"Hager", "Zhang"}};
    if (d.find(names[rule - 1][0]) == std::string::npos || d.find(names[rule - 1][1]) == std::string::npos) t.fail("rule %u is described as \"%s\"", rule, d.c_str());
    if ((d.find("Powell") != std::string::npos) != pw || (d.find("Phua") != std::string::npos) != sp2) t.fail("flags %#x are described as \"%s\"", o.flags, d.c_str());
    if (nm != "NLCG") t.fail("name is \"%s\"", nm.c_str());
    t.note("%s: %s", nm.c_str(), d.c_str());
  } else {
    opk_vmlmb_options o; opk_get_vmlmb_default_options(&o); o.mem = t.weighted({4, 1}) ? (opk_index)t.of({(opk_index)1000, (opk_index)PTRDIFF_MAX}) : (opk_index)t.range(1, 40); o.blmvm = t.flag() ? OPK_TRUE : OPK_FALSE; bool bd = t.flag();
    Ref box; if (bd) box = Ref(opk_new_boxset(sp.s(), OPK_BOUND_SCALAR_DOUBLE, &sd, OPK_BOUND_NONE, nullptr));
    Ref q(opk_new_vmlmb_optimizer(&o, sp.s(), nullptr, box.set())), dr; if (drv) dr = Ref(opk_new_optimizer(OPK_ALGORITHM_VMLMB, &o, Kind<R>::type, n, bd ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, bd ? &sd : nullptr, OPK_BOUND_NONE, nullptr, nullptr));
    std::string d = whole(t, [&](char* b, size_t s) { return drv ? opk_get_description(b, s, (opk_optimizer*)dr.p) : opk_get_vmlmb_description(b, s, (opk_vmlmb*)q.p); }, "description");
    std::string nm = opk_get_vmlmb_method_name((opk_vmlmb*)q.p);
    if (drv) { std::string k = whole(t, [&](char* b, size_t s) { return opk_get_name(b, s, (opk_optimizer*)dr.p); }, "name"); if (k != nm) t.fail("the driver is named \"%s\", the optimizer \"%s\"", k.c_str(), nm.c_str()); }
    if (nm.find(!bd ? "L-BFGS" : o.blmvm ? "BLMVM" : "VMLMB") == std::string::npos) t.fail("method named \"%s\"", nm.c_str());
    char num[40]; snprintf(num, sizeof num, " %ld ", (long)std::min<opk_index>(o.mem, n));
    if (d.find(num) == std::string::npos || (d.find("bounds") != std::string::npos) != bd) t.fail("%ld memorized steps %s bounds are described as \"%s\"", (long)std::min<opk_index>(o.mem, n), bd ? "and" : "without", d.c_str());
    t.note("%s: %s", nm.c_str(), d.c_str());
  }
  char none[4] = "zz"; if (opk_get_name(none, 4, nullptr) != 1 || none[0]) t.fail("name of nothing");
  strcpy(none, "zz"); if (opk_get_description(none, 4, nullptr) != 1 || none[0]) t.fail("description of nothing");
  t.nontrivial(); t.label(drv ? "driver" : "optimizer");
}

struct Const { const char* name; long value; };
static const Const consts[] = {
#define C(x) {#x, (long)(x)}
  C(OPK_SUCCESS), C(OPK_INVALID_ARGUMENT), C(OPK_INSUFFICIENT_MEMORY), C(OPK_ILLEGAL_ADDRESS), C(OPK_NOT_IMPLEMENTED), C(OPK_CORRUPTED_WORKSPACE), C(OPK_BAD_SPACE), C(OPK_OUT_OF_BOUNDS_INDEX), C(OPK_NOT_STARTED), C(OPK_NOT_A_DESCENT), C(OPK_STEP_CHANGED), C(OPK_STEP_OUTSIDE_BRACKET), C(OPK_STPMIN_GT_STPMAX), C(OPK_STPMIN_LT_ZERO), C(OPK_STEP_LT_STPMIN), C(OPK_STEP_GT_STPMAX), C(OPK_FTOL_TEST_SATISFIED), C(OPK_GTOL_TEST_SATISFIED), C(OPK_XTOL_TEST_SATISFIED), C(OPK_STEP_EQ_STPMAX), C(OPK_STEP_EQ_STPMIN), C(OPK_ROUNDING_ERRORS_PREVENT_PROGRESS), C(OPK_NOT_POSITIVE_DEFINITE), C(OPK_BAD_PRECONDITIONER), C(OPK_INFEASIBLE_BOUNDS), C(OPK_WOULD_BLOCK), C(OPK_UNDEFINED_VALUE), C(OPK_TOO_MANY_EVALUATIONS), C(OPK_TOO_MANY_ITERATIONS),
  C(OPK_TRUE), C(OPK_FALSE), C(OPK_FLOAT), C(OPK_DOUBLE), C(OPK_TASK_ERROR), C(OPK_TASK_START), C(OPK_TASK_COMPUTE_FG), C(OPK_TASK_NEW_X), C(OPK_TASK_FINAL_X), C(OPK_TASK_WARNING), C(OPK_LNSRCH_ERROR), C(OPK_LNSRCH_SEARCH), C(OPK_LNSRCH_CONVERGENCE), C(OPK_LNSRCH_WARNING),
  C(OPK_NLCG_FLETCHER_REEVES), C(OPK_NLCG_HESTENES_STIEFEL), C(OPK_NLCG_POLAK_RIBIERE_POLYAK), C(OPK_NLCG_FLETCHER), C(OPK_NLCG_LIU_STOREY), C(OPK_NLCG_DAI_YUAN), C(OPK_NLCG_PERRY_SHANNO), C(OPK_NLCG_HAGER_ZHANG), C(OPK_NLCG_POWELL), C(OPK_NLCG_SHANNO_PHUA),
  C(OPK_BOUND_NONE), C(OPK_BOUND_SCALAR_FLOAT), C(OPK_BOUND_SCALAR_DOUBLE), C(OPK_BOUND_STATIC_FLOAT), C(OPK_BOUND_STATIC_DOUBLE), C(OPK_BOUND_VOLATILE_FLOAT), C(OPK_BOUND_VOLATILE_DOUBLE), C(OPK_BOUND_VECTOR), C(OPK_ASCENT), C(OPK_DESCENT), C(OPK_SCALING_NONE), C(OPK_SCALING_OREN_SPEDICATO), C(OPK_SCALING_BARZILAI_BORWEIN), C(OPK_LBFGS), C(OPK_VMLMB), C(OPK_BLMVM), C(OPK_ALGORITHM_NLCG), C(OPK_ALGORITHM_VMLMB), C(OPK_FMIN_BOUNDED_BY_A), C(OPK_FMIN_BOUNDED_BY_B), C(OPK_FMIN_SMOOTH), C(OPK_FMIN_ERROR), C(OPK_FMIN_START), C(OPK_FMIN_FX), C(OPK_FMIN_NEWX), C(OPK_FMIN_CONVERGENCE)
#undef C
};
static void constants(T& t) {
  const size_t nc = sizeof consts / sizeof consts[0]; const Const& c = consts[t.draw(nc - 1)]; long v = 0x7777;
  std::string s = c.name; bool mutated = t.flag();
  if (mutated) switch (t.draw(4)) { case 0: s.pop_back(); break; case 1: s += t.of({'X', ' ', '_', '1'}); break; case 2: s[t.draw(s.size() - 1)] ^= 0x20; break; case 3: s = s.substr(1); break; default: s = ""; }
  bool known = false; long want = 0; for (const Const& k : consts) if (s == k.name) { known = true; want = k.value; }
  opk_status st = opk_get_integer_constant(s.c_str(), &v);
  if (known ? st != OPK_SUCCESS || v != want : st != OPK_INVALID_ARGUMENT || v != 0x7777) t.fail("constant \"%s\": status %d value %ld, expected %ld", s.c_str(), (int)st, v, known ? want : 0x7777);
  if (opk_get_integer_constant(s.c_str(), nullptr) != st) t.fail("constant \"%s\" without address: another status", s.c_str());
  if (opk_get_integer_constant(nullptr, &v) != OPK_INVALID_ARGUMENT) t.fail("no name");
  t.note("%s", s.c_str()); t.nontrivial(); t.label(known ? "known" : "unknown");
}
static void reasons(T& t) {
  typedef const char* (*reason_f)(int); reason_f rf = (reason_f)(void*)opk_get_reason; typedef int (*guess_f)(int); guess_f gf = (guess_f)(void*)opk_guess_status;
  int st = (int)t.range(-3, 40); const char* r = rf(st); bool known = st >= 0 && st < OPK_MAX_STATUS;
  if (!r || known != (r[0] != 0)) t.fail("status %d has text \"%s\"", st, r ? r : "(null)");
  for (int k = 0; known && k < OPK_MAX_STATUS; ++k) if (k != st && !strcmp(rf(k), r)) t.fail("statuses %d and %d have the same text", st, k);
  static const struct { int st; const char* word; } words[] = {{OPK_SUCCESS, "ucc"}, {OPK_INVALID_ARGUMENT, "rgument"}, {OPK_INSUFFICIENT_MEMORY, "emory"}, {OPK_ILLEGAL_ADDRESS, "ddress"}, {OPK_FTOL_TEST_SATISFIED, "function"}, {OPK_GTOL_TEST_SATISFIED, "gradient"}, {OPK_XTOL_TEST_SATISFIED, "variable"}, {OPK_STEP_EQ_STPMIN, "lower"}, {OPK_STEP_EQ_STPMAX, "upper"}, {OPK_STEP_LT_STPMIN, "lower"}, {OPK_STEP_GT_STPMAX, "upper"}, {OPK_ROUNDING_ERRORS_PREVENT_PROGRESS, "ounding"}, {OPK_TOO_MANY_EVALUATIONS, "evaluations"}, {OPK_TOO_MANY_ITERATIONS, "iterations"}, {OPK_WOULD_BLOCK, "block"}, {OPK_INFEASIBLE_BOUNDS, "nfeasible"}, {OPK_NOT_STARTED, "started"}, {OPK_NOT_A_DESCENT, "descent"}, {OPK_NOT_IMPLEMENTED, "implemented"}, {OPK_BAD_SPACE, "space"}, {OPK_OUT_OF_BOUNDS_INDEX, "index"}, {OPK_NOT_POSITIVE_DEFINITE, "definite"}, {OPK_UNDEFINED_VALUE, "ndefined"}};
  for (auto& w : words) if (w.st == st && !strstr(r, w.word)) t.fail("status %d is described as \"%s\"", st, r);
  int code = t.flag() ? t.of({ENOMEM, EFAULT, EINVAL}) : (int)t.range(-5, 140), g = gf(code);
  int want = code == ENOMEM ? OPK_INSUFFICIENT_MEMORY : code == EFAULT ? OPK_ILLEGAL_ADDRESS : code == EINVAL ? OPK_INVALID_ARGUMENT : 99;
  if (want != 99 ? g != want : (g == OPK_SUCCESS || g == OPK_INSUFFICIENT_MEMORY || g == OPK_ILLEGAL_ADDRESS || g == OPK_INVALID_ARGUMENT)) t.fail("error code %d is translated as status %d", code, g);
  t.note("status %d: %s, code %d", st, r, code); t.nontrivial(known);
}
static int calls_a, calls_b; static std::string last;
static void ha(const char* m) { ++calls_a; last = m ? m : ""; }
static void hb(const char* m) { ++calls_b; last = m ? m : ""; }
static void handlers(T& t) {
  opk_error_handler* dflt = opk_get_error_handler(); opk_error_handler* cur = dflt; int na = calls_a, nb = calls_b, k = (int)t.range(1, 12);
  for (int i = 0; i < k; ++i) switch (t.draw(3)) {
    case 0: case 1: { opk_error_handler* h = t.of<opk_error_handler*>({ha, hb, nullptr}); opk_error_handler* old = opk_set_error_handler(h); if (old != cur) t.fail("the former handler is not returned"); cur = h ? h : dflt; break; }
    case 2: if (opk_get_error_handler() != cur) t.fail("the handler in force is not returned"); break;
    default: if (cur != dflt) { std::string m = "message " + std::to_string(t.draw(1000)); opk_error(m.c_str()); (cur == ha ? na : nb)++; if (last != m || calls_a != na || calls_b != nb) t.fail("the error is not reported once to the handler in force"); }
      else if (t.chance(1, 8)) {
        int pfd[2]; if (pipe(pfd)) t.discard(); pid_t c = fork();
        if (c == 0) { dup2(pfd[1], 2); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(SIGABRT, SIG_DFL); opk_error("something wrong"); _exit(0); }
        close(pfd[1]); std::string out; char b[256]; ssize_t r; while ((r = read(pfd[0], b, sizeof b)) > 0) out.append(b, r); close(pfd[0]);
        int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFSIGNALED(st) && !(WIFEXITED(st) && WEXITSTATUS(st) != 0)) t.fail("the default handler returns");
        if (out.find("something wrong") == std::string::npos) t.fail("the default handler does not print the message");
        t.label("default handler");
      }
  }
  opk_set_error_handler(nullptr); if (opk_get_error_handler() != dflt) t.fail("the default handler is not restored");
  t.nontrivial(k > 2);
}
// where vectors are printed
static void print_to(T& t) {
  opk_index n = t.range(1, 6); Ref sp(Kind<double>::space(n)), v(opk_vcreate(sp.s())); dvec x(n); for (auto& e : x) e = (double)t.range(-99, 99); set(v.v(), x);
  bool null = t.flag(), named = t.flag(); char* buf = nullptr; size_t sz = 0; FILE* f = open_memstream(&buf, &sz);
  opk_vprint(f, named ? "vec" : nullptr, null ? nullptr : v.v(), 0); fclose(f); std::string a(buf, sz); free(buf);
  fflush(stdout); int fd = memfd_create("out", 0), o1 = dup(1); dup2(fd, 1);
  opk_vprint(nullptr, named ? "vec" : nullptr, null ? nullptr : v.v(), 0);
  fflush(stdout); dup2(o1, 1); close(o1); char b[512]; ssize_t r = pread(fd, b, sizeof b, 0); close(fd);
  if (r != (ssize_t)a.size() || memcmp(b, a.data(), a.size())) t.fail("printing on the standard output gives another text than \"%s\"", a.c_str());
  t.note("%s", a.c_str()); t.nontrivial();
}
#endif
}  // namespace

pbt::Check& pbt_check() {
#if defined(CHECK_P16)
  static pbt::Check c{"P16", "every case of refusal or acceptance counts; a session counts when it lasts, a first step when the expected minimum is used", {{"options-double", options<double>, 4}, {"options-float", options<float>, 2}, {"driver", driver_args, 4}, {"defaults-double", defaults<double>, 1}, {"defaults-float", defaults<float>, 1}, {"first-step-double", first_step<double>, 1}, {"first-step-float", first_step<float>, 1}, {"sizes", sizes, 1}, {"not-numbers", notnumbers, 1}}, 600000, 60, 10, {}};
#else
  static pbt::Check c{"P30", "a copy counts when it is truncated, others always", {{"copy", copy_string, 3}, {"description-double", descriptions<double>, 3}, {"description-float", descriptions<float>, 1}, {"constants", constants, 3}, {"reasons", reasons, 2}, {"handlers", handlers, 2}, {"print", print_to, 1}}, 400000, 60, 10, {}};
#endif
  return c;
}
