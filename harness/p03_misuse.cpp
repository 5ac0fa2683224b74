// P03: wrapped memory, element access, and refusal of misuse without side effects.
#include "opk.hpp"
extern "C" { void* xop_new(unsigned, void*, void*, const double*); int xop_finalized(void); }

namespace {
static int errors = 0;
static void count_error(const char* m) { if (m && m[0]) ++errors; }
struct Handler { opk_error_handler* old; Handler() { errors = 0; old = opk_set_error_handler(count_error); } ~Handler() { opk_set_error_handler(old); } };

static Ref space(bool d, opk_index n) { return Ref(d ? Kind<double>::space(n) : Kind<float>::space(n)); }

// Mixing vectors of different spaces: one error report, nothing modified.
static void mismatch(T& t) {
  Handler h;
  bool da = t.flag(), db = t.flag(); opk_index na = t.size(1, 12, 3000), nb = t.chance(1, 2) ? na : t.size(1, 12, 3000);
  Ref sa = space(da, na), sb = space(db, nb);
  struct V { Ref r; int home; opk_index n; dvec x; };
  std::vector<V> v(5);
  for (auto& q : v) {
    q.home = t.flag(); q.n = q.home ? nb : na; q.r = Ref(opk_vcreate(q.home ? sb.s() : sa.s()));
    q.x.resize(q.n); for (auto& e : q.x) e = (double)t.range(-9, 9); set(q.r.v(), q.x);
  }
  auto P = [&](int& i) { i = (int)t.draw(4); return v[i].r.v(); };
  int i = 0, j = 0, k = 0, l = 0, op = (int)t.draw(10); std::vector<int> used;
  opk_vector *a = P(i), *b = P(j), *c = P(k), *d = P(l);
  switch (op) { case 0: case 1: case 2: case 3: used = {i, j}; break; case 4: case 5: case 6: used = {i, j, k}; break; case 7: used = {i, j, k, l}; break; default: used = {i, j}; }
  bool mixed = false; for (int q : used) mixed |= v[q].home != v[used[0]].home;
  if (!mixed) t.discard();
  double al = t.coef(), be = t.coef(), ga = t.coef();
  errors = 0; double r = 0;
  switch (op) {
    case 0: opk_vcopy(a, b); break; case 1: opk_vswap(a, b); break; case 2: opk_vscale(a, al, b); break;
    case 3: r = opk_vdot(a, b); break; case 4: r = opk_vdot3(a, b, c); break; case 5: opk_vproduct(a, b, c); break;
    case 6: opk_vaxpby(a, al, b, be, c); break; case 7: opk_vaxpbypcz(a, al, b, be, c, ga, d); break;
    case 8: opk_vcopy(b, a); break; case 9: opk_vscale(b, 0.0, a); break; default: opk_vswap(b, a);
  }
  (void)r;
  t.note("op %d on spaces %d%d%d%d (%s/%ld, %s/%ld) coefs %g %g %g", op, v[i].home, v[j].home, v[k].home, v[l].home, da ? "double" : "float", (long)na, db ? "double" : "float", (long)nb, al, be, ga);
  if (errors != 1) t.fail("operation %d on vectors of different spaces made %d error reports instead of 1", op, errors);
  for (size_t q = 0; q < v.size(); ++q) { dvec y = get(v[q].r.v(), v[q].n); for (opk_index e = 0; e < v[q].n; ++e) if (y[e] != v[q].x[e]) t.fail("operation %d on vectors of different spaces modified a vector", op); }
  t.nontrivial(); t.label("op" + std::to_string(op));
}

struct Rel { int calls = 0; };
static void rel_a(void* c) { ++((Rel*)c)->calls; }
static void rel_b(void* c) { ((Rel*)c)->calls += 100; }

// Wrapped vectors expose the caller's memory; rewrapping releases the former data when due.
template <class R> static void wrapped(T& t) {
  typedef Kind<R> K; typedef Kind<typename std::conditional<std::is_same<R, double>::value, float, double>::type> O;
  opk_index n = t.size(1, 20, 3000); Ref sp(K::space(n)), other(O::space(n));
  const int M = 3; std::vector<std::vector<R>> mem(M, std::vector<R>(n)); std::vector<Rel> cl(M); std::vector<int> want(M, 0);
  for (auto& m : mem) for (auto& e : m) e = (R)t.range(-50, 50);
  void (*fn[3])(void*) = {nullptr, rel_a, rel_b}; int unit[3] = {0, 1, 100};
  int cur = (int)t.draw(M - 1), cf = (int)t.draw(2), cc = (int)t.draw(M - 1);
  opk_vector* v = K::wrap(sp.s(), mem[cur].data(), fn[cf], &cl[cc]);
  if (!v) t.fail("cannot wrap an array");
  int steps = (int)t.dim(1, 15, 200), rewraps = 0;
  for (int s = 0; s < steps; ++s) {
    switch (t.draw(5)) {
      case 0: { opk_index k = t.range(0, n - 1); double x = (double)t.range(-99, 99) * 0.25; if (opk_vpoke(v, k, x) != OPK_SUCCESS) t.fail("poke failed"); if (mem[cur][k] != (R)x) t.fail("storing element %ld of a wrapped vector is not seen in the array", (long)k); break; }
      case 1: { opk_index k = t.range(0, n - 1); mem[cur][k] = (R)t.range(-99, 99); double x = 1e9; if (opk_vpeek(v, k, &x) != OPK_SUCCESS || x != (double)mem[cur][k]) t.fail("a change of the array is not seen through the vector"); break; }
      case 2: {
        if (K::data(v) != mem[cur].data()) t.fail("address of the data differs from the wrapped array");
        if (K::client(v) != &cl[cc]) t.fail("client data differ");
        if (K::freeproc(v) != fn[cf]) t.fail("release function differs");
        errno = 0; if (O::data(v) || errno != EINVAL) t.fail("data of a vector of the other type is given");
        errno = 0; if (O::client(v) || errno != EINVAL) t.fail("client data of a vector of the other type is given");
        errno = 0; if (O::freeproc(v) || errno != EINVAL) t.fail("release function of a vector of the other type is given");
        errno = 0; if (K::data(nullptr) || errno != EFAULT) t.fail("data of a null vector");
        break;
      }
      case 3: case 4: {
        int nd = (int)t.draw(M - 1), nf = (int)t.draw(2), nc = (int)t.draw(M - 1);
        if (cf != 0 && (nf != cf || nc != cc)) want[cc] += unit[cf];
        int st = K::rewrap(v, mem[nd].data(), fn[nf], &cl[nc]);
        if (st != OPK_SUCCESS) t.fail("rewrap returns %d", st);
        cur = nd; cf = nf; cc = nc; ++rewraps; break;
      }
      default: {
        // refused calls leave everything as it was
        int st = K::rewrap(v, nullptr, fn[1], &cl[0]); if (st == OPK_SUCCESS) t.fail("rewrap on a null array succeeds");
        typename std::conditional<std::is_same<R, double>::value, float, double>::type o[1] = {0};
        st = O::rewrap(v, o, fn[1], &cl[0]); if (st == OPK_SUCCESS) t.fail("rewrap of a vector of the other type succeeds");
        st = K::rewrap(nullptr, mem[0].data(), nullptr, nullptr); if (st == OPK_SUCCESS) t.fail("rewrap of a null vector succeeds");
        errno = 0; if (O::wrap(sp.s(), o, nullptr, nullptr) || errno != EINVAL) t.fail("an array of the other type is wrapped");
        errno = 0; if (K::wrap(sp.s(), nullptr, nullptr, nullptr) || errno != EFAULT) t.fail("a null array is wrapped");
      }
    }
    dvec x = get(v, n); for (opk_index k = 0; k < n; ++k) if (x[k] != (double)mem[cur][k]) t.fail("the vector does not show the array it wraps");
    for (int q = 0; q < M; ++q) if (cl[q].calls != want[q]) t.fail("release functions were called %d times (in units of 1 and 100) for client %d instead of %d", cl[q].calls, q, want[q]);
  }
  if (OPK_REFS(sp.p) != 2) t.fail("the space has %ld references", (long)OPK_REFS(sp.p));
  OPK_DROP(v); want[cc] += unit[cf];
  for (int q = 0; q < M; ++q) if (cl[q].calls != want[q]) t.fail("after the last drop, release functions were called %d times for client %d instead of %d", cl[q].calls, q, want[q]);
  if (OPK_REFS(sp.p) != 1) t.fail("the space has %ld references after the vector is gone", (long)OPK_REFS(sp.p));
  t.note("%s n=%ld %d steps %d rewraps", K::name, (long)n, steps, rewraps); t.nontrivial(rewraps > 0);
}

// Functions that return a status refuse bad arguments with the documented status and no effect.
static void statuses(T& t) {
  bool d = t.flag(); opk_index n = t.size(1, 10, 3000); Ref sp = space(d, n), sp2 = space(d, n), spd = space(!d, n);
  opk_index bad = t.flag() ? -t.range(1, 5) : n + t.range(0, 5);
  errno = 0; if (space(d, -t.range(0, 3)).p || errno != EINVAL) t.fail("a space of less than one variable is created");
  Ref v(opk_vcreate(sp.s())), w(opk_vcreate(sp.s())), o(opk_vcreate(sp2.s())), f(opk_vcreate(spd.s()));
  dvec x(n); for (auto& e : x) e = (double)t.range(-9, 9);
  set(v.v(), x); set(w.v(), x); set(o.v(), x); set(f.v(), x);
  double z = 12345; dvec buf(n + 8, 777.0);
  auto expect = [&](const char* what, int st, int want) { if (st != want) t.fail("%s: status %d instead of %d", what, st, want); };
  expect("peek out of range", opk_vpeek(v.v(), bad, &z), OPK_OUT_OF_BOUNDS_INDEX);
  expect("poke out of range", opk_vpoke(v.v(), bad, 1.0), OPK_OUT_OF_BOUNDS_INDEX);
  expect("peek null", opk_vpeek(nullptr, 0, &z), OPK_ILLEGAL_ADDRESS); expect("peek to null", opk_vpeek(v.v(), 0, nullptr), OPK_ILLEGAL_ADDRESS); expect("poke null", opk_vpoke(nullptr, 0, 1), OPK_ILLEGAL_ADDRESS);
  if (z != 12345) t.fail("a refused peek stored a value");
  opk_eltype ty = t.flag() ? OPK_DOUBLE : OPK_FLOAT; opk_index m = t.flag() ? n + t.range(1, 5) : n - t.range(1, n + 1);
  expect("import of a wrong size", opk_vimport(v.v(), buf.data(), ty, m), OPK_INVALID_ARGUMENT);
  expect("import of a wrong type", opk_vimport(v.v(), buf.data(), (opk_eltype)(t.flag() ? 7 : -1), n), OPK_INVALID_ARGUMENT);
  expect("import of null", opk_vimport(v.v(), nullptr, ty, n), OPK_ILLEGAL_ADDRESS); expect("import to null", opk_vimport(nullptr, buf.data(), ty, n), OPK_ILLEGAL_ADDRESS);
  expect("export of a wrong size", opk_vexport(buf.data(), ty, m, v.v()), OPK_INVALID_ARGUMENT);
  expect("export of a wrong type", opk_vexport(buf.data(), (opk_eltype)(t.flag() ? 7 : -1), n, v.v()), OPK_INVALID_ARGUMENT);
  expect("export of null", opk_vexport(buf.data(), ty, n, nullptr), OPK_ILLEGAL_ADDRESS); expect("export to null", opk_vexport(nullptr, ty, n, v.v()), OPK_ILLEGAL_ADDRESS);
  for (double q : buf) if (q != 777.0) t.fail("a refused export wrote in the array");
  // convex sets
  double lo = -3, hi = 4; Ref box(opk_new_boxset(sp.s(), OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi));
  opk_convexset* b = box.set(); opk_vector* foreign = t.flag() ? o.v() : f.v(); double s1 = 1e9, s2 = 1e9, s3 = 1e9;
  opk_vector* A[3] = {v.v(), w.v(), v.v()}; int which = (int)t.draw(2); int fun = (int)t.draw(3); bool null = t.flag();
  A[which] = null ? nullptr : foreign; int want = null ? OPK_ILLEGAL_ADDRESS : OPK_BAD_SPACE; opk_orientation orient = t.flag() ? OPK_ASCENT : OPK_DESCENT;
  switch (fun) {
    case 0: if (which == 2) which = 0, A[0] = A[2]; expect("projection of variables", opk_project_variables(A[0], A[1], b), want); expect("projection on nothing", opk_project_variables(v.v(), w.v(), nullptr), OPK_ILLEGAL_ADDRESS); break;
    case 1: expect("projection of a direction", opk_project_direction(A[0], A[1], b, A[2], orient), want); expect("projection on nothing", opk_project_direction(v.v(), w.v(), nullptr, v.v(), orient), OPK_ILLEGAL_ADDRESS); break;
    case 2: expect("free variables", opk_get_free_variables(A[0], A[1], b, A[2], orient), want); expect("free variables of nothing", opk_get_free_variables(v.v(), w.v(), nullptr, v.v(), orient), OPK_ILLEGAL_ADDRESS); break;
    default: if (which == 0) A[1] = A[0]; expect("step limits", opk_get_step_limits(&s1, &s2, &s3, A[1], b, A[2], orient), want); if (s1 != 1e9 || s2 != 1e9 || s3 != 1e9) t.fail("refused step limits were stored"); expect("step limits of nothing", opk_get_step_limits(&s1, &s2, &s3, v.v(), nullptr, w.v(), orient), OPK_ILLEGAL_ADDRESS);
  }
  if (opk_can_project_variables(nullptr) || opk_can_project_directions(nullptr) || opk_can_get_free_variables(nullptr) || opk_can_get_step_limits(nullptr)) t.fail("operations are said to be available without a set");
  for (Ref* r : {&v, &w, &o, &f}) { dvec y = get(r->v(), n); for (opk_index i = 0; i < n; ++i) if (y[i] != x[i]) t.fail("a refused call modified a vector"); }
  // refused box sets leave the reference counts as they were
  opk_index rs = OPK_REFS(sp.p), rv = OPK_REFS(v.p), ro = OPK_REFS(o.p);
  int k = (int)t.draw(6); opk_convexset* nb = nullptr; errno = 0; bool lower = t.flag();
  int okty = t.flag() ? OPK_BOUND_VECTOR : OPK_BOUND_SCALAR_DOUBLE; void* okad = okty == OPK_BOUND_VECTOR ? (void*)v.p : (void*)&lo;
  int bty; void* bad_ad;
  switch (k) {
    case 0: bty = OPK_BOUND_NONE; bad_ad = &hi; break;
    case 1: bty = (int)t.range(1, 7); bad_ad = nullptr; break;
    case 2: bty = OPK_BOUND_VECTOR; bad_ad = foreign; break;
    case 3: bty = (int)(t.flag() ? 8 + t.draw(20) : -1 - (int)t.draw(5)); bad_ad = &hi; break;
    default: bty = OPK_BOUND_SCALAR_FLOAT; bad_ad = nullptr;
  }
  nb = lower ? opk_new_boxset(sp.s(), (opk_bound_type)bty, bad_ad, (opk_bound_type)okty, okad) : opk_new_boxset(sp.s(), (opk_bound_type)okty, okad, (opk_bound_type)bty, bad_ad);
  if (nb) t.fail("a box set with an invalid %s bound (type %d) is created", lower ? "lower" : "upper", bty);
  if (errno == 0) t.fail("a box set is refused without setting errno");
  errno = 0; if (opk_new_boxset(nullptr, OPK_BOUND_NONE, nullptr, OPK_BOUND_NONE, nullptr) || errno != EFAULT) t.fail("a box set without a space is created");
  if (OPK_REFS(sp.p) != rs || OPK_REFS(v.p) != rv || OPK_REFS(o.p) != ro) t.fail("a refused box set changed reference counts");
  t.note("%s n=%ld function %d argument %d %s, bound %d", d ? "double" : "float", (long)n, fun, which, null ? "null" : "of another space", bty);
  t.nontrivial();
}

// Operators made through the extension interface.
static void operators(T& t) {
  opk_index ni = t.size(1, 8, 64), no = t.chance(1, 3) ? ni : t.size(1, 8, 64); Ref si = space(true, ni), so = space(true, no);
  std::vector<double> a((size_t)ni * no); for (auto& e : a) e = (double)t.range(-5, 5);
  unsigned mask = (unsigned)t.draw(7); int f0 = xop_finalized();
  opk_operator* op = (opk_operator*)xop_new(mask, si.p, so.p, a.data());
  if (!op) t.fail("no operator");
  if (OPK_REFS(si.p) != 2 || OPK_REFS(so.p) != 2) t.fail("the operator does not hold its spaces");
  errno = 0; if (xop_new(mask, nullptr, so.p, a.data()) || errno != EFAULT) t.fail("operator without an input space");
  errno = 0; if (xop_new(mask, si.p, nullptr, a.data()) || errno != EFAULT) t.fail("operator without an output space");
  Ref x(opk_vcreate(si.s())), y(opk_vcreate(so.s())), x2(opk_vcreate(si.s())), y2(opk_vcreate(so.s()));
  dvec dx(ni), dy(no); for (auto& e : dx) e = (double)t.range(-9, 9); for (auto& e : dy) e = (double)t.range(-9, 9);
  set(x.v(), dx); set(y.v(), dy); set(x2.v(), dvec(ni, 99)); set(y2.v(), dvec(no, 99));
  auto expect = [&](const char* what, int st, int want) { if (st != want) t.fail("%s: status %d instead of %d", what, st, want); };
  expect("direct", opk_apply_direct(op, y2.v(), x.v()), mask & 1 ? OPK_SUCCESS : OPK_NOT_IMPLEMENTED);
  expect("adjoint", opk_apply_adjoint(op, x2.v(), y.v()), mask & 2 ? OPK_SUCCESS : OPK_NOT_IMPLEMENTED);
  dvec ry = get(y2.v(), no), rx = get(x2.v(), ni);
  if (mask & 1) for (opk_index i = 0; i < no; ++i) { double s = 0; for (opk_index j = 0; j < ni; ++j) s += a[i * ni + j] * dx[j]; if (ry[i] != s) t.fail("direct application gives %g instead of %g", ry[i], s); }
  if (mask & 2) for (opk_index j = 0; j < ni; ++j) { double s = 0; for (opk_index i = 0; i < no; ++i) s += a[i * ni + j] * dy[i]; if (rx[j] != s) t.fail("adjoint application gives %g instead of %g", rx[j], s); }
  if (!(mask & 1)) for (double e : ry) if (e != 99) t.fail("unimplemented direct application wrote a result");
  if (!(mask & 2)) for (double e : rx) if (e != 99) t.fail("unimplemented adjoint application wrote a result");
  expect("inverse", opk_apply_inverse(op, x2.v(), y.v()), mask & 4 ? OPK_BAD_PRECONDITIONER : OPK_NOT_IMPLEMENTED);
  // wrong spaces (even when the sizes agree) and null arguments
  set(x2.v(), dvec(ni, 99)); set(y2.v(), dvec(no, 99));
  expect("direct, source in the output space", opk_apply_direct(op, y2.v(), y.v()), OPK_BAD_SPACE);
  expect("direct, destination in the input space", opk_apply_direct(op, x2.v(), x.v()), OPK_BAD_SPACE);
  expect("adjoint, source in the input space", opk_apply_adjoint(op, x2.v(), x.v()), OPK_BAD_SPACE);
  expect("adjoint, destination in the output space", opk_apply_adjoint(op, y2.v(), y.v()), OPK_BAD_SPACE);
  expect("inverse, source in the input space", opk_apply_inverse(op, x2.v(), x.v()), OPK_BAD_SPACE);
  expect("inverse, destination in the output space", opk_apply_inverse(op, y2.v(), y.v()), OPK_BAD_SPACE);
  expect("direct, null", opk_apply_direct(nullptr, y2.v(), x.v()), OPK_ILLEGAL_ADDRESS); expect("direct, null", opk_apply_direct(op, nullptr, x.v()), OPK_ILLEGAL_ADDRESS); expect("direct, null", opk_apply_direct(op, y2.v(), nullptr), OPK_ILLEGAL_ADDRESS);
  expect("adjoint, null", opk_apply_adjoint(op, nullptr, y.v()), OPK_ILLEGAL_ADDRESS); expect("inverse, null", opk_apply_inverse(op, x2.v(), nullptr), OPK_ILLEGAL_ADDRESS);
  for (double e : get(x2.v(), ni)) if (e != 99) t.fail("a refused application wrote a result");
  for (double e : get(y2.v(), no)) if (e != 99) t.fail("a refused application wrote a result");
  OPK_HOLD(op); OPK_DROP(op); if (xop_finalized() != f0) t.fail("operator finalized while still referenced");
  opk_index rsi = OPK_REFS(si.p), rso = OPK_REFS(so.p);
  OPK_DROP(op); if (xop_finalized() != f0 + 1) t.fail("operator finalized %d times", xop_finalized() - f0);
  if (OPK_REFS(si.p) != rsi - 1 || OPK_REFS(so.p) != rso - 1) t.fail("the operator still holds its spaces");
  t.note("operator %ldx%ld methods %u", (long)no, (long)ni, mask); t.nontrivial(ni > 1 && no > 1);
}
}  // namespace

pbt::Check& pbt_check() {
  static pbt::Check c{"P03", "a case counts when it mixes spaces, passes an invalid argument, rewraps at least once, or applies a non-trivial operator",
    {{"mismatch", mismatch, 3}, {"wrapped_double", wrapped<double>, 2}, {"wrapped_float", wrapped<float>, 2}, {"statuses", statuses, 3}, {"operators", operators, 2}}, 900000, 60, 10, {}};
  return c;
}
