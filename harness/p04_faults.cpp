// P04: every constructor under injected allocation failures.
#include "opk.hpp"
extern "C" {
#include "newuoa.h"
#include "cobyla.h"
void vp_on(long); void vp_off(void); long vp_live(void); void vp_reset(void); long vp_calls(void); long vp_failed(void);
void* opk_fmin_new(int); void opk_fmin_destroy(void*);
void* xop_new(unsigned, void*, void*, const double*);
}

namespace {
static int freed = 0;
static void rel(void* c) { (void)c; ++freed; }

static void constructors(T& t) {
  vp_reset(); freed = 0;
  bool dbl = t.flag(); opk_index n = t.size(1, 9, 400);
  Ref sp(dbl ? Kind<double>::space(n) : Kind<float>::space(n));
  std::vector<double> ad(n, -1.0), bd(n, 2.0); std::vector<float> af(n, -1.0f), bf(n, 2.0f); double sd = -1; float sf = 2;
  Ref lv(opk_vcreate(sp.s())), uv(opk_vcreate(sp.s())); set(lv.v(), ad); set(uv.v(), bd);
  Ref ln; switch (t.draw(3)) { case 0: break; case 1: ln = Ref(opk_lnsrch_new_csrch(1e-3, .9, 1e-10)); break; case 2: ln = Ref(opk_lnsrch_new_backtrack(1e-4, .1)); break; default: ln = Ref(opk_lnsrch_new_nonmonotone(3, 1e-4, .1, .9)); }
  opk_lnsrch* l0 = (opk_lnsrch*)ln.p;
  Ref box(opk_new_boxset(sp.s(), OPK_BOUND_SCALAR_DOUBLE, &sd, OPK_BOUND_NONE, nullptr));
  int which = (int)t.draw(12), lty = (int)t.draw(7), uty = (int)t.draw(7);
  auto addr = [&](int ty, bool lower, bool driver) -> void* {
    switch (ty) {
      case OPK_BOUND_NONE: return nullptr; case OPK_BOUND_SCALAR_FLOAT: return &sf; case OPK_BOUND_SCALAR_DOUBLE: return &sd;
      case OPK_BOUND_STATIC_FLOAT: case OPK_BOUND_VOLATILE_FLOAT: return lower ? af.data() : bf.data();
      case OPK_BOUND_STATIC_DOUBLE: case OPK_BOUND_VOLATILE_DOUBLE: return lower ? ad.data() : bd.data();
      default: return lower ? lv.p : uv.p; }
  };
  if (which == 8 && lty == OPK_BOUND_VECTOR) lty = OPK_BOUND_STATIC_DOUBLE;
  if (which == 8 && uty == OPK_BOUND_VECTOR) uty = OPK_BOUND_VOLATILE_FLOAT;
  bool usebox = t.flag(); bool nl = t.flag(); bool okdrv = !nl; if (which == 8 && nl) lty = uty = 0;
  (void)okdrv;
  opk_vmlmb_options vo; opk_get_vmlmb_default_options(&vo); vo.mem = t.dim(1, 6, 40); vo.save_memory = t.flag() ? OPK_TRUE : OPK_FALSE; vo.blmvm = t.flag() ? OPK_TRUE : OPK_FALSE;
  opk_nlcg_options no; opk_get_nlcg_default_options(&no); no.flags = 1 + (unsigned)t.draw(7);
  bool defopt = t.chance(1, 4); opk_index lsm = t.dim(1, 9, 3000); int lskind = (int)t.draw(2); static double mat[1];
  int npt = 0, nn = (int)t.dim(2, 5, 20), mm = (int)t.dim(0, 4, 40); npt = nn + 2 + (int)t.draw((nn + 1) * (nn + 2) / 2 - nn - 2);
  const char* name = ""; void (*del)(void*) = [](void* p) { OPK_DROP(p); };
  auto make = [&]() -> void* {
    switch (which) {
      case 0: name = "vector space"; return dbl ? Kind<double>::space(n) : Kind<float>::space(n);
      case 1: name = "vector"; return opk_vcreate(sp.s());
      case 2: name = "wrapped vector"; return dbl ? (void*)Kind<double>::wrap(sp.s(), ad.data(), rel, &sd) : (void*)Kind<float>::wrap(sp.s(), af.data(), rel, &sd);
      case 3: case 4: name = "box set"; return opk_new_boxset(sp.s(), (opk_bound_type)lty, addr(lty, true, false), (opk_bound_type)uty, addr(uty, false, false));
      case 5: name = "line search"; return lskind == 0 ? opk_lnsrch_new_csrch(1e-3, .9, 1e-10) : lskind == 1 ? opk_lnsrch_new_backtrack(1e-4, .1) : opk_lnsrch_new_nonmonotone(lsm, 1e-4, .1, .9);
      case 6: name = "NLCG"; return opk_new_nlcg_optimizer(defopt ? nullptr : &no, sp.s(), l0);
      case 7: name = "VMLMB"; return opk_new_vmlmb_optimizer(defopt ? nullptr : &vo, sp.s(), l0, usebox ? box.set() : nullptr);
      case 8: name = "driver"; return opk_new_optimizer(nl ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, defopt ? nullptr : nl ? (void*)&no : (void*)&vo, dbl ? OPK_DOUBLE : OPK_FLOAT, n, (opk_bound_type)lty, addr(lty, true, true), (opk_bound_type)uty, addr(uty, false, true), l0);
      case 9: name = "univariate minimizer"; del = [](void* p) { opk_fmin_destroy(p); }; return opk_fmin_new(0);
      case 10: name = "NEWUOA context"; del = [](void* p) { newuoa_delete((newuoa_context*)p); }; return newuoa_create(nn, npt, 1.0, 1e-3, 0, 100);
      case 11: name = "COBYLA context"; del = [](void* p) { cobyla_delete((cobyla_context*)p); }; return cobyla_create(nn, mm, 1.0, 1e-3, 0, 100);
      default: name = "operator"; return xop_new(7, sp.p, sp.p, mat);
    }
  };
  auto refs = [&]() { return std::vector<opk_index>{OPK_REFS(sp.p), OPK_REFS(lv.p), OPK_REFS(uv.p), ln.p ? OPK_REFS(ln.p) : 0, OPK_REFS(box.p)}; };
  auto before = refs();
  // without a fault: how many allocations it takes
  vp_on(0); void* p = make(); long calls = vp_calls(); vp_off();
  if (!p) t.fail("%s cannot be created", name);
  vp_on(0); del(p); vp_off();
  if (vp_live() != 0) t.fail("%s: %ld allocations are left after its destruction", name, vp_live());
  if (refs() != before) t.fail("%s: creating and destroying it changes reference counts", name);
  long k = t.range(1, calls); bool from = t.flag();
  int freed0 = freed;
  vp_on(from ? -k : k); errno = 0; p = make(); int e = errno; long nf = vp_failed(); vp_off();
  t.note("%s (%s n=%ld bounds %d/%d): allocation %ld of %ld%s fails", name, dbl ? "double" : "float", (long)n, lty, uty, k, calls, from ? " and later" : "");
  if (nf > 0) {
    // a constructor may do without an optional allocation, but not silently fail
    if (p) { vp_on(0); del(p); vp_off(); }
    else {
      if (e != ENOMEM) t.fail("%s: allocation %ld of %ld fails, errno is %d instead of ENOMEM", name, k, calls, e);
      if (freed != freed0) t.fail("%s: release function called although nothing was created", name);
    }
  } else t.fail("%s: the allocations differ from one run to the next", name);
  if (vp_live() != 0) t.fail("%s: allocation %ld of %ld fails and %ld blocks are leaked", name, k, calls, vp_live());
  if (refs() != before) t.fail("%s: allocation %ld of %ld fails and reference counts have changed", name, k, calls);
  // it still works afterwards
  vp_on(0); p = make(); vp_off(); if (!p) t.fail("%s cannot be created after a failure", name);
  vp_on(0); del(p); vp_off();
  if (vp_live() != 0) t.fail("%s: leak after recovery", name);
  t.label(name); t.nontrivial(calls > 1 || k == 1); if (calls > 1) t.label("several-allocations");
}
}  // namespace

pbt::Check& pbt_check() {
  static pbt::Check c{"P04", "a case counts when an allocation made by the constructor was made to fail (every allocation of every constructor is a candidate)",
    {{"constructors", constructors, 1}}, 1400000, 60, 10, {"faults are injected in the C allocator only"}};
  return c;
}
