// P02: reference counting and lifetimes over histories of operations.
#include "opk.hpp"
extern "C" { void vp_on(long); void vp_off(void); long vp_live(void); void vp_reset(void); }

namespace {
enum Kd { SPACE, VEC, WRAP, BOX, LN, NLCG, VMLMB, DRV };
struct Client { int freed = 0; std::vector<double> d; std::vector<float> f; };
struct Obj { Kd k; void* p; long user; std::vector<int> deps; bool dbl; opk_index n; Client* c = nullptr; int space = -1; bool started = false; std::vector<double> mem; };
struct World {
  std::vector<Obj> o;
  bool alive(int i) const { return o[i].p && (o[i].user > 0 || held(i)); }
  bool held(int i) const { for (size_t j = 0; j < o.size(); ++j) if ((int)j != i && o[j].p) for (int d : o[j].deps) if (d == i && alive((int)j)) return true; return false; }
};
static void on_free(void* c) { ++((Client*)c)->freed; }

struct Lib { Lib() { vp_on(0); } ~Lib() { vp_off(); } };  // library allocations are counted in this scope

static void quad(opk_vector* x, opk_vector* g, opk_index n, double& f) {
  dvec a = get(x, n), b(n); f = 0;
  for (opk_index i = 0; i < n; ++i) { double r = a[i] - 0.3 * (double)(i % 5); f += r * r * (1 + i % 3); b[i] = 2 * r * (1 + i % 3); }
  set(g, b);
}

static void history(T& t) {
  vp_reset();
  World w;
  std::vector<std::unique_ptr<Client>> clients;
  auto add = [&](Obj ob) { w.o.push_back(ob); return (int)w.o.size() - 1; };
  auto pickkind = [&](std::initializer_list<Kd> ks) {
    std::vector<int> c;
    for (size_t i = 0; i < w.o.size(); ++i) for (Kd k : ks) if (w.o[i].k == k && w.o[i].p && w.o[i].user > 0) c.push_back((int)i);
    return c.empty() ? -1 : c[t.draw(c.size() - 1)];
  };
  auto expect_freed = [&]() {
    for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].c) {
      int want = w.alive((int)i) ? 0 : 1;
      if (w.o[i].c->freed != want)
        t.fail("release function of wrapped vector #%zu called %d times while the vector is %s", i, w.o[i].c->freed, want ? "no longer referenced" : "still referenced");
    }
  };
  int steps = (int)t.dim(3, 40, 400, 100), drops_while_held = 0, uses_after = 0;
  for (int s = 0; s < steps; ++s) {
    switch (t.weighted({3, 4, 3, 2, 1, 2, 2, 2, 4, 8, 6})) {
      case 0: {  // new space
        if (w.o.size() > 40) break;
        bool d = t.flag(); opk_index n = t.size(1, 6, 1500, 80); void* p;
        { Lib l; p = d ? Kind<double>::space(n) : Kind<float>::space(n); }
        if (!p) t.fail("no space");
        int id = add({SPACE, p, 1, {}, d, n}); t.note("#%d=space(%s,%ld)", id, d ? "double" : "float", (long)n); break;
      }
      case 1: {  // new vector
        int sp = pickkind({SPACE}); if (sp < 0) break;
        void* p; { Lib l; p = opk_vcreate((opk_vspace*)w.o[sp].p); }
        if (!p) t.fail("no vector");
        set((opk_vector*)p, dvec(w.o[sp].n, 0.25));
        int id = add({VEC, p, 1, {sp}, w.o[sp].dbl, w.o[sp].n, nullptr, sp}); t.note("#%d=vec(#%d)", id, sp); break;
      }
      case 2: {  // wrapped vector with a release function
        int sp = pickkind({SPACE}); if (sp < 0) break;
        clients.emplace_back(new Client); Client* c = clients.back().get(); opk_index n = w.o[sp].n;
        c->d.assign(n, 0.5); c->f.assign(n, 0.5f);
        void* p;
        { Lib l; p = w.o[sp].dbl ? (void*)Kind<double>::wrap((opk_vspace*)w.o[sp].p, c->d.data(), on_free, c) : (void*)Kind<float>::wrap((opk_vspace*)w.o[sp].p, c->f.data(), on_free, c); }
        if (!p) t.fail("cannot wrap");
        int id = add({WRAP, p, 1, {sp}, w.o[sp].dbl, n, c, sp}); t.note("#%d=wrap(#%d)", id, sp); break;
      }
      case 3: {  // box
        int sp = pickkind({SPACE}); if (sp < 0) break;
        Obj b{BOX, nullptr, 1, {sp}, w.o[sp].dbl, w.o[sp].n, nullptr, sp};
        double lo = -1, hi = 1; opk_bound_type lt = OPK_BOUND_NONE, ut = OPK_BOUND_NONE; void *la = nullptr, *ua = nullptr;
        std::vector<double> vol(w.o[sp].n, 2.0);
        auto side = [&](opk_bound_type& ty, void*& ad, double* sc, int sign) {
          switch (t.draw(3)) {
            case 0: break;
            case 1: ty = OPK_BOUND_SCALAR_DOUBLE; ad = sc; break;
            case 2: ty = OPK_BOUND_VOLATILE_DOUBLE; for (auto& q : vol) q = sign; ad = vol.data(); break;
            default: {
              std::vector<int> c;
              for (size_t i = 0; i < w.o.size(); ++i) if ((w.o[i].k == VEC || w.o[i].k == WRAP) && w.o[i].p && w.o[i].user > 0 && w.o[i].space == sp) c.push_back((int)i);
              if (c.empty()) break;
              int v = c[t.draw(c.size() - 1)];
              set((opk_vector*)w.o[v].p, dvec(w.o[v].n, 0.5 * sign));
              ty = OPK_BOUND_VECTOR; ad = w.o[v].p; b.deps.push_back(v);
            }
          }
        };
        int which = (int)t.draw(3);  // lower, upper or both, possibly with the same vector
        if (which != 1) side(lt, la, &lo, -1);
        if (which != 0) side(ut, ua, &hi, 1);
        { Lib l; b.p = opk_new_boxset((opk_vspace*)w.o[sp].p, lt, la, ut, ua); }
        if (!b.p) t.fail("no box set");
        int id = add(b); t.note("#%d=box(#%d,%d,%d)", id, sp, (int)lt, (int)ut); break;
      }
      case 4: {
        void* p; { Lib l; p = t.flag() ? opk_lnsrch_new_csrch(1e-4, 0.9, 1e-12) : t.flag() ? opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.9) : opk_lnsrch_new_backtrack(1e-4, 0.1); }
        if (!p) t.fail("no line search");
        int id = add({LN, p, 1, {}, true, 0}); t.note("#%d=lnsrch", id); break;
      }
      case 5: case 6: {  // optimizer
        bool nl = t.flag(); int sp = pickkind({SPACE}); if (sp < 0) break;
        int ln = t.flag() ? pickkind({LN}) : -1, bx = -1;
        if (!nl) { bx = t.flag() ? pickkind({BOX}) : -1; if (bx >= 0) sp = w.o[bx].space; }
        if (!w.o[sp].p) break;
        Obj b{nl ? NLCG : VMLMB, nullptr, 1, {sp}, w.o[sp].dbl, w.o[sp].n, nullptr, sp};
        if (ln >= 0) b.deps.push_back(ln);
        if (bx >= 0) b.deps.push_back(bx);
        opk_vmlmb_options vo; opk_get_vmlmb_default_options(&vo); vo.mem = t.dim(1, 4, 40); vo.save_memory = t.flag() ? OPK_TRUE : OPK_FALSE; vo.blmvm = t.flag() ? OPK_TRUE : OPK_FALSE;
        opk_nlcg_options no; opk_get_nlcg_default_options(&no); no.flags = 1 + (unsigned)t.draw(7);
        opk_lnsrch* l0 = ln >= 0 ? (opk_lnsrch*)w.o[ln].p : nullptr;
        opk_index before = l0 ? OPK_REFS(l0) : 0;
        {
          Lib l;
          b.p = nl ? (void*)opk_new_nlcg_optimizer(&no, (opk_vspace*)w.o[sp].p, l0)
                   : (void*)opk_new_vmlmb_optimizer(&vo, (opk_vspace*)w.o[sp].p, l0, bx >= 0 ? (opk_convexset*)w.o[bx].p : nullptr);
        }
        if (!b.p) t.fail("no optimizer");
        if (l0 && OPK_REFS(l0) <= before) t.fail("the optimizer holds no reference on its line search");
        int id = add(b); t.note("#%d=%s(#%d,ln#%d,box#%d)", id, nl ? "nlcg" : "vmlmb", sp, ln, bx); break;
      }
      case 7: {  // driver
        int ln = t.flag() ? pickkind({LN}) : -1; bool d = t.flag(); opk_index n = t.size(1, 6, 600, 40);
        Obj b{DRV, nullptr, 1, {}, d, n};
        if (ln >= 0) b.deps.push_back(ln);
        static double lo = -0.75;
        bool bounded = t.flag(); opk_bound_type bt = OPK_BOUND_NONE; void* ba = nullptr;
        std::vector<double> vold(n, 0.9); std::vector<float> volf(n, 0.9f);
        opk_bound_type ut = OPK_BOUND_NONE; void* ua = nullptr;
        if (bounded) { bt = OPK_BOUND_SCALAR_DOUBLE; ba = &lo; if (t.flag()) { ut = d ? OPK_BOUND_VOLATILE_DOUBLE : OPK_BOUND_VOLATILE_FLOAT; ua = d ? (void*)vold.data() : (void*)volf.data(); } }
        { Lib l; b.p = opk_new_optimizer(bounded || t.flag() ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, nullptr, d ? OPK_DOUBLE : OPK_FLOAT, n, bt, ba, ut, ua, ln >= 0 ? (opk_lnsrch*)w.o[ln].p : nullptr); }
        if (!b.p) t.fail("no driver");
        int id = add(b); t.note("#%d=driver(%d)", id, bounded); break;
      }
      case 8: {  // hold
        std::vector<int> c; for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].p && w.o[i].user > 0) c.push_back((int)i);
        if (c.empty()) break;
        int i = c[t.draw(c.size() - 1)]; opk_index r = OPK_REFS(w.o[i].p);
        void* q = OPK_HOLD(w.o[i].p);
        if (q != w.o[i].p) t.fail("holding returns another address");
        if (OPK_REFS(w.o[i].p) != r + 1) t.fail("holding changes the count from %ld to %ld", (long)r, (long)OPK_REFS(w.o[i].p));
        ++w.o[i].user; t.note("hold #%d", i);
        if (t.chance(1, 60)) {   // many references
          long k = t.size(20, 200, 70000, 2); for (long q = 0; q < k; ++q) OPK_HOLD(w.o[i].p);
          if (OPK_REFS(w.o[i].p) != r + 1 + k) t.fail("holding %ld times changes the count from %ld to %ld", k + 1, (long)r, (long)OPK_REFS(w.o[i].p));
          long left = t.flag() ? k : k - t.range(0, std::min(k, 40L)); w.o[i].user += k - left; t.note("hold #%d %ld times, drop %ld times", i, k, left);
          Lib l; for (long q = 0; q < left; ++q) { if (w.o[i].k == DRV) opk_destroy_optimizer((opk_optimizer*)w.o[i].p); else OPK_DROP(w.o[i].p); }
          if (OPK_REFS(w.o[i].p) != r + 1 + k - left) t.fail("dropping %ld times leaves %ld references", left, (long)OPK_REFS(w.o[i].p)); t.label("many references");
        }
        break;
      }
      case 9: {  // drop
        std::vector<int> c; for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].p && w.o[i].user > 0) c.push_back((int)i);
        if (c.empty()) break;
        int i = c[t.draw(c.size() - 1)]; Obj& b = w.o[i]; opk_index r = OPK_REFS(b.p);
        if (r < b.user) t.fail("object #%d has %ld references though the caller holds %ld", i, (long)r, b.user);
        --b.user; bool still = w.alive(i);
        if (still && b.user == 0) ++drops_while_held;
        t.note("drop #%d%s", i, still ? "" : " (last)");
        { Lib l; if (b.k == DRV) opk_destroy_optimizer((opk_optimizer*)b.p); else OPK_DROP(b.p); }
        if (still && OPK_REFS(b.p) != r - 1) t.fail("dropping changes the count from %ld to %ld", (long)r, (long)OPK_REFS(b.p));
        if (!still) {  // everything it alone kept alive is gone as well
          std::vector<int> dead; for (size_t j = 0; j < w.o.size(); ++j) if (w.o[j].p && !w.alive((int)j)) dead.push_back((int)j);
          for (int j : dead) w.o[j].p = nullptr;
        }
        expect_freed();
        break;
      }
      default: {  // use
        std::vector<int> c; for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].p && w.o[i].user > 0 && w.o[i].k != SPACE) c.push_back((int)i);
        if (c.empty()) break;
        int i = c[t.draw(c.size() - 1)]; Obj& b = w.o[i]; opk_index n = b.n;
        bool dep_dropped = false; for (int d : b.deps) if (w.o[d].user == 0) dep_dropped = true;
        t.note("use #%d", i);
        if (b.k == VEC || b.k == WRAP) { double s = opk_vdot((opk_vector*)b.p, (opk_vector*)b.p); dvec y = get((opk_vector*)b.p, n); double q = 0; for (double z : y) q += z * z; if (fabs(s - q) > 1e-5 * q) t.fail("vector #%d damaged", i); }
        else if (b.k == LN) { opk_lnsrch_start((opk_lnsrch*)b.p, 1, -1, 1, 0, 10); double st = 1; opk_lnsrch_iterate((opk_lnsrch*)b.p, &st, 3, 1); for (auto& z : w.o) if ((z.k == NLCG || z.k == VMLMB || z.k == DRV) && z.p) z.started = false; }
        else if (b.k == BOX) {
          if (!w.alive(b.space)) t.fail("model error");
          opk_vspace* sp = (opk_vspace*)w.o[b.space].p; Ref x, y;
          { Lib l; x = Ref(opk_vcreate(sp)); y = Ref(opk_vcreate(sp)); }
          set(x.v(), dvec(n, 7.0));
          if (opk_project_variables(y.v(), x.v(), (opk_convexset*)b.p) != OPK_SUCCESS) t.fail("projection fails");
          { Lib l; x.drop(); y.drop(); }
        } else if (b.k == DRV) {
          std::vector<double> xd(n, 0.1), gd(n); std::vector<float> xf(n, 0.1f), gf(n);
          opk_optimizer* o = (opk_optimizer*)b.p; void* x = b.dbl ? (void*)xd.data() : (void*)xf.data(); void* g = b.dbl ? (void*)gd.data() : (void*)gf.data();
          opk_task task; { Lib l; task = opk_start(o, x); }
          for (int it = 0; it < 6 && (task == OPK_TASK_COMPUTE_FG || task == OPK_TASK_NEW_X); ++it) {
            double f = 0;
            for (opk_index k = 0; k < n; ++k) { double z = (b.dbl ? xd[k] : xf[k]) - 0.4 * k; f += z * z; if (b.dbl) gd[k] = 2 * z; else gf[k] = (float)(2 * z); }
            Lib l; task = opk_iterate(o, x, f, g);
          }
          if (task == OPK_TASK_ERROR) t.fail("driver #%d fails: %s", i, opk_get_reason(opk_get_status(o)));
        } else {
          opk_vspace* sp = (opk_vspace*)w.o[b.space].p; Ref x, g;
          { Lib l; x = Ref(opk_vcreate(sp)); g = Ref(opk_vcreate(sp)); }
          set(x.v(), dvec(n, 0.1));
          opk_task task; { Lib l; task = b.k == NLCG ? opk_start_nlcg((opk_nlcg*)b.p, x.v()) : opk_start_vmlmb((opk_vmlmb*)b.p, x.v()); }
          for (int it = 0; it < 6 && (task == OPK_TASK_COMPUTE_FG || task == OPK_TASK_NEW_X); ++it) {
            double f; quad(x.v(), g.v(), n, f);
            Lib l; task = b.k == NLCG ? opk_iterate_nlcg((opk_nlcg*)b.p, x.v(), f, g.v()) : opk_iterate_vmlmb((opk_vmlmb*)b.p, x.v(), f, g.v());
          }
          { Lib l; x.drop(); g.drop(); }
        }
        if (dep_dropped) ++uses_after;
        expect_freed();
      }
    }
    // counts never fall below what the caller holds
    for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].p && w.o[i].user > 0 && OPK_REFS(w.o[i].p) < w.o[i].user)
      t.fail("object #%zu has %ld references though the caller holds %ld", i, (long)OPK_REFS(w.o[i].p), w.o[i].user);
  }
  // release everything, in a generated order
  for (;;) {
    std::vector<int> c; for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].p && w.o[i].user > 0) c.push_back((int)i);
    if (c.empty()) break;
    int i = c[t.draw(c.size() - 1)];
    --w.o[i].user; bool still = w.alive(i);
    { Lib l; OPK_DROP(w.o[i].p); }
    if (!still) for (size_t j = 0; j < w.o.size(); ++j) if (w.o[j].p && !w.alive((int)j)) w.o[j].p = nullptr;
    expect_freed();
  }
  if (vp_live() != 0) t.fail("%ld blocks of memory are still allocated after everything was released", vp_live());
  if (drops_while_held) t.label("released-by-caller-while-in-use");
  if (uses_after) t.label("used-after-its-parts-were-released");
  t.nontrivial(drops_while_held > 0 || uses_after > 0);
}

static void null_objects(T& t) {
  int k = (int)t.draw(2);
  if (k == 0 && OPK_REFS(nullptr) != 0) t.fail("a NULL object has references");
  if (k == 1) OPK_DROP(nullptr);
  if (k == 2 && OPK_HOLD(nullptr) != nullptr) t.fail("holding NULL returns an address");
  t.note("null object, operation %d", k);
}

// Re-wrapping: the former release function runs exactly when the documentation says.
template <class R> static void rewrap(T& t) {
  typedef Kind<R> K;
  vp_reset();
  opk_index n = t.size(1, 5, 2000);
  const int NC = 3; Client c[NC];
  std::vector<std::vector<R>> mem(NC + 1, std::vector<R>(n, (R)1));
  for (int i = 0; i <= NC; ++i) for (auto& q : mem[i]) q = (R)(i + 1);
  std::vector<int> want(NC, 0);
  Ref sp, v;
  { Lib l; sp = Ref(K::space(n)); }
  int cur = (int)t.range(-1, NC - 1), hold = (int)t.draw(1);
  { Lib l; v = Ref(K::wrap(sp.s(), mem[cur + 1].data(), cur >= 0 ? on_free : nullptr, cur >= 0 ? &c[cur] : nullptr)); }
  { Lib l; sp.drop(); }
  int k = (int)t.dim(1, 6, 300), changes = 0;
  for (int i = 0; i < k; ++i) {
    int nw = (int)t.range(-1, NC - 1), arr = (int)t.range(0, NC);
    int rc; { Lib l; rc = K::rewrap(v.v(), mem[arr].data(), nw >= 0 ? on_free : nullptr, nw >= 0 ? &c[nw] : nullptr); }
    if (rc != OPK_SUCCESS) t.fail("re-wrapping refused: %d", rc);
    if (cur >= 0 && nw != cur) { ++want[cur]; ++changes; }
    cur = nw; t.note("rewrap client %d array %d", nw, arr);
    for (int q = 0; q < NC; ++q) if (c[q].freed != want[q]) t.fail("release function applied %d times instead of %d to client data %d", c[q].freed, want[q], q);
    if (K::data(v.v()) != mem[arr].data()) t.fail("the vector does not use the new array");
    if (K::client(v.v()) != (nw >= 0 ? (void*)&c[nw] : nullptr)) t.fail("wrong client data after re-wrapping");
    if ((K::freeproc(v.v()) != nullptr) != (nw >= 0)) t.fail("wrong release function after re-wrapping");
    double p; opk_vpeek(v.v(), n - 1, &p); if (p != arr + 1) t.fail("reads %g instead of %d", p, arr + 1);
  }
  if (hold) { OPK_HOLD(v.p); OPK_DROP(v.p); for (int q = 0; q < NC; ++q) if (c[q].freed != want[q]) t.fail("released too early"); }
  { Lib l; v.drop(); }
  if (cur >= 0) ++want[cur];
  for (int q = 0; q < NC; ++q) if (c[q].freed != want[q]) t.fail("after the vector is destroyed, the release function was applied %d times instead of %d to client data %d", c[q].freed, want[q], q);
  if (vp_live() != 0) t.fail("%ld blocks leaked", vp_live());
  t.nontrivial(changes > 0);
  t.label("rewrap");
}
}  // namespace

pbt::Check& pbt_check() {
  static pbt::Check c{"P02",
    "a case counts when the caller released an object that others still use, or used an object some part of which the caller had released, or re-wrapped a vector with a change of client data",
    {{"history", history, 12}, {"rewrap-float", rewrap<float>, 1}, {"rewrap-double", rewrap<double>, 1}, {"null", null_objects, 1}},
    650000, 60, 10, {}};
  return c;
}
