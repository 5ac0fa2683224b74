/* Vectors, convex sets and line searches implemented through the documented extension interface: each delegates to a built-in one after having
   checked what the interface guarantees. */
#include "optimpack-private.h"
#include "xspace.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

typedef struct { opk_vspace base; xs_env* env; opk_vspace* inner; opk_vspace_operations ops; long live; } xsp;
typedef struct { opk_vector base; opk_vector* inner; unsigned magic; } xvec;
typedef struct { opk_convexset base; xs_env* env; opk_convexset* inner; } xset;
typedef struct { opk_lnsrch base; xs_env* env; opk_lnsrch* inner; opk_lnsrch_operations ops; int active; } xls;
#define MAGIC 0x5eed1234u

static void bad(xs_env* e, const char* m, const char* what) { if (!e->bad[0]) snprintf(e->bad, sizeof e->bad, "%s: %s", m, what); }
static int fault(xs_env* e, int kind) { ++e->calls[kind]; if (e->where == kind && e->countdown > 0 && --e->countdown == 0) { ++e->faults; return e->status; } return 0; }
static opk_vector* in(xs_env* e, const char* m, const opk_vspace* s, const opk_vector* v) {
  const xvec* x = (const xvec*)v;
  if (v == NULL) { bad(e, m, "null vector"); return NULL; }
  if (v->owner != s) { bad(e, m, "vector of another space"); return NULL; }
  if (x->magic != MAGIC) { bad(e, m, "vector already finalized"); return NULL; }
  return x->inner;
}
#define SP ((xsp*)s)
#define E (SP->env)
#define IN(v) in(E, __func__, s, v)
static void xfinalize_space(opk_vspace* s) { if (SP->live != 0) bad(E, __func__, "vectors of the space still exist"); --E->spaces; OPK_DROP(SP->inner); SP->inner = NULL; }
static opk_vector* xcreate(opk_vspace* s) {
  xvec* v; opk_vector* i;
  if (fault(E, XS_CREATE)) return NULL;
  i = opk_vcreate(SP->inner); if (i == NULL) return NULL;
  v = (xvec*)opk_allocate_vector(s, sizeof(xvec)); if (v == NULL) { OPK_DROP(i); return NULL; }
  v->inner = i; v->magic = MAGIC; ++SP->live; ++E->vectors; opk_vfill(i, NAN);
  return &v->base;
}
static void xfinalize_vector(opk_vspace* s, opk_vector* v) { opk_vector* i = IN(v); if (i) { ((xvec*)v)->magic = 0; OPK_DROP(i); --SP->live; --E->vectors; } }
static double xpeek(const opk_vspace* s, const opk_vector* v, opk_index k) { opk_vector* i = IN(v); double r = 0; if (k < 0 || k >= s->size) bad(E, __func__, "index out of range"); else if (i) opk_vpeek(i, k, &r); return r; }
static void xpoke(const opk_vspace* s, opk_vector* v, opk_index k, double a) { opk_vector* i = IN(v); if (k < 0 || k >= s->size) bad(E, __func__, "index out of range"); else if (i) opk_vpoke(i, k, a); }
static void ximport(const opk_vspace* s, opk_vector* v, const void* src, opk_eltype t) { opk_vector* i = IN(v); if (!src) bad(E, __func__, "null array"); else if (i) opk_vimport(i, src, t, s->size); }
static void xexport(const opk_vspace* s, void* dst, opk_eltype t, const opk_vector* v) { opk_vector* i = IN(v); if (!dst) bad(E, __func__, "null array"); else if (i) opk_vexport(dst, t, s->size, i); }
static void xfill(opk_vspace* s, opk_vector* v, double a) { opk_vector* i = IN(v); ++E->calls[XS_OPS]; if (i) opk_vfill(i, a); }
static double xnorm1(opk_vspace* s, const opk_vector* v) { opk_vector* i = IN(v); ++E->calls[XS_OPS]; return i ? opk_vnorm1(i) : 0; }
static double xnorm2(opk_vspace* s, const opk_vector* v) { opk_vector* i = IN(v); ++E->calls[XS_OPS]; return i ? opk_vnorm2(i) : 0; }
static double xnorminf(opk_vspace* s, const opk_vector* v) { opk_vector* i = IN(v); ++E->calls[XS_OPS]; return i ? opk_vnorminf(i) : 0; }
static double xdot(opk_vspace* s, const opk_vector* x, const opk_vector* y) { opk_vector *i = IN(x), *j = IN(y); ++E->calls[XS_OPS]; return i && j ? opk_vdot(i, j) : 0; }
static double xdot3(opk_vspace* s, const opk_vector* w, const opk_vector* x, const opk_vector* y) { opk_vector *h = IN(w), *i = IN(x), *j = IN(y); ++E->calls[XS_OPS]; return h && i && j ? opk_vdot3(h, i, j) : 0; }
static void xcopy(opk_vspace* s, opk_vector* d, const opk_vector* x) { opk_vector *i = IN(d), *j = IN(x); ++E->calls[XS_OPS]; if (d == x) bad(E, __func__, "source and destination are the same vector"); else if (i && j) opk_vcopy(i, j); }
static void xswap(opk_vspace* s, opk_vector* d, opk_vector* x) { opk_vector *i = IN(d), *j = IN(x); if (d == x) bad(E, __func__, "both vectors are the same"); else if (i && j) opk_vswap(i, j); }
static void xscale(opk_vspace* s, opk_vector* d, double a, const opk_vector* x) { opk_vector *i = IN(d), *j = IN(x); ++E->calls[XS_OPS]; if (a == 0 || a == 1) bad(E, __func__, a ? "factor one" : "factor zero"); if (i && j) opk_vscale(i, a, j); }
static void xproduct(opk_vspace* s, opk_vector* d, const opk_vector* x, const opk_vector* y) { opk_vector *h = IN(d), *i = IN(x), *j = IN(y); ++E->calls[XS_OPS]; if (h && i && j) opk_vproduct(h, i, j); }
static void xaxpby(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y) { opk_vector *h = IN(d), *i = IN(x), *j = IN(y); ++E->calls[XS_OPS]; if (a == 0 || b == 0) bad(E, __func__, "factor zero"); if (h && i && j) opk_vaxpby(h, a, i, b, j); }
static void xaxpbypcz(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y, double c, const opk_vector* z) {
  opk_vector *h = IN(d), *i = IN(x), *j = IN(y), *k = IN(z); ++E->calls[XS_OPS]; if (a == 0 || b == 0 || c == 0) bad(E, __func__, "factor zero"); if (h && i && j && k) opk_vaxpbypcz(h, a, i, b, j, c, k);
}
/* a bound: null, the address of a scalar, or a vector of the space */
static int bnd(xs_env* e, const char* m, opk_vspace* s, const void** p, int k) {
  if (k == 0) { if (*p != NULL) bad(e, m, "value given for no bound"); return 1; }
  if (*p == NULL) { bad(e, m, "bound without a value"); return 0; }
  if (k == 2) { *p = in(e, m, s, (const opk_vector*)*p); return *p != NULL; }
  return 1;
}
#define BOUNDS if (b < 0 || b > 8) { bad(E, __func__, "unknown kind of bounds"); return OPK_INVALID_ARGUMENT; } if (!bnd(E, __func__, s, &l, b % 3) || !bnd(E, __func__, s, &u, b / 3)) return OPK_INVALID_ARGUMENT;
#define ORIENT if (o != OPK_ASCENT && o != OPK_DESCENT) bad(E, __func__, "unknown orientation");
static opk_status xprojvar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b) {
  opk_vector *i = IN(d), *j = IN(x); int st = fault(E, XS_PROJVAR); if (st) return (opk_status)st; BOUNDS
  return i && j ? SP->inner->ops->boxprojvar(SP->inner, i, j, l, u, b) : OPK_INVALID_ARGUMENT;
}
static opk_status xprojdir(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* g, opk_orientation o) {
  opk_vector *i = IN(d), *j = IN(x), *k = IN(g); int st = fault(E, XS_PROJDIR); if (st) return (opk_status)st; BOUNDS ORIENT
  return i && j && k ? SP->inner->ops->boxprojdir(SP->inner, i, j, l, u, b, k, o) : OPK_INVALID_ARGUMENT;
}
static opk_status xfreevar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* g, opk_orientation o) {
  opk_vector *i = IN(d), *j = IN(x), *k = IN(g); int st = fault(E, XS_FREEVAR); if (st) return (opk_status)st; BOUNDS ORIENT
  return i && j && k ? SP->inner->ops->boxfreevar(SP->inner, i, j, l, u, b, k, o) : OPK_INVALID_ARGUMENT;
}
static opk_status xsteplim(opk_vspace* s, double* a1, double* a2, double* a3, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* g, opk_orientation o) {
  opk_vector *j = IN(x), *k = IN(g); int st = fault(E, XS_STEPLIM); if (st) { *a1 = *a2 = *a3 = -1; return (opk_status)st; } BOUNDS ORIENT
  return j && k ? SP->inner->ops->boxsteplim(SP->inner, a1, a2, a3, j, l, u, b, k, o) : OPK_INVALID_ARGUMENT;
}
#undef SP
#undef E
void* xs_space(xs_env* e, void* inner, unsigned missing) {
  xsp* s = (xsp*)opk_allocate_vector_space(NULL, ((opk_vspace*)inner)->size, sizeof(xsp)); opk_vspace_operations* o;
  if (s == NULL) return NULL;
  o = &s->ops; memset(o, 0, sizeof *o); o->description = "user-defined vectors"; o->finalize_space = xfinalize_space; o->create = xcreate; o->finalize_vector = xfinalize_vector; o->peek = xpeek; o->poke = xpoke;
  o->import = missing & 1 ? NULL : ximport; o->export = missing & 2 ? NULL : xexport; o->fill = xfill; o->norm1 = xnorm1; o->norm2 = xnorm2; o->norminf = xnorminf; o->dot = xdot; o->dot3 = xdot3; o->copy = xcopy; o->swap = xswap; o->scale = xscale; o->product = xproduct;
  o->axpby = xaxpby; o->axpbypcz = xaxpbypcz; o->boxprojvar = missing & 4 ? NULL : xprojvar; o->boxprojdir = missing & 8 ? NULL : xprojdir; o->boxfreevar = missing & 16 ? NULL : xfreevar; o->boxsteplim = missing & 32 ? NULL : xsteplim;
  s->base.ops = o; s->env = e; s->inner = (opk_vspace*)OPK_HOLD(inner); ++e->spaces;
  return s;
}
void* xs_inner(void* v) { opk_vector* x = (opk_vector*)v; return x && x->owner->ops->create == xcreate ? ((xvec*)x)->inner : x; }

/* ---- convex sets */
#define SET ((const xset*)set)
#define CK(m, v) do { if ((v) == NULL || (v)->owner != set->space) { bad(SET->env, m, "vector of another space"); return OPK_BAD_SPACE; } } while (0)
static void yfinalize(opk_convexset* set) { xset* x = (xset*)set; if (x->inner == NULL) { bad(x->env, __func__, "finalized twice"); return; } --x->env->sets; OPK_DROP(x->inner); x->inner = NULL; }
static opk_status yprojvar(opk_vector* d, const opk_vector* x, const opk_convexset* set) { int st = fault(SET->env, XS_PROJVAR); if (st) return (opk_status)st; CK(__func__, d); CK(__func__, x); return opk_project_variables(xs_inner(d), xs_inner((void*)x), SET->inner); }
static opk_status yprojdir(opk_vector* d, const opk_vector* x, const opk_convexset* set, const opk_vector* g, opk_orientation o) { int st = fault(SET->env, XS_PROJDIR); if (st) return (opk_status)st; CK(__func__, d); CK(__func__, x); CK(__func__, g); return opk_project_direction(xs_inner(d), xs_inner((void*)x), SET->inner, xs_inner((void*)g), o); }
static opk_status yfreevar(opk_vector* d, const opk_vector* x, const opk_convexset* set, const opk_vector* g, opk_orientation o) { int st = fault(SET->env, XS_FREEVAR); if (st) return (opk_status)st; CK(__func__, d); CK(__func__, x); CK(__func__, g); return opk_get_free_variables(xs_inner(d), xs_inner((void*)x), SET->inner, xs_inner((void*)g), o); }
static opk_status ysteplim(double* a1, double* a2, double* a3, const opk_vector* x, const opk_convexset* set, const opk_vector* g, opk_orientation o) { int st = fault(SET->env, XS_STEPLIM); if (st) { *a1 = *a2 = *a3 = -1; return (opk_status)st; } CK(__func__, x); CK(__func__, g); return opk_get_step_limits(a1, a2, a3, xs_inner((void*)x), SET->inner, xs_inner((void*)g), o); }
void* xs_set(xs_env* e, void* space, void* inner, unsigned missing) {
  xset* s = (xset*)opk_allocate_convexset((opk_vspace*)space, yfinalize, missing & 4 ? NULL : yprojvar, missing & 8 ? NULL : yprojdir, missing & 16 ? NULL : yfreevar, missing & 32 ? NULL : ysteplim, sizeof(xset));
  if (s) { s->env = e; s->inner = (opk_convexset*)OPK_HOLD(inner); ++e->sets; }
  return s;
}

/* ---- line searches */
#define LS ((xls*)self)
static void zfinalize(opk_lnsrch* self) { if (LS->inner == NULL) { bad(LS->env, __func__, "finalized twice"); return; } --LS->env->searches; OPK_DROP(LS->inner); LS->inner = NULL; }
static opk_lnsrch_task inject(opk_lnsrch* self, int st) { self->status = (opk_status)st; self->task = (opk_lnsrch_task)LS->env->task; LS->active = 0; return self->task; }
static opk_lnsrch_task zstart(opk_lnsrch* self) {
  xs_env* e = LS->env; int st = fault(e, XS_LSTART);
  if (!(self->stp >= self->stpmin && self->stp <= self->stpmax && self->stpmin >= 0)) bad(e, __func__, "first step not in its range");
  if (!(self->ginit < 0)) bad(e, __func__, "not a descent direction");
  if (e->expect && !(self->finit == e->f)) bad(e, __func__, "function value is not the one at the start");
  if (st) return inject(self, st);
  self->task = opk_lnsrch_start(LS->inner, self->finit, self->ginit, self->stp, self->stpmin, self->stpmax); self->status = opk_lnsrch_get_status(LS->inner); LS->active = 1;
  return self->task;
}
static opk_lnsrch_task ziterate(opk_lnsrch* self, double* stp, double f, double df) {
  xs_env* e = LS->env; int st = fault(e, XS_LITERATE); opk_lnsrch_task k;
  if (!LS->active) bad(e, __func__, "no search in progress");
  if (stp == NULL || *stp != self->stp) { bad(e, __func__, "step is not the current one"); return OPK_LNSRCH_ERROR; }
  if (e->expect && !(f == e->f)) bad(e, __func__, "function value is not that of the caller");
  if (e->expect && self->ops->use_deriv && e->expect > 1 && !(fabs(df - e->df) <= e->tol)) bad(e, __func__, "slope is not that along the direction");
  if (st) return inject(self, st);
  k = opk_lnsrch_iterate(LS->inner, stp, f, df); self->status = opk_lnsrch_get_status(LS->inner); if (k != OPK_LNSRCH_SEARCH) LS->active = 0;
  return k;
}
static void zreset(opk_lnsrch* self) { ++LS->env->calls[XS_RESET]; LS->active = 0; opk__reset_lnsrch(LS->inner); }
void* xs_lnsrch(xs_env* e, void* inner, int reset) {
  static opk_lnsrch_operations tmp = {zfinalize, zstart, ziterate, 0, NULL}; xls* s = (xls*)opk_allocate_line_search(&tmp, sizeof(xls));
  if (s == NULL) return NULL;
  s->ops = tmp; s->ops.use_deriv = opk_lnsrch_use_deriv((opk_lnsrch*)inner); s->ops.reset = reset ? zreset : NULL; s->base.ops = &s->ops; s->env = e; s->inner = (opk_lnsrch*)OPK_HOLD(inner); ++e->searches;
  return s;
}
