/* A dense operator implemented through the documented extension interface. */
#include "optimpack-private.h"
#include <stdlib.h>
static int finalized;
typedef struct { opk_operator base; const double* a; double sx[64], sy[64]; } mat_op;
static void fin(opk_operator* s) { (void)s; ++finalized; }
static opk_status direct(opk_operator* self, opk_vector* dst, const opk_vector* src) {
  mat_op* m = (mat_op*)self; opk_index nr = self->outspace->size, nc = self->inpspace->size, i, j;
  opk_vexport(m->sx, OPK_DOUBLE, nc, src);
  for (i = 0; i < nr; ++i) { double s = 0; for (j = 0; j < nc; ++j) s += m->a[i*nc + j]*m->sx[j]; m->sy[i] = s; }
  return opk_vimport(dst, m->sy, OPK_DOUBLE, nr);
}
static opk_status adjoint(opk_operator* self, opk_vector* dst, const opk_vector* src) {
  mat_op* m = (mat_op*)self; opk_index nr = self->outspace->size, nc = self->inpspace->size, i, j;
  opk_vexport(m->sx, OPK_DOUBLE, nr, src);
  for (j = 0; j < nc; ++j) { double s = 0; for (i = 0; i < nr; ++i) s += m->a[i*nc + j]*m->sx[i]; m->sy[j] = s; }
  return opk_vimport(dst, m->sy, OPK_DOUBLE, nc);
}
static opk_status inverse(opk_operator* self, opk_vector* dst, const opk_vector* src) { (void)self; (void)dst; (void)src; return OPK_BAD_PRECONDITIONER; }
static opk_operator_operations tab[8];
void* xop_new(unsigned mask, void* inp, void* out, const double* a) {
  mat_op* m; opk_operator_operations* t = &tab[mask & 7];
  t->finalize = fin; t->apply_direct = mask & 1 ? direct : NULL; t->apply_adjoint = mask & 2 ? adjoint : NULL; t->apply_inverse = mask & 4 ? inverse : NULL;
  m = (mat_op*)opk_allocate_operator(t, (opk_vspace*)inp, (opk_vspace*)out, sizeof(mat_op));
  if (m) m->a = a;
  return m;
}
int xop_finalized(void) { return finalized; }
