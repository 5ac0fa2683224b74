#pragma once
#ifdef __cplusplus
extern "C" {
#endif
enum { XS_CREATE, XS_PROJVAR, XS_PROJDIR, XS_FREEVAR, XS_STEPLIM, XS_LSTART, XS_LITERATE, XS_OPS, XS_RESET, XS_KINDS };
typedef struct {
  char bad[200]; int where, status, task; long countdown, faults, calls[XS_KINDS], vectors, spaces, sets, searches;
  int expect; double f, df, tol;
} xs_env;
void* xs_space(xs_env*, void* inner, unsigned missing);   /* missing: 1 import, 2 export, 4 projvar, 8 projdir, 16 freevar, 32 steplim */
void* xs_set(xs_env*, void* space, void* inner, unsigned missing);
void* xs_lnsrch(xs_env*, void* inner, int reset);
void* xs_inner(void* vector);
#ifdef __cplusplus
}
#endif
