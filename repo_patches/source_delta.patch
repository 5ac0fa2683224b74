From 2f2dc60cdb84f1fdd8d479fc1a622fc915008c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/50] fix: opk_hold_object accepts NULL as documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..8674ad9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From 6f79c9e5aae731c9d7292690034c3d28f4a23e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 02/50] fix: opk_new_boxset reports ENOMEM when an allocation
 fails

---
 src/algebra.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 8674ad9..0b58fba 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -846,10 +846,13 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM : EINVAL);
       return NULL;
     }
   }
-- 
2.43.0


From 8d903f41f507b6646e173c91e9375013c85c9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 03/50] fix: opk_new_optimizer returns NULL when its first
 allocation fails

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From bd5132af20f8c023945c9ca9d531c1297ee02206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 04/50] fix: nonmonotone line search terminates when rounding
 prevents bisection

---
 src/lnsrch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..f74753b 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -404,6 +404,10 @@ nonmonotone_iterate(opk_lnsrch* ls,
 
   /* Safeguard the step. */
   alpha = MAX(alpha, ls->stpmin);
+  if (alpha >= *stp_ptr) {
+    /* Rounding errors prevent the step from being reduced any further. */
+    alpha = ls->stpmin;
+  }
   *stp_ptr = alpha;
   if (alpha <= 0) {
     return warning(ls, OPK_STEP_EQ_STPMIN);
-- 
2.43.0


From 64a3580209f92338a1e0eca26963a855e683ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 05/50] fix: line search functions return a negative value for
 a null argument

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index f74753b..16f7cbd 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -158,7 +158,7 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   int bound;
 
   if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From 7559bbc1d1d79856070cbcf491746a9108acea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 06/50] fix: a line search which converges at a step bound is
 not a warning

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 16f7cbd..8ba2b2a 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 5667614c9cf61a67d8801ccff8cba945717448a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 07/50] fix: always project trial points on the bounds

Rounding errors in x0 - stp*d may cross a bound even though the step is
shorter than the computed distance to the closest bound.
---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..9342fd0 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Rounding errors may yield an unfeasible point even for a step shorter
+       than the distance to the closest bound. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From e9b0f6c16a462a9f65b5160795ba29615f0e65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 08/50] fix: lower step bound of VMLMB is relative to the
 shortened step

When the step was cut to the largest useful one, the lower bound could be
larger than the upper one and the line search failed to start.
---
 src/vmlmb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index 9342fd0..f3c566e 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -695,6 +695,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       }
       if (opt->stp > bsmax) {
         opt->stp = bsmax;
+        stpmin = opt->stp*opt->stpmin;
       }
       if (stpmax > bsmax) {
         stpmax = bsmax;
-- 
2.43.0


From 76471b051904b839b109c5eba9b7af220ffd52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 09/50] fix: cubic line search extrapolates from its first step
 by a limited factor

The initial limits for the trial step were the bounds of the step, not those
of MINPACK-2 (0 and 5 times the first step), so that the first extrapolation
could jump to the upper bound (1E20 times the initial step by default).
---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 8ba2b2a..9a912f9 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -501,8 +501,8 @@ csrch_start(opk_lnsrch* ls)
   cls->gtest = cls->ftol*cls->base.ginit;
 
   /* Initialize parameters for the interval of search. */
-  cls->stmin = cls->base.stpmin; /* FIXME: ??? */
-  cls->stmax = cls->base.stpmax;
+  cls->stmin = 0.0;
+  cls->stmax = cls->base.stp + 4.0*cls->base.stp;
   cls->width = cls->base.stpmax - cls->base.stpmin;
   cls->width1 = cls->width/0.5;
   cls->brackt = FALSE;
-- 
2.43.0


From 8a7c4d0dd833db6b3268769be79fb984f15538ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 10/50] fix: largest useful step of VMLMB reaches the bounds in
 spite of rounding

The trial point at this step could miss a null bound by a tiny amount, again
and again until the optimizer fails.
---
 src/vmlmb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index f3c566e..f922048 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -693,6 +693,11 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       if (bsmax <= 0) {
         return failure(opt, OPK_WOULD_BLOCK);
       }
+      /* Slightly enlarge the largest useful step so that, in spite of rounding
+         errors, such a step reaches the bounds (trial points are projected). */
+      if (bsmax < 0.5*DBL_MAX) {
+        bsmax *= 1 + 4*FLT_EPSILON;
+      }
       if (opt->stp > bsmax) {
         opt->stp = bsmax;
         stpmin = opt->stp*opt->stpmin;
-- 
2.43.0


From aad5236fd4aee7cfbf1953582af4cdf0f00dff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 11/50] fix: use the leading dimension of A in the symmetric
 rank k operation

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From 2d07a73434be9fb228167061d5d2540516d32f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 12/50] fix: invalid TRANSB is the second argument of the
 matrix product

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From 7cd503415d6af131f45303a620be502ed2d3a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 13/50] fix: Euclidean norm of tiny values when the reciprocal
 of the largest overflows

---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From 71963a5c1bf78a5711532091d63b26dc822de136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 14/50] fix: a null maximum number of evaluations is not
 unlimited in opk_fmin

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..51b4cb3 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From 694ce7f192460205329aa381d3d8432be721b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 15/50] fix: final interval reported by opk_fmin_get_final

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 51b4cb3..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 4af437b3ee7cfff72baf6eefdf1f5462f491f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 16/50] fix: endless one dimensional search when rounding
 prevents progress

---
 src/fmin.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..1a67236 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -349,8 +349,14 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
+    /* Check whether rounding errors prevent further progress. */
+    t = FMIN_ALPHA*(w - v) + v;
+    if (! (v < w ? (v < t && t < w) : (w < t && t < v))) {
+      return (ctx->status = OPK_FMIN_CONVERGENCE);
+    }
+
     /* Take a golden section interpolation step. */
-    EVAL(5, x, FMIN_ALPHA*(w - v) + v);
+    EVAL(5, x, t);
 
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
        situation is symmetrical and the choice arbitrary. */
@@ -555,14 +561,11 @@ int func(args)
 
     /* Take a golden section interpolation step. */
     x = FMIN_ALPHA*(w - v) + v;
-#if 0
-    /* FIXME: This test may be used to save one function evaluation when
-       extreme precision is requested and rounding errors prevent further
-       progresses. */
-    if (x == u || x == v || x == w) {
-      break;
+    if (! (v < w ? (v < x && x < w) : (w < x && x < v))) {
+      /* Rounding errors prevent further progress. */
+      status = 0;
+      goto done;
     }
-#endif
     fx = f(x);
     ++nevals;
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
-- 
2.43.0


From a425cc8277ec195d49801fb916c9b279e9049133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 17/50] fix: continuing opk_fmin_next after convergence used
 the last function value twice

---
 src/fmin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index 1a67236..31b4f88 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -232,6 +232,7 @@ opk_fmin_get_final(opk_fmin_context* ctx,
  *    ctx->stage =  3    evaluation of f(x) for x inside (a,b)
  *    ctx->stage =  4    evaluation of f(x) while trying to bracket
  *    ctx->stage =  5    evaluation of f(x) while converging
+ *    ctx->stage =  6    convergence, no new function value
  */
 
 opk_fmin_task
@@ -293,6 +294,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       JUMP(3);
       JUMP(4);
       JUMP(5);
+      JUMP(6);
     default:
       return (ctx->status = OPK_FMIN_ERROR);
     }
@@ -342,16 +344,19 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
   /* Reduce the bracketing interval to improve the precision. */
   for (;;) {
     /* Check for convergence. */
+  stage_6:
     r = fabs(u);
     if ((t = fabs(v)) > r) r = t;
     if ((t = fabs(w)) > r) r = t;
     if (fabs(w - v) <= prec*r) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
     /* Check whether rounding errors prevent further progress. */
     t = FMIN_ALPHA*(w - v) + v;
     if (! (v < w ? (v < t && t < w) : (w < t && t < v))) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
-- 
2.43.0


From 5cc04bfb6f458d99ba002002091ca8d58e9d0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 18/50] fix: scaled variables of BOBYQA may violate the bounds
 by rounding errors

---
 src/bobyqa.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..e476cb0 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds before scaling */
+  const REAL*    xu;     /* upper bounds before scaling */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,19 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Convert scaled variables to those of the user, taking care that rounding
+   does not yield values outside the bounds. */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +374,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -479,7 +485,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From b60481993042fa6b042ece731dcc68da583b3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 19/50] fix: COBYLA returns its last point even though it is
 worse than the best one

---
 src/cobyla.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..d21896c 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -475,6 +475,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   np = n + 1;
   mp = m + 1;
   mpp = m + 2;
+  trured = zero; /* avoids warnings */
 #ifdef COBYLA_REVCOM_
   if (nfvals == 0) {
     /* This is the first function evaluation.  Proceed with initialization. */
@@ -972,7 +973,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
     fprintf(stdout, "\n   Normal return from subroutine COBYLA\n");
   }
   status = COBYLA_SUCCESS;
-  if (ifull != 1) {
+  if (ifull != 1 || trured <= zero) {
   L_600:
     LOOP(i,n) {
       X(i) = SIM(i,np);
-- 
2.43.0


From b8847c0a488c3252fad0d2bb0c5e11fc94bbce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 20/50] fix: variables returned by NEWUOA when the evaluations
 are too few for the initial model

---
 src/newuoa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..0f48446 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1310,6 +1310,12 @@ newuoa_optimize(INTEGER n, INTEGER npt,
  L310:
   if (nf > MAX(maxfun,1)) {
     --nf;
+    if (nf < npt) {
+      /* The initial model is not complete and XOPT has not yet been set. */
+      LOOP(i,n) {
+        XOPT(i) = XPT(kopt,i);
+      }
+    }
     reason = "CALFUN has been called MAXFUN times";
     status = NEWUOA_TOO_MANY_EVALUATIONS;
     goto done;
-- 
2.43.0


From 25bab0624b93e4de4856442f74bf0cf23e350bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 21/50] fix: best point lost by BOBYQA when a trust region step
 fails to reduce the model

---
 src/bobyqa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index e476cb0..1a90102 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1046,6 +1046,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f; /* X is to be kept if it is the best point */
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
-- 
2.43.0


From fcc7cc67fb1e5df4e4826d4c9a2496b2edf26c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 22/50] fix: BOBYQA modifies the variables when the bounds are
 too close

---
 src/bobyqa.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 1a90102..4b99a77 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -393,14 +393,13 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors (the initial
+         variables are divided after having checked the bounds). */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -434,20 +433,31 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Return (leaving X unchanged) if there is insufficient space between the
+     bounds. */
   for (j = 0; j < n; ++j) {
-    temp = xu[j] - xl[j];
-    if (temp < rhobeg + rhobeg) {
+    if (xu[j] - xl[j] < rhobeg + rhobeg) {
       if (iprint > 0) {
         print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
       }
       return BOBYQA_TOO_CLOSE;
     }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors. */
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      x[j] *= one/scl[j];
+    }
+  }
+
+  /* Modify the initial X if necessary in order to avoid conflicts between the bounds and
+     the construction of the first quadratic model.  The lower and upper bounds
+     on moves from the updated X are set now, in the ISL and ISU partitions of
+     W, in order to provide useful and exact information about components of X
+     that become within distance RHOBEG from their bounds. */
+  for (j = 0; j < n; ++j) {
+    temp = xu[j] - xl[j];
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From 97dadc9524875a2f76b5210085e465f431e01a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 23/50] fix: trust region radius reported by newuoa_get_rho
 before the model is complete and after a restart

---
 src/newuoa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 0f48446..c41fe72 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -618,6 +618,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0;
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -980,6 +981,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     return ctx->status;
   }
   status = NEWUOA_INITIAL_ITERATE;
+  rho = rhobeg;
 #endif
 
   /* Set the initial elements of XPT, BMAT, HQ, PQ and ZMAT to zero. */
-- 
2.43.0


From ac955707acbbee9c96784b49410d68e631f3dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 24/50] fix: newuoa_create accepts a single variable and does
 not set errno when NPT is invalid

---
 src/newuoa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index c41fe72..e940525 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,9 +532,9 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
-      print_error("invalid number of variables N");
+      print_error("N must be at least 2");
     }
     errno = EINVAL;
     return NULL;
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (rhoend <= 0 || rhoend > rhobeg) {
-- 
2.43.0


From ead3d8d339abe36d0f6cdd79a5e70a0cfdf69ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 25/50] fix: trust region radius reported by cobyla_get_rho
 after a restart

---
 src/cobyla.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index d21896c..b7ff7da 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0;
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
-- 
2.43.0


From f4b80cc5a5591cad84e317ac493318cae5f9c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 26/50] fix: COBYLA prints a message even though no output is
 requested

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index b7ff7da..916d47a 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -529,8 +529,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 37dc94e068fd83d3599113bcf2963928591cb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 27/50] fix: derivative-free solvers accept trust region radii
 which are not numbers

---
 src/bobyqa.c | 2 +-
 src/cobyla.c | 4 ++--
 src/newuoa.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 4b99a77..8357d15 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -366,7 +366,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
diff --git a/src/cobyla.c b/src/cobyla.c
index 916d47a..1ced3a9 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || ! (rhoend > 0 && rhoend <= rhobeg) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +425,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index e940525..a04c148 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -546,7 +546,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     errno = EINVAL;
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (! (rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -849,7 +849,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From fd33b018ac20a28312c35d0bc755212d34ce94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 28/50] fix: NLCG description no longer overflows its local
 buffer

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..febc695 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From 234b9d8df69d67593891796cdf31b5b166dcbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 29/50] fix: honor the minimal function value given in the
 options of NLCG

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index febc695..e866f1d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From cf6c7c34689439ef0fc5de5d99ede25d5ecf7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 30/50] fix: print a NULL vector on the standard output when no
 stream is given

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 0b58fba..cd870e5 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 4bfe292d08ad38d09e1fb2d89ce7b6adbea62ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 31/50] fix: opk_get_description accepts a NULL optimizer as
 the other getters

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From 08def0e8b924c0cbff8769527d716195d650317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 32/50] fix: line searches refuse parameters which are not
 numbers

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 9a912f9..286a295 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -307,7 +307,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (non_finite(ftol) || non_finite(amin) ||
+      ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -429,7 +430,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -655,15 +656,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (isnan(ftol) || ftol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (isnan(gtol) || gtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (isnan(xtol) || xtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From eaa39fea63d2854583680dd296a84acac578ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 33/50] fix: texts of the tolerance statuses match the
 tolerances

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From 5b1ea9d56244580042ef59fd845bc38c9a8d3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 34/50] fix: restarting an optimizer resets the memory of its
 line search

---
 src/lnsrch.c            | 19 ++++++++++++++-----
 src/nlcg.c              |  1 +
 src/optimpack-private.h |  7 +++++++
 src/vmlmb.c             |  1 +
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 286a295..c847af9 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -237,6 +237,14 @@ opk_lnsrch_use_deriv(const opk_lnsrch* ls)
   return ls->ops->use_deriv;
 }
 
+void
+opk__reset_lnsrch(opk_lnsrch* ls)
+{
+  if (ls->ops->reset != NULL) {
+    ls->ops->reset(ls);
+  }
+}
+
 /*---------------------------------------------------------------------------*/
 /* ARMIJO (BACKTRACKING) LINE SEARCH */
 
@@ -299,7 +307,8 @@ static opk_lnsrch_operations backtrack_operations = {
   NULL,
   backtrack_start,
   backtrack_iterate,
-  FALSE
+  FALSE,
+  NULL
 };
 
 opk_lnsrch*
@@ -359,14 +368,12 @@ nonmonotone_start(opk_lnsrch* ls)
   return success(ls, OPK_LNSRCH_SEARCH);
 }
 
-#if 0
 static void
 nonmonotone_reset(opk_lnsrch* ls)
 {
   nonmonotone_lnsrch* nmls = (nonmonotone_lnsrch*)ls;
   nmls->mp = 0;
 }
-#endif
 
 static opk_lnsrch_task
 nonmonotone_iterate(opk_lnsrch* ls,
@@ -420,7 +427,8 @@ static opk_lnsrch_operations nonmonotone_operations = {
   NULL,
   nonmonotone_start,
   nonmonotone_iterate,
-  FALSE
+  FALSE,
+  nonmonotone_reset
 };
 
 opk_lnsrch*
@@ -637,7 +645,8 @@ static opk_lnsrch_operations csrch_operations = {
   NULL,
   csrch_start,
   csrch_iterate,
-  TRUE
+  TRUE,
+  NULL
 };
 
 
diff --git a/src/nlcg.c b/src/nlcg.c
index e866f1d..10cfe2c 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -711,6 +711,7 @@ opk_start_nlcg(opk_nlcg* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   return success(opt, OPK_TASK_COMPUTE_FG);
 }
 
diff --git a/src/optimpack-private.h b/src/optimpack-private.h
index 26aa301..4c95cf4 100644
--- a/src/optimpack-private.h
+++ b/src/optimpack-private.h
@@ -490,12 +490,19 @@ struct opk_lnsrch_operations_ {
      or 1st Wolfe condition only).  The initial directional derivative at the
      start of each search is always needed. */
   opk_bool use_deriv;
+
+  /* Optional method called when an optimizer is (re)started to forget what has
+     been memorized from the previous line searches.  Can be NULL. */
+  void (*reset)(opk_lnsrch* self);
 };
 
 extern opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size);
 
+extern void
+opk__reset_lnsrch(opk_lnsrch* ls);
+
 extern void
 opk__set_nlcg_status(opk_nlcg* opt, opk_status status);
 
diff --git a/src/vmlmb.c b/src/vmlmb.c
index f922048..927e0b1 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -375,6 +375,7 @@ opk_start_vmlmb(opk_vmlmb* opt, opk_vector* x)
   opt->restarts = 0;
   opt->updates = 0;
   opt->mp = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   if (opt->box != NULL) {
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
-- 
2.43.0


From 45175d6cd4a8988502bb43a929b01d145c5f0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 35/50] fix: sizes of vectors and memories which cannot be
 addressed are refused

---
 src/lnsrch.c        | 5 +++++
 src/simple_vector.c | 8 +++++++-
 src/vmlmb.c         | 6 ++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index c847af9..362448f 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -445,6 +445,11 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
     return NULL;
   }
   offset = ROUND_UP(sizeof(nonmonotone_lnsrch), sizeof(double));
+  if ((size_t)m > ((size_t)-1 - offset)/sizeof(double)) {
+    /* Size overflow. */
+    errno = ENOMEM;
+    return NULL;
+  }
   size = offset + m*sizeof(double);
   ls = opk_allocate_line_search(&nonmonotone_operations, size);
   if (ls != NULL) {
diff --git a/src/simple_vector.c b/src/simple_vector.c
index d305ba7..2c73fed 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -85,7 +85,13 @@ create(opk_vspace* vspace)
 {
   const size_t offset = ROUND_UP(sizeof(simple_vector), sizeof(REAL));
   size_t size = offset + vspace->size*sizeof(REAL);
-  opk_vector* v = opk_allocate_vector(vspace, size);
+  opk_vector* v;
+  if ((size_t)vspace->size > ((size_t)-1 - offset)/sizeof(REAL)) {
+    /* Size overflow. */
+    errno = ENOMEM;
+    return NULL;
+  }
+  v = opk_allocate_vector(vspace, size);
   if (v != NULL) {
     simple_vector* sv = (simple_vector*)v;
     sv->data = (REAL*)(((char*)v) + offset);
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 927e0b1..950fe02 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -275,6 +275,12 @@ opk_new_vmlmb_optimizer(const opk_vmlmb_options* opts,
   }
 
   /* Allocate enough memory for the workspace and its arrays. */
+  if ((size_t)m > ((size_t)-1 - sizeof(opk_vmlmb) - 2*sizeof(double))/
+      (2*sizeof(opk_vector*) + 2*sizeof(double))) {
+    /* Size overflow. */
+    errno = ENOMEM;
+    return NULL;
+  }
   s_offset = ROUND_UP(sizeof(opk_vmlmb), sizeof(opk_vector*));
   y_offset = s_offset + m*sizeof(opk_vector*);
   alpha_offset = ROUND_UP(y_offset + m*sizeof(opk_vector*), sizeof(double));
-- 
2.43.0


From 63d9f5937a45c228e339aef43de192f09de8c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 36/50] fix: opk_gqtpar used memory past the end of its copy of
 the matrix

---
 yorick/opky.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index 7191433..9615248 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -943,6 +943,7 @@ void Y_opk_gqtpar(int argc)
     if (type == Y_DOUBLE) {
       double* dst = ypush_d(dims);
       const double* src = (const double*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -956,10 +957,10 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     } else {
       float* dst = ypush_f(dims);
       const float* src = (const float*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -973,7 +974,6 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     }
     yarg_swap(A_iarg + 1, 0);
     yarg_drop(1);
-- 
2.43.0


From a66fb3b99210f8424a05876d3e79baf50f5ef5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 37/50] fix: scalar variables are updated by opk_start and
 opk_iterate in Yorick

---
 yorick/opky.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yorick/opky.c b/yorick/opky.c
index 9615248..a6321ed 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -761,12 +761,18 @@ void Y_opk_start(int argc)
 {
   yopt_instance_t* opt;
   void* x;
+  long index;
   opk_task task;
 
   if (argc != 2) y_error("expecting exactly 2 arguments");
   opt = get_opt_instance(1);
+  index = yget_ref(0);
   x = get_array(0, opt);
   task = opk_start(opt->optimizer, x);
+  if (index >= 0L && yarg_scratch(0)) {
+    /* A scalar variable has been copied on the stack. */
+    yput_global(index, 0);
+  }
   ypush_int(task);
 }
 
@@ -776,14 +782,20 @@ void Y_opk_iterate(int argc)
   double f;
   void* x;
   void* g;
+  long index;
   opk_task task;
 
   if (argc != 4) y_error("expecting exactly 4 arguments");
   opt = get_opt_instance(3);
+  index = yget_ref(2);
   x = get_array(2, opt);
   f = ygets_d(1);
   g = get_array(0, opt);
   task = opk_iterate(opt->optimizer, x, f, g);
+  if (index >= 0L && yarg_scratch(2)) {
+    /* A scalar variable has been copied on the stack. */
+    yput_global(index, 2);
+  }
   ypush_int(task);
 }
 
-- 
2.43.0


From 074f01fdceb1dd247bb3d79c05a5b6e6aed7ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 38/50] fix: honor the FMIN keyword of opk_nlcg in Yorick

---
 yorick/opky.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index a6321ed..af81e7f 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -615,7 +615,10 @@ void Y_opk_nlcg(int argc)
       } else if (index == stpmax_index) {
         options.stpmax = get_optional_double(iarg, options.stpmax);
       } else if (index == fmin_index) {
-        options.fmin = get_optional_double(iarg, options.fmin);
+        if (yarg_typeid(iarg) != Y_VOID) {
+          options.fmin = get_optional_double(iarg, options.fmin);
+          options.fmin_given = TRUE;
+        }
       } else if (index == single_index) {
         single = yarg_true(iarg);
       } else if (index == flags_index) {
-- 
2.43.0


From e7c411e4df0509aed74c2b2ed2e509303ac7ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 39/50] fix: opk_minimize returns the last iterate when the
 number of evaluations is limited

---
 yorick/opky.i | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/yorick/opky.i b/yorick/opky.i
index 86cff44..a8e2928 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -334,6 +334,7 @@ func opk_minimize(fg, x0, &fx, &gx,
   }
   check_eval = ! is_void(maxeval);
   check_iter = ! is_void(maxiter);
+  saved = FALSE;
   if (single) {
     type = float;
     single = TRUE;
@@ -371,7 +372,12 @@ func opk_minimize(fg, x0, &fx, &gx,
   for (;;) {
     if (task == OPK_TASK_COMPUTE_FG) {
       if (check_eval && opt.evaluations >= maxeval) {
-        /* FIXME: should restore best solution so far. */
+        if (saved) {
+          /* Restore last iterate. */
+          x = x1;
+          fx = fx1;
+          gx = gx1;
+        }
         task = OPK_TASK_WARNING;
         reason = "too many evaluations";
         stage = 2;
@@ -380,6 +386,13 @@ func opk_minimize(fg, x0, &fx, &gx,
         stage = 0;
       }
     } else if (task == OPK_TASK_NEW_X) {
+      if (check_eval) {
+        /* Save this iterate. */
+        saved = TRUE;
+        x1 = x;
+        fx1 = fx;
+        gx1 = gx;
+      }
       if (check_iter && opt.iterations >= maxiter) {
         task = OPK_TASK_WARNING;
         reason = "too many iterations";
-- 
2.43.0


From afbbe1c964a5bd126fbc07904f298a62e29a0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 40/50] fix: documentation of the Yorick plug-in matches its
 keywords and its constraints

---
 yorick/opky.i | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/yorick/opky.i b/yorick/opky.i
index a8e2928..666e275 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -72,7 +72,7 @@ extern opk_nlcg;
 
      The dot notation can be used to query some members of the optimizer
      instance:
-         opt.flags       - name of the optimization method;
+         opt.name        - name of the optimization method;
          opt.size        - size of the problem;
          opt.dims        - dimensions of the problem;
          opt.single      - single precision?
@@ -112,8 +112,7 @@ extern opk_nlcg;
  */
 
 extern opk_vmlmb;
-/* DOCUMENT opt = opk_vmlmb(dims, mem=..., lower=..., upper=..., flags=...,
-                                  single=...);
+/* DOCUMENT opt = opk_vmlmb(dims, mem=..., lower=..., upper=..., single=...);
 
      The function opk_vmlmb() creates a new instance of OptimPack reverse
      communication optimizer implementing VMLM-B algorithm.  This algorithm is
@@ -170,8 +169,7 @@ extern opk_vmlmb;
 
 
 extern opk_blmvm;
-/* DOCUMENT opt = opk_blmvm(dims, mem=..., lower=..., upper=..., flags=...,
-                                  single=...);
+/* DOCUMENT opt = opk_blmvm(dims, mem=..., lower=..., upper=..., single=...);
 
      The function opk_blmvm() creates a new instance of OptimPack reverse
      communication optimizer implementing Benson & Moré BLMVM algorithm.  See
@@ -490,8 +488,8 @@ local cobyla_minimize, cobyla_maximize;
 
      The objective is to find X which solves one of the problems:
 
-          min f(x)    s.t.   c(x) <= 0   (cobyla_minimize)
-          max f(x)    s.t.   c(x) <= 0   (cobyla_maximize)
+          min f(x)    s.t.   c(x) >= 0   (cobyla_minimize)
+          max f(x)    s.t.   c(x) >= 0   (cobyla_maximize)
 
      Arguments F and C are user defined functions which take a single
      argument, the variables X, and return the function value and the
@@ -531,7 +529,7 @@ local cobyla_minimize, cobyla_maximize;
      value is equal to 2*N+1 (the recommended value).
 
      Keyword MAXFUN sets the maximum number of function evaluations.  Its
-     default value is equal to 30*N.
+     default value is equal to 50*N.
 
      Keyword ERR sets the behavior in case of abnormal termination.  If ERR=0,
      anything but a success throws an error (this is also the default
@@ -656,7 +654,7 @@ extern cobyla_iterate;
 
      The objective is to find X which solves the problem:
 
-          min f(x)    s.t.   c(x) <= 0
+          min f(x)    s.t.   c(x) >= 0
 
      Given a penalty parameter SIGMA > 0, COBYLA assumes that a change to X is
      an improvement if it reduces the merit function:
@@ -1030,7 +1028,7 @@ extern opk_gqtpar;
           status = 3  Rounding errors prevent further progress.
                     On exit X is the best available approximation.
 
-          status = 4  Failure to converge after ITMAX iterations.
+          status = 4  Failure to converge after MAXITER iterations.
                     On exit X is the best available approximation.
 
         Function opk_gqtpar_info(STATUS) can be used to query the explanation
@@ -1056,8 +1054,8 @@ extern opk_gqtpar;
 
        By default ATOL = 1E-8; otherwise the value for ATOL is a real scalar.
 
-     ITMAX is the maximum number of iterations.  By default ITMAX = 7;
-       otherwise the value for ITMAX is an integer scalar.
+     MAXITER is the maximum number of iterations.  By default MAXITER = 7;
+       otherwise the value for MAXITER is an integer scalar.
 
 
    RESULT:
@@ -1080,7 +1078,7 @@ func opk_gqtpar_info(status)
   } else if (status == 3n) {
     return "Rounding errors prevent further progress, the result is the best available approximation.";
   } else if (status == 4n) {
-    return "Failure to converge after ITMAX iterations, the result is the best available approximation.";
+    return "Failure to converge after MAXITER iterations, the result is the best available approximation.";
   } else {
     return string(0);
   }
-- 
2.43.0


From 2b863a0d0dc440f653fa4f9d76f8efb5a1d70bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 41/50] fix: cobyla_minimize and cobyla_maximize return the
 constrained optimum in Yorick when keyword ALL is true

---
 yorick/opky.i | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yorick/opky.i b/yorick/opky.i
index 666e275..d4bc8f8 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -569,6 +569,12 @@ func cobyla_minimize(f, c, x0, rhobeg, rhoend, scale,
     x = scale*u;
   } while (status == COBYLA_ITERATE);
   if (status != COBYLA_SUCCESS) cobyla_error, status, err;
+  if (all && constrained) {
+    /* The best function value found may be at unfeasible variables. */
+    fmin = f(x);
+    cmin = c(x);
+    xmin = x;
+  }
   return (all ? save(fmin, cmin, xmin, nevals = ctx.nevals,
                      status, rho = ctx.rho*scale) : x);
 }
@@ -600,6 +606,12 @@ func cobyla_maximize(f, c, x0, rhobeg, rhoend, scale,
     x = scale*u;
   } while (status == COBYLA_ITERATE);
   if (status != COBYLA_SUCCESS) cobyla_error, status, err;
+  if (all && constrained) {
+    /* The best function value found may be at unfeasible variables. */
+    fmax = f(x);
+    cmax = c(x);
+    xmax = x;
+  }
   return (all ? save(fmax, cmax, xmax, nevals = ctx.nevals,
                      status, rho = ctx.rho*scale) : x);
 }
-- 
2.43.0


From a021ea46c8f536f432eae50739c4430119b1ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 42/50] fix: cobyla prints the variables of the user when
 radius is reduced and there is a scaling

---
 src/cobyla.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 1ced3a9..4509022 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -964,8 +964,13 @@ cobyla_optimize(INTEGER n, INTEGER m,
       fprintf(stdout, "\n   Reduction in RHO to%13.6E  and PARMU =%13.6E\n",
               (double)rho, (double)parmu);
       if (iprint == 2) {
-        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np),
-                     &SIM(1,np));
+        xs = &SIM(1,np);
+#ifndef COBYLA_REVCOM_
+        if (scl != NULL) {
+          xs = scale(w, n, scl, xs);
+        }
+#endif
+        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np), xs);
       }
     }
     goto L_140;
-- 
2.43.0


From 231d59d2658de8e51e36080aa20ef344ed5b9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 43/50] fix: cobyla stops when its step is not finite instead
 of searching it forever

---
 src/cobyla.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 4509022..647d9ef 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -795,11 +795,21 @@ cobyla_optimize(INTEGER n, INTEGER m,
     trstlp(n, m, a, con, rho, dx, &ifull, iact, z, zdota,
            vmc, sdirn, dxnew, vmd);
   }
-  if (ifull == 0) {
-    temp = zero;
-    LOOP(i,n) {
-      temp += DX(i)*DX(i);
+  temp = zero;
+  LOOP(i,n) {
+    temp += DX(i)*DX(i);
+  }
+  if (temp - temp != zero) {
+    /* The step is not finite because of overflows or because of the values
+       returned by the user. */
+    status = COBYLA_ROUNDING_ERRORS;
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
     }
+    goto L_600;
+  }
+  if (ifull == 0) {
     if (temp < FLT(0.25)*rho*rho) {
       ibrnch = 1;
       goto L_550;
@@ -1531,9 +1541,10 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   if (mcon == m) resmax = resold + ratio*(resmax - resold);
 
   /* If the full step is not acceptable then begin another iteration.
-     Otherwise switch to stage two or end the calculation. */
+     Otherwise switch to stage two or end the calculation (in stage two STEP
+     is STPFUL, even though it may be not a number). */
   if (icon > 0) goto L_70;
-  if (step == stpful) goto L_500;
+  if (mcon > m || step == stpful) goto L_500;
  L_480:
   mcon = m + 1;
   icon = mcon;
-- 
2.43.0


From 464f7ffa1c30262793056c1031e46089232ec8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 44/50] fix: bobyqa stops when its step is not a number instead
 of leaving the bounds

---
 src/bobyqa.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8357d15..e703590 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1007,6 +1007,13 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
      Calculate the value of the objective function at XBASE+XNEW, unless the
      limit on the number of calculations of F has been reached. */
  L360:
+  LOOP(i,n) {
+    if (xnew[i] != xnew[i]) {
+      /* The step is undefined because of overflows or because of the values
+         returned by the user. */
+      goto step_undefined;
+    }
+  }
   LOOP(i,n) {
     x[i] = (xnew[i]  == su[i] ? xu[i] :
             (xnew[i] == sl[i] ? xl[i] :
@@ -1366,6 +1373,11 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   status = BOBYQA_STEP_FAILED;
   goto error;
 
+ step_undefined:
+  reason = "the next step is not finite";
+  status = BOBYQA_ROUNDING_ERRORS;
+  goto error;
+
  error:
   if (iprint > 0) {
     print_error(reason);
-- 
2.43.0


From 5c74bdbed67f1bbfc39516aabe2c4ae194bdf343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 45/50] fix: cobyla limits the iterations of its inner search,
 which may otherwise be endless

---
 src/cobyla.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 647d9ef..6c13711 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1130,9 +1130,11 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   REAL acca, accb, alpha, beta, dd, optnew, optold, ratio, resmax, resold, sd,
     sp, spabs, ss, step, stpful, sum, sumabs, temp, tempa, tempb, tot, vsave,
     zdotv, zdotw, zdvabs, zdwabs;
-  INTEGER i, icon, icount, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
+  INTEGER i, icon, icount, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx,
+    niter;
 
   *ifull = 1;
+  niter = 0;
   icon = 0; /* FIXME: `icon` was uninitialized */
   mcon = m;
   nact = 0;
@@ -1166,7 +1168,9 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
      either failed to reduce the best calculated value of the objective
      function or to increase the number of active constraints since the best
      value was calculated.  This strategy prevents cycling, but there is a
-     remote possibility that it will cause premature termination. */
+     remote possibility that it will cause premature termination.  The number
+     of iterations is also limited because the reductions of the objective
+     function may be of the order of the smallest positive number. */
  L_60:
   optold = zero;
   icount = 0;
@@ -1179,6 +1183,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
       optnew -= DX(i)*A(i,mcon);
     }
   }
+  if (++niter > 1000*(m + n)) goto L_490;
   if (icount == 0 || optnew < optold) {
     optold = optnew;
     nactx = nact;
-- 
2.43.0


From 6531178ae8f3975af964da72b76ca346ffc55e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 46/50] fix: backtracking reduces the step when the function is
 undefined instead of trying an undefined step

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 362448f..fb88010 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -284,8 +284,8 @@ backtrack_iterate(opk_lnsrch* ls,
   } else {
     double q = -stp*ls->ginit;
     double r = (f - (ls->finit - q))*2;
-    if (r <= 0) {
-      /* Bisection step. */
+    if (! (r > 0)) {
+      /* Bisection step (also if the function is undefined, i.e. a NaN). */
       stp *= 0.5;
     } else if (q <= bls->amin*r) {
       /* Small step. */
-- 
2.43.0


From 05a429c5c5e319179036ec5188fd0fa7c199cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 47/50] fix: the quasi-Newton direction is not a number when
 the curvature underflows

---
 src/vmlmb.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index 950fe02..28f0c81 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -421,10 +421,10 @@ update(opk_vmlmb* opt,
   if (opt->method != OPK_VMLMB) {
     /* Compute initial inverse Hessian approximation. */
     sty = DOT(S(k), Y(k));
-    if (sty <= 0) {
-      /* This pair will be skipped.  This may however indicate a problem, see
-         Nocedal & Wright "Numerical Optimization", section 8.1, p. 201 (1999).
-         FIXME: restart? */
+    if (! (sty >= DBL_MIN)) {
+      /* This pair will be skipped (the inverse of a smaller value may overflow).
+         This may however indicate a problem, see Nocedal & Wright "Numerical
+         Optimization", section 8.1, p. 201 (1999).  FIXME: restart? */
       RHO(k) = 0;
     } else {
       /* Compute RHO(k) and GAMMA. */
@@ -483,7 +483,7 @@ apply(opk_vmlmb* opt, const opk_vector* g)
     for (j = 1; j <= opt->mp; ++j) {
       k = SLOT(j);
       sty = WDOT(Y(k), S(k));
-      if (sty <= 0) {
+      if (! (sty >= DBL_MIN)) {
         RHO(k) = 0;
       } else {
         RHO(k) = 1/sty;
@@ -492,10 +492,16 @@ apply(opk_vmlmb* opt, const opk_vector* g)
         result = OPK_SUCCESS;
         if (opt->gamma == 0) {
           yty = WDOT(Y(k), Y(k));
-          opt->gamma = sty/yty;
+          if (yty > 0) {
+            opt->gamma = sty/yty;
+          }
         }
       }
     }
+    if (opt->gamma == 0) {
+      /* There are no pairs to scale the direction. */
+      result = OPK_NOT_POSITIVE_DEFINITE;
+    }
     if (result == OPK_SUCCESS) {
       if (opt->gamma != 1) {
         SCALE(opt->d, opt->gamma);
-- 
2.43.0


From 2440a783ac640646605f16d75a9b16f73aa3fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 48/50] fix: the length of the first step along the gradient
 may overflow

---
 src/nlcg.c  | 6 ++++--
 src/vmlmb.c | 5 ++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 10cfe2c..8e0bb39 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -802,9 +802,11 @@ opk_iterate_nlcg(opk_nlcg* opt, opk_vector* x,
       opt->dtg = -opt->gnorm*opt->gnorm;
       if (opt->fmin_given && opt->fmin < f) {
         opt->alpha = 2*(opt->fmin - f)/opt->dtg;
-      } else if (f != 0) {
-        opt->alpha = 2*fabs(f/opt->dtg);
       } else {
+        opt->alpha = (f != 0 ? 2*fabs(f/opt->dtg) : 0.0);
+      }
+      if (opt->alpha == 0 || non_finite(opt->alpha)) {
+        /* Use a small step compared to X. */
         double dnorm = opt->gnorm;
         double xnorm = opk_vnorm2(x);
         if (xnorm > 0) {
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 28f0c81..cafaf6e 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -675,9 +675,8 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
         opk_vcopy(opt->d, g);
       }
       dtg = -opt->gnorm*opt->gnorm;
-      if (f != 0) {
-        opt->stp = 2*fabs(f/dtg);
-      } else {
+      opt->stp = (f != 0 ? 2*fabs(f/dtg) : 0.0);
+      if (opt->stp == 0 || non_finite(opt->stp)) {
         /* Use a small step compared to X. */
         double dnorm = opt->gnorm;
         double xnorm = (bounded ? WNORM2(x) : NORM2(x));
-- 
2.43.0


From 0cc4993976fa128e6669b2d3de15457cf7b2d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 49/50] fix: the scale method of vector spaces is not called
 with a factor equal to one

---
 src/algebra.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index cd870e5..8ee8aeb 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -400,11 +400,11 @@ opk_vaxpby(opk_vector* dst,
       if (beta == 0.0) {
         vspace->ops->fill(vspace, dst, 0.0);
       } else {
-        vspace->ops->scale(vspace, dst, beta, y);
+        opk_vscale(dst, beta, y);
       }
     } else {
       if (beta == 0.0) {
-        vspace->ops->scale(vspace, dst, alpha, x);
+        opk_vscale(dst, alpha, x);
       } else {
         vspace->ops->axpby(vspace, dst, alpha, x, beta, y);
       }
@@ -428,11 +428,11 @@ opk_vaxpbypcz(opk_vector* dst,
         if (gamma == 0.0) {
           vspace->ops->fill(vspace, dst, 0.0);
         } else {
-          vspace->ops->scale(vspace, dst, gamma, z);
+          opk_vscale(dst, gamma, z);
         }
       } else {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, beta, y);
+          opk_vscale(dst, beta, y);
         } else {
           vspace->ops->axpby(vspace, dst, beta, y, gamma, z);
         }
@@ -440,7 +440,7 @@ opk_vaxpbypcz(opk_vector* dst,
     } else {
       if (beta == 0.0) {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, alpha, x);
+          opk_vscale(dst, alpha, x);
         } else {
           vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
         }
-- 
2.43.0


From fdcd716b6075578ef9822064d195314b09a45c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 50/50] fix: step limits are used although they could not be
 computed

---
 src/vmlmb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index cafaf6e..aaf5e01 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -695,13 +695,13 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       double bsmin1, bsmin2, bsmax;
       status = opk_get_step_limits(&bsmin1, &bsmin2, &bsmax,
                                    x, opt->box, opt->d, OPK_ASCENT);
+      if (status != OPK_SUCCESS) {
+        return failure(opt, status);
+      }
       if (bsmin1 < 0) {
         fprintf(stderr, "FIXME: SMIN1 =%g, SMIN2 =%g, SMAX =%g\n",
                 bsmin1, bsmin2, bsmax);
       }
-      if (status != OPK_SUCCESS) {
-        return failure(opt, status);
-      }
       if (bsmax <= 0) {
         return failure(opt, OPK_WOULD_BLOCK);
       }
-- 
2.43.0

