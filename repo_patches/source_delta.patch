From d67e17c7f3a4e1c2aaebfd6e4649ee77249731a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 01/24] fix: never pass a unit factor to the scale method in
 opk_vaxpby/opk_vaxpbypcz

The table of vector space operations guarantees that the factor is neither 0
nor 1 when scale() is called; dispatch through opk_vscale() to honour it.
---
 src/algebra.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..f982929 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -398,11 +398,11 @@ opk_vaxpby(opk_vector* dst,
       if (beta == 0.0) {
         vspace->ops->fill(vspace, dst, 0.0);
       } else {
-        vspace->ops->scale(vspace, dst, beta, y);
+        opk_vscale(dst, beta, y);
       }
     } else {
       if (beta == 0.0) {
-        vspace->ops->scale(vspace, dst, alpha, x);
+        opk_vscale(dst, alpha, x);
       } else {
         vspace->ops->axpby(vspace, dst, alpha, x, beta, y);
       }
@@ -426,11 +426,11 @@ opk_vaxpbypcz(opk_vector* dst,
         if (gamma == 0.0) {
           vspace->ops->fill(vspace, dst, 0.0);
         } else {
-          vspace->ops->scale(vspace, dst, gamma, z);
+          opk_vscale(dst, gamma, z);
         }
       } else {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, beta, y);
+          opk_vscale(dst, beta, y);
         } else {
           vspace->ops->axpby(vspace, dst, beta, y, gamma, z);
         }
@@ -438,7 +438,7 @@ opk_vaxpbypcz(opk_vector* dst,
     } else {
       if (beta == 0.0) {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, alpha, x);
+          opk_vscale(dst, alpha, x);
         } else {
           vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
         }
-- 
2.43.0


From 951230b2cf20885bc028ea4ccc6196070f11b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 02/24] fix: opk_hold_object(NULL) does nothing, as documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index f982929..770ba3b 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From fd8625a63fe5258f2d6bac9460c772010a895858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 03/24] fix: opk_vprint of a NULL vector on the default stream

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 770ba3b..0646be9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 5b0113297d10e9f0f09bb543be74630f452614bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 04/24] fix: line search reports an error task, not a status,
 for NULL arguments

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..bf549e0 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -158,7 +158,7 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   int bound;
 
   if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From 0a4953401e8290341e29e330aa2f94cfe0dd47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 05/24] fix: reject undefined line search parameters

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index bf549e0..01c4a2d 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -307,7 +307,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (non_finite(ftol) || non_finite(amin) ||
+      ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +426,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -651,15 +652,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (non_finite(ftol) || ftol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (non_finite(gtol) || gtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (non_finite(xtol) || xtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From ea56fb09d266278a26f5170178f415e47a29c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 06/24] fix: NLCG optimizer honours the given minimal function
 value

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..d9990df 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From a66052ff2cb13158e304734ef5cae5fa894b07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 07/24] fix: opk_fmin honours a zero maximum number of
 evaluations

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..51b4cb3 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From ff556c51e6f83f44319c2cfa12040d90706792b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 08/24] fix: opk_fmin_get_final returns the endpoints of the
 final interval

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 51b4cb3..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 457c2d1a7b72079897aae9588149be1ea857f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 09/24] fix: SYRK indexes its matrix A with its own leading
 dimension

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From d28266ef8162b6e8d51ad2757d852e772d642b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 10/24] fix: GEMM reports its second argument when transb is
 invalid

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From 09adae7ce4716e9e019226355c0278f6adf477ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 11/24] fix: opk_new_optimizer survives an allocation failure

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From 89eec2dee8d97f684b0f12767af85ba3ea8ff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 12/24] fix: opk_get_description accepts a NULL optimizer like
 its siblings

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From d4214b1c483bf2704cd5fa486891d9ca030a5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 13/24] fix: line search convergence at a step bound is not
 turned into a warning

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 01c4a2d..93dd378 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 7bc8b975163b0062f9c73b4cfd6075337f14ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 14/24] fix: descriptions of the convergence status codes match
 the codes

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From 34d31200b8a43f19780d58049e24da4dcc6fa1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 15/24] fix: VMLMB trial points never leave the bounds by
 rounding errors

---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..6ce9c5c 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Rounding errors may push variables out of their bounds even though the
+       step is not larger than `bsmin`. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From c279210e1229e73d070642efd2b2871602c0d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 16/24] fix: no debugging output (of undefined values) from
 VMLMB

---
 src/vmlmb.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index 6ce9c5c..3255447 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -683,10 +683,6 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       double bsmin1, bsmin2, bsmax;
       status = opk_get_step_limits(&bsmin1, &bsmin2, &bsmax,
                                    x, opt->box, opt->d, OPK_ASCENT);
-      if (bsmin1 < 0) {
-        fprintf(stderr, "FIXME: SMIN1 =%g, SMIN2 =%g, SMAX =%g\n",
-                bsmin1, bsmin2, bsmax);
-      }
       if (status != OPK_SUCCESS) {
         return failure(opt, status);
       }
-- 
2.43.0


From ead2992d94798915daa2f0c22274cee8f2f51904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 17/24] fix: newuoa_create checks its dimensions as documented

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..ea738d3 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (rhoend <= 0 || rhoend > rhobeg) {
-- 
2.43.0


From 8806d38389ee786e0e3dbca9812a374e2f2522c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 18/24] fix: COBYLA is silent when iprint is zero

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..d321353 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -527,8 +527,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 461abfc7ab26ae7cdfc6c148dceba05da35a8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 19/24] fix: avoid buffer overflow in the description of NLCG
 methods

The description of some update rules with both Powell restarts and the
Shanno & Phua step size takes up to 84 bytes.
---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index d9990df..e866f1d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From 175546252ebea43f5c9f157b9aa818948245892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 20/24] fix: opk_fmin_next can be continued after convergence

---
 src/fmin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..a281383 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -287,6 +287,10 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
          of the variable. */
       return (ctx->status = OPK_FMIN_ERROR);
     }
+    if (ctx->status == OPK_FMIN_CONVERGENCE) {
+      /* The last function value has already been taken into account. */
+      goto check_convergence;
+    }
     switch (ctx->stage) {
       JUMP(1);
       JUMP(2);
@@ -341,6 +345,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
 
   /* Reduce the bracketing interval to improve the precision. */
   for (;;) {
+  check_convergence:
     /* Check for convergence. */
     r = fabs(u);
     if ((t = fabs(v)) > r) r = t;
-- 
2.43.0


From 622edd4fbb5eb8ee2bd7fff9b9e2149fc0e96648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 21/24] fix: newuoa: return the best point when MAXFUN stops
 the initial model

---
 src/newuoa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index ea738d3..aa5f800 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1311,6 +1311,12 @@ newuoa_optimize(INTEGER n, INTEGER npt,
  L310:
   if (nf > MAX(maxfun,1)) {
     --nf;
+    if (nf < npt) {
+      /* The initial model is not complete, XOPT has not yet been set. */
+      LOOP(i,n) {
+        XOPT(i) = XPT(kopt,i);
+      }
+    }
     reason = "CALFUN has been called MAXFUN times";
     status = NEWUOA_TOO_MANY_EVALUATIONS;
     goto done;
-- 
2.43.0


From b35a1bc5f9694b0d47561a7152fc8bf3969a9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 22/24] fix: bobyqa: leave the variables unchanged when the
 bounds are too close

---
 src/bobyqa.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..0f47a78 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -387,14 +387,12 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors. */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -405,6 +403,25 @@ bobyqa_status bobyqa_optimize(
     }
   }
 
+  /* Return if there is insufficient space between the bounds (before any
+     change of the variables). */
+  for (j = 0; j < n; ++j) {
+    if (xu[j] - xl[j] < rhobeg + rhobeg) {
+      if (iprint > 0) {
+        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
+      }
+      return BOBYQA_TOO_CLOSE;
+    }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors. */
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      REAL s = one/scl[j];
+      x[j] *= s;
+    }
+  }
+
   /* Partition the working space array, so that different parts of it can
      be treated separately during the calculation of BOBYQB.  The partition
      requires the first (NPT+2)*(NPT+N)+3*N*(N+5)/2 elements of W plus the
@@ -428,20 +445,13 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Modify the initial X if necessary in order to avoid conflicts between the
+     bounds and the construction of the first quadratic model.  The lower and
+     upper bounds on moves from the updated X are set now, in the ISL and ISU
+     partitions of W, in order to provide useful and exact information about
+     components of X that become within distance RHOBEG from their bounds. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
-    if (temp < rhobeg + rhobeg) {
-      if (iprint > 0) {
-        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
-      }
-      return BOBYQA_TOO_CLOSE;
-    }
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From 3d416c0cbb27133efb06e2263ace79576febb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 23/24] fix: bobyqa: never call the objective function out of
 the bounds when scaling

---
 src/bobyqa.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 0f47a78..d8999ea 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds (not scaled) */
+  const REAL*    xu;     /* upper bounds (not scaled) */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,19 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Multiply variables by the scaling factors.  The result strictly satisfies the
+   bounds in spite of rounding errors. */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +374,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -489,7 +495,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From a4204c7b941e1c58768fabfdf65ac9520126e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 24/24] fix: potf2 refuses a bad UPLO argument even if N is
 zero

---
 src/linalg.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4e4aa2d 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1659,6 +1659,9 @@ OPK_POTF2(opk_blas_uplo uplo,
   opk_index j;
 
   /* Test the input parameters. */
+  if (uplo != OPK_BLAS_UPPER && uplo != OPK_BLAS_LOWER) {
+    return -1;
+  }
   if (n < 0) {
     return -2;
   }
@@ -1695,7 +1698,7 @@ OPK_POTF2(opk_blas_uplo uplo,
 
     }
 
-  } else if (uplo == OPK_BLAS_LOWER) {
+  } else {
 
     /* Compute the Cholesky factorization A = L*L'. */
 
@@ -1719,11 +1722,6 @@ OPK_POTF2(opk_blas_uplo uplo,
 
     }
 
-  } else {
-
-    /* Bad first parameter. */
-    return -1;
-
   }
   return 0;
 }
-- 
2.43.0

