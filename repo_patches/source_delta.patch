From faafefcf30c9967c4047fa0f3a55459edcb824c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:43 +0000
Subject: [PATCH 01/51] fix: round the fused multiply-add once in the IEEE mode
 of the MCA backends

---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 8 +++++++-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..d753c25 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -450,7 +450,13 @@ static void _mcaint_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaint_mode_ieee) {                                   \
+      /* the wider format would round the result twice */                      \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaint_mode_rr || TMP_CTX->mode == mcaint_mode_mca) { \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
     }                                                                          \
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..18f5031 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -512,7 +512,13 @@ inline void _mcaquad_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaquad_mode_ieee) {                                  \
+      /* the wider format would round the result twice */                      \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaquad_mode_rr ||                                    \
         TMP_CTX->mode == mcaquad_mode_mca) {                                   \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
-- 
2.43.0


From b8ff9b09b6691017ecc7083553e5e42251bde812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:07 +0000
Subject: [PATCH 02/51] fix: answer unordered comparison predicates of the IEEE
 backend

---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..5a3cedd 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessgreater(A, B);                                               \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessequal(A, B);                                                 \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isless(A, B);                                                      \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreaterequal(A, B);                                              \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreater(A, B);                                                   \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = ((A) != (B));                                                       \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From f24db1c81a0a4be7669808e0435a4c9ee51212c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 03/51] fix: do not wrap the exponent of the cancellation noise
 when it underflows

---
 .../interflop_cancellation.c                               | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..c40f46b 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -112,7 +112,12 @@ void cancellation_pop_seed() { rng_state = __rng_state; }
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
+  const int32_t e_n = (int32_t)b64.ieee.exponent + exp;
+  /* null draw or noise below the smallest normal number: no noise */
+  if (b64.ieee.exponent == 0 || e_n <= 0) {
+    return 0;
+  }
+  b64.ieee.exponent = e_n;
   return b64.f64;
 }
 
-- 
2.43.0


From 28b61191f69e6cf01cb99c64a8ec547a7df7b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 04/51] fix: do not wrap the exponent of the MCA noise on a
 null draw or underflow

---
 .../interflop-backend-mcaquad/interflop_mca.c      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 18f5031..5020c39 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -275,7 +275,12 @@ double _noise_binary64(int exp, rng_state_t *rng_state);
 inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  const int64_t e_n = (int64_t)b64.ieee.exponent + exp;
+  /* null draw or noise below the smallest normal number: no noise */
+  if (b64.ieee.exponent == 0 || e_n <= 0) {
+    return 0;
+  }
+  b64.ieee.exponent = e_n;
   return b64.f64;
 }
 
@@ -290,7 +295,12 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  const int64_t e_n = (int64_t)b128.ieee128.exponent + exp;
+  /* null draw or noise below the smallest normal number: no noise */
+  if (b128.ieee128.exponent == 0 || e_n <= 0) {
+    return 0;
+  }
+  b128.ieee128.exponent = e_n;
   return b128.f128;
 }
 
-- 
2.43.0


From 8382f387cfc632e10b40d99067949bd14fd0fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:35 +0000
Subject: [PATCH 05/51] fix: flush subnormal results of double to float
 conversions when ftz is requested

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 4 ++++
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 4 ++++
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..d502481 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -515,6 +515,10 @@ void INTERFLOP_BITMASK_API(fma_double)(double a, double b, double c,
 void INTERFLOP_BITMASK_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
   *res = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  /* the result is subnormal in the destination format */
+  if (((bitmask_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 const char *INTERFLOP_BITMASK_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index d753c25..ac9d36c 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -579,6 +579,10 @@ void INTERFLOP_MCAINT_API(fma_double)(double a, double b, double c, double *res,
 void INTERFLOP_MCAINT_API(cast_double_to_float)(double a, float *res,
                                                 void *context) {
   *res = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  /* the result is subnormal in the destination format */
+  if (((mcaint_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 const char *INTERFLOP_MCAINT_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 5020c39..b4d71ca 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -659,6 +659,10 @@ void INTERFLOP_MCAQUAD_API(fma_double)(double a, double b, double c,
 void INTERFLOP_MCAQUAD_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
   *res = _mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  /* the result is subnormal in the destination format */
+  if (((mcaquad_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 void _interflop_usercall_inexact(void *context, va_list ap) {
-- 
2.43.0


From 7ab4b13e9cce4b1c60717281ac0efab5ccfae89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 06/51] fix: no negative shift when VPREC rounds at full
 precision

---
 .../interflop-backend-vprec/common/vprec_tools.c       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-vprec/common/vprec_tools.c b/src/backends/interflop-backend-vprec/common/vprec_tools.c
index fb494fc..fc93495 100644
--- a/src/backends/interflop-backend-vprec/common/vprec_tools.c
+++ b/src/backends/interflop-backend-vprec/common/vprec_tools.c
@@ -40,6 +40,11 @@ inline static int check_if_binary32_needs_rounding(binary32 b32x,
                                                    int precision) {
   const uint32_t one = 1;
 
+  // At full precision no bit is discarded (and there is no halfway point).
+  if (precision >= FLOAT_PMAN_SIZE) {
+    return 0;
+  }
+
   // Create a mask to isolate the bits that will be rounded.
   const uint32_t trailing_bits_mask =
       (one << (FLOAT_PMAN_SIZE - precision)) - 1;
@@ -103,6 +108,11 @@ inline static int check_if_binary64_needs_rounding(binary64 b64x,
                                                    int precision) {
   const uint64_t one = 1;
 
+  // At full precision no bit is discarded (and there is no halfway point).
+  if (precision >= DOUBLE_PMAN_SIZE) {
+    return 0;
+  }
+
   // Create a mask to isolate the bits that will be rounded.
   const uint64_t trailing_bits_mask =
       (one << (DOUBLE_PMAN_SIZE - precision)) - 1;
-- 
2.43.0


From bee1f21735a147d05dc1c19c90d0d44c560328aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 07/51] fix: give each backend its own argument list in
 function enter/exit hooks

A va_list consumed by the first backend's hook was passed on to the
next one, which then read past the arguments (undefined behaviour,
segmentation fault with two backends implementing the hooks).
---
 src/vfcwrapper/funcinstr.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..ec9293b 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -139,16 +139,17 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+      if (backends[i].interflop_enter_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        // each backend reads the arguments from the first one
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 }
 
@@ -160,16 +161,17 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+      if (backends[i].interflop_exit_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        // each backend reads the arguments from the first one
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From e017c1eeda717ecb63b6dcaf47a962568cdf7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 08/51] fix: restore the caller's precision across functions
 without floating-point operations

On function exit VPREC restored the precision of the direct parent only
when that parent was itself in the function map. A parent without
floating-point operations never enters the map (and a library parent was
skipped), so its own caller went on computing with the precision of the
function that had just returned.
---
 ...interflop_vprec_function_instrumentation.c | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..0ddcd2d 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -717,22 +717,27 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   _vfi_t *function_inst = vfc_hashmap_get(
       ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
 
-  // set internal operations precision with parent function values
-  if (stack->array[stack->top + 1] != NULL) {
-    interflop_function_info_t *parent_info = stack->array[stack->top + 1];
-
-    if (!parent_info->isLibraryFunction && !parent_info->isIntrinsicFunction &&
-        ctx->vfi->vprec_inst_mode != vprecinst_arg &&
-        ctx->vfi->vprec_inst_mode != vprecinst_none) {
+  // set internal operations precision with the values of the closest calling
+  // function whose operations are instrumented: functions without
+  // floating-point operations never enter the map, and library functions keep
+  // the precision of their caller
+  if (ctx->vfi->vprec_inst_mode != vprecinst_arg &&
+      ctx->vfi->vprec_inst_mode != vprecinst_none) {
+    for (interflop_function_info_t **parent = &stack->array[stack->top + 1];
+         *parent != NULL; parent++) {
+      if ((*parent)->isLibraryFunction || (*parent)->isIntrinsicFunction) {
+        continue;
+      }
 
       _vfi_t *function_parent = vfc_hashmap_get(
-          ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
+          ctx->vfi->map, vfc_hashmap_str_function((*parent)->id));
 
       if (function_parent != NULL) {
         _set_vprec_precision_binary64(function_parent->OpsPrec64, ctx);
         _set_vprec_range_binary64(function_parent->OpsRange64, ctx);
         _set_vprec_precision_binary32(function_parent->OpsPrec32, ctx);
         _set_vprec_range_binary32(function_parent->OpsRange32, ctx);
+        break;
       }
     }
   }
-- 
2.43.0


From cb09ed1483e96b59994dc14d5b72350cf279d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:59 +0000
Subject: [PATCH 09/51] fix: allow the VPREC backend to be loaded more than
 once

The reading buffers and the log file are shared by all instances of the
backend; finalising the second instance freed and closed them again.
---
 .../interflop_vprec_function_instrumentation.c             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 0ddcd2d..5d5341d 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -54,8 +54,10 @@ static const char key_log_file_str[] = "prec-log-file";
 
 #define FREE_STRING(A, N)                                                      \
   for (int i = 0; i < N; i++)                                                  \
-    if ((A)[i])                                                                \
-      interflop_free((A)[i]);
+    if ((A)[i]) {                                                              \
+      interflop_free((A)[i]);                                                  \
+      (A)[i] = NULL;                                                           \
+    }
 
 const int elt_to_read_header = 12;
 const int elt_to_read_inputs = 7;
@@ -408,6 +410,7 @@ void _vfi_finalize(void *context) {
   /* close log file */
   if (_vprec_log_file != NULL) {
     interflop_fclose(_vprec_log_file);
+    _vprec_log_file = NULL;
   }
 
   /* free vprec_function_map */
-- 
2.43.0


From 1157404ac0d51796f478c7fa898189850160a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:59 +0000
Subject: [PATCH 10/51] fix: keep room for the terminating NULL in the backend
 argument vector

A backend given exactly MAX_ARGS arguments had the terminator written
one past the end of backend_argv.
---
 src/vfcwrapper/main.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..9177f4e 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -463,7 +463,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-      if (backend_argc >= MAX_ARGS) {
+      if (backend_argc >= MAX_ARGS - 1) {
         logger_error("%s syntax error: too many arguments", vfc_backends_env);
       }
       backend_argv[backend_argc++] = arg;
-- 
2.43.0


From 48d17f39ae2164bae4e388af78defda3f7b026e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:01 +0000
Subject: [PATCH 11/51] fix: refuse backend option values that do not fit the
 setting instead of truncating them

---
 .../interflop-backend-bitmask/interflop_bitmask.c   |  9 +++++----
 .../interflop_cancellation.c                        |  5 +++--
 .../interflop-backend-mcaint/interflop_mca_int.c    |  6 +++---
 .../interflop-backend-mcaquad/interflop_mca.c       | 13 +++++++------
 .../interflop-backend-vprec/interflop_vprec.c       | 13 +++++++------
 5 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index d502481..6241c5f 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <mpfr.h>
 #include <stdbool.h>
@@ -553,8 +554,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
@@ -566,8 +567,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index c40f46b..cbc9fb3 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -224,8 +225,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_TOLERANCE:
     /* tolerance */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val < 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val < 0 || val > INT_MAX) {
       logger_error("--tolerance invalid value provided, must be a"
                    "positive integer.");
     } else {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index ac9d36c..36d0f6b 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -661,7 +661,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaint_context_t *ctx = (mcaint_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = -1;
   uint64_t seed = -1;
@@ -669,7 +669,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY32_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
@@ -680,7 +680,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY64_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b4d71ca..02f60f9 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -58,6 +58,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <pthread.h>
 #include <stdbool.h>
@@ -793,7 +794,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaquad_context_t *ctx = (mcaquad_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = MCAQUAD_SPARSITY_DEFAULT;
   uint64_t seed = MCAQUAD_SEED_DEFAULT;
@@ -802,8 +803,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b32_str);
     } else {
@@ -813,8 +814,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b64_str);
     } else {
@@ -861,7 +862,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     exponent_error = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exponent_error < INT_MIN || exponent_error > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     }
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index d79eed3..c14722a 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -26,6 +26,7 @@
 //
 
 #include <argp.h>
+#include <limits.h>
 #include <math.h>
 
 #include "common/vprec_tools.h"
@@ -894,7 +895,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   vprec_context_t *ctx = (vprec_context_t *)state->input;
   state->child_inputs[0] = ctx;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int precision = 0;
   int range = 0;
   int error = 0;
@@ -903,7 +904,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -919,7 +920,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -935,7 +936,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -951,7 +952,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -1001,7 +1002,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     long exp = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exp < INT_MIN || exp > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     } else {
-- 
2.43.0


From 91dfd9fe5c8224cc148f5fc41dfb4e6b9dd0149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:05 +0000
Subject: [PATCH 12/51] fix: refuse a sparsity outside (0, 1] in the MCA
 backends

---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 36d0f6b..170c2f7 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -729,7 +729,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0 || sparsity > 1) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 02f60f9..b56165e 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -890,11 +890,11 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
-      logger_error("--%s invalid value provided, must be positive",
+      logger_error("--%s invalid value provided, must be in (0, 1]",
                    key_sparsity_str);
     }
     _set_mcaquad_sparsity(sparsity, ctx);
-- 
2.43.0


From 45fab94c4608aaff4ab01a0a66bd68eae74beadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:10 +0000
Subject: [PATCH 13/51] fix: report text that is not a number to the backends
 reading an option

---
 src/vfcwrapper/main.c.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 9177f4e..7d4e152 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -296,11 +296,16 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
   }
 }
 
+/* A number must be followed by nothing but blanks */
+static int _vfc_is_number(const char *nptr, const char *endptr) {
+  return endptr != nptr && endptr[strspn(endptr, " \t\r\n")] == '\0';
+}
+
 long _vfc_strtol(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   long val = strtoll(nptr, endptr, 10);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_number(nptr, *endptr)) {
     *error = 1;
   }
   return val;
@@ -310,7 +315,7 @@ double _vfc_strtod(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   double val = strtod(nptr, endptr);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_number(nptr, *endptr)) {
     *error = 1;
   }
   return val;
-- 
2.43.0


From 7a0f97e83ce0d1c49fdfd71c1a0579904514f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:10 +0000
Subject: [PATCH 14/51] fix: start the bitmask backend at the documented full
 precision

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.h b/src/backends/interflop-backend-bitmask/interflop_bitmask.h
index 35808cd..27cef11 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.h
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.h
@@ -22,8 +22,8 @@
 #define BITMASK_PRECISION_BINARY64_MIN 1
 #define BITMASK_PRECISION_BINARY32_MAX FLOAT_PMAN_SIZE
 #define BITMASK_PRECISION_BINARY64_MAX DOUBLE_PMAN_SIZE
-#define BITMASK_PRECISION_BINARY32_DEFAULT FLOAT_PMAN_SIZE
-#define BITMASK_PRECISION_BINARY64_DEFAULT DOUBLE_PMAN_SIZE
+#define BITMASK_PRECISION_BINARY32_DEFAULT FLOAT_PREC
+#define BITMASK_PRECISION_BINARY64_DEFAULT DOUBLE_PREC
 #define BITMASK_OPERATOR_DEFAULT bitmask_operator_zero
 #define BITMASK_MODE_DEFAULT bitmask_mode_ob
 #define BITMASK_SEED_DEFAULT 0ULL
-- 
2.43.0


From 17fae59cfac2f73c6087b5c758171a91f4c5f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 15/51] fix: use the result of the wrapper when its type needs
 a cast

updateReturn casts a result whose type in the wrapper's signature differs
from the instruction's (<2 x float> is returned as double on x86-64). The
cast is not a CallInst, so dyn_cast gave a null pointer and the original,
uninstrumented, instruction was kept.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0d4a1f7..836036a 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -450,9 +450,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace fma arithmetic instructions with MCA */
@@ -472,9 +470,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace comparison instructions with MCA */
@@ -517,9 +513,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, dstType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, dstType);
   }
 
   /* Returns the MCA function */
-- 
2.43.0


From 1757594a14654988b6cac206357181271811c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:48 +0000
Subject: [PATCH 16/51] fix: give back the vector type of a two-lane comparison
 before narrowing it

The wrapper of a <2 x float> comparison returns its two integers as a
double on x86-64; narrowing that double directly built an invalid module
and aborted the compilation.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 836036a..c2318b0 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -493,8 +493,9 @@ struct VfclibInst : public ModulePass {
       auto size = ((::llvm::FixedVectorType *)vTy)->getNumElements();
       res = GET_VECTOR_TYPE(res, size);
     }
-    Value *newInst = Builder.CreateCall(
+    CallInst *newCall = Builder.CreateCall(
         F, {Builder.getInt32(FCI->getPredicate()), op1, op2});
+    Value *newInst = updateReturn(Builder, newCall, res);
     newInst = Builder.CreateIntCast(newInst, retType, true);
     return newInst;
   }
-- 
2.43.0


From 63b7cae71f2afac59c7c45dcdbd8b385814c2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:43 +0000
Subject: [PATCH 17/51] fix: keep the parameter attributes of the wrapper on
 comparison calls

As the arithmetic calls already do. Without byval on the call, the
optimiser drops the copies of vector operands passed in memory and a
16-lane binary64 comparison compares garbage at -O2.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index c2318b0..952d752 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -495,6 +495,7 @@ struct VfclibInst : public ModulePass {
     }
     CallInst *newCall = Builder.CreateCall(
         F, {Builder.getInt32(FCI->getPredicate()), op1, op2});
+    newCall->setAttributes(F->getAttributes());
     Value *newInst = updateReturn(Builder, newCall, res);
     newInst = Builder.CreateIntCast(newInst, retType, true);
     return newInst;
-- 
2.43.0


From 7ddfe847383066a34815860f1dda562faa7ac3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:03 +0000
Subject: [PATCH 18/51] fix: raise the legal vector width of functions that
 call wide wrappers

A function compiled for a cpu that prefers 256-bit vectors splits a
512-bit operand into two registers, while the wrapper, which takes such
operands, reads one: with -march=native the upper lanes were garbage.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 952d752..e4b70f0 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -558,6 +558,20 @@ struct VfclibInst : public ModulePass {
       caller->addFnAttr(target_cpu);
     }
 
+    // A caller with a smaller legal vector width would pass wide vectors in
+    // smaller registers than the ones the wrapper reads them from.
+    const char *minWidth = "min-legal-vector-width";
+    if (caller->hasFnAttribute(minWidth)) {
+      unsigned callerWidth = 0, calleeWidth = 0;
+      Attribute calleeAttr = mcaFunction->getFnAttribute(minWidth);
+      caller->getFnAttribute(minWidth).getValueAsString().getAsInteger(
+          0, callerWidth);
+      calleeAttr.getValueAsString().getAsInteger(0, calleeWidth);
+      if (callerWidth < calleeWidth) {
+        caller->addFnAttr(calleeAttr);
+      }
+    }
+
     // We call directly a hardcoded helper function
     // no need to go through the vtable at this stage.
     Value *newInst;
-- 
2.43.0


From b674965ac8e3dc9c90eb18376986afc460bb774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:03 +0000
Subject: [PATCH 19/51] fix: align the target of a caller that differs only in
 its features

A function built with -march=native -mno-avx512f has the cpu of the
wrapper but not its features; wide vectors were then passed in other
registers than the ones the wrapper reads.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index e4b70f0..e7de6a5 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -533,7 +533,7 @@ struct VfclibInst : public ModulePass {
   // passed Available in TargetTransformInfoImpl since llvm-8
   bool areFunctionArgsABICompatible(Function *caller, Function *callee) {
     return (callee->getFnAttribute("target-features") !=
-            caller->getFnAttribute("target-features")) and
+            caller->getFnAttribute("target-features")) or
            (callee->getFnAttribute("target-cpu") !=
             caller->getFnAttribute("target-cpu"));
   }
-- 
2.43.0


From 29583b758ec1d7cba225a9e802dcd22520986b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 20/51] fix: quote options given to the compiler driver

An option containing a single quote ended the quoting of the command line.
---
 verificarlo.in.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c9be680..3408b9b 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -23,6 +23,7 @@ from __future__ import print_function
 
 import argparse
 import os
+import shlex
 import subprocess
 import sys
 import tempfile
@@ -125,7 +126,7 @@ def is_llvm_bitcode(name):
 
 def shell_escape(argument):
     # prevents argument expansion in shell call
-    return "'" + argument + "'"
+    return shlex.quote(argument)
 
 
 def parse_extra_args(args):
-- 
2.43.0


From 4eab420390ccd438976b6a7b41b541e3ecac11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 21/51] fix: compiler driver takes options ending like a source
 file for a source

-DFILE=foo.c was compiled as if it were a source file.
---
 verificarlo.in.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 3408b9b..08403e6 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -135,7 +135,11 @@ def parse_extra_args(args):
     libraries = []
 
     for a in args:
-        if is_fortran(a):
+        if a.startswith("-l"):
+            libraries.append(a)
+        elif a.startswith("-"):
+            options.append(shell_escape(a))
+        elif is_fortran(a):
             if not flang:
                 fail(
                     "fortran not supported. "
@@ -150,8 +154,6 @@ def parse_extra_args(args):
             sources.append(a)
         elif is_llvm_bitcode(a):
             sources.append(a)
-        elif a.startswith("-l"):
-            libraries.append(a)
         else:
             options.append(shell_escape(a))
 
-- 
2.43.0


From 3476e3844718d96f836ba4b213a1a1fdc8d55d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 22/51] fix: refuse --emit-llvm with -o and several sources

Each source overwrote the output of the previous one.
---
 verificarlo.in.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 08403e6..96aff1a 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -508,7 +508,7 @@ def main():
     args, sources, llvm_options, libraries = parse_args()
 
     # check input files
-    if (args.E or args.S or args.c) and len(sources) > 1 and args.o:
+    if (args.E or args.S or args.c or args.emit_llvm) and len(sources) > 1 and args.o:
         fail("cannot specify -o when generating multiple output files")
 
     # check mutually excluding args
-- 
2.43.0


From 43569a2e67eaae9bbbe33d00f10071115b79c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 23/51] fix: instrument .c++ sources

The extension lacked its dot, so the file was handed to the linker
and compiled without instrumentation.
---
 verificarlo.in.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 96aff1a..e08093c 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -50,7 +50,7 @@ flang = "@FLANG_PATH@"
 opt = llvm_bindir + "/opt"
 FORTRAN_EXTENSIONS = [".f", ".f90", ".f77"]
 C_EXTENSIONS = [".c"]
-CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", "c++"]
+CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", ".c++"]
 ASSEMBLY_EXTENSIONS = [".s"]
 LLVM_BITCODE_EXTENSIONS = [".bc", ".ll"]
 COMPILE_EXTRA_FLAGS = ""
-- 
2.43.0


From b8a24968cdeaebfa588a2f42f68b5ed60a143695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 24/51] fix: compiler driver reports missing input files when
 linking

The test looked at the options after the driver had added its own.
---
 verificarlo.in.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index e08093c..3d0db13 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -517,6 +517,8 @@ def main():
 
     output = "-o " + args.o if args.o else ""
 
+    has_options = len(llvm_options) > 0
+
     # flang does not accept this clang-only diagnostic flag (LLVM 21+).
     if args.linker != "flang":
         llvm_options += " -Wno-unused-command-line-argument "
@@ -532,7 +534,7 @@ def main():
             fail("no input files")
         compiler_mode(sources, llvm_options, output, args)
     else:
-        if len(sources) == 0 and len(llvm_options) == 0:
+        if len(sources) == 0 and not has_options:
             fail("no input files")
         compiler_mode(sources, llvm_options, "", args)
         linker_mode(sources, llvm_options, libraries, output, args)
-- 
2.43.0


From 9c7a7c6a5e0007e2b3e6259025e41546b204840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:12 +0000
Subject: [PATCH 25/51] fix: ddebug: record the result of every sample run in
 parallel

With INTERFLOP_DD_NUM_THREADS set, runPar started all the samples of a
configuration but returned at the first one rejected, leaving the run
directories of the others without a returnVal file. The next test of the
same configuration then stopped on FileNotFoundError.
---
 src/tools/ddebug/DD_stoch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 7b7c2e5..295913e 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -140,11 +140,12 @@ class InterflopTask:
         for run in workToDo:
             self.mkdir(run)
             self.runOneSample(run)
-        for run in workToDo:
-            retVal = self.cmpOneSample(run)
+        # every sample has been started: compare them all, so that none is left
+        # without a result
+        results = [self.cmpOneSample(run) for run in workToDo]
 
-            if retVal == "FAIL":
-                return self.FAIL
+        if self.FAIL in results:
+            return self.FAIL
 
         return self.PASS
 
-- 
2.43.0


From f09df132c2e7227920a485f13f348a1b7aa5f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:12 +0000
Subject: [PATCH 26/51] fix: ddebug: compute again the samples left incomplete
 by an interruption

When the search is stopped while a sample is running, its run directory has
no returnVal file (or an empty one); restarting the search with the cache
then stopped on an exception instead of resuming.
---
 src/tools/ddebug/DD_stoch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 295913e..f4b25b8 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -95,8 +95,13 @@ class InterflopTask:
             self.dirname) if runDir.startswith("dd.run")]
         done = []
         for runDir in listOfDir:
-            status = int(
-                (open(os.path.join(self.dirname, runDir, "returnVal")).readline()))
+            try:
+                with open(os.path.join(self.dirname, runDir, "returnVal")) as f:
+                    status = int(f.readline())
+            except (OSError, ValueError):
+                # the sample was interrupted: it has to be computed again
+                shutil.rmtree(os.path.join(self.dirname, runDir))
+                continue
             if status != 0:
                 return None
             done += [runDir]
-- 
2.43.0


From 3bede99ab8c407ca0d18818d29b34e06024d3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:12 +0000
Subject: [PATCH 27/51] fix: ddebug: write the inclusion files of a resumed
 configuration

The include/exclude files were only written when the directory of the
configuration did not exist. After an interruption between the creation of
the directory and the end of the writing, the restarted search ran the
samples with missing or truncated files, hence on another configuration.
---
 src/tools/ddebug/DD_stoch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index f4b25b8..04f569a 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -554,10 +554,9 @@ class DDStoch(DD.DD):
             nbRun = self.config_.get_nbRUN()
 
         dirname = os.path.join(self.prefix_, md5Name(deltas))
-        if not os.path.exists(dirname):
-            os.makedirs(dirname)
-            self.genExcludeIncludeFile(
-                dirname, deltas, include=True, exclude=True)
+        os.makedirs(dirname, exist_ok=True)
+        self.genExcludeIncludeFile(
+            dirname, deltas, include=True, exclude=True)
 
         vT = InterflopTask(dirname, self.ref_, self.run_, self.compare_,
                            nbRun, self.config_.get_maxNbPROC(), self.sampleRunEnv(dirname))
-- 
2.43.0


From a2c452ab7b434e7343796f3964e5b56b9d0a5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 28/51] fix: reject VPREC profile lines with too many or too
 few fields

The tokens of a line were copied without any bound on their number or
their length, and the fields of incomplete lines were used before the
number of tokens was checked.
---
 ...interflop_vprec_function_instrumentation.c | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 5d5341d..0ad81c7 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,8 +45,8 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
 #define LINE_MAX_SIZE 2048
+#define STRING_BUFF LINE_MAX_SIZE
 
 #define INIT_STRING(A, N)                                                      \
   for (int i = 0; i < (N); i++)                                                \
@@ -217,15 +217,22 @@ long _vfi_scan_int(char *token, const char *field) {
   }
   return res;
 }
-int _vfi_scan_line(FILE *fi, char **tokens) {
+
+/* Split the next line of the file in at most max_token tokens */
+/* return the number of tokens of the line, 0 at the end of the file */
+int _vfi_scan_line(FILE *fi, char **tokens, int max_token) {
   char line[LINE_MAX_SIZE];
-  interflop_fgets(line, LINE_MAX_SIZE, fi);
+  if (interflop_fgets(line, LINE_MAX_SIZE, fi) == NULL) {
+    return 0;
+  }
   char *tabptr = NULL;
   char *token = interflop_strtok_r(line, "\t", &tabptr);
   int nb_token = 0;
 #pragma unroll
   while (token) {
-    interflop_strcpy(tokens[nb_token], token);
+    if (nb_token < max_token) {
+      interflop_strcpy(tokens[nb_token], token);
+    }
     nb_token++;
     token = interflop_strtok_r(NULL, "\t", &tabptr);
   }
@@ -233,7 +240,7 @@ int _vfi_scan_line(FILE *fi, char **tokens) {
 }
 
 int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
-  int nb_token = _vfi_scan_line(fi, tokens_header);
+  int nb_token = _vfi_scan_line(fi, tokens_header, elt_to_read_header);
   if (nb_token != elt_to_read_header) {
     return nb_token;
   }
@@ -259,7 +266,11 @@ int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
 }
 
 int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_inputs);
+  int nb_token = _vfi_scan_line(fi, tokens_inputs, elt_to_read_inputs);
+  if (nb_token != elt_to_read_inputs) {
+    return nb_token;
+  }
+
   _vfi_argument_data_t *arg_data = &function_ptr->input_args[arg_pos];
 
   // tokens[0] == "input:"
@@ -276,7 +287,11 @@ int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
 }
 
 int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_outputs);
+  int nb_token = _vfi_scan_line(fi, tokens_outputs, elt_to_read_outputs);
+  if (nb_token != elt_to_read_outputs) {
+    return nb_token;
+  }
+
   _vfi_argument_data_t *arg_data = &function_ptr->output_args[arg_pos];
 
   // tokens[0] == "output:"
-- 
2.43.0


From f5ee2e0cd5003f3bd98f42724fe9a72a96ad5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 29/51] fix: check the length of VPREC function and argument
 identifiers

Identifiers longer than the fields of the map, from a profile or from
the instrumented program, overran them.
---
 ...interflop_vprec_function_instrumentation.c | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 0ad81c7..6019e6e 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -204,6 +204,20 @@ void _vfi_write_hasmap(FILE *fout, vprec_context_t *ctx) {
   }
 }
 
+/* Helper function copying the identifier of a function or an argument */
+/* call logger_error if it does not fit in the destination */
+static void _vfi_copy_id(char *dest, const char *id, size_t size) {
+  size_t length = 0;
+  while (id[length] != '\0') {
+    length++;
+  }
+  if (length >= size) {
+    logger_error("Identifier too long (at most %d characters): %s\n",
+                 (int)size - 1, id);
+  }
+  interflop_strcpy(dest, id);
+}
+
 /* Helper function scanning an integer */
 /* return the integer upon success */
 /* otherwise call logger_error  */
@@ -245,7 +259,7 @@ int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
     return nb_token;
   }
 
-  interflop_strcpy(function_ptr->id, tokens_header[0]);
+  _vfi_copy_id(function_ptr->id, tokens_header[0], sizeof(function_ptr->id));
   function_ptr->isLibraryFunction =
       (char)_vfi_scan_int(tokens_header[1], "isLibraryFunction");
   function_ptr->isIntrinsicFunction =
@@ -274,7 +288,7 @@ int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
   _vfi_argument_data_t *arg_data = &function_ptr->input_args[arg_pos];
 
   // tokens[0] == "input:"
-  interflop_strcpy(arg_data->arg_id, tokens_inputs[1]);
+  _vfi_copy_id(arg_data->arg_id, tokens_inputs[1], sizeof(arg_data->arg_id));
   arg_data->data_type = (short)_vfi_scan_int(tokens_inputs[2], "data_type");
   arg_data->mantissa_length =
       (int)_vfi_scan_int(tokens_inputs[3], "mantissa_length");
@@ -295,7 +309,7 @@ int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
   _vfi_argument_data_t *arg_data = &function_ptr->output_args[arg_pos];
 
   // tokens[0] == "output:"
-  interflop_strcpy(arg_data->arg_id, tokens_outputs[1]);
+  _vfi_copy_id(arg_data->arg_id, tokens_outputs[1], sizeof(arg_data->arg_id));
   arg_data->data_type = (short)_vfi_scan_int(tokens_outputs[2], "data_type");
   arg_data->mantissa_length =
       (int)_vfi_scan_int(tokens_outputs[3], "mantissa_length");
@@ -442,7 +456,7 @@ void _vfi_finalize(void *context) {
 void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              enum FTYPES type) {
   arg->data_type = type;
-  interflop_strcpy(arg->arg_id, arg_id);
+  _vfi_copy_id(arg->arg_id, arg_id, sizeof(arg->arg_id));
   arg->min_range = INT_MAX;
   arg->max_range = INT_MIN;
   arg->exponent_length = (type == FDOUBLE || type == FDOUBLE_PTR)
@@ -581,7 +595,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst = interflop_malloc(sizeof(_vfi_t));
 
     // initialize the structure
-    interflop_strcpy(function_inst->id, function_info->id);
+    _vfi_copy_id(function_inst->id, function_info->id, sizeof(function_inst->id));
     function_inst->isLibraryFunction = function_info->isLibraryFunction;
     function_inst->isIntrinsicFunction = function_info->isIntrinsicFunction;
     function_inst->useFloat = function_info->useFloat;
-- 
2.43.0


From f2244f76fa4d88c03f4764c847889bda5831ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 30/51] fix: reject VPREC profiles with too few arguments for a
 function

The arguments of a call were looked up in the arrays read from the
profile whatever their size.
---
 .../interflop_vprec_function_instrumentation.c         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 6019e6e..76bc1e2 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -646,6 +646,11 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst->nb_input_args = nb_args;
   }
 
+  if (nb_args > function_inst->nb_input_args) {
+    logger_error("Wrong number of input arguments for %s: %d expected\n",
+                 function_inst->id, nb_args);
+  }
+
   // boolean which indicates if arguments should be rounded or not depending on
   // modes
   int mode_flag =
@@ -789,6 +794,11 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
     function_inst->nb_output_args = nb_args;
   }
 
+  if (nb_args > function_inst->nb_output_args) {
+    logger_error("Wrong number of output arguments for %s: %d expected\n",
+                 function_inst->id, nb_args);
+  }
+
   // boolean which indicates if arguments should be rounded or not depending on
   // modes
   int mode_flag =
-- 
2.43.0


From 839e88852c4dfa478dda4201ac0f249277fce095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:23 +0000
Subject: [PATCH 31/51] fix: check the length of VFC_BACKENDS_LOGFILE

The name of the log file was formatted into a fixed-size buffer whatever
its length.
---
 src/interflop-stdlib/iostream/logger.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/interflop-stdlib/iostream/logger.c b/src/interflop-stdlib/iostream/logger.c
index 7088e6e..e14fa6c 100644
--- a/src/interflop-stdlib/iostream/logger.c
+++ b/src/interflop-stdlib/iostream/logger.c
@@ -188,6 +188,15 @@ void set_logger_logfile() {
   } else {
     /* Create log File specific to TID to avoid non-deterministic output */
     char tmp[1024];
+    const int tid_max_length = 12; /* dot, sign and digits of the TID */
+    size_t length = 0;
+    while (logger_logfile_env[length] != '\0') {
+      length++;
+    }
+    if (length + tid_max_length >= sizeof(tmp)) {
+      _interflop_err(EXIT_FAILURE, "Error [%s]: %s is too long\n",
+                     backend_header, vfc_backends_logfile);
+    }
     int r =
         interflop_sprintf(tmp, "%s.%d", logger_logfile_env, interflop_gettid());
     if (r < 0) {
-- 
2.43.0


From 4d0c804675a5e743f6349e9eafdac68111738a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:23 +0000
Subject: [PATCH 32/51] fix: check the length of VPREC function and argument
 identifiers (formatting)

---
 .../interflop_vprec_function_instrumentation.c                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 76bc1e2..b222530 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -595,7 +595,8 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst = interflop_malloc(sizeof(_vfi_t));
 
     // initialize the structure
-    _vfi_copy_id(function_inst->id, function_info->id, sizeof(function_inst->id));
+    _vfi_copy_id(function_inst->id, function_info->id,
+                 sizeof(function_inst->id));
     function_inst->isLibraryFunction = function_info->isLibraryFunction;
     function_inst->isIntrinsicFunction = function_info->isIntrinsicFunction;
     function_inst->useFloat = function_info->useFloat;
-- 
2.43.0


From c3b0d8711398b62f722467825e6a5879fa0f33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:02 +0000
Subject: [PATCH 33/51] fix: precexp: write all the fields of the arguments in
 the profile

The VPREC backend refuses the profiles written by vfc_precexp because the
range of the arguments was missing, so that no configuration ever ran.
---
 src/tools/optimize/precexp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3dae93c..a5079fb 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -286,12 +286,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
-- 
2.43.0


From ad4f5017ca1b79d2d92a682b39f388d57655049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:56 +0000
Subject: [PATCH 34/51] fix: precexp: end the search when the largest precision
 is refused

The dichotomic search looped forever on the largest value, for instance
when the flushing of subnormals is already enough to change the result.
---
 src/tools/optimize/precexp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index a5079fb..95846c0 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -371,6 +371,9 @@ def dich_search_operations(
                     break
                 r = p
             else:
+                # even the largest value is refused, keep it
+                if p >= r:
+                    break
                 l = p + 1
 
 
@@ -508,6 +511,9 @@ def dich_search_arguments(
                     break
                 r = p
             else:
+                # even the largest value is refused, keep it
+                if p >= r:
+                    break
                 l = p + 1
 
 
-- 
2.43.0


From a4490e1e63fce59f4ca96d917c802564d91472de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:56 +0000
Subject: [PATCH 35/51] fix: precexp: apply --maxTimeout

The option only set a local variable of main, and was then to be taken as
a number of seconds instead of the documented milliseconds.
---
 src/tools/optimize/precexp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 95846c0..d0641dd 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -598,6 +598,8 @@ def search_minimum_arguments(
 
 
 def main():
+    global vfc_maxTimeout, vfc_mode, vfc_vprec_mode
+
     parser = argparse.ArgumentParser(
         description="The vfc_precexp script tries "
         "to minimize the precision for each function "
@@ -637,7 +639,7 @@ def main():
     vfc_vprec_mode = args[0].vprec_mode
     vfc_mode = args[0].mode
     if args[0].maxTimeout != None:
-        vfc_maxTimeout = int(args[0].maxTimeout)
+        vfc_maxTimeout = args[0].maxTimeout / 1000
 
     function_list = args[1]
 
-- 
2.43.0


From 0394e712eb27cc155d8b43570863c254c80ac24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:37 +0000
Subject: [PATCH 36/51] fix: precexp: recognise pointer arguments by their type
 in the profile

The types of float and double pointers are 3 and 4 since quad types were
inserted in the enumeration: float pointers were explored with the ranges
of double and double pointers were not explored.
---
 src/tools/optimize/precexp.py | 4 ++--
 src/tools/optimize/report.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index d0641dd..1805c5d 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -531,7 +531,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -564,7 +564,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 8661bd4..bf9a52d 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -321,7 +321,7 @@ def PlotArgs(Data, ImgID, Title):
             xtick.append(Data.at[i, "IO"] + " Float " + Data.at[i, "ArgID"])
         elif Data.at[i, "Type"] == 1:
             xtick.append(Data.at[i, "IO"] + " Double " + Data.at[i, "ArgID"])
-        elif Data.at[i, "Type"] == 2:
+        elif Data.at[i, "Type"] == 3:
             xtick.append(Data.at[i, "IO"] + " Float ptr " + Data.at[i, "ArgID"])
         else:
             xtick.append(Data.at[i, "IO"] + " Double ptr " + Data.at[i, "ArgID"])
-- 
2.43.0


From 74b94eff019b1578b5074318b24dd22ee7cc9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:42 +0000
Subject: [PATCH 37/51] fix: precexp: do not block when the scripts print more
 than a pipe holds

---
 src/tools/optimize/precexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 1805c5d..b08a259 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -55,7 +55,7 @@ def shell(cmd, newEnv, maxTimeout=None):
     for cmdEntry in cmdSplit:
         cmdNew = cmdNew + " " + cmdEntry.strip()
 
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
-- 
2.43.0


From fdee873201aff785431b354386a6eac6e28d6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:36 +0000
Subject: [PATCH 38/51] fix: vfc_ci: read the names and the special values of
 the probes as they were written

---
 src/tools/ci/test.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 75aa76c..4f38405 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -22,6 +22,7 @@
 # It will also generate a ... .vfcrunh5 file with the results of the run
 
 import calendar
+import csv
 import json
 import os
 
@@ -53,7 +54,10 @@ def read_probes_csv(filepath, warnings, execution_data):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
-        results = pd.read_csv(filepath)
+        # Names and values are read back as they were written
+        results = pd.read_csv(
+            filepath, dtype=str, keep_default_na=False, quoting=csv.QUOTE_NONE
+        )
 
     except FileNotFoundError:
         print(
-- 
2.43.0


From 43c1d070f33974fa3e8180ef9f8e392a4aecd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:36 +0000
Subject: [PATCH 39/51] fix: vfc_probes: refuse line breaks in the names of the
 probes

---
 src/common/vfc_probes.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 5f066ca..7b02052 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -63,7 +63,7 @@ void vfc_free_probes(vfc_probes *probes);
 // Helper function to generate the key from test and variable name
 char *gen_probe_key(char *testName, char *varName);
 
-// Helper function to detect forbidden character ',' in the keys
+// Helper function to detect forbidden characters (',', '\n', '\r') in the keys
 void validate_probe_key(char *str);
 
 // Add a new probe. If an issue with the key is detected (forbidden characters
@@ -127,15 +127,16 @@ char *gen_probe_key(char *testName, char *varName) {
   return key;
 }
 
-// Helper function to detect forbidden character ',' in the keys
+// Helper function to detect forbidden characters (',', '\n', '\r') in the keys
 void validate_probe_key(char *str) {
   unsigned int len = strlen(str);
 
   for (unsigned int i = 0; i < len; i++) {
-    if (str[i] == ',') {
+    if (str[i] == ',' || str[i] == '\n' || str[i] == '\r') {
       fprintf(stderr,
-              "Error [verificarlo]: One of your probes has a ',' in its test \
-                or variable name (\"%s\"), which is forbidden\n",
+              "Error [verificarlo]: One of your probes has a ',' or a line \
+                break in its test or variable name (\"%s\"), which is \
+                forbidden\n",
               str);
       exit(1);
     }
@@ -151,8 +152,8 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
     return 1;
   }
 
-  // Make sure testName and varName don't contain any ',', which would
-  // interfere with the key/CSV encoding
+  // Make sure testName and varName don't contain any ',' or line break, which
+  // would interfere with the key/CSV encoding
   validate_probe_key(testName);
   validate_probe_key(varName);
 
-- 
2.43.0


From 9569d7fd44f5b5b32de8645d3143ec7ef6574ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 40/51] fix: vfc_probes: detect duplicate probes whose hash is
 shared with another probe

---
 src/common/vfc_probes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 7b02052..0b5657b 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -160,12 +160,15 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   // Get the key, which is : testName + "," + varName
   char *key = gen_probe_key(testName, varName);
 
-  // Look for a duplicate key
+  // Look for a duplicate key. Several keys can share the same hash, so all the
+  // probes are compared when the hash is already present.
   vfc_probe_node *oldProbe = (vfc_probe_node *)vfc_hashmap_get(
       probes->map, vfc_hashmap_str_function(key));
 
-  if (oldProbe != NULL) {
-    if (strcmp(key, oldProbe->key) == 0) {
+  for (size_t i = 0; oldProbe != NULL && i < probes->map->capacity; i++) {
+    vfc_probe_node *probe =
+        (vfc_probe_node *)get_value_at(probes->map->items, i);
+    if (probe != NULL && strcmp(key, probe->key) == 0) {
       fprintf(stderr,
               "Error [verificarlo]: you have a duplicate error with one of \
               your probes (\"%s\"). Please make sure to use different names.\n",
-- 
2.43.0


From c8c3a0a78bc3b0a6b0a05b24e693b0f865c729b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 41/51] fix: vfc_ci: validate the deterministic probes as soon
 as one of them has a check

---
 src/tools/ci/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 4f38405..4a21cd5 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -254,7 +254,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     run_data["check_mode"] = run_checks_data["check_mode"]
 
     # If checks are detected, do a reference run (with IEEE backend)
-    if run_data["accuracy_threshold"].sum() != 0:
+    if (run_data["check_mode"] != "none").any():
         temp.close()
 
         os.putenv("VFC_BACKENDS", "libinterflop_ieee.so")
-- 
2.43.0


From 16c44af64d133daed3743030c3ec51b30e823b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 42/51] fix: vfc_ci: compare each probe with the reference
 value of the same probe

---
 src/tools/ci/test.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 4a21cd5..703e90a 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -278,7 +278,13 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
 
         reference_run_data = read_probes_csv(temp.name, warnings, execution_data)[0]
 
-        run_data["reference_value"] = reference_run_data["values"]
+        # The reference value of a probe is the one of the same test/variable
+        reference_run_data = reference_run_data[["test", "variable", "values"]]
+        run_data = run_data.merge(
+            reference_run_data.rename(columns={"values": "reference_value"}),
+            on=["test", "variable"],
+            how="left",
+        )
         run_data["check"] = run_data.apply(
             lambda x: validate_deterministic_probe(x), axis=1
         )
-- 
2.43.0


From 7be76432f5ef9581d36e80198e35478e8453fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 43/51] fix: vfc_ci: relative checks of probes whose reference
 value or average is null

---
 src/tools/ci/test_data_processing.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/test_data_processing.py b/src/tools/ci/test_data_processing.py
index 4427122..dbfb878 100644
--- a/src/tools/ci/test_data_processing.py
+++ b/src/tools/ci/test_data_processing.py
@@ -97,6 +97,18 @@ def significant_digits_lower_bound(x):
         return s[0]
 
 
+def relative_error(error, reference):
+    """
+    Error relatively to a reference value (when this value is null, the error
+    can not be compared to it: it is infinite unless there is no error at all)
+    """
+
+    if reference == 0:
+        return 0.0 if error == 0 else np.inf
+
+    return error / abs(reference)
+
+
 def apply_data_pocessing(data):
     """
     This function computes most test metrics (mu, sigma, quantiles, ...).
@@ -125,7 +137,8 @@ def apply_data_pocessing(data):
     elif data["check_mode"] == "relative":
         data["check"] = (
             True
-            if abs(data["sigma"] / data["mu"]) < abs(data["accuracy_threshold"])
+            if relative_error(data["sigma"], data["mu"])
+            < abs(data["accuracy_threshold"])
             else False
         )
 
@@ -177,7 +190,9 @@ def validate_deterministic_probe(x):
     if x["check_mode"] == "relative":
         return (
             True
-            if abs(x["value"] - x["reference_value"]) / abs(x["reference_value"])
+            if relative_error(
+                abs(x["value"] - x["reference_value"]), x["reference_value"]
+            )
             < abs(x["accuracy_threshold"])
             else False
         )
-- 
2.43.0


From 5b7fa50749ac59d9a392cc726b48877d7ae3715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:43 +0000
Subject: [PATCH 44/51] fix: vfc_hashmap: removed elements are not found any
 more

---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 2208c55..84b5aba 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -186,7 +186,8 @@ void vfc_hashmap_remove(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       set_value_at(map->items, 1, ii);
       map->nitems--;
       map->n_deleted_items++;
@@ -202,7 +203,8 @@ char vfc_hashmap_have(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       return 1;
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -216,7 +218,8 @@ void *vfc_hashmap_get(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       return (void *)get_value_at(map->items, ii);
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -247,6 +250,6 @@ ISize_t vfc_hashmap_str_function(const char *id) {
 // Free the hashmap
 void vfc_hashmap_free(vfc_hashmap_t map) {
   for (ISize_t ii = 0; ii < map->capacity; ii++)
-    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 0)
+    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 1)
       interflop_free((void *)get_value_at(map->items, ii));
 }
\ No newline at end of file
-- 
2.43.0


From 64a96487f71e4cdb4290b7013cde528f1a07a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:01 +0000
Subject: [PATCH 45/51] Revert "fix: vfc_ci: relative checks of probes whose
 reference value or average is null"

This reverts commit 7be76432f5ef9581d36e80198e35478e8453fc66.
---
 src/tools/ci/test_data_processing.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/tools/ci/test_data_processing.py b/src/tools/ci/test_data_processing.py
index dbfb878..4427122 100644
--- a/src/tools/ci/test_data_processing.py
+++ b/src/tools/ci/test_data_processing.py
@@ -97,18 +97,6 @@ def significant_digits_lower_bound(x):
         return s[0]
 
 
-def relative_error(error, reference):
-    """
-    Error relatively to a reference value (when this value is null, the error
-    can not be compared to it: it is infinite unless there is no error at all)
-    """
-
-    if reference == 0:
-        return 0.0 if error == 0 else np.inf
-
-    return error / abs(reference)
-
-
 def apply_data_pocessing(data):
     """
     This function computes most test metrics (mu, sigma, quantiles, ...).
@@ -137,8 +125,7 @@ def apply_data_pocessing(data):
     elif data["check_mode"] == "relative":
         data["check"] = (
             True
-            if relative_error(data["sigma"], data["mu"])
-            < abs(data["accuracy_threshold"])
+            if abs(data["sigma"] / data["mu"]) < abs(data["accuracy_threshold"])
             else False
         )
 
@@ -190,9 +177,7 @@ def validate_deterministic_probe(x):
     if x["check_mode"] == "relative":
         return (
             True
-            if relative_error(
-                abs(x["value"] - x["reference_value"]), x["reference_value"]
-            )
+            if abs(x["value"] - x["reference_value"]) / abs(x["reference_value"])
             < abs(x["accuracy_threshold"])
             else False
         )
-- 
2.43.0


From 2a9d3a2e4f75cab146e466ccf41f0e6ad9476d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:00 +0000
Subject: [PATCH 46/51] fix: round every element of array arguments in VPREC
 function instrumentation

The loops over the elements of a pointer argument rounded the first element
again and again, and took its value for the bounds of the profile.
---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index b222530..9c21b9b 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -705,9 +705,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -723,9 +723,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -855,9 +855,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -877,9 +877,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From 9c05d3029d4861156e6651e40230464638ce7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:00 +0000
Subject: [PATCH 47/51] fix: recognise not-a-number and infinities in
 interflop_fpclassify

The exponent field, left in place, was compared with FLOAT_EXP_MAX, so the
bounds of VPREC profiles were computed from the integer conversion of NaN
and infinities.
---
 src/interflop-stdlib/interflop_stdlib.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..eb2c568 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -138,13 +138,13 @@ typedef enum {
 
 float interflop_fpclassifyf(float x) {
   interflop_b32 u = {.f = x};
-  int exp = u.i & FLOAT_GET_EXP;
+  int exp = (u.i & FLOAT_GET_EXP) >> FLOAT_PMAN_SIZE;
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_EXP_INF && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_EXP_INF && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -155,13 +155,13 @@ float interflop_fpclassifyf(float x) {
 
 double interflop_fpclassifyd(double x) {
   interflop_b64 u = {.d = x};
-  long exp = u.i & DOUBLE_GET_EXP;
+  long exp = (u.i & DOUBLE_GET_EXP) >> DOUBLE_PMAN_SIZE;
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == DOUBLE_EXP_INF && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == DOUBLE_EXP_INF && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From 497a502c33fa0479b4be459c83c6a0a1c76d1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 48/51] fix: saturate the bounds of VPREC profiles that do not
 fit in an integer

Converting them was undefined: a large value gave INT_MIN as lower bound
and was left out of the upper one.
---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 9c21b9b..7b90da3 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -467,6 +467,14 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              : VPREC_PRECISION_BINARY32_DEFAULT;
 }
 
+/* Helper function converting a bound to an integer */
+/* bounds that do not fit in an integer are saturated */
+static int _vfi_bound_to_int(double bound) {
+  return (bound >= INT_MAX)  ? INT_MAX
+         : (bound > INT_MIN) ? (int)bound
+                             : INT_MIN;
+}
+
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
                           int new_flag, enum FTYPES type) {
 
@@ -478,14 +486,14 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
     float *value = (float *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_bound_to_int(interflop_floor(*value));
+    ceil = _vfi_bound_to_int(interflop_ceil(*value));
   } else if (type == FDOUBLE || type == FDOUBLE_PTR) {
     double *value = (double *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_bound_to_int(interflop_floor(*value));
+    ceil = _vfi_bound_to_int(interflop_ceil(*value));
   } else {
     logger_error("Invalid type\n");
   }
-- 
2.43.0


From 571ac12da7ab48797c97c53f8858eff9ea53b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:45 +0000
Subject: [PATCH 49/51] fix: empty the VFC_DDEBUG_GEN file before writing it

An inclusion file left by an earlier run kept its last lines, so operations
that were not executed (or a cut line) stayed in the list.
---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 7d4e152..a09d41b 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -165,7 +165,8 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output = open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC,
+                    S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
-- 
2.43.0


From b0174143c103257dd502598fda5f7e50036e37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:59 +0000
Subject: [PATCH 50/51] fix: announce the kind and number of the elements of
 pointer arguments in --inst-func

---
 .../libVFCFuncInstrument.cpp                  | 84 ++++++++++---------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 346e7dd..0cc7807 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -142,44 +142,41 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
   }
 }
 
-// Search the size of the Value V which is a pointer
-unsigned int getSizeOf(Value *V, const Function *F) {
-  // if V is an argument of the F function, search the size of V in the parent
-  // of F
-  for (auto &Args : F->args()) {
-    if (&Args == V) {
-      for (const auto &U : V->users()) {
-        if (isa<CallInst>(U)) {
-          const CallInst *call = cast<CallInst>(U);
-          Value *to_search = call->getOperand(Args.getArgNo());
-
-          return getSizeOf(to_search, call->getParent()->getParent());
-        }
-      }
-    }
-  }
-
+// Search the floating-point elements reachable from the pointer V: returns
+// their number and sets type to their kind. Returns 0 and leaves type as it is
+// when the memory V points to is not known or does not hold floats or doubles
+unsigned int getSizeOf(const Value *V, const DataLayout &DL, FTYPES &type) {
   // search for the AllocaInst at the origin of V
-  for (auto &BB : (*F)) {
-    for (auto &I : BB) {
-      if (&I == V) {
-        if (const AllocaInst *Alloca = dyn_cast<AllocaInst>(&I)) {
-          if (Alloca->getAllocatedType()->isArrayTy() ||
-              Alloca->getAllocatedType()->isVectorTy()) {
-            return Alloca->getAllocatedType()->getArrayNumElements();
-          } else {
-            return 1;
-          }
-        } else if (const GetElementPtrInst *GEP =
-                       dyn_cast<GetElementPtrInst>(&I)) {
-          Value *to_search = GEP->getOperand(0);
-          return getSizeOf(to_search, F);
-        }
-      }
+  APInt Offset(DL.getIndexTypeSizeInBits(V->getType()), 0);
+  const AllocaInst *Alloca = dyn_cast<AllocaInst>(
+      V->stripAndAccumulateConstantOffsets(DL, Offset, true));
+  if (Alloca == nullptr || Alloca->isArrayAllocation())
+    return 0;
+
+  uint64_t size = 1;
+  Type *Ty = Alloca->getAllocatedType();
+  while (Ty->isArrayTy() || isa<FixedVectorType>(Ty)) {
+    if (Ty->isArrayTy()) {
+      size *= Ty->getArrayNumElements();
+      Ty = Ty->getArrayElementType();
+    } else {
+      size *= cast<FixedVectorType>(Ty)->getNumElements();
+      Ty = cast<FixedVectorType>(Ty)->getElementType();
     }
   }
-
-  return 0;
+  if (Ty != FloatTy && Ty != DoubleTy)
+    return 0;
+
+  // V may point inside of the allocated memory
+  uint64_t width = DL.getTypeAllocSize(Ty).getFixedValue();
+  if (Offset.isNegative() || Offset.getZExtValue() % width != 0)
+    return 0;
+  uint64_t first = Offset.getZExtValue() / width;
+  if (first >= size)
+    return 0;
+
+  type = (Ty == DoubleTy) ? FDOUBLE_PTR : FFLOAT_PTR;
+  return size - first;
 }
 
 // Get the Name of the given argument V
@@ -255,6 +252,12 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
     Type *argTy = args.getType();
     FTYPES type = ftypesFromType(argTy);
 
+    unsigned int size = 0;
+    if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
+      size = getSizeOf(call->getOperand(args.getArgNo()),
+                       call->getModule()->getDataLayout(), type);
+    }
+
     if (type != FTYPES_END) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
       EnterArgs.push_back(Types2val[type]);
@@ -266,8 +269,6 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
       EnterArgs.push_back(InputAlloca[input_index]);
       Builder.CreateStore(&args, InputAlloca[input_index++]);
     } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
       EnterArgs.push_back(ConstantInt::get(Int32Ty, size));
       EnterArgs.push_back(&args);
     }
@@ -282,6 +283,10 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
 
   Type *retTy = ret->getType();
   FTYPES type = ftypesFromType(retTy);
+  unsigned int size = 0;
+  if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and call != nullptr) {
+    size = getSizeOf(ret, M.getDataLayout(), type);
+  }
 
   if (type != FTYPES_END) {
     ExitArgs.push_back(Types2val[type]);
@@ -294,7 +299,6 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
     Builder.CreateStore(ret, OutputAlloca[0]);
   } else if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and
              call != nullptr) {
-    unsigned int size = getSizeOf(ret, call->getParent()->getParent());
     ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
     ExitArgs.push_back(ret);
   }
@@ -304,10 +308,10 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
     type = ftypesFromType(argTy);
     if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call != nullptr) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
+      size = getSizeOf(call->getOperand(args.getArgNo()), M.getDataLayout(),
+                       type);
       ExitArgs.push_back(Types2val[type]);
       ExitArgs.push_back(Builder.CreateGlobalStringPtr(arg_name));
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
       ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
       ExitArgs.push_back(&args);
     }
-- 
2.43.0


From 933f402ee6e68469910d1c1d3ef6c4ab2fff8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:07 +0000
Subject: [PATCH 51/51] fix: leave intrinsic functions that cannot be called
 from a hook alone in --inst-func

---
 .../libVFCFuncInstrument.cpp                   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 0cc7807..65769cc 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -404,6 +404,19 @@ bool isLLVMDebugFunction(Function &F) {
   return STARTS_WITH(name, "llvm.dbg.") || STARTS_WITH(name, "llvm.lifetime.");
 }
 
+// A call to an intrinsic function can be moved in a hook when it only computes
+// on values: memory intrinsics and those that refer to the frame of their
+// caller (va_start...) take pointers, others have immediate parameters
+bool isHookableIntrinsic(const Function &F) {
+  if (F.getAttributes().hasAttrSomewhere(Attribute::ImmArg))
+    return false;
+  for (const auto &Arg : F.args()) {
+    if (Arg.getType()->isPtrOrPtrVectorTy())
+      return false;
+  }
+  return true;
+}
+
 struct VfclibFunc : public ModulePass {
   static char ID;
   std::vector<Function *> OriginalFunctions;
@@ -574,6 +587,11 @@ struct VfclibFunc : public ModulePass {
                     continue;
                   }
 
+                  // Some intrinsic functions cannot be called from a hook.
+                  if (is_intrinsic && !isHookableIntrinsic(*f)) {
+                    continue;
+                  }
+
                   // Create function ID
                   Value *FunctionID =
                       Builder.CreateGlobalStringPtr(FunctionName);
-- 
2.43.0

