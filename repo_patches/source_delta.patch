From c4e2ffb8e0d02aade643b5320b0ac7cb7ebcaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/94] fix: fmin(const adouble&, const adouble&) returned the
 location of its first argument instead of its value

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..c1b1240 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From 7418fe819937b5ad9ef7fbef913cf9015ca5f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 02/94] fix: adolc_vec_dot/adolc_vec_axpy corrupted the number
 of dependents of the tape

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..3d70d30 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From ccaf4d60cb0113d2c5f3d2c16e253a1888f35744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 03/94] fix: reverse sweeps over adolc_vec_copy/dot/axpy
 restored overwritten values in the wrong order, leaked adjoints and handled
 only the first weight vector; adolc_vec_dot was declared with a signature
 that is never defined

---
 ADOL-C/include/adolc/adtb_types.h |  6 +--
 ADOL-C/src/adouble.cpp            |  4 +-
 ADOL-C/src/fo_rev.cpp             | 46 +++++++++++++++-------
 ADOL-C/src/ho_rev.cpp             | 65 +++++++++++++++++--------------
 4 files changed, 72 insertions(+), 49 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..d818248 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1107,9 +1107,9 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 void ADOLC_API adolc_vec_copy(adouble *const dest, const adouble *const src,
                               size_t size);
 
-// computes canonical scalarproduct, src and dest must have size "size"
-void ADOLC_API adolc_vec_dot(adouble *const dest, const adouble *const src,
-                             size_t size);
+// returns the canonical scalar product, vec_a and vec_b must have size "size"
+adouble ADOLC_API adolc_vec_dot(const adouble *const vec_a,
+                                const adouble *const vec_b, size_t size);
 
 // res = a*vec_a + vec_b, vec_a and vec_b must have same size "size"
 void ADOLC_API adolc_vec_axpy(adouble *const res, const adouble &a,
diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index c1b1240..825a151 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..63d9b66 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2323,18 +2323,21 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* the elements were assigned in ascending order */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
 
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
+          size_t aTmp = *Ares;
           ARES_INC = 0;
+          AARG_INC |= aTmp;
 #else
-          AARG_INC += *Ares;
+          revreal aTmp = *Ares;
           ARES_INC = 0.0;
+          AARG_INC += aTmp;
 #endif
         }
 
@@ -2366,6 +2369,10 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
+      {
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+        FOR_0_LE_l_LT_p ARES_INC = 0;
+      }
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
@@ -2377,28 +2384,37 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
+      /* the elements were assigned in ascending order */
+      res += size;
+      arg1 += size;
+      arg2 += size;
       for (locint qq = 0; qq < size; qq++) {
+        res--;
+        arg1--;
+        arg2--;
         ASSIGN_A(Ares, ADJOINT_BUFFER[res])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
         ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
         ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+#if !defined(_NTIGHT_)
+        /* before the arguments are used, to allow reflexive ops */
+        rp_T[res] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          size_t aTmp = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          revreal aTmp = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * TARG;
+          AARG_INC += aTmp * TARG1;
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..7a8da28 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2441,7 +2441,8 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      /* the elements were assigned in ascending order */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
@@ -2497,10 +2498,11 @@ int hov_ti_reverse(
             HOV_INC(Aarg2, k)
             HOS_OV_INC(Targ1, k)
             HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
         }
       }
+      ASSIGN_A(Ares, rpp_A[res])
+      FOR_0_LE_l_LT_pk1 ARES_INC = 0.0;
       GET_TAYL(res, k, p)
       break;
 
@@ -2510,40 +2512,45 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* the elements were assigned in ascending order */
+      for (locint qq = size; qq-- > 0;) {
+        /* before the arguments are used, to allow reflexive ops */
+        GET_TAYL(res + qq, k, p)
+
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++)
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            double aRes = ARES;
+            comp = (aRes > 2.0) ? aRes : 2.0;
+            ARES_INC = 0.0;
+            MAXDEC(AARG2, aRes);
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
-        }
-        GET_TAYL(res + qq, k, p)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          }
       }
       break;
 
-- 
2.43.0


From 9f0d1b8228d9b61e56d32656cc1cbc91042d08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 04/94] fix: reverse sweeps returned 2 when
 condassign/condeqassign took the same (second) branch as while recording, and
 not when it differed

---
 ADOL-C/src/fo_rev.cpp | 16 ++++++++--------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 63d9b66..7d592ca 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1790,7 +1790,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1801,7 +1801,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1854,7 +1854,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1865,7 +1865,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2457,7 +2457,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2468,7 +2468,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2515,7 +2515,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2526,7 +2526,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 7a8da28..15728fd 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1925,7 +1925,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1947,7 +1947,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2004,7 +2004,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2020,7 +2020,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2612,7 +2612,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2634,7 +2634,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2695,7 +2695,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2711,7 +2711,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From 02c70f4ace7c52576ed13b36081dda85e846758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/94] fix: vec_jac with repeat always returned -1

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..ddbdd5f 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From 6aeeeac7fc9817a3339852ed5baddee433f0ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 06/94] fix: reverse sweeps over floor compared the recorded
 value with another variable

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 7d592ca..42d053f 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1733,7 +1733,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From a1154dc39bb37dd6873a83034996f3e677fa761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 07/94] fix: higher-order reverse over ceil, floor and (vector)
 fabs wrote adjoints to the wrong places

---
 ADOL-C/src/ho_rev.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 15728fd..02401c2 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,7 +350,7 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
+  const int q = p;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
@@ -1821,6 +1821,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1856,7 +1857,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From d24262be336332ebc0c6c30bd622274c57e2ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 08/94] fix: hos_ov_reverse restored only the first direction
 of the result of a += b*c and a -= b*c when its adjoint is zero

---
 ADOL-C/src/ho_rev.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 02401c2..9846bf9 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1003,6 +1003,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
@@ -1052,6 +1055,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
-- 
2.43.0


From 4efb868b0a6f53047d29183948636ac6bc34e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 09/94] fix: large_jacobian asked for a negative number of
 directions when the runs do not divide the independents; jac_solv reused an
 overwritten or outdated factorization

---
 ADOL-C/src/drivers/drivers.cpp     | 18 ++++++++++--------
 ADOL-C/src/drivers/taylor.cpp      |  4 +++-
 ADOL-C/src/valuetape/valuetape.cpp |  3 +++
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ddbdd5f..cade68b 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -104,7 +104,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -115,13 +115,15 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
-  for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
-  }
-  dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
+  i = 0;
+  do {
+    // fewer runs suffice if dirs does not divide indep
+    if (dirs > indep - i)
+      dirs = indep - i;
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, i, argument, I,
+                                  result, jacobian));
+    i += dirs;
+  } while (i < indep);
   myfreeI2(indep, I);
   return rc;
 }
diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..852c67b 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -460,6 +460,8 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
       tape.jacSolv_xold()[i] = x[i];
       newX = 1;
     }
+  if (mode < 2 || newX == 1)
+    tape.jacSolv_modeold(0); /* the factors are going to be overwritten */
   switch (mode) {
   case 0:
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
@@ -476,7 +478,7 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     tape.jacSolv_modeold(1);
     break;
   case 2:
-    if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
+    if (tape.jacSolv_modeold() < 1) {
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..06f9853 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -70,6 +70,8 @@ int ValueTape::initNewTape() {
   // creates new tapeInfos object with old buffers
   // thus, we dont allocate the buffers again if they are already existent
   initTapeInfos_keep();
+  // a factorization kept by jac_solv belongs to the previous recording
+  jacSolv_modeold(0);
   // must be after initTapeInfos_keep, to not get overwritten!
   workMode(TapeInfos::WRITE_ACCESS);
 #ifdef ADOLC_SPARSE
@@ -547,6 +549,7 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   double *paramstore_view = paramstore();
   for (size_t i = 0; i < tapestats(TapeInfos::NUM_PARAM); ++i)
     paramstore_view[i] = paramvec[i];
+  jacSolv_modeold(0);
 
   finish_tay_file();
   workMode(TapeInfos::NO_MODE);
-- 
2.43.0


From b2777e7a2decad9111447acb00d9d9c71e83f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 10/94] fix: inverse_tensor_eval sized its coefficient list by
 the previous call

---
 ADOL-C/src/drivers/taylor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 852c67b..158be54 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -647,8 +647,9 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
     dim = binomi(p + d - 1, d);
     if ((d != dold) || (p != pold)) {
       if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
+        // set to old dim to free
+        auto oldDim = binomi(pold + dold - 1, dold);
+        freecoefflist(oldDim, coeff_list);
         free((char *)coeff_list);
       }
       coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-- 
2.43.0


From 9ea3f6a4f543c09f9635c5d79169daf0b379cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 11/94] fix: freetensor freed the tensor itself for degree 1

---
 ADOL-C/src/drivers/taylor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 158be54..dea7fb6 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -106,8 +106,10 @@ void freetensor(int m, int n, int d, double **tensor) {
 
   for (i = 0; i < m; i++) {
     t = tensor[i];
-    freetensorpoint(n, d, (double **)t);
-    free((char *)t);
+    if (d > 1) { /* for d == 1 it points to the values themselves */
+      freetensorpoint(n, d, (double **)t);
+      free((char *)t);
+    }
   }
 }
 
-- 
2.43.0


From 6dfb664dd843c1d182a49f3c2e65e083d03b11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 12/94] fix: tensor_address and tensor_value were wrong for
 multi-indices that are not descending, and tensor_value cleared its argument

---
 ADOL-C/src/drivers/taylor.cpp | 55 ++++++-----------------------------
 1 file changed, 9 insertions(+), 46 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index dea7fb6..d5a229b 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -277,37 +277,21 @@ void convert(int p, int d, int *im, int *multi) {
 
 /*--------------------------------------------------------------------------*/
 size_t tensor_address(int d, int *multi) {
-  int i, j, max, ind;
   size_t add = 0;
   int *im = (int *)malloc(d * sizeof(int));
-  int *mymulti = (int *)malloc(d * sizeof(int));
-
-  max = 0;
-  ind = d - 1;
-  for (i = 0; i < d; i++) {
-    mymulti[i] = multi[i];
-    if (mymulti[i] > max)
-      max = mymulti[i];
-    im[i] = 0;
-  }
 
-  for (i = 0; i < d; i++) {
-    if (mymulti[i] == max) {
-      im[ind] = mymulti[i];
-      mymulti[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (j = 0; j < d; j++)
-        if (mymulti[j] > max)
-          max = mymulti[j];
-    }
+  /* sorted (ascending) copy of the multi-index */
+  for (int i = 0; i < d; i++) {
+    int j = i;
+    for (; j > 0 && im[j - 1] > multi[i]; j--)
+      im[j] = im[j - 1];
+    im[j] = multi[i];
   }
 
-  for (i = 0; i < d; i++) {
+  for (int i = 0; i < d; i++) {
     add += binomi(im[i] + i, i + 1);
   }
   free((char *)im);
-  free((char *)mymulti);
 
   return add;
 }
@@ -849,31 +833,10 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
 
 /****************************************************************************/
 void tensor_value(int d, int m, double *y, double **tensor, int *multi) {
-  int *im = (int *)malloc(d * sizeof(int));
-
-  int max = 0;
-  int ind = d - 1;
-  for (int i = 0; i < d; i++) {
-    if (multi[i] > max)
-      max = multi[i];
-    im[i] = 0;
-  }
-  for (int i = 0; i < d; i++) {
-    if (multi[i] == max) /* olvo 980728 == instead of = */
-    {
-      im[ind] = multi[i];
-      multi[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (int j = 0; j < d; j++)
-        if (multi[j] > max)
-          max = multi[j];
-    }
-  }
-  size_t add = tensor_address(d, im);
+  // tensor_address sorts a copy, the multi-index of the caller stays intact
+  size_t add = tensor_address(d, multi);
   for (int i = 0; i < m; i++)
     y[i] = tensor[i][add];
-  free((char *)im);
 }
 
 END_C_DECLS
-- 
2.43.0


From 9800654dd52867d70198f8ec8e3f53b54288a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 13/94] fix: lie_covector and lie_bracket overflowed the
 factorial for orders above 12

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..8f2497f 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -62,7 +62,7 @@ void acccov(int n, int d, double ***B, double **C, double **D) {
   int i, k, l, ip, kp;
 
   /* factorial     */
-  int Fak = 1;
+  double Fak = 1;
 
   /* D_k:=Fak*C_k (1. summation step)   */
   for (k = 0; k <= d; k++) {
@@ -139,7 +139,7 @@ void accbrac(int n, int d, double ***Bs, double **b, double **result) {
   int i, j, k, l, jp, kp;
 
   /* factorial      */
-  int Fak = 1;
+  double Fak = 1;
 
   /* formula 3.58  */
   for (k = 0; k <= d; k++) {
-- 
2.43.0


From 6eb10a4ac9742b62eec587bdb693a576464b50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 14/94] fix: lie_gradient and lie_covector used the point
 instead of the vector field for order 1

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 8f2497f..93fff18 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -272,8 +272,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   static int depax_m, depax_n;
   static double **In;
@@ -305,12 +303,8 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   /* prepare for input   */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1) {
-      xp[i] = X[i][1];
-    } else {
-      for (k = 0; k < d; k++) {
-        X[i][k] = X[i][k + 1];
-      }
+    for (k = 0; k < d; k++) {
+      X[i][k] = X[i][k + 1];
     }
   }
 
@@ -338,8 +332,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return rc;
 }
@@ -394,8 +386,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   int i = 0, k = 0;
 
@@ -425,22 +415,16 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   /* prepare for input */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1)
-      xp[i] = X[i][1];
-    else
-      for (k = 0; k < d; k++)
-        X[i][k] = X[i][k + 1];
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
   hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
-    if (d == 1)
-      Y[i][1] = yp[i];
-    else
-      for (k = d; k > 0; k--)
-        Y[i][k] = Y[i][k - 1];
+    for (k = d; k > 0; k--)
+      Y[i][k] = Y[i][k - 1];
     Y[i][0] = y[i];
   }
 
@@ -454,8 +438,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return -1;
 }
-- 
2.43.0


From 91263f02cc5939588cf5ad9e3e6d731513454f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 15/94] fix: re-recording a tape whose files exist closed the
 old file twice

---
 ADOL-C/include/adolc/valuetape/infotype.h  | 4 ++++
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/infotype.h b/ADOL-C/include/adolc/valuetape/infotype.h
index fb632dc..cd323c8 100644
--- a/ADOL-C/include/adolc/valuetape/infotype.h
+++ b/ADOL-C/include/adolc/valuetape/infotype.h
@@ -158,6 +158,7 @@ template <class TInfos, class EType> struct OpInfo {
                        const char *mode = "rb") {
     tapeInfos.opBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) { tapeInfos.opBuffer_.closeFile(); }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
@@ -198,6 +199,7 @@ template <class TInfos, class EType> struct LocInfo {
                        const char *mode = "rb") {
     tapeInfos.locBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) { tapeInfos.locBuffer_.closeFile(); }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
@@ -239,6 +241,7 @@ template <class TInfos, class EType> struct ValInfo {
                        const char *mode = "rb") {
     tapeInfos.valBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) { tapeInfos.valBuffer_.closeFile(); }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
@@ -278,6 +281,7 @@ template <class TInfos, class EType> struct TayInfo {
                        const char *mode = "rb") {
     tapeInfos.tayBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) { tapeInfos.tayBuffer_.closeFile(); }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 }; // namespace ADOLC::detail
diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..89461ed 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -196,7 +196,7 @@ struct TapeInfos {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
         Info::openFile(*this, fileName);
         if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+          Info::closeFile(*this);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From d8b08b11551823c45fc89b211fb3be1afe54f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 16/94] fix: trace_on with buffer sizes never started a
 recording

---
 ADOL-C/src/tape_interface.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..bdb52ee 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -68,26 +68,23 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
-  if (retval) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return retval;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From 19c33b015c6b66a3e8129ffdb68a1aa3f7865d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 17/94] fix: a re-recording kept the buffers and file flags of
 the previous one when sizes changed

---
 ADOL-C/include/adolc/valuetape/bufferstate.h |  9 ++++-----
 ADOL-C/src/valuetape/valuetape.cpp           | 10 +++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/bufferstate.h b/ADOL-C/include/adolc/valuetape/bufferstate.h
index 0c99bbf..cd64f28 100644
--- a/ADOL-C/include/adolc/valuetape/bufferstate.h
+++ b/ADOL-C/include/adolc/valuetape/bufferstate.h
@@ -135,12 +135,11 @@ public:
     return buffer;
   }
 
-  /// Allocates a new owned buffer if no buffer is currently present.
+  /// Allocates a new owned buffer if no buffer is currently present, or if the
+  /// present one has another capacity.
   void allocIfNull(size_t capacity) {
-    if (buffer_ == nullptr) {
-      buffer_ = new T[capacity];
-      capacity_ = capacity;
-    }
+    if (buffer_ == nullptr || capacity_ != capacity)
+      resetBuffer(new T[capacity], capacity);
   }
 
   /// Returns the current buffer index.
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 06f9853..f2ce0d0 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -84,7 +84,10 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
-  ;
+  // nothing of the new recording is on disk yet
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
   return 0;
 }
 
@@ -190,11 +193,8 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
             tapeId());
 #endif
     finish_tay_file();
-  } else {
-    if (tay_fileName() == nullptr)
-      tay_fileName();
-    tapeInfos_.tayBuffer_.allocIfNull(bufferSize);
   }
+  tapeInfos_.tayBuffer_.allocIfNull(bufferSize);
 
   deg_save(degreeSave);
   if (degreeSave >= 0)
-- 
2.43.0


From af979a5db81e2ffe8f0333af49b9dd15319ab075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 18/94] fix: Taylor coefficients that end at or cross a block
 of the Taylor buffer were written or read wrongly

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 6 +++---
 ADOL-C/src/valuetape/valuetape.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..02457de 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,7 +83,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (tayBuffer_.position() + keep > tayBuffer_.capacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -120,7 +120,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (tayBuffer_.position() + size > tayBuffer_.capacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
@@ -144,7 +144,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f2ce0d0..63dc922 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -240,8 +240,13 @@ void ValueTape::taylor_back() {
 
   nextBufferNumber(tapeInfos_.tayBuffer_.numOnTape() /
                    tapestats(TapeInfos::TAY_BUFFER_SIZE));
-  const size_t number =
+  size_t number =
       tapeInfos_.tayBuffer_.numOnTape() % tapestats(TapeInfos::TAY_BUFFER_SIZE);
+  if (number == 0 && nextBufferNumber() > 0) {
+    // the last block is completely filled
+    number = tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    decrement_nextBufferNumber();
+  }
   tapeInfos_.tayBuffer_.position(number);
 
   if (lastTayBlockInCore() != 1) {
-- 
2.43.0


From ad5cb1ac8b466761c88b8864d9b0a356fc002e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 19/94] fix: parameters of a tape on disk were skipped wrongly
 in reverse sweeps and replaced values were read back from the file

---
 ADOL-C/src/valuetape/valuetape.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 63dc922..769b819 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -342,8 +342,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
@@ -614,7 +614,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // parameters in memory may have been replaced since the recording
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
 }
 
@@ -633,9 +634,9 @@ void ValueTape::end_sweep() {
 /****************************************************************************/
 void ValueTape::discard_params_r(void) {
   constexpr size_t chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
+  const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
   size_t ip = tapestats(TapeInfos::NUM_PARAM);
   size_t rsize = 0;
-  size_t remain = 0;
   while (ip > 0) {
     rsize = tapeInfos_.valBuffer_.position();
     rsize = (rsize < ip) ? rsize : ip;
@@ -644,28 +645,27 @@ void ValueTape::discard_params_r(void) {
     if (ip > 0) {
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      const size_t chunks = number / chunkSize;
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      const size_t remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From 24d3554da4bb170c24f9ac2bb929d1a782ef62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 20/94] fix: index domains lost a dependence when the result
 overwrites the second operand

---
 ADOL-C/src/uni5_for.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..e2b0401 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5088,8 +5088,12 @@ int hov_forward(
         IF_KEEP_WRITE_TAYLOR(res + qq, keep, k, p);
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
-        combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
-        merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        if (res == arg2) {
+          merge_3_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+        } else {
+          combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+          merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        }
 #endif
 #if defined(_NONLIND_)
         // operation: v = u*w + y
@@ -5950,7 +5954,7 @@ short ext_firstsign2(double sigbase, int p, double *u, double *du) {
 #if defined(_TIGHT_)
 void copy_index_domain(size_t res, size_t arg, uint **ind_dom) {
   if (ind_dom[arg][0] > ind_dom[res][1]) {
-    delete ind_dom[res];
+    delete[] ind_dom[res];
     ind_dom[res] = new uint[2 * (ind_dom[arg][0] + 1)];
     ind_dom[res][1] = 2 * ind_dom[arg][0];
   }
@@ -6018,6 +6022,10 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  if (res == arg2) {
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
-- 
2.43.0


From ddae2fc6cdefcf4f896e05ea60ff9184e61bbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 21/94] fix: dependency sweeps misread conditional assignments
 and active values recorded before the trace

---
 ADOL-C/src/uni5_for.cpp | 101 +++++++++++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index e2b0401..37de68a 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1190,11 +1190,17 @@ int hov_forward(
 #endif
 #if defined(_NONLIND_)
   maxopind = tape.tapestats(TapeInfos::NUM_OPERATIONS) +
-             tape.tapestats(TapeInfos::NUM_EQ_PROD);
+             tape.tapestats(TapeInfos::NUM_EQ_PROD) + 1;
   fod = new IndexElement[maxopind];
   nonl_dom = new IndexElement[indcheck];
   arg_index = new locint[tape.tapestats(TapeInfos::NUM_MAX_LIVES)];
-  opind = 0;
+  // values that the tape does not assign depend on nothing
+  fod[0].entry = maxopind + 2;
+  fod[0].left = nullptr;
+  fod[0].right = nullptr;
+  for (size_t i = 0; i < tape.tapestats(TapeInfos::NUM_MAX_LIVES); ++i)
+    arg_index[i] = 0;
+  opind = 1;
   sod = new IndexElement_sod[indcheck];
 
   for (int i = 0; i < indcheck; i++) {
@@ -4127,6 +4133,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4139,8 +4148,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4234,6 +4241,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4246,8 +4256,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4303,14 +4311,34 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] > 0)
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
         copy_index_domain(res, arg1, ind_dom);
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
+        arg_index[res] = arg_index[arg1];
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4320,11 +4348,11 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
@@ -4364,14 +4392,32 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] >= 0)
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
         copy_index_domain(res, arg1, ind_dom);
+      }
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
+        arg_index[res] = arg_index[arg1];
+      }
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4381,11 +4427,11 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
@@ -5203,8 +5249,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5221,7 +5265,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5302,8 +5345,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5318,7 +5359,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
@@ -5362,13 +5402,18 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5376,8 +5421,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5422,6 +5465,10 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
@@ -5436,8 +5483,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5487,12 +5532,12 @@ int hov_forward(
 
         FOR_0_LE_l_LT_pk TRES_INC = 0;
 
+#endif
 #endif /* ALL_TOGETHER_AGAIN */
         res++;
 #if !defined(_NTIGHT_)
         d++;
 #endif /* !_NTIGHT_ */
-#endif
       }
       break;
 
-- 
2.43.0


From 653f24ef6cc554e785d6a73a6fcbbab0e116a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 22/94] fix: sweeps over a tape on disk without values used a
 file that was never created

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 769b819..3ec55d9 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -413,6 +413,9 @@ void ValueTape::close_tape(int flag) {
 
   /* finish constants tape, close it, update stats */
   if (flag != 0 || tapeInfos_.valBuffer_.file() != nullptr) {
+    // the file has to exist even if the tape holds no values
+    tapeInfos_.openFile<ValInfo<TapeInfos, ErrorType>>(
+        perTapeInfos_.val_fileName);
     if (tapeInfos_.valBuffer_.position() != 0) {
       tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
           perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.position());
-- 
2.43.0


From 8caf860f8d454ae178eae0d3ba35a46609b3f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 23/94] fix: safe dependency sweeps over min/max propagated one
 word only and used an uninitialised node of the nonlinear interaction tree

---
 ADOL-C/src/uni5_for.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 37de68a..63da1a9 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3783,7 +3783,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -3825,7 +3824,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From 6a1b7aef018337f7ec788b449c9bb4776aa454cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 24/94] fix: asin/acos/acosh/atanh of an rvalue tested the
 special points on the overwritten value

---
 ADOL-C/src/uni5_for.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 63da1a9..1cd98ef 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2730,7 +2730,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = asin(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = asin(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2757,7 +2758,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2776,7 +2777,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2830,7 +2831,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acos(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = acos(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2857,7 +2859,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2876,7 +2878,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2991,7 +2993,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acosh(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = acosh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3018,7 +3021,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3076,7 +3079,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = atanh(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = atanh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3103,7 +3107,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3125,7 +3129,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From c1d24edf01ae27c9705f95db28f478e93270e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 25/94] fix: reverse sweeps dropped the adjoint of a dependent
 that is used or marked again after >>=

---
 ADOL-C/src/fo_rev.cpp | 8 +++++++-
 ADOL-C/src/ho_rev.cpp | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 42d053f..2ba0af6 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -739,7 +739,13 @@ int int_reverse_safe(
 
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][m], so they must not transpose incoming adjoint access here.
-      FOR_0_LE_l_LT_p ARES_INC = LAGRANGE(l, indexd);
+      // The variable may be used or marked again after this point, i.e., it
+      // may carry an adjoint already.
+#if defined(_INT_REV_)
+      FOR_0_LE_l_LT_p ARES_INC |= LAGRANGE(l, indexd);
+#else
+      FOR_0_LE_l_LT_p ARES_INC += LAGRANGE(l, indexd);
+#endif
       indexd--;
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 9846bf9..393a4cf 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -638,11 +638,12 @@ int hov_ti_reverse(
         ARES_INC_O;
         dc = -1;
         for (int i = 0; i < k; i++) {
-          ARES_INC = LAGRANGE(l, indexd, i);
+          /* the variable may carry an adjoint already */
+          ARES_INC += LAGRANGE(l, indexd, i);
           if (LAGRANGE(l, indexd, i) != 0.0)
             dc = i;
         }
-        AARG = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        MAXDEC(AARG, (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0);
         HOV_INC(Aarg, k1)
       }
       indexd--;
-- 
2.43.0


From d202855b33ef1ff3207f119cbc075278cadf24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 26/94] fix: double == adouble and double <= adouble did not
 link

---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 825a151..810f25c 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -1332,7 +1332,7 @@ bool operator==(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator==(const double coval, const adouble &a) {
+bool operator==(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a == 0);
   else
@@ -1359,7 +1359,7 @@ bool operator<=(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator<=(const double coval, const adouble &a) {
+bool operator<=(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a >= 0);
   else
-- 
2.43.0


From d7ced4c46f2476c7f99fb1cf0fbd0a07264d2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 27/94] fix: forward sweeps did not report a two-operand
 conditional assignment that is no longer taken

---
 ADOL-C/src/uni5_for.cpp | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1cd98ef..1a3cc66 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4320,8 +4320,12 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
 
         copy_index_domain(res, arg1, ind_dom);
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
@@ -4334,8 +4338,12 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
 
         arg_index[res] = arg_index[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
       fod[opind].entry = maxopind + 2;
       fod[opind].left = &fod[arg_index[res]];
@@ -4362,8 +4370,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4374,8 +4386,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -4401,7 +4417,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
 
         copy_index_domain(res, arg1, ind_dom);
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
@@ -4414,7 +4431,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
 
         arg_index[res] = arg_index[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
       fod[opind].entry = maxopind + 2;
       fod[opind].left = &fod[arg_index[res]];
@@ -4441,7 +4459,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4452,7 +4471,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
-- 
2.43.0


From b74160bce7c3058588dc18d5d47aded0d34dd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 28/94] fix: drivers went on with the reverse sweep after a
 forward sweep that reported a branch switch

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h |  4 +++
 ADOL-C/src/drivers/drivers.cpp              | 31 +++++++++++----------
 ADOL-C/src/drivers/taylor.cpp               | 16 ++++++++---
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..33185a0 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -924,6 +924,8 @@ int computeSparseJac(short tag, int depen, int indep, const double *basepoint,
     ret_val =
         fov_forward(tag, depen, indep, tape.sJInfos().seedClms_, basepoint,
                     tape.sJInfos().Seed_, tape.sJInfos().y_, tape.sJInfos().B_);
+  if (ret_val < 0)
+    return ret_val;
   recover<CM, MH>(tape, sparseJac);
   return ret_val;
 }
@@ -1342,6 +1344,8 @@ int computeSparseHess(short tag, int indep, const double *basepoint, int *nnz,
   int ret_val =
       hov_wk_forward(tag, 1, indep, 1, 2, tape.sHInfos().p_, basepoint,
                      tape.sHInfos().Xppp_, &y, tape.sHInfos().Yppp_);
+  if (ret_val < 0)
+    return ret_val;
   MINDEC(ret_val, hos_ov_reverse(tag, 1, indep, 1, tape.sHInfos().p_,
                                  tape.sHInfos().Upp_, tape.sHInfos().Zppp_));
 
diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index cade68b..63bac42 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -179,11 +179,13 @@ int hess_mat(short tag, int n, int q, const double *argument,
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, q, argument, Xppp, &y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
 
-  for (i = 0; i < q; ++i)
-    for (j = 0; j < n; ++j)
-      result[j][i] = Zppp[i][j][1];
+    for (i = 0; i < q; ++i)
+      for (j = 0; j < n; ++j)
+        result[j][i] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
@@ -247,11 +249,13 @@ int hessian2(short tag, int n, double *argument, double **hess) {
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, n, argument, Xppp, y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
 
-  for (i = 0; i < n; i++)
-    for (j = 0; j <= i; j++)
-      hess[i][j] = Zppp[i][j][1];
+    for (i = 0; i < n; i++)
+      for (j = 0; j <= i; j++)
+        hess[i][j] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
@@ -280,13 +284,12 @@ int lagra_hess_vec(short tag, int m, int n, const double *argument,
 
   rc = fos_forward(tag, m, n, keep, argument, tangent, y, y_tangent);
 
-  if (rc < 0)
-    return rc;
-
-  MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
+  if (rc >= 0) {
+    MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
 
-  for (i = 0; i < n; ++i)
-    result[i] = X[i][1];
+    for (i = 0; i < n; ++i)
+      result[i] = X[i][1];
+  }
 
   myfree1(y_tangent);
   myfree1(y);
diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index d5a229b..8383122 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -451,10 +451,14 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
   switch (mode) {
   case 0:
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     break;
   case 1:
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                         tape.jacSolv_ci()) < 0) {
@@ -466,6 +470,8 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
   case 2:
     if (tape.jacSolv_modeold() < 1) {
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+      if (rc < 0)
+        break;
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                           tape.jacSolv_ci()) < 0) {
@@ -552,8 +558,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
     for (i = 0; i < n; i++)
       xold[i] = X[i][0];
     MINDEC(rc, jac_solv(tag, n, xold, b, 1));
-    if (rc == -3)
-      return -3;
+    if (rc < 0)
+      return rc;
   }
   ii = bd;
   for (i = 0; i < n; i++) {
@@ -571,6 +577,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
     di = dd[ii - 1] - 1;
     Di = dd[ii - 1] - dd[ii] - 1;
     MINDEC(rc, hos_forward(tag, n, n, di, Di + 1, xold, Xhelp, w, W));
+    if (rc < 0)
+      return rc;
     MINDEC(rc, hov_reverse(tag, n, n, Di, n, I, A, nonzero));
     da = dd[ii];
     for (l = da; l < dd[ii - 1]; l++) {
@@ -599,8 +607,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
         b[i] = -bi;
       }
       MINDEC(rc, jac_solv(tag, n, xold, b, 2));
-      if (rc == -3)
-        return -3;
+      if (rc < 0)
+        return rc;
       for (i = 0; i < n; i++) {
         X[i][l] += b[i];
         Xhelp[i][l - 1] += b[i];
-- 
2.43.0


From 60d91c18d59ed300386e1e0088c0a096b169df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 29/94] fix: bit pattern propagation went on after a forward
 sweep that reported a branch switch

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 33185a0..f8cccc8 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -420,9 +420,13 @@ int bitVectorPropagation(short tapeId, int depen, int indep,
   checkBVPInput<CFM>(basepoint);
   BvpData<BPPD> data{depen, indep};
   prepareADCalls<BPPD, CFM>(tapeId, basepoint, data);
+  if (data.rc_ < 0)
+    return data.rc_;
   for (int stripIdx = 0; stripIdx < data.numStripmineBatches_; stripIdx++) {
     prepareSeedMatrix(stripIdx, data);
     ADCalls<BPPD, CFM>(tapeId, basepoint, data);
+    if (data.rc_ < 0)
+      return data.rc_;
     extractCompressedRowStorage(stripIdx, compressedRowStorage, data);
   }
   return data.rc_;
-- 
2.43.0


From 034ec81f746e55c8e6603bb84e5fc660a763672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 30/94] fix: rejected set_param_vec left the tape in write mode

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 3ec55d9..306fddb 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -545,11 +545,13 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
    * stack information */
   openTape();
   workMode(TapeInfos::WRITE_ACCESS);
-  if (tapestats(TapeInfos::NUM_PARAM) != numparam)
+  if (tapestats(TapeInfos::NUM_PARAM) != numparam) {
+    workMode(TapeInfos::NO_MODE); // the tape remains usable
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
                   .info5 = numparam,
                   .info6 = tapeInfos_.stats[TapeInfos::NUM_PARAM]});
+  }
 
   if (!paramstore())
     paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
-- 
2.43.0


From 89c567d0c7e354e82913f406c2017f3315b67c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 31/94] fix: forward bit pattern propagation left rows without
 entries null

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..991bf41 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -44,7 +44,8 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
   size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
                                        data.indepWordHasNonzero_.end(), 0UL);
 
-  if (numNonzeros > 0) {
+  // the first strip also creates the rows without entries
+  if (numNonzeros > 0 || stripIdx == 0) {
     uint *row = nullptr;
     if (stripIdx == 0) {
       row = new uint[numNonzeros + 1];
-- 
2.43.0


From 280e4a8b779ffba60eb325de5b9dacc80ce42b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 32/94] fix: tight reverse bit pattern propagation misread the
 Taylor stack at divisions and powers

---
 ADOL-C/src/fo_rev.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2ba0af6..3a6ef89 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1124,6 +1124,8 @@ int int_reverse_safe(
       rp_T[res] = tape.get_taylor();
       double r0 = 1.0 / TARG2;
       r_0 *= r0;
+#elif !defined(_NTIGHT_)
+      rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1175,7 +1177,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       if (arg != res)
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
@@ -1418,7 +1422,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       if (res != arg)
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
-- 
2.43.0


From 4d8fa97012dbe1d6da7bb01ba873badedd3d7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 33/94] fix: generate_seed_jac did nothing in optimized builds

---
 ADOL-C/include/adolc/valuetape/sparseinfos.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/sparseinfos.h b/ADOL-C/include/adolc/valuetape/sparseinfos.h
index c0b6899..7dc2f72 100644
--- a/ADOL-C/include/adolc/valuetape/sparseinfos.h
+++ b/ADOL-C/include/adolc/valuetape/sparseinfos.h
@@ -10,7 +10,16 @@
 
 namespace ADOLC::Sparse {
 template <CompressionMode CM>
-void generateSeedJac(int, int, const std::span<uint *>, double ***, int *) {};
+void generateSeedJac(int dimOut, int dimIn, const std::span<uint *> JP,
+                     double ***Seed, int *p);
+template <>
+void generateSeedJac<CompressionMode::Column>(int dimOut, int dimIn,
+                                              const std::span<uint *> JP,
+                                              double ***Seed, int *p);
+template <>
+void generateSeedJac<CompressionMode::Row>(int dimOut, int dimIn,
+                                           const std::span<uint *> JP,
+                                           double ***Seed, int *p);
 /**
  * @brief Cached sparse Jacobian recovery data stored on a tape.
  *
-- 
2.43.0


From bf80fad4f8ea860c61cb2d51a349384fe1f06015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 34/94] fix: sparse_hess returned memory that cannot be
 released with delete[]

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 37 +++++++--------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index f8cccc8..c11394c 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -1357,33 +1357,20 @@ int computeSparseHess(short tag, int indep, const double *basepoint, int *nnz,
     for (int l = 0; l < indep; ++l)
       tape.sHInfos().Hcomp_[l][i] = tape.sHInfos().Zppp_[i][l][1];
 
-  if (*values != nullptr && *rind != nullptr && *cind != nullptr) {
-    // everything is preallocated, we assume correctly
-    // call usermem versions
-    if constexpr (RCM == RecoveryMethod::Indirect)
-      tape.sHInfos().indirectRecoverUserMem(rind, cind, values);
-    else if constexpr (RCM == RecoveryMethod::Direct)
-      tape.sHInfos().directRecoverUserMem(rind, cind, values);
-  } else {
+  if (*values == nullptr || *rind == nullptr || *cind == nullptr) {
     // at least one of rind cind values is not allocated, deallocate others
-    // and call unmanaged versions
-    if (*values != nullptr) {
-      delete[] *values;
-      *values = nullptr;
-    }
-    if (*rind != nullptr) {
-      delete[] *rind;
-      *rind = nullptr;
-    }
-    if (*cind != nullptr) {
-      delete[] *cind;
-      *cind = nullptr;
-    }
-    if constexpr (RCM == RecoveryMethod::Indirect)
-      tape.sHInfos().indirectRecover(rind, cind, values);
-    else if constexpr (RCM == RecoveryMethod::Direct)
-      tape.sHInfos().directRecover(rind, cind, values);
+    // and provide memory the caller can release with delete[]
+    delete[] *values;
+    delete[] *rind;
+    delete[] *cind;
+    *values = new double[*nnz];
+    *rind = new unsigned int[*nnz];
+    *cind = new unsigned int[*nnz];
   }
+  if constexpr (RCM == RecoveryMethod::Indirect)
+    tape.sHInfos().indirectRecoverUserMem(rind, cind, values);
+  else if constexpr (RCM == RecoveryMethod::Direct)
+    tape.sHInfos().directRecoverUserMem(rind, cind, values);
   return ret_val;
 }
 
-- 
2.43.0


From 4566d0f00a8d31ee1d39a1eb7befdd456312e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 35/94] fix: safe reverse bit patterns lost dependencies of a
 variable through condassign without alternative

---
 ADOL-C/src/fo_rev.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 3a6ef89..239ce07 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1929,11 +1929,9 @@ int int_reverse_safe(
       } else if (TARG == 0.0) /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
 #else
+      /* the result depends on arg1 and on its own previous value */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1970,11 +1968,9 @@ int int_reverse_safe(
               MINDEC(ret_c, 2);
       }
 #else
+      /* the result depends on arg1 and on its own previous value */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0


From f6a5919bb9fa520b514322df6869aebeaabe1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 36/94] fix: signature sweeps of the piecewise linearisation
 treated every switch as the first one

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1a3cc66..c7b7503 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3996,7 +3996,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From d83e60a2429a9951aded7cecf22d223af3cb12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 37/94] fix: fos_pl_sig_reverse dropped the adjoints of
 absolute values

---
 ADOL-C/src/fo_rev.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 239ce07..8d07e5b 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1641,8 +1641,11 @@ int int_reverse_safe(
       switchnum--;
 
 #elif defined(_ABS_NORM_SIG_)
-      ARES_INC = 0.0;
-      AARG_INC += siggrad[switchnum] * (*Ares);
+      {
+        const revreal aTmp = *Ares;
+        ARES_INC = 0.0;
+        AARG_INC += siggrad[switchnum] * aTmp;
+      }
       switchnum--;
 #else
 #if !defined(_NTIGHT_)
-- 
2.43.0


From e95f6b284c86cce6641473dfbc7a4182e4618f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 38/94] fix: directional_active_gradient read and wrote beyond
 its direction matrix

---
 ADOL-C/src/drivers/psdrivers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 454f550..4567ddc 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -127,7 +127,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
   bool done = 0;
   int j = 0;
 
-  while ((k < 6) && (done == 0)) {
+  // at most n directions: d and the unit vectors other than e_(max_dk)
+  while ((k < 6) && (k <= n) && (done == 0)) {
     fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
@@ -144,7 +145,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
     } else {
       if (j == max_dk)
         j++;
-      E[j][k] = 1;
+      if (k < n)
+        E[j][k] = 1;
       j++;
       k++;
     }
-- 
2.43.0


From d794e8e76676490ca52851f53009d08eee994a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 39/94] fix: sparse abs-normal form of tapes written to files
 used wrong dimensions

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index c11394c..1185410 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -851,8 +851,10 @@ void recover(const ValueTape &tape, SparseMatrix &sparseJac) {
 /// @brief Passes args to ANF recovery methods based on the template args.
 template <MemoryHandler MH>
 void recover(const ValueTape &tape, SparseANF &sparseANF) {
-  const int numInds = static_cast<int>(tape.numInds());
-  const int numSwitches = static_cast<int>(tape.numSwitches());
+  const int numInds =
+      static_cast<int>(tape.tapestats(TapeInfos::NUM_INDEPENDENTS));
+  const int numSwitches =
+      static_cast<int>(tape.tapestats(TapeInfos::NUM_SWITCHES));
   if constexpr (MH == MemoryHandler::Manual) {
     tape.sJInfos().recoverANFUserMem(sparseANF, numInds, numSwitches);
   } else {
-- 
2.43.0


From f93c30f78c50ed2a95afac57d5986457d92676a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 40/94] fix: directional_active_gradient depended on the length
 of the direction

---
 ADOL-C/src/drivers/psdrivers.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 4567ddc..476248f 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -106,6 +106,7 @@ int directional_active_gradient(short tag,       /* trace identifier */
   by = 1;
 
   const size_t s = get_num_switches(tag);
+  const std::vector<short> sigbase(s, 1);
 
   z = myalloc1(s);
 
@@ -129,7 +130,10 @@ int directional_active_gradient(short tag,       /* trace identifier */
 
   // at most n directions: d and the unit vectors other than e_(max_dk)
   while ((k < 6) && (k <= n) && (done == 0)) {
-    fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
+    // derivatives of the piecewise linearisation along the directions, not its
+    // increments: the signature must not depend on the length of d
+    fov_pl_sig_forward(tag, 1, n, k, x, E, static_cast<int>(s), sigbase.data(),
+                       nullptr, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
     for (size_t i = 0; i < s; i++) {
-- 
2.43.0


From 7c3f2c33a883bd9a51b5626d7c28e2e164c3dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 41/94] fix: external functions called with different arrays
 used the locations of the last call

call_ext_fct stored the first locations of its input and output arrays in
the ext_diff_fct, so several calls of one registered function read and
wrote the arrays of the last recorded call.  The locations are part of the
taped operation now (tape_doc already expected them there).
---
 ADOL-C/src/checkpointing.cpp   |  4 ++--
 ADOL-C/src/externfcts.cpp      |  6 +++---
 ADOL-C/src/fo_rev.cpp          | 10 ++++++++++
 ADOL-C/src/ho_rev.cpp          |  6 ++++++
 ADOL-C/src/tapedoc/tapedoc.cpp |  2 --
 ADOL-C/src/uni5_for.cpp        |  4 ++++
 6 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..6b218dd 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -655,8 +655,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(edf->index);
   tape.put_loc(cpInfos->dim);
   tape.put_loc(cpInfos->dim);
-  edf->firstIndLocation = cpInfos->adp_x[0].loc();
-  edf->firstDepLocation = cpInfos->adp_y[0].loc();
+  tape.put_loc(cpInfos->adp_x[0].loc());
+  tape.put_loc(cpInfos->adp_y[0].loc());
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..d07c270 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -72,9 +72,9 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers
-  edfct->firstDepLocation = ya->loc();
-  edfct->firstIndLocation = xa->loc();
+  // coefficient buffers; like the shape they belong to the taped operation
+  tape.put_loc(xa->loc());
+  tape.put_loc(ya->loc());
 
   if (edfct->nestedAdolc) {
     vals = new double[tape.storeSize()];
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 8d07e5b..79a20ff 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -407,6 +407,8 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
   int n, m;
   ext_diff_fct *edfct = nullptr;
+  size_t firstIndLocation = 0;
+  size_t firstDepLocation = 0;
   ext_diff_fct_v2 *edfct2 = nullptr;
   size_t iArrLength;
   size_t *iArr = nullptr;
@@ -2657,10 +2659,14 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
@@ -2736,6 +2742,8 @@ int int_reverse_safe(
       break;
     }
     case ext_diff_iArr: /* extern differntiated function */
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2745,6 +2753,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 393a4cf..a99b86f 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -431,6 +431,8 @@ int hov_ti_reverse(
 
   int n, m;
   ext_diff_fct *edfct = nullptr;
+  size_t firstIndLocation = 0;
+  size_t firstDepLocation = 0;
   /*----------------------------------------------------------------------*/
 #elif _HOV_    /* HOV */
   rpp_A = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), pk1);
@@ -2872,10 +2874,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..f811712 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1280,7 +1280,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1294,7 +1293,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index c7b7503..47c3a03 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5585,6 +5585,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5631,6 +5633,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From be7466934503571098db9d2473893a2a84b94dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 42/94] fix: EDFobject with separate tapes and EDFobject_iArr
 could not be called

The wrappers of the function callback looked the object up on the external
tape instead of the tape being recorded, and EDFobject_iArr registered the
wrapper of the wrong signature and no tape.
---
 ADOL-C/src/externfcts.cpp  | 22 ++++++++++++++--------
 ADOL-C/src/externfcts2.cpp |  6 ++++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index d07c270..2ce32f3 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -196,9 +196,11 @@ static int edfoo_wrapper_function(short tapeId, int m, int n, double *x,
   ext_diff_fct *edf;
   EDFobject *ebase;
 
-  ValueTape &tape = findTape(tapeId);
+  // tapeId is the external tape here, but the function is registered on the
+  // tape being recorded
+  ValueTape &tape = currentTape();
   // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
+  edf = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
   ebase = reinterpret_cast<EDFobject *>(edf->obj);
   return ebase->function(tapeId, m, n, x, y);
 }
@@ -279,15 +281,17 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
-edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
-                            int m, int n, double *x, double *y) {
+static int edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength,
+                                       size_t *iArr, int m, int n, double *x,
+                                       double *y) {
   ext_diff_fct *edf;
   EDFobject_iArr *ebase;
 
-  ValueTape &tape = findTape(tapeId);
+  // tapeId is the external tape here, but the function is registered on the
+  // tape being recorded
+  ValueTape &tape = currentTape();
   // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
+  edf = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
   ebase = reinterpret_cast<EDFobject_iArr *>(edf->obj);
   return ebase->function(tapeId, iArrLength, iArr, m, n, x, y);
 }
@@ -361,8 +365,10 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = edfoo_iarr_wrapper_function;
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..601d941 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -175,9 +175,11 @@ static int edfoo_v2_wrapper_function(short tapeId, size_t iArrLen, size_t *iArr,
   ext_diff_fct_v2 *edf;
   EDFobject_v2 *ebase;
 
-  ValueTape &tape = findTape(tapeId);
+  // tapeId is the external tape here, but the function is registered on the
+  // tape being recorded
+  ValueTape &tape = currentTape();
   // figure out which edf
-  edf = get_ext_diff_fct_v2(tapeId, tape.ext_diff_fct_index());
+  edf = get_ext_diff_fct_v2(tape.tapeId(), tape.ext_diff_fct_index());
   ebase = reinterpret_cast<EDFobject_v2 *>(edf->obj);
   return ebase->function(tapeId, iArrLen, iArr, nin, nout, insz, x, outsz, y,
                          ctx);
-- 
2.43.0


From cb69a3bb5bcc0752d8aa699f613144280e95f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 43/94] fix: version 2 external functions called with different
 shapes shared too little memory

When a later call had more or longer vectors in one dimension only, the
memory was replaced by one that was too small for the earlier calls.
---
 ADOL-C/src/externfcts2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 601d941..214d8ef 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -47,6 +47,11 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
       edfct->Xp == nullptr || edfct->Yp == nullptr || edfct->Up == nullptr ||
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
+    // earlier calls may have more or longer vectors
+    nin = (edfct->max_nin < nin) ? nin : edfct->max_nin;
+    nout = (edfct->max_nout < nout) ? nout : edfct->max_nout;
+    m_isz = (edfct->max_insz < m_isz) ? m_isz : edfct->max_insz;
+    m_osz = (edfct->max_outsz < m_osz) ? m_osz : edfct->max_outsz;
     char *tmp;
     size_t q = nout * m_osz;
     size_t totalmem =
-- 
2.43.0


From 432ce78ac660dd57a894351ed8bb599e86ca91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 44/94] fix: version 2 external functions wrote behind their
 memory

The size of the memory did not match the arrays placed in it, e.g. for two
input vectors and one output vector of length one.
---
 ADOL-C/src/externfcts2.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 214d8ef..633482f 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -53,15 +53,12 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
     m_isz = (edfct->max_insz < m_isz) ? m_isz : edfct->max_insz;
     m_osz = (edfct->max_outsz < m_osz) ? m_osz : edfct->max_outsz;
     char *tmp;
-    size_t q = nout * m_osz;
+    // see populate_dpp and populate_dppp_nodata
     size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
+        3 * (nin * m_isz + nout * m_osz) * sizeof(double) +
+        (3 * (nin + nout) + 2 * (nin * m_isz + nout * m_osz)) *
             sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+        2 * (nin + nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
-- 
2.43.0


From f9539ffa0e6420fa00f1f68a88c641e2621978e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 45/94] fix: two checkpointed loops disturbed each other

revolve keeps the state of one schedule only, but the schedules of all
loops of a tape are in progress between the forward and the reverse sweep.
Each loop has its own copy now.
---
 ADOL-C/include/adolc/checkpointing.h |  6 ++++++
 ADOL-C/src/checkpointing.cpp         | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..19cdbe1 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -88,6 +89,8 @@ struct Infos {
   adouble *adp_x{nullptr}; /* input of the first step */
   adouble *adp_y{nullptr}; /* output of the last step; will be set by ADOLC */
 
+  // state of the schedule; revolve itself keeps only one
+  revolve_nums revolveNumbers;
   int check{0};
   int capo{0};
   int fine{0};
@@ -117,6 +120,9 @@ struct Infos {
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
+  /** @brief Next action of the checkpoint schedule of this loop. */
+  revolve_action nextAction();
+
   /** @brief Raise an ADOL-C error for the current revolve status code. */
   void revolveError();
 };
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 6b218dd..9e25896 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -119,6 +119,15 @@ void detail::Infos::revolveError() {
   }
 }
 
+revolve_action detail::Infos::nextAction() {
+  // several loops may be in progress at the same time
+  get_revolve_numbers() = revolveNumbers;
+  const revolve_action whattodo =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  revolveNumbers = get_revolve_numbers();
+  return whattodo;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +138,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -350,8 +359,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -439,8 +447,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 6531919b8e40ae25a79574af82e1a2b4125f9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 46/94] fix: values overwritten by a checkpointed loop were not
 restored

checkpointing() declared that the prior values of the output are not
needed, so forward sweeps did not save them, although the operations in
front of the loop may use them (always if the loop works in place) and the
recording itself does write them to the Taylor stack.
---
 ADOL-C/src/checkpointing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 9e25896..a690d64 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -653,7 +653,7 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
-- 
2.43.0


From c46d74673ad9c60a909a932d0ae35bbfce23d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 47/94] fix: reverse sweeps lost adjoints of the input of
 checkpointed loops

The adjoints of the inputs computed by a checkpointed loop replaced those
of later uses of the same variables.  Reverse callbacks of external
functions add to the adjoints of the inputs; so does the checkpointing now,
and the adjoints of the outputs are cleared before the callback to keep
loops working in place correct.
---
 ADOL-C/src/checkpointing.cpp | 10 ++++----
 ADOL-C/src/fo_rev.cpp        | 46 +++++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index a690d64..cf6f191 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -412,8 +412,9 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   cpInfos->release(); // release first checkpoint if written
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  // add the results to the adjoints of the inputs
+  for (int i = 0; i < n; ++i)
+    z[i] += adjoint[i];
 
   return 0;
 }
@@ -502,9 +503,10 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   cpInfos->release();
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
+  // add the results to the adjoints of the inputs
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] += adjointRows[row][i];
   return 0;
 }
 
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 79a20ff..a602912 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2674,12 +2674,11 @@ int int_reverse_safe(
                          CURRENT_LOCATION);
 #ifdef _FOS_
       // Checkpointing can use the same memory for input and output.
-      // Keep z in a temp so clearing u does not wipe it.
-      std::vector<double> ext_z_buffer(to_size_t(n));
-      ext_u = rp_A + edfct->firstDepLocation;
-      std::copy(rp_A + edfct->firstIndLocation,
-                rp_A + edfct->firstIndLocation + n, ext_z_buffer.begin());
-      ext_z = ext_z_buffer.data();
+      // Keep u in a temp and clear it before the callback adds to z.
+      std::vector<double> ext_u_buffer(rp_A + edfct->firstDepLocation,
+                                       rp_A + edfct->firstDepLocation + m);
+      ext_u = ext_u_buffer.data();
+      ext_z = rp_A + edfct->firstIndLocation;
 #elif defined _FOV_
       ext_Uq = myalloc2(edfct->q, m);
       ext_Zq = myalloc2(edfct->q, n);
@@ -2695,6 +2694,13 @@ int int_reverse_safe(
       }
 #endif
 
+      // Set u to zero
+      res = edfct->firstDepLocation;
+      for (int loop = 0; loop < m; ++loop) {
+        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; /* \bar{v}_i = 0 !!! */ }
+        ++res;
+      }
+
       arg = edfct->firstIndLocation;
 #if defined _FOV_
       for (int loop = 0; loop < n; ++loop, ++arg) {
@@ -2706,16 +2712,7 @@ int int_reverse_safe(
       ext_retc = edfct->ADOLC_EXT_FCT_COMPLETE;
       MINDEC(ret_c, ext_retc);
 
-      // Set u to zero
-      res = edfct->firstDepLocation;
-      for (int loop = 0; loop < m; ++loop) {
-        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; }
-        ++res;
-      }
       res = edfct->firstIndLocation;
-#ifdef _FOS_
-      std::copy(ext_z_buffer.begin(), ext_z_buffer.end(), rp_A + res);
-#endif
 #if defined _FOV_
       for (int loop = 0; loop < n; ++loop, ++res) {
         for (int l = 0; l < edfct->q; l++) {
@@ -2741,7 +2738,7 @@ int int_reverse_safe(
 #endif
       break;
     }
-    case ext_diff_iArr: /* extern differntiated function */
+    case ext_diff_iArr: { /* extern differntiated function */
       firstDepLocation = tape.get_locint_r();
       firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
@@ -2761,7 +2758,9 @@ int int_reverse_safe(
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
                          CURRENT_LOCATION);
 #ifdef _FOS_
-      ext_u = rp_A + edfct->firstDepLocation;
+      std::vector<double> ext_u_buffer(rp_A + edfct->firstDepLocation,
+                                       rp_A + edfct->firstDepLocation + m);
+      ext_u = ext_u_buffer.data();
       ext_z = rp_A + edfct->firstIndLocation;
 #elif defined _FOV_
       ext_Uq = myalloc2(edfct->q, m);
@@ -2778,6 +2777,13 @@ int int_reverse_safe(
       }
 #endif
 
+      // Set u to zero
+      res = edfct->firstDepLocation;
+      for (int loop = 0; loop < m; ++loop) {
+        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; /* \bar{v}_i = 0 !!! */ }
+        ++res;
+      }
+
       arg = edfct->firstIndLocation;
 #if defined _FOV_
       for (int loop = 0; loop < n; ++loop, ++arg) {
@@ -2789,11 +2795,6 @@ int int_reverse_safe(
       ext_retc = edfct->ADOLC_EXT_FCT_IARR_COMPLETE;
       MINDEC(ret_c, ext_retc);
 
-      res = edfct->firstDepLocation;
-      for (int loop = 0; loop < m; ++loop) {
-        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; /* \bar{v}_i = 0 !!! */ }
-        ++res;
-      }
       res = edfct->firstIndLocation;
 #ifdef _FOV_
       for (int loop = 0; loop < n; ++loop, ++res) {
@@ -2821,6 +2822,7 @@ int int_reverse_safe(
       delete[] iArr;
       iArr = nullptr;
       break;
+    }
     case ext_diff_v2: {
       nout = tape.get_locint_r();
       nin = tape.get_locint_r();
-- 
2.43.0


From f7609b42684aeb0eaf5a1e73974a909537a5b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 48/94] fix: only one reverse sweep was possible over a
 checkpointed loop

A reverse sweep uses up the checkpoints, so a second one without a new
forward sweep (vec_jac with repeat, large_jacobian, ...) threw or returned
derivatives of a single step.  The first checkpoint is kept and the
schedule is started again.  Checkpoints of forward sweeps that are not
followed by a reverse sweep are dropped at the next one.
---
 ADOL-C/include/adolc/checkpointing.h |  1 +
 ADOL-C/src/checkpointing.cpp         | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 19cdbe1..7f0cc55 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -96,6 +96,7 @@ struct Infos {
   int fine{0};
   int info{0};
   int currentCP{0};
+  bool reversed{false}; /* checkpoints were used up by a reverse sweep */
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index cf6f191..f11d6e2 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -129,6 +129,9 @@ revolve_action detail::Infos::nextAction() {
 }
 
 void detail::Infos::revolveForward(int keep) {
+  // drop the states of a sweep that was not followed by a reverse sweep
+  clearStack();
+  reversed = false;
   /* init revolve */
   check = -1;
   capo = 0;
@@ -153,6 +156,9 @@ void detail::Infos::revolveForward(int keep) {
       break;
 
     case revolve_firsturn:
+      // the initial state is needed for further reverse sweeps
+      if (cpStack.empty())
+        takeSnapshot();
       tapeStep(keep);
       break;
 
@@ -350,6 +356,12 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   std::vector<double> adjoint(u, u + m);
   InternalForwardBuffer guard(cpInfos, state.data());
 
+  // a further reverse sweep: start again from the initial state
+  if (cpInfos->reversed) {
+    cpInfos->restore();
+    cpInfos->revolveForward(1);
+  }
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fos_reverse(cpInfos->cpTapeId, m, n, adjoint.data(), adjoint.data());
 
@@ -409,7 +421,8 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
       break;
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
-  cpInfos->release(); // release first checkpoint if written
+  // keep the first checkpoint for further reverse sweeps
+  cpInfos->reversed = true;
   tape.branchSwitchWarning(old_bsw);
 
   // add the results to the adjoints of the inputs
@@ -439,6 +452,12 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
               adjoint.data() + static_cast<size_t>(row) * m);
   setFovRows(adjoint, q, m, adjointRows);
 
+  // a further reverse sweep: start again from the initial state
+  if (cpInfos->reversed) {
+    cpInfos->restore();
+    cpInfos->revolveForward(1);
+  }
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fov_reverse(cpInfos->cpTapeId, m, n, q, adjointRows.data(),
                 adjointRows.data());
@@ -499,8 +518,8 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
 
-  // release first checkpoint if written
-  cpInfos->release();
+  // keep the first checkpoint for further reverse sweeps
+  cpInfos->reversed = true;
   tape.branchSwitchWarning(old_bsw);
 
   // add the results to the adjoints of the inputs
-- 
2.43.0


From 02ffc9548cb196bbc6def46fe5e514d85a5a2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 49/94] fix: fos_forward with keep did not prepare checkpointed
 loops for reverse

The reverse sweep used the checkpoints of an earlier zos_forward, or none.
---
 ADOL-C/src/checkpointing.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index f11d6e2..d31341c 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -239,7 +239,7 @@ int zos_forward(size_t cpIndex, short tapeId, [[maybe_unused]] int m, int n,
   return 0;
 }
 
-int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
+int fos_forward(size_t cpIndex, short tapeId, int m, int n, int keep,
                 const double *x, const double *X, double *y, double *Y) {
   ValueTape &tape = findTape(tapeId);
   detail::Infos *cpInfos = checkpointingInfos(tape, cpIndex);
@@ -251,6 +251,9 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
   std::vector<double> tangent(X, X + n);
   std::vector<double> nextState(m);
   std::vector<double> nextTangent(m);
+  void *nonAdoubles = nullptr;
+  if (keep != 0 && cpInfos->saveNonAdoubles != nullptr)
+    nonAdoubles = cpInfos->saveNonAdoubles();
 
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
@@ -272,6 +275,17 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
     tangent.swap(nextTangent);
   }
 
+  if (keep != 0) {
+    // prepare the reverse sweep
+    if (nonAdoubles != nullptr) {
+      cpInfos->restoreNonAdoubles(nonAdoubles);
+      delete[] static_cast<double *>(nonAdoubles);
+    }
+    state.assign(x, x + n);
+    InternalForwardBuffer guard(cpInfos, state.data());
+    cpInfos->revolveForward(keep);
+  }
+
   std::copy(state.begin(), state.end(), y);
   std::copy(tangent.begin(), tangent.end(), Y);
   return ret_c;
-- 
2.43.0


From ff3f6721a2f65ecb187e7f2fb2eded2654bea182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 50/94] fix: reverse sweeps lost the adjoint of array elements
 assigned to themselves

---
 ADOL-C/src/fo_rev.cpp | 13 +++++++------
 ADOL-C/src/ho_rev.cpp | 24 +++++++++++++-----------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a602912..fa553d5 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2176,15 +2176,16 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
 
-      FOR_0_LE_l_LT_p {
+      if (res != arg) /* the element may be assigned to itself */
+        FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-        AARG_INC |= *Ares;
-        ARES_INC = 0;
+          AARG_INC |= *Ares;
+          ARES_INC = 0;
 #else
-        AARG_INC += *Ares;
-        ARES_INC = 0.0;
+          AARG_INC += *Ares;
+          ARES_INC = 0.0;
 #endif
-      }
+        }
 
       rp_T[res] = tape.get_taylor();
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index a99b86f..9e9c611 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2283,19 +2283,21 @@ int hov_ti_reverse(
       ASSIGN_A(Aarg, rpp_A[arg])
       ASSIGN_A(Ares, rpp_A[res])
 
-      for (int l = 0; l < p; l++)
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          MAXDEC(AARG, ARES);
-          AARG_INC_O;
-          ARES_INC = 0.0;
-          for (int i = 0; i < k; i++) { /* ! no temporary */
-            AARG_INC += ARES;
+      if (res != arg) { /* the element may be assigned to itself */
+        for (int l = 0; l < p; l++)
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            MAXDEC(AARG, ARES);
+            AARG_INC_O;
             ARES_INC = 0.0;
+            for (int i = 0; i < k; i++) { /* ! no temporary */
+              AARG_INC += ARES;
+              ARES_INC = 0.0;
+            }
           }
-        }
+      }
 
       GET_TAYL(res, k, p)
       break;
-- 
2.43.0


From 8164e60b2683bcaa152a1fffb9a3e4308b3abb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 51/94] fix: advector::nondecreasing compared with minus
 infinity only

---
 ADOL-C/src/advector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 10975cb..cf4a1d3 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -438,8 +438,10 @@ void condeqassign(adubref &res, const adouble &cond, const adouble &arg) {
 bool advector::nondecreasing() const {
   bool ret = true;
   double last = -ADOLC_MATH_NSP::numeric_limits<double>::infinity();
-  for (const auto &a : data_)
+  for (const auto &a : data_) {
     ret = ret && (a.value() >= last);
+    last = a.value();
+  }
   return ret;
 }
 
-- 
2.43.0


From 6dc901f498f3deb99a4a5f2df966c47cd1844d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 52/94] fix: active subscripts addressed wrong variables when
 the elements of an advector were scattered

---
 ADOL-C/include/adolc/advector.h |  6 +++++-
 ADOL-C/src/advector.cpp         | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index 11d1956..1e46837 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -112,7 +112,11 @@ void ADOLC_API condeqassign(adubref &res, const adouble &cond,
                             const adouble &arg);
 
 class ADOLC_API advector {
-  std::vector<adouble> data_;
+  // subscripting may have to relocate the elements on the tape
+  mutable std::vector<adouble> data_;
+
+  // active subscripts need elements with contiguous locations
+  void makeContiguous() const;
 
 public:
   advector() = default;
diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index cf4a1d3..ad95093 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -435,6 +435,23 @@ void condeqassign(adubref &res, const adouble &cond, const adouble &arg) {
     res.refloc_value(arg.value());
 }
 
+void advector::makeContiguous() const {
+  const size_t n = data_.size();
+  size_t i = 1;
+  while (i < n && data_[i].loc() == data_[0].loc() + i)
+    ++i;
+  if (i >= n)
+    return;
+
+  // assigning temporaries to elements or copying vectors can scatter the
+  // locations, the elements have to be moved into a new block
+  std::vector<adouble> block(currentTape().ensureContiguousLocations_(n));
+  for (i = 0; i < n; ++i)
+    block[i] = data_[i];
+  for (i = 0; i < n; ++i)
+    data_[i] = std::move(block[i]);
+}
+
 bool advector::nondecreasing() const {
   bool ret = true;
   double last = -ADOLC_MATH_NSP::numeric_limits<double>::infinity();
@@ -448,6 +465,7 @@ bool advector::nondecreasing() const {
 adouble advector::operator[](const adouble &index) const {
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  makeContiguous();
   adouble ret_adouble;
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
@@ -474,6 +492,7 @@ adouble advector::operator[](const adouble &index) const {
 adubref advector::operator[](const adouble &index) {
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  makeContiguous();
   size_t locat = tape.next_loc();
   size_t n = data_.size();
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
-- 
2.43.0


From 4d909e2a36b8834daa7ab0b860b0f2847bc91765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 53/94] fix: arrays with scattered locations were used as if
 contiguous

---
 ADOL-C/include/adolc/adtb_types.h |  9 +++++++++
 ADOL-C/include/adolc/advector.h   |  5 ++++-
 ADOL-C/src/adouble.cpp            | 14 +++++++-------
 ADOL-C/src/advector.cpp           |  9 +++------
 ADOL-C/src/checkpointing.cpp      |  4 ++++
 ADOL-C/src/externfcts.cpp         |  4 ++--
 ADOL-C/src/externfcts2.cpp        |  4 ++--
 7 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index d818248..93e6952 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1101,6 +1101,15 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   return ret;
 }
 
+// vector operations, external functions and checkpointing address arrays by
+// the location of their first element
+inline bool adolc_contiguous(const adouble *const a, size_t size) {
+  for (size_t i = 1; i < size; ++i)
+    if (a[i].loc() != a[0].loc() + i)
+      return false;
+  return true;
+}
+
 /*---------------------------------------------------------------*/
 /* Advector functions  */
 // copies src to dest; both should be of size "size"
diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index 1e46837..5325d7e 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -125,7 +125,10 @@ public:
 
   advector(const advector &ad_vec)
       : data_(currentTape().ensureContiguousLocations_(ad_vec.size())) {
-    adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
+    if (ad_vec.size() > 0) {
+      ad_vec.makeContiguous();
+      adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
+    }
   }
 
   // given adouble vector might not have contiguous locations
diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 810f25c..0fff347 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5560,8 +5560,8 @@ void condeqassign(adouble &res, const adouble &cond, const adouble &arg) {
 void adolc_vec_copy(adouble *const dest, const adouble *const src,
                     size_t size) {
   ValueTape &tape = currentTape();
-  if (dest[size - 1].loc() - dest[0].loc() != size - 1 ||
-      src[size - 1].loc() - src[0].loc() != size - 1)
+  if (!adolc_contiguous(dest, size) ||
+      !adolc_contiguous(src, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(vec_copy);
@@ -5584,8 +5584,8 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
 adouble adolc_vec_dot(const adouble *const vec_a, const adouble *const vec_b,
                       size_t size) {
   ValueTape &tape = currentTape();
-  if (vec_a[size - 1].loc() - vec_a[0].loc() != size - 1 ||
-      vec_b[size - 1].loc() - vec_b[0].loc() != size - 1)
+  if (!adolc_contiguous(vec_a, size) ||
+      !adolc_contiguous(vec_b, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
 
   adouble ret_adouble;
@@ -5620,9 +5620,9 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
                     const adouble *const vec_a, const adouble *const vec_b,
                     size_t size) {
   ValueTape &tape = currentTape();
-  if (res[size - 1].loc() - res[0].loc() != size - 1 ||
-      vec_a[size - 1].loc() - vec_a[0].loc() != size - 1 ||
-      vec_b[size - 1].loc() - vec_b[0].loc() != size - 1)
+  if (!adolc_contiguous(res, size) ||
+      !adolc_contiguous(vec_a, size) ||
+      !adolc_contiguous(vec_b, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index ad95093..4109c4a 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -437,18 +437,15 @@ void condeqassign(adubref &res, const adouble &cond, const adouble &arg) {
 
 void advector::makeContiguous() const {
   const size_t n = data_.size();
-  size_t i = 1;
-  while (i < n && data_[i].loc() == data_[0].loc() + i)
-    ++i;
-  if (i >= n)
+  if (adolc_contiguous(data_.data(), n))
     return;
 
   // assigning temporaries to elements or copying vectors can scatter the
   // locations, the elements have to be moved into a new block
   std::vector<adouble> block(currentTape().ensureContiguousLocations_(n));
-  for (i = 0; i < n; ++i)
+  for (size_t i = 0; i < n; ++i)
     block[i] = data_[i];
-  for (i = 0; i < n; ++i)
+  for (size_t i = 0; i < n; ++i)
     data_[i] = std::move(block[i]);
 }
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index d31341c..d9ab3c6 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -689,6 +689,10 @@ int Context::checkpointing(short tapeId) {
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
   edf->dp_y_priorRequired = 1;
+  if (!adolc_contiguous(cpInfos->adp_x, to_size_t(cpInfos->dim)) ||
+      !adolc_contiguous(cpInfos->adp_y, to_size_t(cpInfos->dim)))
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
+                     CURRENT_LOCATION);
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 2ce32f3..f6f72f3 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -47,8 +47,8 @@ ext_diff_fct *reg_ext_fct(short tapeId, short extTapeId,
 }
 
 void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
-  if (xa[n - 1].loc() - xa[0].loc() != to_size_t(n - 1) ||
-      ya[m - 1].loc() - ya[0].loc() != to_size_t(m - 1))
+  if (!adolc_contiguous(xa, to_size_t(n)) ||
+      !adolc_contiguous(ya, to_size_t(m)))
     ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                      CURRENT_LOCATION);
   if (!edfct)
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 633482f..3821b0d 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -98,14 +98,14 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   tape.put_loc(nin);
   tape.put_loc(nout);
   for (size_t i = 0; i < nin; i++) {
-    if (x[i][insz[i] - 1].loc() - x[i][0].loc() != (unsigned)insz[i] - 1)
+    if (!adolc_contiguous(x[i], insz[i]))
       ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                        CURRENT_LOCATION);
     tape.put_loc(insz[i]);
     tape.put_loc(x[i][0].loc());
   }
   for (size_t i = 0; i < nout; i++) {
-    if (y[i][outsz[i] - 1].loc() - y[i][0].loc() != (unsigned)outsz[i] - 1)
+    if (!adolc_contiguous(y[i], outsz[i]))
       ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                        CURRENT_LOCATION);
     tape.put_loc(outsz[i]);
-- 
2.43.0


From 09182aa676a0974d5f43f3c35fe05eabe7e4ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 54/94] fix: reverse sweeps lost adjoints when a location used
 before became an independent

---
 ADOL-C/src/fo_rev.cpp |  6 ++++++
 ADOL-C/src/ho_rev.cpp | 16 ++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index fa553d5..69f385b 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -726,6 +726,9 @@ int int_reverse_safe(
         FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
       }
 #endif
+      /* the location may have been used before */
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
@@ -2206,6 +2209,9 @@ int int_reverse_safe(
 #else
       FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
 #endif
+      /* the element may have been set before */
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
 
       rp_T[res] = tape.get_taylor();
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 9e9c611..00d5470 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -619,9 +619,11 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        ARES_INC = 0.0; /* the location may have been used before */
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
@@ -2314,9 +2316,11 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        ARES_INC = 0.0; /* the element may have been set before */
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
-- 
2.43.0


From dbfa4b7c63ded5d0e5e20f110425ed86f6f20d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 55/94] fix: fov_reverse used the first adjoint only when an
 array was subscripted

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 69f385b..1bb1050 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2043,7 +2043,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 589e7b153ca31a1f0a7ca9d42bc110e087faa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 56/94] fix: traceless coefficients were never released

---
 ADOL-C/include/adolc/adtl_hov.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..fbc2f91 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -484,8 +484,8 @@ inline adouble::adouble(const adouble &a) : val(a.val), adval(NULL) {
 inline adouble::~adouble() {
   if (adval != NULL)
     delete[] adval;
-//    if(ho_deriv!=NULL)
-//    	delete[][]  ho_deriv;
+  if (ho_deriv != NULL)
+    myfree2(ho_deriv);
 #if 0
     if ( !pattern.empty() )
 	pattern.clear();
-- 
2.43.0


From 38b548972d43fb96762325aabc77fd0eef7d28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 57/94] fix: adding constants to higher-order traceless
 variables aborted

---
 ADOL-C/include/adolc/adtl_hov.h | 44 +++++----------------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index fbc2f91..8e0c71d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -515,9 +515,8 @@ inline adouble adouble::operator+() const { return *this; }
 
 // addition
 inline adouble adouble::operator+(const double v) const {
-  adouble tmp(val + v, adval);
-  if (do_indo())
-    tmp.add_to_pattern(get_pattern());
+  adouble tmp(*this);
+  tmp.val += v;
   return tmp;
 }
 
@@ -541,46 +540,15 @@ inline adouble adouble::operator+(const adouble &a) const {
 }
 
 inline adouble operator+(const double v, const adouble &a) {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(v+a.val,a.ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(v + a.val, a.adval);
-    tmp.add_to_pattern(a.get_pattern());
-    return tmp;
-  }
-
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(a.get_pattern());
-  }
+  adouble tmp(a);
+  tmp.val = v + a.val;
   return tmp;
 }
 
 // subtraction
 inline adouble adouble::operator-(const double v) const {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(val-v, adval,ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(val - v, adval);
-    tmp.add_to_pattern(get_pattern());
-    return tmp;
-  }
-
-  // adouble tmp(val-v, adval); moved up
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(get_pattern());
-  }
+  adouble tmp(*this);
+  tmp.val -= v;
   return tmp;
 }
 
-- 
2.43.0


From 5f35ba40d49b6e5bf3e5bff0b0311cacff0cb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 58/94] fix: higher-order traceless cosine returned minus the
 sine

---
 ADOL-C/include/adolc/adtl_hov.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 8e0c71d..ec8f3e1 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1038,7 +1038,7 @@ inline adouble cos(const adouble &a) {
 
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
-  return tmp2;
+  return tmp;
 }
 
 inline adouble asin(const adouble &a) {
-- 
2.43.0


From 21089ca33ccd2ee6e1ee571c63d9fadda88fe6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 59/94] fix: higher-order traceless cosh returned a wrong value

---
 ADOL-C/include/adolc/adtl_hov.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index ec8f3e1..c8ca59e 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1371,9 +1371,9 @@ inline adouble cosh(const adouble &a) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::cosh(a.val);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    tmp2 = ADOLC_MATH_NSP::sinh(a.val);
+    tmp2.val = ADOLC_MATH_NSP::sinh(a.val);
     FOR_I_EQ_0_LT_NUMDIR
-    tmp = a * tmp2;
+    tmp.ADVAL_I = tmp2.val * a.ADVAL_I;
   }
 
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From 50b9a7a2d4264d0b9ed44ac6ed20716cfe7fc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 60/94] fix: higher-order traceless powers of zero

---
 ADOL-C/include/adolc/adtl_hov.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index c8ca59e..3085e2d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1178,21 +1178,22 @@ inline adouble pow(const adouble &a, double v) {
   if (do_hoval()) // ADTL_HOV
   {
     if (a.val == 0.0) {
-      // idea: if v==adouble::degree  (as in: the power of a is equal to order
-      // of derivatives to be calculated)
-      //         then the derivative is a factorial of adouble::degree
-      //         tgamma(adouble::degree+1)
-      //  this is different than in GW08. The formula in the table gives a nan
-      //  for input zero.
-      double factorial_val = tgamma(v + 1.0);
-      for (size_t k = 0; k < adouble::degree; k++)
-        for (size_t l = 0; l < adouble::numDir; l++) {
-          tmp.ho_deriv[k][l] =
-              (1.0 / to_double(k + 1)) *
-              factorial_val; // division with k+1 (offset because of zero index
-                             // [0] ) because of distinction between tilde{u_k}
-                             // and u_k
-        }
+      // the recurrence divides by the value; powers with a nonnegative integer
+      // exponent are products of the argument
+      if (v >= 0 && v == ADOLC_MATH_NSP::floor(v)) {
+        adouble prod(1.0);
+        // v factors without constant term contribute to orders >= v only
+        if (v > to_double(adouble::degree))
+          prod = 0.0;
+        else
+          for (double f = 0; f < v; f += 1.0)
+            prod *= a;
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+        tmp.HO_DER_I_J = prod.HO_DER_I_J;
+      } else {
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+        tmp.HO_DER_I_J = makeNaN();
+      }
     } else {
       size_t i;
       double sum1 = 0.0, sum2 = 0.0;
-- 
2.43.0


From 0c09afae18a9cc086819d4025bcb497931ec2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 61/94] fix: higher-order traceless fabs used uninitialised
 coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 52 ++++++---------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 3085e2d..76c192e 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1544,51 +1544,17 @@ inline adouble fabs(const adouble &a) {
   }
   if (do_hoval()) // ADTL_HOV
   {
-    // find leading Taylor coefficient
-
-    // TODO: do not forget to check the function value. it is the zero-th taylor
-    // coefficient
-
-    int *leading_sgn = (int *)alloca(sizeof(int) * adouble::degree);
-    for (size_t l = 0; l < adouble::numDir; l++) // Init
-    {
-      leading_sgn[l] = 1;
-    }
-    bool found;
-
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        if (tmp.ho_deriv[k][l] > 0 && (!found)) {
-          leading_sgn[l] = 1;
-          found = true;
-          break;
-          // found leading coefficient for this direction. it is positive.
-          //  no need to do any further for this direction
-        }
-        if (tmp.ho_deriv[k][l] < 0 && (!found)) {
-          // found leading coefficient for this direction. it is negative.
-          found = true;
-          leading_sgn[l] = -1;
-          break;
-        }
-        /*
-        if(tmp.ho_deriv[k][l]=0 && (!found))
-        {
-                //not the leading Taylor coefficient
-                //continue searching
-        }
-        */
-      }
-      found = false;
-    }
-
-    // assume we found all leading Taylor coefficients
-
+    // the sign of the leading Taylor coefficient, beginning with the value
     for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        tmp.ho_deriv[k][l] *= leading_sgn[l];
-        // TODO do not forget zero-th Taylor coefficient
+      double sgn = a.val > 0 ? 1.0 : a.val < 0 ? -1.0 : 0.0;
+      for (size_t k = 0; k < adouble::degree && sgn == 0.0; k++) {
+        if (a.ho_deriv[k][l] > 0)
+          sgn = 1.0;
+        else if (a.ho_deriv[k][l] < 0)
+          sgn = -1.0;
       }
+      for (size_t k = 0; k < adouble::degree; k++)
+        tmp.ho_deriv[k][l] = sgn * a.ho_deriv[k][l];
     }
   }
   if (do_indo())
-- 
2.43.0


From 22d44c8bf2a53413bc31cb90a2791bd88cbc1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 62/94] fix: higher-order traceless erf and erfc left the
 coefficients unset

---
 ADOL-C/include/adolc/adtl_hov.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 76c192e..637b83a 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1933,6 +1933,22 @@ inline adouble erf(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    // tmp' = weight * a' with weight = 2/sqrt(pi) * exp(-a*a)
+    const adouble weight =
+        exp(-(a * a)) *
+        (2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0)));
+    for (size_t l = 0; l < adouble::numDir; l++) {
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = weight.val * to_double(k + 1) * a.ho_deriv[k][l];
+        for (size_t j = 0; j < k; j++)
+          sum += weight.ho_deriv[k - 1 - j][l] * to_double(j + 1) *
+                 a.ho_deriv[j][l];
+        tmp.ho_deriv[k][l] = sum / to_double(k + 1);
+      }
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
@@ -1953,6 +1969,22 @@ inline adouble erfc(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    // tmp' = weight * a' with weight = -2/sqrt(pi) * exp(-a*a)
+    const adouble weight =
+        exp(-(a * a)) *
+        (-2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0)));
+    for (size_t l = 0; l < adouble::numDir; l++) {
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = weight.val * to_double(k + 1) * a.ho_deriv[k][l];
+        for (size_t j = 0; j < k; j++)
+          sum += weight.ho_deriv[k - 1 - j][l] * to_double(j + 1) *
+                 a.ho_deriv[j][l];
+        tmp.ho_deriv[k][l] = sum / to_double(k + 1);
+      }
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
-- 
2.43.0


From ce468e5168088e156acd9ce7e03f97e829cfd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 63/94] fix: traceless products and quotients in place were
 wrong at higher order

---
 ADOL-C/include/adolc/adtl_hov.h | 72 +--------------------------------
 1 file changed, 2 insertions(+), 70 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 637b83a..c6c3702 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2149,42 +2149,7 @@ inline adouble &adouble::operator*=(const double v) {
 }
 
 inline adouble &adouble::operator*=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = ADVAL_I * a.val + val * a.ADVAL_I;
-  if (do_val())
-    val *= a.val;
-
-  adouble tmp;
-  tmp.val = val * a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = val * a.ho_deriv[k][l] + ho_deriv[k][l] * a.val;
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = sum;
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this * a;
 }
 
 inline adouble &adouble::operator/=(const double v) {
@@ -2204,40 +2169,7 @@ inline adouble &adouble::operator/=(const double v) {
 }
 
 inline adouble &adouble::operator/=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = (ADVAL_I * a.val - val * a.ADVAL_I) / (a.val * a.val);
-  if (do_val())
-    val = val / a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    adouble tmp;
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = tmp.val * a.ho_deriv[k][l];
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += tmp.ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = (1.0 / a.val) * (ho_deriv[k][l] - sum);
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this / a;
 }
 
 // not
-- 
2.43.0


From ec14e1dd8a37e9fe3dfe341156de77d1ba090fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 64/94] fix: self-assignment lost the index domain of traceless
 variables

---
 ADOL-C/include/adolc/adtl_hov.h  | 2 ++
 ADOL-C/include/adolc/adtl_indo.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index c6c3702..a6241e0 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2066,6 +2066,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   if (do_val())
     val = a.val;
   if (do_adval())
diff --git a/ADOL-C/include/adolc/adtl_indo.h b/ADOL-C/include/adolc/adtl_indo.h
index 14c8699..c48618a 100644
--- a/ADOL-C/include/adolc/adtl_indo.h
+++ b/ADOL-C/include/adolc/adtl_indo.h
@@ -725,6 +725,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   val = a.val;
   if (!pattern.empty())
     pattern.clear();
-- 
2.43.0


From 8368623d5770d977af53b1dca8e619506e62a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 65/94] fix: traceless atan2 had no derivative at zero second
 argument

---
 ADOL-C/include/adolc/adtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..08dddea 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -572,11 +572,11 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::atan2(a.PRIMAL_VALUE, b.PRIMAL_VALUE);
   double tmp2 = a.PRIMAL_VALUE * a.PRIMAL_VALUE;
   double tmp3 = b.PRIMAL_VALUE * b.PRIMAL_VALUE;
-  double tmp4 = tmp3 / (tmp2 + tmp3);
+  double tmp4 = tmp2 + tmp3;
   if (tmp4 != 0)
     FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I =
-      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp3 * tmp4;
+      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp4;
   else FOR_I_EQ_1_LTEQ_NUMDIR tmp.ADVAL_I = 0.0;
   return tmp;
 }
-- 
2.43.0


From 1bf405233e151074fb23d5d65c9739ef05a485fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 66/94] fix: the reverse mode of fixpoint iterations started
 from uninitialised memory

---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..5d1a00e 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -169,7 +169,7 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   if (current == fpi_stack.end())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
-  double *U = new double[dim_xu];
+  double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
-- 
2.43.0


From b98c8fa421980d4c554d6689ca53efaf3f9a4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 67/94] fix: fixpoint iterations on several tapes used each
 other's functions

---
 ADOL-C/src/fixpoint.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 5d1a00e..a14c0c3 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,6 +28,7 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
+  short tape_num;
   size_t edf_index;
   short sub_tape_num;
   double_F double_func;
@@ -42,6 +43,19 @@ struct fpi_data {
 
 static std::vector<fpi_data> fpi_stack;
 
+// Find the latest fpi_stack element of tape 'tape_num' with index 'edf_index'.
+// The indices of external functions are unique per tape only.
+static const fpi_data *find_fpi_data(short tape_num, size_t edf_index) {
+  auto current = std::find_if(
+      fpi_stack.rbegin(), fpi_stack.rend(), [&](const fpi_data &v) {
+        return v.tape_num == tape_num && v.edf_index == edf_index;
+      });
+
+  if (current == fpi_stack.rend())
+    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  return &*current;
+}
+
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
   const fpi_data &current = fpi_stack.back();
@@ -75,13 +89,7 @@ static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
   double err;
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = find_fpi_data(tapeId, edf_index);
 
   for (int i = 0; i < dim_x; ++i)
     x_fix[i] = xu[i];
@@ -114,13 +122,7 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = find_fpi_data(tapeId, edf_index);
   for (size_t k = 1; (k < current->N_max_deriv) || (k < current->N_max); ++k) {
     if (k > 1) {
       for (int i = 0; i < dim_x; ++i)
@@ -161,13 +163,7 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   ValueTape &tape = findTape(tapeId);
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = find_fpi_data(tapeId, edf_index);
 
   double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
@@ -223,6 +219,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // add new fp information
   fpi_stack.emplace_back(fpi_data{
+      tapeId,
       edf_iteration->index,
       sub_tape_num,
       double_func,
-- 
2.43.0


From 7d57a4bba14a82e2a405e1b91b9410d09336030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 68/94] fix: the reverse mode of fixpoint iterations used the
 values of another point

---
 ADOL-C/src/fixpoint.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index a14c0c3..8c8f290 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -155,8 +155,8 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 }
 
 static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar, double *,
-                          double *) {
+                          double *x_fix_bar, double *xu_bar, double *xu,
+                          double *x_fix) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
@@ -168,6 +168,12 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
+  // the sub tape has to hold the Taylor values of the fixed point at which the
+  // calling tape is reversed
+  std::vector<double> point(x_fix, x_fix + dim_x);
+  point.insert(point.end(), xu + dim_x, xu + dim_xu);
+  zos_forward(current->sub_tape_num, dim_x, dim_xu, 1, point.data(), xi);
+
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
-- 
2.43.0


From ecaae3af1aa1cb5465f4063a6bb4ecd1615d305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 69/94] fix: the Fortran ODE drivers freed pointers that were
 never allocated

---
 ADOL-C/src/drivers/odedriversf.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..f6634aa 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -46,8 +46,7 @@ fint forodec_(fint *ftag,    /* tape identifier */
     *Y[i] = fy[i];
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -68,12 +67,8 @@ fint accodec_(fint *fn,      /* space dimension */
   spread3(n, n, deg, fa, A);
   accodec(n, tau, deg, A, B, 0);
   pack3(n, n, deg, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From 20f5bed03a4ca2efc650a3c2c0716e5d78b2f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 70/94] fix: forodec_ ignored the Taylor coefficients known
 already

---
 ADOL-C/src/drivers/odedriversf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index f6634aa..82c5b0a 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,11 +39,12 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
+  int i, j;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
   for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+    for (j = 0; j <= dol; j++)
+      Y[i][j] = fy[j * n + i];
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
   myfree2(Y);
-- 
2.43.0


From 108b4632dfd468a0069c5b29ac42d658b99fa64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 71/94] fix: hessian_ overwrote the upper triangle with
 uninitialised values

---
 ADOL-C/src/drivers/driversf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/src/drivers/driversf.cpp b/ADOL-C/src/drivers/driversf.cpp
index 6989dd9..9d92e4c 100644
--- a/ADOL-C/src/drivers/driversf.cpp
+++ b/ADOL-C/src/drivers/driversf.cpp
@@ -155,6 +155,7 @@ fint hessian_(fint *ftag, fint *fn, fdouble *fx,
   double **H = myalloc2(n, n);
   double *x = myalloc1(n);
   spread1(n, fx, x);
+  spread2(n, n, fh, H);
   rc = hessian(tag, n, x, H);
   pack2(n, n, H, fh);
   myfree2(H);
-- 
2.43.0


From e1d6a2589a7b70134e764e8a8363aa7d394b9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 72/94] fix: free_short_mat mismatched the allocation and
 leaked the rows

---
 ADOL-C/c_interface/array_handler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/c_interface/array_handler.cpp b/ADOL-C/c_interface/array_handler.cpp
index 597b19b..a14262b 100644
--- a/ADOL-C/c_interface/array_handler.cpp
+++ b/ADOL-C/c_interface/array_handler.cpp
@@ -25,10 +25,14 @@ void setindex_tens(double ***A, const double val, const int dim, const int row,
 
 short **alloc_short_mat(const int rows, const int cols) {
   short **s = new short *[rows];
-  for (int i = 0; i < rows; i++) {
-    s[i] = new short[cols];
+  s[0] = new short[rows * cols];
+  for (int i = 1; i < rows; i++) {
+    s[i] = s[0] + i * cols;
   }
   return s;
 }
-void free_short_mat(short **s) { delete s; }
+void free_short_mat(short **s) {
+  delete[] s[0];
+  delete[] s;
+}
 }
\ No newline at end of file
-- 
2.43.0


From 2540dabeb07354834f3b06e767ed9f40b26af070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 73/94] fix: accodec_ used arrays that were one coefficient too
 short

---
 ADOL-C/src/drivers/odedriversf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index 82c5b0a..b727fd6 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -63,11 +63,11 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
+  pack3(n, n, deg + 1, B, fb);
   myfree3(A);
   myfree3(B);
   return rc;
-- 
2.43.0


From 746603f180f9404280244ead5fab13e051046aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 74/94] fix: a sweep left by an error kept its tape locked

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 20 ++++++++++++++++++++
 ADOL-C/src/fo_rev.cpp                      |  1 +
 ADOL-C/src/ho_rev.cpp                      |  1 +
 ADOL-C/src/tapedoc/tapedoc.cpp             |  1 +
 ADOL-C/src/uni5_for.cpp                    |  5 +++++
 5 files changed, 28 insertions(+)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 3d70d30..a386602 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -815,6 +815,26 @@ public:
   }
   // finish a forward or reverse sweep
   void end_sweep();
+
+  /// Finishes a sweep that is left by an exception, such that the tape remains
+  /// usable. The values kept by an aborted forward sweep are discarded.
+  class SweepGuard {
+    ValueTape &tape_;
+    const bool keep_;
+
+  public:
+    explicit SweepGuard(ValueTape &tape, bool keep = false)
+        : tape_(tape), keep_(keep) {}
+    SweepGuard(const SweepGuard &) = delete;
+    SweepGuard &operator=(const SweepGuard &) = delete;
+    ~SweepGuard() {
+      if (tape_.workMode() != TapeInfos::READ_ACCESS)
+        return;
+      tape_.end_sweep();
+      if (keep_)
+        tape_.finish_tay_file();
+    }
+  };
   // initialization for the taping process -> buffer allocation, sets files
   // names, and calls appropriate setup routines
   void start_trace();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 1bb1050..2abef90 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -448,6 +448,7 @@ int int_reverse_safe(
   /*------------------------------------------------------------------------*/
   /* Set up stuff for the tape */
   /* Initialize the Reverse Sweep */
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 00d5470..4c0017f 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -402,6 +402,7 @@ int hov_ti_reverse(
   /* Set up stuff for the tape */
 
   /* Initialize the Reverse Sweep */
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index f811712..008f392 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -266,6 +266,7 @@ void tape_doc(short tnum,     /* tape id */
   int i;
   double aDouble;
 #endif
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
   tag = tnum;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 47c3a03..b12f1aa 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,11 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+#if defined(_KEEP_)
+  const ValueTape::SweepGuard sweepGuard(tape, keep != 0);
+#else
+  const ValueTape::SweepGuard sweepGuard(tape);
+#endif
   tape.init_sweep<ValueTape::Forward>();
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
-- 
2.43.0


From 9006116bdae8467481b1706e585f503890a8a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 75/94] fix: the minimum and maximum mode could be changed
 while tracing

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index a386602..204cf43 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -404,7 +404,7 @@ public:
     globalTapeVars_.branchSwitchWarning = 0;
   }
   void enableMinMaxUsingAbs() {
-    if (workMode() != TapeInfos::READ_ACCESS)
+    if (workMode() != TapeInfos::WRITE_ACCESS)
       globalTapeVars_.nominmaxFlag = 1;
     else
       ADOLCError::fail(ADOLCError::ErrorType::ENABLE_MINMAX_USING_ABS,
@@ -412,7 +412,7 @@ public:
   }
 
   void disableMinMaxUsingAbs() {
-    if (workMode() != TapeInfos::READ_ACCESS)
+    if (workMode() != TapeInfos::WRITE_ACCESS)
       globalTapeVars_.nominmaxFlag = 0;
     else
       ADOLCError::fail(ADOLCError::ErrorType::DISABLE_MINMAX_USING_ABS,
-- 
2.43.0


From 443217a090826b086413052353cb0106c2db684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 76/94] fix: a rejected trace_on changed the current tape and
 the tape to return to

---
 ADOL-C/src/tape_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index bdb52ee..d9e4a71 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -39,11 +39,11 @@
 int trace_on(short tapeId, int keepTaylors) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is still in use
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
@@ -63,11 +63,11 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
              size_t tbs, int skipFileCleanup) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is still in use
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
-- 
2.43.0


From 34a453b99f7769f8835b7bb07c82092e078104d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 77/94] fix: an active subscript out of bounds was recorded
 before it was rejected

---
 ADOL-C/src/advector.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 4109c4a..4f4a5e6 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -462,6 +462,10 @@ bool advector::nondecreasing() const {
 adouble advector::operator[](const adouble &index) const {
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  // nothing is recorded for an invalid index
+  if (idx >= size())
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
   makeContiguous();
   adouble ret_adouble;
 
@@ -478,10 +482,6 @@ adouble advector::operator[](const adouble &index) const {
       tape.write_scaylor(ret_adouble.value());
   }
 
-  if (idx >= size())
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
-
   ret_adouble.value(data_[idx].value());
   return ret_adouble;
 }
@@ -489,9 +489,12 @@ adouble advector::operator[](const adouble &index) const {
 adubref advector::operator[](const adouble &index) {
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  const size_t n = data_.size();
+  if (idx >= n)
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
   makeContiguous();
   size_t locat = tape.next_loc();
-  size_t n = data_.size();
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(subscript_ref);
     tape.put_loc(index.loc());
@@ -504,10 +507,6 @@ adubref advector::operator[](const adouble &index) {
       tape.write_scaylor(tape.get_ad_value(locat));
   }
 
-  if (idx >= n)
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
-
   tape.set_ad_value(locat, static_cast<double>(data_[idx].loc()));
   return adubref(locat, data_[idx].loc());
 }
-- 
2.43.0


From 62ed14953824173577511a50a67e81a6fb97d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 78/94] fix: calls of external functions were recorded before
 their arguments were rejected

---
 ADOL-C/src/externfcts.cpp  | 14 +++++++++-----
 ADOL-C/src/externfcts2.cpp | 16 ++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index f6f72f3..985f731 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -47,20 +47,18 @@ ext_diff_fct *reg_ext_fct(short tapeId, short extTapeId,
 }
 
 void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
+  if (!edfct)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
+                     CURRENT_LOCATION);
   if (!adolc_contiguous(xa, to_size_t(n)) ||
       !adolc_contiguous(ya, to_size_t(m)))
     ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                      CURRENT_LOCATION);
-  if (!edfct)
-    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
-                     CURRENT_LOCATION);
 }
 
 void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
                               adouble *ya, double *&vals) {
 
-  check_input(edfct, n, xa, m, ya);
-
   ValueTape &tape = findTape(edfct->tapeId);
 
   tape.put_loc(edfct->index);
@@ -120,6 +118,9 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
   assert(n >= 0);
   assert(m >= 0);
 
+  // nothing is recorded for invalid arguments
+  check_input(edfct, n, xa, m, ya);
+
   ValueTape &tape = findTape(edfct->tapeId);
 
   tape.put_op(ext_diff);
@@ -152,6 +153,9 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
   assert(n >= 0);
   assert(m >= 0);
 
+  // nothing is recorded for invalid arguments
+  check_input(edfct, n, xa, m, ya);
+
   ValueTape &tape = findTape(edfct->tapeId);
   tape.put_op(ext_diff_iArr, iArrLength + 2);
   tape.put_loc(iArrLength);
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3821b0d..68ff19a 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -89,6 +89,16 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
 
   ValueTape &tape = findTape(edfct->tapeId);
 
+  // nothing is recorded for invalid arguments
+  for (size_t i = 0; i < nin; i++)
+    if (!adolc_contiguous(x[i], insz[i]))
+      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
+                       CURRENT_LOCATION);
+  for (size_t i = 0; i < nout; i++)
+    if (!adolc_contiguous(y[i], outsz[i]))
+      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
+                       CURRENT_LOCATION);
+
   tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
   tape.put_loc(edfct->index);
   tape.put_loc(iArrLen);
@@ -98,16 +108,10 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   tape.put_loc(nin);
   tape.put_loc(nout);
   for (size_t i = 0; i < nin; i++) {
-    if (!adolc_contiguous(x[i], insz[i]))
-      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
-                       CURRENT_LOCATION);
     tape.put_loc(insz[i]);
     tape.put_loc(x[i][0].loc());
   }
   for (size_t i = 0; i < nout; i++) {
-    if (!adolc_contiguous(y[i], outsz[i]))
-      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
-                       CURRENT_LOCATION);
     tape.put_loc(outsz[i]);
     tape.put_loc(y[i][0].loc());
   }
-- 
2.43.0


From 9a5faaa8eddf7a4e737811375510d3a38d29c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 79/94] fix: a checkpointed loop without output crashed instead
 of reporting the error

---
 ADOL-C/src/checkpointing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index d9ab3c6..9e1927d 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -210,7 +210,7 @@ void checkInput(short tapeId, detail::Infos *cpInfos) {
     fail(CHECKPOINTING_NULLPOINTER_FUNCTION, CURRENT_LOCATION);
   if (cpInfos->function_double == nullptr)
     fail(CHECKPOINTING_NULLPOINTER_FUNCTION_DOUBLE, CURRENT_LOCATION);
-  if (cpInfos->adp_x == nullptr)
+  if (cpInfos->adp_x == nullptr || cpInfos->adp_y == nullptr)
     fail(CHECKPOINTING_NULLPOINTER_ARGUMENT, CURRENT_LOCATION);
 }
 
-- 
2.43.0


From 63d92675ff94e9b6cfd135b4e590eb5c6b4950ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:03 +0000
Subject: [PATCH 80/94] fix: a forward sweep with wrong counts was reported as
 a reverse sweep

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b12f1aa..55dc13d 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1102,7 +1102,7 @@ int hov_forward(
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
       (to_size_t(indcheck) != tape.tapestats(TapeInfos::NUM_INDEPENDENTS)))
-    ADOLCError::fail(ADOLCError::ErrorType::REVERSE_COUNTS_MISMATCH,
+    ADOLCError::fail(ADOLCError::ErrorType::FWD_COUNTS_MISMATCH,
                      CURRENT_LOCATION,
                      ADOLCError::FailInfo{
                          .info1 = tnum,
-- 
2.43.0


From f4d4300fcaf155940662ba057891120483e6f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 81/94] fix: the fixed point registry was shared between
 threads

---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 8c8f290..ff16ec1 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -41,7 +41,7 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
+static thread_local std::vector<fpi_data> fpi_stack;
 
 // Find the latest fpi_stack element of tape 'tape_num' with index 'edf_index'.
 // The indices of external functions are unique per tape only.
-- 
2.43.0


From 8191142a21292b1d82e2fb920763b46cef688971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 82/94] fix: overloaded sweeps shared work arrays between
 threads

---
 ADOL-C/src/interfaces.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..71765c5 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -92,8 +92,8 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double **Y)
 int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
 /* forward(tag, 1, n, d, keep, X[n][d+1], Y[d+1]), m=1                      */
 { /* olvo 980729 general ec */
-  static double *x, *xp;
-  static int maxn;
+  static thread_local double *x, *xp;
+  static thread_local int maxn;
   double y;
   int rc = -1, i, k;
 
@@ -349,8 +349,8 @@ int reverse(short tag, int m, int n, int d, double ***Z, short **nz)
 /* reverse(tag, m, n, d, Z[p][n][d+1], nz[p][n]),
            If p and U are omitted they default to m and I                   */
 {
-  static int depax;
-  static double **I;
+  static thread_local int depax;
+  static thread_local double **I;
   if (m adolc_compsize depax) {
     if (depax)
       myfreeI2(depax, I);
-- 
2.43.0


From 24417358382b403b0d211faa222ebcd4a495e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 83/94] fix: Taylor series drivers shared work arrays between
 threads

---
 ADOL-C/src/drivers/taylor.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8383122..7919abe 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -490,17 +490,17 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
 /****************************************************************************/
 int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   int i, j, l, q;
-  static double **I;
+  static thread_local double **I;
   double bi;
-  static double **Xhelp;
-  static double **W;
-  static double *xold;
-  static double ***A;
-  static double *w;
-  static int *dd;
-  static double *b;
-  static int nax, dax, bd, cgd;
-  static short **nonzero;
+  static thread_local double **Xhelp;
+  static thread_local double **W;
+  static thread_local double *xold;
+  static thread_local double ***A;
+  static thread_local double *w;
+  static thread_local int *dd;
+  static thread_local double *b;
+  static thread_local int nax, dax, bd, cgd;
+  static thread_local short **nonzero;
   short *nz;
   double *Aij;
   double *Xj;
@@ -621,8 +621,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int *it = (int *)malloc(d * sizeof(int));
   double **X;
   double **Y;
@@ -721,8 +721,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int **jm;
   int *it = (int *)malloc(d * sizeof(int));
   double *y = (double *)malloc(m * sizeof(double));
-- 
2.43.0


From 06e2b3cbfd3ffbdc9092688f97d421caeb769e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 84/94] fix: Lie derivative drivers shared work arrays between
 threads

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 93fff18..40ea6fb 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -273,9 +273,9 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double *x = myalloc1(n);
   double *y = myalloc1(m);
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   int i = 0, j = 0, l = 0, k = 0, rc = -1;
   double Fak = 1.0;
@@ -389,9 +389,9 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   int i = 0, k = 0;
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
@@ -464,8 +464,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   int i, k;
 
   /* static identity matrix for hov_reverse  */
-  static int depax_n = 0;
-  static double **In = NULL;
+  static thread_local int depax_n = 0;
+  static thread_local double **In = NULL;
 
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
-- 
2.43.0


From c3bd62bf40ef3629d150584099ab8f527b3272a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 85/94] fix: the state of the checkpoint schedule was shared
 between threads

---
 ADOL-C/include/adolc/revolve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 7295d87..59de893 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -29,7 +29,7 @@ struct revolve_nums {
   int oldfine{0};
 };
 
-inline revolve_nums revolve_numbers;
+inline thread_local revolve_nums revolve_numbers;
 
 inline revolve_nums &get_revolve_numbers() { return revolve_numbers; }
 
-- 
2.43.0


From da5f6e3dd4648d6c02cf9b1a88a744d42183bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:19 +0000
Subject: [PATCH 86/94] fix: derivatives at boundary points had wrong signs or
 were left unset

---
 ADOL-C/src/uni5_for.cpp | 200 ++++++++++------------------------------
 1 file changed, 47 insertions(+), 153 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 55dc13d..e2339ab 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -489,6 +489,26 @@ END_C_DECLS
 #define BREAK_FOR_I ;
 #endif
 
+#if !defined(_ZOS_) && !defined(_INT_FOR_) && !defined(_INDO_)
+/* derivatives at a boundary point of the domain: a direction that leaves the
+   point has infinite or no derivatives, one that stays there has none at all */
+static void boundary_taylors(double *res, const double *arg, int k, double up,
+                             double down) {
+  int i = 0;
+  while (i < k && arg[i] == 0.0)
+    i++;
+  const double first =
+      i > 0 ? ValueTape::make_nan() : (arg[0] > 0.0 ? up : down);
+  for (int j = 0; j < k; j++)
+    res[j] = i == k ? 0.0 : (j == 0 ? first : ValueTape::make_nan());
+}
+#if defined(_HIGHER_ORDER_)
+#define TAYLOR_COEFFS k
+#else
+#define TAYLOR_COEFFS 1
+#endif
+#endif
+
 /* END Macros */
 
 BEGIN_C_DECLS
@@ -2765,41 +2785,15 @@ int hov_forward(
 
       if (coval == 1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES = r0;
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_nan(), -tape.make_inf());
           VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES = r0;
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_inf(), tape.make_nan());
           VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else
         FOR_0_LE_l_LT_p {
@@ -2866,41 +2860,15 @@ int hov_forward(
 
       if (coval == 1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = -tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES = r0;
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_nan(), tape.make_inf());
           VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = -tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES = r0;
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, -tape.make_inf(), tape.make_nan());
           VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else
         FOR_0_LE_l_LT_p {
@@ -3028,25 +2996,9 @@ int hov_forward(
 
       if (coval == 1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES_INC = r0;
-#if defined(_HIGHER_ORDER_)
-          for (int i = 1; i < k; i++)
-            *Tres++ = tape.make_nan();
-#endif /* _HIGHER_ORDER_ */
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_inf(), tape.make_nan());
+          VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else
         FOR_0_LE_l_LT_p {
@@ -3114,47 +3066,15 @@ int hov_forward(
 
       if (coval == 1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES_INC = r0;
-#if defined(_HIGHER_ORDER_)
-          for (int i = 1; i < k; i++)
-            *Tres++ = tape.make_nan();
-#endif /* _HIGHER_ORDER_ */
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_nan(), -tape.make_inf());
+          VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
-          FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
-            r0 = tape.make_inf();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else if (TARG1 < 0.0) {
-            r0 = tape.make_nan();
-            VEC_INC(Targ1, k - i)
-            BREAK_FOR_I
-          }
-          else {
-            r0 = 0.0;
-            Targ1++;
-          }
-          TRES_INC = r0;
-#if defined(_HIGHER_ORDER_)
-          for (int i = 1; i < k; i++)
-            *Tres++ = tape.make_nan();
-#endif /* _HIGHER_ORDER_ */
+          boundary_taylors(Tres, Targ1, TAYLOR_COEFFS, tape.make_inf(), tape.make_nan());
+          VEC_INC(Tres, k)
+          VEC_INC(Targ1, k)
         }
       else
         FOR_0_LE_l_LT_p {
@@ -3540,27 +3460,13 @@ int hov_forward(
       FOR_0_LE_l_LT_p TRES_FOINC = TARG_INC;
 #else
       FOR_0_LE_l_LT_p {
-        TargOP = Targ;
-        if (dp_T0[arg] == 0.0)
         /* Note: <=> dp_T0[res] == 0.0 */
-        {
-          r0 = 0.0;
-          FOR_0_LE_i_LT_k {
-            if (TARG > 0.0) {
-              r0 = tape.make_inf();
-              VEC_INC(Targ, k - i)
-              BREAK_FOR_I
-            } else if (TARG < 0.0) {
-              r0 = tape.make_nan();
-              VEC_INC(Targ, k - i)
-              BREAK_FOR_I
-            } else
-              Targ++;
-          }
+        if (dp_T0[arg] == 0.0) {
+          boundary_taylors(Tres, Targ, TAYLOR_COEFFS, tape.make_inf(), tape.make_nan());
+          VEC_INC(Tres, k)
+          VEC_INC(Targ, k)
         } else {
           r0 = 0.5 / dp_T0[res];
-        }
-        Targ = TargOP;
 
 #if defined(_HIGHER_ORDER_)
         int even = 1;
@@ -3581,6 +3487,7 @@ int hov_forward(
           *Tres++ -= r0 * x;
 #endif /* _HIGHER_ORDER_ */
         }
+        }
       }
 #endif
 #endif
@@ -3622,27 +3529,13 @@ int hov_forward(
       FOR_0_LE_l_LT_p TRES_FOINC = TARG_INC;
 #else
       FOR_0_LE_l_LT_p {
-        TargOP = Targ;
-        if (dp_T0[arg] == 0.0)
         /* Note: <=> dp_T0[res] == 0.0 */
-        {
-          r0 = 0.0;
-          FOR_0_LE_i_LT_k {
-            if (TARG > 0.0) {
-              r0 = tape.make_inf();
-              VEC_INC(Targ, k - i)
-              BREAK_FOR_I
-            } else if (TARG < 0.0) {
-              r0 = tape.make_nan();
-              VEC_INC(Targ, k - i)
-              BREAK_FOR_I
-            } else
-              Targ++;
-          }
+        if (dp_T0[arg] == 0.0) {
+          boundary_taylors(Tres, Targ, TAYLOR_COEFFS, tape.make_inf(), -tape.make_inf());
+          VEC_INC(Tres, k)
+          VEC_INC(Targ, k)
         } else {
           r0 = 1.0 / (3 * dp_T0[res] * dp_T0[res]);
-        }
-        Targ = TargOP;
 
         FOR_0_LE_i_LT_k {
           TRES_FOINC = r0 * TARG_INC;
@@ -3652,6 +3545,7 @@ int hov_forward(
                            ADOLCError::FailInfo{.info7 = operation});
 #endif /* _HIGHER_ORDER_ */
         }
+        }
       }
 #endif
 #endif
-- 
2.43.0


From 7fea03ed6251fd97319ac3df41da22f81e5ddd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 87/94] fix: powers with whole exponents had wrong derivatives
 at base zero

---
 ADOL-C/src/fo_rev.cpp   |  2 +-
 ADOL-C/src/ho_rev.cpp   | 58 +++++++++++----------------
 ADOL-C/src/uni5_for.cpp | 87 +++++++++++++++--------------------------
 3 files changed, 54 insertions(+), 93 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2abef90..a5edf09 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1410,7 +1410,7 @@ int int_reverse_safe(
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
       if (TARG == 0.0)
-        r0 = 0.0;
+        r0 = coval == 1.0 ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
 #endif                      /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 4c0017f..13fd863 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1493,49 +1493,35 @@ int hov_ti_reverse(
             }
             inconv0(k, Ares, rp_Ttemp, Aarg);
           } else {
-            if (coval <= 0.0) {
+            if (coval < 0.0) {
               for (int i = 0; i < k; i++) {
+                Ares[i] = 0; /* may be the same place */
                 Aarg[i] = tape.make_nan();
+              }
+            } else if (coval - floor(coval) != 0) {
+              /* coval not a whole number */
+              for (int i = 0; i < k; i++) {
                 Ares[i] = 0;
+                if ((coval - i < 1) && (coval - i > 0))
+                  Aarg[i] = tape.make_inf();
+                if (coval - i < 0)
+                  Aarg[i] = tape.make_nan();
               }
             } else {
-              /* coval not a whole number */
-              if (coval - floor(coval) != 0) {
-                for (int i = 0; i < k; i++) {
-                  if (coval - i > 1) {
-                    Aarg[i] = 0;
-                    Ares[i] = 0;
-                  }
-                  if ((coval - i < 1) && (coval - i > 0)) {
-                    Aarg[i] = tape.make_inf();
-                    Ares[i] = 0;
-                  }
-                  if (coval - i < 0) {
-                    Aarg[i] = tape.make_nan();
-                    Ares[i] = 0;
-                  }
-                }
-              } else {
-                if (coval == 1) {
-                  for (int i = 0; i < k; i++) { /* ! no temporary */
-                    Aarg[i] += Ares[i];
-                    Ares[i] = 0.0;
-                  }
-                } else {
-                  /* coval is an int > 1 */
-                  /* the following is not efficient but at least it works */
-                  /* it reformulates x^n into x* ... *x n times */
-
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
+              /* the derivative coval * x^(coval - 1) as a product */
+              for (int i = 0; i < k; i++)
+                rp_Ttemp[i] = 0.0;
+              if (coval <= k) {
+                rp_Ttemp[0] = coval;
+                for (int ii = 1; ii < coval; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double sum = 0.0;
+                    for (int j = 0; j <= i; j++)
+                      sum += rp_Ttemp[j] * Targ[i - j];
+                    rp_Ttemp[i] = sum;
                   }
-                }
               }
+              inconv0(k, Ares, rp_Ttemp, Aarg);
             }
           }
           VEC_COMPUTED_END
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index e2339ab..9beb361 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3332,68 +3332,43 @@ int hov_forward(
       FOR_0_LE_l_LT_p TRES_FOINC = TARG_INC;
 #else
       if (T0arg == 0.0) {
-        if (coval <= 0.0)
+        if (coval < 0.0)
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
-        else {
+        else if (coval != floor(coval)) {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
-            FOR_0_LE_l_LT_p {
-              FOR_0_LE_i_LT_k {
-                if (coval - i > 1)
-                  TRES_INC = 0;
-                if ((coval - i < 1) && (coval - i > 0))
-                  TRES_INC = tape.make_inf();
-                if (coval - i < 0)
-                  TRES_INC = tape.make_nan();
-              }
+          FOR_0_LE_l_LT_p {
+            FOR_0_LE_i_LT_k {
+              if (coval - i > 1)
+                TRES_INC = 0;
+              if ((coval - i < 1) && (coval - i > 0))
+                TRES_INC = tape.make_inf();
+              if (coval - i < 0)
+                TRES_INC = tape.make_nan();
             }
-          } else {
-            if (coval == 1) {
-              FOR_0_LE_l_LT_pk TRES_INC = TARG_INC;
-            } else
-            /* coval is an int > 1 */
-            /* the following is not efficient but at least it works */
-            /* it reformulates x^n into x* ... *x n times */
-            {
-              INC_pk_1(Targ) INC_pk_1(Tres)
-
-                  FOR_p_GT_l_GE_0 {
-                FOR_k_GT_i_GE_0 {
-                  *Tres = 0;
-                  DEC_TRES_FO
+          }
+        } else if (coval == 0.0 || coval > TAYLOR_COEFFS) {
+          /* the result has no term of an order that is computed */
+          FOR_0_LE_l_LT_pk TRES_INC = 0.0;
+        } else {
+          /* coval is a whole number: x * ... * x */
+          FOR_0_LE_l_LT_p {
 #if defined(_HIGHER_ORDER_)
-                  if (i == k - 1) {
-                    zOP = dp_z + k - 1;
-                    for (int j = k - 1; j >= 0; j--) {
-                      (*zOP--) = (*Targ--);
-                    }
-                  }
-                  for (int j = 0; j < i; j++) {
-                    *Tres += dp_z[j] * dp_z[i - j - 1];
-                  }
-                  Tres--;
-#endif /* _HIGHER_ORDER_ */
-                }
+            for (int i = 0; i < k; i++)
+              dp_z[i] = Targ[i];
+            for (int i = 0; i < k; i++)
+              Tres[i] = dp_z[i];
+            for (int ii = 2; ii <= coval; ii++)
+              for (int i = k - 1; i >= 0; i--) {
+                double sum = 0.0;
+                for (int j = 0; j < i; j++)
+                  sum += Tres[j] * dp_z[i - j - 1];
+                Tres[i] = sum;
               }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
-                  FOR_k_GT_i_GE_0 {
-                    *Tres = 0;
-                    DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
-                    TresOP = Tres - i;
-                    for (int j = 0; j < i; j++)
-                      *Tres += TresOP[j] * dp_z[i - j - 1];
-                    Tres--;
+#else
+            TRES = TARG; /* coval == 1 */
 #endif /* _HIGHER_ORDER_ */
-                  }
-                }
-              }
-            }
+            VEC_INC(Tres, k)
+            VEC_INC(Targ, k)
           }
         }
       } else {
-- 
2.43.0


From d466b7c0533aa6a1b337098bd2a3ad21e7b7b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 88/94] fix: tape_doc misread vector, subscript and parameter
 operations, and its variant with values did not compile

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 442 ++++++++++++++++++++++++++++++---
 1 file changed, 414 insertions(+), 28 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 008f392..31aee8e 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -22,6 +22,7 @@
 #include <adolc/tape_interface.h>
 #include <adolc/tapedoc/tapedoc.h>
 #include <adolc/valuetape/valuetape.h>
+#include <limits>
 #include <math.h>
 #include <string.h>
 
@@ -42,6 +43,9 @@ static int op_cnt;
 static size_t rev_op_cnt;
 static int pagelength;
 static FILE *fp;
+#ifdef ADOLC_TAPE_DOC_VALUES
+static double val_a[4]; /* values of the locations of the current operation */
+#endif
 
 static constexpr std::string_view baseName{"tape_"};
 static constexpr std::string_view extension{".tex"};
@@ -125,7 +129,7 @@ void filewrite(unsigned short opcode, const char *opString, int nloc,
       fprintf(fp, " %zu &", loc[i]);
   } else { /* ext_diff */
     fprintf(fp, " fctn %zu &", loc[0]);
-    for (i = 1; i < (4 - nloc); i++)
+    for (i = 0; i < (4 - nloc); i++)
       fprintf(fp, " &");
     for (i = 1; i < nloc; i++)
       fprintf(fp, " %zu &", loc[i]);
@@ -147,8 +151,8 @@ void filewrite(unsigned short opcode, const char *opString, int nloc,
     for (i = 0; i < (4 - nloc); i++)
       fprintf(fp, " &");
     for (i = 0; i < nloc - 1; i++)
-      fprintf(fp, "$ %e $&", val[i]);
-    fprintf(fp, "$ %e $", val[nloc - 1]);
+      fprintf(fp, "$ %e $&", val_a[i]);
+    fprintf(fp, "$ %e $", val_a[nloc - 1]);
   } else {
     for (i = 0; i < 3; i++)
       fprintf(fp, " &");
@@ -210,7 +214,7 @@ void filewrite_ampi(unsigned short opcode, const char *opString, int nloc,
 void filewrite_end(int opcode) {
 #ifdef ADOLC_TAPE_DOC_VALUES
   fprintf(fp,
-          " %i & %i & %i & end of tape & & & & & & & & & &  \\\\ \\hline \n",
+          " %i & %zu & %i & end of tape & & & & & & & & & &  \\\\ \\hline \n",
           op_cnt, rev_op_cnt, opcode);
 #else
   fprintf(fp, " %i & %zu & %i & end of tape & & & & & & \\\\ \\hline \n",
@@ -223,11 +227,12 @@ void filewrite_end(int opcode) {
 
 /****************************************************************************/
 /*                                                             NOW THE CODE */
-void tape_doc(short tnum,     /* tape id */
-              int depcheck,   /* consistency chk on # of dependents */
-              int indcheck,   /* consistency chk on # of independents */
-              const double *, /* independent variable values */
-              double *)       /* dependent variable values */
+void tape_doc(
+    short tnum,   /* tape id */
+    int depcheck, /* consistency chk on # of dependents */
+    int indcheck, /* consistency chk on # of independents */
+    [[maybe_unused]] const double *basepoint, /* independent variable values */
+    [[maybe_unused]] double *valuepoint)      /* dependent variable values */
 {
   /****************************************************************************/
   /*                                                            ALL VARIABLES */
@@ -1194,12 +1199,12 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_copy:
-      res = tape.get_locint_f();
       arg = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg;
-      loc_a[2] = size;
+      res = tape.get_locint_f();
+      loc_a[0] = arg;
+      loc_a[1] = size;
+      loc_a[2] = res;
 #ifdef ADOLC_TAPE_DOC_VALUES
       for (qq = 0; qq < size; qq++)
         dp_T0[res + qq] = dp_T0[arg + qq];
@@ -1208,14 +1213,14 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_dot:
-      res = tape.get_locint_f();
       arg1 = tape.get_locint_f();
       arg2 = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg1;
-      loc_a[2] = arg2;
-      loc_a[3] = size;
+      res = tape.get_locint_f();
+      loc_a[0] = arg1;
+      loc_a[1] = arg2;
+      loc_a[2] = size;
+      loc_a[3] = res;
 #ifdef ADOLC_TAPE_DOC_VALUES
       dp_T0[res] = 0;
       for (qq = 0; qq < size; qq++)
@@ -1226,22 +1231,24 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_axpy:
-      res = tape.get_locint_f();
       arg = tape.get_locint_f();
       arg1 = tape.get_locint_f();
       arg2 = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg;
+      res = tape.get_locint_f();
+      /* only four columns for the five locations: the size goes to the
+       * constants */
+      loc_a[0] = arg;
       loc_a[1] = arg1;
       loc_a[2] = arg2;
-      loc_a[3] = size;
+      loc_a[3] = res;
+      cst_d[0] = static_cast<double>(size);
 #ifdef ADOLC_TAPE_DOC_VALUES
       val_a[0] = dp_T0[arg];
       for (qq = 0; qq < size; qq++)
         dp_T0[res + qq] = dp_T0[arg] * dp_T0[arg1 + qq] + dp_T0[arg2 + qq];
 #endif
-      filewrite(operation, "vec axpy $\\longrightarrow$", 4, loc_a, 0, cst_d);
+      filewrite(operation, "vec axpy $\\longrightarrow$", 4, loc_a, 1, cst_d);
       break;
 
       /****************************************************************************/
@@ -1259,7 +1266,7 @@ void tape_doc(short tnum,     /* tape id */
 #ifdef ADOLC_TAPE_DOC_VALUES
       for (size_t l = 0; l < size; l++)
         dp_T0[res + l] = d[l];
-      val_a[0] = make_nan();
+      val_a[0] = std::numeric_limits<double>::quiet_NaN();
       val_a[1] = dp_T0[res];
 #endif
       filewrite(operation, "take stock op", 2, loc_a, 1, cst_d);
@@ -1279,8 +1286,8 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
-      loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
+      tape.get_locint_f();                /* xa[0].loc */
+      tape.get_locint_f();                /* ya[0].loc */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1292,8 +1299,8 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
-      loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
+      tape.get_locint_f();                /* xa[0].loc */
+      tape.get_locint_f();                /* ya[0].loc */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
@@ -1318,6 +1325,385 @@ void tape_doc(short tnum,     /* tape id */
       tape.get_locint_f(); /* nout again */
       filewrite(operation, "extern diff v2", 3, loc_a, 0, cst_d);
       break;
+      /*--------------------------------------------------------------------------*/
+      /* active subscripting, parameters, comparisons */
+    case subscript:
+      cst_d[0] = tape.get_val_f();    /* number of elements */
+      loc_a[0] = tape.get_locint_f(); /* location of the index */
+      loc_a[1] = tape.get_locint_f(); /* first element */
+      loc_a[2] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      {
+        const size_t numvar = static_cast<size_t>(trunc(fabs(cst_d[0])));
+        const size_t idx = static_cast<size_t>(trunc(fabs(dp_T0[loc_a[0]])));
+        if (idx >= numvar)
+          ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                           ADOLCError::FailInfo{.info5 = numvar, .info6 = idx});
+        val_a[0] = dp_T0[loc_a[0]];
+        val_a[1] = dp_T0[loc_a[1]];
+        dp_T0[loc_a[2]] = dp_T0[loc_a[1] + idx];
+        val_a[2] = dp_T0[loc_a[2]];
+      }
+#endif
+      filewrite(operation, "subscript", 3, loc_a, 1, cst_d);
+      break;
+
+    case subscript_ref:
+      cst_d[0] = tape.get_val_f();    /* number of elements */
+      loc_a[0] = tape.get_locint_f(); /* location of the index */
+      loc_a[1] = tape.get_locint_f(); /* first element */
+      loc_a[2] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      {
+        const size_t numvar = static_cast<size_t>(trunc(fabs(cst_d[0])));
+        const size_t idx = static_cast<size_t>(trunc(fabs(dp_T0[loc_a[0]])));
+        if (idx >= numvar)
+          ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                           ADOLCError::FailInfo{.info5 = numvar, .info6 = idx});
+        val_a[0] = dp_T0[loc_a[0]];
+        val_a[1] = dp_T0[loc_a[1]];
+        dp_T0[loc_a[2]] = static_cast<double>(loc_a[1] + idx);
+        val_a[2] = dp_T0[loc_a[2]];
+      }
+#endif
+      filewrite(operation, "subscript ref", 3, loc_a, 1, cst_d);
+      break;
+
+    case cond_eq_assign:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      loc_a[3] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      val_a[2] = dp_T0[loc_a[2]];
+      dp_T0[loc_a[3]] = val_a[0] >= 0 ? val_a[1] : val_a[2];
+      val_a[3] = dp_T0[loc_a[3]];
+#endif
+      filewrite(operation, "cond eq assign $\\longrightarrow$", 4, loc_a, 1,
+                cst_d);
+      break;
+
+    case cond_eq_assign_s:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      if (val_a[0] >= 0)
+        dp_T0[loc_a[2]] = val_a[1];
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "cond eq assign s $\\longrightarrow$", 3, loc_a, 1,
+                cst_d);
+      break;
+
+    case eq_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] == val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "eq a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case neq_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] != val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "neq a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case le_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] <= val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "le a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case gt_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] > val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "gt a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case ge_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] >= val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "ge a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case lt_a_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[loc_a[2]] = (val_a[0] < val_a[1]);
+      val_a[2] = dp_T0[loc_a[2]];
+#endif
+      filewrite(operation, "lt a a", 3, loc_a, 1, cst_d);
+      break;
+
+    case assign_p:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = tape.paramstore()[loc_a[0]];
+      dp_T0[loc_a[1]] = val_a[0];
+      val_a[1] = dp_T0[loc_a[1]];
+#endif
+      filewrite(operation, "assign p", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_assign_d_zero:
+      loc_a[0] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] = 0;
+#endif
+      filewrite(operation, "ref assign d zero", 1, loc_a, 0, cst_d);
+      break;
+
+    case ref_assign_d_one:
+      loc_a[0] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] = 1;
+#endif
+      filewrite(operation, "ref assign d one", 1, loc_a, 0, cst_d);
+      break;
+
+    case ref_assign_d:
+      loc_a[0] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] = cst_d[0];
+#endif
+      filewrite(operation, "ref assign d", 1, loc_a, 1, cst_d);
+      break;
+
+    case ref_assign_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[static_cast<size_t>(val_a[1])] = val_a[0];
+#endif
+      filewrite(operation, "ref assign a", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_assign_ind:
+      loc_a[0] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] = basepoint[indexi++];
+#endif
+      filewrite(operation, "ref assign ind", 1, loc_a, 0, cst_d);
+      break;
+
+    case ref_incr_a:
+      loc_a[0] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] += 1;
+#endif
+      filewrite(operation, "ref incr a", 1, loc_a, 0, cst_d);
+      break;
+
+    case ref_decr_a:
+      loc_a[0] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] -= 1;
+#endif
+      filewrite(operation, "ref decr a", 1, loc_a, 0, cst_d);
+      break;
+
+    case ref_eq_plus_d:
+      loc_a[0] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] += cst_d[0];
+#endif
+      filewrite(operation, "ref eq plus d", 1, loc_a, 1, cst_d);
+      break;
+
+    case ref_eq_min_d:
+      loc_a[0] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] -= cst_d[0];
+#endif
+      filewrite(operation, "ref eq min d", 1, loc_a, 1, cst_d);
+      break;
+
+    case ref_eq_plus_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[static_cast<size_t>(val_a[1])] += val_a[0];
+#endif
+      filewrite(operation, "ref eq plus a", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_eq_min_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[static_cast<size_t>(val_a[1])] -= val_a[0];
+#endif
+      filewrite(operation, "ref eq min a", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_eq_mult_d:
+      loc_a[0] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])] *= cst_d[0];
+#endif
+      filewrite(operation, "ref eq mult d", 1, loc_a, 1, cst_d);
+      break;
+
+    case ref_eq_mult_a:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      dp_T0[static_cast<size_t>(val_a[1])] *= val_a[0];
+#endif
+      filewrite(operation, "ref eq mult a", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_copyout:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      dp_T0[loc_a[1]] = dp_T0[static_cast<size_t>(dp_T0[loc_a[0]])];
+      val_a[1] = dp_T0[loc_a[1]];
+#endif
+      filewrite(operation, "ref copyout", 2, loc_a, 0, cst_d);
+      break;
+
+    case ref_cond_assign:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      loc_a[3] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      val_a[2] = dp_T0[loc_a[2]];
+      val_a[3] = dp_T0[loc_a[3]];
+      dp_T0[static_cast<size_t>(val_a[3])] = val_a[0] > 0 ? val_a[1] : val_a[2];
+#endif
+      filewrite(operation, "ref cond assign $\\longrightarrow$", 4, loc_a, 1,
+                cst_d);
+      break;
+
+    case ref_cond_assign_s:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      val_a[2] = dp_T0[loc_a[2]];
+      if (val_a[0] > 0)
+        dp_T0[static_cast<size_t>(val_a[2])] = val_a[1];
+#endif
+      filewrite(operation, "ref cond assign s $\\longrightarrow$", 3, loc_a, 1,
+                cst_d);
+      break;
+
+    case ref_cond_eq_assign:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      loc_a[3] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      val_a[2] = dp_T0[loc_a[2]];
+      val_a[3] = dp_T0[loc_a[3]];
+      dp_T0[static_cast<size_t>(val_a[3])] =
+          val_a[0] >= 0 ? val_a[1] : val_a[2];
+#endif
+      filewrite(operation, "ref cond eq assign $\\longrightarrow$", 4, loc_a, 1,
+                cst_d);
+      break;
+
+    case ref_cond_eq_assign_s:
+      loc_a[0] = tape.get_locint_f();
+      loc_a[1] = tape.get_locint_f();
+      loc_a[2] = tape.get_locint_f();
+      cst_d[0] = tape.get_val_f();
+#ifdef ADOLC_TAPE_DOC_VALUES
+      val_a[0] = dp_T0[loc_a[0]];
+      val_a[1] = dp_T0[loc_a[1]];
+      val_a[2] = dp_T0[loc_a[2]];
+      if (val_a[0] >= 0)
+        dp_T0[static_cast<size_t>(val_a[2])] = val_a[1];
+#endif
+      filewrite(operation, "ref cond eq assign s $\\longrightarrow$", 3, loc_a,
+                1, cst_d);
+      break;
+
 #ifdef ADOLC_MEDIPACK_SUPPORT
       /*--------------------------------------------------------------------------*/
     case medi_call:
-- 
2.43.0


From 67149d25c27c2858adceeb93049b7e9cf6a1c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:00 +0000
Subject: [PATCH 89/94] fix: first-order reverse sweeps accepted Taylor values
 kept for another degree

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a5edf09..7637f18 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -534,7 +534,7 @@ int int_reverse_safe(
 #if !defined(_NTIGHT_)
   tape.taylor_back();
 
-  if (tape.deg_save() < 0)
+  if (tape.deg_save() != 0)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = 0, .info4 = 1});
 
-- 
2.43.0


From 092b98de199b9c52e084016cb972ae7436dbfaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:50 +0000
Subject: [PATCH 90/94] fix: conditional assignments to vector elements without
 else hid a changed condition

---
 ADOL-C/src/uni5_for.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 9beb361..3447e33 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5309,8 +5309,12 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5325,8 +5329,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] > 0)
@@ -5336,8 +5344,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif
 #else
@@ -5372,7 +5384,8 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5387,7 +5400,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] >= 0)
@@ -5397,7 +5411,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif
 #else
-- 
2.43.0


From 8fda8299e6555639068e893824f3b518dbdd0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 91/94] fix: reverse sweeps after a forward sweep stopped at a
 branch switch read incomplete Taylor values

---
 ADOL-C/src/uni5_for.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 3447e33..84bed10 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -855,6 +855,8 @@ int hov_forward(
 
   unsigned char operation; /* operation code */
   int ret_c = 3;           /* return value */
+  /* the sweep stopped at a branch switch */
+  [[maybe_unused]] bool aborted = false;
 
   locint size = 0;
   locint res = 0;
@@ -1352,6 +1354,7 @@ int hov_forward(
                   "(operator eq_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1371,6 +1374,7 @@ int hov_forward(
                   "(operator neq_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1389,6 +1393,7 @@ int hov_forward(
                   "(operator le_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1409,6 +1414,7 @@ int hov_forward(
                   "(operator gt_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1427,6 +1433,7 @@ int hov_forward(
                   "(operator ge_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1447,6 +1454,7 @@ int hov_forward(
                   "(operator lt_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -5796,8 +5804,12 @@ int hov_forward(
 #endif /* ADOLC_DEBUG */
 
 #if defined(_KEEP_)
-  if (keep)
+  if (keep) {
     tape.taylor_close();
+    /* the Taylor stack is incomplete: enforce failure of reverse */
+    if (aborted)
+      tape.deg_save(-1);
+  }
 #endif
 
   /* clean up */
-- 
2.43.0


From f70ccdb8c16cc477f5380ed8290b38eba50da7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 92/94] fix: an equality comparison hid the error code of an
 external function

---
 ADOL-C/src/uni5_for.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 84bed10..d51065d 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1358,7 +1358,7 @@ int hov_forward(
         operation = end_of_tape;
         continue;
       }
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1398,7 +1398,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1438,7 +1438,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0


From b4482524fa2761fa84a9cfc5e0cc4e185ea22090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 93/94] fix: abs_normal and directional_active_gradient went on
 after their forward sweep stopped

---
 ADOL-C/src/drivers/psdrivers.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 476248f..cf50194 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -51,7 +51,9 @@ int abs_normal(short tag,       /* tape identifier */
         ADOLCError::ErrorType::SWITCHES_MISMATCH, CURRENT_LOCATION,
         ADOLCError::FailInfo{.info1 = tag, .info3 = swchk, .info6 = s});
 
-  zos_pl_forward(tag, m, n, 1, x, y, z);
+  int rc = zos_pl_forward(tag, m, n, 1, x, y, z);
+  if (rc < 0)
+    return rc;
 
   // Build (lagrange) weights of size (m+s)xm and (m+s)xs such that they combine
   // to an identity of size (m+s)x(m+s) to obtain all entries of Y,J,Z,L at
@@ -127,13 +129,17 @@ int directional_active_gradient(short tag,       /* trace identifier */
   int k = 1;
   bool done = 0;
   int j = 0;
+  int rc = 0;
 
   // at most n directions: d and the unit vectors other than e_(max_dk)
   while ((k < 6) && (k <= n) && (done == 0)) {
     // derivatives of the piecewise linearisation along the directions, not its
     // increments: the signature must not depend on the length of d
-    fov_pl_sig_forward(tag, 1, n, k, x, E, static_cast<int>(s), sigbase.data(),
-                       nullptr, &y, grad, z, gradu, sigma_g);
+    rc = fov_pl_sig_forward(tag, 1, n, k, x, E, static_cast<int>(s),
+                            sigbase.data(), nullptr, &y, grad, z, gradu,
+                            sigma_g);
+    if (rc < 0)
+      break;
 
     size_t sum = 0;
     for (size_t i = 0; i < s; i++) {
@@ -161,6 +167,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
   myfree2(grad);
   myfree2(gradu);
 
+  if (rc < 0)
+    return rc;
   if (done == 0)
     ADOLCError::fail(ADOLCError::ErrorType::DIRGRAD_NOT_ENOUGH_DIRS,
                      CURRENT_LOCATION);
-- 
2.43.0


From 5835266013e5765521e70e40b8445c9d0e73b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:11 +0000
Subject: [PATCH 94/94] fix: equality comparisons hid the error code of an
 external function in reverse sweeps

---
 ADOL-C/src/fo_rev.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 7637f18..76f870d 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -591,7 +591,7 @@ int int_reverse_safe(
       arg = tape.get_locint_r();
 
 #if !defined(_NTIGHT_)
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -609,7 +609,7 @@ int int_reverse_safe(
 
 #if !defined(_NTIGHT_)
       if (TARG == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0

