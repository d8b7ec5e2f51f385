From 371a9d7c98dd938cd8cdfbd84a56e70e48c2f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 01/11] fix: size auxiliary arrays of the integral recurrences
 for the declared maximum angular momentum

Shells with L = LIBGRPP_MAX_BASIS_L (and L + 1, which the gradient routines
require) indexed the S, D1, D2, E and R arrays past their ends.
---
 libgrpp/kinetic.c                  |  4 ++--
 libgrpp/momentum.c                 |  4 ++--
 libgrpp/overlap.c                  |  3 ++-
 libgrpp/type1_mcmurchie_davidson.c | 11 ++++++++---
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..5e7728e 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,8 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    // gradients require shells with angular momentum up to LIBGRPP_MAX_BASIS_L + 1
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..4c3aba0 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -48,7 +48,12 @@
 #include "norm_gaussian.h"
 #include "utils.h"
 
-#define LMAX LIBGRPP_MAX_BASIS_L
+/*
+ * dimensions of the auxiliary arrays; gradients require pairs of shells
+ * with angular momenta up to LIBGRPP_MAX_BASIS_L + 1 and LIBGRPP_MAX_BASIS_L
+ */
+#define LDIM (LIBGRPP_MAX_BASIS_L + 2)
+#define LSUM_DIM (2 * LIBGRPP_MAX_BASIS_L + 2)
 
 
 /*
@@ -63,8 +68,8 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
-    double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
+    double E[3][LDIM][LDIM][LSUM_DIM];
+    double R[LSUM_DIM][LSUM_DIM][LSUM_DIM][LSUM_DIM];
 };
 
 
-- 
2.43.0


From 615734518ef4dbe57b177c367ac522f53c44279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 02/11] fix: double_factorial() must not abort for n > 30

The recursive branch for n > 30 was unreachable because of the assertion, so
integrals over shells with high angular momenta terminated the process.
---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From 785f750d78174c46271bf2937a1df44098b8fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 03/11] fix: gradients must not read the L-1 matrices for a
 zero exponent

The component with exponent -1 does not exist in the downgraded shell: the
lookup ran past the end of its component list, and the element past the end
of the matrix was read and multiplied by zero (NaN if it happens to be one).
---
 libgrpp/grpp_integrals_gradient.c | 6 +++---
 libgrpp/overlap_gradient.c        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..f342a9f 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -456,7 +456,7 @@ void grpp_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -650,7 +650,7 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -852,7 +852,7 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..f69ea27 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -122,7 +122,7 @@ void overlap_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From 1bcbfcead9f52689c917dbd894804bcb8a516b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 04/11] fix: overlap gradients must not modify the bra shell

The exponents in shell_A->cart_list were changed temporarily, so that two
threads sharing a shell (or <A|A> shells being the same object) disturbed
each other.
---
 libgrpp/overlap_gradient.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index f69ea27..56b7301 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,7 +115,11 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
+
                 int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
-- 
2.43.0


From 453604a3bde722b4e94d3fcee0cce436bc26f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 05/11] fix: gradients must index the undifferentiated shell in
 its own order

The position of its components was looked up in the order that is currently
selected, which is wrong for shells created before the order was changed.
---
 libgrpp/grpp_integrals_gradient.c | 16 ++++++++--------
 libgrpp/overlap_gradient.c        |  5 ++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index f342a9f..eb4b9ca 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -459,7 +459,7 @@ void grpp_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
@@ -477,7 +477,7 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
@@ -652,7 +652,7 @@ void grpp_gradient_diff_ket_contribution(
                  */
                 if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
+                    int bra_index = i;
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
@@ -670,7 +670,7 @@ void grpp_gradient_diff_ket_contribution(
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
+                int bra_index = i;
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
@@ -854,8 +854,8 @@ void grpp_gradient_contribution(
                  */
                 if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +872,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index 56b7301..cebb0e8 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -120,7 +120,6 @@ void overlap_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -129,7 +128,7 @@ void overlap_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
@@ -141,7 +140,7 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
-- 
2.43.0


From 048fa52c8051d9ee8841a17e996c3c264d390560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 06/11] fix: outercore integrals must not move the caller's
 outercore shells

The shells were bound to the ECP center by overwriting their origin, so that
threads evaluating the same GRPP on different centers used each other's origin.
---
 libgrpp/outercore_integrals.c | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..af68d08 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -104,16 +104,19 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
     // bind outercore shells of the GRPP to the RPP center
+    // (the shell objects themselves may be shared between calls and must not be changed)
+    libgrpp_shell_t *bound_shells = (libgrpp_shell_t *) calloc(num_oc_shells, sizeof(libgrpp_shell_t));
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
+        bound_shells[ioc] = *oc_shells[ioc];
+        bound_shells[ioc].origin[0] = rpp_origin[0];
+        bound_shells[ioc].origin[1] = rpp_origin[1];
+        bound_shells[ioc].origin[2] = rpp_origin[2];
     }
 
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
-        libgrpp_shell_t *nlj = oc_shells[ioc];
+        libgrpp_shell_t *nlj = &bound_shells[ioc];
 
         libgrpp_outercore_potential_integrals_part_1(
             shell_A, shell_B, rpp_origin, pot, nlj,
@@ -127,8 +130,8 @@ void libgrpp_outercore_potential_integrals(
 
             libgrpp_potential_t *pot_1 = oc_potentials[ioc];
             libgrpp_potential_t *pot_2 = oc_potentials[joc];
-            libgrpp_shell_t *nlj_1 = oc_shells[ioc];
-            libgrpp_shell_t *nlj_2 = oc_shells[joc];
+            libgrpp_shell_t *nlj_1 = &bound_shells[ioc];
+            libgrpp_shell_t *nlj_2 = &bound_shells[joc];
 
             libgrpp_outercore_potential_integrals_part_2(
                 shell_A, shell_B,
@@ -137,6 +140,8 @@ void libgrpp_outercore_potential_integrals(
             );
         }
     }
+
+    free(bound_shells);
 }
 
 
@@ -156,13 +161,6 @@ void libgrpp_outercore_potential_integrals_part_1(
     int size_B = libgrpp_get_shell_size(shell_B);
     int size_nlj = libgrpp_get_shell_size(oc_shell);
 
-    /*
-     * foolproof: bind outercore shells to the ECP center
-     */
-    oc_shell->origin[0] = C[0];
-    oc_shell->origin[1] = C[1];
-    oc_shell->origin[2] = C[2];
-
     /*
      * Transformation coefficients: Cartesian -> Real spherical
      * Rows: real spherical harmonics S_lm
@@ -291,16 +289,6 @@ void libgrpp_outercore_potential_integrals_part_2(
         return;
     }
 
-    /*
-     * foolproof: bind outercore shells to the ECP center
-     */
-    oc_shell_1->origin[0] = C[0];
-    oc_shell_1->origin[1] = C[1];
-    oc_shell_1->origin[2] = C[2];
-    oc_shell_2->origin[0] = C[0];
-    oc_shell_2->origin[1] = C[1];
-    oc_shell_2->origin[2] = C[2];
-
     /*
      * just to be consistent with the MOLGEP code by A. Titov, N. Mosyagin, A. Petrov:
      * off-diagonal elements <n'lj|U|n''lj> = 0
-- 
2.43.0


From ace6b3768c16a57ce73ce46d0672e5d7c42ad26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 07/11] fix: outercore shells may list their components in
 different orders

The second shell of the |nlj><nlj|U|n'lj><n'lj| term was transformed with the
coefficients in the order of the first one.
---
 libgrpp/outercore_integrals.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index af68d08..193754c 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -308,14 +308,18 @@ void libgrpp_outercore_potential_integrals_part_2(
      * Rows: real spherical harmonics S_lm
      * Columns: cartesians x^r y^s z^t
      */
-    double *S_lm_coef = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_1 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_2 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
     for (int m = -L; m <= +L; m++) {
         for (int icart = 0; icart < size_nlj; icart++) {
-            int r = oc_shell_1->cart_list[3 * icart + 0];
-            int s = oc_shell_1->cart_list[3 * icart + 1];
-            int t = oc_shell_1->cart_list[3 * icart + 2];
-            double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
-            S_lm_coef[size_nlj * (m + L) + icart] = u;
+            int *nlm_1 = oc_shell_1->cart_list + 3 * icart;
+            int *nlm_2 = oc_shell_2->cart_list + 3 * icart;
+            S_lm_coef_1[size_nlj * (m + L) + icart] =
+                spherical_to_cartesian_coef(L, m, nlm_1[0], nlm_1[1], nlm_1[2]) /
+                ang_norm_factor(nlm_1[0], nlm_1[1], nlm_1[2]);
+            S_lm_coef_2[size_nlj * (m + L) + icart] =
+                spherical_to_cartesian_coef(L, m, nlm_2[0], nlm_2[1], nlm_2[2]) /
+                ang_norm_factor(nlm_2[0], nlm_2[1], nlm_2[2]);
         }
     }
 
@@ -333,8 +337,8 @@ void libgrpp_outercore_potential_integrals_part_2(
     double *S_a_nljm1 = alloc_zeros_1d(size_A * (2 * L + 1));
     libgrpp_overlap_integrals(oc_shell_2, shell_B, S_nljm2_b_cart);  // <nljm|B>
     libgrpp_overlap_integrals(shell_A, oc_shell_1, S_a_nljm1_cart);  // <A|nljm>
-    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef);
-    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef);
+    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef_1);
+    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef_2);
     free(S_nljm2_b_cart);
     free(S_a_nljm1_cart);
 
@@ -374,7 +378,8 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     free(S_nljm2_b);
     free(S_a_nljm1);
-    free(S_lm_coef);
+    free(S_lm_coef_1);
+    free(S_lm_coef_2);
 }
 
 
-- 
2.43.0


From 47f72dbcdea4be584cfaa662fd627dc22603b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 08/11] fix: specialised nuclear attraction routines must pass
 the model parameters only

libgrpp_nuclear_attraction_integrals() expects the model parameters from
model_params[0] on; the wrappers put the charge there, which was then used as
the radius.
---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From 59ece3831fb4ad57debac7b4abedd2355e8cbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 09/11] fix: setting the same local potential again must not
 delete it

---
 libgrpp/grpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/grpp.c b/libgrpp/grpp.c
index 75b10f8..348ee2b 100644
--- a/libgrpp/grpp.c
+++ b/libgrpp/grpp.c
@@ -20,7 +20,7 @@ libgrpp_grpp_t *libgrpp_new_grpp()
 
 void libgrpp_grpp_set_local_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->U_L != NULL) {
+    if (grpp->U_L != NULL && grpp->U_L != pot) {
         libgrpp_delete_potential(grpp->U_L);
     }
 
-- 
2.43.0


From b407d7a24ca65d33d3528838027c73ccd34afedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 10/11] fix: GRPP objects must hold any number of potentials

The arrays had 100 entries and no check; the 101st component was written past
the end.
---
 libgrpp/grpp.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libgrpp/grpp.c b/libgrpp/grpp.c
index 348ee2b..f856497 100644
--- a/libgrpp/grpp.c
+++ b/libgrpp/grpp.c
@@ -9,7 +9,7 @@
 
 #include <stdlib.h>
 
-#define LIBGRPP_MAX_NUMBER_POTENTIALS 100
+#define LIBGRPP_NUMBER_POTENTIALS_STEP 100
 
 
 libgrpp_grpp_t *libgrpp_new_grpp()
@@ -30,8 +30,9 @@ void libgrpp_grpp_set_local_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t
 
 void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_arep == 0) {
-        grpp->U_arep = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
+    if (grpp->n_arep % LIBGRPP_NUMBER_POTENTIALS_STEP == 0) {
+        size_t new_size = grpp->n_arep + LIBGRPP_NUMBER_POTENTIALS_STEP;
+        grpp->U_arep = (libgrpp_potential_t **) realloc(grpp->U_arep, new_size * sizeof(libgrpp_potential_t *));
     }
 
     grpp->U_arep[grpp->n_arep++] = pot;
@@ -40,8 +41,9 @@ void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential
 
 void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_esop == 0) {
-        grpp->U_esop = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
+    if (grpp->n_esop % LIBGRPP_NUMBER_POTENTIALS_STEP == 0) {
+        size_t new_size = grpp->n_esop + LIBGRPP_NUMBER_POTENTIALS_STEP;
+        grpp->U_esop = (libgrpp_potential_t **) realloc(grpp->U_esop, new_size * sizeof(libgrpp_potential_t *));
     }
 
     grpp->U_esop[grpp->n_esop++] = pot;
@@ -50,9 +52,10 @@ void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potenti
 
 void libgrpp_grpp_add_outercore_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot, libgrpp_shell_t *oc_shell)
 {
-    if (grpp->n_oc_shells == 0) {
-        grpp->U_oc = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-        grpp->oc_shells = (libgrpp_shell_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_shell_t *));
+    if (grpp->n_oc_shells % LIBGRPP_NUMBER_POTENTIALS_STEP == 0) {
+        size_t new_size = grpp->n_oc_shells + LIBGRPP_NUMBER_POTENTIALS_STEP;
+        grpp->U_oc = (libgrpp_potential_t **) realloc(grpp->U_oc, new_size * sizeof(libgrpp_potential_t *));
+        grpp->oc_shells = (libgrpp_shell_t **) realloc(grpp->oc_shells, new_size * sizeof(libgrpp_shell_t *));
     }
 
     grpp->U_oc[grpp->n_oc_shells] = pot;
-- 
2.43.0


From 9c95bc17420c9a6e20ac8b44b59471e64513a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 11/11] fix: deep copy of a shell must keep its component order

---
 libgrpp/shell.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..96d4e9d 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -13,6 +13,7 @@
 
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "norm_gaussian.h"
 
@@ -56,6 +57,9 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the copy has the same components, whatever order is currently selected
+    memcpy(new_shell->cart_list, src_shell->cart_list, 3 * src_shell->cart_size * sizeof(int));
+
     return new_shell;
 }
 
-- 
2.43.0

