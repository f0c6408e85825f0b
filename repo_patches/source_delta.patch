From 5225dc7befcb96b58b3f2905798ae26cf5636ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 01/55] fix: the finite difference interface returns
 XRTM_INT_ERROR/XRTM_DBL_ERROR on error

---
 src/xrtm_fd_interface.c | 104 ++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..edc1c6f 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -57,7 +57,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      if (fd->d->options & XRTM_OPTION_CALC_DERIVS) {
           fprintf(stderr, "ERROR: can't use xrtm option \"calc_derivs\" with xrtm_fd\n");
-          return -1;
+          return XRTM_INT_ERROR;
 
      }
 
@@ -102,7 +102,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      }
      else if (r < 0)
-          return -1;
+          return XRTM_INT_ERROR;
 
 
      /*-------------------------------------------------------------------------
@@ -231,7 +231,7 @@ int xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_top_p[i_deriv] = F_iso_top_p;
 /*
@@ -258,7 +258,7 @@ int xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_p) {
 
 double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_top_p[i_deriv];
 }
@@ -270,7 +270,7 @@ double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_bot_p[i_deriv] = F_iso_bot_p;
 /*
@@ -297,7 +297,7 @@ int xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_p) {
 
 double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_bot_p[i_deriv];
 }
@@ -359,10 +359,10 @@ double xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_p)
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      for (i = 0; i < d->d->n_layers + 1; ++i)
           levels_b_p[i] = d->levels_b_p[i][i_deriv];
@@ -382,7 +382,7 @@ int xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_p)
           return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->surface_b_p[i_deriv] = surface_b_p;
 /*
@@ -419,7 +419,7 @@ double xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {
           return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->surface_b_p[i_deriv];
 
@@ -463,7 +463,7 @@ int xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_p) {
 
      if (xrtm_fd_set_g_x_p(d, &g_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -475,7 +475,7 @@ int xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -487,7 +487,7 @@ int xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -499,7 +499,7 @@ int xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -596,7 +596,7 @@ int xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **co
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -608,7 +608,7 @@ int xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -620,7 +620,7 @@ int xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -632,7 +632,7 @@ int xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -690,7 +690,7 @@ int xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ome
 
      if (xrtm_fd_set_omega_x_p(d, &omega_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -702,7 +702,7 @@ int xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -714,7 +714,7 @@ int xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -726,7 +726,7 @@ int xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -770,7 +770,7 @@ int xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau
 
      if (xrtm_fd_set_ltau_x_p(d, &ltau_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -782,7 +782,7 @@ int xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -794,7 +794,7 @@ int xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -806,7 +806,7 @@ int xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -829,10 +829,10 @@ double xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_p) {
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      d->kernel_ampfac_p[i_kernel][i_deriv] = ampfac_p;
 /*
@@ -847,9 +847,9 @@ int xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_
 
      int i;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_ampfac_p[i_kernel][i] = ampfac_p[i];
@@ -877,14 +877,14 @@ int xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", -1);
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      d->kernel_params_p[i_kernel][i_deriv][i_param] = param_p;
 /*
@@ -901,10 +901,10 @@ int xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -923,13 +923,13 @@ int xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_params_p[i_kernel][i][i_param] = params_p[i];
@@ -948,9 +948,9 @@ int xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **param
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -1140,7 +1140,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -1171,12 +1171,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1198,12 +1198,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1219,12 +1219,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1240,7 +1240,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1268,7 +1268,7 @@ int xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd
 
      if (xrtm_fd_solution(d, solver, XRTM_OUTPUT_RADIANCE, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
-- 
2.43.0


From 6dbdd3a52514e0c2958067a1dad375a088466b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 02/55] fix: public functions return the documented error code
 instead of -1

---
 src/xrtm_interface.c | 16 ++++++++--------
 src/xrtm_support.h   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..e1fd878 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -687,7 +687,7 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
 
      if (options & XRTM_OPTION_QUAD_LOBATTO) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_QUAD_LOBATTO), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
-               return -1;
+               return XRTM_INT_ERROR;
      }
 
      if (options & XRTM_OPTION_SFI) {
@@ -3583,7 +3583,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3776,7 +3776,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3831,7 +3831,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
@@ -5815,7 +5815,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      if (solver & XRTM_SOLVERS_EXT_EXTERNAL) {
           if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, work2)) {
                fprintf(stderr, "ERROR: get_solution()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           return 0;
@@ -5827,12 +5827,12 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
       *-----------------------------------------------------------------------*/
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (! (d->options & XRTM_OPTION_REVERSE_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_REVERSE_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -5860,7 +5860,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
           fprintf(stderr, "ERROR: get_solution2()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      d->options  = options;
diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..37e86ae 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
-- 
2.43.0


From 876a9763841912500e1daa947b20d0d66417bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 03/55] fix: xrtm_solution_2() propagates adjoint failures and
 restores the instance on failure

---
 src/xrtm_interface.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e1fd878..c676a9c 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5860,6 +5860,8 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
           fprintf(stderr, "ERROR: get_solution2()\n");
+          d->options  = options;
+          d->n_derivs = n_derivs;
           return XRTM_INT_ERROR;
      }
 
@@ -5950,7 +5952,10 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
           else
                I_m_a[ii_input][jj_input][kk_input][ll_input] = 1.;
 
-          get_solution_internal_a(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_a, I_m_a, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL, d->save_tree, work2);
+          if (get_solution_internal_a(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_a, I_m_a, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL, d->save_tree, work2)) {
+               fprintf(stderr, "ERROR: get_solution_internal_a()\n");
+               return XRTM_INT_ERROR;
+          }
 
 
           /*--------------------------------------------------------------------
-- 
2.43.0


From 3a8b9f1dc0da090d37b764a2dad67b235b975b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 04/55] fix: xrtm_create2() leaked the instance when
 xrtm_create() failed

---
 src/xrtm_interface.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c676a9c..f85559b 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -769,10 +769,14 @@ xrtm_data *xrtm_create2(int options, int solvers, int max_coef, int n_quad, int
 
      xrtm_data *d;
 
-     d = (xrtm_data *) malloc(sizeof(xrtm_data));
+     if (! (d = (xrtm_data *) malloc(sizeof(xrtm_data)))) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return NULL;
+     }
 
      if (xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_create()\n");
+          free(d);
           return NULL;
      }
 
-- 
2.43.0


From e636d9813d51bd21ce58e6fcff0b59c7c3cdad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 05/55] fix: finite difference perturbation checks the result
 of xrtm_get_n_coef()

---
 src/xrtm_fd_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index edc1c6f..a05a47c 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1046,7 +1046,10 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
       }
       else {
            for (i = 0; i < d->d->n_layers; ++i) {
-                n_coef_layer = xrtm_get_n_coef(d->d, i);
+                if ((n_coef_layer = xrtm_get_n_coef(d->d, i)) == XRTM_INT_ERROR) {
+                     fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
+                     return -1;
+                }
 
                 for (k = 0; k < d->d->n_elem; ++k) {
                      for (l = 0; l < n_coef_layer; ++l) {
-- 
2.43.0


From 0f8ed41491a538fd00683172e788811e0fa56e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 06/55] fix: forward and backward finite differences restore
 the perturbed inputs

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index a05a47c..b17436e 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1192,6 +1192,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                          }
                     }
                }
+
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return XRTM_INT_ERROR;
+               }
           }
 
 
-- 
2.43.0


From 3d77f66b23dff49431262bbee9bdff7172ff7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 07/55] fix: backward finite difference had the wrong sign

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index b17436e..ef085e6 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1186,8 +1186,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
-- 
2.43.0


From 27794f80f4d0db7634e287df3ba43cae7adc554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 08/55] fix: central finite difference divides by the full step

---
 src/xrtm_fd_interface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ef085e6..86dcd8d 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1218,8 +1218,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
@@ -1239,8 +1239,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
-- 
2.43.0


From f6e830e00ae038fc24ba6ebe493aa13806d45708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 09/55] fix: XRTM_SOLVERS_EXT_HAS_SFI was defined under another
 name

---
 src/xrtm_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 37e86ae..026e6b3 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -40,7 +40,7 @@ extern "C" {
 #define XRTM_SOLVERS_EXT_DOUBLING   (0)
 #define XRTM_SOLVERS_EXT_ADDING     (0)
 #define XRTM_SOLVERS_EXT_BVP        (0)
-#define XRTM_SOLVERS_EXT_SFI        (0)
+#define XRTM_SOLVERS_EXT_HAS_SFI    (0)
 #endif
 
 
-- 
2.43.0


From 3a89775443fea1a5357837ae1f23e939687ef3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 10/55] fix: table of input names lacked a comma and the table
 of input types entries

---
 src/xrtm_interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f85559b..a17ede6 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
@@ -229,6 +229,7 @@ enum xrtm_input_type {
 };
 
 static long xrtm_input_types[] = {
+     0,
      INPUT_DOUB_D_TAU,
      INPUT_PADE_PARAMS,
      INPUT_SOS_PARAMS,
@@ -261,7 +262,8 @@ static long xrtm_input_types[] = {
      INPUT_KERNEL_AMPFAC,
      INPUT_KERNEL_AMPFAC_L,
      INPUT_KERNEL_PARAMS,
-     INPUT_KERNEL_PARAMS_L
+     INPUT_KERNEL_PARAMS_L,
+     INPUT_KERNEL_FUNCS
 };
 
 
-- 
2.43.0


From 58ca03613f5ac97706d4ac7da420b0d31acde839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 11/55] fix: name_list_to_mask() failed for the identifier with
 the top bit set

---
 misc/gindex_name_value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..617c7b5 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -186,8 +186,8 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
@@ -233,7 +233,7 @@ long value_list_to_mask(long *values, int n_values) {
 
      int i;
 
-     int mask;
+     long mask;
 
      mask = 0;
      for (i = 0; i < n_values; ++i)
-- 
2.43.0


From ae5adcf64918000a1bc09cb24c064d56ff2c3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 12/55] fix: names of the eigen solvers follow the configured
 identifiers

---
 src/xrtm_support.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_support.c b/src/xrtm_support.c
index 57f926a..fed57d8 100644
--- a/src/xrtm_support.c
+++ b/src/xrtm_support.c
@@ -17,8 +17,12 @@
  *
  ******************************************************************************/
 static const char *eigen_solver_gen_real_names[] = {
+#ifdef HAVE_FORTRAN_COMPILER
      "asymtx",
+#endif
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -29,9 +33,7 @@ static long eigen_solver_gen_real_types[] = {
 #ifdef HAVE_EISPACK_LIBRARY
      EIGEN_SOLVER_GEN_REAL_EISPACK,
 #endif
-     EIGEN_SOLVER_GEN_REAL_LAPACK,
-
-     N_EIGEN_SOLVER_GEN_REAL_TYPES
+     EIGEN_SOLVER_GEN_REAL_LAPACK
 };
 
 
@@ -40,7 +42,9 @@ GINDEX_NAME_VALUE_TEMPLATE(eigen_solver_gen_real, "eigen solver general real", N
 
 
 static const char *eigen_solver_gen_complex_names[] = {
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -48,9 +52,7 @@ static long eigen_solver_gen_complex_types[] = {
 #ifdef HAVE_EISPACK_LIBRARY
      EIGEN_SOLVER_GEN_COMPLEX_EISPACK,
 #endif
-     EIGEN_SOLVER_GEN_COMPLEX_LAPACK,
-
-     N_EIGEN_SOLVER_GEN_COMPLEX_TYPES
+     EIGEN_SOLVER_GEN_COMPLEX_LAPACK
 };
 
 
-- 
2.43.0


From a3147aebb21fa19998bd3911413bbdfd7906cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 13/55] fix: mask_to_name_list() wrote past the end of a buffer
 that is too short

---
 misc/gindex_name_value.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 617c7b5..f65275d 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -167,14 +167,16 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
      flag = 0;
      for (i = 0; i < n_values; ++i) {
           if (mask & values[i]) {
-               if (flag)
+               if (flag && n < length)
                     n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n < length)
+                    n += snprintf(s + n, length - n, "%s", names[i]);
                flag = 1;
           }
      }
 
-     s[n] = '\0';
+     if (n < length)
+          s[n] = '\0';
 
      return s;
 }
-- 
2.43.0


From 0c36028eb681b12c99f8f15497790dd36787d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 14/55] fix: getters address the set flags only after the index
 checks

xrtm_get_kernel() also rejects a negative index.
---
 src/xrtm_interface.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a17ede6..42a3649 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2793,7 +2793,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
@@ -3919,10 +3919,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4140,10 +4140,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4156,12 +4156,12 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
+
      return d->coef0[i_layer][i_elem][i_coef];
 }
 
@@ -4374,10 +4374,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4525,10 +4525,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4644,10 +4644,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4709,14 +4709,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From 76f25119e480f97c54ec01d36cffda5b65f7bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 15/55] fix: xrtm_fd_get_coef_p() checks the element and
 coefficient indexes

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 86dcd8d..d34661d 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -649,8 +649,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 7a1b3c6d4908fdac5ad7707a3d3fa724491393f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 16/55] fix: xrtm_fd_set_levels_b_p_1() stores the given levels
 of the given derivative

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index d34661d..bfcdd29 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 401f6bdd204e43be05e8352829b8fa57cca85bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 17/55] fix: xrtm_set_out_taus() checks all values before it
 stores any

---
 src/xrtm_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 42a3649..e8b8569 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3239,9 +3239,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
-- 
2.43.0


From 386165cd37a1aab8cc523ee3e5435191615c6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 18/55] fix: xrtm_set_coef_*() check all values before they
 store any

---
 src/xrtm_interface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e8b8569..87c7d4c 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4056,6 +4056,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4066,13 +4075,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From e8ae1a88f6015ad4ad2ca34d86753b86434d4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 19/55] fix: rejected theta_0/out_thetas change nothing, a
 readjusted mu_0 is propagated

---
 src/xrtm_interface.c | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 87c7d4c..372fb62 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2653,7 +2653,7 @@ static int solution_preprocess(xrtm_data *d) {
 /*******************************************************************************
  *
  ******************************************************************************/
-static int mu_0_singularity_adjust(xrtm_data *d) {
+static int mu_0_singularity_adjust(xrtm_data *d, double mu_0_0, double *out_thetas, double *mu_0) {
 
      int i;
      int n;
@@ -2661,17 +2661,20 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double x;
 
-     d->mu_0 = d->mu_0_0;
+     *mu_0 = mu_0_0;
 
-     n = d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
+     n = out_thetas || d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
 
      count = 0;
      for (i = 0; i < n; ++i) {
-          a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
+          x = out_thetas && i >= d->n_quad ? cos(out_thetas[i - d->n_quad]*D2R) : d->qx[i];
+
+          a = fabs(singularity_adjust_auto(x, mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
-          if (a != d->mu_0_0) {
-               d->mu_0 = a;
+          if (a != mu_0_0) {
+               *mu_0 = a;
                count++;
           }
           if (count > 1) {
@@ -2680,9 +2683,6 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
-          set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
-
      return 0;
 }
 
@@ -3282,6 +3282,8 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
      int j;
      int jj;
 
+     double mu_0;
+
      if (d->n_umus == 0) {
           fprintf(stderr, "ERROR: model not initialized for user defined output angles (n_out_thetas == 0)\n");
           return XRTM_INT_ERROR;
@@ -3295,6 +3297,13 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     if (d->set_flags_mu_0) {
+          if (mu_0_singularity_adjust(d, d->mu_0_0, out_thetas, &mu_0)) {
+               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+               return XRTM_INT_ERROR;
+          }
+     }
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
           d->qx[ii] = cos(out_thetas[i]*D2R);
@@ -3320,10 +3329,10 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
      update_n_four2(d, d->set_flags_mu_0, 1);
 
      if (d->set_flags_mu_0) {
-          if (mu_0_singularity_adjust(d)) {
-               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
-               return XRTM_INT_ERROR;
-          }
+          if (d->mu_0 != mu_0)
+               set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
+
+          d->mu_0 = mu_0;
      }
 
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->misc_input.use_symmetric_form)
@@ -3554,6 +3563,9 @@ double xrtm_get_F_0(xrtm_data *d) {
  ******************************************************************************/
 int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
 
+     double mu_0;
+     double mu_0_0;
+
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
           return XRTM_INT_ERROR;
@@ -3565,15 +3577,18 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
-     d->mu_0_0 = cos(theta_0*D2R);
+     mu_0_0 = cos(theta_0*D2R);
 
-     update_n_four2(d, 1, d->set_flags_umus);
-
-     if (mu_0_singularity_adjust(d)) {
+     if (mu_0_singularity_adjust(d, mu_0_0, NULL, &mu_0)) {
           fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
           return XRTM_INT_ERROR;
      }
 
+     d->mu_0_0 = mu_0_0;
+     d->mu_0   = mu_0;
+
+     update_n_four2(d, 1, d->set_flags_umus);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)
           brdf_aux_calc_mu_0(&d->kernel_aux, d->n_quad + d->n_umus, d->mu_0, d->n_kernel_quad, d->kernel_qx);
 
-- 
2.43.0


From 9e5b2f245e7362b2d8b8bcd1d9c0b03934a19ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:05 +0000
Subject: [PATCH 20/55] fix: name_list_to_mask() leaves the caller's list of
 names intact

---
 misc/gindex_name_value.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index f65275d..d629e62 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -185,6 +185,7 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
 
 long name_list_to_mask(char *s, long *values, const char **names, int n, const char *desc) {
 
+     char *list;
      char *token;
      char *lasts;
 
@@ -193,16 +194,24 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
 
      mask = 0;
 
-     if ((token = strtok_r(s, ", \t", &lasts))) {
+     if (! (list = strdup(s))) {
+          fprintf(stderr, "ERROR: strdup()\n");
+          return -1;
+     }
+
+     if ((token = strtok_r(list, ", \t", &lasts))) {
           do {
                if ((temp = name_to_value(token, values, names, n, desc)) < 0) {
                     fprintf(stderr, "ERROR: name_to_value()\n");
+                    free(list);
                     return -1;
                }
                mask |= temp;
           } while ((token = strtok_r(NULL, ", \t", &lasts)));
      }
 
+     free(list);
+
      return mask;
 }
 
-- 
2.43.0


From b19a808d2b6b8708880fdc4d44175ada8b8c0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 21/55] fix: four_stream: drop stale call of
 calc_radiance_levels() with arguments its definition does not take

---
 src/xrtm_four_stream.c | 32 --------------------------------
 1 file changed, 32 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..57ae481 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -925,38 +925,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From a7edef869b9476efa5636aea6c9e2a5a298efc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 22/55] fix: ptr_array_init() writes past the pointer block
 when an inner dimension is zero

---
 misc/gutil_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..537aaaa 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
-- 
2.43.0


From 85d6a6a9630907f66b9ca914724b60944ed9bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 23/55] fix: refuse option vector with the two, four and six
 stream solvers: they compute only the scalar problem

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 372fb62..d0f8715 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -667,6 +667,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
               return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_VECTOR) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_VECTOR), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_TWO_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From e1cce42fc1899aae8f160c2a5b59fb0ad878df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 24/55] fix: refuse option calc_derivs with the four and six
 stream solvers: they do not compute derivatives

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index d0f8715..c5bc7fc 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -672,6 +672,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
                return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_CALC_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From dd29abe84a18b0d39269baae5ea34a309b59ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 25/55] fix: refuse option reverse_derivs with solvers that
 have no adjoint and crash with it

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c5bc7fc..af8544e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -677,6 +677,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
                return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_REVERSE_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_REVERSE_DERIVS), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 9bbf0b22f13b164f20e0f5454d07b76fd0c79667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 26/55] fix: refuse option quad_norm_gaus_leg with the four and
 six stream solvers: they use constants of double-Gauss quadrature

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index af8544e..0dd6ac1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -702,6 +702,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
                return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_QUAD_NORM_GAUS_LEG) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_QUAD_NORM_GAUS_LEG), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_QUAD_LOBATTO) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_QUAD_LOBATTO), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 748ed5bdd3a3a81453835e67550cb9d07573ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:58 +0000
Subject: [PATCH 27/55] fix: direct beam in downward mean radiance and flux of
 the output level itself, and none without a solar source

---
 src/xrtm_model.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..e4c605b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6110,6 +6110,27 @@ static double max_radiance_ratio(double I1, double I2) {
 
 
 
+static double btran_at_ulevel(xrtm_data *d, int i_ulevel) {
+
+     int i;
+
+     double a;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i = d->ulevels[i_ulevel];
+
+     a = d->btran[i];
+
+     if (d->options & XRTM_OPTION_OUTPUT_AT_TAUS)
+          a *= exp(-d->utaus2[i_ulevel] * d->as_0[i]);
+
+     return a;
+}
+
+
+
 static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
      int i;
@@ -6265,12 +6286,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = btran_at_ulevel(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              mean_m[j] += d->F_0 * a / (4. * PI);
+                    }
                }
           }
 
@@ -6280,12 +6304,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = btran_at_ulevel(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              flux_m[j] += d->F_0 * d->mu_0 * a;
+                    }
                }
           }
 
-- 
2.43.0


From 7a291b3977cf4421938f2db194e06df04ca5b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 28/55] fix: derivatives of mean radiances and fluxes were
 never computed

---
 src/xrtm_model.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e4c605b..2b958b8 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6131,6 +6131,29 @@ static double btran_at_ulevel(xrtm_data *d, int i_ulevel) {
 
 
 
+static double btran_at_ulevel_l(xrtm_data *d, int i_ulevel, int i_deriv) {
+
+     int i;
+
+     double a;
+     double a_l;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i = d->ulevels[i_ulevel];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
+          return d->btran_l[i][i_deriv];
+
+     a   = d->utaus2[i_ulevel];
+     a_l = d->utaus2[i_ulevel] * d->ltau_l[i][i_deriv] / d->ltau[i];
+
+     return (d->btran_l[i][i_deriv] - d->btran[i] * (a_l * d->as_0[i] + a * d->as_0_l[i][i_deriv])) * exp(-a * d->as_0[i]);
+}
+
+
+
 static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
      int i;
@@ -6295,6 +6318,20 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               mean_m[j] += d->F_0 * a / (4. * PI);
                     }
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              a = btran_at_ulevel_l(d, j, k);
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   mean_p_l[j][k] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                                   mean_m_l[j][k] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_m_l[j][k]);
+                                   if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                                        mean_m_l[j][k] += d->F_0 * a / (4. * PI);
+                              }
+                         }
+                    }
                }
           }
 
@@ -6313,6 +6350,20 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               flux_m[j] += d->F_0 * d->mu_0 * a;
                     }
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              a = btran_at_ulevel_l(d, j, k);
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   flux_p_l[j][k] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                                   flux_m_l[j][k] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, a, i_m_l[j][k]);
+                                   if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                                        flux_m_l[j][k] += d->F_0 * d->mu_0 * a;
+                              }
+                         }
+                    }
                }
           }
 
-- 
2.43.0


From 858c1590bb1c52bf6d4d881f0d4b14988921d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:48 +0000
Subject: [PATCH 29/55] fix: xrtm_solution() refuses output flux_divergence,
 which is not computed

---
 src/xrtm_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 0dd6ac1..f270787 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5726,8 +5726,8 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
      }
 
      if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE) {
-          if (check_solvers(solver, 0, 1, "output option", xrtm_output_mask_to_name(XRTM_OUTPUT_FLUX_DIVERGENCE), XRTM_SOLVER_SINGLE, 0))
-               return XRTM_INT_ERROR;
+          fprintf(stderr, "ERROR: flux_divergence not yet supported as an output\n");
+          return XRTM_INT_ERROR;
      }
 
 #ifdef INCLUDE_DEV_SOURCE
-- 
2.43.0


From 5c961341661accd8950a0a6565c4287d1aa739bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 30/55] fix: xrtm_fd_solution() refuses outputs other than
 radiance instead of writing through NULL

---
 src/xrtm_fd_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index bfcdd29..81a76d5 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1139,6 +1139,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 */
 
 
+     if (solutions != XRTM_OUTPUT_RADIANCE) {
+          fprintf(stderr, "ERROR: only radiance is supported as an output for finite differencing\n");
+          return XRTM_INT_ERROR;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 3605b10953d3b184379ea189e9bac6da7a965513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:33 +0000
Subject: [PATCH 31/55] fix: kernels without parameters set their derivatives
 to zero instead of leaving those of another kernel

---
 src/xrtm_brdf.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..c3108a4 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -388,6 +388,8 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      /* Roujean 1992, Wanner 1995, Spurr 2004 (contains a typo in eq for f) */
 
+     int ii;
+
      double a = 1.;
 
      double delta;
@@ -396,6 +398,14 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      delta = (aux2->roujean.a + sqrt(aux2->roujean.b - aux2->roujean.c * aux->cos_phi[k])) / PI;
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      return ((PI - a * phi) * aux->cos_phi[k] + aux->sin_phi[k]) * aux2->roujean.d - delta;
 }
 
@@ -508,6 +518,8 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      /* Wanner 1995, Spurr 2004 */
 
+     int ii;
+
      double cos_ksi;
      double ksi;
 
@@ -515,6 +527,14 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      ksi     = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.a - PI / 2.;
 }
 
@@ -524,6 +544,8 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      /* Wanner 1995, Spurr 2004 */
 
+     int ii;
+
      double cos_ksi;
      double ksi;
 
@@ -531,6 +553,14 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      ksi         = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.c - PI / 4.;
 }
 
-- 
2.43.0


From a2d26fa1b385a0c2f9f6084e61afa9e9ce45827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 32/55] fix: xrtm_get_levels_b_l() returns an int, as
 documented and as all bindings expect

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f270787..ee5b310 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3768,16 +3768,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
-- 
2.43.0


From 9ed5fba66ca3e3b8a3f728ceca79f741b7f6487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:44 +0000
Subject: [PATCH 33/55] fix: the functions of the Fortran 77 binding that
 return a value return it instead of a status

---
 interfaces/xrtm_fd_int_f77.f      |  20 +-
 interfaces/xrtm_fd_int_f77_util.c |  88 ++++-----
 interfaces/xrtm_int_f77.f         |  50 ++---
 interfaces/xrtm_int_f77_util.c    | 312 +++++++++++++++---------------
 4 files changed, 235 insertions(+), 235 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..3fdd534 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,11 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
+     int r;
+     r = xrtm_fd_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -89,13 +89,13 @@ int xrtm_fd_set_f_iso_top_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_top_l)
 
 double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_top_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -125,13 +125,13 @@ int xrtm_fd_set_f_iso_bot_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_bot_l)
 
 double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_bot_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -162,13 +162,13 @@ int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 
 double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *levels_b_l)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
+     r = xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -198,13 +198,13 @@ int xrtm_fd_set_surface_b_p_n_bindx_f77_(xrtm_fd_data *d, double *surface_b_l)
 
 double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
+     r = xrtm_fd_get_surface_b_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -263,15 +263,15 @@ int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 
 double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_g_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -337,6 +337,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 
 double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      int i_elem;
@@ -345,11 +346,10 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -408,15 +408,15 @@ int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 
 double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_omega_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -475,15 +475,15 @@ int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 
 double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -517,15 +517,15 @@ int xrtm_fd_set_kernel_ampfac_p_n_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, do
 
 double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, int *i_deriv_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
+     r = xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -592,17 +592,17 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
 
 double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, int *i_deriv_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      int i_param;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..a69da89 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,133 +57,133 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
+     int r;
+     r = xrtm_get_options(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
+     int r;
+     r = xrtm_get_solvers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
+     int r;
+     r = xrtm_get_max_coef(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
+     int r;
+     r = xrtm_get_n_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
+     int r;
+     r = xrtm_get_n_stokes(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
+     int r;
+     r = xrtm_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
+     int r;
+     r = xrtm_get_n_layers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
+     int r;
+     r = xrtm_get_n_kernels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
+     int r;
+     r = xrtm_get_n_kernel_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     enum xrtm_kernel_type r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
+     r = xrtm_get_kernel(d, i_kernel);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
+     int r;
+     r = xrtm_get_n_out_levels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas_2(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -201,11 +201,11 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
+     double r;
+     r = xrtm_get_doub_d_tau(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -273,11 +273,11 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
+     double r;
+     r = xrtm_get_fourier_tol(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -295,11 +295,11 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
+     double r;
+     r = xrtm_get_lambda(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -317,11 +317,11 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
+     double r;
+     r = xrtm_get_planet_r(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -419,11 +419,11 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
+     double r;
+     r = xrtm_get_F_iso_top(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -453,13 +453,13 @@ int xrtm_set_f_iso_top_l_n_bindx_f77_(xrtm_data *d, double *F_iso_top_l)
 
 double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_top_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -477,11 +477,11 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
+     double r;
+     r = xrtm_get_F_iso_bot(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -511,13 +511,13 @@ int xrtm_set_f_iso_bot_l_n_bindx_f77_(xrtm_data *d, double *F_iso_bot_l)
 
 double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_bot_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -535,11 +535,11 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
+     double r;
+     r = xrtm_get_F_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -557,11 +557,11 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
+     double r;
+     r = xrtm_get_theta_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -579,11 +579,11 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
+     double r;
+     r = xrtm_get_phi_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -658,11 +658,11 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
+     double r;
+     r = xrtm_get_surface_b(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -692,13 +692,13 @@ int xrtm_set_surface_b_l_n_bindx_f77_(xrtm_data *d, double *surface_b_l)
 
 double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
+     r = xrtm_get_surface_b_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -728,13 +728,13 @@ int xrtm_set_g_n_bindx_f77_(xrtm_data *d, double *g)
 
 double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
+     r = xrtm_get_g(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -793,15 +793,15 @@ int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
 
 double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_g_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -837,29 +837,29 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
 
 int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     int r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
+     r = xrtm_get_n_coef(d, i_layer);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_elem;
      int i_coef;
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
+     r = xrtm_get_coef(d, i_layer, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -925,6 +925,7 @@ int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
 
 double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      int i_elem;
@@ -933,11 +934,10 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -967,13 +967,13 @@ int xrtm_set_omega_n_bindx_f77_(xrtm_data *d, double *omega)
 
 double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
+     r = xrtm_get_omega(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1032,15 +1032,15 @@ int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
 
 double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_omega_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1070,13 +1070,13 @@ int xrtm_set_ltau_n_bindx_f77_(xrtm_data *d, double *ltau)
 
 double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
+     r = xrtm_get_ltau(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1135,15 +1135,15 @@ int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
 
 double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_ltau_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1163,13 +1163,13 @@ int xrtm_set_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_, double *ampf
 
 double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     double r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
+     r = xrtm_get_kernel_ampfac(d, i_kernel);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1203,15 +1203,15 @@ int xrtm_set_kernel_params_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *pa
 
 double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
+     r = xrtm_get_kernel_params(d, i_kernel, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1245,15 +1245,15 @@ int xrtm_set_kernel_ampfac_l_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *
 
 double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
+     r = xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1320,17 +1320,17 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
 
 double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      int i_param;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From 69b518616e87065fa21a6332b6d3b99cd866ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 34/55] fix: the Fortran bindings of the finite difference
 model use its own number of derivatives as dimension

---
 interfaces/xrtm_fd_int_f77_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 28 +++++++++++++--------------
 3 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 3fdd534..5cbe06d 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -150,7 +150,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -251,7 +251,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -312,7 +312,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -325,7 +325,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -396,7 +396,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -463,7 +463,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -580,7 +580,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -629,13 +629,13 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -670,8 +670,8 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..57e83cc 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -27,7 +27,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -79,7 +79,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -105,7 +105,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -143,13 +143,13 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -178,8 +178,8 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..a9160ef 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,30 +20,30 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
 subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
-subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
+subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
-subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
-subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" omega_l in;
+subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
-subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
-subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" ltau_l in;
+subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From b4a2d9e449430a3b98bb2806be938801fbc5ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:42 +0000
Subject: [PATCH 35/55] fix: the Fortran bindings release the mapped arrays
 when the call fails

---
 interfaces/xrtm_fd_int_f77_util.c | 24 ++++++++++++++++++++++++
 interfaces/xrtm_fd_int_f90_util.c | 24 ++++++++++++++++++++++++
 interfaces/xrtm_int_f77_util.c    | 31 +++++++++++++++++++++++++++++++
 interfaces/xrtm_int_f90_util.c    | 31 +++++++++++++++++++++++++++++++
 4 files changed, 110 insertions(+)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 5cbe06d..e206469 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -153,6 +153,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -254,6 +255,7 @@ int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -285,6 +287,7 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -300,6 +303,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *coe
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -315,6 +319,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -328,6 +333,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -399,6 +405,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -466,6 +473,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -583,6 +591,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -638,6 +647,16 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -674,6 +693,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index 57e83cc..07c17ca 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -17,6 +17,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -30,6 +31,7 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -43,6 +45,7 @@ int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, d
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -56,6 +59,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -69,6 +73,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -82,6 +87,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -95,6 +101,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -108,6 +115,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -121,6 +129,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, doub
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -152,6 +161,16 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -182,6 +201,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index a69da89..24544ad 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -625,6 +625,7 @@ int xrtm_set_levels_b_l_n_bindx_f77_(xrtm_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
      if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -784,6 +785,7 @@ int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
      if (xrtm_set_g_l_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -815,6 +817,7 @@ int xrtm_set_coef_1_bindx_f77_(xrtm_data *d, int *i_layer_, int *n_coef_layer_,
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+          free_array2_d(coef2);
           return -1;
      }
      free_array2_d(coef2);
@@ -828,6 +831,7 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
+          free_array3_d(coef2);
           return -1;
      }
      free_array3_d(coef2);
@@ -873,6 +877,7 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -888,6 +893,7 @@ int xrtm_set_coef_l_n1_bindx_f77_(xrtm_data *d, int *i_deriv_, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -903,6 +909,7 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -916,6 +923,7 @@ int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -1023,6 +1031,7 @@ int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
      if (xrtm_set_omega_l_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -1126,6 +1135,7 @@ int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
      if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -1311,6 +1321,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -1414,6 +1425,16 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -1448,6 +1469,11 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      if (xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -1469,6 +1495,8 @@ int xrtm_mean_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_,
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
           return -1;
      }
      free_array2_d(mean_p_l2);
@@ -1487,6 +1515,8 @@ int xrtm_flux_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, double *f
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
           return -1;
      }
      free_array2_d(flux_p_l2);
@@ -1503,6 +1533,7 @@ int xrtm_flux_divergence_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(flux_div_l2);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..dd55935 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -17,6 +17,7 @@ int xrtm_set_levels_b_l_n_bindx_f90(xrtm_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
      if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -30,6 +31,7 @@ int xrtm_set_g_l_nn_bindx_f90(xrtm_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
      if (xrtm_set_g_l_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -43,6 +45,7 @@ int xrtm_set_coef_1_bindx_f90(xrtm_data *d, int i_layer, int n_coef_layer, doubl
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+          free_array2_d(coef2);
           return -1;
      }
      free_array2_d(coef2);
@@ -56,6 +59,7 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
+          free_array3_d(coef2);
           return -1;
      }
      free_array3_d(coef2);
@@ -69,6 +73,7 @@ int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -82,6 +87,7 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -95,6 +101,7 @@ int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -108,6 +115,7 @@ int xrtm_set_coef_l_nn_bindx_f90(xrtm_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -121,6 +129,7 @@ int xrtm_set_omega_l_nn_bindx_f90(xrtm_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
      if (xrtm_set_omega_l_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -134,6 +143,7 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
      if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -147,6 +157,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *pa
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -178,6 +189,16 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_solution(d, solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -208,6 +229,11 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      if (xrtm_radiance(d, solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -227,6 +253,8 @@ int xrtm_mean_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, dou
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_mean_radiance(d, solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
           return -1;
      }
      free_array2_d(mean_p_l2);
@@ -243,6 +271,8 @@ int xrtm_flux_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, double *flux
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux(d, solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
           return -1;
      }
      free_array2_d(flux_p_l2);
@@ -257,6 +287,7 @@ int xrtm_flux_divergence_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, d
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux_divergence(d, solver, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(flux_div_l2);
-- 
2.43.0


From 098a28e7fe4e3259d28f434546b654c41a517dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:14 +0000
Subject: [PATCH 36/55] fix: Python levels_b and levels_b_l have one element
 for each of the n_layers + 1 levels

---
 interfaces/xrtm_int_py.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..f5e968c 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1051,7 +1051,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1073,7 +1073,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1100,7 +1100,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1125,7 +1125,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1149,7 +1149,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From a3c6212f135433ea36b61ee4a80e3cffe42d5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:14 +0000
Subject: [PATCH 37/55] fix: Python get_kernel() formatted the kernel type
 itself as a string

---
 interfaces/xrtm_int_py.c      | 2 +-
 interfaces/xrtm_interface.def | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index f5e968c..110f93e 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -333,7 +333,7 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..8c69b09 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -17,7 +17,7 @@ subprogram_general int 0 get_n_derivs			1;
 subprogram_general int 0 get_n_layers			1;
 subprogram_general int 0 get_n_kernels			1;
 subprogram_general int 0 get_n_kernel_quad		1;
-subprogram_general enum kernel_type 0 get_kernel	1 enum_array xrtm_option_value_to_name, int 0 i_kernel in;
+subprogram_general enum kernel_type 0 get_kernel	1 enum_array xrtm_kernel_value_to_name, int 0 i_kernel in;
 subprogram_general int 0 get_n_out_levels		1;
 subprogram_general int 0 get_n_out_thetas		1;
 subprogram_general int 0 get_n_out_thetas_2		1;
-- 
2.43.0


From cbecac1c1b94f7dd5dea09adf8a7ff181d0e0c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:14 +0000
Subject: [PATCH 38/55] fix: missing argument of the message about the rank of
 an array in the Python binding

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 110f93e..c4b2cd3 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -98,7 +98,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
-- 
2.43.0


From f0421bb0a1590c5c2f2771971fe5040295baa6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:23 +0000
Subject: [PATCH 39/55] fix: out_phis has an element for each quadrature angle
 when there are no output angles

---
 interfaces/xrtm_fd_int_f77_util.c | 4 ++--
 interfaces/xrtm_fd_int_f90_util.c | 4 ++--
 interfaces/xrtm_fd_interface.def  | 4 ++--
 interfaces/xrtm_int_f77_util.c    | 4 ++--
 interfaces/xrtm_int_f90_util.c    | 4 ++--
 interfaces/xrtm_int_py.c          | 4 ++--
 interfaces/xrtm_interface.def     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index e206469..3318d01 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -635,7 +635,7 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -686,7 +686,7 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index 07c17ca..6fa8a62 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -149,7 +149,7 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -194,7 +194,7 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index a9160ef..29351d4 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -54,5 +54,5 @@ subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_p
 subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 24544ad..0383709 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1413,7 +1413,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1462,7 +1462,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index dd55935..0affa30 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -177,7 +177,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -222,7 +222,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index c4b2cd3..754e48f 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 8c69b09..88bcfb8 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 480d9924969fb73673b8aaf15c92869a8f6a84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 40/55] fix: beam parameters below a changed layer were not
 recomputed

---
 src/xrtm_model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2b958b8..2febace 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -466,6 +466,10 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                                         ltau[i-1] * as_0_l[i-1][j]) * atran[i-1];
                }
           }
+
+          /* btau accumulates from the top so the next level is now out of date */
+          if (i < d->n_layers)
+               dep_flags[i] |= deps;
      }
 }
 }
-- 
2.43.0


From 5f2759ca9d307fdc9d10d34ffec80db62bec074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:23 +0000
Subject: [PATCH 41/55] fix: the saved layer operators also depend on F_0, the
 Planck terms and the doubling step

---
 src/xrtm_model.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2febace..d7e510b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2097,6 +2097,15 @@ static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
                 local_r_t_u_w_deps(d);
 
+     if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+          deps |= DEP_MASK_F_0;
+
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
+          deps |= DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
+
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
 
-- 
2.43.0


From 8e77fafa5b6d59b213e10e8c43512cc57323b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 42/55] fix: the boundary sources also depend on the output
 angles, the surface Planck term and the derivatives of F_iso

---
 src/xrtm_model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index d7e510b..c16712a 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4174,7 +4174,8 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_UMUS | DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From b81add9df6db4bb289b3359d950ff446b0925a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:17 +0000
Subject: [PATCH 43/55] fix: with PSA the saved operators of a layer also
 depend on the layers above it

---
 src/xrtm_interface.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee5b310..26b841d 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -423,6 +423,11 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
      int i;
      int j;
 
+     int n_layers2;
+
+     /* with PSA the average secant of a layer depends on the layers above it */
+     n_layers2 = d->options & XRTM_OPTION_PSA ? d->n_layers : n_layers;
+
      d->dep_flags_utaus   |= dep;
      d->dep_flags_chapman |= dep;
 
@@ -453,8 +458,10 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_phase_vecs_q0    [i][j] |= dep;
                d->dep_flags_phase_vecs_u0    [i][j] |= dep;
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
-               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          for (j = i_layer; j < n_layers2; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
      }
 }
 
-- 
2.43.0


From f4b5c64e13d8dffd91071767ed9bb9d7a802a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:22 +0000
Subject: [PATCH 44/55] fix: saved layer and total operators of one solver were
 used for another one

---
 src/xrtm_interface.c | 23 +++++++++++++++++++++++
 src/xrtm_interface.h |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 26b841d..49d8644 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -467,6 +467,22 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
 
 
 
+/* the saved layer and total operators are those of the solver used last */
+static void set_solver_deps(xrtm_data *d) {
+
+     int i;
+     int j;
+
+     for (i = 0; i < d->n_four; ++i) {
+          d->dep_flags_total_R_T_S_U_W_V[i] = DEP_MASK_MASK;
+
+          for (j = 0; j < d->n_layers; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] = DEP_MASK_MASK;
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1804,6 +1820,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     d->solver_saved = 0;
+
      init_deps(d, DEP_MASK_MASK, 0, d->n_layers);
 
 
@@ -5745,6 +5763,11 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
 #endif
      SOLUTION_PREPROCESS();
 
+     if (d->solver_saved != (int) solver) {
+          set_solver_deps(d);
+          d->solver_saved = solver;
+     }
+
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, d->work)) {
           fprintf(stderr, "ERROR: get_solution()\n");
           return XRTM_INT_ERROR;
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..540fbf5 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -258,6 +258,8 @@ typedef struct {
 
      int n_stacks;
 
+     int solver_saved;
+
      enum xrtm_kernel_type *kernels;
 
      int *ulevels;
-- 
2.43.0


From 47860a17510d9d3793f5826a3b65ba613415cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:35 +0000
Subject: [PATCH 45/55] fix: release set_flags_kernel_func when the inputs are
 complete

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 49d8644..27da379 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2629,6 +2629,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From cd76fc3d29aa4e582d2b05c49c0d081aafb1695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:38 +0000
Subject: [PATCH 46/55] fix: creation accepted a solver mask without any solver
 and calls then followed pointers that were not allocated

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 27da379..c16ca8b 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -660,6 +660,11 @@ int xrtm_check_counts(int options, int max_coef, int n_quad, int n_stokes, int n
  ******************************************************************************/
 int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas, int report) {
 
+     if (! (solvers & XRTM_SOLVERS_ALL)) {
+          if (report) fprintf(stderr, "ERROR: invalid value for solvers: %d\n", solvers);
+          return XRTM_INT_ERROR;
+     }
+
      if (n_quad != 1) {
           if (check_solvers(solvers, 0, report, "option", "n_quad != 1", XRTM_SOLVER_TWO_STREAM, 0))
               return XRTM_INT_ERROR;
-- 
2.43.0


From 77b93012d6ec987a6197ab4c3ce8cc4d2d36b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:40 +0000
Subject: [PATCH 47/55] fix: xrtm_kernel_qx() and xrtm_kernel_qw() followed
 pointers that are not allocated without kernels

---
 src/xrtm_interface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c16ca8b..9152e91 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5598,6 +5598,8 @@ int xrtm_qw(xrtm_data *d, double *qw) {
 int xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) {
 
      int i;
+
+     CHECK_N_KERNELS_NOT_ZERO(d, XRTM_INT_ERROR);
 /*
      SOLUTION_PREPROCESS();
 */
@@ -5612,6 +5614,8 @@ int xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) {
 int xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) {
 
      int i;
+
+     CHECK_N_KERNELS_NOT_ZERO(d, XRTM_INT_ERROR);
 /*
      SOLUTION_PREPROCESS();
 */
-- 
2.43.0


From eb914e8ed1992171faeca78621b715f4ecca6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:04 +0000
Subject: [PATCH 48/55] fix: the two stream solver without a solar source
 followed derivs.beam, which is not allocated then

---
 src/xrtm_two_stream.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..b5ef8a8 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -903,7 +903,7 @@ if (1) {
                                    I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                               }
 
-                              if (derivs->beam[ii][j]) {
+                              if (solar && derivs->beam[ii][j]) {
                                    I_p_l[i][j][0] += F_p_l[ii][j];
                                    I_m_l[i][j][0] += F_m_l[ii][j];
                               }
@@ -947,7 +947,7 @@ if (1) {
                                    I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                               }
 
-                              if (derivs->beam[ii][j]) {
+                              if (solar && derivs->beam[ii][j]) {
                                    I_p_l[i][j][0] += F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
                                    I_m_l[i][j][0] += F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
                               }
@@ -1014,7 +1014,7 @@ else {
                               I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                          }
 
-                         if (derivs->beam[ii][j]) {
+                         if (solar && derivs->beam[ii][j]) {
                               I_p_l[i][j][0] += F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
                               I_m_l[i][j][0] += F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
                          }
-- 
2.43.0


From 2c9cf9f47b06134be6b34c6a0a971b16cb84a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:24 +0000
Subject: [PATCH 49/55] fix: refuse FOUR_STREAM and SIX_STREAM without
 XRTM_OPTION_SOURCE_SOLAR, they use the solar inputs unconditionally

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 9152e91..129e321 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -749,7 +749,7 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
      }
 
      if (! (options & XRTM_OPTION_SOURCE_SOLAR)) {
-          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_SOURCE_SOLAR), XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, 0))
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_SOURCE_SOLAR), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, 0))
                return XRTM_INT_ERROR;
      }
 
-- 
2.43.0


From 4561344e887034520b9c675de888983198036bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 50/55] fix: TWO_STREAM with SFI and OUTPUT_AT_TAUS: F_0 and
 n_umus were given to sfi_layer() in the wrong order

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index b5ef8a8..e166c62 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From 1cf56f286e8036520d5cafad58a71d948e0ffb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 51/55] fix: TWO_STREAM with SFI and a surface: no solar part
 in the derivatives without XRTM_OPTION_SOURCE_SOLAR

---
 src/xrtm_two_stream.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index e166c62..213a13f 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1164,9 +1164,8 @@ if (0)
                          I_0_l[j][k] = solfac * (btran_l[n_layers - 0][j] * Rs_u0[k] + btran[n_layers - 0] * Rs_u0_l[j][k]) + (a1_l * Rs_uq[k][0] + a1 * Rs_uq_l[j][k][0]);
 else {
                          I_0_l[j][k] = 0.;
-if (add_single_scattering) {
-                         if (solar &&
-                             derivs->beam[n_layers - 0][j])
+if (solar && add_single_scattering) {
+                         if (derivs->beam[n_layers - 0][j])
                               I_0_l[j][k] += btran_l[n_layers - 0][j] * Rs_u0[k];
                          if (derivs->layers[n_layers - 0][j])
                               I_0_l[j][k] += btran[n_layers - 0] * Rs_u0_l[j][k];
-- 
2.43.0


From c9147a46db56550c75a4e87a2f1479efa2bc361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:49 +0000
Subject: [PATCH 52/55] fix: EIG_BVP with PART_SOL_GREENS and derivatives:
 release atran2_l

---
 src/xrtm_eig_bvp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..0be3e29 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -1032,6 +1032,9 @@ else {
                }
           }
      }
-     if (greens)
+     if (greens) {
           free_array1_d(atran2);
+          if (n_derivs > 0)
+               free_array2_d(atran2_l);
+     }
 }
-- 
2.43.0


From bde54804cb6517159fd84e4a60f4ea9dea99d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:18 +0000
Subject: [PATCH 53/55] fix: stack_chain_alloc(): release the temporary flags
 when it fails

---
 src/xrtm_stacks.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_stacks.c b/src/xrtm_stacks.c
index 5bc9bda..2fcecbe 100644
--- a/src/xrtm_stacks.c
+++ b/src/xrtm_stacks.c
@@ -588,6 +588,7 @@ if (derivs_s2[k]) {
                     for (j = 0; j < n_four; ++j) {
                          if (layer_add_aux_alloc(&stacks[i].d[j], n_quad)) {
                               fprintf(stderr, "ERROR: layer_add_aux_alloc()");
+                              flags_free(derivs_s2);
                               return -1;
                          }
                     }
@@ -596,8 +597,10 @@ if (derivs_s2[k]) {
      }
 
      }
-     else if (r < 0)
+     else if (r < 0) {
+          flags_free(derivs_s2);
           return -1;
+     }
 
      flags_free(derivs_s2);
 
-- 
2.43.0


From c1f2a8a91e412478214699f65710ae24e971a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:18 +0000
Subject: [PATCH 54/55] fix: build_layer_stacks(): release the temporary flags
 when a layer fails

---
 src/xrtm_model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index c16712a..45dbf9b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2460,6 +2460,7 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
                                               0, save_tree, &work)) {
 
                          fprintf(stderr, "ERROR: get_layer_R_T_S_U_W_V()\n");
+                         flags_free(derivs_stacks);
                          return -1;
                     }
 
-- 
2.43.0


From e98b89fd64a18d4e0fdcc2155808912e945590ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:40 +0000
Subject: [PATCH 55/55] fix: finite differencing: release the temporary arrays
 when a call fails

---
 src/xrtm_fd_interface.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 81a76d5..5ea4344 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1016,6 +1016,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
+                free_array1_d(levels_b);
                 return -1;
            }
 
@@ -1025,6 +1026,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
+                free_array1_d(levels_b);
                 return -1;
            }
 
@@ -1181,12 +1183,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1202,7 +1204,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
           }
 
@@ -1213,12 +1215,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1234,12 +1236,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1255,7 +1257,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return XRTM_INT_ERROR;
+                    goto error;
                }
           }
      }
@@ -1272,6 +1274,14 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
 
      return 0;
+
+error:
+     free_array2_d(coef);
+
+     free_array4_d(I_p2);
+     free_array4_d(I_m2);
+
+     return XRTM_INT_ERROR;
 }
 
 
-- 
2.43.0

