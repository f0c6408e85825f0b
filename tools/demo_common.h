/* helpers of the demonstrations: an instance with every input set */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <xrtm_interface.h>
#include <xrtm_fd_interface.h>

#define DIE(...) do { fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } while (0)
#define OK(x) do { if (x) DIE("failed: %s", #x); } while (0)

typedef struct {
     long options; int solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_kernels, n_out_levels, n_out_thetas;
     enum xrtm_kernel_type kernels[3];
} config;

static config def_config(long options, int solvers, int n_derivs) {
     config c = {options, solvers, 16, 4, 1, n_derivs, 4, 1, 2, 2, {XRTM_KERNEL_LAMBERTIAN}};
     if (n_derivs) c.options |= XRTM_OPTION_CALC_DERIVS;
     return c;
}

static const double LTAU[]  = {.02, .05, 1., .1};
static const double OMEGA[] = {.99, .98, .9, .97};

static void set_coefs(xrtm_data *d, int layer, double g) {
     double x[6][16]; double *p[6]; int i, k; double f = 1.;
     for (k = 0; k < 6; ++k) p[k] = x[k];
     for (i = 0; i < 16; ++i) { for (k = 0; k < 6; ++k) x[k][i] = 0.; x[0][i] = (2. * i + 1.) * f; f *= g; }
     OK(xrtm_set_coef_1(d, layer, 16, p));
}

static void make(xrtm_data *d, config *c) {
     OK(xrtm_create(d, c->options, c->solvers, c->max_coef, c->n_quad, c->n_stokes, c->n_derivs, c->n_layers, 1,
                    c->n_kernels, 8, c->kernels, c->n_out_levels, c->n_out_thetas));
}

static void fill(xrtm_data *d, config *c) {
     int i, j; int lev[] = {0, c->n_layers}; double th[] = {10., 40.};
     double z[] = {100., 50., 20., 5., 0.}, b[] = {1., 1.2, 1.4, 1.6, 1.8}, taus[] = {0., .5};
     if (c->solvers & XRTM_SOLVER_DOUB_ADD) OK(xrtm_set_doub_d_tau(d, 1.e-6));
     if (c->solvers & XRTM_SOLVER_PADE_ADD) OK(xrtm_set_pade_params(d, 0, 2));
     if (c->solvers & XRTM_SOLVER_SOS) OK(xrtm_set_sos_params(d, 40, 10., .0001));
     OK(xrtm_set_fourier_tol(d, .0001));
     if (c->options & XRTM_OPTION_OUTPUT_AT_TAUS) OK(xrtm_set_out_taus(d, taus)); else {
          if (c->n_out_levels == 1 && (c->options & XRTM_OPTION_TOP_DOWN_ADDING)) lev[0] = c->n_layers;
          OK(xrtm_set_out_levels(d, lev));
     }
     if (c->n_out_thetas) OK(xrtm_set_out_thetas(d, th));
     OK(xrtm_set_F_iso_top(d, 0.)); OK(xrtm_set_F_iso_bot(d, 0.));
     if (c->options & XRTM_OPTION_SOURCE_SOLAR) {
          OK(xrtm_set_F_0(d, 1.)); OK(xrtm_set_theta_0(d, 35.)); OK(xrtm_set_phi_0(d, 0.));
     }
     if (c->options & XRTM_OPTION_SOURCE_THERMAL) {
          OK(xrtm_set_lambda(d, 10.)); OK(xrtm_set_levels_b(d, b)); OK(xrtm_set_surface_b(d, 2.));
     }
     if (c->options & XRTM_OPTION_PSA) { OK(xrtm_set_planet_r(d, 6371.)); OK(xrtm_set_levels_z(d, z)); }
     for (i = 0; i < c->n_layers; ++i) {
          OK(xrtm_set_ltau_1(d, i, LTAU[i])); OK(xrtm_set_omega_1(d, i, OMEGA[i])); set_coefs(d, i, .5);
     }
     for (i = 0; i < c->n_kernels; ++i) {
          OK(xrtm_set_kernel_ampfac(d, i, .2));
          static const int np[] = {0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 4};
          for (j = 0; j < np[c->kernels[i]]; ++j)
               OK(xrtm_set_kernel_params_1(d, i, j, .3 + .1 * j));
     }
}

/* radiances (and derivatives) flattened into out[]; returns their number, or -1 on failure */
static int solve(xrtm_data *d, config *c, int solver, double *out) {
     int nt = c->n_out_thetas ? c->n_out_thetas : c->n_quad, i, j, k, l, m, n = 0, r;
     double phi[] = {30.}; double *phis[64];
     double ****ip = alloc_array4_d(c->n_out_levels, nt, 1, c->n_stokes), ****im = alloc_array4_d(c->n_out_levels, nt, 1, c->n_stokes);
     double *****kp = c->n_derivs ? alloc_array5_d(c->n_out_levels, c->n_derivs, nt, 1, c->n_stokes) : NULL;
     double *****km = c->n_derivs ? alloc_array5_d(c->n_out_levels, c->n_derivs, nt, 1, c->n_stokes) : NULL;
     for (i = 0; i < 64; ++i) phis[i] = phi;
     r = xrtm_radiance(d, solver, 1, phis, ip, im, kp, km);
     if (!r) {
          for (i = 0; i < c->n_out_levels; ++i) for (j = 0; j < nt; ++j) for (k = 0; k < c->n_stokes; ++k) {
               out[n++] = ip[i][j][0][k]; out[n++] = im[i][j][0][k];
               for (l = 0; l < c->n_derivs; ++l) { out[n++] = kp[i][l][j][0][k]; out[n++] = km[i][l][j][0][k]; }
          }
     }
     (void) m;
     free_array4_d(ip); free_array4_d(im);
     if (kp) { free_array5_d(kp); free_array5_d(km); }
     return r ? -1 : n;
}

static int differ(const double *a, const double *b, int n) {
     int i;
     for (i = 0; i < n; ++i)
          if (!(fabs(a[i] - b[i]) <= 1.e-9 * (fabs(a[i]) + fabs(b[i])) + 1.e-14)) return 1;
     return 0;
}
