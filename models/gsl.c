/* Models of the GSL functions: a generator yields any value of its range; vectors and matrices are plain memory. */
#include <stdlib.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_vector.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_eigen.h>
#include "sym.h"
static const gsl_rng_type rngT = {"model", 4294967295UL, 0, 0, 0, 0, 0};
const gsl_rng_type *gsl_rng_mt19937 = &rngT, *gsl_rng_default = &rngT, *gsl_rng_taus = &rngT;
gsl_rng *gsl_rng_alloc(const gsl_rng_type *T) { gsl_rng *r = malloc(sizeof(gsl_rng)); r->type = T; r->state = 0; return r; }
void gsl_rng_free(gsl_rng *r) { free(r); }
void gsl_rng_set(const gsl_rng *r, unsigned long s) {}
#include "window.h"
double gsl_rng_uniform(const gsl_rng *r) { return win_uniform(); }
double gsl_rng_uniform_pos(const gsl_rng *r) { double u; if (win_draw(&u)) return u + 0x1p-20; u = sym_draw(); sym_assume(u > 0); return u; }
unsigned long gsl_rng_uniform_int(const gsl_rng *r, unsigned long n) { double u; win_int(); if (n > 0 && win_draw(&u)) return (unsigned long)(u * n); sym_assert(n >= 1 && n <= 4294967295UL, "random integer requested from an empty range"); return (unsigned long)sym_int(0, (int)sym_conc((int)n) - 1, "rngint"); }
const char *gsl_strerror(const int e) { return e == 0 ? "success" : "error"; }
gsl_vector *gsl_vector_alloc(size_t n) { gsl_vector *v = malloc(sizeof *v); v->size = n; v->stride = 1; v->data = malloc(n * sizeof(double)); v->block = 0; v->owner = 1; return v; }
gsl_vector *gsl_vector_calloc(size_t n) { gsl_vector *v = gsl_vector_alloc(n); for (size_t i = 0; i < n; i++) v->data[i] = 0; return v; }
void gsl_vector_free(gsl_vector *v) { free(v->data); free(v); }
double gsl_vector_get(const gsl_vector *v, size_t i) { sym_assert(i < v->size, "vector index out of range"); return v->data[i]; }
void gsl_vector_set(gsl_vector *v, size_t i, double x) { sym_assert(i < v->size, "vector index out of range"); v->data[i] = x; }
gsl_matrix *gsl_matrix_alloc(size_t a, size_t b) { gsl_matrix *m = malloc(sizeof *m); m->size1 = a; m->size2 = b; m->tda = b; m->data = malloc(a * b * sizeof(double)); m->block = 0; m->owner = 1; return m; }
gsl_matrix *gsl_matrix_calloc(size_t a, size_t b) { gsl_matrix *m = gsl_matrix_alloc(a, b); for (size_t i = 0; i < a * b; i++) m->data[i] = 0; return m; }
void gsl_matrix_free(gsl_matrix *m) { free(m->data); free(m); }
double gsl_matrix_get(const gsl_matrix *m, size_t i, size_t j) { sym_assert(i < m->size1 && j < m->size2, "matrix index out of range"); return m->data[i * m->tda + j]; }
void gsl_matrix_set(gsl_matrix *m, size_t i, size_t j, double x) { sym_assert(i < m->size1 && j < m->size2, "matrix index out of range"); m->data[i * m->tda + j] = x; }
gsl_eigen_symm_workspace *gsl_eigen_symm_alloc(const size_t n) { gsl_eigen_symm_workspace *w = malloc(sizeof *w); w->size = n; w->d = 0; w->sd = 0; return w; }
void gsl_eigen_symm_free(gsl_eigen_symm_workspace *w) { free(w); }
/* the spectrum itself is GSL's: recorded is the matrix whose spectrum is requested */
double model_eigen_in[64], model_eigen_out[8]; int model_eigen_n = 0, model_sorted = 0; double model_eigen_pos = 0;
int gsl_eigen_symm(gsl_matrix *A, gsl_vector *ev, gsl_eigen_symm_workspace *w) {
  sym_assert(A->size1 == A->size2 && ev->size == A->size1 && w->size == A->size1, "eigenproblem of inconsistent sizes");
  model_eigen_n = (int)A->size1; model_sorted = 0;
  for (size_t i = 0; i < A->size1; i++) for (size_t j = 0; j < A->size2; j++) if (i * A->size2 + j < 64) model_eigen_in[i * A->size2 + j] = gsl_matrix_get(A, i, j);
  for (size_t i = 0; i < ev->size; i++) { ev->data[i] = sym_real(-1000, 1000, "eig"); if (i < 8) model_eigen_out[i] = ev->data[i]; }
  if (model_eigen_pos > 0) { int ok = 0; for (size_t i = 0; i < ev->size; i++) if (gsl_vector_get(ev, i) >= model_eigen_pos) ok = 1; sym_assume(ok); }
  return 0;
}
void gsl_sort_vector(gsl_vector *v) {
  for (size_t i = 1; i < v->size; i++) for (size_t j = i; j > 0 && v->data[j - 1] > v->data[j]; j--) { double t = v->data[j]; v->data[j] = v->data[j - 1]; v->data[j - 1] = t; }
  model_sorted = 1;
}
#define MR(f) f
#include "multiroot.h"
static const gsl_multiroot_fsolver_type mrT = {"model", 0, 0, 0, 0, 0}; const gsl_multiroot_fsolver_type *gsl_multiroot_fsolver_hybrids = &mrT;
/* less usual functions, for code that comes to use them */
#define WK __attribute__((weak))
double sqrt(double), log(double), exp(double), pow(double, double), fabs(double);
WK double gsl_pow_2(const double x) { return x * x; }
WK double gsl_pow_3(const double x) { return x * x * x; }
WK double gsl_pow_4(const double x) { return x * x * x * x; }
WK double gsl_pow_int(double x, int n) { double r = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) r *= x; return n < 0 ? 1 / r : r; }
WK double gsl_pow_uint(double x, unsigned int n) { return gsl_pow_int(x, (int)n); }
WK double gsl_max(double a, double b) { return a > b ? a : b; }
WK double gsl_min(double a, double b) { return a < b ? a : b; }
WK double gsl_sf_choose(unsigned n, unsigned k) { double r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
WK double gsl_sf_fact(unsigned n) { double r = 1; for (unsigned i = 2; i <= n; i++) r *= i; return r; }
WK double gsl_stats_mean(const double v[], size_t st, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += v[i * st]; return s / n; }
WK double gsl_stats_variance_m(const double v[], size_t st, size_t n, double m) { double s = 0; for (size_t i = 0; i < n; i++) s += (v[i * st] - m) * (v[i * st] - m); return s / (n - 1); }
WK double gsl_stats_variance(const double v[], size_t st, size_t n) { return gsl_stats_variance_m(v, st, n, gsl_stats_mean(v, st, n)); }
WK double gsl_stats_sd(const double v[], size_t st, size_t n) { return sqrt(gsl_stats_variance(v, st, n)); }
WK double gsl_stats_sd_m(const double v[], size_t st, size_t n, double m) { return sqrt(gsl_stats_variance_m(v, st, n, m)); }
WK double gsl_stats_variance_with_fixed_mean(const double v[], size_t st, size_t n, double m) { return gsl_stats_variance_m(v, st, n, m) * (n - 1) / n; }
WK double gsl_stats_sd_with_fixed_mean(const double v[], size_t st, size_t n, double m) { return sqrt(gsl_stats_variance_with_fixed_mean(v, st, n, m)); }
WK double gsl_stats_max(const double v[], size_t st, size_t n) { double m = v[0]; for (size_t i = 1; i < n; i++) if (v[i * st] > m) m = v[i * st]; return m; }
WK double gsl_stats_min(const double v[], size_t st, size_t n) { double m = v[0]; for (size_t i = 1; i < n; i++) if (v[i * st] < m) m = v[i * st]; return m; }
WK double gsl_sf_exp(const double x) { return exp(x); }
WK double gsl_sf_log(const double x) { return log(x); }
WK double gsl_log1p(const double x) { return log(1 + x); }
WK double gsl_expm1(const double x) { return exp(x) - 1; }
WK double gsl_hypot(const double a, const double b) { return sqrt(a * a + b * b); }
WK int gsl_isnan(const double x) { return x != x; }
WK int gsl_isinf(const double x) { return x > 1.7976931348623157e308 ? 1 : x < -1.7976931348623157e308 ? -1 : 0; }
WK int gsl_finite(const double x) { return x == x && !gsl_isinf(x); }
WK int gsl_fcmp(const double a, const double b, const double e) { double d = fabs(a - b), m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return d <= 2 * e * m ? 0 : a < b ? -1 : 1; }
WK double gsl_sf_gamma(const double x) { double gsl_sf_lngamma(double); return exp(gsl_sf_lngamma(x)); }
WK double lgamma(double x) { double gsl_sf_lngamma(double); return gsl_sf_lngamma(x); }
WK double tgamma(double x) { double gsl_sf_lngamma(double); return exp(gsl_sf_lngamma(x)); }
WK double *gsl_vector_ptr(gsl_vector *v, size_t i) { sym_assert(i < v->size, "vector index out of range"); return v->data + i; }
WK void gsl_vector_set_all(gsl_vector *v, double x) { for (size_t i = 0; i < v->size; i++) v->data[i] = x; }
WK void gsl_vector_set_zero(gsl_vector *v) { gsl_vector_set_all(v, 0); }
WK double gsl_vector_max(const gsl_vector *v) { double m = v->data[0]; for (size_t i = 1; i < v->size; i++) if (v->data[i] > m) m = v->data[i]; return m; }
WK double gsl_vector_min(const gsl_vector *v) { double m = v->data[0]; for (size_t i = 1; i < v->size; i++) if (v->data[i] < m) m = v->data[i]; return m; }
WK double *gsl_matrix_ptr(gsl_matrix *m, size_t i, size_t j) { sym_assert(i < m->size1 && j < m->size2, "matrix index out of range"); return m->data + i * m->tda + j; }
WK void gsl_matrix_set_all(gsl_matrix *m, double x) { for (size_t i = 0; i < m->size1 * m->size2; i++) m->data[i] = x; }
WK void gsl_matrix_set_zero(gsl_matrix *m) { gsl_matrix_set_all(m, 0); }
/* guarded hooks of the library; harnesses that use them define them */
__attribute__((weak)) void rgraph_verif_sa_sweep(void *part, double E) {}

/* fn(arg) with every variable at its initial value, and again afterwards */
extern void __m_reset_globals(void);
void sym_in_fresh(void (*fn)(void *), void *arg, unsigned size) { fn(arg); __m_reset_globals(); }
