/* The root finder: evaluates the equations it is given where it is told to, then reports the root model_root (a decay of
   half a step unless a harness says otherwise) after model_root_iters iterations, or failure. */
#include <gsl/gsl_multiroots.h>
double model_root[2] = {0, 0.5}, model_root_start[2], model_root_f[2]; int model_root_iters = 1, model_root_fail = 0, model_root_calls = 0; static int root_it;
static void root_eval(gsl_multiroot_fsolver *s) { int i; s->function->f(s->x, s->function->params, s->f); for (i = 0; i < 2; i++) model_root_f[i] = gsl_vector_get(s->f, i); }
gsl_multiroot_fsolver *MR(gsl_multiroot_fsolver_alloc)(const gsl_multiroot_fsolver_type *T, size_t n) { gsl_multiroot_fsolver *s = malloc(sizeof *s); s->type = T; s->function = 0; s->state = 0; s->x = gsl_vector_calloc(n); s->f = gsl_vector_calloc(n); s->dx = gsl_vector_calloc(n); sym_assert(n == 2, "two equations"); return s; }
int MR(gsl_multiroot_fsolver_set)(gsl_multiroot_fsolver *s, gsl_multiroot_function *f, const gsl_vector *x) { int i; s->function = f; root_it = 0; model_root_calls++; for (i = 0; i < 2; i++) { model_root_start[i] = gsl_vector_get(x, i); gsl_vector_set(s->x, i, model_root_start[i]); } return 0; }
int MR(gsl_multiroot_fsolver_iterate)(gsl_multiroot_fsolver *s) { int i; root_it++; if (model_root_fail) return 27; for (i = 0; i < 2; i++) gsl_vector_set(s->x, i, model_root[i]); root_eval(s); return 0; }
int MR(gsl_multiroot_test_residual)(const gsl_vector *f, double eps) { return root_it >= model_root_iters ? 0 : -2; }
void MR(gsl_multiroot_fsolver_free)(gsl_multiroot_fsolver *s) { gsl_vector_free(s->x); gsl_vector_free(s->f); gsl_vector_free(s->dx); free(s); }
