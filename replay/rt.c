/* Native replay: the harness and the real code run with the recorded values. Exit codes:
   0 ran to its end, 71 assertion failed, 72 assumption not met / diverged, 73 abandoned (sym_stop). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_vector.h>
#include <gsl/gsl_eigen.h>
#include "sym.h"
static FILE *vals; static int done_; static int out_fd;
static void say(const char *s) { if (write(out_fd, s, strlen(s)) < 0) {} if (write(out_fd, "\n", 1) < 0) {} }
static double next(int kind) {
  int k; char v[512];
  if (!vals || fscanf(vals, "%d %500s", &k, v) != 2) { say("REPLAY-DIVERGED values exhausted"); done_ = 1; _exit(72); }
  if (k != kind && !(k == 3 || kind == 3)) { say("REPLAY-DIVERGED kind mismatch"); done_ = 1; _exit(72); }
  return strtod(v, 0);
}
int sym_int(int lo, int hi, const char *n) { int v; if (lo > hi) { say("REPLAY-STOP"); _exit(73); } v = (int)next(0); if (v < lo || v > hi) { say("REPLAY-DIVERGED range"); _exit(72); } return v; }
double sym_real(double lo, double hi, const char *n) { return next(1); }
double sym_draw(void) { double v = next(2); if (v >= 1) v = 1 - 1e-10; if (v < 0) v = 0; return v; }
void sym_assume(int c) { if (!c) { say("REPLAY-ASSUME-FALSE"); done_ = 1; _exit(72); } }
static void fail(const char *m) { char b[600]; snprintf(b, 600, "REPLAY-ASSERT %s", m); say(b); fflush(0); done_ = 1; _exit(71); }
void sym_assert(int c, const char *m) { if (!c) fail(m); }
static double tol(double a, double b) { return 1e-9 * (1 + fabs(a) + fabs(b)); }
void sym_assert_eq(double a, double b, const char *m) { if (isnan(a) && isnan(b)) return; if (a == b) return; if (!(fabs(a - b) <= tol(a, b))) { char t[600]; snprintf(t, 600, "%s (%.12g vs %.12g)", m, a, b); fail(t); } }
void sym_assert_le(double a, double b, const char *m) { if (!(a <= b + tol(a, b))) { char t[600]; snprintf(t, 600, "%s (%.12g <= %.12g)", m, a, b); fail(t); } }
void sym_reach(const char *t) { char b[200]; snprintf(b, 200, "REPLAY-REACH %s", t); say(b); }
int sym_conc(int x) { return x; }
void sym_note_i(const char *t, int x) { char b[200]; snprintf(b, 200, "NOTE %s=%d", t, x); say(b); }
void sym_note_d(const char *t, double x) { char b[200]; snprintf(b, 200, "NOTE %s=%.12g", t, x); say(b); }
void sym_note_s(const char *t, const char *x) { char b[400]; snprintf(b, 400, "NOTE %s=%s", t, x); say(b); }
int sym_symbolic(void) { return 0; }
void sym_draw_limit(int n) {} void sym_step_limit(long n) {}
void sym_stop(void) { say("REPLAY-STOP"); done_ = 1; _exit(73); }
static int exitOk; void sym_allow_exit(void) { exitOk = 1; }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
int sym_alloc_ok(const void *p) {
#ifdef ASAN
  return p && !__asan_address_is_poisoned(p);
#else
  return p != 0;
#endif
}
int sym_live_blocks(void) { return 0; }
void sym_in_fresh(void (*fn)(void *), void *arg, unsigned size) { /* a child process: the parent goes on as if nothing had been called */
  int st; fflush(0); void *sh = mmap(0, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pid_t p = fork(); if (p == 0) { fn(arg); memcpy(sh, arg, size); fflush(0); _exit(0); }
  waitpid(p, &st, 0); if (!WIFEXITED(st)) { done_ = 1; raise(WTERMSIG(st)); _exit(99); } if (WEXITSTATUS(st)) { done_ = 1; _exit(WEXITSTATUS(st)); } memcpy(arg, sh, size); munmap(sh, size); }
#include "window.h"
__attribute__((weak)) void rgraph_verif_sa_sweep(void *part, double E) {}
double __wrap_gsl_rng_uniform(const gsl_rng *r) { return win_uniform(); }
double __wrap_gsl_rng_uniform_pos(const gsl_rng *r) { double u; return win_draw(&u) ? u + 0x1p-20 : sym_draw(); }
unsigned long __wrap_gsl_rng_uniform_int(const gsl_rng *r, unsigned long n) { double u; win_int(); if (n > 0 && win_draw(&u)) return (unsigned long)(u * n); if (n < 1) fail("random integer requested from an empty range"); return (unsigned long)sym_int(0, (int)n - 1, "rngint"); }
double model_eigen_in[64], model_eigen_out[8]; int model_eigen_n = 0, model_sorted = 0; double model_eigen_pos = 0;
int __wrap_gsl_eigen_symm(gsl_matrix *A, gsl_vector *ev, gsl_eigen_symm_workspace *w) {
  sym_assert(A->size1 == A->size2 && ev->size == A->size1 && w->size == A->size1, "eigenproblem of inconsistent sizes");
  model_eigen_n = (int)A->size1; model_sorted = 0;
  for (size_t i = 0; i < A->size1; i++) for (size_t j = 0; j < A->size2; j++) if (i * A->size2 + j < 64) model_eigen_in[i * A->size2 + j] = gsl_matrix_get(A, i, j);
  for (size_t i = 0; i < ev->size; i++) { double v = sym_real(-1000, 1000, "eig"); gsl_vector_set(ev, i, v); if (i < 8) model_eigen_out[i] = v; }
  if (model_eigen_pos > 0) { int ok = 0; for (size_t i = 0; i < ev->size; i++) if (gsl_vector_get(ev, i) >= model_eigen_pos) ok = 1; sym_assume(ok); }
  return 0;
}
void __wrap_gsl_sort_vector(gsl_vector *v) { void __real_gsl_sort_vector(gsl_vector *); __real_gsl_sort_vector(v); model_sorted = 1; }
#define MR(f) __wrap_##f
#include "multiroot.h"
static void gslErr(const char *reason, const char *file, int line, int no) { char b[300]; snprintf(b, 300, "REPLAY-GSL-ERROR %s", reason); say(b); }
static void atEnd(void) { if (!done_) say("REPLAY-EXIT"); }
void HX_ENTRY(void);
int main(int argc, char **argv) {
  out_fd = dup(1); { FILE *d = freopen("/dev/null", "w", stdout); (void)d; }
  vals = fopen(argv[1], "r"); gsl_set_error_handler(gslErr); atexit(atEnd);
  if (argc > 2 && chdir(argv[2])) return 9;
  HX_ENTRY(); done_ = 1; say("REPLAY-END");
  fflush(0); _exit(0);
}
