/* C25: the numeric helpers against their definitions. */
#include "hx.h"
#include <gsl/gsl_sf_gamma.h>
#ifndef NN
#define NN 4
#endif
#ifndef RR
#define RR 12
#endif
#ifndef CH
#define CH 30
#endif
void h_stats(void) {
  int n = sym_pick(1, NN, "n"), i; double d[NN], m = 0, v = 0, s; for (i = 0; i < n; i++) { d[i] = sym_real(-1000, 1000, "d"); m += d[i]; } m /= n;
  for (i = 0; i < n; i++) v += (d[i] - m) * (d[i] - m); v /= n;
  sym_assert_eq(mean(d, n), m, "mean"); if (n > 1) sym_reach("spread");
  s = stddev(d, n); sym_assert(s >= 0, "the standard deviation is not negative"); sym_assert_eq(s * s, v, "standard deviation");
  sym_reach("end");
}
void h_extrema(void) {
  int n = sym_pick(1, NN, "n"), i, f = 0, g = 0; double d[NN], a, b; for (i = 0; i < n; i++) d[i] = sym_real(-1000, 1000, "d");
  a = max(d, n); b = min(d, n);
  for (i = 0; i < n; i++) { sym_assert(d[i] <= a, "no value exceeds the maximum"); sym_assert(d[i] >= b, "no value is below the minimum"); if (d[i] == a) f = 1; if (d[i] == b) g = 1; }
  sym_assert(f, "the maximum is one of the values"); sym_assert(g, "the minimum is one of the values"); sym_reach("end");
}
void h_fact(void) { int a = sym_int(0, 20, "a"), i; long r = 1; a = sym_conc(a); for (i = 2; i <= a; i++) r *= i; sym_assert(fact(a) == r, "factorial"); sym_reach("end"); }
void h_choose(void) {
  static long t[CH + 1][CH + 1]; int i, j, n = sym_int(0, CH, "n"), k = sym_int(0, CH + 2, "k"); n = sym_conc(n); k = sym_conc(k);
  for (i = 0; i <= CH; i++) { t[i][0] = 1; for (j = 1; j <= i; j++) t[i][j] = t[i - 1][j - 1] + (j < i ? t[i - 1][j] : 0); }
  double c = (double)Choose(n, k); sym_assert_eq(c, k > n ? 0. : (double)t[n][k], "binomial coefficient");
  if (k <= n) { double lc = LogChoose(n, k); sym_assert(fabs(lc - log((double)t[n][k])) < 1e-9, "logarithm of the binomial coefficient"); sym_reach("inrange"); }
  sym_reach("end");
}
static void one(double x, double y, const char *m) { sym_assert(x == y || fabs(x - y) <= 1e-9 * (1 + fabs(y)), m); }
void h_tables(void) {
  int b0 = sym_live_blocks(), ls = sym_pick(0, 7, "size"), r = sym_pick(0, RR, "r"), l = sym_pick(0, RR, "l"), k; if (l > r) sym_stop();
  double x = 0.5 * sym_pick(1, 4, "x");
  double **lc = InitializeFastLogChoose(ls), *lg = InitializeFastLog(ls), *lf = InitializeFastLogFact(ls), *la = InitializeFastLogGamma(ls, x);
  double logc = 0, logf = 0; for (k = 1; k <= r; k++) { logf += log((double)k); } logc = logf; for (k = 1; k <= l; k++) logc -= log((double)k); for (k = 1; k <= r - l; k++) logc -= log((double)k);
  /* log Gamma(r + x) = log Gamma(x) + sum log(x + k) */
  double lgam = x == 0.5 ? 0.5 * log(M_PI) : x == 1.5 ? 0.5 * log(M_PI) - log(2.) : 0; for (k = 0; k < r; k++) lgam += log(x + k);
  for (k = 0; k < 2; k++) {
    one(FastLogChoose(r, l, lc, ls), logc, "tabulated logarithm of a binomial coefficient");
    if (r > 0) one(FastLog(r, lg, ls), log((double)r), "tabulated logarithm"); else sym_assert(FastLog(0, lg, ls) < -1e300, "logarithm of zero");
    one(FastLogFact(r, lf, ls), logf, "tabulated logarithm of a factorial");
    one(FastLogGamma(r, la, ls, x), lgam, "tabulated logarithm of the gamma function");
  }
  if (r < ls) sym_reach("table"); else sym_reach("computed");
  FreeFastLogChoose(lc, ls); FreeFastLog(lg); FreeFastLogFact(lf); FreeFastLogGamma(la); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
/* the same table keeps serving right values after any sequence of other look-ups */
void h_history(void) {
  int ls = sym_pick(1, 4, "size"), k; double **lc = InitializeFastLogChoose(ls);
  for (k = 0; k < 3; k++) { int r = sym_pick(0, 5, "r"), l = sym_pick(0, 5, "l"), i; if (l > r) sym_stop(); double e = 0; for (i = 1; i <= l; i++) e += log((double)(r - l + i)) - log((double)i); one(FastLogChoose(r, l, lc, ls), e, "tabulated logarithm of a binomial coefficient after other look-ups"); }
  FreeFastLogChoose(lc, ls); sym_reach("end");
}
void h_harmonic(void) {
  int b0 = sym_live_blocks(), n = sym_pick(1, 24, "size"), i; double *h = InitializeHarmonicList(n), e = 0; sym_assert_eq(h[0], 0, "harmonic number"); for (i = 1; i < n; i++) { e += 1. / i; sym_assert_eq(h[i], e, "harmonic number"); }
  FreeHarmonicList(h); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_vectors(void) {
  int b0 = sym_live_blocks(), r = sym_pick(0, 3, "rows"), c = sym_pick(0, 3, "columns"), i, j; int v[3][3], k = 0, a, b, w;
  int **m = allocate_i_mat(r, c), *iv = allocate_i_vec(c); double **d = allocate_d_mat(r, c), *dv = allocate_d_vec(c);
  for (i = 0; i < r; i++) for (j = 0; j < c; j++) { v[i][j] = sym_pick(-1, 1, "entry"); m[i][j] = v[i][j]; sym_assert(d[i][j] == 0, "a new matrix of reals is zero"); d[i][j] = 1; }
  for (j = 0; j < c; j++) { iv[j] = j; dv[j] = j; }
  int b1 = sym_live_blocks(); FILE *f = fopen("mat", "w"); fprintf_i_mat(f, m, r, c); fclose(f);
  f = fopen("mat", "r"); while (fscanf(f, "%d %d %d", &a, &b, &w) == 3) { sym_assert(c > 0 && a == k / c + 1 && b == k % c + 1 && a <= r, "matrix entries are written row by row"); sym_assert(w == v[a - 1][b - 1], "matrix entries are written as they are"); k++; }
  sym_assert(k == r * c, "every matrix entry is written"); fclose(f); b0 += sym_live_blocks() - b1;
  free_i_mat(m, r); free_d_mat(d, r); free_i_vec(iv); free_d_vec(dv); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
/* number of draws above p before the first that is not */
void h_geometric(void) {
  gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); double p = sym_real(0, 1, "p"); int i; sym_draw_limit(5); sym_draw_reset();
  int v = geometric_dist_val(p, g); sym_assert(v >= 0 && sym_draws_made() == v + 1, "one draw per failure and one for the success");
  for (i = 0; i < v; i++) sym_assert(sym_draw_value(i) > p, "a failure is counted only when the draw exceeds the probability");
  sym_assert(sym_draw_value(v) <= p, "the first success ends the count"); if (v > 2) sym_reach("long"); sym_reach("end"); gsl_rng_free(g);
}
#ifndef LL
#define LL 6
#endif
void h_lines(void) {
  FILE *f = fopen("lf", "w"); int i, n = sym_pick(0, LL, "length"), c = 0, last = '\n'; for (i = 0; i < n; i++) { int k = sym_pick(0, 2, "char"); last = k == 0 ? '\n' : k == 1 ? 'x' : ' '; if (last == '\n') c++; fputc(last, f); } if (last != '\n') c++; fclose(f);
  sym_assert(CountLinesInFile("lf") == c, "number of lines of a file"); sym_reach("end");
}
void h_longlines(void) {
  static const int len[] = {0, 1, 997, 998, 999, 1000, 1001, 1998, 2001}; FILE *f = fopen("lf", "w"); int i, k, c = 0, n = sym_pick(1, 2, "lines");
  for (k = 0; k < n; k++) { int q = len[sym_pick(0, 8, "length")]; for (i = 0; i < q; i++) fputc('x', f); if (k + 1 < n || sym_bool("newline")) { fputc('\n', f); c++; } else if (q) c++; } fclose(f);
  sym_assert(CountLinesInFile("lf") == c, "number of lines of a file with long lines"); sym_reach("end");
}
