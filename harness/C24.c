/* C24: link scores are averages over the sampled partitions of posterior link probabilities. */
#include "hxp.h"
#include "missing.h"
#include "multiblock.h"
#undef RGRAPH_MULTIBLOCK_H
#include "only_deg.h"
#include "sparse_missing.h"
#ifndef NN
#define NN 3
#endif
#ifndef WW
#define WW 4
#endif
#ifndef SPAN
#define SPAN 4
#endif
#define TOL 1e-6 /* the counts are divided in single precision */
enum { LS, MB, ORMB, OD, GLS, GMB, GOR, GOD, GSP };
double **__wrap_InitializeFastLogChoose(int size) { int i, j, k = size < 64 ? size : 64; double **t = calloc(size, sizeof(double *)); for (i = 0; i < k; i++) { t[i] = malloc(k * sizeof(double)); for (j = 0; j < k; j++) t[i][j] = -1; } return t; }
static Ref r; static struct node_gra *net; static gsl_rng *gen; static int p1[NN], p2[NN];
static double harm(int k) { double h = 0; while (k > 0) h += 1.0 / k--; return h; }
static double density(void) { int i, j, c = 0; for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) c += r.a[i][j]; return 2.0 * c / (NN * (NN - 1)); }
static double post(int kind, int *g, int x, int y) {
  int i, j, n = 0, l = 0; for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if ((g[i] == g[x] && g[j] == g[y]) || (g[i] == g[y] && g[j] == g[x])) { n++; l += r.a[i][j]; }
  switch (kind) {
    case MB: case GMB: return (l + 1) * (harm(n + 2) - harm(l + 1)) / ((n + 2) * (harm(n + 1) - harm(l)));
    case ORMB: case GOR: return 1 - (n - l + 1) * (harm(n + 2) - harm(n - l + 1)) / ((n + 2) * (harm(n + 1) - harm(n - l)));
    case GSP: { double d = density(), b = 0.5, a = d * b / (1 - d); return (l + a) / (n + a + b); }
    default: return (l + 1.0) / (n + 2.0); } }
static double **score(int kind, double linC, int it) {
  switch (kind) { case LS: return LinkScore(net, linC, it, gen, 'q'); case MB: return LinkScoreMB(net, linC, it, gen, 'q'); case ORMB: return ORLinkScoreMB(net, linC, it, gen, 'q'); case OD: return LinkScoreMB_OD(net, linC, it, gen, 'q');
    case GLS: return GibbsLinkScore(net, linC, it, gen, 'q'); case GMB: return GibbsLinkScoreMB(net, linC, it, gen, 'q'); case GOR: return ORGibbsLinkScoreMB(net, linC, it, gen, 'q'); case GOD: return GibbsLinkScoreMB_OD(net, linC, it, gen, 'q'); default: return SparseGibbsLinkScore(net, it, gen, 'q'); } }
static void sampled(int *g) { int i; for (i = 0; i < NN; i++) { g[i] = sym_conc(hx_nd[i]->inGroup); sym_assert(g[i] >= 0 && g[i] < NN, "the nodes of the network are left in the last partition sampled"); } }
static void compare(double **s, int kind, int two) {
  int i, j; for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) if (i != j) {
    double e = two ? (post(kind, p1, i, j) + post(kind, p2, i, j)) / 2 : post(kind, p1, i, j);
    sym_assert(fabs(s[i][j] - e) < TOL, "the score is the average over the sampled partitions of the posterior probability of a link"); sym_assert(s[i][j] > 0 && s[i][j] < 1, "scores are strictly between 0 and 1"); sym_assert(s[i][j] == s[j][i], "scores are symmetric"); }
}
static void choose_net(int kind) {
  int i; hx_any_undirected(&r, NN, 0, 0); for (i = 0; i + 1 < NN; i++) if (hx_deg(&r, i) < hx_deg(&r, i + 1)) sym_stop();
  if (kind == GSP && (density() == 0 || density() == 1)) sym_stop(); }
static void run(int kind) {
  choose_net(kind); int b0 = sym_live_blocks(), n1, i, seed; double linC = 0, **s; net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937);
  seed = sym_pick(1, SEEDS, "stream"); if (kind < GSP && seed == 1) linC = 0.3;
  sym_draw_window(1 << 30, 0, seed); s = score(kind, linC, 1); n1 = sym_draw_count(); sampled(p1); compare(s, kind, 0); free_d_mat(s, NN);
  int at = kind <= OD ? sym_pick(0, SPAN - 1, "window") * WW : 0; sym_draw_window(n1 + at, n1 + at + WW, seed); s = score(kind, linC, 2); if (sym_draw_count() <= n1 + at) sym_stop(); sampled(p2); compare(s, kind, 1); free_d_mat(s, NN);
  for (i = 0; i < NN; i++) if (p1[i] != p2[i]) sym_reach("changed");
  hx_same(net, &r, hx_lab, 1); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
void h_ls(void) { run(LS); } void h_mb(void) { run(MB); } void h_or(void) { run(ORMB); } void h_od(void) { run(OD); }
void h_gls(void) { run(GLS); } void h_gmb(void) { run(GMB); } void h_gor(void) { run(GOR); } void h_god(void) { run(GOD); } void h_gsp(void) { run(GSP); }
