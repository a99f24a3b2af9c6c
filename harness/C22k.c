/* C22: the K-state block-model sampler keeps its running energy and its tables exact and moves nodes by the Metropolis rule. */
#include "hxp.h"
#include "missing.h"
#include <gsl/gsl_sf_gamma.h>
#ifndef NN
#define NN 3
#endif
#ifndef KK
#define KK 2
#endif
#ifndef SPAN
#define SPAN 3
#endif
static Ref r; static int st[HXM][HXM]; static struct node_gra *net, *nlist[HXM]; static struct group *part, *glist[HXM]; static int g[HXM], ***N2G, ***G2G, ng; static double H; static gsl_rng *gen;
static int pairs(int *gg, int a, int b, int k) { int i, j, c = 0; for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if (st[i][j] && (k < 0 || st[i][j] == k + 1) && ((gg[i] == a && gg[j] == b) || (gg[i] == b && gg[j] == a))) c++; return c; }
static int n2g(int v, int a, int k) { int j, c = 0; for (j = 0; j < NN; j++) if (j != v && st[v][j] == k + 1 && g[j] == a) c++; return c; }
static int groups(int *gg) { int i, s[HXM] = {0}, c = 0; for (i = 0; i < NN; i++) s[gg[i]] = 1; for (i = 0; i < NN; i++) c += s[i]; return c; }
static double ref_H(int *gg) {
  int i, j, k; double h = 0; for (i = 0; i < NN; i++) for (j = i; j < NN; j++) { h += gsl_sf_lnfact(pairs(gg, i, j, -1) + KK - 1); for (k = 0; k < KK; k++) h -= gsl_sf_lnfact(pairs(gg, i, j, k)); }
  return h - gsl_sf_lnfact(NN - groups(gg)); }
static void consistent(void) {
  int i, j, k, moved = 0; for (i = 0; i < NN; i++) { sym_assert(nlist[i]->inGroup >= 0 && nlist[i]->inGroup < NN, "nodes are in groups of the partition"); moved |= g[i] != nlist[i]->inGroup; g[i] = nlist[i]->inGroup; }
  for (i = 0; i < NN; i++) { sym_assert(glist[i]->label == i, "groups keep their labels"); hx_group_nodes(glist[i], g, NN, i, nlist, hx_lab, 1);
    for (j = 0; j < NN; j++) for (k = 0; k < KK; k++) { sym_assert(G2G[k][i][j] == pairs(g, i, j, k), "the table of links between groups is exact"); sym_assert(N2G[k][i][j] == n2g(i, j, k), "the table of links between nodes and groups is exact"); } }
  sym_assert(ng == groups(g), "the number of groups that are not empty is exact");
  sym_assert_eq(H, ref_H(g), "the running energy is the energy of the partition"); if (moved) sym_reach("moved");
}
static int metropolis(int *gg, int move, int k) {
  int i, node, t, n = sym_draws_made(); if (move == NN) { for (i = 0; i < NN; i++) if (gg[i] != nlist[i]->inGroup) return 0; return k == n; }
  if (k >= n) return 0; node = sym_conc((int)floor(sym_draw_value(k++) * NN)); do { if (k >= n) return 0; t = sym_conc((int)floor(sym_draw_value(k++) * NN)); } while (t == gg[node]);
  int h[HXM]; for (i = 0; i < NN; i++) h[i] = gg[i]; h[node] = t; double d = ref_H(h) - ref_H(gg);
  if (d <= 1e-9 && metropolis(h, move + 1, k)) return 1;
  if (d >= -1e-9 && k < n) { double u = sym_draw_value(k), e = exp(-d); if (u < e + 1e-9 && metropolis(h, move + 1, k + 1)) return 1; if (u > e - 1e-9 && metropolis(gg, move + 1, k + 1)) return 1; }
  return 0;
}
void h_kstate(void) {
  int i, j, k, c, b0 = sym_live_blocks(); hx_clear(&r, NN); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) { st[i][j] = st[j][i] = sym_pick(0, KK, "state"); if (st[i][j]) { r.a[i][j] = r.a[j][i] = 1; r.w[i][j] = r.w[j][i] = st[i][j] - 1; } }
  for (i = 0; i < NN; i++) g[i] = sym_pick(0, NN - 1, "start"); int small = g[0] & 1, nf = small ? 2 : NN * NN + KK; double *LL = InitializeFastLog(nf), *LF = InitializeFastLogFact(nf); gen = gsl_rng_alloc(gsl_rng_mt19937);
  net = hx_build(&r, 0); part = CreateHeaderGroup(); for (i = 0; i < NN; i++) { nlist[i] = hx_nd[i]; glist[i] = CreateGroup(part, i); } ResetNetGroup(net); for (i = 0; i < NN; i++) AddNodeToGroup(glist[g[i]], nlist[i]);
  N2G = calloc(KK, sizeof *N2G); G2G = calloc(KK, sizeof *G2G); for (k = 0; k < KK; k++) { N2G[k] = allocate_i_mat(NN, NN); G2G[k] = allocate_i_mat(NN, NN); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) { N2G[k][i][j] = n2g(i, j, k); G2G[k][i][j] = pairs(g, i, j, k); } }
  ng = groups(g); H = ref_H(g); sym_assert_eq(LSHKState(KK, part), H, "energy of a partition"); int lo = sym_pick(0, SPAN - 1, "lo") * 3; sym_draw_window(lo, lo + 3, 1);
  for (c = 0; c < 2; c++) { int old[HXM]; for (i = 0; i < NN; i++) old[i] = g[i]; sym_draw_reset(); LSMCStepKState(KK, 1, &H, nlist, glist, part, NN, &ng, &N2G, &G2G, LL, nf, LF, nf, gen); sym_assert(metropolis(old, 0, 0), "moves are accepted by the Metropolis rule"); consistent(); }
  sym_assert_eq(LSHKState(KK, part), H, "energy of the final partition"); if (sym_draw_count() > lo) sym_reach("window");
  RemovePartition(part); RemoveGraph(net); for (k = 0; k < KK; k++) { free_i_mat(N2G[k], NN); free_i_mat(G2G[k], NN); } free(N2G); free(G2G); FreeFastLog(LL); FreeFastLogFact(LF); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
