/* C23: recommender samplers (2-state, K-state, Gibbs) keep their running energy and tables exact and move nodes with the right probabilities. */
#include "hxp.h"
#include "bipartite.h"
#include "recommend.h"
#include <gsl/gsl_sf_gamma.h>
#ifndef N1
#define N1 2
#define N2 2
#endif
#ifndef KK
#define KK 2
#endif
#ifndef SPAN
#define SPAN 4
#endif
#ifndef CALLS
#define CALLS 2
#endif
static int st[HXM][HXM]; static struct binet *bn; static struct node_gra *nl[2][HXM]; static struct group *part[2], *gl[2][HXM]; static const int nn[2] = {N1, N2};
static int g[2][HXM], **N1G2[KK], **N2G1[KK], **G1G2[KK], **G2G1[KK], ng[2], NC, NF; static double H, *LL, *LF, **LC; static gsl_rng *gen;
static const char *lab[2][6] = {{"u0", "u1", "u2", "u3"}, {"i0", "i1", "i2", "i3"}};
static int pairs(int gg[2][HXM], int a, int b, int k) { int i, j, c = 0; for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) if (st[i][j] && (k < 0 || st[i][j] == k + 1) && gg[0][i] == a && gg[1][j] == b) c++; return c; }
static int n1g2(int i, int b, int k) { int j, c = 0; for (j = 0; j < N2; j++) if (st[i][j] == k + 1 && g[1][j] == b) c++; return c; }
static int n2g1(int j, int a, int k) { int i, c = 0; for (i = 0; i < N1; i++) if (st[i][j] == k + 1 && g[0][i] == a) c++; return c; }
static int groups(int *gg, int n) { int i, s[HXM] = {0}, c = 0; for (i = 0; i < n; i++) s[gg[i]] = 1; for (i = 0; i < n; i++) c += s[i]; return c; }
static double ref_H(int two, int gg[2][HXM]) {
  int i, j, k; double h = 0;
  for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) { int n = pairs(gg, i, j, -1);
    if (two) h += log(n + 1.0) + gsl_sf_lnfact(n) - gsl_sf_lnfact(pairs(gg, i, j, 1)) - gsl_sf_lnfact(n - pairs(gg, i, j, 1));
    else { h += gsl_sf_lnfact(n + KK - 1); for (k = 0; k < KK; k++) h -= gsl_sf_lnfact(pairs(gg, i, j, k)); } }
  return h - gsl_sf_lnfact(N1 - groups(gg[0], N1)) - gsl_sf_lnfact(N2 - groups(gg[1], N2));
}
static double lib_H(int two) { return two ? H2State(part[0], part[1]) : HKState(KK, part[0], part[1]); }
static void consistent(int two) {
  int s, i, j, k, moved = 0; for (s = 0; s < 2; s++) for (i = 0; i < nn[s]; i++) { int x = nl[s][i]->inGroup; sym_assert(x >= 0 && x < nn[s], "nodes are in groups of the partition of their side"); moved |= g[s][i] != x; g[s][i] = x; }
  for (s = 0; s < 2; s++) { for (i = 0; i < nn[s]; i++) { sym_assert(gl[s][i]->label == i, "groups keep their labels"); hx_group_nodes(gl[s][i], g[s], nn[s], i, nl[s], lab[s], 1); } sym_assert(ng[s] == groups(g[s], nn[s]), "the number of groups that are not empty is exact"); }
  for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) for (k = 0; k < KK; k++) {
    sym_assert(G1G2[k][i][j] == pairs(g, i, j, k) && G2G1[k][j][i] == pairs(g, i, j, k), "the tables of links between groups are exact");
    sym_assert(N1G2[k][i][j] == n1g2(i, j, k) && N2G1[k][j][i] == n2g1(j, i, k), "the tables of links between nodes and groups are exact"); }
  sym_assert_eq(H, ref_H(two, g), "the running energy is the energy of the partitions"); if (moved) sym_reach("moved");
}
static int metropolis(int two, int gg[2][HXM], int move, int k) {
  int i, s, node, t, n = sym_draws_made(); if (move == N1 + N2) { for (s = 0; s < 2; s++) for (i = 0; i < nn[s]; i++) if (gg[s][i] != nl[s][i]->inGroup) return 0; return k == n; }
  if (k >= n) return 0; s = sym_draw_value(k++) < (double)(N1 * N1 - 1) / (double)(N1 * N1 + N2 * N2 - 2) ? 0 : 1;
  if (k >= n) return 0; node = sym_conc((int)floor(sym_draw_value(k++) * nn[s])); do { if (k >= n) return 0; t = sym_conc((int)floor(sym_draw_value(k++) * nn[s])); } while (t == gg[s][node]);
  int h[2][HXM]; memcpy(h, gg, sizeof h); h[s][node] = t; double d = ref_H(two, h) - ref_H(two, gg);
  if (d <= 1e-9 && metropolis(two, h, move + 1, k)) return 1;
  if (d >= -1e-9 && k < n) { double u = sym_draw_value(k), e = exp(-d); if (u < e + 1e-9 && metropolis(two, h, move + 1, k + 1)) return 1; if (u > e - 1e-9 && metropolis(two, gg, move + 1, k + 1)) return 1; }
  return 0;
}
static void choose(int st0[2][HXM]) {
  int i, j, s; memset(st, 0, sizeof st);
  for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) st[i][j] = sym_pick(0, KK, "state");
#ifdef SORTED /* one order of the rows and of the first row's entries is enough when the start is arbitrary */
  for (i = 0; i + 1 < N1; i++) for (j = 0; j < N2 && st[i][j] <= st[i + 1][j]; j++) if (st[i][j] < st[i + 1][j]) sym_stop();
  for (j = 0; j + 1 < N2; j++) if (st[0][j] < st[0][j + 1]) sym_stop(); /* nor another order of the columns */
  for (s = 0; s < 2; s++) { hx_any_part(st0[s], nn[s], nn[s]); for (i = 0; i < nn[s]; i++) st0[s][i] = (st0[s][i] + 1) % nn[s]; }
#else
  for (s = 0; s < 2; s++) for (i = 0; i < nn[s]; i++) st0[s][i] = sym_pick(0, nn[s] - 1, "start");
#endif
  int n2 = N1 * N2 + KK + 2; NF = NC = (st0[0][0] + st0[1][N2 - 1]) & 1 ? 2 : n2; LL = InitializeFastLog(NF); LF = InitializeFastLogFact(NF); LC = InitializeFastLogChoose(NC); gen = gsl_rng_alloc(gsl_rng_mt19937);
}
static void setup(int st0[2][HXM]) {
  int i, j, k, s; struct node_gra *l; bn = CreateBipart(); bn->net1 = CreateHeaderGraph(); bn->net2 = CreateHeaderGraph();
  for (s = 0; s < 2; s++) { l = s ? bn->net2 : bn->net1; for (i = 0; i < nn[s]; i++) { char b[8]; strcpy(b, lab[s][i]); l = nl[s][i] = CreateNodeGraph(l, b); } part[s] = CreateHeaderGroup(); for (i = 0; i < nn[s]; i++) gl[s][i] = CreateGroup(part[s], i); }
  for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) if (st[i][j]) { AddAdjacency(nl[0][i], nl[1][j], 1, 0, st[i][j] - 1, 0); AddAdjacency(nl[1][j], nl[0][i], 1, 0, st[i][j] - 1, 0); }
  ResetNetGroup(bn->net1); ResetNetGroup(bn->net2); for (s = 0; s < 2; s++) for (i = 0; i < nn[s]; i++) { g[s][i] = st0[s][i]; AddNodeToGroup(gl[s][g[s][i]], nl[s][i]); }
  for (k = 0; k < KK; k++) { N1G2[k] = allocate_i_mat(N1, N2); G1G2[k] = allocate_i_mat(N1, N2); N2G1[k] = allocate_i_mat(N2, N1); G2G1[k] = allocate_i_mat(N2, N1);
    for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) { G1G2[k][i][j] = G2G1[k][j][i] = pairs(g, i, j, k); N1G2[k][i][j] = n1g2(i, j, k); N2G1[k][j][i] = n2g1(j, i, k); } }
  for (s = 0; s < 2; s++) ng[s] = groups(g[s], nn[s]);
}
static void teardown(void) { int k; for (k = 0; k < KK; k++) { free_i_mat(N1G2[k], N1); free_i_mat(G1G2[k], N1); free_i_mat(N2G1[k], N2); free_i_mat(G2G1[k], N2); } RemovePartition(part[0]); RemovePartition(part[1]); RemoveBipart(bn); }
static void done(int b0) { FreeFastLog(LL); FreeFastLogFact(LF); FreeFastLogChoose(LC, NC); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
static void run_mc(int two) {
  int s0[2][HXM], b0 = sym_live_blocks(), c; choose(s0); setup(s0); int lo = sym_pick(0, SPAN - 1, "lo") * 4; sym_draw_window(lo, lo + 4, 1);
  H = ref_H(two, g); sym_assert_eq(lib_H(two), H, "energy of a pair of partitions");
  for (c = 0; c < CALLS; c++) { int old[2][HXM]; memcpy(old, g, sizeof old); sym_draw_reset();
    if (two) MCStep2State(1, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], N1, N2, &ng[0], &ng[1], N1G2[0], N2G1[0], N1G2[1], N2G1[1], G1G2[0], G2G1[0], G1G2[1], G2G1[1], LL, NF, LC, NC, LF, NF, gen);
    else MCStepKState(KK, 1, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], N1, N2, &ng[0], &ng[1], N1G2, N2G1, G1G2, G2G1, LL, NF, LF, NF, gen);
    if (N1 > 1 || N2 > 1) sym_assert(metropolis(two, old, 0, 0), "moves are accepted by the Metropolis rule"); consistent(two); }
  sym_assert_eq(lib_H(two), H, "energy of the final partitions"); if (sym_draw_count() > lo) sym_reach("window"); teardown(); done(b0);
}
static void gibbs(void) { GibbsStepKState(KK, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], N1, N2, &ng[0], &ng[1], N1G2, N2G1, G1G2, G2G1, LL, NF, LF, NF, gen); }
void h_two(void) { run_mc(1); }
void h_k(void) { run_mc(0); }
void h_gibbs(void) {
  int s0[2][HXM], b0 = sym_live_blocks(), c; choose(s0); setup(s0); int lo = sym_pick(0, N1 + N2 - 1, "lo"); sym_draw_window(lo, lo + 2, 1); H = ref_H(0, g); sym_assert_eq(lib_H(0), H, "energy of a pair of partitions");
  for (c = 0; c < CALLS; c++) { gibbs(); consistent(0); } sym_assert_eq(lib_H(0), H, "energy of the final partitions"); teardown(); done(b0);
}
/* the draws that lead a node to a given group span at most its probability */
void h_gibbsp(void) {
  int s0[2][HXM], b0 = sym_live_blocks(), c, i, s, k, v, t[2], full[HXM] = {0}; double u[2], p[HXM], Z = 0, pe = 0; choose(s0); k = sym_pick(0, N1 + N2 - 1, "node"); s = k < N1 ? 0 : 1; v = s ? k - N1 : k;
  for (c = 0; c < 2; c++) {
    setup(s0); sym_draw_reset(); sym_draw_window(k, k + 1, 1); H = ref_H(0, g); gibbs(); u[c] = sym_draw_value(k); t[c] = nl[s][v]->inGroup;
    if (!c) { int cur[2][HXM], a, j; memset(cur, 0, sizeof cur); for (a = 0; a < 2; a++) for (i = 0; i < nn[a]; i++) cur[a][i] = i + (a ? N1 : 0) < k ? nl[a][i]->inGroup : s0[a][i]; for (i = 0; i < nn[s]; i++) full[cur[s][i]] = 1;
      double h0 = ref_H(0, cur); for (j = 0; j < nn[s]; j++) { int h[2][HXM]; memcpy(h, cur, sizeof h); h[s][v] = j; p[j] = exp(-(ref_H(0, h) - h0)); Z += p[j]; } for (j = 0; j < nn[s]; j++) { p[j] /= Z; if (!full[j]) pe += p[j]; } }
    teardown(); }
  if (full[t[0]] ? t[1] == t[0] : !full[t[1]]) { sym_assert_le(u[0] - u[1], full[t[0]] ? p[t[0]] : pe, "a node goes to a group with the probability the energy gives it"); sym_reach("same"); }
  done(b0);
}
