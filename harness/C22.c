/* C22: block-model samplers keep their running energy, their link tables and their groups exact, and move nodes with the right probabilities. */
#include "hxp.h"
#include "missing.h"
#include "multiblock.h"
#undef RGRAPH_MULTIBLOCK_H
#include "only_deg.h"
#include "sparse_missing.h"
#include <gsl/gsl_sf_gamma.h>
#ifndef NN
#define NN 3
#endif
#ifndef SPAN
#define SPAN 4
#endif
#ifndef CALLS
#define CALLS 2
#endif
enum { LS, MB, ORMB, OD, SPARSE };
#define SA 0.3
#define SB 0.5
static Ref r; static struct node_gra *net, *nlist[HXM]; static struct group *part, *glist[HXM]; static int g[HXM], **G2G, *n2g, NC, NF; static double **LC, *LF, *HL, *LGA, *LGB, *LGAB, H, linC; static gsl_rng *gen;
static int pairs(int *gg, int a, int b) { int i, j, c = 0; for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if (r.a[i][j] && ((gg[i] == a && gg[j] == b) || (gg[i] == b && gg[j] == a))) c++; return c; }
static double harm(int k) { double h = 0; while (k > 0) h += 1.0 / k--; return h; }
static double term(int kind, int n, int l) {
  if (kind == SPARSE) return gsl_sf_lngamma(n + SA + SB) - gsl_sf_lngamma(l + SA) - gsl_sf_lngamma(n - l + SB);
  double t = log(n + 1.0) + gsl_sf_lnfact(n) - gsl_sf_lnfact(l) - gsl_sf_lnfact(n - l);
  if (kind == MB) t -= log(harm(n + 1) - harm(l)); if (kind == ORMB) t -= log(harm(n + 1) - harm(n - l)); return t;
}
static double ref_H(int kind, int *gg) {
  int i, j, s[HXM] = {0}, ng = 0; double h = 0; for (i = 0; i < NN; i++) s[gg[i]]++; for (i = 0; i < NN; i++) ng += s[i] > 0;
  for (i = 0; i < NN; i++) for (j = i; j < NN; j++) if (kind == SPARSE || (s[i] && s[j])) h += term(kind, i == j ? s[i] * (s[i] - 1) / 2 : s[i] * s[j], pairs(gg, i, j));
  h -= gsl_sf_lnfact(NN - ng); if (kind != SPARSE) h += linC * ng; if (kind == MB || kind == ORMB || kind == OD) h -= LogDegeneracy(ng); return h;
}
static double lib_H(int kind) { switch (kind) { case LS: return PartitionH(part, linC); case MB: return PartitionHMB(part, linC, HL); case ORMB: return ORPartitionHMB(part, linC, HL); case OD: return PartitionHMB_OD(part, linC, HL); default: return SparsePartitionH(part, SA, SB); } }
static void tables(int small) {
  int n2 = NN * NN + 2; NC = small ? 2 : n2; NF = small ? 2 : n2; LC = InitializeFastLogChoose(NC); LF = InitializeFastLogFact(NF); HL = InitializeHarmonicList(n2);
  LGA = InitializeFastLogGamma(NF, SA); LGB = InitializeFastLogGamma(NF, SB); LGAB = InitializeFastLogGamma(NF, SA + SB); gen = gsl_rng_alloc(gsl_rng_mt19937);
}
static void setup(int *start) {
  int i, j; net = hx_build(&r, 0); part = CreateHeaderGroup(); for (i = 0; i < NN; i++) { nlist[i] = hx_nd[i]; glist[i] = CreateGroup(part, i); g[i] = start[i]; }
  ResetNetGroup(net); for (i = 0; i < NN; i++) AddNodeToGroup(glist[g[i]], nlist[i]);
  G2G = allocate_i_mat(NN, NN); n2g = allocate_i_vec(NN); for (i = 0; i < NN; i++) { n2g[i] = -7; for (j = 0; j < NN; j++) G2G[i][j] = pairs(g, i, j); }
}
static void mc(int kind) { switch (kind) {
  case LS: LinkScoreMCStep(1, &H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, gen); break;
  case MB: LSMCStepMB(1, &H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break;
  case ORMB: ORLSMCStepMB(1, &H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break;
  case OD: LSMCStepMB_OD(1, &H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break; } }
static void gibbs(int kind) { switch (kind) {
  case LS: GibbsLinkScoreStep(&H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, gen); break;
  case MB: GibbsLinkScoreStepMB(&H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break;
  case ORMB: ORGibbsLinkScoreStepMB(&H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break;
  case OD: GibbsLinkScoreStepMB_OD(&H, linC, nlist, glist, part, NN, G2G, n2g, LC, NC, LF, NF, HL, gen); break;
  case SPARSE: SparseGibbsLinkScoreStep(&H, nlist, glist, part, NN, G2G, n2g, LGA, LGB, LGAB, NF, LF, NF, SA, SB, gen); break; } }
static void consistent(int kind) {
  int i, j, moved = 0; for (i = 0; i < NN; i++) { sym_assert(nlist[i]->inGroup >= 0 && nlist[i]->inGroup < NN, "nodes are in groups of the partition"); moved |= g[i] != nlist[i]->inGroup; g[i] = nlist[i]->inGroup; }
  for (i = 0; i < NN; i++) {
    sym_assert(glist[i]->label == i, "groups keep their labels"); hx_group_nodes(glist[i], g, NN, i, nlist, hx_lab, 1); sym_assert(glist[i]->inlinks == pairs(g, i, i), "links inside a group");
    for (j = 0; j < NN; j++) sym_assert(G2G[i][j] == pairs(g, i, j), "the table of links between groups is exact"); }
  sym_assert_eq(H, ref_H(kind, g), "the running energy is the energy of the partition"); if (moved) sym_reach("moved");
}
static void teardown(void) { RemovePartition(part); RemoveGraph(net); free_i_mat(G2G, NN); free_i_vec(n2g); }
static void choose_net(void) {
  int i, j; hx_any_undirected(&r, NN, 0, 0);
#ifdef SORTEDNETS /* one numbering per net is enough when the start is arbitrary: degrees in decreasing order */
  for (i = 0; i + 1 < NN; i++) if (hx_deg(&r, i) < hx_deg(&r, i + 1)) sym_stop();
#endif
}
static void choose(int *s) { int i; choose_net(); 
#ifdef CANON
  hx_any_part(s, NN, NN); for (i = 0; i < NN; i++) s[i] = (s[i] + 1) % NN; linC = 0.7;
#else
  for (i = 0; i < NN; i++) s[i] = sym_pick(0, NN - 1, "start"); linC = sym_bool("linC") ? 0.7 : 0;
#endif
  tables((s[0] + s[NN - 1]) & 1); }
static void done(int b0) { FreeFastLogChoose(LC, NC); FreeFastLogFact(LF); FreeHarmonicList(HL); FreeFastLogGamma(LGA); FreeFastLogGamma(LGB); FreeFastLogGamma(LGAB); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* could the moves drawn have led from gg to the partition found, under the Metropolis rule? */
static int metropolis(int kind, int *gg, int move, int k) {
  int i, node, t, n = sym_draws_made(); if (move == NN) { for (i = 0; i < NN; i++) if (gg[i] != nlist[i]->inGroup) return 0; return k == n; }
  if (k >= n) return 0; node = sym_conc((int)floor(sym_draw_value(k++) * NN)); do { if (k >= n) return 0; t = sym_conc((int)floor(sym_draw_value(k++) * NN)); } while (t == gg[node]);
  int h[HXM]; for (i = 0; i < NN; i++) h[i] = gg[i]; h[node] = t; double d = ref_H(kind, h) - ref_H(kind, gg);
  if (d <= 1e-9 && metropolis(kind, h, move + 1, k)) return 1;
  if (d >= -1e-9 && k < n) { double u = sym_draw_value(k), e = exp(-d); if (u < e + 1e-9 && metropolis(kind, h, move + 1, k + 1)) return 1; if (u > e - 1e-9 && metropolis(kind, gg, move + 1, k + 1)) return 1; }
  return 0;
}
static void run_mc(int kind) {
  int s[HXM], b0 = sym_live_blocks(), c; choose(s); setup(s);
  int lo = sym_pick(0, SPAN - 1, "lo") * 3; sym_draw_window(lo, lo + 3, sym_pick(1, 1, "seed"));
  H = ref_H(kind, g); sym_assert_eq(lib_H(kind), H, "energy of a partition");
  for (c = 0; c < CALLS; c++) { int old[HXM], i; for (i = 0; i < NN; i++) old[i] = g[i]; sym_draw_reset(); mc(kind); sym_assert(metropolis(kind, old, 0, 0), "moves are accepted by the Metropolis rule"); consistent(kind); }
  sym_assert_eq(lib_H(kind), H, "energy of the final partition"); if (sym_draw_count() > lo) sym_reach("window"); teardown(); done(b0);
}
static void run_gibbs(int kind) {
  int s[HXM], b0 = sym_live_blocks(), c; choose(s); setup(s);
#ifdef CANON
  c = sym_pick(0, NN - 1, "node"); sym_draw_window(c, c + 1, 1);
#else
  sym_draw_window(0, NN, 1);
#endif
 
  H = ref_H(kind, g); sym_assert_eq(lib_H(kind), H, "energy of a partition");
  for (c = 0; c < CALLS; c++) { gibbs(kind); consistent(kind); } sym_assert_eq(lib_H(kind), H, "energy of the final partition"); teardown(); done(b0);
}
/* the draws that lead a node to a given group span at most its probability: as the spans of all groups cover everything, exactly its probability */
static void run_gibbsp(int kind) {
  int s[HXM], b0 = sym_live_blocks(), c, i, k, t[2], full[HXM] = {0}, ne = 0; double u[2], p[HXM], Z = 0, pe = 0; choose(s); k = sym_pick(0, NN - 1, "node"); int seed = sym_pick(1, 2, "seed");
  for (c = 0; c < 2; c++) {
    setup(s); sym_draw_reset(); sym_draw_window(k, k + 1, seed); H = ref_H(kind, g); gibbs(kind); u[c] = sym_draw_value(k); t[c] = nlist[k]->inGroup;
    if (!c) { int cur[HXM]; for (i = 0; i < NN; i++) cur[i] = i < k ? nlist[i]->inGroup : s[i]; for (i = 0; i < NN; i++) full[cur[i]] = 1;
      double h0 = ref_H(kind, cur); for (i = 0; i < NN; i++) { int h[HXM], j; for (j = 0; j < NN; j++) h[j] = cur[j]; h[k] = i; p[i] = exp(-(ref_H(kind, h) - h0)); Z += p[i]; } for (i = 0; i < NN; i++) { p[i] /= Z; if (!full[i]) { pe += p[i]; ne++; } } }
    teardown(); }
  if (full[t[0]] ? t[1] == t[0] : !full[t[1]]) { double q = full[t[0]] ? p[t[0]] : pe; sym_assert_le(u[0] - u[1], q, "a node goes to a group with the probability the energy gives it"); sym_reach("same"); }
  done(b0);
}
void h_ls(void) { run_mc(LS); } void h_mb(void) { run_mc(MB); } void h_or(void) { run_mc(ORMB); } void h_od(void) { run_mc(OD); }
void h_gls(void) { run_gibbs(LS); } void h_gmb(void) { run_gibbs(MB); } void h_gor(void) { run_gibbs(ORMB); } void h_god(void) { run_gibbs(OD); } void h_gsp(void) { run_gibbs(SPARSE); }
void h_pls(void) { run_gibbsp(LS); } void h_pmb(void) { run_gibbsp(MB); } void h_por(void) { run_gibbsp(ORMB); } void h_pod(void) { run_gibbsp(OD); } void h_psp(void) { run_gibbsp(SPARSE); }
