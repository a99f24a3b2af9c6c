/* C20: node roles of list-based partitions. */
#ifndef HXM
#define HXM 8
#endif
#include "hxb.h"
#include "hxp.h"
#include "partition.h"
#ifndef NN
#define NN 4
#endif
void FPrintTabNodesBipart(FILE *outf, struct binet *network, struct group *modules, int degree_based, int weighted);
double WeightedParticipationCoefficient(struct node_gra *node, struct group *part); double WithinModuleRelativeStrength(struct node_gra *node, struct group *part); struct group *CatalogRoleIdentStrength(struct node_gra *net, struct group *mod);
double ParticipationCoefficientBipart(struct node_gra *node); void StatisticsParticipationCoefficientBipart(struct node_gra *net, double *, double *, double *, double *);
static int role(double P, double z) { if (z < 2.5) return P < 0.05 ? 0 : P < 0.62 ? 1 : P < 0.8 ? 2 : 3; return P < 0.3 ? 4 : P < 0.75 ? 5 : 6; }
/* participation; within-module deviation from the mean and variance; weights w */
static void rmet(double w[HXM][HXM], int n, int *g, int i, double *P, double *dev, double *var) {
  int j, k, c = 0; double to[HXM] = {0}, s = 0, part = 0, mean = 0, own[HXM]; for (j = 0; j < n; j++) { to[g[j]] += w[i][j]; s += w[i][j]; } int has = 0; for (j = 0; j < n; j++) has |= w[i][j] != 0;
  for (k = 0; k < n; k++) part += to[k] * to[k]; *P = has ? 1 - part / (s * s) : 0; for (j = 0; j < n; j++) if (g[j] == g[i]) { own[j] = 0; for (k = 0; k < n; k++) if (g[k] == g[i]) own[j] += w[j][k]; mean += own[j]; c++; }
  mean /= c; *var = 0; for (j = 0; j < n; j++) if (g[j] == g[i]) *var += (own[j] - mean) * (own[j] - mean); *var /= c; *dev = own[i] - mean;
}
static double A[HXM][HXM];
void h_exact(void) {
  Ref r; int g[HXM], i, j, ng; hx_any_undirected(&r, NN, 0, 1); ng = hx_any_part(g, NN, NN); int b0 = sym_live_blocks(); struct node_gra *net = hx_build(&r, 0); ResetNetGroup(net); struct group *p = hx_build_part(g, NN, ng, sym_bool("rev")); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) A[i][j] = r.a[i][j];
  for (i = 0; i < NN; i++) { double P, d, v, z; rmet(A, NN, g, i, &P, &d, &v); sym_assert_eq(ParticipationCoefficient(hx_nd[i]), P, "participation coefficient"); z = WithinModuleRelativeDegree(hx_nd[i], p); if (v == 0) sym_assert_eq(z, 0, "z-score in a uniform module"); else { sym_assert_eq(z * z * v, d * d, "squared z-score"); sym_assert_le(0, z * d, "sign of the z-score"); sym_reach("varied"); }
    rmet(r.w, NN, g, i, &P, &d, &v); sym_assert_eq(WeightedParticipationCoefficient(hx_nd[i], p), P, "weighted participation coefficient"); if (v != 0) sym_assume(v > 1e-20); z = WithinModuleRelativeStrength(hx_nd[i], p); if (v == 0) sym_assert_eq(z, 0, "z-score in a uniform module"); else { sym_assert_eq(z * z * v, d * d, "squared z-score of the strength"); sym_assert_le(0, z * d, "sign of the z-score"); } }
  RemovePartition(p); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
/* every node is filed under exactly its role */
static void filed(struct group *roles, int n, struct node_gra **nd, int *want) { int i, k, c = 0; struct group *q; for (q = roles->next; q; q = q->next) { sym_assert(q->label == c, "roles are numbered from zero"); c++; } sym_assert(c == 7, "there are seven roles"); for (k = 0; k < 7; k++) { q = GetGroup(roles, k); int m = 0; for (struct node_lis *l = q->nodeList->next; l; l = l->next) { for (i = 0; i < n && nd[i] != l->ref; i++) ; sym_assert(i < n && want[i] == k, "a node is filed under its role"); m++; } int w = 0; for (i = 0; i < n; i++) w += want[i] == k; sym_assert(m == w && q->size == w, "a node is filed once"); } for (i = 0; i < n; i++) sym_assert(nd[i]->inGroup == want[i], "the network is mapped to the roles"); }
/* in double arithmetic a value within rounding error of a border may fall on either side of it */
static int border(double P, double z) { static const double b[] = {0.05, 0.62, 0.8, 0.3, 0.75}; int k; for (k = 0; k < 5; k++) if (P - b[k] < 1e-9 && b[k] - P < 1e-9) return 1; return z - 2.5 < 1e-9 && 2.5 - z < 1e-9; }
static double zof(double d, double v) { return v > 1e-9 ? d / sqrt(v) : 0; }
static void catalog(Ref *r, int *g, int n, int ng) {
  int i, j, w[HXM], map = sym_bool("mapped"); double P, d, v; int b0 = sym_live_blocks(); struct node_gra *net = hx_build(r, 0); ResetNetGroup(net); struct group *p = hx_build_part(g, n, ng, 0), *q; for (i = 0; i < n; i++) for (j = 0; j < n; j++) A[i][j] = r->a[i][j]; if (!map) ResetNetGroup(net);
  for (i = 0; i < n; i++) { rmet(A, n, g, i, &P, &d, &v); w[i] = role(P, zof(d, v)); if (border(P, zof(d, v))) sym_stop(); if (w[i] == 4) sym_reach("R5"); if (w[i] == 5) sym_reach("R6"); if (w[i] == 6) sym_reach("R7"); } q = CatalogRoleIdent(net, p); filed(q, n, hx_nd, w); RemovePartition(q);
  for (i = 0; i < n; i++) { rmet(r->w, n, g, i, &P, &d, &v); w[i] = role(P, zof(d, v)); if (border(P, zof(d, v))) sym_stop(); } q = CatalogRoleIdentStrength(net, p); filed(q, n, hx_nd, w); RemovePartition(q);
  RemovePartition(p); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_catalog(void) { Ref r; int g[HXM], i, j, ng; double w = sym_bool("weight") ? 0.1 : 1; hx_any_undirected(&r, NN, 0, 0); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) r.w[i][j] *= w; ng = hx_any_part(g, NN, NN); catalog(&r, g, NN, ng); }
void h_family(void) { Ref r; int g[HXM], i, k = sym_pick(0, 3, "groups"); hx_family(&r, 0, 1); for (i = 0; i < 8; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : k == 2 ? 0 : i == 5; catalog(&r, g, 8, k == 0 ? 3 : k == 2 ? 1 : 2); }
/* a hub with eight leaves in its module and up to MAXOUT links to other modules, one or two to each */
#ifndef MAXOUT
#define MAXOUT 11
#endif
#if HXM > 20
void h_hub(void) {
  Ref r; int g[HXM], i, n = 9, ng = 1, out = sym_pick(0, MAXOUT, "links out"), two = sym_bool("in pairs"); double w = sym_bool("weight") ? 0.1 : 1; hx_clear(&r, 9 + out); for (i = 0; i < 9; i++) g[i] = 0;
  for (i = 0; i < out; i++) { g[9 + i] = two ? 1 + i / 2 : 1 + i; ng = g[9 + i] + 1; } for (i = 1; i < 9 + out; i++) { r.a[0][i] = r.a[i][0] = 1; r.w[0][i] = r.w[i][0] = w; } if (sym_bool("leaves linked")) { r.a[1][2] = r.a[2][1] = 1; r.w[1][2] = r.w[2][1] = w; } 
  catalog(&r, g, r.n, ng);
}
#endif
/* bipartite: participation through shared teams, and the table of roles of the projection */
static void bipart(BRef r, int *g, int ng, int table) {
  int i, j, k, n = r.n, m = r.m; struct binet *b = hxb_build(&r, 0); ResetNetGroup(b->net1); struct group *p = CreateHeaderGroup(); for (k = 0; k < ng; k++) hx_gr[k] = CreateGroup(p, k); for (i = 0; i < n; i++) AddNodeToGroupFast(hx_gr[g[i]], hxb_1[i]);
  double Ps[HXM], ok = 1, a, s, lo, hi;
  for (i = 0; i < n; i++) { double to[HXM] = {0}, t = 0, P = 0; for (k = 0; k < m; k++) if (r.a[i][k]) for (j = 0; j < n; j++) if (j != i && r.a[j][k]) { to[g[j]]++; t++; } for (j = 0; j < n; j++) P += to[j] * to[j]; Ps[i] = 1 - P / (t * t); if (t > 0) { sym_assert_eq(ParticipationCoefficientBipart(hxb_1[i]), Ps[i], "participation coefficient of a node of a bipartite network"); sym_reach("participates"); } else ok = 0; }
  if (ok) { double me = 0, va = 0, l = 9, h = -9; StatisticsParticipationCoefficientBipart(b->net1, &a, &s, &lo, &hi); for (i = 0; i < n; i++) { me += Ps[i] / n; if (Ps[i] < l) l = Ps[i]; if (Ps[i] > h) h = Ps[i]; } for (i = 0; i < n; i++) va += (Ps[i] - me) * (Ps[i] - me) / n; sym_assert_eq(a, me, "mean participation"); sym_assert_eq(s * s, va, "spread of the participation"); sym_assert_eq(lo, l, "least participation"); sym_assert_eq(hi, h, "largest participation"); }
  if (table) {
    int deg = sym_bool("degree based"), wei = sym_bool("weighted"); double w[HXM][HXM]; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { w[i][j] = 0; if (i != j) for (k = 0; k < m; k++) if (r.a[i][k] && r.a[j][k]) { if (deg) w[i][j] = 1; else w[i][j] += wei ? r.w[i][k] * r.w[j][k] : 1; } }
    FILE *f = fopen("t", "w"); FPrintTabNodesBipart(f, b, p, deg, wei); fclose(f); f = fopen("t", "r"); char line[200], l[60], ro[20]; int mo; double x, z, P, d, v; int seen[HXM] = {0};
    for (k = 0; k < n; k++) { sym_assert(fgets(line, 200, f) != NULL && sscanf(line, "%s %d %s %lf %lf", l, &mo, ro, &x, &z) == 5, "one line per node is written to the file asked for"); for (i = 0; i < n && strcmp(hxb_l1[i], l); i++) ; sym_assert(i < n && !seen[i] && mo == g[i] + 1, "label and module of a node"); seen[i] = 1; rmet(w, n, g, i, &P, &d, &v); sym_assert(fabs(x - P) < 1e-6 && fabs(z - zof(d, v)) < 1e-6, "participation and z-score of a node"); if (!border(P, zof(d, v))) sym_assert(ro[0] == 'R' && atoi(ro + 1) == role(P, zof(d, v)) + 1, "role of a node"); }
    sym_assert(fgets(line, 200, f) == NULL, "no further lines"); fclose(f); for (i = 0; i < n; i++) sym_assert(hxb_1[i]->inGroup == g[i], "the partition is mapped back");
  }
  RemovePartition(p); RemoveBipart(b); sym_reach("end");
}
static void anyb(int table) { BRef r; int g[HXM], i, j, ng; hxb_clear(&r, 3, 2); for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) if (sym_bool("link")) { r.a[i][j] = 1; r.w[i][j] = table && sym_bool("heavy") ? 2.5 : 1; } ng = hx_any_part(g, 3, 3); bipart(r, g, ng, table); }
void h_bippart(void) { anyb(0); }
void h_biptable(void) { anyb(1); }
void h_familybip(void) { BRef r; int g[HXM], i, k, t = sym_bool("table"); hxb_family(&r, t); k = sym_pick(0, 4, "groups"); for (i = 0; i < 6; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 3 : k == 2 ? 0 : k == 3 ? i : i == 5; bipart(r, g, k == 0 ? 3 : k == 1 || k == 4 ? 2 : k == 2 ? 1 : 6, t); }
