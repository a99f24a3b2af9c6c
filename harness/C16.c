/* C16: participation, within-module z-score and role of array-based partitions. */
#include "hxq.h"
#ifndef NN
#define NN 3
#endif
#ifndef MM
#define MM 3
#endif
static int role(double P, double z) { if (z < 2.5) return P < 0.05 ? 0 : P < 0.62 ? 1 : P < 0.8 ? 2 : 3; return P < 0.3 ? 4 : P < 0.75 ? 5 : 6; }
static int near(double P) { static const double b[] = {0.05, 0.62, 0.8, 0.3, 0.75}; int k; for (k = 0; k < 5; k++) if (P - b[k] < 1e-9 && b[k] - P < 1e-9) return 1; return 0; }
static int near2(double z) { return z - 2.5 < 1e-9 && 2.5 - z < 1e-9; }
static void metrics(int wsw, int norm, int exact) {
  QEdges q; AdjaArray *adj; int g[HXM], i, j, k, m, nm; double W = 0;
#ifdef PATTERN
  Ref fam; hx_family(&fam, 0, 1); hxq_of(&q, &fam);
#else
  hxq_any(&q, NN, 0, wsw);
#endif
  if (norm && !q.e) sym_stop();
  int b0 = sym_live_blocks(); Partition *p = hxq_build(&q, MM, &adj, norm); 
#ifdef PATTERN
  k = sym_pick(0, 3, "partition"); for (i = 0; i < NN; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : k == 2 ? 0 : i == 5; nm = k == 0 ? 3 : k == 2 ? 1 : 2;
#else
  nm = hx_any_part(g, NN, MM);
#endif
  hxq_place(p, g, 0); if (nm < MM) CompressPartition(p); for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module;
  double *C = malloc(NN * sizeof(double)), *P = malloc(NN * sizeof(double)); PartitionRolesMetrics(p, adj, C, P);
  for (i = 0; i < NN; i++) {
    double to[MM] = {0}, s = 0, part = 0, mean = 0, var = 0, own[NN]; int n = 0;
    for (j = 0; j < NN; j++) { to[g[j]] += hxq_w(&q, i, j); s += hxq_w(&q, i, j); }
    int deg = 0; for (k = 0; k < q.e; k++) deg += q.a[k] == (unsigned)i || q.b[k] == (unsigned)i;
    for (m = 0; m < nm; m++) part += to[m] * to[m];
    sym_assert_eq(P[i], deg ? 1 - part / (s * s) : 0, "participation coefficient");
    for (j = 0; j < NN; j++) if (g[j] == g[i]) { own[j] = 0; for (k = 0; k < NN; k++) if (g[k] == g[i]) own[j] += hxq_w(&q, j, k); mean += own[j]; n++; }
    mean /= n; for (j = 0; j < NN; j++) if (g[j] == g[i]) var += (own[j] - mean) * (own[j] - mean); var /= n;
    if (exact && var != 0) sym_assume(var > 1e-20 * mean * mean); /* a deviation below rounding error counts as none */
    if (exact) { if (var == 0) { sym_assert_eq(C[i], 0, "z-score in a uniform module"); } else { sym_assert_eq(C[i] * C[i] * var, (own[i] - mean) * (own[i] - mean), "squared z-score"); sym_assert_le(0, C[i] * (own[i] - mean), "sign of the z-score"); sym_reach("varied"); } }
    else { double z = var > 1e-9 ? (own[i] - mean) / sqrt(var) : 0; sym_assert_eq(C[i], z, "z-score"); if (var > 1e-9) sym_reach("varied"); sym_assert(GetRole(P[i], C[i]) == role(P[i], C[i]), "role of a node"); if (near(P[i]) || near2(C[i])) ; else sym_assert(GetRole(P[i], C[i]) == role(1 - (deg ? part / (s * s) : 1), z), "role of a node"); }
  }
  free(C); free(P); FreePartition(p); FreeAdjaArray(adj); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_exact(void) { metrics(1, 0, 1); }
void h_double(void) { metrics(0, 1, 0); }
/* the seven regions of the plane, boundaries included */
void h_role(void) { double P = sym_real(-1, 2, "P"), z = sym_real(-20, 20, "z"); sym_assert(GetRole(P, z) == role(P, z), "role of a point of the plane"); sym_reach("end"); }
/* the table of roles */
void h_table(void) {
  int i, n = 3; Partition *p = CreatePartition(n, n); char *lab[3] = {"a", "b2", "long-label-of-a-node-0123456789-0123"}; double C[3], P[3]; int g[3]; FILE *f = fopen("t", "w");
  static double cs[] = {-1.5, 0, 2.25, 2.5, 7}, ps[] = {0, 0.0625, 0.25, 0.375, 0.65625, 0.875};
  for (i = 0; i < n; i++) { g[i] = sym_pick(0, 2, "module"); C[i] = cs[sym_pick(0, i == 2 ? 4 : 1, "z") + (i == 1 ? 2 : 0)]; P[i] = ps[sym_pick(0, i == 2 ? 5 : 1, "P") + (i == 1 ? 3 : 0)]; } hxq_place(p, g, 0);
  TabularOutput(f, lab, p, C, P); fclose(f); f = fopen("t", "r"); char line[200], l[60], r[20]; int m; double c, x; sym_assert(fgets(line, 200, f) != NULL && !strncmp(line, "Label", 5), "the table starts with its header");
  for (i = 0; i < n; i++) { sym_assert(fgets(line, 200, f) != NULL && sscanf(line, "%s %d %lf %lf %s", l, &m, &c, &x, r) == 5, "one line per node"); sym_assert(!strcmp(l, lab[i]) && m == g[i], "label and module of a node"); sym_assert(fabs(c - C[i]) < 1e-6 && fabs(x - P[i]) < 1e-6, "connectivity and participation of a node"); sym_assert(r[0] == 'R' && atoi(r + 1) == role(P[i], C[i]) + 1, "role of a node"); }
  sym_assert(fgets(line, 200, f) == NULL, "no further lines"); fclose(f); FreePartition(p); sym_reach("end");
}
/* the projection of a bipartite network, where a node's links do not add up to its share of the memberships */
static void bip(int wsw) {
  int a[NN][2], i, j, k, t, e = 0, g[HXM], nm; unsigned in[NN * 2], out[NN * 2]; double ws[NN * 2], w[NN][2], s2 = 0; int pairs = 0;
  for (i = 0; i < NN; i++) for (t = 0; t < 2; t++) { a[i][t] = sym_bool("link"); w[i][t] = a[i][t] ? (wsw ? sym_real(0.25, 8, "w") : sym_bool("heavy") ? 2.5 : 1) : 0; if (a[i][t]) { in[e] = i; out[e] = t; ws[e++] = w[i][t]; } }
  for (t = 0; t < 2; t++) { double m = 0; int d = 0; for (i = 0; i < NN; i++) { m += w[i][t]; d += a[i][t]; } if (d) s2 += m * (m - m / d); if (d > 1) pairs = 1; }
  if (!pairs || !(a[NN - 1][0] || a[NN - 1][1])) sym_stop();
  int b0 = sym_live_blocks(); Partition *p; AdjaArray *adj; ProjectBipartEdgeList(in, out, ws, e, &p, &adj); sym_assert((int)p->N == NN, "one node per actor"); nm = hx_any_part(g, NN, NN); hxq_place(p, g, 0); if (nm < NN) CompressPartition(p); for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module;
  double C[NN], P[NN], c[NN][NN]; PartitionRolesMetrics(p, adj, C, P); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) c[i][j] = i == j ? 0 : w[i][0] * w[j][0] + w[i][1] * w[j][1];
  for (i = 0; i < NN; i++) {
    double to[NN] = {0}, s = 0, part = 0, mean = 0, var = 0, own[NN]; int n = 0, deg = 0; for (j = 0; j < NN; j++) { to[g[j]] += c[i][j]; s += c[i][j]; deg |= j != i && ((a[i][0] && a[j][0]) || (a[i][1] && a[j][1])); } for (k = 0; k < nm; k++) part += to[k] * to[k];
    sym_assert_eq(P[i], deg ? 1 - part / (s * s) : 0, "participation coefficient of a projected node"); if (deg) sym_reach("linked");
    for (j = 0; j < NN; j++) if (g[j] == g[i]) { own[j] = 0; for (k = 0; k < NN; k++) if (g[k] == g[i]) own[j] += c[j][k]; mean += own[j]; n++; } mean /= n; for (j = 0; j < NN; j++) if (g[j] == g[i]) var += (own[j] - mean) * (own[j] - mean); var /= n;
    if (!wsw) { double z = var > 1e-9 ? (own[i] - mean) / sqrt(var) : 0; sym_assert_eq(C[i], z, "z-score of a projected node"); sym_assert(GetRole(P[i], C[i]) == role(1 - (deg ? part / (s * s) : 1), z), "role of a projected node"); }
  }
  FreePartition(p); FreeAdjaArray(adj); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_bip(void) { bip(0); }

