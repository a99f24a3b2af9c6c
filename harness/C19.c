/* C19: modularity of list-based partitions, unipartite and bipartite. */
#include "hxb.h"
#include "hxp.h"
#ifndef NN
#define NN 4
#endif
#ifndef MM
#define MM 2
#endif
double ModularityBipartWeightedFast(struct binet *binet, struct group *part, double **swwmat);
static int perm(int *g, int n, int ng) { int i, c = sym_bool("swap groups"); if (c) for (i = 0; i < n; i++) g[i] = ng - 1 - g[i]; return c; }
static void uni(Ref r, int *g, int ng) {
  int i, j, k, n = r.n; double L2 = 0, S2 = 0, Q = 0, W = 0; int b0 = sym_live_blocks(), rev = sym_bool("rev"); struct node_gra *net = hx_build(&r, rev); ResetNetGroup(net); struct group *p = hx_build_part(g, n, ng, rev);
  for (i = 0; i < n; i++) { L2 += hx_deg(&r, i); S2 += hx_str(&r, i); } if (L2 == 0) sym_stop();
  for (k = 0; k < ng; k++) { double d = 0, s = 0, in = 0, inw = 0; for (i = 0; i < n; i++) if (g[i] == k) { d += hx_deg(&r, i); s += hx_str(&r, i); for (j = 0; j < n; j++) if (g[j] == k && r.a[i][j]) { in++; inw += r.w[i][j]; } } Q += in / L2 - (d / L2) * (d / L2); W += inw / S2 - (s / S2) * (s / S2); }
  sym_assert_eq(Modularity(p), Q, "modularity"); sym_assert_eq(ModularityWeight(p), W, "weighted modularity"); if (ng > 1) sym_reach("several");
  RemovePartition(p); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_uni(void) { Ref r; int g[HXM], ng; hx_any_undirected(&r, NN, 0, 1); ng = hx_any_part(g, NN, NN); perm(g, NN, ng); uni(r, g, ng); }
void h_family(void) { Ref r; int g[HXM], i, k = sym_pick(0, 4, "groups"); hx_family(&r, 0, 1); for (i = 0; i < 8; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : k == 2 ? 0 : k == 3 ? i : i == 5; uni(r, g, k == 0 ? 3 : k == 1 || k == 4 ? 2 : k == 2 ? 1 : 8); }
/* groups with more links than have a square that fits in an int */
void h_dense(void) {
  struct node_gra *net = CreateHeaderGraph(), *last = net, *nd[232]; int i, j, n = 230; double L = n * (n - 1) + 4.0, a = L - 3, q; sym_step_limit(2000000000L);
  for (i = 0; i < n + 2; i++) { char b[12]; sprintf(b, "%d", i); last = nd[i] = CreateNodeGraph(last, b); last->inGroup = i >= n; } for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) AddAdjacency(nd[i], nd[j], 0, 0, 2, 0);
  AddAdjacency(nd[n], nd[n + 1], 0, 0, 2, 0); AddAdjacency(nd[n + 1], nd[n], 0, 0, 2, 0); AddAdjacency(nd[n], nd[0], 0, 0, 2, 0); AddAdjacency(nd[0], nd[n], 0, 0, 2, 0);
  struct group *p = CreatePartitionFromInGroup(net); MapPartToNet(p, net); q = (L - 2) / L - a * a / (L * L) - 9 / (L * L); double d = q - Modularity(p); sym_assert(d < 1e-9 && d > -1e-9, "modularity"); d = q - ModularityWeight(p); sym_assert(d < 1e-9 && d > -1e-9, "weighted modularity"); sym_reach("end");
}
static void bip(BRef r, int *g, int ng, int wsw) {
  int i, j, k; double ms = 0, ms2 = 0, Q = 0; int b0 = sym_live_blocks(), rev = sym_bool("rev"); struct binet *b = hxb_build(&r, rev); memcpy(hx_nd, hxb_1, sizeof hx_nd); ResetNetGroup(b->net1); struct group *p = CreateHeaderGroup(); for (k = 0; k < ng; k++) hx_gr[k] = CreateGroup(p, k); for (k = 0; k < r.n; k++) { i = rev ? r.n - 1 - k : k; AddNodeToGroupFast(hx_gr[g[i]], hxb_1[i]); }
  for (k = 0; k < r.m; k++) { double m = 0; for (i = 0; i < r.n; i++) m += r.w[i][k]; ms += m; ms2 += m * m; }
  if (!wsw) { if (ms == ms2) sym_stop(); } else { if (!hxb_nlinks(&r)) sym_stop(); sym_assume(ms2 - ms > 0.0625 || ms2 - ms < -0.0625); }
  for (i = 0; i < r.n; i++) for (j = 0; j < r.n; j++) if (i != j && g[i] == g[j]) { double c = 0, ti = 0, tj = 0; for (k = 0; k < r.m; k++) { c += r.w[i][k] * r.w[j][k]; ti += r.w[i][k]; tj += r.w[j][k]; } Q += c / (ms2 - ms) - ti * tj / (ms * ms); }
  if (!wsw) sym_assert_eq(ModularityBipart(b, p), Q, "bipartite modularity"); sym_assert_eq(ModularityBipartWeighted(b, p), Q, wsw ? "weighted bipartite modularity" : "on an unweighted network the weighted bipartite modularity is the unweighted one");
  if (!wsw) { double **m = allocate_d_mat(r.n, r.n), F = 0; for (i = 0; i < r.n; i++) for (j = 0; j < r.n; j++) m[i][j] = 1 + i * j; for (i = 0; i < r.n; i++) for (j = i + 1; j < r.n; j++) if (g[i] == g[j]) F += m[i][j]; sym_assert_eq(ModularityBipartWeightedFast(b, p, m), F, "modularity from a matrix of contributions"); free_d_mat(m, r.n); }
  RemovePartition(p); RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
static void anyb(int wsw) { BRef r; int g[HXM], ng; hxb_any(&r, NN, MM, wsw); ng = hx_any_part(g, NN, NN); perm(g, NN, ng); bip(r, g, ng, wsw); }
void h_bip(void) { anyb(0); }
void h_bipw(void) { anyb(1); }
void h_familybip(void) { BRef r; int g[HXM], i, k, w = sym_bool("weighted"); hxb_family(&r, w); k = sym_pick(0, 4, "groups"); for (i = 0; i < 6; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 3 : k == 2 ? 0 : k == 3 ? i : i == 5; bip(r, g, k == 0 ? 3 : k == 1 || k == 4 ? 2 : k == 2 ? 1 : 6, w); }
/* the pattern of connections between groups */
void h_block(void) {
  Ref r; int g[HXM], ng, i, j, k, x, y, l, n = NN, size[HXM] = {0}, in[HXM][HXM] = {{0}}, seen[HXM][HXM] = {{0}}; double L = 0, b, e, p, sg; static const char ty[] = "nfpez"; char t = ty[sym_pick(0, 4, "type")]; hx_any_undirected(&r, n, 0, 1); ng = hx_any_part(g, n, n); perm(g, n, ng); struct node_gra *net = hx_build(&r, sym_bool("rev")); ResetNetGroup(net); struct group *part = hx_build_part(g, n, ng, 0); CreateGroup(part, 9);
  for (i = 0; i < n; i++) { size[g[i]]++; for (j = 0; j < n; j++) in[g[i]][g[j]] += r.a[i][j]; L += hx_deg(&r, i) / 2.0; } p = 2 * L / (n * (n - 1)); if (L == 0 && (t == 'f' || t == 'e')) sym_stop(); if (t == 'z' && (L == 0 || 2 * L == n * (n - 1))) sym_stop(); if (t == 'p' || t == 'z') for (k = 0; k < ng; k++) if (size[k] == 1) sym_stop();
  FILE *f = freopen("stdout.txt", "w", stdout); BlockModel(part, t, 0); fflush(stdout); f = fopen("stdout.txt", "r");
  for (l = 0; l < ng * ng; l++) { sym_assert(fscanf(f, "%d %d %lf", &x, &y, &b) == 3, "one line for each pair of groups"); x--; y--; sym_assert(x >= 0 && x < ng && y >= 0 && y < ng && !seen[x][y], "each pair of groups is listed once"); seen[x][y] = 1;
    double c = x == y ? in[x][y] / 2.0 : in[x][y], pairs = x == y ? size[x] * (size[x] - 1) / 2.0 : size[x] * size[y], dx = 0, dy = 0; for (i = 0; i < n; i++) { if (g[i] == x) dx += hx_deg(&r, i); if (g[i] == y) dy += hx_deg(&r, i); } sg = sqrt(pairs * p * (1 - p));
    if (t == 'e' && x != y) continue; e = t == 'n' ? c : t == 'f' ? c / L : t == 'p' ? c / pairs : t == 'e' ? c / L - dx * dy / (4 * L * L) : (c - p * pairs) / sg; sym_assert(fabs(b - e) < 1e-6, "links between two groups: number, fraction, probability, excess or z-score"); if (x == y && t == 'p' && c > 0) sym_reach("inside"); }
  sym_assert(fscanf(f, "%d", &x) != 1, "nothing else is printed"); fclose(f); sym_reach("end");
}
