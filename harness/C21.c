/* C21: comparing partitions and networks. */
#include "hxp.h"
#ifndef NN
#define NN 4
#endif
#ifndef MM
#define MM 3
#endif
static double plogp(int a, int s) { return a ? (double)a * log((double)a / (double)s) : 0; }
static int near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
static int gap;
static struct group *parts(int *g, int n, int ng, int rev, int soft, int shift) { struct group *p = CreateHeaderGroup(); int i, k; for (k = 0; k < ng; k++) hx_gr[k] = CreateGroup(p, gap ? 7 * k + 2 : k); for (k = 0; k < n; k++) { i = rev ? n - 1 - k : k; struct group *q = hx_gr[(g[i] + shift) % ng]; if (soft) AddNodeToGroupSoft(q, (char *)hx_lab[i]); else AddNodeToGroup(q, hx_nd[i]); } return p; }
static void mutual(int n, int *g, int ng, int *h, int nh) {
  Ref r; int i, j, k, lab = sym_bool("by label"), rev = sym_bool("rev"), same = 1, empt = sym_bool("empty group"); double H1 = 0, H2 = 0, I = 0, v, w; hx_clear(&r, n); gap = rev;
  struct node_gra *net = hx_build(&r, 0); struct group *p = parts(g, n, ng + empt, 0, lab, 0), *q = parts(h, n, nh + empt, rev, lab, rev); int b0 = sym_live_blocks();
  for (k = 0; k < ng; k++) { int a = 0; for (i = 0; i < n; i++) a += g[i] == k; H1 += plogp(a, n); } for (k = 0; k < nh; k++) { int a = 0; for (i = 0; i < n; i++) a += h[i] == k; H2 += plogp(a, n); }
  for (k = 0; k < ng; k++) for (j = 0; j < nh; j++) { int a = 0, b = 0, c = 0; for (i = 0; i < n; i++) { a += g[i] == k; b += h[i] == j; c += g[i] == k && h[i] == j; } if (c) I += c * log((double)c * n / ((double)a * b)); }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if ((g[i] == g[j]) != (h[i] == h[j])) same = 0;
  if (ng == 1 && nh == 1) sym_stop(); v = MutualInformation(p, q, lab); w = MutualInformation(q, p, lab); sym_assert(near(v, -2 * I / (H1 + H2)), "mutual information of two partitions"); sym_assert(near(v, w), "mutual information is symmetric"); sym_assert(v > -1e-9 && v < 1 + 1e-9, "mutual information lies between zero and one"); if (same) { sym_assert(near(v, 1), "equal partitions have mutual information one"); sym_reach("same"); } else sym_assert(v < 1 - 1e-6, "different partitions have mutual information below one");
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemovePartition(p); RemovePartition(q); RemoveGraph(net); sym_reach("end");
}
void h_mutual(void) { int n = sym_pick(2, NN, "n"), g[HXM], h[HXM], ng, nh; ng = hx_any_part(g, n, n); nh = hx_any_part(h, n, n); mutual(n, g, ng, h, nh); }
/* partitions of more nodes: four patterns each, one node of each put anywhere */
#if HXM >= 24
static int pattern(int *g, int n) { int i, k = sym_pick(0, 3, "pattern"), ng = k == 0 ? 3 : k == 1 ? 4 : k == 2 ? 1 : n; for (i = 0; i < n; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / ((n + 3) / 4) : k == 2 ? 0 : i; k = sym_pick(0, 3, "node") * 5; i = g[k]; g[k] = sym_pick(0, ng < 4 ? ng : 3, "to"); if (g[k] == ng) ng++; return ng; }
void h_mutualmany(void) { int n = 22, g[HXM], h[HXM], ng = pattern(g, n), nh = pattern(h, n); if (ng == 1 || nh == 1 || ng > 22 || nh > 22) sym_stop(); mutual(n, g, ng, h, nh); }
#endif
void h_correct(void) {
  Ref r; int n = NN, g[HXM], h[HXM], i, j, k, ng, nh, want = 0, tie = 0, to[HXM], sc[HXM]; hx_clear(&r, n); ng = hx_any_part(g, n, n); nh = hx_any_part(h, n, n); struct node_gra *net = hx_build(&r, 0); struct group *p = parts(g, n, ng, 0, 0, 0), *q = parts(h, n, nh, 0, 0, 0); int b0 = sym_live_blocks();
  /* each actual group stands for the reference group it shares most nodes with, unless another has more of it */
  for (k = 0; k < nh; k++) { to[k] = -1; sc[k] = 0; for (j = 0; j < ng; j++) { int c = 0; for (i = 0; i < n; i++) c += g[i] == j && h[i] == k; if (c > sc[k]) { sc[k] = c; to[k] = j; } else if (c && c == sc[k]) tie = 1; } }
  for (k = 0; k < nh; k++) { int best = 1; for (j = 0; j < nh; j++) if (j != k && to[j] == to[k]) { if (sc[j] > sc[k]) best = 0; if (sc[j] == sc[k] && j > k) best = 0; } if (best) want += sc[k]; }
  double v = CorrectlyClassified(p, q); sym_assert(v >= 0 && v <= 1, "a fraction lies between zero and one"); if (!tie) { sym_assert_eq(v, (double)want / n, "fraction of correctly classified nodes"); sym_reach("untied"); } if (ng == nh) { int eq = 1; for (i = 0; i < n; i++) eq &= g[i] == h[i]; if (eq) sym_assert_eq(v, 1, "every node of an equal partition is correctly classified"); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemovePartition(p); RemovePartition(q); RemoveGraph(net); sym_reach("end");
}
/* networks over overlapping label sets */
void h_networks(void) {
  Ref r, s; int i, j, off = sym_pick(0, 2, "shared labels"), n1 = 3, n2 = MM, nA, nB, nc, lA, lB, lc, cA = 0, cB = 0, cc = 0, com; double pAB, pBA, qAB, qBA; hx_any_undirected(&r, n1, 0, 0); hx_any_undirected(&s, n2, 0, 0); struct node_gra *A = hx_build(&r, 0), *B; const char *save[HXM]; 
  for (i = 0; i < n2; i++) { save[i] = hx_lab[i]; } for (i = 0; i < n2; i++) hx_lab[i] = ((const char *[]){"n0", "n1", "n2", "n3", "n4", "n5"})[i + off]; B = hx_build(&s, sym_bool("rev")); for (i = 0; i < n2; i++) hx_lab[i] = save[i]; int b0 = sym_live_blocks();
  com = 0; for (i = 0; i < n2; i++) com += i + off < n1; for (i = 0; i < n1; i++) for (j = i + 1; j < n1; j++) if (i >= off && j >= off && i - off < n2 && j - off < n2) { cA += r.a[i][j]; cB += s.a[i - off][j - off]; cc += r.a[i][j] && s.a[i - off][j - off]; }
  CompareTwoNetworks(A, B, &nA, &nB, &nc, &pAB, &pBA, &lA, &lB, &lc, &qAB, &qBA); sym_assert(nA == n1 && nB == n2 && nc == com, "numbers of nodes and of common nodes"); sym_assert_eq(pAB, (double)com / n2, "fraction of nodes of the second network in the first"); sym_assert_eq(pBA, (double)com / n1, "fraction of nodes of the first network in the second");
  sym_assert(lA == cA && lB == cB && lc == cc, "numbers of links among common nodes"); if (cB) { sym_assert_eq(qAB, (double)cc / cB, "fraction of links of the second network in the first"); sym_reach("links"); } if (cA) sym_assert_eq(qBA, (double)cc / cA, "fraction of links of the first network in the second");
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(A); RemoveGraph(B); sym_reach("end");
}
/* group sizes, and the partition of a network into its connected clusters */
void h_sizes(void) {
  Ref r; int g[HXM], i, j, k, c = 0, n = sym_pick(1, NN, "n"); double m = 0, v = 0, lo = 99, hi = 0, a, b, x, y; hx_any_undirected(&r, n, 0, 1); struct node_gra *net = hx_build(&r, sym_bool("rev")); int b0 = sym_live_blocks(); struct group *p = ClustersPartition(net), *q;
  int u[HXM][HXM]; for (i = 0; i < n; i++) for (j = 0; j < n; j++) u[i][j] = i == j || r.a[i][j]; for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) u[i][j] |= u[i][k] && u[k][j]; for (i = 0; i < n; i++) { for (j = 0; j < i && !u[i][j]; j++) ; g[i] = j < i ? g[j] : c++; }
  sym_assert(NGroups(p) == c, "one group per cluster"); for (q = p->next; q; q = q->next) { struct node_lis *l = q->nodeList->next; sym_assert(l != NULL, "no empty cluster"); i = l->ref->num; int sz = 0; for (j = 0; j < n; j++) sz += g[j] == g[i]; hx_group_nodes(q, g, n, g[i], hx_nd, hx_lab, 1); hx_group_counts(q, &r, g, g[i]); m += (double)sz / c; if (sz < lo) lo = sz; if (sz > hi) hi = sz; }
  for (q = p->next; q; q = q->next) v += (q->size - m) * (q->size - m) / c; CreateGroup(p, 99); GroupSizeStatistics(p, &a, &b, &x, &y); sym_assert_eq(a, m, "mean group size"); sym_assert_eq(b * b, v, "spread of the group sizes"); sym_assert_eq(x, lo, "smallest group"); sym_assert_eq(y, hi, "largest group");
  RemovePartition(p); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
