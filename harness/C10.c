/* C10: betweenness of nodes and links. */
#include "hxd.h"
#ifndef NN
#define NN 4
#endif
static double sg[HXM][HXM]; static int D[HXM][HXM];
/* number of shortest paths between every pair */
static void paths(Ref *r) {
  int i, j, k, l, n = r->n; hx_dist(r, D); for (i = 0; i < n; i++) { for (j = 0; j < n; j++) sg[i][j] = i == j; for (l = 1; l < n; l++) for (j = 0; j < n; j++) if (D[i][j] == l) for (k = 0; k < n; k++) if (D[i][k] == l - 1 && r->a[k][j]) sg[i][j] += sg[i][k]; }
}
static double nodeb(Ref *r, int v) { int s, t; double b = 0; for (s = 0; s < r->n; s++) for (t = 0; t < r->n; t++) if (s != t && s != v && t != v && D[s][t] < HXINF && D[s][v] + D[v][t] == D[s][t]) b += sg[s][v] * sg[v][t] / sg[s][t]; return b; }
/* ordered pairs, both directions of the link */
static double linkb(Ref *r, int u, int v) { int s, t, q; double b = 0; for (s = 0; s < r->n; s++) for (t = 0; t < r->n; t++) if (s != t && D[s][t] < HXINF) for (q = 0; q < 2; q++) { int x = q ? v : u, y = q ? u : v; if (r->a[x][y] && D[s][x] + 1 + D[y][t] == D[s][t]) b += sg[s][x] * sg[y][t] / sg[s][t]; } return b; }
static void nodes(Ref *r) {
  int i; double m = 0, v = 0, lo = 1e9, hi = -1e9, a, b, c, d, bt[HXM]; paths(r); struct node_gra *net = hx_build(r, sym_bool("rev")); int b0 = sym_live_blocks();
  for (i = 0; i < r->n; i++) hx_nd[i]->dvar1 = 7; CalculateNodeBetweenness(net); for (i = 0; i < r->n; i++) { bt[i] = nodeb(r, i); sym_assert_eq(hx_nd[i]->dvar1, bt[i], "betweenness of a node"); m += bt[i] / r->n; if (bt[i] < lo) lo = bt[i]; if (bt[i] > hi) hi = bt[i]; }
  if (r->n > 1) { NodeBetweennessStatistics(net, &a, &b, &c, &d); for (i = 0; i < r->n; i++) v += (bt[i] - m) * (bt[i] - m) / r->n; sym_assert_eq(a, m, "mean betweenness"); sym_assert_eq(b * b, v, "standard deviation of the betweenness"); sym_assert(b >= 0, "standard deviation of the betweenness"); sym_assert_eq(c, lo, "smallest betweenness"); sym_assert_eq(d, hi, "largest betweenness"); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hx_same(net, r, hx_lab, 0); RemoveGraph(net); sym_reach("end");
}
static void links(Ref *r) {
  int i, j, n1 = -1, n2 = -1; double big = -1; paths(r); struct node_gra *net = hx_build(r, sym_bool("rev")); int b0 = sym_live_blocks();
  CalculateLinkBetweenness(net); for (i = 0; i < r->n; i++) for (struct node_lis *l = hx_nd[i]->neig->next; l; l = l->next) { for (j = 0; hx_nd[j] != l->ref; j++) ; double b = linkb(r, i, j); sym_assert_eq(l->btw, b, "betweenness of a link"); if (b > big) big = b; }
  if (big > 0) { CalculateBiggestLinkBetweenness(net, &n1, &n2); sym_assert(n1 >= 0 && n1 < r->n && n2 >= 0 && n2 < r->n && r->a[n1][n2], "the most central link is a link"); sym_assert_eq(linkb(r, n1, n2), big, "the most central link has the largest betweenness"); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hx_same(net, r, hx_lab, 0); RemoveGraph(net); sym_reach("end");
}
void h_nodes(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); nodes(&r); }
void h_arcs(void) { Ref r; hx_any_directed(&r, NN, 0, 0); nodes(&r); }
void h_links(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); links(&r); }
void h_selflinks(void) { Ref r; hx_any_undirected(&r, 3, 1, 0); nodes(&r); }
void h_linkarcs(void) { Ref r; hx_any_directed(&r, 3, 0, 0); links(&r); }
void h_familynodes(void) { Ref r; hx_family(&r, 0, 1); nodes(&r); }
void h_familyarcs(void) { Ref r; hx_family(&r, 1, 1); nodes(&r); }
void h_familylinks(void) { Ref r; hx_family(&r, 0, 1); links(&r); }
/* source and target joined by any network through a middle layer: several paths of several multiplicities */
static void layered(Ref *r) { int i, j; hx_clear(r, 7);
#define LK(x, y) (r->a[x][y] = r->a[y][x] = 1, r->w[x][y] = r->w[y][x] = 1)
  LK(0, 1); LK(0, 2); LK(6, 4); LK(6, 5); if (sym_bool("third")) { LK(0, 3); } if (sym_bool("within")) LK(4, 5); for (i = 1; i <= 3; i++) for (j = 4; j <= 5; j++) if (sym_bool("link")) LK(i, j); }
void h_layernodes(void) { Ref r; layered(&r); nodes(&r); }
void h_layerlinks(void) { Ref r; layered(&r); links(&r); }
/* ladder of diamonds: more shortest paths than fit in an int */
#ifndef LONG
#define LONG 40
#endif
void h_manypaths(void) {
  struct node_gra *net = CreateHeaderGraph(), *nd[3 * LONG + 1], *last = net; int i, k, n = 3 * LONG + 1; sym_step_limit(1000000000L);
  for (i = 0; i < n; i++) { char l[12]; sprintf(l, "%d", i); last = nd[i] = CreateNodeGraph(last, l); }
  for (k = 0; k < LONG; k++) for (i = 1; i <= 2; i++) { AddAdjacency(nd[3 * k], nd[3 * k + i], 0, 0, 1, 0); AddAdjacency(nd[3 * k + i], nd[3 * k], 0, 0, 1, 0); AddAdjacency(nd[3 * k + 3], nd[3 * k + i], 0, 0, 1, 0); AddAdjacency(nd[3 * k + i], nd[3 * k + 3], 0, 0, 1, 0); }
  CalculateNodeBetweenness(net);
  /* a joint k separates 3k nodes from 3(LONG-k), and carries half the paths of the pairs (2) on each side of it */
  for (k = 0; k <= LONG; k++) { double want = 2.0 * (3 * k) * (3 * (LONG - k)) + (k > 0) * 1.0 + (k < LONG) * 1.0; double d = nd[3 * k]->dvar1 - want; sym_assert(d < 1e-6 * (1 + want) && d > -1e-6 * (1 + want), "betweenness of a node"); }
  RemoveGraph(net); sym_reach("end");
}
