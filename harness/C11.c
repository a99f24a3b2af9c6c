/* C11: local statistics. */
#include "hxd.h"
#ifndef NN
#define NN 4
#endif
static int D[HXM][HXM];
static int adj(Ref *r, int i, int j) { return i != j && r->a[i][j]; }
static int deg(Ref *r, int i) { int j, c = 0; for (j = 0; j < r->n; j++) c += adj(r, i, j); return c; }
static int tri(Ref *r, int i) { int j, k, c = 0; for (j = 0; j < r->n; j++) for (k = 0; k < r->n; k++) c += adj(r, i, j) && adj(r, i, k) && adj(r, j, k); return c; }
/* squares: pairs of paths of two links to nodes two steps away */
static double sq(Ref *r, int i, int *k2) { int j, k, c = 0; *k2 = 0; for (j = 0; j < r->n; j++) if (D[i][j] == 2) { int npre = 0; for (k = 0; k < r->n; k++) npre += adj(r, i, k) && adj(r, k, j); c += npre * (npre - 1); (*k2)++; } return c; }
static void clustering(Ref *r) {
  int i, n = r->n, cnt = 0, sc = 0, t = 0, tt = 0; double C = 0, S = 0; hx_dist(r, D); struct node_gra *net = hx_build(r, sym_bool("rev")); int b0 = sym_live_blocks();
  for (i = 0; i < n; i++) { int k = deg(r, i), k2; double c = sq(r, i, &k2), one = OneNodeClusteringCoefficient(hx_nd[i], net);
    if (k > 1) { sym_assert_eq(one, (double)tri(r, i) / (k * (k - 1)), "clustering coefficient of a node"); sym_assert(one >= 0 && one <= 1, "clustering coefficients lie between zero and one"); C += one; cnt++; t += tri(r, i); tt += k * (k - 1); } else sym_assert(one == -1, "a node with fewer than two neighbours has no clustering coefficient");
    one = OneNodeSquareClustering(hx_nd[i], net); if (k == 0 && !r->a[i][i]) sym_assert(one == -1, "a node without neighbours has no square clustering"); else if (k2 == 0) sym_assert(one == -3, "a node without second neighbours has no square clustering"); else if (k == 1) sym_assert(one == -2, "a node with one neighbour has no square clustering"); else { sym_assert_eq(one, c / ((double)k2 * k * (k - 1)), "square clustering of a node"); sym_assert(one >= 0 && one <= 1, "clustering coefficients lie between zero and one"); S += one; sc++; sym_reach("square"); } }
  if (cnt) { sym_assert_eq(ClusteringCoefficient(net), C / cnt, "clustering coefficient"); sym_assert_eq(ClusteringCoefficient2(net), (double)t / tt, "fraction of closed triplets"); sym_reach("triplets"); }
  if (n == 1) sym_assert(SquareClustering(net) == -1, "a single node has no square clustering"); else if (sc) sym_assert_eq(SquareClustering(net), S / sc, "square clustering");
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hx_same(net, r, hx_lab, 0); RemoveGraph(net); sym_reach("end");
}
void h_clustering(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); clustering(&r); }
void h_selflinks(void) { Ref r; hx_any_undirected(&r, NN, 1, 0); clustering(&r); }
static void pairs(Ref r) {
  int i, j, k, n = r.n; struct node_gra *net = hx_build(&r, sym_bool("rev")); int b0 = sym_live_blocks();
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) { int com = 0, un = 0, m = deg(&r, i) < deg(&r, j) ? deg(&r, i) : deg(&r, j); double v;
    for (k = 0; k < n; k++) { com += adj(&r, i, k) && adj(&r, j, k); un += k != i && k != j && (adj(&r, i, k) || adj(&r, j, k)); }
    sym_assert(CommonNeighbors(hx_nd[i], hx_nd[j]) == com, "number of common neighbours"); v = JaccardIndex(hx_nd[i], hx_nd[j]); sym_assert_eq(v, com ? (double)com / un : 0, "Jaccard index"); sym_assert(v >= 0 && v <= 1, "similarities lie between zero and one");
    if (m) { v = TopologicalOverlap(hx_nd[i], hx_nd[j]); sym_assert_eq(v, (double)(com + adj(&r, i, j)) / m, "topological overlap"); sym_assert(v >= 0 && v <= 1, "similarities lie between zero and one"); sym_reach("overlap"); } }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
static void degrees(Ref r) {
  int i, j, n = r.n, two = 0, k2 = 0; double M = 0, jk = 0, s = 0, s2 = 0; struct node_gra *net = hx_build(&r, sym_bool("rev")); int b0 = sym_live_blocks();
  for (i = 0; i < n; i++) { int k = deg(&r, i), t = 0; two += k; k2 += k * k; for (j = 0; j < n; j++) if (adj(&r, i, j)) { t += deg(&r, j); M++; jk += k * deg(&r, j); s += k; s2 += k * k; } if (k) sym_assert_eq(CalculateKnn(hx_nd[i]), (double)t / k, "average degree of a node's neighbours"); }
  sym_assert_eq(AverageDegree(net, 0), (double)two / n, "average degree"); sym_assert_eq(AverageDegree(net, 1), (double)two / n, "average degree"); sym_assert_eq(AverageSquaredDegree(net), (double)k2 / n, "average squared degree"); sym_assert(TotalNLinks(net, 1) * 2 == two, "number of links");
  if (M > 0 && s2 / M != (s / M) * (s / M)) { double a = Assortativity(net); sym_assert_eq(a, (jk / M - (s / M) * (s / M)) / (s2 / M - (s / M) * (s / M)), "assortativity"); sym_assert(a >= -1 && a <= 1, "assortativity lies between minus one and one"); sym_reach("assortativity"); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
void h_pairs(void) { Ref r; hx_any_undirected(&r, sym_pick(2, NN, "n"), 0, 0); pairs(r); }
void h_degrees(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); degrees(r); }
void h_family(void) { Ref r; hx_family(&r, 0, 1); clustering(&r); }
void h_familypairs(void) { Ref r; hx_family(&r, 0, 1); pairs(r); }
void h_familydegrees(void) { Ref r; hx_family(&r, 0, 1); degrees(r); }
/* degrees whose squares do not fit in an int */
void h_star(void) {
  struct node_gra *net = CreateHeaderGraph(), *last = net, *hub = NULL; int i, n = 50001; double d; struct node_lis *l; sym_step_limit(1000000000L);
  for (i = 0; i < n; i++) { char b[12]; sprintf(b, "%d", i); last = CreateNodeGraph(last, b); if (!i) { hub = last; l = hub->neig; } else { AddAdjacency(last, hub, 0, 0, 1, 0); l->next = calloc(1, sizeof *l); l = l->next; l->ref = last; l->node = i; l->nodeLabel = last->label; l->weight = 1; } }
  d = AverageSquaredDegree(net) - (2500000000.0 + 50000) / n; sym_assert(d < 1e-3 && d > -1e-3, "average squared degree"); d = Assortativity(net) + 1; sym_assert(d < 1e-6 && d > -1e-6, "assortativity"); sym_reach("end");
}
