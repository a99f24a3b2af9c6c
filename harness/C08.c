/* C08: distances and their averages. */
#include "hxd.h"
#ifndef NN
#define NN 4
#endif
static double field(FILE *f, const char *a, const char *b) { char w[64]; double v = -1; int c = 0; /* "#a [b] = v" */ c = fscanf(f, "%63s", w); sym_assert(c == 1 && !strcmp(w, a), "the named quantity is printed"); if (b) { c = fscanf(f, "%63s", w); sym_assert(c == 1 && !strcmp(w, b), "the named quantity is printed"); } c = fscanf(f, "%63s", w); c = fscanf(f, "%lf", &v); sym_assert(c == 1, "a number is printed"); return v; }
static int near(double a, double b) { return a - b < 1e-6 && b - a < 1e-6; }
static void all(Ref *r, int undirected) {
  int d[HXM][HXM], i, j, k, n = r->n, con = 1, b0; double sum = 0, inv = 0, freq[HXM] = {0}, av; FILE *f; hx_dist(r, d);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) { if (d[i][j] >= HXINF) con = 0; else { sum += d[i][j]; inv += 1.0 / d[i][j]; freq[d[i][j]] += 1.0 / (n * (n - 1)); } }
  int rev = sym_bool("rev"); struct node_gra *net = hx_build(r, rev); 
  f = fopen("hist", "w"); fputs("x", f); fclose(f); b0 = sym_live_blocks();
  av = AveragePathLength(net); if (!con) { sym_assert(av == -1, "an unconnected network has no average path length"); sym_reach("unconnected"); } else { sym_assert_eq(av, n > 1 ? sum / (n * (n - 1)) : 0, "average path length"); sym_reach("connected"); }
  sym_assert_eq(AverageInverseDistance(net), n > 1 ? inv / (n * (n - 1)) : 0, "average inverse path length");
  if (undirected) sym_assert(IsGraphConnected(net) == con, "connected exactly when every pair is joined by a path");
  for (k = 0; k < n; k++) { double s = 0; int z = 0; for (j = 0; j < n; j++) if (j != k && d[k][j] < HXINF) { s += d[k][j]; z += d[k][j] == 1; }
    f = fopen("hist", "w"); FPrintDistanceHistogramFromNode(f, net, k); fclose(f);
    f = fopen("hist", "r"); sym_assert(near(field(f, "#Average", "distance"), n > 1 ? s / (n - 1) : 0), "average distance from a node"); sym_assert(near(field(f, "#z", NULL), z), "number of nodes at distance one"); fclose(f); }
  f = fopen("hist", "w"); FPrintDistanceHistogram(f, net); fclose(f);
  f = fopen("hist", "r"); for (k = 1; k < n; k++) if (freq[k] > 0) { int dd = -1; double p = -1; sym_assert(fscanf(f, "%d %lf", &dd, &p) == 2 && dd == k && near(p, freq[k]), "fraction of pairs at a distance"); } sym_assert(near(field(f, "#Average", "distance"), n > 1 ? sum / (n * (n - 1)) : 0), "average distance"); fclose(f);
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory");
  hx_same(net, r, hx_lab, 0); RemoveGraph(net); sym_reach("end");
}
void h_undirected(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); all(&r, 1); }
void h_selflinks(void) { Ref r; hx_any_undirected(&r, NN, 1, 0); all(&r, 1); }
void h_directed(void) { Ref r; hx_any_directed(&r, NN, 0, 0); all(&r, 0); }
void h_family(void) { Ref r; hx_family(&r, 0, 1); all(&r, 1); }
void h_familydir(void) { Ref r; hx_family(&r, 1, 1); all(&r, 0); }
#if HXM >= 18
/* a path of 18 nodes, whole or with one more link, or cut */
void h_path(void) { Ref r; int i, j, dir = sym_bool("directed"), x; hx_clear(&r, 18); for (i = 0; i < 17; i++) { r.a[i][i + 1] = 1; r.w[i][i + 1] = 1; } if (dir && sym_bool("closed")) r.a[17][0] = r.w[17][0] = 1; if ((x = sym_pick(0, 3, "cut")) > 0) r.a[x * 5 - 4][x * 5 - 3] = 0; if (sym_bool("chord")) { i = 4 * sym_pick(0, 4, "from"); j = 17 - 5 * sym_pick(0, 3, "to"); if (i != j) r.a[i][j] = r.w[i][j] = 1; } if (!dir) for (i = 0; i < 18; i++) for (j = 0; j < 18; j++) if (r.a[i][j]) { r.a[j][i] = 1; r.w[i][j] = r.w[j][i] = 1; } all(&r, !dir); }
#endif
/* BFS layers and their shortest-path predecessors */
void h_bfs(void) {
  Ref r; int d[HXM][HXM], i, j, b0; if (sym_bool("directed")) hx_any_directed(&r, 3, 0, 0); else hx_any_undirected(&r, NN, 0, 0); hx_dist(&r, d);
  struct node_gra *net = hx_build(&r, sym_bool("rev")); b0 = sym_live_blocks(); i = sym_pick(0, r.n - 1, "from");
  struct node_bfs *list = CreateHeaderList(), *lp = list, *q; int size = 0, ant, dd = 0, seen[HXM] = {0}; ResetNodesState(net); Enqueue(hx_nd[i], list, list, &size, 0);
  do { ant = size; lp = RenewQueue(list, lp, &size, dd); dd++; } while (size != ant);
  for (q = list->next; q; q = q->next) { struct pred *p; int c = 0, want = 0, pk[HXM] = {0}; for (j = 0; hx_nd[j] != q->ref; j++) ; sym_assert(!seen[j], "a search visits a node once"); seen[j] = 1; sym_assert(q->d == d[i][j], "the distance of a visited node");
    for (int k = 0; k < r.n; k++) want += d[i][k] + 1 == d[i][j] && r.a[k][j]; if (j != i) { for (p = q->pred; p; p = p->next) { int k; c++; for (k = 0; hx_nd[k] != p->ref->ref; k++) ; sym_assert(!pk[k] && r.a[k][j] && d[i][k] + 1 == d[i][j], "predecessors lie on shortest paths"); pk[k] = 1; } sym_assert(c == want && CountPredecessors(q) == want, "every shortest-path predecessor is recorded once"); } }
  for (j = 0; j < r.n; j++) sym_assert(seen[j] == (d[i][j] < HXINF), "a search visits exactly the reachable nodes"); ClearList(list, &size); sym_assert(size == 0 && list->next == NULL, "a cleared queue is empty"); free(list); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
#ifndef LONG
#define LONG 10002
#endif
/* a path longer than any fixed table */
void h_long(void) {
  struct node_gra *net = CreateHeaderGraph(), *last = net, *prev; int i, dir = sym_bool("directed"); FILE *f = fopen("hist", "w"); sym_step_limit(2000000000L);
  for (i = 0; i < LONG; i++) { char l[12]; sprintf(l, "%d", i); prev = last; last = CreateNodeGraph(last, l); if (i) AddAdjacency(prev, last, 0, 0, 1, 0), dir ? 0 : AddAdjacency(last, prev, 0, 0, 1, 0); }
  FPrintDistanceHistogramFromNode(f, net, 0); fclose(f); f = fopen("hist", "r"); sym_assert(near(field(f, "#Average", "distance"), LONG / 2.0), "average distance from a node"); fclose(f); sym_reach("end");
}
