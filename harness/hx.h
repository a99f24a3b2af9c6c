/* Shared harness helpers: reference networks as matrices, and the same networks built through the public API. */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gsl/gsl_rng.h>
#include "tools.h"
#include "graph.h"
#include "sym.h"
#ifndef HXM
#define HXM 8
#endif
typedef struct { int n; int a[HXM][HXM]; double w[HXM][HXM]; } Ref;
#ifdef HX_ODD /* labels as long as they may be, and with the characters of a format */
#define HX_LONG "node_with_a_label_of_ninety_nine_characters_that_only_the_last_one_tells_apart_from_another_label_"
static const char *hx_lab[] = {"n0", HX_LONG "1", "50%d%s", HX_LONG "3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23"};
#else
static const char *hx_lab[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23"};
#endif
static struct node_gra *hx_nd[HXM];
static inline void hx_clear(Ref *r, int n) { int i, j; r->n = n; for (i = 0; i < HXM; i++) for (j = 0; j < HXM; j++) { r->a[i][j] = 0; r->w[i][j] = 0; } }
/* any undirected network on n nodes (self: with self-links allowed); weights symbolic when wsw */
static inline void hx_any_undirected(Ref *r, int n, int self, int wsw) {
  int i, j; hx_clear(r, n);
  for (i = 0; i < n; i++) for (j = self ? i : i + 1; j < n; j++) if (sym_bool("link")) {
    double w = wsw ? sym_real(0.25, 8, "w") : 1; r->a[i][j] = r->a[j][i] = 1; r->w[i][j] = r->w[j][i] = w; }
}
static inline void hx_any_directed(Ref *r, int n, int self, int wsw) {
  int i, j; hx_clear(r, n);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if ((self || i != j) && sym_bool("arc")) { r->a[i][j] = 1; r->w[i][j] = wsw ? sym_real(0.25, 8, "w") : 1; }
}
#ifndef HX_TG
#define HX_TG 5
#endif
/* eight nodes: a path, a ring, a star, two cliques joined by a link, a ladder, a bipartite clique with a loose node, a wheel or nothing, and any subset of five further pairs toggled; directed: the links of the frame point forwards, a toggled pair backwards */
static inline void hx_tog(Ref *r, int i, int j, double w, int dir) { if (dir) { int t = i; i = j; j = t; } r->a[i][j] = !r->a[i][j]; r->w[i][j] = r->a[i][j] ? w : 0; if (!dir) { r->a[j][i] = r->a[i][j]; r->w[j][i] = r->w[i][j]; } }
static inline void hx_put(Ref *r, int i, int j, double w, int dir) { r->a[i][j] = 1; r->w[i][j] = w; if (!dir) { r->a[j][i] = 1; r->w[j][i] = w; } }
static inline void hx_family(Ref *r, int dir, int wsw) {
  static const double hx_wt[8] = {0.5, 1.25, 2, 0.75, 3, 1, 0.125, 5}; static const int tg[5][2] = {{0, 2}, {1, 6}, {3, 7}, {2, 5}, {0, 4}}; int i, j, k, f = sym_pick(0, 7, "frame"), c = 0;
#define HX_W (wsw ? hx_wt[c++ % 8] : 1)
  hx_clear(r, 8);
  if (f == 0 || f == 1) { for (i = 0; i < 7; i++) hx_put(r, i, i + 1, HX_W, dir); if (f) hx_put(r, 7, 0, HX_W, dir); }
  if (f == 2 || f == 6) for (i = 1; i < 8; i++) hx_put(r, 0, i, HX_W, dir); if (f == 6) { for (i = 1; i < 7; i++) hx_put(r, i, i + 1, HX_W, dir); hx_put(r, 7, 1, HX_W, dir); }
  if (f == 3) { for (k = 0; k < 8; k += 4) for (i = 0; i < 4; i++) for (j = i + 1; j < 4; j++) hx_put(r, k + i, k + j, HX_W, dir); hx_put(r, 3, 4, HX_W, dir); }
  if (f == 4) for (i = 0; i < 4; i++) { hx_put(r, i, i + 4, HX_W, dir); if (i < 3) { hx_put(r, i, i + 1, HX_W, dir); hx_put(r, i + 4, i + 5, HX_W, dir); } }
  if (f == 5) for (i = 0; i < 3; i++) for (j = 3; j < 7; j++) hx_put(r, i, j, HX_W, dir);
  for (k = 0; k < HX_TG; k++) if (sym_bool("toggled")) hx_tog(r, tg[k][0], tg[k][1], HX_W, dir);
}
/* leave the traces of earlier computations in a network (numbers of groups, marks, scratch values, cached sums) */
static inline void hx_used(struct node_gra *net, int cached) {
  struct node_gra *p; struct node_lis *l;
  for (p = net->next; p; p = p->next) { p->state = 1; p->ivar1 = 3; p->dvar1 = 2.5; p->inGroup = 1; p->trans = 2; for (l = p->neig->next; l; l = l->next) l->btw = 4; if (cached) { NodeDegree(p); NodeStrength(p); } }
}
/* build it; rev: links entered in reverse order */
static inline struct node_gra *hx_build(Ref *r, int rev) {
  struct node_gra *root = CreateHeaderGraph(), *last = root; int i, j, k, n = r->n;
  for (i = 0; i < n; i++) { char l[104]; strcpy(l, hx_lab[i]); last = hx_nd[i] = CreateNodeGraph(last, l); }
  for (k = 0; k < n * n; k++) { int q = rev ? n * n - 1 - k : k; i = q / n; j = q % n; if (r->a[i][j]) AddAdjacency(hx_nd[i], hx_nd[j], 1, 0, r->w[i][j], 0); }
  hx_used(root, rev);
  return root;
}
static inline int hx_deg(Ref *r, int i) { int j, d = 0; for (j = 0; j < r->n; j++) d += r->a[i][j]; return d; }
static inline double hx_str(Ref *r, int i) { int j; double s = 0; for (j = 0; j < r->n; j++) if (r->a[i][j]) s += r->w[i][j]; return s; }
static inline int hx_nlinks(Ref *r) { int i, d = 0; for (i = 0; i < r->n; i++) d += hx_deg(r, i); return d; }
/* the network hanging from net has exactly the nodes/links of r; node i of r is the one labelled lab[i] */
static inline struct node_gra *hx_find(struct node_gra *net, const char *lab) { struct node_gra *p = net, *f = NULL; while ((p = p->next) != NULL) if (!strcmp(p->label, lab)) { sym_assert(f == NULL, "a label names one node only"); f = p; } return f; }
static inline void hx_same(struct node_gra *net, Ref *r, const char **lab, int weights) {
  int i, j, cnt = 0; struct node_gra *p, *nd[HXM];
  for (p = net->next; p != NULL; p = p->next) { sym_assert(p->num == cnt, "nodes are numbered consecutively"); cnt++; }
  sym_assert(cnt == r->n, "the network has exactly the expected nodes");
  for (i = 0; i < r->n; i++) { nd[i] = hx_find(net, lab[i]); sym_assert(nd[i] != NULL, "every expected label is present"); }
  for (i = 0; i < r->n; i++) {
    int seen[HXM] = {0}; struct node_lis *l = nd[i]->neig;
    while ((l = l->next) != NULL) {
      for (j = 0; j < r->n && l->ref != nd[j]; j++) ;
      sym_assert(j < r->n, "links point to nodes of the network");
      sym_assert(!seen[j], "no pair is linked twice"); seen[j] = 1;
      sym_assert(r->a[i][j], "no link that should not be there");
      sym_assert(l->node == nd[j]->num && !strcmp(l->nodeLabel, lab[j]), "links carry the number and label of the node they point to");
      if (weights) sym_assert_eq(l->weight, r->w[i][j], "link weight");
    }
    for (j = 0; j < r->n; j++) sym_assert(seen[j] == r->a[i][j], "every expected link is present");
  }
}
static inline void hx_counts(struct node_gra *net, Ref *r, const char **lab, int symm) {
  int i; for (i = 0; i < r->n; i++) { struct node_gra *p = hx_find(net, lab[i]); sym_assert((int)NodeDegree(p) == hx_deg(r, i), "node degree"); sym_assert_eq(NodeStrength(p), hx_str(r, i), "node strength"); }
  sym_assert(TotalNLinks(net, 0) == hx_nlinks(r), "total number of link ends");
  sym_assert(CountNodes(net) == r->n, "number of nodes");
}
#endif
