/* Bipartite reference networks. */
#ifndef HXB_H
#define HXB_H
#include "hx.h"
#include "bipartite.h"
typedef struct { int n, m; int a[HXM][HXM]; double w[HXM][HXM]; } BRef;
#ifdef HX_ODD
static const char *hxb_l1[HXM] = {HX_LONG "a", "50%d%s", "a2", "a3", "a4", "a5", "a6", "a7"}, *hxb_l2[HXM] = {"b0", HX_LONG "b", "%n%s", "b3", "b4", "b5", "b6", "b7"};
#else
static const char *hxb_l1[HXM] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"}, *hxb_l2[HXM] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"};
#endif
static struct node_gra *hxb_1[HXM], *hxb_2[HXM];
static inline void hxb_clear(BRef *r, int n, int m) { int i, j; r->n = n; r->m = m; for (i = 0; i < HXM; i++) for (j = 0; j < HXM; j++) { r->a[i][j] = 0; r->w[i][j] = 0; } }
static inline void hxb_any(BRef *r, int n, int m, int wsw) {
  int i, j; hxb_clear(r, n, m); for (i = 0; i < n; i++) for (j = 0; j < m; j++) if (sym_bool("link")) { r->a[i][j] = 1; r->w[i][j] = wsw ? sym_real(0.25, 8, "w") : 1; }
}
/* six and five nodes: a ring-like chain, a node of the first (second) set linked to all, everything linked, two blocks or nothing, and any subset of four pairs toggled */
#ifndef HXB_TG
#define HXB_TG 4
#endif
static inline void hxb_family(BRef *r, int wsw) {
  static const double wt[7] = {0.5, 1.25, 2, 0.75, 3, 1, 5}; static const int tg[4][2] = {{0, 3}, {5, 1}, {2, 4}, {3, 0}}; int i, j, k, f = sym_pick(0, 5, "frame"), c = 0; hxb_clear(r, 6, 5);
  for (i = 0; i < 6; i++) for (j = 0; j < 5; j++) { int l = f == 0 ? j == i || j == (i + 1) % 5 : f == 1 ? i == 1 : f == 2 ? j == 2 : f == 3 ? 1 : f == 4 ? (i < 3) == (j < 2) : 0; if (l) { r->a[i][j] = 1; r->w[i][j] = wsw ? wt[c++ % 7] : 1; } }
  for (k = 0; k < HXB_TG; k++) if (sym_bool("toggled")) { i = tg[k][0]; j = tg[k][1]; r->a[i][j] = !r->a[i][j]; r->w[i][j] = r->a[i][j] ? (wsw ? wt[c++ % 7] : 1) : 0; }
}
static inline struct binet *hxb_build(BRef *r, int rev) {
  struct binet *b = CreateBipart(); struct node_gra *l; int i, j, k; char s[104];
  b->net1 = l = CreateHeaderGraph(); for (i = 0; i < r->n; i++) { strcpy(s, hxb_l1[i]); l = hxb_1[i] = CreateNodeGraph(l, s); }
  b->net2 = l = CreateHeaderGraph(); for (i = 0; i < r->m; i++) { strcpy(s, hxb_l2[i]); l = hxb_2[i] = CreateNodeGraph(l, s); }
  for (k = 0; k < r->n * r->m; k++) { int q = rev ? r->n * r->m - 1 - k : k; i = q / r->m; j = q % r->m; if (r->a[i][j]) { AddAdjacency(hxb_1[i], hxb_2[j], 0, 0, r->w[i][j], 0); AddAdjacency(hxb_2[j], hxb_1[i], 0, 0, r->w[i][j], 0); } }
  hx_used(b->net1, rev); hx_used(b->net2, rev);
  return b;
}
static inline int hxb_nlinks(BRef *r) { int i, j, c = 0; for (i = 0; i < r->n; i++) for (j = 0; j < r->m; j++) c += r->a[i][j]; return c; }
static inline void hxb_side(struct node_gra *net, struct node_gra *oth, BRef *r, int side, const char **lab, const char **olab, int weights) {
  int n = side == 1 ? r->n : r->m, m = side == 1 ? r->m : r->n, i, j, c = 0; struct node_gra *p, *nd[HXM], *od[HXM];
  for (p = net->next; p; p = p->next) { sym_assert(p->num == c, "nodes of a set are numbered consecutively"); c++; }
  sym_assert(c == n, "each set has exactly the expected nodes");
  for (i = 0; i < n; i++) { nd[i] = hx_find(net, lab[i]); sym_assert(nd[i] != NULL, "every expected label is present in its set"); }
  for (j = 0; j < m; j++) { od[j] = hx_find(oth, olab[j]); sym_assert(od[j] != NULL, "every expected label is present in the other set"); }
  for (i = 0; i < n; i++) {
    int seen[HXM] = {0}, d = 0; double s = 0; struct node_lis *l = nd[i]->neig;
    while ((l = l->next) != NULL) {
      for (j = 0; j < m && l->ref != od[j]; j++) ;
      sym_assert(j < m, "links go to the other set only"); sym_assert(!seen[j], "no pair is linked twice"); seen[j] = 1;
      int a = side == 1 ? r->a[i][j] : r->a[j][i]; double w = side == 1 ? r->w[i][j] : r->w[j][i];
      sym_assert(a, "no link that should not be there");
      sym_assert(l->node == od[j]->num && !strcmp(l->nodeLabel, olab[j]), "links carry the number and label of the node they point to");
      if (weights) sym_assert_eq(l->weight, w, "link weight");
    }
    for (j = 0; j < m; j++) { int a = side == 1 ? r->a[i][j] : r->a[j][i]; sym_assert(seen[j] == a, "every expected link is present on both sides"); d += a; if (a) s += side == 1 ? r->w[i][j] : r->w[j][i]; }
    sym_assert((int)NodeDegree(nd[i]) == d, "node degree"); if (weights) sym_assert_eq(NodeStrength(nd[i]), s, "node strength");
  }
}
static inline void hxb_same(struct binet *b, BRef *r, const char **l1, const char **l2, int weights) {
  hxb_side(b->net1, b->net2, r, 1, l1, l2, weights); hxb_side(b->net2, b->net1, r, 2, l2, l1, weights);
  sym_assert(NLinksBipart(b) == hxb_nlinks(r), "number of links");
}
#endif
