/* Partitions of reference networks into groups of the list-based library. */
#ifndef HXP_H
#define HXP_H
#include "hx.h"
#include "modules.h"
/* any partition of n nodes (restricted growth); returns the number of groups */
static inline int hx_any_part(int *g, int n, int maxg) { int i, m = 0; for (i = 0; i < n; i++) { int hi = m < maxg ? m : maxg - 1; g[i] = sym_pick(0, hi, "group"); if (g[i] == m) m++; } return m; }
/* groups labelled label[k] (k when NULL) with their nodes added in order (reverse order when rev) */
static struct group *hx_gr[HXM];
static inline struct group *hx_build_part(int *g, int n, int ng, int rev) {
  struct group *p = CreateHeaderGroup(); int i, k; for (k = 0; k < ng; k++) hx_gr[k] = CreateGroup(p, k);
  for (k = 0; k < n; k++) { i = rev ? n - 1 - k : k; if (g[i] >= 0) AddNodeToGroup(hx_gr[g[i]], hx_nd[i]); }
  return p;
}
/* reference counts of group k */
static inline int hx_gin(Ref *r, int *g, int k) { int i, j, c = 0; for (i = 0; i < r->n; i++) for (j = i + 1; j < r->n; j++) if (g[i] == k && g[j] == k) c += r->a[i][j]; return c; }
static inline int hx_gtot(Ref *r, int *g, int k) { int i, j, c = 0; for (i = 0; i < r->n; i++) for (j = i + 1; j < r->n; j++) if (g[i] == k || g[j] == k) c += r->a[i][j]; return c; }
static inline double hx_ginw(Ref *r, int *g, int k) { int i, j; double c = 0; for (i = 0; i < r->n; i++) for (j = i + 1; j < r->n; j++) if (g[i] == k && g[j] == k && r->a[i][j]) c += r->w[i][j]; return c; }
static inline double hx_gtotw(Ref *r, int *g, int k) { int i, j; double c = 0; for (i = 0; i < r->n; i++) for (j = i + 1; j < r->n; j++) if ((g[i] == k || g[j] == k) && r->a[i][j]) c += r->w[i][j]; return c; }
static inline void hx_group_counts(struct group *q, Ref *r, int *g, int k) {
  sym_assert(q->totlinks == hx_gtot(r, g, k), "links of a group"); sym_assert(q->inlinks == hx_gin(r, g, k), "links inside a group"); sym_assert(q->outlinks == q->totlinks - q->inlinks, "links leaving a group");
  sym_assert_eq(q->totlinksW, hx_gtotw(r, g, k), "weight of the links of a group"); sym_assert_eq(q->inlinksW, hx_ginw(r, g, k), "weight of the links inside a group"); sym_assert_eq(q->outlinksW, hx_gtotw(r, g, k) - hx_ginw(r, g, k), "weight of the links leaving a group");
}
/* group q holds exactly the nodes i with g[i]==k; hard: entries point to nodes nd[i] */
static inline void hx_group_nodes(struct group *q, int *g, int n, int k, struct node_gra **nd, const char **lab, int hard) {
  int i, c = 0, seen[HXM] = {0}; struct node_lis *p = q->nodeList;
  while ((p = p->next) != NULL) {
    for (i = 0; i < n && strcmp(p->nodeLabel, lab[i]); i++) ;
    sym_assert(i < n, "a group holds nodes of the network only"); sym_assert(!seen[i], "a node is in a group once"); seen[i] = 1; c++;
    sym_assert(g[i] == k, "a group holds no node of another group");
    if (hard) sym_assert(p->ref == nd[i] && p->node == nd[i]->num, "group entries point to their nodes");
  }
  for (i = 0; i < n; i++) sym_assert(seen[i] == (g[i] == k), "a group holds all its nodes");
  sym_assert(q->size == c, "size of a group");
}
#endif
