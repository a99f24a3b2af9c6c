/* Array-based partitions (partition.c): reference assignment, construction and the validity check. */
#ifndef HXQ_H
#define HXQ_H
#include "hxp.h"
#include "partition.h"
#include "io.h"
#include "fillpartitions.h"
#include "sannealing.h"
#include "movements.h"
/* weighted edges of a network in edge-list form */
typedef struct { int n, e; unsigned int a[32], b[32]; double w[32]; } QEdges;
static inline double hxq_w(QEdges *q, int i, int j) { double s = 0; int k; for (k = 0; k < q->e; k++) if ((q->a[k] == (unsigned)i && q->b[k] == (unsigned)j) || (q->a[k] == (unsigned)j && q->b[k] == (unsigned)i)) s += q->w[k]; return s; }
/* any network of n nodes: every pair linked or not, the ends in either order, weights symbolic when wsw */
static inline void hxq_any(QEdges *q, int n, int self, int wsw) {
  int i, j; q->n = n; q->e = 0; int flip = sym_bool("flip");
  for (i = 0; i < n; i++) for (j = self ? i : i + 1; j < n; j++) if (sym_bool("link")) { int k = q->e++; q->a[k] = flip ? j : i; q->b[k] = flip ? i : j; q->w[k] = wsw ? sym_real(0.25, 8, "w") : 1; }
}
/* the edges of an undirected network */
static inline void hxq_of(QEdges *q, Ref *r) { int i, j, flip = sym_bool("flip"); q->n = r->n; q->e = 0; for (i = 0; i < r->n; i++) for (j = i; j < r->n; j++) if (r->a[i][j]) { int k = q->e++; q->a[k] = flip ? j : i; q->b[k] = flip ? i : j; q->w[k] = r->w[i][j]; } }
static inline Partition *hxq_build(QEdges *q, int m, AdjaArray **adj, int norm) {
  Partition *p = CreatePartition(q->n, m); *adj = CreateAdjaArray(q->n, q->e);
  EdgeListToAdjaArray((int *)q->a, (int *)q->b, q->w, *adj, p, norm); return p;
}
/* place node i in module g[i] using only public operations: everything starts in module 0 as a chain */
static inline void hxq_place(Partition *p, int *g, int rev) {
  int i, k; 
  for (k = 0; k < (int)p->N; k++) { i = rev ? (int)p->N - 1 - k : k; Module *m = p->modules[g[i]]; Node *nd = p->nodes[i];
    nd->module = g[i]; nd->next = NULL; nd->prev = m->last; if (m->last) m->last->next = nd; else { m->first = nd; p->nempty--; } m->last = nd; m->size++; m->strength += nd->strength; }
}
/* the partition is consistent and groups exactly as g does */
static inline void hxq_valid(Partition *p, int *g, double *k, int sameids) {
  unsigned int i, j, empty = 0; int seen[HXM] = {0}, owner[HXM], n = (int)p->N; 
  for (j = 0; j < p->M; j++) {
    Module *m = p->modules[j]; Node *nd, *prev = NULL; unsigned int c = 0; double s = 0;
    sym_assert(m->id == j, "a module knows its own index");
    for (nd = m->first; nd != NULL; nd = nd->next) {
      sym_assert(c < p->N, "walking a module ends");
      sym_assert(nd->prev == prev, "a module's list is doubly linked"); sym_assert(nd->id < p->N && p->nodes[nd->id] == nd, "a module lists the partition's own nodes");
      sym_assert(!seen[nd->id], "a node is listed once"); seen[nd->id] = 1; owner[nd->id] = (int)j;
      sym_assert(nd->module == j, "a node records the module that lists it");
      s += nd->strength; prev = nd; c++;
    }
    sym_assert(m->last == prev, "a module's last node"); sym_assert(m->size == c, "a module's size equals its number of nodes"); sym_assert_eq(m->strength, s, "a module's strength equals the strength of its nodes");
    if (!c) empty++;
  }
  sym_assert(p->nempty == empty, "number of empty modules");
  for (i = 0; i < p->N; i++) { sym_assert(seen[i], "every node is in a module"); sym_assert(p->nodes[i]->id == i, "node index"); if (k) sym_assert_eq(p->nodes[i]->strength, k[i], "node strength"); }
  if (g) for (i = 0; (int)i < n; i++) for (j = 0; (int)j < n; j++) { sym_assert((g[i] == g[j]) == (owner[i] == owner[j]), "nodes are grouped together exactly when they should be"); }
  if (g && sameids) for (i = 0; (int)i < n; i++) sym_assert(owner[i] == g[i], "a node is in the module it was put in");
}
/* reference modularity: sum over ordered pairs of different nodes of a module of A_ij - k_i k_j (minus k_i^2 with the diagonal) */
static inline double hxq_mod(QEdges *q, int *g, double *k, int diag) { int i, j; double s = 0; for (i = 0; i < q->n; i++) for (j = i + 1; j < q->n; j++) if (g[i] == g[j]) s += 2 * (hxq_w(q, i, j) - k[i] * k[j]); if (diag) for (i = 0; i < q->n; i++) s -= k[i] * k[i]; return s; }
/* components of the subnetwork of the nodes with g == m; returns their number, comp[i] numbered in order of first node */
static inline int hxq_comps(QEdges *q, int *g, int m, int *comp) {
  int i, j, c = 0, ch; for (i = 0; i < q->n; i++) comp[i] = -1;
  for (i = 0; i < q->n; i++) if (g[i] == m && comp[i] < 0) { comp[i] = c; do { ch = 0; for (j = 0; j < q->e; j++) { int a = q->a[j], b = q->b[j]; if (g[a] == m && g[b] == m && (comp[a] == c) != (comp[b] == c)) { comp[a] = comp[b] = c; ch = 1; } } } while (ch); c++; }
  return c;
}
#endif
