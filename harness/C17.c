/* C17: module search. */
#include "hxq.h"
#ifndef WW
#define WW 4
#endif
#ifndef SPAN
#define SPAN 40
#endif
#ifndef KLO
#define KLO 0
#define KHI 1
#endif
#ifndef SEEDS
#define SEEDS 1
#endif
static AdjaArray *gadj; static double gstart, gbest; static int gsweeps; static double ks[HXM];
static void valid(Partition *p, int n) { int i, g[HXM]; sym_assert(p != NULL, "the search returns a partition"); sym_assert((int)p->N == n, "the partition has all nodes"); for (i = 0; i < n; i++) g[i] = p->nodes[i]->module; hxq_valid(p, g, ks, 0); }
void rgraph_verif_sa_sweep(Partition *part, double E) {
  double m = PartitionModularity(part, gadj, 0); valid(part, (int)part->N);
  sym_assert_eq(gstart + E, m, "the running energy is the gain over the first partition"); if (m > gbest) gbest = m; gsweeps++; }
static void net(QEdges *q, int kind) {
  static const unsigned A[6][8] = {{0}, {0, 1}, {0, 2}, {0, 1, 2, 0}, {0, 1, 2, 1}, {0, 0, 1, 2, 3, 3, 4}}, B[6][8] = {{1}, {1, 2}, {1, 3}, {1, 2, 3, 3}, {1, 2, 0, 3}, {1, 2, 2, 3, 4, 5, 5}};
  static const int nn[6] = {2, 3, 4, 4, 4, 6}, ee[6] = {1, 2, 2, 4, 4, 7}; int i;
  q->n = nn[kind]; q->e = ee[kind]; for (i = 0; i < q->e; i++) { q->a[i] = A[kind][i]; q->b[i] = B[kind][i]; q->w[i] = 1 + (i % 3) * 0.5; }
}
static void run(QEdges *q, int m, int nosplit) {
  AdjaArray *adj; int i, b0 = sym_live_blocks(); Partition *p = hxq_build(q, m, &adj, 1); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
  for (i = 0; i < q->n; i++) ks[i] = p->nodes[i]->strength;
  AssignNodesToModules(p, gen); gadj = adj; gstart = gbest = PartitionModularity(p, adj, 0); gsweeps = 0;
  int lim = sym_pick(1, 2, "limit"); double Ti = sym_bool("hot") ? 2 : 0.01;
  unsigned r = GeneralSA(&p, adj, 0.2, Ti, Ti * 0.3, 0.6, sym_bool("comps") ? 1 : 0, lim, gen);
  sym_assert(r == 0, "the search succeeds"); valid(p, q->n);
  sym_assert_le(gbest, PartitionModularity(p, adj, 0), "the result is at least as good as the best state that ended a temperature");
  if (gsweeps > 1) sym_reach("sweeps"); if (gbest > gstart + 1e-9) sym_reach("improved");
  CompressPartition(p); valid(p, q->n); sym_assert(p->nempty == 0, "no empty module is left");
  FreePartition(p); FreeAdjaArray(adj); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_window(void) {
  QEdges q; int lo = sym_pick(0, SPAN - 1, "lo") * WW; sym_draw_window(lo, lo + WW, sym_pick(1, SEEDS, "seed")); sym_step_limit(3000000);
  net(&q, sym_pick(KLO, KHI, "net")); int md = sym_pick(0, 2, "modules"); run(&q, md == 0 ? q.n : md == 1 ? q.n + 1 : 2, 0); if (sym_draw_count() > lo) sym_reach("window"); sym_note_i("draws", sym_draw_count());
}
/* numbers of modules other than the number of nodes, one or two nodes */
void h_small(void) {
  QEdges q; int n = sym_pick(1, 3, "n"), m = sym_pick(1, 4, "m"), i; sym_draw_window(1000, 1000, sym_pick(1, 3, "seed")); sym_step_limit(3000000);
  q.n = n; q.e = 0; for (i = 0; i + 1 < n; i++) { q.a[q.e] = i; q.b[q.e] = i + 1; q.w[q.e++] = 1; } if (n == 1) { q.a[0] = q.b[0] = 0; q.w[0] = 1; q.e = 1; }
  run(&q, m, 0);
}
/* the nested search that splits a module: every draw arbitrary */
void h_split(void) {
  QEdges q; AdjaArray *adj; int i, g[HXM], n; net(&q, sym_pick(1, 4, "net")); n = q.n; int b0 = sym_live_blocks(); Partition *p = hxq_build(&q, 3, &adj, 1); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
  int out = sym_pick(-1, n - 1, "outside"); for (i = 0; i < n; i++) { g[i] = i == out ? 2 : 0; ks[i] = p->nodes[i]->strength; } hxq_place(p, g, 0);
  unsigned r = SplitModuleSA(0, 1, 1, 0.4, 0.6, sym_pick(0, 2, "limit"), p, adj, gen);
  sym_assert(r == 0, "the split succeeds"); for (i = 0; i < n; i++) { int m = p->nodes[i]->module; if (g[i] == 2) sym_assert(m == 2, "nodes of other modules stay"); else { sym_assert(m == 0 || m == 1, "nodes go to one of the two modules"); if (m == 1) sym_reach("split"); } }
  valid(p, n); FreePartition(p); FreeAdjaArray(adj); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
