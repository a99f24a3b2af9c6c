/* C14: gains of moves and merges are exact modularity differences; modularity equals its definition. */
#include "hxq.h"
#ifndef NN
#define NN 4
#endif
#ifndef MM
#define MM 3
#endif
static QEdges q; static AdjaArray *adj; static int g[HXM]; static double ks[HXM];
/* any weighted network (self: self-links too; dup: one pair listed twice), node strengths any reals (a projected bipartite network's strengths are not its row sums) */
static Partition *start(int self, int dup) {
  int i;
#ifdef PATTERN
  Ref fam; hx_family(&fam, 0, 1); hxq_of(&q, &fam);
#else
  hxq_any(&q, NN, self, 1);
#endif
  if (dup) { if (!q.e) sym_stop(); int d = sym_pick(0, q.e - 1, "dup"), r = sym_bool("reversed"); q.a[q.e] = r ? q.b[d] : q.a[d]; q.b[q.e] = r ? q.a[d] : q.b[d]; q.w[q.e] = sym_real(0.25, 8, "w"); q.e++; }
  Partition *p = hxq_build(&q, MM, &adj, 0); for (i = 0; i < NN; i++) ks[i] = p->nodes[i]->strength =
#ifdef PATTERN
    0.25 * (i * i % 7 + 1);
  int m = sym_pick(0, 2, "start"); for (i = 0; i < NN; i++) g[i] = m == 0 ? i % MM : m == 1 ? i * MM / NN : 1; hxq_place(p, g, sym_bool("rev")); return p;
#else
    sym_real(0, 4, "k");
  int m = hx_any_part(g, NN, MM); (void)m; hxq_place(p, g, sym_bool("rev")); return p;
#endif
}
static void modularity(Partition *p, const char *m) { sym_assert_eq(PartitionModularity(p, adj, 0), hxq_mod(&q, g, ks, 0), m); sym_assert_eq(PartitionModularity(p, adj, 1), hxq_mod(&q, g, ks, 1), "modularity with the diagonal"); }
static void move(Partition *p) {
  int v = sym_pick(0, NN - 1, "node"), t = sym_pick(0, MM - 1, "target"); if (t == g[v]) sym_stop();
  modularity(p, "modularity"); double before = hxq_mod(&q, g, ks, 0), gain = dEChangeModule(v, t, p, adj); ChangeModule(v, t, p); g[v] = t;
  sym_assert_eq(gain, hxq_mod(&q, g, ks, 0) - before, "gain of moving a node"); modularity(p, "modularity after a move"); FreePartition(p); FreeAdjaArray(adj); sym_reach("end");
}
static void merge(Partition *p) {
  int i, a = sym_pick(0, MM - 1, "a"), b = sym_pick(0, MM - 1, "b"); if (a == b) sym_stop();
  double before = hxq_mod(&q, g, ks, 0), gain = dEMergeModules(a, b, p, adj); MergeModules(a, b, p); for (i = 0; i < NN; i++) if (g[i] == b) g[i] = a;
  sym_assert_eq(gain, hxq_mod(&q, g, ks, 0) - before, "gain of merging two modules"); modularity(p, "modularity after a merge"); FreePartition(p); FreeAdjaArray(adj); sym_reach("end");
}
void h_move(void) { move(start(0, 0)); }
void h_merge(void) { merge(start(0, 0)); }
void h_moveself(void) { move(start(1, 0)); }
void h_mergeself(void) { merge(start(1, 0)); }
void h_movedup(void) { move(start(0, 1)); }
void h_mergedup(void) { merge(start(0, 1)); }
/* a split is the reverse of a merge: the negative gain of merging back */
void h_split(void) {
  Partition *p = start(0, 0); int i, t = 0, e = MM - 1; gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937); for (i = 0; i < NN; i++) if (g[i] == e) sym_stop();
  double before = hxq_mod(&q, g, ks, 0); int c = SplitModuleByComponent(t, e, p, adj, gen); for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module;
  if (c > 1) { sym_assert_eq(-dEMergeModules(t, e, p, adj), hxq_mod(&q, g, ks, 0) - before, "gain of splitting a module"); sym_reach("split"); } modularity(p, "modularity after a split"); gsl_rng_free(gen); FreePartition(p); FreeAdjaArray(adj); sym_reach("end");
}
/* normalised adjacency of a unipartite network: modularity is the sum over modules of l/L - (k/2L)^2 */
void h_formula(void) {
  int i, m; hxq_any(&q, 3, 0, 1); if (!q.e) sym_stop(); Partition *p = hxq_build(&q, MM, &adj, 1); hx_any_part(g, 3, MM); hxq_place(p, g, 0);
  double W = 0, Q = 0; for (i = 0; i < q.e; i++) W += q.w[i];
  for (m = 0; m < MM; m++) { double in = 0, tot = 0; for (i = 0; i < q.e; i++) { in += (g[q.a[i]] == m && g[q.b[i]] == m) ? q.w[i] : 0; tot += (g[q.a[i]] == m ? q.w[i] : 0) + (g[q.b[i]] == m ? q.w[i] : 0); } Q += in / W - tot * tot / (4 * W * W); }
  sym_assert_eq(PartitionModularity(p, adj, 1), Q, "modularity is the weight inside minus the squared fraction of the strength"); FreePartition(p); FreeAdjaArray(adj); sym_reach("end");
}
