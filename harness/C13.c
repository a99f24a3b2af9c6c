/* C13: module bookkeeping of array-based partitions under any sequence of operations. */
#include "hxq.h"
#ifndef NN
#define NN 4
#endif
#ifndef KK
#define KK 2
#endif
#ifndef MM
#define MM 3
#endif
static double ks[HXM];
static Partition *start(QEdges *q, AdjaArray **adj, int *g, int m) {
  int i; Partition *p = hxq_build(q, m, adj, 0);
  for (i = 0; i < q->n; i++) { double s = 0; int k; for (k = 0; k < q->e; k++) { if (q->a[k] == (unsigned)i) s += q->w[k]; if (q->b[k] == (unsigned)i) s += q->w[k]; } ks[i] = s; sym_assert_eq(p->nodes[i]->strength, s, "node strength from the edges"); }
#ifdef PATTERN
  { int k = sym_pick(0, 3, "start"); for (i = 0; i < q->n; i++) g[i] = k == 0 ? i % m : k == 1 ? i * m / q->n : k == 2 ? m - 1 : i == 2; }
#else
  for (i = 0; i < q->n; i++) g[i] = sym_pick(0, m - 1, "module");
#endif
  hxq_place(p, g, sym_bool("rev")); return p;
}
static void finish(Partition *p, AdjaArray *adj, int b0) { FreePartition(p); FreeAdjaArray(adj); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
static int count(int *g, int m) { int i, c = 0; for (i = 0; i < NN; i++) c += g[i] == m; return c; }
/* moves, merges and copies */
void h_ops(void) {
  QEdges q = {NN, 1, {0}, {1}, {1}}; AdjaArray *adj; int g[HXM], i, k, b0; int M = MM;
  for (i = 0; i < NN; i++) ; q.e = NN - 1; for (i = 0; i + 1 < NN; i++) { q.a[i] = i; q.b[i] = i + 1; q.w[i] = sym_real(0.25, 8, "w"); }
  b0 = sym_live_blocks(); Partition *p = start(&q, &adj, g, M);
  for (k = 0; k < KK; k++) {
    int op = sym_pick(0, 2, "op");
    if (op == 0) { int v = sym_pick(0, NN - 1, "node"), t = sym_pick(0, M - 1, "target"); if (t == g[v]) sym_stop(); ChangeModule(v, t, p); g[v] = t; sym_reach("moved"); }
    else if (op == 1) { int a = sym_pick(0, M - 1, "a"), b = sym_pick(0, M - 1, "b"); if (a == b) sym_stop(); int ea = !count(g, a), eb = !count(g, b); MergeModules(a, b, p); if (!ea && !eb) { for (i = 0; i < NN; i++) if (g[i] == b) g[i] = a; sym_reach("merged"); } hxq_valid(p, g, ks, 0); for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module; }
    else { Partition *c = CopyPartitionStruct(p); hxq_valid(c, g, ks, 1); sym_assert(c->M == p->M && c->N == p->N, "a copy has the same size"); 
      for (i = 0; i < NN; i++) for (int j = 0; j < M; j++) sym_assert(c->nodes[i] != p->nodes[i] && c->modules[j] != p->modules[j], "a copy shares nothing");
      FreePartition(p); p = c; hxq_valid(p, g, ks, 1); sym_reach("copied"); }
    hxq_valid(p, g, ks, 1);
  }
  finish(p, adj, b0);
}
/* compaction after any moves */
void h_compress(void) {
  QEdges q = {NN, 1, {0}, {1}, {2.5}}; AdjaArray *adj; int g[HXM], i, j, used = 0, b0 = sym_live_blocks(); Partition *p = start(&q, &adj, g, MM);
  if (sym_bool("move")) { int v = sym_pick(0, NN - 1, "node"), t = sym_pick(0, MM - 1, "target"); if (t != g[v]) { ChangeModule(v, t, p); g[v] = t; } }
  for (j = 0; j < MM; j++) used += count(g, j) > 0;
  CompressPartition(p); hxq_valid(p, g, ks, 0); sym_assert((int)p->M == used && p->nempty == 0, "compaction leaves exactly the non-empty modules"); if (used < MM) sym_reach("compacted");
  if (sym_bool("go on")) { for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module; int v = sym_pick(0, NN - 1, "node2"), t = sym_pick(0, used - 1, "target2"); if (t != g[v]) { ChangeModule(v, t, p); g[v] = t; hxq_valid(p, g, ks, 1); } CompressPartition(p); hxq_valid(p, g, ks, 0); }
  finish(p, adj, b0);
}
/* compaction of a partition nothing was put in */
void h_allempty(void) { int n = sym_pick(1, 3, "n"), m = sym_pick(1, 3, "m"), b0 = sym_live_blocks(); Partition *p = CreatePartition(n, m); CompressPartition(p); sym_assert(p->M == 0 && p->nempty == 0, "no module is left"); FreePartition(p); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* random or one-per-module start */
void h_assign(void) {
  int n = NN, m = sym_pick(1, NN + 1, "m"), i, g[HXM], b0 = sym_live_blocks(); Partition *p = CreatePartition(n, m); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
  for (i = 0; i < n; i++) ks[i] = p->nodes[i]->strength = sym_real(0, 4, "k");
  AssignNodesToModules(p, gen); for (i = 0; i < n; i++) { g[i] = p->nodes[i]->module; if (m == n) sym_assert(g[i] == i, "one node per module"); }
  hxq_valid(p, g, ks, 1); FreePartition(p); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
/* splitting a module along its components */
void h_split(void) {
  QEdges q; AdjaArray *adj; int g[HXM], comp[HXM], i, j, nc;
#ifdef PATTERN
  Ref fam; hx_family(&fam, 0, 0); hxq_of(&q, &fam); int pat = sym_pick(0, 3, "module");
#define IN(i) (pat == 0 ? 1 : pat == 1 ? i % 2 == 0 : pat == 2 ? i != 1 : i % 3 > 0)
#else
  hxq_any(&q, NN, 0, 0);
#define IN(i) sym_bool("in")
#endif
  int b0 = sym_live_blocks(); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937); Partition *p = hxq_build(&q, 3, &adj, 0);
  for (i = 0; i < NN; i++) { g[i] = IN(i) ? 0 : 2; ks[i] = p->nodes[i]->strength; } hxq_place(p, g, sym_bool("rev"));
  if (!count(g, 0)) sym_stop();
  nc = hxq_comps(&q, g, 0, comp); int r = (int)SplitModuleByComponent(0, 1, p, adj, gen);
  sym_assert(r == nc, "number of components of the module");
  int moved = 0; for (i = 0; i < NN; i++) { int w = p->nodes[i]->module; if (g[i] == 2) sym_assert(w == 2, "other modules are left alone"); else { sym_assert(w == 0 || w == 1, "nodes stay in the two modules"); moved += w == 1; for (j = 0; j < NN; j++) if (g[j] == 0 && comp[i] == comp[j]) sym_assert((int)p->nodes[j]->module == w, "a component is not torn apart"); } }
  sym_assert((nc > 1) == (moved > 0), "a module is split exactly when it has several components"); sym_assert(moved < count(g, 0), "one component stays");
  for (i = 0; i < NN; i++) g[i] = p->nodes[i]->module; hxq_valid(p, g, ks, 1); if (nc > 2) sym_reach("three components"); gsl_rng_free(gen); finish(p, adj, b0);
}
/* splitting a module by nested annealing: whatever the draws, nodes only move between the two modules */
void h_splitsa(void) {
  QEdges q; AdjaArray *adj; int g[HXM], i; hxq_any(&q, 3, 0, 0); int b0 = sym_live_blocks(); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937); Partition *p = hxq_build(&q, 3, &adj, q.e > 0);
  for (i = 0; i < 3; i++) { g[i] = sym_bool("in") ? 0 : 2; ks[i] = p->nodes[i]->strength; } hxq_place(p, g, 0);
  if (g[0] && g[1] && g[2]) sym_stop();
  unsigned e = SplitModuleSA(0, 1, 1.0, 0.3, 0.5, sym_pick(0, 2, "limit"), p, adj, gen); sym_assert(e == 0, "no error");
  for (i = 0; i < 3; i++) { int w = p->nodes[i]->module; sym_assert(g[i] == 2 ? w == 2 : (w == 0 || w == 1), "only the module's own nodes move, and only between the two modules"); g[i] = w; }
  hxq_valid(p, g, ks, 1); gsl_rng_free(gen); finish(p, adj, b0);
}
