/* C30: the list-based module search (SACommunityIdent) and its nested split (SAGroupSplit). */
#include "hxp.h"
#ifndef WW
#define WW 3
#endif
#ifndef SPAN
#define SPAN 12
#endif
#ifndef KLO
#define KLO 0
#define KHI 2
#endif
#ifndef STEPS
#define STEPS 20000000
#endif
#ifndef STEP
#define STEP 10
#endif
#ifndef SEEDS
#define SEEDS 1
#endif
static void mk(Ref *r, int kind) {
  static const int A[7][9] = {{0}, {0, 1}, {0, 0, 1}, {0, 2}, {0, 1, 2, 3}, {0, 0, 1, 2, 3, 3, 4}, {0, 0, 1, 2, 3, 3, 4, 4, 6}}, B[7][9] = {{1}, {1, 2}, {1, 2, 2}, {1, 3}, {1, 2, 3, 0}, {1, 2, 2, 3, 4, 5, 5}, {1, 2, 2, 3, 4, 5, 5, 6, 7}};
  static const int nn[7] = {2, 3, 3, 4, 4, 6, 8}, ee[7] = {1, 2, 3, 2, 4, 7, 9}; int i; hx_clear(r, nn[kind]); for (i = 0; i < ee[kind]; i++) hx_put(r, A[kind][i], B[kind][i], 1, 0);
}
static double mod(Ref *r, int *g) { int i, j; double L = hx_nlinks(r), s = 0; for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (g[i] == g[j]) s += (r->a[i][j] - hx_deg(r, i) * hx_deg(r, j) / L) / L; return s; }
/* every node in one group of the partition, exact counts of links, no group empty */
static int valid(struct group *part, Ref *r, int *g, int noempty) {
  struct group *h; struct node_lis *l; int i, j, c = 0, n = r->n; for (i = 0; i < n; i++) g[i] = -1;
  sym_assert(part != NULL, "the search returns a partition");
  for (h = part->next; h; h = h->next) {
    int k = 0, in = 0, out = 0;  if (noempty) sym_assert(h->size > 0, "no empty group is left");
    for (l = h->nodeList->next; l; l = l->next) { for (i = 0; i < n && hx_nd[i] != l->ref; i++) ; sym_assert(i < n, "a group lists nodes of the network"); sym_assert(!strcmp(l->nodeLabel, hx_nd[i]->label) && l->node == hx_nd[i]->num, "and names them right"); sym_assert(g[i] < 0, "a node is in one group only"); g[i] = c; k++; sym_assert(hx_nd[i]->inGroup == h->label, "a node knows its group"); }
    sym_assert(h->size == k, "size of a group"); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (g[i] == c && r->a[i][j]) { if (g[j] == c) in++; else out++; }
    sym_assert(h->inlinks == in / 2 && h->outlinks == out && h->totlinks == in / 2 + out, "links of a group"); c++;
  }
  for (i = 0; i < n; i++) sym_assert(g[i] >= 0, "every node is in a group"); return c;
}
static int rway; static double rTi; /* a search that goes back to its best partition: one that cools too fast */
static void search(Ref *r) {
  int g[HXM], n = r->n, c; double best = -100; char line[200]; FILE *f = freopen("sa.txt", "w", stderr); int b0 = sym_live_blocks(); struct node_gra *net = hx_build(r, 0); gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
#ifdef COOL
  int way = rway ? rway : sym_pick(0, 2, "start"), coll = rway ? 0 : sym_bool("collective"), hot = 1; double Ti = rway ? rTi : 0.5, Ts = COOL, Tf = 0;
#else
  int way = sym_pick(0, 2, "start"), coll = sym_bool("collective"), hot = sym_bool("hot"); double Ti = hot ? 2 : 0.01, Ts = 0.5, Tf = Ti * 0.2;
#endif
  struct group *p = SACommunityIdent(net, Ti, Tf, Ts, 0.2, way == 2 ? 2 : n + 1, way ? 'r' : 'o', coll, 'v', gen), *q; fflush(stderr);
  c = valid(p, r, g, 1); double m = Modularity(p); sym_assert_eq(m, mod(r, g), "modularity of the result"); (void)c;
  f = fopen("sa.txt", "r"); int sw = 0; while (fgets(line, 200, f)) if (line[0] == '#') sym_reach("reset"); else { double t, e, x; sym_assert(sscanf(line, "%lf %lf %lf", &t, &e, &x) == 3, "one line per temperature"); sym_assert(e - x < 2e-6 && x - e < 2e-6, "the running energy is the modularity of the partition"); if (sw && x > best) best = x; sw++; } fclose(f);
  sym_assert(best <= m + 2e-6, "the result is at least as good as the best state that ended a temperature"); if (sw > 1) sym_reach("sweeps");
  RemovePartition(p); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_reset(void) { Ref r; static const int S[4] = {16, 37, 75, 80}; static const double T[4] = {1, .3, .3, 1}; int k = sym_pick(0, SEEDS - 1, "way"), lo = sym_pick(0, SPAN - 1, "lo") * STEP + 1; sym_draw_window(lo, lo + WW, S[k]); sym_step_limit(STEPS); mk(&r, 3); rTi = T[k]; rway = 2; search(&r); if (sym_draw_count() > lo) sym_reach("window"); }
void h_window(void) { Ref r; int lo = sym_pick(0, SPAN - 1, "lo") * WW; sym_draw_window(lo, lo + WW, sym_pick(1, SEEDS, "seed")); sym_step_limit(STEPS); mk(&r, sym_pick(KLO, KHI, "net")); search(&r); if (sym_draw_count() > lo) sym_reach("window"); }
/* the nested split: any group of a network, two groups that share out exactly its nodes, links counted within the group only */
void h_split(void) {
  Ref r, s; int i, j, g[HXM], in[HXM], n, c = 0; sym_step_limit(STEPS);
#ifdef LO
  int lo = sym_pick(0, SPAN - 1, "lo") * WW; sym_draw_window(lo, lo + WW, sym_pick(1, SEEDS, "seed"));
#endif
  mk(&r, sym_pick(KLO, KHI, "net")); n = r.n; int b0 = sym_live_blocks(); struct node_gra *net = hx_build(&r, 0); struct group *part = CreateHeaderGroup(), *t = CreateGroup(part, 0), *o = CreateGroup(t, 1), *sp, *h; gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
  ResetNetGroup(net); int out = sym_pick(-1, n - 1, "outside"); for (i = 0; i < n; i++) { in[i] = i != out; AddNodeToGroup(in[i] ? t : o, hx_nd[i]); c += in[i]; }
  int sw = sym_bool("clusters"); double Ti = 1, Tf = sym_bool("cold") ? 0.3 : 1; sp = SAGroupSplit(t, Ti, Tf, 0.6, sw, gen);
  sym_assert(NGroups(sp) <= 2 && NGroups(sp) >= 1, "at most two groups"); for (i = 0; i < n; i++) g[i] = -1; int q = 0;
  for (h = sp->next; h; h = h->next, q++) { struct node_lis *l; int k = 0, il = 0, ol = 0; for (l = h->nodeList->next; l; l = l->next) { for (i = 0; i < n && strcmp(hx_nd[i]->label, l->nodeLabel); i++) ; sym_assert(i < n && in[i], "the split names nodes of the group"); sym_assert(g[i] < 0, "a node is on one side only"); g[i] = q; k++; }
    sym_assert(h->size == k, "size of a side"); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (in[i] && in[j] && g[i] == q && r.a[i][j]) { if (g[j] == q) il++; } (void)ol; sym_assert(h->inlinks == il / 2, "links within a side"); }
  for (i = 0; i < n; i++) if (in[i]) { sym_assert(g[i] >= 0, "every node of the group is on one side"); if (g[i]) sym_reach("split"); sym_assert(hx_nd[i]->inGroup == 0, "the network itself is not changed"); }
  RemovePartition(sp); RemovePartition(part); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
