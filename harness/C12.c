/* C12: randomised networks keep their degrees. */
#include "hxb.h"
#include "hxd.h"
#ifndef NN
#define NN 4
#endif
#ifndef MM
#define MM 3
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef DRAWS
#define DRAWS 10
#endif
/* read the network back into a matrix, checking every invariant of a simple undirected network */
static void simple(struct node_gra *net, int n, Ref *out, int self) {
  int i, j, c = 0; struct node_gra *p; hx_clear(out, n); for (p = net->next; p; p = p->next) { sym_assert(c < n && p == hx_nd[c] && p->num == c && !strcmp(p->label, hx_lab[c]), "the nodes stay the same"); c++; } sym_assert(c == n, "the nodes stay the same");
  for (i = 0; i < n; i++) for (struct node_lis *l = hx_nd[i]->neig->next; l; l = l->next) { for (j = 0; j < n && hx_nd[j] != l->ref; j++) ; sym_assert(j < n && l->node == j && !strcmp(l->nodeLabel, hx_lab[j]), "links point to nodes of the network"); sym_assert(!out->a[i][j], "no repeated link"); out->a[i][j] = 1; out->w[i][j] = l->weight; sym_assert(l->weight == 1, "links of an unweighted network weigh one"); }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(out->a[i][j] == out->a[j][i], "both ends of a link are present");
}
static void uni(Ref *r, int steps) {
  Ref o; int i, j; int n = r->n, nl = hx_nlinks(r), legal = 0; gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); struct node_gra *net = hx_build(r, sym_bool("rev")); int b0 = sym_live_blocks(); sym_draw_window(0, DRAWS, 1); sym_step_limit(400000);
  for (i = 0; i < n; i++) nl -= r->a[i][i]; nl /= 2;
  struct node_gra *q = RandomizeSymmetricNetwork(net, nl ? (double)steps / nl : 1, g); sym_assert(q == net, "the network itself is randomised");
  simple(net, n, &o, 0); for (i = 0; i < n; i++) { sym_assert(hx_deg(&o, i) == hx_deg(r, i), "every node keeps its degree"); sym_assert((int)NodeDegree(hx_nd[i]) == hx_deg(r, i), "node degree"); sym_assert_eq(NodeStrength(hx_nd[i]), hx_str(r, i), "node strength"); sym_assert(o.a[i][i] == r->a[i][i], "no self-link is added"); for (j = 0; j < n; j++) if (o.a[i][j] != r->a[i][j]) legal = 1; }
  if (legal) sym_reach("swapped"); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); gsl_rng_free(g); sym_reach("end");
}
void h_uni(void) { Ref r; hx_any_undirected(&r, NN, 0, 0); uni(&r, 1); }
void h_self(void) { Ref r; int i, j; hx_clear(&r, 4); for (i = 0; i < 4; i++) for (j = i; j < 4; j++) if (j == i + 1 ? i != 1 : i == j ? sym_bool("self") : (j == i + 2 && sym_bool("link"))) r.a[i][j] = r.a[j][i] = r.w[i][j] = r.w[j][i] = 1; uni(&r, 1); }
void h_path(void) { Ref r; int i, j; hx_clear(&r, 5); for (i = 0; i < 4; i++) r.a[i][i + 1] = r.a[i + 1][i] = r.w[i][i + 1] = r.w[i + 1][i] = 1; if (sym_bool("link")) r.a[0][4] = r.a[4][0] = r.w[4][0] = r.w[0][4] = 1; uni(&r, 2); }
static void bip(BRef r) {
  int i, j, changed = 0; int nl = hxb_nlinks(&r), steps = sym_pick(1, STEPS, "steps"); gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); struct binet *b = hxb_build(&r, 0); int b0 = sym_live_blocks(); sym_draw_window(0, DRAWS, 1); sym_step_limit(400000);
  struct binet *q = RandomizeBipart(b, nl ? (double)steps / nl : 1, g); sym_assert(q == b, "the network itself is randomised"); BRef o; hxb_clear(&o, r.n, r.m);
  for (i = 0; i < r.n; i++) for (struct node_lis *l = hxb_1[i]->neig->next; l; l = l->next) { for (j = 0; j < r.m && hxb_2[j] != l->ref; j++) ; sym_assert(j < r.m, "links go to the other set only"); sym_assert(!o.a[i][j], "no repeated link"); o.a[i][j] = 1; o.w[i][j] = 1; }
  hxb_same(b, &o, hxb_l1, hxb_l2, 1);
  for (i = 0; i < r.n; i++) { int c = 0, d = 0; for (j = 0; j < r.m; j++) { c += o.a[i][j]; d += r.a[i][j]; changed |= o.a[i][j] != r.a[i][j]; } sym_assert(c == d, "every node keeps its degree"); }
  for (j = 0; j < r.m; j++) { int c = 0, d = 0; for (i = 0; i < r.n; i++) { c += o.a[i][j]; d += r.a[i][j]; } sym_assert(c == d, "every node keeps its degree"); }
  if (changed) sym_reach("swapped"); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveBipart(b); gsl_rng_free(g); sym_reach("end");
}
void h_bip(void) { BRef r; hxb_any(&r, NN, MM, 0); bip(r); }
void h_family(void) { Ref r; hx_family(&r, 0, 0); uni(&r, 1); }
void h_familybip(void) { BRef r; hxb_family(&r, 0); bip(r); }
