/* C05: copies, sums and subnetworks. */
#include "hxb.h"
#include "hxp.h"
#ifndef NN
#define NN 3
#endif
/* build a network whose labels are given */
static struct node_gra *mk(Ref *r, const char **lab, struct node_gra **nd) {
  struct node_gra *root = CreateHeaderGraph(), *l = root; int i, j; for (i = 0; i < r->n; i++) { char s[8]; strcpy(s, lab[i]); l = nd[i] = CreateNodeGraph(l, s); }
  for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (r->a[i][j]) AddAdjacency(nd[i], nd[j], 1, 0, r->w[i][j], 2);
  return root;
}
static void no_sharing(struct node_gra *a, struct node_gra *b) {
  struct node_gra *p, *q; struct node_lis *l, *m;
  for (p = a; p; p = p->next) for (q = b; q; q = q->next) { sym_assert(p != q, "a copy shares no node"); sym_assert(p->label != q->label || p->label == NULL, "a copy shares no label");
    for (l = p->neig; l; l = l->next) for (m = q->neig; m; m = m->next) sym_assert(l != m && (l->nodeLabel != m->nodeLabel || l->nodeLabel == NULL), "a copy shares no link"); }
}
void h_copy(void) {
  Ref r; int i; static const char *lab[HXM] = {"b", "ab", "a", "c"}; struct node_gra *nd[HXM]; hx_any_directed(&r, NN, 1, 0); int b0 = sym_live_blocks();
  for (i = 0; i < NN * NN; i++) r.w[i / NN][i % NN] = i + 0.5;
  struct node_gra *net = mk(&r, lab, nd); nd[0]->inGroup = 5; nd[NN - 1]->state = 1; nd[1]->coorX = 2.5; nd[1]->ivar1 = 4; nd[1]->dvar1 = 0.5; struct node_gra *c = CopyNetwork(net);
  hx_same(c, &r, lab, 1); hx_counts(c, &r, lab, 0); no_sharing(net, c); int k = 0; struct node_gra *p, *q;
  for (p = net->next, q = c->next; p && q; p = p->next, q = q->next) sym_assert(p->inGroup == q->inGroup && p->state == q->state && p->coorX == q->coorX && p->ivar1 == q->ivar1 && p->dvar1 == q->dvar1 && p->num == q->num && !strcmp(p->label, q->label), "node attributes are copied");
  if (r.a[0][1]) { RemoveLink(nd[0], nd[1], 0); sym_reach("independent"); } hx_same(c, &r, lab, 1); hx_counts(c, &r, lab, 0);
  RemoveGraph(net); hx_same(c, &r, lab, 1); RemoveGraph(c); (void)k; sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
static void copybip(BRef r) {
  struct binet *b = hxb_build(&r, sym_bool("rev")), *c; hxb_1[1]->inGroup = 7; hxb_2[0]->coorY = 1.5; int b0 = sym_live_blocks(); c = CopyBipart(b);
  hxb_same(c, &r, hxb_l1, hxb_l2, 1); no_sharing(b->net1, c->net1); no_sharing(b->net2, c->net2); sym_assert(c != b, "a copy is a new object");
  sym_assert(hx_find(c->net1, "a1")->inGroup == 7 && hx_find(c->net2, "b0")->coorY == 1.5, "node attributes are copied");
  RemoveBipart(c); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hxb_same(b, &r, hxb_l1, hxb_l2, 1); c = CopyBipart(b); RemoveBipart(b); hxb_same(c, &r, hxb_l1, hxb_l2, 1); RemoveBipart(c); sym_reach("end");
}
void h_copybip(void) { BRef r; hxb_any(&r, 3, 2, 1); copybip(r); }
void h_familybip(void) { BRef r; hxb_family(&r, 1); copybip(r); }
/* copies of larger networks */
void h_family(void) {
  Ref r; int d = sym_bool("directed"), b0; hx_family(&r, d, 1); struct node_gra *net = hx_build(&r, sym_bool("rev")), *c; b0 = sym_live_blocks(); c = CopyNetwork(net); hx_same(c, &r, hx_lab, 1); hx_counts(c, &r, hx_lab, 0); no_sharing(net, c); RemoveGraph(c); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hx_same(net, &r, hx_lab, 1);
  c = CopyNetwork(net); RemoveGraph(net); hx_same(c, &r, hx_lab, 1); hx_counts(c, &r, hx_lab, 0); RemoveGraph(c); sym_reach("end");
}
/* A over {b,ab}, B over two labels of {ab,a,b} */
void h_sum(void) {
  static const char *la[HXM] = {"b", "ab"}, *lbs[3][2] = {{"ab", "a"}, {"a", "b"}, {"x", "y"}}; const char *lb[HXM], *ls[HXM]; Ref a, b, s; struct node_gra *na[HXM], *nb[HXM]; int i, j, pos[2], k = sym_pick(0, 2, "labels of B");
  hx_any_directed(&a, 2, 1, 1); hx_any_directed(&b, 2, 1, 0); lb[0] = lbs[k][0]; lb[1] = lbs[k][1];
  struct node_gra *A = mk(&a, la, na), *B = mk(&b, lb, nb); int b0 = sym_live_blocks(); struct node_gra *S = AddTwoNetworks(A, B);
  hx_clear(&s, 2); ls[0] = la[0]; ls[1] = la[1]; for (i = 0; i < 2; i++) { for (j = 0; j < s.n && strcmp(ls[j], lb[i]); j++) ; if (j == s.n) { ls[s.n] = lb[i]; s.n++; } pos[i] = j; }
  for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { if (a.a[i][j]) s.a[i][j] = 1; } for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) if (b.a[i][j]) s.a[pos[i]][pos[j]] = 1;
  hx_same(S, &s, ls, 0); for (i = 0; i < s.n; i++) sym_assert((int)NodeDegree(hx_find(S, ls[i])) == hx_deg(&s, i), "node degree");
  hx_same(A, &a, la, 1); hx_same(B, &b, lb, 1); if (s.n == 3) sym_reach("shared label");
  RemoveGraph(S); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(A); RemoveGraph(B); sym_reach("end");
}
#ifndef KK
#define KK 4
#endif
/* subnetwork of one group, alone and with its neighbours */
static void subnet(Ref r, int *g) {
  Ref s; int i, j, c = 0, m[HXM], in[HXM]; const char *sl[HXM];
  struct node_gra *net = hx_build(&r, 0); struct group *p = hx_build_part(g, r.n, 2, sym_bool("rev")); int neig = sym_bool("neighbours"), b0 = sym_live_blocks();
  struct node_gra *sub = neig ? BuildNetFromGroupNeig(hx_gr[0]) : BuildNetFromGroup(hx_gr[0]);
  for (i = 0; i < r.n; i++) { in[i] = g[i] == 0; if (neig && !in[i]) for (j = 0; j < r.n; j++) if (g[j] == 0 && r.a[i][j]) in[i] = 1; if (in[i]) { m[c] = i; sl[c++] = hx_lab[i]; } }
  hx_clear(&s, c); for (i = 0; i < c; i++) for (j = 0; j < c; j++) { s.a[i][j] = r.a[m[i]][m[j]]; s.w[i][j] = r.w[m[i]][m[j]]; }
  hx_same(sub, &s, sl, 1); hx_counts(sub, &s, sl, 1); RemoveGraph(sub); sym_assert(sym_live_blocks() == b0, "the library releases all its memory");
  hx_same(net, &r, hx_lab, 1); hx_counts(net, &r, hx_lab, 1); RemovePartition(p); RemoveGraph(net); if (neig) sym_reach("neighbours"); sym_reach("end");
}
void h_sub(void) { Ref r; int g[HXM], i; hx_any_undirected(&r, KK, 0, 1); for (i = 0; i < KK; i++) g[i] = sym_pick(0, 1, "group"); subnet(r, g); }
void h_familysub(void) { Ref r; int g[HXM], i, k = sym_pick(0, 4, "group"); hx_family(&r, 0, 1); for (i = 0; i < 8; i++) g[i] = k == 0 ? i % 2 : k == 1 ? i / 4 : k == 2 ? 0 : k == 3 ? i != 6 : i < 3; subnet(r, g); }
