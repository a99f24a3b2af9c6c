/* C09: components. */
#include "hxd.h"
#ifndef NN
#define NN 4
#endif
int GetAllConnectedSets(struct node_gra *network, struct node_gra **net_list);
static int scc[HXM], wcc[HXM], nscc, nwcc; static int D[HXM][HXM];
static void ref(Ref *r) {
  int i, j, k, n = r->n, u[HXM][HXM]; hx_dist(r, D); for (i = 0; i < n; i++) for (j = 0; j < n; j++) u[i][j] = i == j || r->a[i][j] || r->a[j][i];
  for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) u[i][j] |= u[i][k] && u[k][j];
  nscc = nwcc = 0; for (i = 0; i < n; i++) { for (j = 0; j < i && !(D[i][j] < HXINF && D[j][i] < HXINF); j++) ; scc[i] = j < i ? scc[j] : nscc++; for (j = 0; j < i && !u[i][j]; j++) ; wcc[i] = j < i ? wcc[j] : nwcc++; }
}
static int csize(int *c, int n, int k) { int i, s = 0; for (i = 0; i < n; i++) s += c[i] == k; return s; }
/* net is exactly the subnetwork of r on component k */
static void sub(struct node_gra *net, Ref *r, int *c, int k, int nums, int state0) {
  Ref s; const char *lab[HXM]; int i, j, m = 0, id[HXM]; for (i = 0; i < r->n; i++) if (c[i] == k) { id[m] = i; lab[m++] = hx_lab[i]; }
  hx_clear(&s, m); for (i = 0; i < m; i++) for (j = 0; j < m; j++) { s.a[i][j] = r->a[id[i]][id[j]]; s.w[i][j] = r->w[id[i]][id[j]]; }
  if (nums) { struct node_gra *p; int q = 0; for (p = net->next; p; p = p->next) { i = atoi(p->label + 1); sym_assert(p->num == i, "a component's nodes keep their numbers"); sym_assert(p->state == i + state0, "a component's nodes keep their state"); for (struct node_lis *l = p->neig->next; l; l = l->next) sym_assert(l->node == l->ref->num, "links carry the number of the node they point to"); q++; }
    sym_assert(q == m, "the network has exactly the expected nodes"); for (i = 0; i < m; i++) { struct node_gra *p2 = hx_find(net, lab[i]); sym_assert(p2 != NULL, "every expected label is present"); int cnt = 0; for (struct node_lis *l = p2->neig->next; l; l = l->next) { for (j = 0; j < m && strcmp(l->ref->label, lab[j]); j++) ; sym_assert(j < m && s.a[i][j] && hx_find(net, lab[j]) == l->ref, "links of a component are those among its nodes"); sym_assert_eq(l->weight, s.w[i][j], "link weight"); cnt++; } sym_assert(cnt == hx_deg(&s, i), "every expected link is present"); sym_assert((int)NodeDegree(p2) == hx_deg(&s, i), "node degree"); }
  } else { hx_same(net, &s, lab, 1); hx_counts(net, &s, lab, 1); }
}
static void giant(struct node_gra *g, Ref *r, int *c, int nc, int thres) {
  int i, k, best = 0, kk; sym_assert(g != NULL && g->next != NULL, "a component is returned"); for (i = 0; strcmp(hx_lab[i], g->next->label); i++) ; kk = c[i]; for (k = 0; k < nc; k++) if (csize(c, r->n, k) > best) best = csize(c, r->n, k);
  sym_assert(csize(c, r->n, kk) == best || csize(c, r->n, kk) > thres, "the component returned is a largest one, or larger than asked for"); sub(g, r, c, kk, 0, 0); RemoveGraph(g);
}
static void all(Ref *r, int undirected) {
  int i, k, n = r->n, b0, thres; struct node_gra *list[HXM], *net; ref(r); thres = sym_bool("thres") ? 1 : 100; net = hx_build(r, sym_bool("rev")); b0 = sym_live_blocks();
  sym_assert(CountStronglyConnectedSets(net) == nscc, "number of components");
  if (undirected) sym_assert(IsGraphConnected(net) == (nscc == 1), "connected exactly when there is one component");
  giant(GetLargestStronglyConnectedSet(net, thres), r, scc, nscc, thres); giant(GetLargestWeaklyConnectedSet(net, thres), r, wcc, nwcc, thres);
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); if (nscc > 1) sym_reach("several"); if (nscc != nwcc) sym_reach("one-way");
  hx_same(net, r, hx_lab, 1); RemoveGraph(net); sym_reach("end");
}
static void each(Ref *r) {
  int i, k, n = r->n, b0, seen[HXM] = {0}; struct node_gra *list[HXM], *net; ref(r); net = hx_build(r, sym_bool("rev")); b0 = sym_live_blocks();
  k = GetAllConnectedSets(net, list); sym_assert(k == nscc, "number of components");
  for (i = 0; i < n; i++) hx_nd[i]->state = 0;
  for (i = 0; i < k; i++) { int q; for (q = 0; strcmp(hx_lab[q], list[i]->next->label); q++) ; sym_assert(!seen[scc[q]], "a component is listed once"); seen[scc[q]] = 1; for (struct node_gra *p = list[i]->next; p; p = p->next) p->state = atoi(p->label + 1); sub(list[i], r, scc, scc[q], 1, 0); RemoveGraph(list[i]); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); hx_same(net, r, hx_lab, 1); RemoveGraph(net); sym_reach("end");
}
void h_undirected(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 0); all(&r, 1); }
void h_selflinks(void) { Ref r; hx_any_undirected(&r, 3, 1, 1); all(&r, 1); }
void h_directed(void) { Ref r; hx_any_directed(&r, NN, 0, 0); all(&r, 0); }
void h_all_undirected(void) { Ref r; hx_any_undirected(&r, sym_pick(1, NN, "n"), 0, 1); each(&r); }
void h_all_directed(void) { Ref r; hx_any_directed(&r, NN, 0, 0); each(&r); }
void h_family(void) { Ref r; hx_family(&r, 0, 1); all(&r, 1); }
void h_familydir(void) { Ref r; hx_family(&r, 1, 1); all(&r, 0); }
void h_familyeach(void) { Ref r; int d = sym_bool("directed"); hx_family(&r, d, 1); each(&r); }
/* reachability of a set of nodes */
void h_reach(void) {
  Ref r; int i, j, m[HXM], want = 0; hx_any_directed(&r, NN, 0, 0); hx_dist(&r, D); for (i = 1; i < NN; i++) m[i] = sym_bool("marked"); m[0] = 0; for (j = 1; j < NN; j++) want |= m[j] && D[0][j] < HXINF;
  struct node_gra *net = hx_build(&r, 0); int b0 = sym_live_blocks(); sym_assert(AreConnectedList(net, hx_nd[0], m) == want, "a set is reached exactly when a path leads to one of its nodes"); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
