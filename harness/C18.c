/* C18: group bookkeeping under edits, mapping, copying, compaction. */
#include "hxp.h"
#ifndef NN
#define NN 4
#endif
#ifndef KK
#define KK 2
#endif
#define NG 3
static void all(struct group *part, Ref *r, int *g, int ng, int counts) {
  int k, i, ne = 0, tot = 0; struct group *q = part; for (k = 0; k < ng; k++) { q = GetGroup(part, k); sym_assert(q == hx_gr[k], "a group is found by its label"); hx_group_nodes(q, g, NN, k, hx_nd, hx_lab, 1); if (counts) hx_group_counts(q, r, g, k); if (q->size) ne++; tot += q->size; }
  for (i = 0; i < NN; i++) if (g[i] >= 0) sym_assert(hx_nd[i]->inGroup == g[i], "a node records the group it is in");
  sym_assert(NGroups(part) == ng && NNonEmptyGroups(part) == ne && PartitionSize(part) == tot, "numbers of groups and nodes");
  struct group *e = GetEmptyGroup(part); sym_assert(ne == ng ? e == NULL : (e != NULL && e->size == 0), "an empty group is found when there is one");
}
static int lto(Ref *r, int *g, int i, int k) { int j, c = 0; for (j = 0; j < r->n; j++) c += r->a[i][j] && g[j] == k; return c; }
static double wto(Ref *r, int *g, int i, int k) { int j; double c = 0; for (j = 0; j < r->n; j++) if (r->a[i][j] && g[j] == k) c += r->w[i][j]; return c; }
static void between(Ref *r, int *g, int ng) {
  int i, k, h; for (i = 0; i < NN; i++) for (k = 0; k < ng; k++) { sym_assert(NLinksToGroup(hx_nd[i], hx_gr[k]) == lto(r, g, i, k) && NLinksToGroupByNum(hx_nd[i], k) == lto(r, g, i, k), "links of a node to a group"); sym_assert_eq(StrengthToGroup(hx_nd[i], hx_gr[k]), wto(r, g, i, k), "strength of a node to a group"); sym_assert_eq(StrengthToGroupByNum(hx_nd[i], k), wto(r, g, i, k), "strength of a node to a group"); }
  for (k = 0; k < ng; k++) for (h = 0; h < ng; h++) { int c = 0; double w = 0; for (i = 0; i < NN; i++) if (g[i] == k) { c += lto(r, g, i, h); w += wto(r, g, i, h); } if (h == k) { c /= 2; w /= 2; } sym_assert(NG2GLinks(hx_gr[k], hx_gr[h]) == c, "links between two groups"); sym_assert_eq(NG2GLinksWeight(hx_gr[k], hx_gr[h]), w, "weight between two groups"); }
}
static void edits(int fast) {
  Ref r; int g[HXM], i, j, k, s, ng = NG; 
#ifdef FAMILY
  hx_family(&r, 0, 1);
#elif defined FEW
  hx_clear(&r, NN); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if ((i + j) % 3 == 0 || sym_bool("link")) { r.a[i][j] = r.a[j][i] = 1; r.w[i][j] = r.w[j][i] = sym_real(0.25, 8, "w"); }
#else
  hx_any_undirected(&r, NN, 0, 1);
#endif
#ifdef FAMILY
  k = sym_pick(0, 2, "groups"); for (i = 0; i < NN; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : 1;
#else
  for (i = 0; i < NN; i++) g[i] = i < 2 ? sym_pick(0, 1, "group") : i - 2;
#endif
  if (sym_bool("out")) g[0] = -1;
  struct node_gra *net = hx_build(&r, 0); ResetNetGroup(net); int b0 = sym_live_blocks(); struct group *part = hx_build_part(g, NN, ng, sym_bool("rev"));
  all(part, &r, g, ng, 1); between(&r, g, ng);
  for (s = 0; s < KK; s++) {
    int op = sym_pick(0, 3, "op"); i = sym_pick(0, op == 3 ? ng - 1 : NN - 1, "node"); 
    if (op == 0) { if (g[i] >= 0) sym_stop(); k = sym_pick(0, ng - 1, "to"); if (fast) AddNodeToGroupFast(hx_gr[k], hx_nd[i]); else AddNodeToGroup(hx_gr[k], hx_nd[i]); g[i] = k; sym_reach("added"); }
    else if (op == 1) { k = sym_pick(0, ng - 1, "from"); int was = g[i] == k; int ret = fast ? RemoveNodeFromGroupFast(hx_gr[k], hx_nd[i]) : RemoveNodeFromGroup(hx_gr[k], hx_nd[i]); sym_assert(ret == was, "removal reports whether the node was there"); if (was) g[i] = -1; }
    else if (op == 2) { if (g[i] < 0) sym_stop(); k = sym_pick(0, ng - 1, "to"); sym_assert((fast ? MoveNodeFast(hx_nd[i], hx_gr[g[i]], hx_gr[k]) : MoveNode(hx_nd[i], hx_gr[g[i]], hx_gr[k])) == 1, "a move of a node in its group succeeds"); g[i] = k; }
    else { k = sym_pick(0, ng - 1, "into"); if (k == i) sym_stop(); if (fast) MergeGroupsFast(hx_gr[i], hx_gr[k]); else MergeGroups(hx_gr[i], hx_gr[k]); for (j = 0; j < NN; j++) if (g[j] == i) g[j] = k; sym_reach("merged"); }
    all(part, &r, g, ng, !fast); if (!fast && s == KK - 1) { int un = 0; for (j = 0; j < NN; j++) un |= g[j] < 0; if (!un) between(&r, g, ng); }
  }
  RemovePartition(part); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
void h_edits(void) { edits(0); }
void h_fast(void) { edits(1); }
/* the compacted partition has the same groups without the empty ones; copy and mapping keep them */
void h_keep(void) {
  Ref r; int g[HXM], i, k;
#ifdef FAMILY
  hx_family(&r, 0, 1); k = sym_pick(0, 2, "groups"); for (i = 0; i < NN; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : 1;
#else
  hx_any_undirected(&r, NN, 0, 1); for (i = 0; i < NN; i++) g[i] = sym_pick(0, NG - 1, "group");
#endif
  struct node_gra *net = hx_build(&r, 0), *net2; int b0 = sym_live_blocks(); struct group *part = hx_build_part(g, NN, NG, 0), *copy, *q;
  copy = CopyPartition(part); sym_assert(copy != part, "a copy is a new object"); MapPartToNet(copy, net);
  for (k = 0; k < NG; k++) { q = GetGroup(copy, k); sym_assert(q != NULL && q != hx_gr[k] && q->nodeList != hx_gr[k]->nodeList, "a copy has its own groups"); hx_group_nodes(q, g, NN, k, hx_nd, hx_lab, 1); hx_group_counts(q, &r, g, k); }
  RemovePartition(copy); MapPartToNet(part, net); all(part, &r, g, NG, 1);
  /* map to another network of the same labels, other links */
  struct node_gra *nd[HXM]; Ref s; hx_clear(&s, NN); for (i = 0; i + 1 < NN; i++) { s.a[i][i + 1] = s.a[i + 1][i] = 1; s.w[i][i + 1] = s.w[i + 1][i] = i + 1; } memcpy(nd, hx_nd, sizeof nd); net2 = hx_build(&s, 0);
  MapPartToNet(part, net2); all(part, &s, g, NG, 1); memcpy(hx_nd, nd, sizeof nd);
  MapPartToNetFast(part, net); for (k = 0; k < NG; k++) hx_group_nodes(hx_gr[k], g, NN, k, hx_nd, hx_lab, 1); for (i = 0; i < NN; i++) sym_assert(hx_nd[i]->inGroup == g[i], "a node records the group it is in"); MapPartToNet(part, net); all(part, &r, g, NG, 1);
  int ne[NG] = {0}, c = 0; for (i = 0; i < NN; i++) ne[g[i]] = 1; for (k = 0; k < NG; k++) c += ne[k];
  q = CompressPart(part); sym_assert(q == part, "compaction keeps the partition"); sym_assert(NGroups(part) == c && NNonEmptyGroups(part) == c, "compaction leaves the non-empty groups");
  for (k = 0; k < NG; k++) { q = GetGroup(part, k); sym_assert((q != NULL) == ne[k], "compaction removes exactly the empty groups"); if (q) { hx_group_nodes(q, g, NN, k, hx_nd, hx_lab, 1); hx_group_counts(q, &r, g, k); } }
  if (c < NG) sym_reach("empty groups"); RemovePartition(part); RemoveGraph(net2); sym_assert(sym_live_blocks() == b0, "the library releases all its memory");
  RemoveGraph(net); sym_reach("end");
}
/* partitions created from group numbers, of equal sizes, and soft mapping */
void h_create(void) {
  Ref r; int g[HXM], i, k, b0; hx_any_undirected(&r, NN, 0, 1); for (i = 0; i < NN; i++) g[i] = sym_pick(0, NG, "group"); struct node_gra *net = hx_build(&r, 0); 
  for (i = 0; i < NN; i++) hx_nd[i]->inGroup = g[i]; b0 = sym_live_blocks();
  struct group *part = CreatePartitionFromInGroup(net), *q; for (k = 0; k <= NG; k++) { int u = 0; for (i = 0; i < NN; i++) u |= g[i] == k; q = GetGroup(part, k); sym_assert((q != NULL) == u, "one group per group number in use"); if (q) { hx_group_nodes(q, g, NN, k, hx_nd, hx_lab, 1); } }
  MapPartToNet(part, net); for (q = part->next; q; q = q->next) hx_group_counts(q, &r, g, q->label);
  ResetNetGroup(net); for (i = 0; i < NN; i++) sym_assert(hx_nd[i]->inGroup == -1, "reset nodes are in no group"); MapPartToNetSoft(part, net); for (i = 0; i < NN; i++) sym_assert(hx_nd[i]->inGroup == g[i], "soft mapping sets the nodes' groups"); for (q = part->next; q; q = q->next) hx_group_counts(q, &r, g, q->label);
  { Ref s; struct node_gra *keep[HXM], *sub; hx_clear(&s, NN - 1); s.a[0][1] = s.a[1][0] = 1; memcpy(keep, hx_nd, sizeof keep); sub = hx_build(&s, 0); MapPartToNetSoft(part, sub); for (i = 0; i + 1 < NN; i++) sym_assert(hx_nd[i]->inGroup == g[i], "soft mapping to a network with fewer nodes sets the nodes' groups"); RemoveGraph(sub); memcpy(hx_nd, keep, sizeof keep); for (q = part->next; q; q = q->next) hx_group_nodes(q, g, NN, q->label, hx_nd, hx_lab, 1); }
  { struct group *few = CreateHeaderGroup(); int k; CreateGroup(few, 0); for (i = 0; i + 1 < NN; i++) AddNodeToGroupSoft(few->next, (char *)hx_lab[i]);
    for (k = 0; k < 3; k++) { for (i = 0; i < NN; i++) hx_nd[i]->inGroup = 1; if (k == 0) MapPartToNetSoft(few, net); else if (k == 1) MapPartToNet(few, net); else MapPartToNetFast(few, net); for (i = 0; i < NN; i++) sym_assert(hx_nd[i]->inGroup == (i + 1 < NN ? 0 : -1), "a node that the partition leaves out is in no group"); } RemovePartition(few); MapPartToNet(part, net); }
  RemovePartition(part);
  if (sym_bool("reset")) ResetNetGroup(net); int gs = sym_pick(1, NN, "size"); part = CreateEquiNPartition(net, gs); for (i = 0; i < NN; i++) g[i] = i / gs; sym_assert(NGroups(part) == (NN + gs - 1) / gs, "as many groups as needed");
  for (q = part->next; q; q = q->next) { hx_group_nodes(q, g, NN, q->label, hx_nd, hx_lab, 1); hx_group_counts(q, &r, g, q->label); } RemovePartition(part);
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
/* partitions of labels into equal groups */
void h_soft(void) {
  int b0 = sym_live_blocks(), ng = sym_pick(0, 4, "groups"), gs = sym_pick(0, 4, "size"), i, j, n = 0; struct group *p = CreateEquiNPartitionSoft(ng, gs), *q = p; for (i = 0; i < ng; i++) { q = q->next; sym_assert(q != NULL && q->label == i && q->size == gs, "as many groups of that size as asked for"); struct node_lis *l = q->nodeList; for (j = 0; j < gs; j++) { char s[16]; sprintf(s, "%d", ++n); l = l->next; sym_assert(l != NULL && !strcmp(l->nodeLabel, s), "labels are the numbers from one, in order"); } sym_assert(l->next == NULL, "as many labels as the size says"); }
  sym_assert(q->next == NULL, "no other group"); sym_assert(NGroups(p) == ng && PartitionSize(p) == ng * gs, "size of the partition"); RemovePartition(p); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
