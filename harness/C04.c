/* C04: any sequence of K edits of a network of 3 nodes. */
#include "hx.h"
#ifndef KK
#define KK 2
#endif
static void edits(Ref r);
void h_edits(void) {
  Ref r; hx_clear(&r, 3);
  if (sym_bool("01")) { r.a[0][1] = 1; r.w[0][1] = sym_real(0.25, 8, "w"); }
  if (sym_bool("10")) { r.a[1][0] = 1; r.w[1][0] = sym_real(0.25, 8, "w"); }
  if (sym_bool("12")) { r.a[1][2] = 1; r.w[1][2] = sym_real(0.25, 8, "w"); }
  if (sym_bool("11")) { r.a[1][1] = 1; r.w[1][1] = sym_real(0.25, 8, "w"); }
  edits(r);
}
void h_family(void) { Ref r; int d = sym_bool("directed"); hx_family(&r, d, 1); edits(r); }
static void edits(Ref r) {
  int i, j, k; struct node_gra *net = hx_build(&r, r.n > 3 && sym_bool("rev"));
  hx_counts(net, &r, hx_lab, 0);
  for (k = 0; k < KK; k++) {
    int op = sym_pick(0, 2, "op"); i = sym_pick(0, r.n - 1, "i"); j = sym_pick(0, r.n - 1, "j");
    if (op == 0) {
      int autol = sym_bool("auto"), addw = sym_bool("addw"); double w = sym_real(0.25, 8, "w");
      int ret = AddAdjacency(hx_nd[i], hx_nd[j], autol, addw, w, 0), exp;
      if (i == j && !autol) exp = 0; else if (!r.a[i][j]) { r.a[i][j] = 1; r.w[i][j] = w; exp = 1; } else if (addw) { r.w[i][j] += w; exp = 1; } else exp = 0;
      sym_assert(ret == exp, "AddAdjacency reports whether it changed the network");
    } else {
      int symm = op == 2;
      if (!r.a[i][j] || (symm && !r.a[j][i])) sym_stop();
      RemoveLink(hx_nd[i], hx_nd[j], symm); r.a[i][j] = 0; if (symm) r.a[j][i] = 0; sym_reach("removed");
    }
    hx_same(net, &r, hx_lab, 1); hx_counts(net, &r, hx_lab, 0);
    for (i = 0; i < r.n; i++) for (j = 0; j < r.n; j++) {
      sym_assert(IsThereLink(hx_nd[i], hx_nd[j]) == r.a[i][j], "IsThereLink agrees with the edits");
      sym_assert(IsThereLinkSoft(hx_nd[i], hx_nd[j]->num) == r.a[i][j], "IsThereLinkSoft agrees with the edits");
      if (r.a[i][j]) sym_assert_eq(GetLink(hx_nd[i], hx_nd[j]->num)->weight, r.w[i][j], "GetLink returns the link");
    }
  }
  RemoveGraph(net); sym_reach("end");
}
/* soft links become the same network once rewired; links to missing labels are cleaned */
void h_soft(void) {
  Ref r; int i, j; hx_any_directed(&r, 3, 1, 0);
  struct node_gra *root = CreateHeaderGraph(), *last = root, *nd[3]; const char *lab[HXM] = {"b", "ab", "a"}; int drop = sym_pick(-1, 2, "missing");
  for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (r.a[i][j]) r.w[i][j] = sym_real(0.25, 8, "w");
  for (i = 0; i < 3; i++) if (i != drop) last = nd[i] = CreateNodeGraph(last, (char *)lab[i]);
  for (i = 0; i < 3; i++) if (i != drop) for (j = 0; j < 3; j++) if (r.a[i][j]) {
    sym_assert(AddAdjacencySoft(nd[i], (char *)lab[j], 1, 0, r.w[i][j], 0) == 1, "a new soft link is added");
    sym_assert(AddAdjacencySoft(nd[i], (char *)lab[j], 1, 0, 3.0, 0) == 0, "a repeated soft link is ignored");
  }
  if (drop >= 0) { CleanAdjacencies(root); sym_reach("cleaned"); }
  RewireAdjacencyByLabel(root);
  Ref s; const char *sl[HXM]; int m[3], c = 0; for (i = 0; i < 3; i++) if (i != drop) { m[c] = i; sl[c++] = lab[i]; }
  hx_clear(&s, c); for (i = 0; i < c; i++) for (j = 0; j < c; j++) { s.a[i][j] = r.a[m[i]][m[j]]; s.w[i][j] = r.w[m[i]][m[j]]; }
  hx_same(root, &s, sl, 1); hx_counts(root, &s, sl, 0);
  RewireAdjacencyByNum(root); hx_same(root, &s, sl, 1); hx_counts(root, &s, sl, 0);
  void *d = MakeLabelDict(root);
  for (i = 0; i < 3; i++) { struct node_gra *p = GetNodeDict((char *)lab[i], d); if (i == drop) sym_assert(p == NULL, "a removed node is not found by label"); else { sym_assert(p == nd[i], "a node is found by label"); sym_assert(GetNode(nd[i]->num, root) == nd[i], "a node is found by number"); } }
  for (i = 0; i < 3; i++) { char q[8]; strcpy(q, lab[i]); sym_assert(IsThereNode(q, root) == (i != drop), "IsThereNode agrees with the nodes present"); }
  FreeLabelDict(d);
  RemoveGraph(root); sym_reach("end");
}
/* isolated nodes are removed, the others stay as they were */
void h_isolated(void) {
  Ref r; int i, j, dir = sym_bool("directed"); if (dir) hx_any_directed(&r, 3, 0, 1); else hx_any_undirected(&r, 4, 0, 1);
  int b0 = sym_live_blocks(); struct node_gra *net = hx_build(&r, sym_bool("rev")); int m[HXM], c = 0; const char *sl[HXM];
  for (i = 0; i < r.n; i++) { int in = 0; for (j = 0; j < r.n; j++) in |= r.a[j][i]; if (hx_deg(&r, i) || in) { m[c] = i; sl[c++] = hx_lab[i]; } }
  int n0 = r.n, rem = RemoveIsolatedNodes(net);
  sym_assert(rem == n0 - c, "number of isolated nodes removed");
  Ref s; hx_clear(&s, c); for (i = 0; i < c; i++) for (j = 0; j < c; j++) { s.a[i][j] = r.a[m[i]][m[j]]; s.w[i][j] = r.w[m[i]][m[j]]; }
  hx_same(net, &s, sl, 1); hx_counts(net, &s, sl, 0);
  RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); if (rem) sym_reach("removed"); sym_reach("end");
}
#include "hxp.h"
/* removal of the links of a group, between groups */
void h_grouplinks(void) {
  Ref r; int g[HXM], i, j, n = 4, op = sym_pick(0, 3, "op"); hx_any_undirected(&r, n, 0, 1); for (i = 0; i < n; i++) g[i] = sym_pick(0, 1, "group"); struct node_gra *net = hx_build(&r, sym_bool("rev")); struct group *p = hx_build_part(g, n, 2, 0);
  if (op == 0) RemoveWithinGroupLinks(hx_gr[0], 1); else if (op == 1) RemoveBetweenGroupLinks(p, 1); else if (op == 2) RemoveBetweenGroupLinks(p, 0); else RemoveInterGroupLinks(net);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (op == 0 ? g[i] == 0 || g[j] == 0 : g[i] != g[j]) r.a[i][j] = 0;
  hx_same(net, &r, hx_lab, 1); hx_counts(net, &r, hx_lab, 1); RemovePartition(p); RemoveGraph(net); sym_reach("end");
}
/* links to nodes that are not marked are cut */
void ClearAdjacencies(struct node_gra *p, int *net);
void h_clear(void) {
  Ref r; int keep[HXM], i, j, n = 3, cut = 0, cached = sym_bool("cached"); hx_any_directed(&r, n, 1, 1); for (i = 0; i < n; i++) keep[i] = sym_bool("kept"); int b0 = sym_live_blocks(); struct node_gra *net = hx_build(&r, sym_bool("rev"));
  if (cached) for (i = 0; i < n; i++) { NodeDegree(hx_nd[i]); NodeStrength(hx_nd[i]); }
  ClearAdjacencies(net, keep); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (!keep[j] && r.a[i][j]) { r.a[i][j] = 0; r.w[i][j] = 0; cut++; }
  hx_same(net, &r, hx_lab, 1); hx_counts(net, &r, hx_lab, 0); if (cut > 1) sym_reach("cut"); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
