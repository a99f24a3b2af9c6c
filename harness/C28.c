/* C28: projections and edits of every bipartite network of NN x MM nodes. */
#include "hxb.h"
#ifndef NN
#define NN 3
#endif
#ifndef MM
#define MM 3
#endif
static int shared(BRef *r, int i, int j) { int k, c = 0; for (k = 0; k < r->m; k++) c += r->a[i][k] && r->a[j][k]; return c; }
static double sharedw(BRef *r, int i, int j) { int k; double c = 0; for (k = 0; k < r->m; k++) if (r->a[i][k] && r->a[j][k]) c += r->w[i][k] * r->w[j][k]; return c; }
static void project(BRef r, int wsw) {
  Ref e; int i, j, b0 = sym_live_blocks(); struct binet *b = hxb_build(&r, sym_bool("rev"));
  hx_clear(&e, r.n);
  for (i = 0; i < r.n; i++) for (j = 0; j < r.n; j++) if (i != j) { e.a[i][j] = shared(&r, i, j) > 0; e.w[i][j] = wsw ? sharedw(&r, i, j) : shared(&r, i, j); sym_assert(NCommonLinksBipart(hxb_1[i], hxb_1[j]) == shared(&r, i, j), "number of shared partners"); if (wsw) sym_assert_eq(SumProductsOfCommonWeightsBipart(hxb_1[i], hxb_1[j]), sharedw(&r, i, j), "sum of products of shared weights"); }
  struct node_gra *p = wsw ? ProjectBipartWeighted(b) : ProjectBipart(b);
  hx_same(p, &e, hxb_l1, 1); hx_counts(p, &e, hxb_l1, 1);
  RemoveGraph(p); hxb_same(b, &r, hxb_l1, hxb_l2, 1); RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_project(void) { BRef r; hxb_any(&r, NN, MM, 0); project(r, 0); }
void h_projectw(void) { BRef r; hxb_any(&r, NN, MM, 1); project(r, 1); }
void h_family(void) { BRef r; int w = sym_bool("weighted"); hxb_family(&r, w); project(r, w); }
static void edits(BRef r, int kk) {
  BRef s; int i, j, k, b0 = sym_live_blocks(); struct binet *b = hxb_build(&r, sym_bool("rev")); const char *l1[HXM], *l2[HXM];
  for (i = 0; i < r.n; i++) l1[i] = hxb_l1[i]; for (j = 0; j < r.m; j++) l2[j] = hxb_l2[j];
  for (k = 0; k < kk; k++) {
    int op = sym_pick(0, 2, "op");
    if (op == 0) { struct binet *q = InvertBipart(b); b = q; hxb_clear(&s, r.m, r.n); for (i = 0; i < r.n; i++) for (j = 0; j < r.m; j++) { s.a[j][i] = r.a[i][j]; s.w[j][i] = r.w[i][j]; } r = s; const char *t[HXM]; memcpy(t, l1, sizeof t); memcpy(l1, l2, sizeof t); memcpy(l2, t, sizeof t); }
    else {
      int n = op == 1 ? r.n : r.m; if (n == 0) sym_stop(); int v = sym_pick(0, n - 1, "victim"); char lab[8]; strcpy(lab, op == 1 ? l1[v] : l2[v]);
      RemoveNodeBipart(b, lab, op);
      if (op == 1) { for (i = v; i + 1 < r.n; i++) { memcpy(r.a[i], r.a[i + 1], sizeof r.a[i]); memcpy(r.w[i], r.w[i + 1], sizeof r.w[i]); l1[i] = l1[i + 1]; } r.n--; }
      else { for (i = 0; i < r.n; i++) for (j = v; j + 1 < r.m; j++) { r.a[i][j] = r.a[i][j + 1]; r.w[i][j] = r.w[i][j + 1]; } for (j = v; j + 1 < r.m; j++) l2[j] = l2[j + 1]; r.m--; }
      sym_reach("removed");
    }
    hxb_same(b, &r, l1, l2, 1);
  }
  RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_edits(void) { BRef r; hxb_any(&r, NN, 2, 1); edits(r, 2); }
void h_familyedits(void) { BRef r; hxb_family(&r, 1); edits(r, 2); }
