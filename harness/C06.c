/* C06: networks written to a file and read back. */
#include "hxb.h"
static const double ws[4] = {1, 0.3125, 12.0625, 100};
static const char *lb[HXM] = {"b", "ab", "a", "B", "10", "1", "x-y", "%d"};
static struct node_gra *mk(Ref *r, struct node_gra **nd) {
  struct node_gra *root = CreateHeaderGraph(), *l = root; int i, j; for (i = 0; i < r->n; i++) { char s[8]; strcpy(s, lb[i]); l = nd[i] = CreateNodeGraph(l, s); }
  for (i = 0; i < r->n; i++) for (j = r->n - 1; j >= 0; j--) if (r->a[i][j]) AddAdjacency(nd[i], nd[j], 1, 0, r->w[i][j], 0);
  return root;
}
static int lines(const char *f) { FILE *h = fopen(f, "r"); int c, n = 0; while ((c = fgetc(h)) != EOF) n += c == '\n'; fclose(h); return n; }
static void back(Ref *r, int wsw, int symm, int self) {
  int i, j, c = 0, m[HXM], e = 0; const char *sl[HXM]; struct node_gra *nd[HXM]; Ref s; struct node_gra *net = mk(r, nd);
  FILE *f = fopen("net.dat", "w"); FPrintNetAdjacencyList(f, net, wsw, symm); fclose(f);
  for (i = 0; i < r->n; i++) for (j = symm ? i : 0; j < r->n; j++) e += r->a[i][j];
  sym_assert(lines("net.dat") == e, "one line per link");
  int b0 = sym_live_blocks(); f = fopen("net.dat", "r"); struct node_gra *b = FBuildNetwork(f, wsw, self, 0, symm); fclose(f); sym_assert(b != NULL, "the written file is accepted");
  for (i = 0; i < r->n; i++) { int l = 0; for (j = 0; j < r->n; j++) l |= r->a[i][j] | r->a[j][i]; if (l) { m[c] = i; sl[c++] = lb[i]; } }
  hx_clear(&s, c); for (i = 0; i < c; i++) for (j = 0; j < c; j++) { s.a[i][j] = r->a[m[i]][m[j]]; s.w[i][j] = wsw ? r->w[m[i]][m[j]] : 1; }
  hx_same(b, &s, sl, 1); hx_counts(b, &s, sl, symm); RemoveGraph(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemoveGraph(net); sym_reach("end");
}
void h_undirected(void) { Ref r; int i, j; hx_any_undirected(&r, 4, 0, 0); int wsw = sym_bool("weighted"); if (wsw) { int o = sym_pick(0, 3, "first weight"); for (i = 0; i < 4; i++) for (j = i + 1; j < 4; j++) r.w[i][j] = r.w[j][i] = ws[(o + 3 * i + j) % 4]; } back(&r, wsw, 1, 0); }
void h_selflinks(void) { Ref r; hx_any_undirected(&r, 3, 1, 0); back(&r, sym_bool("weighted"), 1, 1); }
void h_directed(void) { Ref r; int i, j; hx_any_directed(&r, 3, 1, 0); int wsw = sym_bool("weighted"); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (wsw) r.w[i][j] = ws[(i + 2 * j) % 4]; back(&r, wsw, 0, 1); }
void h_family(void) { Ref r; int d = sym_bool("directed"), w = sym_bool("weighted"); hx_family(&r, d, w); back(&r, w, !d, 0); }
/* weights of any size, to the six digits that are printed */
void h_digits(void) {
  static const double v[] = {0.1, 1.0 / 3, 123456, 999999, 1234567, 1e9, 2.5e-5, 1e-7, 65536.25, 1e-300, 1e100}; int k = sym_pick(0, 10, "weight"), bip = sym_bool("bipartite"), neg = sym_bool("negative"); double x = 0, w = neg ? -v[k] : v[k]; FILE *f;
  if (!bip) { Ref r; struct node_gra *nd[HXM], *n; hx_clear(&r, 2); r.a[0][1] = r.a[1][0] = 1; r.w[0][1] = r.w[1][0] = w; n = mk(&r, nd); f = fopen("net.dat", "w"); FPrintNetAdjacencyList(f, n, 1, sym_bool("symmetric")); fclose(f); RemoveGraph(n); f = fopen("net.dat", "r"); n = FBuildNetwork(f, 1, 0, 0, 1); fclose(f); sym_assert(n != NULL && n->next != NULL && n->next->neig->next != NULL, "the written file is accepted"); x = n->next->neig->next->weight; RemoveGraph(n); }
  else { BRef r; struct binet *b; hxb_clear(&r, 1, 1); r.a[0][0] = 1; r.w[0][0] = w; b = hxb_build(&r, 0); f = fopen("net.dat", "w"); FPrintBipart(f, b, 1); fclose(f); RemoveBipart(b); f = fopen("net.dat", "r"); b = FBuildNetworkBipart(f, 1, 0); fclose(f); sym_assert(b != NULL && b->net1->next != NULL && b->net1->next->neig->next != NULL, "the written file is accepted"); x = b->net1->next->neig->next->weight; RemoveBipart(b); }
  sym_assert((x - w) / w < 5.1e-6 && (x - w) / w > -5.1e-6, "weights are kept to six significant digits"); sym_reach("end");
}
static void bipart(BRef r, int wsw) {
  BRef s; int i, j, k1[HXM], k2[HXM], c1 = 0, c2 = 0; const char *l1[HXM], *l2[HXM];
  struct binet *b = hxb_build(&r, sym_bool("rev")); FILE *f = fopen("net.dat", "w"); FPrintBipart(f, b, wsw); fclose(f); RemoveBipart(b);
  sym_assert(lines("net.dat") == hxb_nlinks(&r), "one line per link");
  f = fopen("net.dat", "r"); b = FBuildNetworkBipart(f, wsw, 0); fclose(f);
  for (i = 0; i < r.n; i++) { int l = 0; for (j = 0; j < r.m; j++) l |= r.a[i][j]; if (l) { k1[c1] = i; l1[c1++] = hxb_l1[i]; } }
  for (i = 0; i < r.m; i++) { int l = 0; for (j = 0; j < r.n; j++) l |= r.a[j][i]; if (l) { k2[c2] = i; l2[c2++] = hxb_l2[i]; } }
  hxb_clear(&s, c1, c2); for (i = 0; i < c1; i++) for (j = 0; j < c2; j++) { s.a[i][j] = r.a[k1[i]][k2[j]]; s.w[i][j] = wsw ? r.w[k1[i]][k2[j]] : 1; }
  hxb_same(b, &s, l1, l2, 1); RemoveBipart(b); sym_reach("end");
}
void h_bipart(void) { BRef r; int i, j, w; hxb_any(&r, 3, 3, 0); w = sym_bool("weighted"); if (w) for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) r.w[i][j] = ws[(i + 2 * j) % 4]; bipart(r, w); }
void h_familybip(void) { BRef r; int w = sym_bool("weighted"); hxb_family(&r, w); bipart(r, w); }
/* Pajek output names every node and link once */
void h_pajek(void) {
  Ref r; int i, j, n, x, y, e = 0, seen[HXM][HXM] = {{0}}; char s[80], q[80]; double w; hx_any_undirected(&r, 3, 1, 0); struct node_gra *nd[HXM]; int wsw = sym_bool("weighted"); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (r.a[i][j]) r.w[i][j] = ws[(i + j) % 4];
  struct node_gra *net = mk(&r, nd); FPrintPajekFile("net.net", net, 0, wsw, 1); FILE *f = fopen("net.net", "r");
  sym_assert(fscanf(f, "%s %d", s, &n) == 2 && !strcmp(s, "*Vertices") && n == 3, "header names the number of nodes");
  for (i = 0; i < 3; i++) { sym_assert(fscanf(f, "%d %s", &n, s) == 2 && n == i + 1, "nodes are numbered from one"); sprintf(q, "\"%s\"", lb[i]); sym_assert(!strcmp(q, s), "node label"); }
  sym_assert(fscanf(f, "%s", s) == 1 && !strcmp(s, "*Edges"), "edges title");
  while (fscanf(f, "%d %d", &x, &y) == 2) { w = 1; if (wsw) sym_assert(fscanf(f, "%lf", &w) == 1, "weight is written"); sym_assert(x >= 1 && x <= 3 && y >= 1 && y <= 3 && r.a[x - 1][y - 1], "only links of the network are written"); if (wsw) sym_assert_eq(w, r.w[x - 1][y - 1], "link weight"); sym_assert(!seen[x - 1][y - 1] && !seen[y - 1][x - 1], "each link is written once"); seen[x - 1][y - 1] = 1; e++; }
  fclose(f); for (i = 0; i < 3; i++) for (j = i; j < 3; j++) n -= 0, e -= r.a[i][j]; sym_assert(e == 0, "every link is written"); RemoveGraph(net); sym_reach("end");
}
/* the list of degrees */
void h_degrees(void) {
  Ref r; int i, d; char s[120]; struct node_gra *nd[HXM]; hx_any_directed(&r, 3, 1, 0); struct node_gra *net = mk(&r, nd); FILE *f = fopen("deg", "w"); FPrintDegrees(f, net); fclose(f); f = fopen("deg", "r");
  for (i = 0; i < 3; i++) sym_assert(fscanf(f, "%s %d", s, &d) == 2 && !strcmp(s, lb[i]) && d == hx_deg(&r, i), "each node is listed with its degree"); sym_assert(fscanf(f, "%s", s) != 1, "nothing else is written"); fclose(f); RemoveGraph(net); sym_reach("end");
}
