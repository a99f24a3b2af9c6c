/* C29: the readers on every short file over a small alphabet, and on labels around the size limit. */
#include "hxb.h"
#include "modules.h"
#include "partition.h"
#include "recommend.h"
#undef MAX_LABEL_LENGTH
#include "io.h"
#ifndef LL
#define LL 6
#endif
#ifndef ALPHA
#define ALPHA "a1 \n"
#endif
#define MAXL 99
struct group *FReadPartition(FILE *inF);
static FILE *any_file(void) {
  static const char al[] = ALPHA; int i, n = sym_pick(0, LL, "length"); FILE *f = fopen("in", "w"); for (i = 0; i < n; i++) fputc(al[sym_pick(0, (int)sizeof al - 2, "byte")], f); fclose(f); return fopen("in", "r");
}
/* lines (at most 2) of two or three fields; the fields of one line have any of the lengths around the limit */
static int toolong;
static void put(FILE *f, int n, char c) { while (n-- > 0) fputc(c, f); }
static FILE *long_file(const char *sep, const char *tail, int lines) {
  static const int len[] = {1, 98, 99, 100, 101, 300}; int k, at = sym_pick(0, lines - 1, "line"), a = len[sym_pick(0, 5, "length")], b = len[sym_pick(0, 5, "length")]; FILE *f = fopen("in", "w"); toolong = a > MAXL || b > MAXL;
  for (k = 0; k < lines; k++) { put(f, k == at ? a : 2, 'x'); fputs(sep, f); put(f, k == at ? b : 2, 'y'); fputs(tail, f); }
  fclose(f); return fopen("in", "r");
}
static void walk(struct node_gra *net, struct node_gra *oth) {
  struct node_gra *p = net, *q; int n = 0, c; while ((p = p->next) != NULL) { struct node_lis *l = p->neig; sym_assert(p->num == n++, "nodes are numbered consecutively"); sym_assert(strlen(p->label) >= 1 && strlen(p->label) <= MAXL, "labels are complete");
    while ((l = l->next) != NULL) { for (c = 0, q = oth; (q = q->next) != NULL; ) if (q == l->ref) c++; sym_assert(c == 1, "links point to nodes of the network"); sym_assert(!strcmp(l->nodeLabel, l->ref->label), "links carry the label of the node they point to"); } }
}
static void netread(FILE *f, int must) {
  int w = sym_bool("weights"), b0 = sym_live_blocks(); struct node_gra *net = FBuildNetwork(f, w, sym_bool("self"), 0, sym_bool("symmetric"));
  if (must && toolong) sym_assert(net == NULL, "labels that do not fit are reported"); if (must && !w && !toolong) sym_assert(net != NULL, "labels that fit are read");
  if (net == NULL) { sym_reach("rejected"); fclose(f); return; } if (net->next) sym_reach("read"); walk(net, net); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); sym_reach("end");
}
static void bipread(FILE *f, int must) {
  int w = sym_bool("weights"), b0 = sym_live_blocks(); struct binet *net = FBuildNetworkBipart(f, w, sym_bool("add"));
  if (must && toolong) sym_assert(net == NULL, "labels that do not fit are reported"); if (must && !w && !toolong) sym_assert(net != NULL, "labels that fit are read");
  if (net == NULL) { sym_reach("rejected"); fclose(f); return; } if (net->net1->next) sym_reach("read"); walk(net->net1, net->net2); walk(net->net2, net->net1); RemoveBipart(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); sym_reach("end");
}
static void edgeread(FILE *f, int must) {
  int w = sym_bool("weights"), bip = sym_pick(0, 2, "bipartite"), b0 = sym_live_blocks(), r; unsigned int *in, *out, ne, n, i; double *ws; char **lab;
  r = EdgeListFileInput(f, w, bip, &in, &out, &ws, &lab, &ne, &n);
  if (must && toolong) sym_assert(r != 0, "labels that do not fit are reported"); if (must && !w && !toolong) sym_assert(r == 0, "labels that fit are read");
  if (r) { sym_reach("rejected"); fclose(f); return; } if (ne) sym_reach("read");
  for (i = 0; i < ne; i++) { sym_assert(in[i] < n, "edges join existing nodes"); if (!bip) sym_assert(out[i] < n, "edges join existing nodes"); }
  for (i = 0; i < n; i++) { sym_assert(strlen(lab[i]) >= 1 && strlen(lab[i]) <= MAXL, "labels are complete"); free(lab[i]); }
  free(in); free(out); free(ws); free(lab); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); sym_reach("end");
}
static void partread(FILE *f, int kind, int must) {
  int b0 = sym_live_blocks(), n = 0; sym_step_limit(2000000); struct group *p = kind ? FReadPartition(f) : FCreatePartition(f), *g = p;
  while ((g = g->next) != NULL) { struct node_lis *l = g->nodeList; int c = 0; sym_assert(g->label == n++, "groups are numbered consecutively"); while ((l = l->next) != NULL) { c++; sym_assert(strlen(l->nodeLabel) >= 1 && strlen(l->nodeLabel) <= MAXL, "labels are complete"); if (must && c > 0) sym_assert(l->nodeLabel[0] == l->nodeLabel[strlen(l->nodeLabel) - 1], "labels are not cut or glued"); } sym_assert(g->size == c, "group sizes"); if (c > 1) sym_reach("read"); }
  RemovePartition(p); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); sym_reach("end");
}
static void queryread(FILE *f, int must) {
  BRef r; int i, nq = must ? 2 : sym_pick(0, 2, "queries"); hxb_clear(&r, 1, 1); r.a[0][0] = 1; r.w[0][0] = 1; int b0 = sym_live_blocks(); struct binet *b = hxb_build(&r, 0); sym_step_limit(2000000);
  struct query **q = ReadQueries(f, nq, b); if (must) sym_assert((q == NULL) == toolong, "queries are read exactly when their labels fit");
  walk(b->net1, b->net2); walk(b->net2, b->net1);
  if (q == NULL) { sym_reach("rejected"); RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); return; }
  for (i = 0; i < nq; i++) { struct node_gra *p; int c = 0, d = 0; for (p = b->net1->next; p; p = p->next) c += p == q[i]->n1; for (p = b->net2->next; p; p = p->next) d += p == q[i]->n2; sym_assert(c == 1 && d == 1, "queries are pairs of nodes of the two sides"); FreeQuery(q[i]); }
  if (nq) sym_reach("read"); free(q); RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); fclose(f); sym_reach("end");
}
static void modread(FILE *f) {
  static char *lab[] = {"a", "1", "aa"}; int b0 = sym_live_blocks(), i, k, n = 3, m = sym_pick(1, 3, "modules"); Partition *p = CreatePartition(n, m); for (i = 0; i < n; i++) { p->nodes[i]->id = i; p->nodes[i]->strength = 1; }
  int un = AssignNodesToModulesFromFile(f, p, lab); sym_assert(un >= 0 && un <= n, "number of unassigned nodes"); int c = 0;
  for (k = 0; k < (int)p->M; k++) { Node *x; int s = 0; for (x = p->modules[k]->first; x; x = x->next) { sym_assert((int)x->module == k, "nodes are in the module that lists them"); s++; } sym_assert(s == (int)p->modules[k]->size, "module sizes"); c += s; }
  sym_assert(c == n - un, "the nodes that were not reported missing are in modules"); if (c > 1) sym_reach("read"); FreePartition(p); fclose(f); sym_reach("end");
}
void h_net(void) { netread(any_file(), 0); }
void h_bip(void) { bipread(any_file(), 0); }
void h_edge(void) { edgeread(any_file(), 0); }
void h_part(void) { partread(any_file(), 0, 0); }
void h_fread(void) { partread(any_file(), 1, 0); }
void h_query(void) { queryread(any_file(), 0); }
void h_mods(void) { modread(any_file()); }
void h_net_long(void) { netread(long_file(" ", sym_bool("third") ? " 1\n" : "\n", 2), 1); }
void h_bip_long(void) { bipread(long_file("\t", sym_bool("third") ? " 1\n" : "\n", 2), 1); }
void h_edge_long(void) { edgeread(long_file(" ", sym_bool("third") ? " 1\n" : "\n", 2), 1); }
void h_part_long(void) { partread(long_file("\n", "\n///\n", 2), 0, 1); }
void h_fread_long(void) { partread(long_file("\t", "\n", 2), 1, 1); }
void h_query_long(void) { queryread(long_file(" ", "\n", 2), 1); }
/* files of many lines, around the sizes at which tables grow: some lines with one new label, then lines with two, then lines with none */
static FILE *many_file(int *nodes) {
  int i, n = 0, e = 0, one = sym_pick(0, 2, "one new"), two = sym_pick(0, 1, "far") * 8 + sym_pick(2, 9, "two new"), none = sym_pick(0, 2, "none new"), rep = none == 0 ? 0 : sym_pick(0, 5, "repeats") + (none == 1 ? 98 : 198) - one - two - 2; FILE *f = fopen("in", "w");
  fprintf(f, "n%d n%d\n", n, n); n++; e++; for (i = 0; i < one; i++, e++, n++) fprintf(f, "n%d n0\n", n); for (i = 0; i < two; i++, e++, n += 2) fprintf(f, "n%d n%d\n", n, n + 1); for (i = 0; i < rep; i++, e++) fputs("n0 n0\n", f);
  fclose(f); nodes[0] = n; nodes[1] = e; return fopen("in", "r");
}
void h_edge_many(void) {
  int b0 = sym_live_blocks(), q[2]; FILE *f = many_file(q); unsigned int *in, *out, ne, n, i; double *ws; char **lab; int r = EdgeListFileInput(f, 0, sym_bool("bip"), &in, &out, &ws, &lab, &ne, &n);
  sym_assert(r == 0 && (int)ne == q[1] && (int)n <= q[0], "every line is read"); for (i = 0; i < n; i++) { sym_assert(lab[i][0] == 'n', "labels are complete"); free(lab[i]); } for (i = 0; i < ne; i++) sym_assert(in[i] < n && ws[i] == 1, "edges join existing nodes");
  free(in); free(out); free(ws); free(lab); fclose(f); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
/* a module per line, or all in one, for as many nodes as a table may hold */
void h_mods_many(void) {
  static char L[64][8]; char *lab[64]; int b0 = sym_live_blocks(), n = sym_pick(1, 40, "nodes"), m = sym_bool("one") ? 1 : n, i, k, s = 0; FILE *f = fopen("in", "w"); Partition *p = CreatePartition(n, m);
  for (i = 0; i < n; i++) { sprintf(L[i], "n%d", i); lab[i] = L[i]; p->nodes[i]->id = i; p->nodes[i]->strength = 1; fprintf(f, "%s%c", L[i], m == 1 ? '\t' : '\n'); } fclose(f); f = fopen("in", "r");
  sym_assert(AssignNodesToModulesFromFile(f, p, lab) == 0, "no node is missing"); sym_assert((int)p->M == m, "modules"); for (k = 0; k < m; k++) { Node *x; for (x = p->modules[k]->first; x; x = x->next) { sym_assert(m == 1 || (int)x->id == k, "one node per line"); s++; } } sym_assert(s == n, "every node is in a module");
  FreePartition(p); fclose(f); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
