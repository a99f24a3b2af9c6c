/* C07: partitions written and read back. */
#include "hxq.h"
#ifndef NN
#define NN 4
#endif
struct group *FReadPartition(FILE *inF);
static const char *pl[HXM] = {"a", "b2", "#c", "Dd", "e.5"};
/* the partition p groups the labels exactly as g does */
static void groups(struct group *p, int *g, const char **lab, int n) {
  int own[HXM], i, j, cnt = 0, ng = 0; struct group *q; for (i = 0; i < n; i++) own[i] = -1;
  for (q = p->next; q != NULL; q = q->next) { int c = 0; struct node_lis *l; for (l = q->nodeList->next; l != NULL; l = l->next) { for (i = 0; i < n && strcmp(l->nodeLabel, lab[i]); i++) ; sym_assert(i < n, "no label is invented"); sym_assert(own[i] < 0, "a label is listed once"); own[i] = ng; c++; cnt++; } sym_assert(q->size == c, "size of a group"); ng++; }
  sym_assert(cnt == n, "every label is in a group"); for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert((own[i] == own[j]) == (g[i] == g[j]), "labels are grouped together exactly when they were");
}
static int sizes(struct group *p) { int c = 0; for (p = p->next; p; p = p->next) c += p->size > 0; return c; }
/* group-per-line list format */
static const char *any[] = {"%s%n", "01", "1", "x/y", "//", "/", "-1.5", "a,b"}; static char lg[2][100];
static void odd_labels(void) { int k; if (sym_bool("long labels")) { for (k = 0; k < 99; k++) lg[0][k] = lg[1][k] = 'a' + k % 26; lg[1][98] = 'Z'; pl[0] = lg[0]; pl[1] = lg[1]; pl[2] = "abc"; } else for (k = 0; k < 3; k++) pl[k] = any[k + 3 * sym_bool("set")]; }
static void list(int n, int *g, int ng) {
  int i, empty = sym_bool("empty group"), gap = sym_bool("gap"), b0; FILE *f; struct group *p = CreateHeaderGroup(), *q[HXM];
  if (gap) CreateGroup(p, 50); for (i = 0; i < ng; i++) { q[i] = CreateGroup(p, i); if (i == 0 && empty) CreateGroup(p, 40); } for (i = 0; i < n; i++) AddNodeToGroupSoft(q[g[i]], (char *)pl[i]);
  f = fopen("p", "w"); FPrintPartition(f, p, 1); fclose(f); b0 = sym_live_blocks(); f = fopen("p", "r"); struct group *r = FCreatePartition(f); fclose(f); groups(r, g, pl, n);
  RemovePartition(r); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); RemovePartition(p); sym_reach("end");
}
void h_list(void) { int g[HXM], n = sym_pick(1, NN, "n"), ng = hx_any_part(g, n, n); list(n, g, ng); }
void h_listlabels(void) { int g[HXM], ng; odd_labels(); ng = hx_any_part(g, 3, 3); list(3, g, ng); }
#if HXM >= 24
static int manyg(int *g) { static const char *more[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "m21"}; int i, k = sym_pick(0, 3, "pattern"), x = sym_pick(0, 21, "node"); for (i = 0; i < 22; i++) { pl[i] = more[i]; g[i] = k == 0 ? i % 3 : k == 1 ? i / 11 : k == 2 ? 0 : i; } if (k < 3) g[x] = 3 - (k == 1) - 2 * (k == 2); return k == 0 ? 4 : k == 1 ? 3 : k == 2 ? 2 : 22; }
void h_listmany(void) { int g[HXM], ng = manyg(g); list(22, g, ng); }
void h_readmany(void) { int g[HXM], i, ng = manyg(g); Partition *p = CreatePartition(22, 22); for (i = 0; i < 22; i++) p->nodes[i]->strength = 1; hxq_place(p, g, sym_bool("rev")); FILE *f = fopen("p", "w"); ClusteringOutput(f, p, (char **)pl); fclose(f);
  f = fopen("p", "r"); struct group *r = FReadPartition(f); fclose(f); groups(r, g, pl, 22); RemovePartition(r); double k[HXM]; for (i = 0; i < 22; i++) k[i] = 1; Partition *q = CreatePartition(22, 22); for (i = 0; i < 22; i++) q->nodes[i]->strength = 1; f = fopen("p", "r"); i = AssignNodesToModulesFromFile(f, q, (char **)pl); fclose(f); sym_assert(i == 0, "every node is found"); hxq_valid(q, g, k, 0); (void)ng; sym_reach("end"); }
#endif
/* the verbose format lists the counts and labels of each group */
void h_verbose(void) {
  Ref r; int g[HXM], n = 3, i, ng; hx_any_undirected(&r, n, 0, 0); ng = hx_any_part(g, n, n); struct node_gra *net = hx_build(&r, 0); ResetNetGroup(net); struct group *p = hx_build_part(g, n, ng, 0); int seen[3] = {0};
  FILE *f = fopen("p", "w"); FPrintPartition(f, p, 0); fclose(f); f = fopen("p", "r"); char line[300];
  for (i = 0; i < ng; i++) { int lab, s, t, in, o, k = 0, c = 0; double tw, iw, ow; sym_assert(fgets(line, 300, f) != NULL && sscanf(line, "%d %d %d %d %d %lf %lf %lf", &lab, &s, &t, &in, &o, &tw, &iw, &ow) == 8, "one line per group");
    sym_assert(lab >= 1 && lab <= ng, "label of a group"); k = lab - 1; sym_assert(t == hx_gtot(&r, g, k) && in == hx_gin(&r, g, k) && o == t - in && tw == t && iw == in && ow == o, "links of a group");
    char *w = strtok(strstr(line, "---") + 3, " \n"); for (; w; w = strtok(NULL, " \n")) { int j; for (j = 0; j < n && strcmp(w, hx_lab[j]); j++) ; sym_assert(j < n && g[j] == k && !seen[j], "nodes of a group"); seen[j] = 1; c++; } sym_assert(c == s, "size of a group"); }
  sym_assert(fgets(line, 300, f) == NULL && seen[0] && seen[1] && seen[2], "every node is listed"); fclose(f); RemovePartition(p); RemoveGraph(net); sym_reach("end");
}
/* clustering output, with or without the lines the program prints above it */
static int cluster(Partition **pp, int *g, int n, int m, double *k) {
  int i; Partition *p = CreatePartition(n, m); for (i = 0; i < n; i++) { k[i] = p->nodes[i]->strength = sym_real(0, 4, "k"); g[i] = sym_pick(0, m - 1, "module"); } hxq_place(p, g, sym_bool("rev"));
  int head = sym_bool("header"); FILE *f = fopen("p", "w"); if (head) fprintf(f, "# Modularity: %f\n# Modularity (with diagonal): %f\n", 0.25, 0.125); ClusteringOutput(f, p, (char **)pl); fclose(f); *pp = p; return head;
}
void h_start(void) {
  int g[HXM], i, n = sym_pick(1, NN, "n"); double k[HXM]; Partition *p; cluster(&p, g, n, n, k); int b0 = sym_live_blocks();
  Partition *r = CreatePartition(n, n); for (i = 0; i < n; i++) r->nodes[i]->strength = k[i]; FILE *f = fopen("p", "r"); int missing = AssignNodesToModulesFromFile(f, r, (char **)pl); fclose(f);
  sym_assert(missing == 0, "every node is found"); hxq_valid(r, g, k, 0); sym_assert(r->nempty == 0, "no empty module is left"); FreePartition(r); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); FreePartition(p); sym_reach("end");
}
void h_read(void) {
  int g[HXM], n = sym_pick(1, NN, "n"); double k[HXM]; Partition *p; cluster(&p, g, n, n, k); int b0 = sym_live_blocks();
  FILE *f = fopen("p", "r"); struct group *r = FReadPartition(f); fclose(f); groups(r, g, pl, n); RemovePartition(r); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); FreePartition(p); sym_reach("end");
}
void h_startlabels(void) { odd_labels(); h_start(); }
void h_readlabels(void) { odd_labels(); h_read(); }
/* the file of group numbers for Pajek */
void h_clu(void) {
  Ref r; int i, v, n = sym_pick(1, 4, "n"), g[4]; static const int gv[5] = {-1, 0, 1, 9, 998}; char s[40]; hx_clear(&r, n); struct node_gra *net = hx_build(&r, 0); for (i = 0; i < n; i++) hx_nd[i]->inGroup = g[i] = gv[sym_pick(0, 4, "group")];
  FPrintPajekPartitionFile("p.clu", net); FILE *f = fopen("p.clu", "r"); sym_assert(f != NULL && fscanf(f, "%s %d", s, &v) == 2 && !strcmp(s, "*Vertices") && v == n, "header names the number of nodes"); for (i = 0; i < n; i++) sym_assert(fscanf(f, "%d", &v) == 1 && v == g[i] + 1, "group numbers are listed in the order of the nodes, counted from one"); sym_assert(fscanf(f, "%s", s) != 1, "nothing else is written"); fclose(f); RemoveGraph(net); sym_reach("end");
}
