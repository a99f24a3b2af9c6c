/* C02: FBuildNetwork on every file of L lines over a small label alphabet. */
#include "hx.h"
#ifndef L
#define L 3
#endif
static const char *hx3[3] = {"b", "ab", "a"};
static void reader(int nl) {
  int symm = sym_bool("symmetric"), autol = sym_bool("self links"), addw = sym_bool("add weights"), wsw = sym_bool("weighted");
  int i, j, k, idx[3], used = 0; const char *lab[HXM]; Ref r; FILE *f = fopen("net.dat", "w");
  hx_clear(&r, 0); idx[0] = idx[1] = idx[2] = -1;
  for (k = 0; k < nl; k++) {
    int x = sym_pick(0, 2, "first"), y = sym_pick(0, 2, "second"); double w = 1;
    if (wsw) { w = sym_real(0.25, 8, "weight"); fprintf(f, k == 1 ? "%s\t%s  %.17g\n" : "%s %s %.17g\n", hx3[x], hx3[y], w); } else fprintf(f, k == 1 ? " %s\t%s \n" : "%s %s\n", hx3[x], hx3[y]);
    if (idx[x] < 0) { idx[x] = used; lab[used++] = hx3[x]; }
    if (idx[y] < 0) { idx[y] = used; lab[used++] = hx3[y]; }
    i = idx[x]; j = idx[y];
    if (i == j) { if (autol) { if (!r.a[i][i]) { r.a[i][i] = 1; r.w[i][i] = w; } else if (addw) r.w[i][i] += w; } }
    else {
      if (!r.a[i][j]) { r.a[i][j] = 1; r.w[i][j] = w; } else if (addw) r.w[i][j] += w;
      if (symm) { if (!r.a[j][i]) { r.a[j][i] = 1; r.w[j][i] = w; } else if (addw) r.w[j][i] += w; }
    }
  }
  fclose(f); r.n = used;
  f = fopen("net.dat", "r");
  struct node_gra *net = FBuildNetwork(f, wsw, autol, addw, symm);
  fclose(f);
  sym_assert(net != NULL, "a well-formed file is accepted");
  hx_same(net, &r, lab, 1); hx_counts(net, &r, lab, symm);
  if (symm) { int self = 0; for (i = 0; i < used; i++) self += r.a[i][i]; if (!self) sym_assert(TotalNLinks(net, 1) * 2 == hx_nlinks(&r), "number of undirected links"); }
  k = 0; for (struct node_gra *p = net->next; p; p = p->next) { sym_assert(!strcmp(p->label, lab[k]), "nodes appear in the order of the file"); k++; }
  RemoveGraph(net);
  if (used == 3) sym_reach("three nodes");
  sym_reach("end");
}
void h_reader(void) { reader(L); }
/* labels of any printable characters and of up to 99 characters, the long ones alike but for the last */
void h_labels(void) {
  static char a[100], b[100], c[100]; int k, set = sym_pick(0, 2, "labels");
  if (set == 0) { for (k = 0; k < 98; k++) a[k] = b[k] = c[k] = 'a' + k % 26; a[98] = 'y'; b[98] = 'z'; a[99] = b[99] = c[98] = 0; hx3[0] = a; hx3[1] = b; hx3[2] = c; }
  else if (set == 1) { hx3[0] = "%s%n"; hx3[1] = "#"; hx3[2] = "\"-'\\;,"; }
  else { hx3[0] = "1"; hx3[1] = "01"; hx3[2] = "1.0"; }
  reader(3);
}
#if HXM >= 24
/* files of more nodes and lines than any first allocation */
void h_many(void) {
  static char lab[22][4]; const char *lb[HXM]; int n = 22, i, j, k, symm = sym_bool("symmetric"), addw = sym_bool("add weights"), x = sym_pick(0, 21, "first"), y = sym_pick(0, 1, "second") ? 20 : 3; Ref r; FILE *f = fopen("net.dat", "w"); hx_clear(&r, n);
  for (i = 0; i < n; i++) { sprintf(lab[i], "v%d", (i * 7) % 22); lb[i] = lab[i]; }
  for (k = 0; k < 6; k++) for (i = 0; i < n; i++) { j = (i + 1 + k * k) % n; if (i == 21 && k == 2) { i = x; j = y; } fprintf(f, "%s %s %d\n", lab[i], lab[j], k + 1); if (i != j) { if (!r.a[i][j]) { r.a[i][j] = 1; r.w[i][j] = k + 1; } else if (addw) r.w[i][j] += k + 1; if (symm) { if (!r.a[j][i]) { r.a[j][i] = 1; r.w[j][i] = k + 1; } else if (addw) r.w[j][i] += k + 1; } } if (k == 2 && i == x && j == y) i = 21; }
  fclose(f); f = fopen("net.dat", "r"); struct node_gra *net = FBuildNetwork(f, 1, 0, addw, symm); fclose(f); sym_assert(net != NULL, "a well-formed file is accepted"); hx_same(net, &r, lb, 1); hx_counts(net, &r, lb, symm); RemoveGraph(net); sym_reach("end");
}
#endif
void h_empty(void) { reader(0); }
