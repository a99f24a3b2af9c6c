/* C03: FBuildNetworkBipart on every file of L lines over two labels per column, one of them shared by the columns. */
#include "hxb.h"
#ifndef L
#define L 3
#endif
static const char *c1[3] = {"x", "ab", "b"}, *c2[3] = {"a", "x", "ba"};
static void reader(int nl) {
  int addw = sym_bool("add weights"), wsw = sym_bool("weighted"), k, u1 = 0, u2 = 0, i1[3] = {-1, -1, -1}, i2[3] = {-1, -1, -1};
  const char *l1[HXM], *l2[HXM]; BRef r; FILE *f = fopen("net.dat", "w"); hxb_clear(&r, 0, 0);
  for (k = 0; k < nl; k++) {
    int x = sym_pick(0, 2, "first"), y = sym_pick(0, 2, "second"); double w = 1;
    if (wsw) { w = sym_real(0.25, 8, "weight"); fprintf(f, k == 1 ? "%s\t%s  %.17g\n" : "%s %s %.17g\n", c1[x], c2[y], w); } else fprintf(f, k == 1 ? " %s\t%s \n" : "%s %s\n", c1[x], c2[y]);
    if (i1[x] < 0) { i1[x] = u1; l1[u1++] = c1[x]; }
    if (i2[y] < 0) { i2[y] = u2; l2[u2++] = c2[y]; }
    x = i1[x]; y = i2[y];
    if (!r.a[x][y]) { r.a[x][y] = 1; r.w[x][y] = w; } else if (addw) r.w[x][y] += w;
  }
  fclose(f); r.n = u1; r.m = u2;
  int b0 = sym_live_blocks(); f = fopen("net.dat", "r");
  struct binet *b = FBuildNetworkBipart(f, wsw, addw); fclose(f);
  sym_assert(b != NULL, "a well-formed file is accepted");
  hxb_same(b, &r, l1, l2, 1);
  k = 0; for (struct node_gra *p = b->net1->next; p; p = p->next) { sym_assert(!strcmp(p->label, l1[k]), "nodes appear in the order of the file"); k++; }
  k = 0; for (struct node_gra *p = b->net2->next; p; p = p->next) { sym_assert(!strcmp(p->label, l2[k]), "nodes appear in the order of the file"); k++; }
  RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory");
  if (u1 == 3) sym_reach("three nodes"); sym_reach("end");
}
void h_reader(void) { reader(L); }
/* labels of any printable characters and of up to 99 characters, the long ones alike but for the last */
void h_labels(void) {
  static char a[100], b[100], c[100]; int k, set = sym_pick(0, 1, "labels");
  if (set == 0) { for (k = 0; k < 98; k++) a[k] = b[k] = c[k] = 'a' + k % 26; a[98] = 'y'; b[98] = 'z'; a[99] = b[99] = c[98] = 0; c1[0] = c2[1] = a; c1[1] = c2[0] = b; c1[2] = c2[2] = c; }
  else { c1[0] = c2[2] = "%s%n"; c1[1] = c2[0] = "#"; c1[2] = c2[1] = "\"-'\\;,"; }
  reader(3);
}
#if HXM >= 24
/* files of more nodes and lines than any first allocation */
void h_many(void) {
  static char la[22][4], lb[13][4]; const char *l1[HXM], *l2[HXM]; int n = 22, m = 13, i, j, k, addw = sym_bool("add weights"), x = sym_pick(0, 21, "first"), y = sym_pick(0, 12, "second"); BRef r; FILE *f = fopen("net.dat", "w"); hxb_clear(&r, n, m);
  for (i = 0; i < n; i++) { sprintf(la[i], "v%d", (i * 7) % 22); l1[i] = la[i]; } for (i = 0; i < m; i++) { sprintf(lb[i], "v%d", (i * 5) % 13); l2[i] = lb[i]; }
  for (k = 0; k < 5; k++) for (i = 0; i < n; i++) { j = (i + k * k) % m; int ii = i, w = k + 1; if (i == 21 && k == 4) { ii = x; j = y; } fprintf(f, "%s %s %d\n", la[ii], lb[j], w); if (!r.a[ii][j]) { r.a[ii][j] = 1; r.w[ii][j] = w; } else if (addw) r.w[ii][j] += w; }
  fclose(f); f = fopen("net.dat", "r"); struct binet *b = FBuildNetworkBipart(f, 1, addw); fclose(f); sym_assert(b != NULL, "a well-formed file is accepted"); hxb_same(b, &r, l1, l2, 1); RemoveBipart(b); sym_reach("end");
}
#endif
void h_empty(void) { reader(0); }
