/* C15: adjacency used for module finding. */
#include "hxq.h"
#include "hxb.h"
#ifndef NN
#define NN 3
#endif
#ifndef EE
#define EE 4
#endif
#ifndef LL
#define LL 3
#endif
/* any edge list: repeated pairs, either order, self-links */
void h_uni(void) {
  QEdges q; int i, j, k, m, norm = sym_bool("normalise"), b0 = sym_live_blocks(); double W = 0; q.n = NN; q.e = sym_pick(0, EE, "edges");
  for (k = 0; k < q.e; k++) { q.a[k] = sym_pick(0, NN - 1, "a"); q.b[k] = sym_pick(0, NN - 1, "b"); q.w[k] = sym_real(0.25, 8, "w"); W += 2 * q.w[k]; }
  if (norm && !q.e) sym_stop();
  Partition *p = CreatePartition(NN, NN); AdjaArray *adj = CreateAdjaArray(NN, q.e); sym_assert(EdgeListToAdjaArray((int *)q.a, (int *)q.b, q.w, adj, p, norm) == 0, "no error");
  if (!norm) W = 1; double tot = 0; sym_assert(adj->idx[0] == 0 && adj->idx[NN] == 2 * (unsigned)q.e, "the adjacency has two entries per edge");
  for (i = 0; i < NN; i++) {
    double acc[NN] = {0}, s = 0; int cnt[NN] = {0};
    sym_assert(adj->idx[i] <= adj->idx[i + 1], "node ranges are ordered");
    for (k = adj->idx[i]; k < (int)adj->idx[i + 1]; k++) { m = adj->neighbors[k]; sym_assert(m < NN, "a neighbour is a node"); acc[m] += adj->strength[k]; cnt[m]++; }
    for (j = 0; j < NN; j++) { double e = hxq_w(&q, i, j) * (i == j ? 2 : 1); int c = 0; for (k = 0; k < q.e; k++) c += (q.a[k] == (unsigned)i && q.b[k] == (unsigned)j) + (q.a[k] == (unsigned)j && q.b[k] == (unsigned)i); sym_assert(cnt[j] == c, "entries of a pair"); sym_assert_eq(acc[j], e / W, "weight between two nodes"); s += e; }
    sym_assert_eq(p->nodes[i]->strength, s / W, "node strength"); tot += p->nodes[i]->strength;
  }
  if (norm) { sym_assert_eq(tot, 1, "strengths add up to one"); sym_reach("normalised"); }
  FreePartition(p); FreeAdjaArray(adj); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
#ifdef MM
/* bipartite projection: NN actors in MM teams */
static void bip(int wsw) {
  int a[NN][MM], i, j, k, t, e = 0, ord = sym_pick(0, 2, "order"); double w[NN][MM]; unsigned in[NN * MM], out[NN * MM]; double ws[NN * MM], s1 = 0, s2 = 0; int pairs = 0;
#ifdef PATTERN
  BRef fam; hxb_family(&fam, wsw); for (i = 0; i < NN; i++) for (t = 0; t < MM; t++) { a[i][t] = fam.a[i][t]; w[i][t] = fam.w[i][t]; }
#else
  for (i = 0; i < NN; i++) for (t = 0; t < MM; t++) { a[i][t] = sym_bool("link"); w[i][t] = a[i][t] ? (wsw ? sym_real(0.25, 8, "w") : 1) : 0; }
#endif
  for (k = 0; k < NN * MM; k++) { int c = ord == 1 ? NN * MM - 1 - k : k; i = ord == 2 ? c % NN : c / MM; t = ord == 2 ? c / NN : c % MM; if (a[i][t]) { in[e] = i; out[e] = t; ws[e] = w[i][t]; e++; } }
  for (t = 0; t < MM; t++) { double m = 0; int d = 0; for (i = 0; i < NN; i++) { m += w[i][t]; d += a[i][t]; } s1 += m; if (d) s2 += m * (m - m / d); if (d > 1) pairs = 1; }
  int last = -1; for (i = 0; i < NN; i++) for (t = 0; t < MM; t++) if (a[i][t]) last = i;
  if (!pairs) sym_stop(); /* no shared team: no projected network to normalise */
  int b0 = sym_live_blocks(); Partition *p; AdjaArray *adj; unsigned E = ProjectBipartEdgeList(in, out, ws, e, &p, &adj); int n = last + 1, cntE = 0;
  sym_assert((int)adj->N == n && (int)p->N == n && (int)p->M == n, "one node and one module per actor"); 
  for (i = 0; i < n; i++) {
    int seen[NN] = {0}; double m = 0; for (t = 0; t < MM; t++) m += w[i][t]; sym_assert_eq(p->nodes[i]->strength, m / s1, "an actor's share of the memberships");
    for (k = adj->idx[i]; k < (int)adj->idx[i + 1]; k++) { double c = 0; int sh = 0; j = adj->neighbors[k]; sym_assert(j >= 0 && j < n && j != i && !seen[j], "each neighbour once"); seen[j] = 1; for (t = 0; t < MM; t++) { c += w[i][t] * w[j][t]; sh |= a[i][t] && a[j][t]; } sym_assert(sh, "linked only when a team is shared"); sym_assert_eq(adj->strength[k], c / s2, "weight of a projected link"); cntE++; }
    for (j = 0; j < n; j++) if (j != i) { int sh = 0; for (t = 0; t < MM; t++) sh |= a[i][t] && a[j][t]; sym_assert(seen[j] == sh, "linked exactly when a team is shared"); }
  }
  sym_assert(cntE == 2 * (int)E && adj->E == E, "number of projected links");
  FreePartition(p); FreeAdjaArray(adj); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_bip(void) { bip(0); }
void h_bipw(void) { bip(1); }
#endif
/* the edge-list file: L lines (c1[l], c2[l]) over labels lab (nl in each column) are read as they are */
#define MAXLAB 24
static void listed(int L, int *c1, int *c2, double *w, const char **lab, int nl, int wt, int bip) {
  int l, k, id[MAXLAB], om[MAXLAB], n = 0; for (k = 0; k < nl; k++) id[k] = om[k] = -1; int b0 = sym_live_blocks(); FILE *f = fopen("net", "r"); unsigned *in = NULL, *out = NULL, E = 77, N = 77; double *ws = NULL; char **lb = NULL;
  int r = EdgeListFileInput(f, wt, bip, &in, &out, &ws, &lb, &E, &N); fclose(f); sym_assert(r == 0, "the file is read"); sym_assert(E == (unsigned)L, "one edge per line");
  for (l = 0; l < L; l++) { int x = bip == 2 ? c2[l] : c1[l], y = bip == 2 ? c1[l] : c2[l]; if (id[x] < 0) id[x] = n++; if (!bip && id[y] < 0) id[y] = n++; }
  sym_assert((int)N == n, "one node per label"); for (k = 0; k < n; k++) { int d; for (d = 0; d < k; d++) sym_assert(strcmp(lb[d], lb[k]), "labels are distinct"); }
  for (l = 0; l < L; l++) { int x = bip == 2 ? c2[l] : c1[l], y = bip == 2 ? c1[l] : c2[l]; sym_assert(in[l] < N && !strcmp(lb[in[l]], lab[x]), "first end of an edge"); if (!bip) sym_assert(out[l] < N && !strcmp(lb[out[l]], lab[y]), "second end of an edge"); else { if (om[y] < 0) om[y] = (int)out[l]; sym_assert(om[y] == (int)out[l], "equal labels get equal numbers"); for (k = 0; k < nl; k++) if (k != y && om[k] >= 0) sym_assert(om[k] != (int)out[l], "different labels get different numbers"); } sym_assert_eq(ws[l], w[l], "weight of an edge"); }
  for (k = 0; k < (int)N; k++) free(lb[k]); free(lb); free(in); free(out); free(ws); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
static const char *lab3[] = {"a", "bb", "c1"};
static void file3(void) {
  int wt = sym_bool("weighted"), bip = sym_pick(0, 2, "bipartite"), l, c1[LL], c2[LL]; double w[LL]; FILE *f = fopen("net", "w");
  for (l = 0; l < LL; l++) { c1[l] = sym_pick(0, 2, "first"); c2[l] = sym_pick(0, 2, "second"); w[l] = 1; int extra = sym_bool("third field");
    if (wt) { w[l] = sym_real(0.25, 8, "w"); fprintf(f, "%s %s %.17g\n", lab3[c1[l]], lab3[c2[l]], w[l]); } else if (extra) fprintf(f, "%s\t%s 7.5\n", lab3[c1[l]], lab3[c2[l]]); else fprintf(f, "%s\t%s\n", lab3[c1[l]], lab3[c2[l]]); }
  fclose(f); listed(LL, c1, c2, w, lab3, 3, wt, bip);
}
void h_file(void) { file3(); }
/* labels of any printable characters and of up to 99 characters, the long ones alike but for the last */
void h_labels(void) {
  static char a[100], b[100], c[100]; int k, set = sym_pick(0, 2, "labels");
  if (set == 0) { for (k = 0; k < 98; k++) a[k] = b[k] = c[k] = 'a' + k % 26; a[98] = 'y'; b[98] = 'z'; a[99] = b[99] = c[98] = 0; lab3[0] = a; lab3[1] = b; lab3[2] = c; }
  else if (set == 1) { lab3[0] = "%s%n"; lab3[1] = "#"; lab3[2] = "\"-'\\;,"; }
  else { lab3[0] = "1"; lab3[1] = "01"; lab3[2] = "1.0"; }
  file3();
}
/* more labels and lines than any first allocation */
void h_many(void) {
  static char buf[MAXLAB][4]; static const char *lab[MAXLAB]; static int c1[300], c2[300]; static double w[300]; int k, nl = sym_bool("labels") ? 22 : 11, L = sym_bool("lines") ? 230 : 101, wt = sym_bool("weighted"), bip = sym_pick(0, 2, "bipartite"), at = sym_pick(0, 2, "line"), x = sym_pick(0, 10, "first"), y = sym_bool("second") ? 9 : x; FILE *f = fopen("net", "w");
  for (k = 0; k < nl; k++) { sprintf(buf[k], "v%d", k * 7 % nl); lab[k] = buf[k]; } for (k = 0; k < L; k++) { c1[k] = k % nl; c2[k] = (k * 5 + k / nl) % nl; w[k] = wt ? 0.5 * (k % 9 + 1) : 1; } at = at == 0 ? 0 : at == 1 ? 99 : L - 1; c1[at] = x; c2[at] = y;
  for (k = 0; k < L; k++) if (wt) fprintf(f, "%s %s %g\n", lab[c1[k]], lab[c2[k]], w[k]); else fprintf(f, "%s %s\n", lab[c1[k]], lab[c2[k]]); fclose(f); listed(L, c1, c2, w, lab, nl, wt, bip);
}
