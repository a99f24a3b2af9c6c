#define HX_ODD
/* C31: what the netcarto program prints for the network and partition files it is given. */
#include "hxq.h"
#include "hxb.h"
#include "prog.h"
#include "netcarto/main_netcarto.c"
#undef main
#ifndef FULL
#define FULL 1
#endif
#ifndef NN
#define NN 4
#endif
#ifndef MM
#define MM 3
#endif
static int hxp_role(double P, double z) { if (z < 2.5) return P < 0.05 ? 0 : P < 0.62 ? 1 : P < 0.8 ? 2 : 3; return P < 0.3 ? 4 : P < 0.75 ? 5 : 6; }
static int hxp_near(double P) { static const double b[] = {0.05, 0.62, 0.8, 0.3, 0.75}; int k; for (k = 0; k < 5; k++) if (P - b[k] < 1e-6 && b[k] - P < 1e-6) return 1; return 0; }
/* couplings a[i][j] between different nodes, normalised; s[i]: share of a node; on[i]: the node is in the file */
typedef struct { int n, on[HXM], lk[HXM][HXM]; double a[HXM][HXM], s[HXM]; } Cpl;
static double hxp_qual(Cpl *c, int *g, int diag) { int i, j; double q = 0; for (i = 0; i < c->n; i++) for (j = 0; j < c->n; j++) if (c->on[i] && c->on[j] && g[i] == g[j]) { if (i != j) q += c->a[i][j] - c->s[i] * c->s[j]; else if (diag) q -= c->s[i] * c->s[i]; } return q; }
static int hxp_id(const char *l, const char **lab, int n) { int i; for (i = 0; i < n && strcmp(l, lab[i]); i++) ; return i; }
/* reads what was printed; fills g with the modules; given (when not NULL): the partition it must be */
static void hxp_check_out(FILE *f, Cpl *c, const char **lab, int roles, int *given) {
  char line[400]; double q0 = 9, q1 = 9; int i, j, g[HXM], nm = 0, cnt = 0, on = 0; double C[HXM], P[HXM]; int R[HXM]; for (i = 0; i < c->n; i++) { g[i] = -1; on += c->on[i]; }
  while (fgets(line, 400, f) && strncmp(line + (line[0] == ' '), "# Modularity", 12)) ;
  sym_assert(sscanf(line, " # Modularity: %lf", &q0) == 1, "the modularity is printed"); sym_assert(fgets(line, 400, f) && sscanf(line, " # Modularity (with diagonal): %lf", &q1) == 1, "the modularity with the diagonal is printed");
  if (roles) {
    sym_assert(fgets(line, 400, f) && !strncmp(line, "Label", 5), "the table has its header");
    while (fgets(line, 400, f)) { char l[120]; int m, r; double z, p; sym_assert(sscanf(line, "%119s %d %lf %lf R%d", l, &m, &z, &p, &r) == 5, "five columns"); i = hxp_id(l, lab, c->n); sym_assert(i < c->n && c->on[i], "the table lists nodes of the file"); sym_assert(g[i] < 0, "the table lists a node once"); sym_assert(m >= 0 && m < HXM, "module number"); g[i] = m; C[i] = z; P[i] = p; R[i] = r; cnt++; if (m >= nm) nm = m + 1; }
  } else while (fgets(line, 400, f)) { char *t = strtok(line, "\t\n"); sym_assert(t != NULL, "no empty module is listed"); for (; t; t = strtok(NULL, "\t\n")) { i = hxp_id(t, lab, c->n); sym_assert(i < c->n && c->on[i], "the modules hold nodes of the file"); sym_assert(g[i] < 0, "a node is listed once"); g[i] = nm; cnt++; } nm++; }
  sym_assert(cnt == on, "every node is listed");
  if (given) for (i = 0; i < c->n; i++) for (j = 0; j < c->n; j++) if (c->on[i] && c->on[j]) sym_assert((g[i] == g[j]) == (given[i] == given[j]), "the modules are those of the partition file");
  sym_assert(pg_near(q0, hxp_qual(c, g, 0)), "modularity of the modules"); sym_assert(pg_near(q1, hxp_qual(c, g, 1)), "modularity with the diagonal of the modules");
  if (roles) for (i = 0; i < c->n; i++) if (c->on[i]) {
    double to[HXM] = {0}, s = 0, part = 0, mean = 0, var = 0, own[HXM]; int n = 0, m, k, deg = 0;
    for (j = 0; j < c->n; j++) if (c->on[j] && j != i) { to[g[j]] += c->a[i][j]; s += c->a[i][j]; deg += c->lk[i][j]; } for (m = 0; m < nm; m++) part += to[m] * to[m]; part = deg ? 1 - part / (s * s) : 0; sym_assert(pg_near(P[i], part), "participation coefficient of a node");
    for (j = 0; j < c->n; j++) if (c->on[j] && g[j] == g[i]) { own[j] = 0; for (k = 0; k < c->n; k++) if (c->on[k] && k != j && g[k] == g[i]) own[j] += c->a[j][k]; mean += own[j]; n++; }
    mean /= n; for (j = 0; j < c->n; j++) if (c->on[j] && g[j] == g[i]) var += (own[j] - mean) * (own[j] - mean); var /= n; double z = var > 1e-12 ? (own[i] - mean) / sqrt(var) : 0; sym_assert(pg_near(C[i], z), "within-module z-score of a node");
    if (!hxp_near(part) && !pg_near(z, 2.5)) sym_assert(R[i] == hxp_role(part, z) + 1, "role of a node"); if (part > 0.01) sym_reach("shared");
  }
}
static const double hxp_wt[8] = {0.5, 1.25, 2, 0.75, 3, 1, 0.125, 5};
/* the network file; returns the couplings */
static void hxp_uni(Ref *r, Cpl *c, int weighted) {
  FILE *f = fopen("net.dat", "w"); int i, j, e = 0, n = r->n, rev = sym_bool("reversed"); double W = 0; c->n = n; for (i = 0; i < n; i++) { c->on[i] = 0; c->s[i] = 0; for (j = 0; j < n; j++) { c->a[i][j] = 0; c->lk[i][j] = r->a[i][j]; } }
  int k; for (k = 0; k < n * n; k++) { int q = rev ? n * n - 1 - k : k; i = q / n; j = q % n; if (i < j && r->a[i][j]) { double w = weighted ? hxp_wt[e++ % 8] : 1; if (weighted) fprintf(f, "%s %s %g\n", hx_lab[i], hx_lab[j], w); else fprintf(f, "%s\t%s\n", hx_lab[j], hx_lab[i]); c->a[i][j] = c->a[j][i] = w; W += 2 * w; c->on[i] = c->on[j] = 1; } }
  fclose(f); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (W > 0) c->a[i][j] /= W; c->s[i] += c->a[i][j]; } if (W == 0) sym_stop();
}
/* side 0: modules of the first column; weights are read always, used when weighted */
static void hxp_bip(BRef *b, Cpl *c, int weighted, int side) {
  FILE *f = fopen("net.dat", "w"); int i, j, t, n = side ? b->m : b->n, m = side ? b->n : b->m, e = 0, pairs = 0; double s1 = 0, s2 = 0, w[HXM][HXM];
  for (i = 0; i < b->n; i++) for (j = 0; j < b->m; j++) if (b->a[i][j]) { double x = weighted ? hxp_wt[e++ % 8] : 1; b->w[i][j] = x; if (weighted) fprintf(f, "%s %s %g\n", hxb_l1[i], hxb_l2[j], x); else fprintf(f, "%s %s\n", hxb_l1[i], hxb_l2[j]); } fclose(f);
  c->n = n; for (i = 0; i < n; i++) { c->on[i] = 0; c->s[i] = 0; for (t = 0; t < m; t++) { w[i][t] = side ? (b->a[t][i] ? b->w[t][i] : 0) : b->a[i][t] ? b->w[i][t] : 0; c->on[i] |= w[i][t] > 0; c->s[i] += w[i][t]; } s1 += c->s[i]; }
  for (t = 0; t < m; t++) { double x = 0; int d = 0; for (i = 0; i < n; i++) { x += w[i][t]; d += w[i][t] > 0; } if (d) s2 += x * (x - x / d); if (d > 1) pairs = 1; }
  if (!pairs) sym_stop();
  for (i = 0; i < n; i++) { c->s[i] /= s1; for (j = 0; j < n; j++) { c->a[i][j] = 0; if (i != j) for (t = 0; t < m; t++) c->a[i][j] += w[i][t] * w[j][t]; c->lk[i][j] = c->a[i][j] > 0; c->a[i][j] /= s2; } }
}
static void hxp_part_file(int *g, int ng, Cpl *c, const char **lab) { FILE *f = fopen("part.dat", "w"); int k, i; fprintf(f, "# Modularity: 0\n"); for (k = 0; k < ng; k++) { int any = 0; for (i = 0; i < c->n; i++) if (g[i] == k && c->on[i]) { fprintf(f, "%s\t", lab[i]); any = 1; } if (any) fprintf(f, "\n"); } fclose(f); }
static void hxp_go(Cpl *c, const char **lab, const char *opts, int *given) {
  char cmd[200]; int roles = sym_bool("roles"), io = sym_pick(0, FULL ? 5 : 2, "output and input"), in = io % 3, tofile = FULL ? io / 3 : io != 1; strcpy(cmd, "netcarto"); strcat(cmd, opts); if (roles) strcat(cmd, " -r"); if (tofile) strcat(cmd, " -o out.dat"); if (in == 0) strcat(cmd, " -f net.dat"); else { if (in == 2) strcat(cmd, " -f -"); FILE *f = freopen("net.dat", "r", stdin); (void)f; }
  sym_assert(pg_run(cmd) == 0, "the program succeeds"); FILE *f = pg_open(tofile ? "out.dat" : "stdout.txt"); hxp_check_out(f, c, lab, roles, given); fclose(f); sym_reach("end");
}
void h_uni(void) { Ref r; Cpl c; int g[HXM], ng, w = sym_bool("weighted"); hx_any_undirected(&r, NN, 0, 0); hxp_uni(&r, &c, w); ng = hx_any_part(g, NN, MM); hxp_part_file(g, ng, &c, hx_lab); hxp_go(&c, hx_lab, w ? " -w -p part.dat" : " -p part.dat", g); }
void h_uni8(void) { Ref r; Cpl c; int g[HXM], i, w = sym_bool("weighted"), k; hx_family(&r, 0, 0); hxp_uni(&r, &c, w); k = sym_pick(0, 3, "partition"); for (i = 0; i < 8; i++) g[i] = k == 0 ? i % 3 : k == 1 ? i / 4 : k == 2 ? 0 : i; hxp_part_file(g, 8, &c, hx_lab); hxp_go(&c, hx_lab, w ? " -w -p part.dat" : " -p part.dat", g); }
void h_bip(void) { BRef b; Cpl c; int g[HXM], ng, w = sym_bool("weighted"), t = sym_bool("second"); hxb_any(&b, 3, MM, 0); hxp_bip(&b, &c, w, t); ng = hx_any_part(g, c.n, c.n); hxp_part_file(g, ng, &c, t ? hxb_l2 : hxb_l1); hxp_go(&c, t ? hxb_l2 : hxb_l1, w ? t ? " -b -t -w -p part.dat" : " -b -w -p part.dat" : t ? " -bt -p part.dat" : " -b -p part.dat", g); }
/* the search itself: whatever it finds, what is printed is true of it */
#ifndef LO
#define LO 8
#endif
#ifndef WW
#define WW 3
#endif
void h_search(void) {
  Cpl c; int w = sym_bool("weighted"), k = sym_pick(0, 3, "net"), lo = sym_pick(0, LO - 1, "lo") * WW; sym_draw_window(lo, lo + WW, 1); sym_step_limit(100000000);
  if (k < 2) { Ref r; int i; hx_clear(&r, k ? 5 : 3); for (i = 0; i + 1 < r.n; i++) hx_put(&r, i, i + 1, 1, 0); hx_put(&r, 0, 2, 1, 0); hxp_uni(&r, &c, w); hxp_go(&c, hx_lab, w ? " -w -s 3 -i 0.1 -c 1e-120" : " -c 1e-120 -i 0.1", NULL); }
  else { BRef b; int i, j, t = k == 3; hxb_clear(&b, 4, 3); for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) b.a[i][j] = i / 2 == j || (i + j) % 3 == 0; hxp_bip(&b, &c, w, t); hxp_go(&c, t ? hxb_l2 : hxb_l1, t ? w ? " -b -t -w -i 0.1 -c 1e-120" : " -b -t -i 0.1 -c 1e-120" : w ? " -b -w -i 0.1 -c 1e-120" : " -b -i 0.1 -c 1e-120", NULL); }
  if (sym_draw_count() > lo) sym_reach("window");
}
/* input it cannot use: the program says so and fails */
void h_bad(void) {
  static const char *bad[] = {"a b\nc\n", "a b 1\nb c\n", "a b 1\nb c x\n", "a b\nthis-label-is-much-too-long-for-the-tables-of-the-library-as-it-needs-hundreds-of-characters-0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789 c\n"};
  int k = sym_pick(0, 7, "case"), b = sym_bool("bipartite"), w = sym_bool("weighted"); char cmd[100]; FILE *f; 
  strcpy(cmd, "netcarto"); if (b) strcat(cmd, " -b"); if (w) strcat(cmd, " -w"); if (sym_bool("roles")) strcat(cmd, " -r");
  if (k < 4) { if ((k == 1 || k == 2) && !w) sym_stop(); f = fopen("net.dat", "w"); fputs(bad[k], f); fclose(f); strcat(cmd, " -f net.dat"); }
  else { f = fopen("net.dat", "w"); fputs("a b 1\nc b 1\n", f); fclose(f); f = fopen("part.dat", "w"); fputs("a\tb\nc\n", f); fclose(f); strcat(cmd, k == 4 ? " -f missing.dat" : k == 5 ? " -f net.dat -p missing.dat" : " -f net.dat -p part.dat -h"); if (k == 7) strcpy(cmd, "netcarto"); }
  sym_assert(pg_run(cmd) != 0, "input that cannot be used is an error"); f = pg_open("stdout.txt"); sym_assert(fgetc(f) != EOF, "and the user is told"); fclose(f); sym_reach("end");
}
