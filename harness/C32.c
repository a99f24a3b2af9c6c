#define HX_ODD
/* C32: what the utility programs print is true of the files they are given. PROGF: the source of the program. */
#include "hxb.h"
#include "hxp.h"
#include "hxd.h"
#include "prog.h"
#ifndef NN
#define NN 4
#endif
static Ref hxp_R0; static BRef B0; static double evs[HXM], syn;
#ifdef P_LAPSPEC
#include <gsl/gsl_vector.h>
static gsl_vector *stub_spec(struct node_gra *net) { gsl_vector *v = gsl_vector_alloc(hxp_R0.n); int i; hx_same(net, &hxp_R0, hx_lab, 0); for (i = 0; i < hxp_R0.n; i++) gsl_vector_set(v, i, evs[i]); return v; }
#define LaplacianSpectrum stub_spec
#endif
#ifdef P_NETPROP
#ifdef P_MANY
#define RemoveGraph(x) (void)(x) /* one call per node deep */
#endif
static double stub_sync(struct node_gra *net) { if (hxp_R0.n >= 0) hx_same(net, &hxp_R0, hx_lab, 0); return syn; }
#define Synchronizability stub_sync
#endif
#ifdef P_NETRANDOMIZE
/* the randomisation is C12's: here it exchanges the ends of the links (0,1) and (2,3) when it can */
static Ref hxp_R1; static int nran;
static struct node_gra *stub_rnd(struct node_gra *net, double t, gsl_rng *gen) { hx_same(net, &hxp_R0, hx_lab, 0); nran++; RemoveGraph(net); return hx_build(&hxp_R1, 1); }
#define RandomizeSymmetricNetwork stub_rnd
#endif
#ifdef P_MODULARBIPART
#include "bipartite.h"
static int hxp_want[4]; static double wantp;
static struct binet *stub_mod(int *sizes, int per, int nmod, double *cp, int S2, int mmin, int mmax, double g, double p, gsl_rng *gen) { sym_assert(sizes == NULL && per == hxp_want[1] && nmod == hxp_want[0] && cp == NULL && S2 == hxp_want[2] && p == wantp, "the network is built with the given parameters"); sym_assert(mmin == hxp_want[3] && mmax == hxp_want[3], "teams have the given size"); return hxb_build(&B0, 1); }
#define BuildModularBipartiteNetwork stub_mod
#endif
#if defined(P_NETLAYOUT) || defined(P_MULTI)
/* the layout is C34's: here it puts each node where a table says */
#include "layout.h"
static int hxp_which, wsteps; static double wdrag, wdt; static int placed;
static double hxp_where(int i, int d) { static const double t[6] = {0.5, 0.125, 1, 0, 0.734375, 0.0009765625}; return t[(i * 2 + d * 3 + hxp_which) % 6]; }
static void hxp_lay(int m, struct node_gra *net, double drag, double dt, int steps) { struct node_gra *p; int i; hx_same(net, &hxp_R0, hx_lab, 0); sym_assert(m == hxp_which, "the layout asked for"); sym_assert(wsteps < 0 || (steps == wsteps && drag == wdrag && dt == wdt), "the parameters asked for"); placed++; for (p = net->next; p; p = p->next) { for (i = 0; strcmp(p->label, hx_lab[i]); i++) ; p->coorX = hxp_where(i, 0); p->coorY = hxp_where(i, 1); } }
#define MDGraphLayout(net, drag, dt, steps, gen, nbox) hxp_lay(1, net, drag, dt, steps)
#define MDGraphLayout2Dp(net, drag, dt, steps, gen, nbox) hxp_lay(2, net, drag, dt, steps)
#define MDGraphLayout3D(net, drag, dt, steps, gen, nbox) hxp_lay(3, net, drag, dt, steps)
#endif
#include PROGF
#undef main
static int hxp_id(const char *l, const char **lab, int n) { int i; for (i = 0; i < n && strcmp(l, lab[i]); i++) ; return i; }
/* writes the network; without nodes that have no links */
static void hxp_put(const char *name, Ref *r, const char **lab) { FILE *f = fopen(name, "w"); int i, j, rev = sym_bool("reversed"); for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (r->a[i][j] && (rev ? j < i : i < j)) fprintf(f, "%s %s\n", lab[i], lab[j]); fclose(f); }
static int hxp_loose(Ref *r) { int i; for (i = 0; i < r->n; i++) if (!hx_deg(r, i)) return 1; return 0; }
#ifdef FAMILY
static void hxp_any(void) { hx_family(&hxp_R0, 0, 0); if (hxp_loose(&hxp_R0)) sym_stop(); }
#else
static void hxp_any(void) { hx_any_undirected(&hxp_R0, sym_pick(2, NN, "n"), 0, 0); if (hxp_loose(&hxp_R0)) sym_stop(); }
#endif
/* a list of links, each once */
static void hxp_list(FILE *f, Ref *r) { char a[120], b[120]; int i, j, c = 0, seen[HXM][HXM] = {{0}}; while (fscanf(f, "%119s %119s", a, b) == 2) { i = hxp_id(a, hx_lab, r->n); j = hxp_id(b, hx_lab, r->n); sym_assert(i < r->n && j < r->n && r->a[i][j], "the links printed are links"); sym_assert(!seen[i][j], "a link is printed once"); seen[i][j] = seen[j][i] = 1; c++; } sym_assert(c * 2 == hx_nlinks(r), "every link is printed"); fclose(f); }
static double hxp_field(FILE *f, const char *name) { char a[60]; double v = 0; sym_assert(fscanf(f, "%59s %lf", a, &v) == 2 && !strcmp(a, name), "the named quantity is printed"); return v; }
static void hxp_usage(const char *cmd) { sym_assert(pg_run(cmd) != 0, "missing arguments are an error"); sym_reach("usage"); }
#ifdef P_COUNTLINKS
void h_main(void) { int n = 0, l = 0; double k; if (sym_bool("usage")) { hxp_usage("countlinks"); return; } hxp_any(); hxp_put("net", &hxp_R0, hx_lab); sym_assert(pg_run("countlinks net") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); sym_assert(fscanf(f, "Nodes: %d Links: %d <k> = %lf", &n, &l, &k) == 3 && n == hxp_R0.n && 2 * l == hx_nlinks(&hxp_R0) && pg_nearg(k, 2.0 * l / n), "numbers of nodes and links"); fclose(f); sym_reach("end"); }
#endif
#ifdef P_GETGIANT
void h_main(void) {
  int c[HXM], i, j, k, ch, sz[HXM] = {0}, big = 0; char a[120], b[120]; if (sym_bool("usage")) { hxp_usage("getgiant"); return; } hxp_any(); hxp_put("net", &hxp_R0, hx_lab); for (i = 0; i < hxp_R0.n; i++) c[i] = i; do { ch = 0; for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < hxp_R0.n; j++) if (hxp_R0.a[i][j] && c[j] > c[i]) { c[j] = c[i]; ch = 1; } } while (ch); for (i = 0; i < hxp_R0.n; i++) if (++sz[c[i]] > big) big = sz[c[i]];
  sym_assert(pg_run("getgiant net") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); sym_assert(fscanf(f, "%119s %119s", a, b) == 2, "something is printed"); k = hxp_id(a, hx_lab, hxp_R0.n); sym_assert(k < hxp_R0.n && sz[c[k]] == big, "the largest component is printed"); rewind(f);
  for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < hxp_R0.n; j++) if (c[i] != c[k]) hxp_R0.a[i][j] = 0; hxp_list(f, &hxp_R0); if (big < hxp_R0.n) sym_reach("parts"); sym_reach("end"); }
#endif
#ifdef P_LAPSPEC
void h_main(void) { int i, k; double v; if (sym_bool("usage")) { hxp_usage("lapspec"); return; } hxp_any(); hxp_put("net", &hxp_R0, hx_lab); for (i = 0; i < hxp_R0.n; i++) evs[i] = i * 1.5 - (i == 0 ? 0.25 : 0); sym_assert(pg_run("lapspec net") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); for (i = 0; i < hxp_R0.n; i++) sym_assert(fscanf(f, "%d %lf", &k, &v) == 2 && k == i + 1 && pg_near(v, evs[i]), "the eigenvalues in order"); sym_assert(pg_end(f), "and no more"); sym_reach("end"); }
#endif
#ifdef P_NETCOMPARE
void h_main(void) {
  Ref s; const char *lb[HXM]; int i, j, off, com = 0, cA = 0, cB = 0, cc = 0, v[6]; double q[4]; if (sym_bool("usage")) { hxp_usage("netcompare net"); return; } hx_any_undirected(&hxp_R0, 4, 0, 0); hx_any_undirected(&s, 3, 0, 0); if (hxp_loose(&hxp_R0) || hxp_loose(&s)) sym_stop(); off = sym_pick(0, 3, "shared labels"); for (i = 0; i < 3; i++) lb[i] = hx_lab[i + off];
  hxp_put("net", &hxp_R0, hx_lab); hxp_put("net2", &s, lb); for (i = 0; i < 3; i++) com += i + off < 4; for (i = 0; i < 4; i++) for (j = i + 1; j < 4; j++) if (i >= off && j - off < 3) { cA += hxp_R0.a[i][j]; cB += s.a[i - off][j - off]; cc += hxp_R0.a[i][j] && s.a[i - off][j - off]; }
  sym_assert(pg_run("netcompare net net2") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); sym_assert(fscanf(f, " S_A = %d S_B = %d S_(A&B) = %d p_n(A|B) = %lf p_n(B|A) = %lf L_A = %d L_B = %d L_(A&B) = %d", v, v + 1, v + 2, q, q + 1, v + 3, v + 4, v + 5) == 8, "the numbers are printed");
  sym_assert(v[0] == 4 && v[1] == 3 && v[2] == com && pg_near(q[0], com / 3.0) && pg_near(q[1], com / 4.0), "nodes of the networks"); sym_assert(v[3] == cA && v[4] == cB && v[5] == cc, "links of the networks among common nodes");
  if (cA && cB) { sym_assert(fscanf(f, " p_l(A|B) = %lf p_l(B|A) = %lf", q + 2, q + 3) == 2 && pg_near(q[2], (double)cc / cB) && pg_near(q[3], (double)cc / cA), "fractions of common links"); sym_reach("links"); } fclose(f); sym_reach("end"); }
#endif
#if defined(P_NETPROP) || defined(P_NODEPROP)
static double hxp_sg[HXM][HXM]; static int D[HXM][HXM];
static void hxp_paths(Ref *r) { int i, j, k, l, n = r->n; hx_dist(r, D); for (i = 0; i < n; i++) { for (j = 0; j < n; j++) hxp_sg[i][j] = i == j; for (l = 1; l < n; l++) for (j = 0; j < n; j++) if (D[i][j] == l) for (k = 0; k < n; k++) if (D[i][k] == l - 1 && r->a[k][j]) hxp_sg[i][j] += hxp_sg[i][k]; } }
static double hxp_nodeb(Ref *r, int v) { int s, t; double b = 0; for (s = 0; s < r->n; s++) for (t = 0; t < r->n; t++) if (s != t && s != v && t != v && D[s][t] < HXINF && D[s][v] + D[v][t] == D[s][t]) b += hxp_sg[s][v] * hxp_sg[v][t] / hxp_sg[s][t]; return b; }
#endif
#ifdef P_NODEPROP
void h_main(void) { int i, k, d, seen[HXM] = {0}; double b; char l[120]; if (sym_bool("usage")) { hxp_usage("nodeprop"); return; } hxp_any(); hxp_put("net", &hxp_R0, hx_lab); hxp_paths(&hxp_R0); sym_assert(pg_run("nodeprop net") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); for (k = 0; k < hxp_R0.n; k++) { sym_assert(fscanf(f, "%119s %d %lf", l, &d, &b) == 3, "a line per node"); i = hxp_id(l, hx_lab, hxp_R0.n); sym_assert(i < hxp_R0.n && !seen[i], "each node once"); seen[i] = 1; sym_assert(d == hx_deg(&hxp_R0, i), "degree of a node"); sym_assert(pg_nearg(b, hxp_nodeb(&hxp_R0, i)), "betweenness of a node"); } sym_assert(pg_end(f), "and no more"); sym_reach("end"); }
#endif
#ifdef P_NETPROP
void h_main(void) {
  int c[HXM], i, j, k, ch, sz[HXM] = {0}, big = 0, nc = 0, n, cnt = 0; double inv = 0, C = 0, m = 0, v = 0, lo = 1e9, hi = -1, M = 0, jk = 0, s = 0, s2 = 0, k2 = 0, x; if (sym_bool("usage")) { hxp_usage("netprop"); return; } hxp_any(); n = hxp_R0.n; hxp_put("net", &hxp_R0, hx_lab); hxp_paths(&hxp_R0); syn = 3.25;
  for (i = 0; i < n; i++) c[i] = i; do { ch = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (hxp_R0.a[i][j] && c[j] > c[i]) { c[j] = c[i]; ch = 1; } } while (ch); for (i = 0; i < n; i++) if (++sz[c[i]] > big) big = sz[c[i]]; for (i = 0; i < n; i++) nc += sz[i] > 0;
  sym_assert(pg_run("netprop net") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); sym_assert(hxp_field(f, "Num_components") == nc, "number of components"); sym_assert(hxp_field(f, "Size_GC") == big, "size of the largest component"); x = hxp_field(f, "Av_size_other"); sym_assert(pg_nearg(x, nc > 1 ? (n - big) / (nc - 1.0) : 0), "average size of the others"); if (nc > 1) sym_reach("parts");
  sym_assert(hxp_field(f, "Nodes") == n, "number of nodes"); sym_assert(2 * hxp_field(f, "Links") == hx_nlinks(&hxp_R0), "number of links"); sym_assert(pg_nearg(hxp_field(f, "Av_degree"), (double)hx_nlinks(&hxp_R0) / n), "average degree");
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && D[i][j] < HXINF) inv += 1.0 / D[i][j]; sym_assert(pg_near(hxp_field(f, "Inverse_path_length"), inv / (n * (n - 1))), "average inverse distance");
  for (i = 0; i < n; i++) { int d = hx_deg(&hxp_R0, i), t = 0; for (j = 0; j < n; j++) for (k = 0; k < n; k++) t += hxp_R0.a[i][j] && hxp_R0.a[i][k] && hxp_R0.a[j][k]; if (d > 1) { C += t / (d * (d - 1.0)); cnt++; } for (j = 0; j < n; j++) if (hxp_R0.a[i][j]) { M++; jk += d * hx_deg(&hxp_R0, j); s += d; s2 += d * d; } k2 += d * d; }
  if (cnt && s2 / M != (s / M) * (s / M)) { /* otherwise no number is defined */
    sym_assert(pg_near(hxp_field(f, "Clustering"), C / cnt), "clustering coefficient"); sym_assert(pg_near(hxp_field(f, "Assortativity"), (jk / M - (s / M) * (s / M)) / (s2 / M - (s / M) * (s / M))), "assortativity");
    for (i = 0; i < n; i++) { double b = hxp_nodeb(&hxp_R0, i); m += b / n; if (b < lo) lo = b; if (b > hi) hi = b; } for (i = 0; i < n; i++) { double b = hxp_nodeb(&hxp_R0, i); v += (b - m) * (b - m) / n; }
    sym_assert(pg_near(hxp_field(f, "Betweenness_mean"), m), "mean betweenness"); x = hxp_field(f, "Betweenness_std"); sym_assert(v < 1e-9 ? x < 1e-4 : pg_near(x, sqrt(v)), "spread of the betweenness"); sym_assert(pg_near(hxp_field(f, "Betweenness_min"), lo) && pg_near(hxp_field(f, "Betweenness_max"), hi), "smallest and largest betweenness");
    sym_assert(pg_near(hxp_field(f, "Synchronizability"), syn), "synchronizability"); x = hxp_field(f, "K_K2") - hx_nlinks(&hxp_R0) / k2; sym_assert(x < 1e-9 && x > -1e-9, "ratio of the moments of the degree"); sym_assert(pg_end(f), "and no more"); sym_reach("all"); } else fclose(f);
  sym_reach("end"); }
/* more components than a table of fixed size holds */
void h_many(void) { int i; FILE *f = fopen("net", "w"); sym_step_limit(4000000000L); for (i = 0; i < 1003; i++) fprintf(f, "a%d b%d\n", i, i); fclose(f); hxp_R0.n = -1; sym_assert(pg_run("netprop net") == 0, "the program succeeds"); f = pg_open("stdout.txt"); sym_assert(hxp_field(f, "Num_components") == 1003 && hxp_field(f, "Size_GC") == 2, "components"); fclose(f); sym_reach("end"); }
#endif
#ifdef P_NETRANDOMIZE
void h_main(void) { if (sym_bool("usage")) { hxp_usage(sym_bool("one") ? "netrandomize net" : "netrandomize"); return; } hxp_any(); hxp_R1 = hxp_R0; if (hxp_R0.n > 3 && hxp_R0.a[0][1] && hxp_R0.a[2][3] && !hxp_R0.a[0][3] && !hxp_R0.a[1][2]) { hx_tog(&hxp_R1, 0, 1, 1, 0); hx_tog(&hxp_R1, 2, 3, 1, 0); hx_tog(&hxp_R1, 0, 3, 1, 0); hx_tog(&hxp_R1, 1, 2, 1, 0); sym_reach("exchanged"); } hxp_put("net", &hxp_R0, hx_lab); sym_assert(pg_run("netrandomize net 7") == 0, "the program succeeds"); sym_assert(nran == 1, "the network is randomised"); hxp_list(pg_open("stdout.txt"), &hxp_R1); sym_reach("end"); }
#endif
static void hxp_parts(const char *name, int *g, int ng, int n, const char **lab) { FILE *f = fopen(name, "w"); int k, i; for (k = 0; k < ng; k++) { int hxp_any = 0; for (i = 0; i < n; i++) if (g[i] == k) { fprintf(f, "%s\n", lab[i]); hxp_any = 1; } if (hxp_any) fprintf(f, "///\n"); } fclose(f); }
#ifdef P_MUTUALINFO
static double hxp_plogp(int a, int s) { return a ? (double)a * log((double)a / (double)s) : 0; }
void h_main(void) {
  if (sym_bool("usage")) { hxp_usage(sym_bool("one") ? "mutualinfo p1" : "mutualinfo"); return; } int n = sym_pick(2, NN, "n"), g[HXM], h[HXM], ng = hx_any_part(g, n, n), nh = hx_any_part(h, n, n), i, j, k; double H1 = 0, H2 = 0, I = 0, v; if (ng == 1 && nh == 1) sym_stop(); hxp_parts("p1", g, ng, n, hx_lab); hxp_parts("p2", h, nh, n, hx_lab);
  for (k = 0; k < ng; k++) { int a = 0; for (i = 0; i < n; i++) a += g[i] == k; H1 += hxp_plogp(a, n); } for (k = 0; k < nh; k++) { int a = 0; for (i = 0; i < n; i++) a += h[i] == k; H2 += hxp_plogp(a, n); }
  for (k = 0; k < ng; k++) for (j = 0; j < nh; j++) { int a = 0, b = 0, c = 0; for (i = 0; i < n; i++) { a += g[i] == k; b += h[i] == j; c += g[i] == k && h[i] == j; } if (c) I += c * log((double)c * n / ((double)a * b)); }
  sym_assert(pg_run("mutualinfo p1 p2") == 0, "the program succeeds"); FILE *f = pg_open("stdout.txt"); sym_assert(fscanf(f, "MI = %lf", &v) == 1 && pg_near(v, -2 * I / (H1 + H2)), "mutual information of the partitions"); fclose(f); sym_reach("end"); }
#endif
#if defined(P_BIPMOD) || defined(P_BIPMODW)
#ifdef P_BIPMODW
#define WEIGHTED 1
#else
#define WEIGHTED 0
#endif
void h_main(void) {
  if (sym_bool("usage")) { static const char *u[3] = {"bipmod", "bipmod net", "bipmod net part"}; hxp_usage(u[sym_pick(0, 2, "number of arguments")]); return; }
  static const double wt[8] = {0.5, 1.25, 2, 0.75, 3, 1, 0.125, 5}; int i, j, k, t = sym_pick(0, 1, "inverted"), g[HXM], ng, n, m, e = 0; double w[HXM][HXM], ms = 0, ms2 = 0, Q = 0, v; hxb_any(&B0, 3, NN > 3 ? 3 : 2, 0); FILE *f = fopen("net", "w");
  for (i = 0; i < B0.n; i++) for (j = 0; j < B0.m; j++) if (B0.a[i][j]) { if (WEIGHTED) fprintf(f, "%s %s %g\n", hxb_l1[i], hxb_l2[j], B0.w[i][j] = wt[e++ % 8]); else fprintf(f, "%s %s\n", hxb_l1[i], hxb_l2[j]); } fclose(f);
  for (i = 0; i < B0.n; i++) { for (j = 0, k = 0; j < B0.m; j++) k |= B0.a[i][j]; if (!k) sym_stop(); } for (j = 0; j < B0.m; j++) { for (i = 0, k = 0; i < B0.n; i++) k |= B0.a[i][j]; if (!k) sym_stop(); }
  n = t ? B0.m : B0.n; m = t ? B0.n : B0.m; for (i = 0; i < n; i++) for (k = 0; k < m; k++) w[i][k] = t ? B0.w[k][i] : B0.w[i][k]; ng = hx_any_part(g, n, n); hxp_parts("part", g, ng, n, t ? hxb_l2 : hxb_l1);
  for (k = 0; k < m; k++) { double x = 0; for (i = 0; i < n; i++) x += w[i][k]; ms += x; ms2 += x * x; } if (ms2 - ms < 0.0625 && ms2 - ms > -0.0625) sym_stop();
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && g[i] == g[j]) { double c = 0, ti = 0, tj = 0; for (k = 0; k < m; k++) { c += w[i][k] * w[j][k]; ti += w[i][k]; tj += w[j][k]; } Q += c / (ms2 - ms) - ti * tj / (ms * ms); }
  sym_assert(pg_run(t ? "bipmod net part 1" : "bipmod net part 0") == 0, "the program succeeds"); f = pg_open("stdout.txt"); sym_assert(fscanf(f, "M = %lf", &v) == 1 && pg_near(v, Q), "modularity of the partition"); fclose(f); sym_reach("end"); if (t) sym_reach("inverted"); }
#endif
#ifdef P_MODULARBIPART
void h_main(void) {
  if (sym_bool("usage")) { static const char *u[6] = {"modularbipart", "modularbipart 1", "modularbipart 1 2", "modularbipart 1 2 1", "modularbipart 1 2 1 2", "modularbipart 1 2 1 2 0.5"}; hxp_usage(u[sym_pick(0, 5, "number of arguments")]); return; }
  int i, j, k, n, s1, a, b, seen[HXM][HXM] = {{0}}, e = 0; char cmd[100], l[120]; hxb_any(&B0, 3, 3, 0); for (i = 0; i < 4; i++) hxp_want[i] = sym_pick(1, 3, "parameter"); wantp = 0.75; sprintf(cmd, "modularbipart %d %d %d %d 0.75 99", hxp_want[0], hxp_want[1], hxp_want[2], hxp_want[3]);
  sym_assert(pg_run(cmd) == 0, "the program succeeds"); FILE *f = pg_open("binet.net"); sym_assert(fscanf(f, "*Vertices %d %d", &n, &s1) == 2 && n == 6 && s1 == 3, "numbers of nodes"); for (k = 0; k < 6; k++) { sym_assert(fscanf(f, "%d %119s", &a, l) == 2 && a == k + 1 && l[0] == '"', "a line per node"); l[strlen(l) - 1] = 0; sym_assert(!strcmp(l + 1, k < 3 ? hxb_l1[k] : hxb_l2[k - 3]), "labels of the nodes"); }
  sym_assert(fscanf(f, "%119s", l) == 1 && !strcmp(l, "*Edges"), "title of the links"); while (fscanf(f, "%d %d", &a, &b) == 2) { sym_assert(a >= 1 && a <= 3 && b >= 4 && b <= 6 && B0.a[a - 1][b - 4] && !seen[a - 1][b - 4], "the links printed are links, each once"); seen[a - 1][b - 4] = 1; e++; } sym_assert(e == hxb_nlinks(&B0), "every link is printed"); fclose(f); sym_reach("end"); }
#endif
#if defined(P_NETLAYOUT) || defined(P_MULTI)
static void hxp_coords(void) { int i, k, seen[HXM] = {0}; double x, y; char l[120]; FILE *f = pg_open("stdout.txt"); for (k = 0; k < hxp_R0.n; k++) { sym_assert(fscanf(f, "%119s %lf %lf", l, &x, &y) == 3, "a line per node"); i = hxp_id(l, hx_lab, hxp_R0.n); sym_assert(i < hxp_R0.n && !seen[i], "each node once"); seen[i] = 1; sym_assert(pg_nearg(x, hxp_where(i, 0)) && pg_nearg(y, hxp_where(i, 1)), "coordinates of a node"); } sym_assert(pg_end(f), "and no more"); sym_assert(placed == 1, "the network is laid out once"); }
#endif
#ifdef P_NETLAYOUT
void h_main(void) {
  char cmd[100]; int dt, dr; if (sym_bool("usage")) { int k; static const char *u[3] = {"netlayout", "netlayout net", "netlayout net 1 -1 10 -1"}; for (k = 0; k < 3; k++) sym_assert(pg_run(u[k]) != 0, "missing arguments are an error"); sym_assert(!placed, "nothing is done without the arguments"); sym_reach("usage"); return; }
  hxp_any(); hxp_which = sym_pick(1, 3, "layout"); dt = sym_bool("step"); dr = sym_bool("damping"); wsteps = sym_pick(0, 2, "steps") * 7; wdt = dt ? 0.375 : 0.05; wdrag = dr ? 0.625 : 0.05; hxp_put("net", &hxp_R0, hx_lab); sprintf(cmd, "netlayout net 3 %s %d %s %d", dt ? "0.375" : "-1", wsteps, dr ? "0.625" : "-1", hxp_which); sym_assert(pg_run(cmd) == 0, "the program succeeds"); hxp_coords(); sym_reach("end"); }
#endif
#ifdef P_MULTI
void h_main(void) {
  static const char *nm[3] = {"net0", "net1", "net2"}; Ref r[3]; const char *lb[3][HXM]; int k, i, j, c = sym_pick(1, 3, "networks"), used[HXM] = {0}, m = 0; char cmd[60] = "multinetlayout"; hx_clear(&hxp_R0, NN); wsteps = -1; hxp_which = 1;
  for (k = 0; k < c; k++) { if (k < 2) { hx_any_undirected(&r[k], 3, 0, 0); if (hxp_loose(&r[k])) sym_stop(); } else { hx_clear(&r[k], 3); hx_tog(&r[k], 0, 2, 1, 0); hx_tog(&r[k], 1, 2, 1, 0); } int off = k ? sym_pick(0, NN - 3, "shift") : 0; for (i = 0; i < 3; i++) { lb[k][i] = hx_lab[i + off]; used[i + off] = 1; } for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) hxp_R0.a[i + off][j + off] |= r[k].a[i][j]; hxp_put(nm[k], &r[k], lb[k]); strcat(cmd, " "); strcat(cmd, nm[k]); }
  if (c == 1) { sym_assert(pg_run(cmd) != 0, "missing arguments are an error"); sym_reach("usage"); return; } for (i = 0; i < NN; i++) m += used[i]; for (i = 0; i < m; i++) if (!used[i]) sym_stop(); hxp_R0.n = m; sym_assert(pg_run(cmd) == 0, "the program succeeds"); hxp_coords(); sym_reach("end"); if (c == 3) sym_reach("three"); }
#endif
