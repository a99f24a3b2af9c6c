#define HX_ODD
/* C31: the files written by netcarto-legacy (the module search itself is C30's; here it returns any partition). */
#include "hxp.h"
#include "prog.h"
static int hxp_sg[4][HXM], sn, sr; static Ref R0;
static struct group *stub_sa(struct node_gra *net, double Ti, double Tf, double Ts, double fac, int ng, char ini, int coll, char out, gsl_rng *gen) {
  struct group *p = CreateHeaderGroup(), *l = p, *gr[HXM]; struct node_gra *q; int i, k; if (sn == 0) { sym_assert(Ts == 0.75 && fac == 1.5, "cooling and iteration factors of the search"); hx_same(net, &R0, hx_lab, 1); }
  for (k = 0; k < HXM; k++) { gr[k] = NULL; for (i = 0; i < R0.n; i++) if (hxp_sg[sn][i] == k) { gr[k] = l = CreateGroup(l, k); break; } }
  ResetNetGroup(net); for (q = net->next; q; q = q->next) { for (i = 0; strcmp(q->label, hx_lab[i]); i++) ; AddNodeToGroup(gr[hxp_sg[sn][i]], q); } sn++; return p;
}
static struct node_gra *stub_rnd(struct node_gra *net, double t, gsl_rng *gen) { sr++; hx_same(net, &R0, hx_lab, 1); return net; }
#define SACommunityIdent stub_sa
#define RandomizeSymmetricNetwork stub_rnd
#include "netcarto/main_netcarto_legacy.c"
#undef main
#ifndef NN
#define NN 4
#endif
static double hxp_mod(Ref *r, int *g) { int i, j; double L = hx_nlinks(r), s = 0; for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (g[i] == g[j]) s += (r->a[i][j] - hx_deg(r, i) * hx_deg(r, j) / L) / L; return s; }
static int hxp_role(double P, double z) { if (z < 2.5) return P < 0.05 ? 0 : P < 0.62 ? 1 : P < 0.8 ? 2 : 3; return P < 0.3 ? 4 : P < 0.75 ? 5 : 6; }
static int hxp_near(double P) { static const double b[] = {0.05, 0.62, 0.8, 0.3, 0.75}; int k; for (k = 0; k < 5; k++) if (P - b[k] < 1e-6 && b[k] - P < 1e-6) return 1; return 0; }
static int hxp_id(const char *l) { int i; for (i = 0; i < R0.n && strcmp(l, hx_lab[i]); i++) ; return i; }
/* the groups of a file: one line each, counts, then the nodes; g[i]: line of node i */
static void hxp_groups(const char *name, int *g, int last) {
  FILE *f = pg_open(name); char line[300]; int i, j, k = 0, ok = 0; for (i = 0; i < R0.n; i++) g[i] = -1; int cnt[HXM][5];
  while (fgets(line, 300, f)) if (line[0] == '#') { double q; sym_assert(last && sscanf(line, "# Modularity = %lf", &q) == 1, "modularity line"); sym_assert(pg_nearg(q, hxp_mod(&R0, hxp_sg[0])), "modularity of the modules"); ok = 1; } else {
    int lab; double w[3]; char *t = strstr(line, "---"); sym_assert(t && sscanf(line, "%d %d %d %d %d %lf %lf %lf", &lab, &cnt[k][0], &cnt[k][1], &cnt[k][2], &cnt[k][3], w, w + 1, w + 2) == 8, "a group's line");
    for (t = strtok(t + 3, " \n"); t; t = strtok(NULL, " \n")) { i = hxp_id(t); sym_assert(i < R0.n && g[i] < 0, "every node is listed once"); g[i] = k; } k++; }
  fclose(f); sym_assert(ok == last, "the modularity is given");
  for (i = 0; i < R0.n; i++) sym_assert(g[i] >= 0, "every node is listed");
  for (i = 0; i < k; i++) { int s = 0; for (j = 0; j < R0.n; j++) s += g[j] == i; sym_assert(cnt[i][0] == s && cnt[i][1] == hx_gtot(&R0, g, i) && cnt[i][2] == hx_gin(&R0, g, i) && cnt[i][3] == cnt[i][1] - cnt[i][2], "sizes and links of the groups"); }
}
static void hxp_clu(const char *name, int *g, int roles, const int *order) { FILE *f = pg_open(name); int n = 0, i, j, v[HXM], x; sym_assert(fscanf(f, "*Vertices %d", &n) == 1 && n == R0.n, "number of nodes"); for (i = 0; i < n; i++) sym_assert(fscanf(f, "%d", &v[i]) == 1, "a number per node"); sym_assert(fscanf(f, "%d", &x) != 1, "and no more"); fclose(f); for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert((v[i] == v[j]) == (g[order[i]] == g[order[j]]), "nodes with the same number are those of a group"); }
void h_legacy(void) {
  int i, j, e = 0, g[HXM], rg[HXM], order[HXM], k, rep; char l[120], cmd[100]; FILE *f; hx_clear(&R0, NN); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if (sym_bool("link")) { hx_put(&R0, i, j, 1, 0); e++; } 
  for (i = 0; i < NN; i++) if (!hx_deg(&R0, i)) sym_stop();
  f = fopen("net.dat", "w"); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if (R0.a[i][j]) fprintf(f, "%s %s\n", hx_lab[i], hx_lab[j]); fclose(f);
  hx_any_part(hxp_sg[0], NN, NN); rep = sym_pick(1, 3, "randomisations"); for (k = 1; k <= rep; k++) for (i = 0; i < NN; i++) hxp_sg[k][i] = k == 1 ? 0 : k == 2 ? i / 2 : i % 2;
  int ask = sym_bool("asked");
  if (ask) { f = fopen("in.dat", "w"); fprintf(f, "17\nnet.dat\n1.5\n0.75\n%d\n", rep); fclose(f); f = freopen("in.dat", "r", stdin); strcpy(cmd, "netcarto-legacy"); } else sprintf(cmd, "netcarto-legacy -f net.dat -s 17 -i 1.5 -c 0.75 -r %d", rep);
  sym_assert(pg_run(cmd) == 0, "the program succeeds"); sym_assert(sn == rep + 1 && sr == rep, "one search per network");
  hxp_groups("modules.dat", g, 1); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) sym_assert((g[i] == g[j]) == (hxp_sg[0][i] == hxp_sg[0][j]), "the modules are those found");
  /* the order of the nodes, from the network file written */
  int n = 0, a, b, seen[HXM][HXM] = {{0}}; f = pg_open("network.net"); sym_assert(fscanf(f, "*Vertices %d", &n) == 1 && n == NN, "number of nodes"); for (i = 0; i < NN; i++) { sym_assert(fscanf(f, "%d %119s", &a, l) == 2 && a == i + 1, "a line per node"); l[strlen(l) - 1] = 0; order[i] = hxp_id(l + 1); sym_assert(order[i] < NN, "labels of the nodes"); }
  sym_assert(fscanf(f, "%119s", l) == 1, "title of the links"); for (k = 0; k < e; k++) { sym_assert(fscanf(f, "%d %d", &a, &b) == 2 && a >= 1 && a <= n && b >= 1 && b <= n, "a line per link"); a = order[a - 1]; b = order[b - 1]; sym_assert(R0.a[a][b] && !seen[a][b], "links of the network"); seen[a][b] = seen[b][a] = 1; } sym_assert(pg_end(f), "and no more links");
  hxp_clu("modules.clu", g, 0, order);
  double P[HXM], Z[HXM]; int hit[HXM] = {0}; f = pg_open("node_prop.dat");
  for (k = 0; k < NN; k++) { int d; double p, z; sym_assert(fscanf(f, "%119s %d %lf %lf", l, &d, &p, &z) == 4, "a line per node"); i = hxp_id(l); sym_assert(i < NN && !hit[i], "each node once"); hit[i] = 1; sym_assert(d == hx_deg(&R0, i), "degree of a node");
    double s = 0, mean = 0, var = 0, own[HXM]; int m, c = 0; for (m = 0; m < HXM; m++) { double to = 0; for (j = 0; j < NN; j++) if (hxp_sg[0][j] == m) to += R0.a[i][j]; s += to * to; } P[i] = 1 - s / (d * (double)d); sym_assert(pg_near(p, P[i]), "participation coefficient of a node");
    for (j = 0; j < NN; j++) if (hxp_sg[0][j] == hxp_sg[0][i]) { own[j] = 0; for (m = 0; m < NN; m++) if (hxp_sg[0][m] == hxp_sg[0][i]) own[j] += R0.a[j][m]; mean += own[j]; c++; } mean /= c; for (j = 0; j < NN; j++) if (hxp_sg[0][j] == hxp_sg[0][i]) var += (own[j] - mean) * (own[j] - mean); var /= c; Z[i] = var > 1e-9 ? (own[i] - mean) / sqrt(var) : 0; sym_assert(pg_near(z, Z[i]), "within-module degree of a node"); }
  sym_assert(pg_end(f), "and no more nodes");
  hxp_groups("roles.dat", rg, 0); for (i = 0; i < NN; i++) for (j = 0; j < NN; j++) if (!hxp_near(P[i]) && !hxp_near(P[j])) sym_assert((rg[i] == rg[j]) == (hxp_role(P[i], Z[i]) == hxp_role(P[j], Z[j])), "the roles group the nodes of the same role"); hxp_clu("roles.clu", rg, 1, order);
  double x, y, z, av = 0, sd = 0, q; f = pg_open("randomized_mod.dat"); char line[200]; sym_assert(fgets(line, 200, f) && line[0] == '#' && fscanf(f, "%lf %lf %lf", &x, &y, &z) == 3, "modularities"); fclose(f); for (k = 1; k <= rep; k++) av += hxp_mod(&R0, hxp_sg[k]) / rep; for (k = 1; k <= rep; k++) { q = hxp_mod(&R0, hxp_sg[k]) - av; sd += q * q / rep; }
  sym_assert(pg_near(x, hxp_mod(&R0, hxp_sg[0])), "modularity of the network"); sym_assert(pg_near(y, av), "mean modularity of the randomised networks"); sym_assert(pg_near(z * z, sd) || pg_near(z, sqrt(sd)), "its standard deviation"); sym_reach("end"); if (ask) sym_reach("asked");
}
