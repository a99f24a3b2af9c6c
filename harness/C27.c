/* C27: the network generators, for every parameter in range and every sequence of draws. */
#include "hxb.h"
#include "models.h"
#ifndef NN
#define NN 3
#endif
#ifndef NTEAM
#define NTEAM 2
#endif
#ifndef UNDIR
#define UNDIR 0
#endif
#ifndef DL
#define DL 10
#endif
static gsl_rng *G;
static void start(void) { G = gsl_rng_alloc(gsl_rng_mt19937); }
static void labels(struct node_gra *net, int n) { int k = 0; char l[16]; struct node_gra *p = net; while ((p = p->next) != NULL) { sprintf(l, "%d", k + 1); sym_assert(p->num == k && !strcmp(p->label, l), "nodes are numbered and labelled 1, 2, ..."); k++; } sym_assert(k == n, "the requested number of nodes"); }
/* consistent simple undirected network; a[][] is filled in */
static int simple(struct node_gra *net, int n, int a[HXM][HXM]) {
  int i, j, c = 0; struct node_gra *p = net, *nd[HXM]; for (i = 0; i < HXM; i++) for (j = 0; j < HXM; j++) a[i][j] = 0; i = 0; while ((p = p->next) != NULL) nd[i++] = p;
  for (i = 0; i < n; i++) { struct node_lis *l = nd[i]->neig; while ((l = l->next) != NULL) { for (j = 0; j < n && nd[j] != l->ref; j++) ; sym_assert(j < n, "links point to nodes of the network"); sym_assert(j != i, "no self-link"); sym_assert(!a[i][j], "no pair is linked twice"); sym_assert(l->node == j && !strcmp(l->nodeLabel, nd[j]->label), "links carry the number and label of the node they point to"); a[i][j] = 1; c++; } }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(a[i][j] == a[j][i], "links are present at both ends");
  return c / 2;
}
static void done(struct node_gra *net, int b0) { RemoveGraph(net); gsl_rng_free(G); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
void h_empty(void) { int b0 = sym_live_blocks(), n = sym_pick(0, 12, "nodes"), a[HXM][HXM]; start(); struct node_gra *net = EmptyGraph(n); labels(net, n); struct node_gra *p = net; while ((p = p->next) != NULL) sym_assert(p->neig->next == NULL, "an empty network has no links"); done(net, b0); }
void h_er(void) {
  int b0 = sym_live_blocks(), n = sym_pick(0, NN, "nodes"), a[HXM][HXM], i, j, k = 0; double p = sym_real(0, 1, "p"); start(); sym_draw_reset();
  struct node_gra *net = ERGraph(n, p, G); labels(net, n); simple(net, n, a); sym_assert(sym_draws_made() == n * (n - 1) / 2, "one draw per pair");
  for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) { sym_assert(a[i][j] == (sym_draw_value(k) < p), "a pair is linked exactly when its draw is below the probability"); k++; }
  done(net, b0);
}
void h_block(void) {
  static const int sz[][3] = {{2, 1, 0}, {1, 2, 0}, {1, 1, 1}, {3, 0, 0}, {0, 2, 1}, {2, 2, 0}}; int b0 = sym_live_blocks(), s = sym_pick(0, NN > 3 ? 5 : 4, "sizes"), g[HXM], gs[3], n = 0, a[HXM][HXM], i, j, k = 0; double *q[3], qq[3][3]; start();
  for (i = 0; i < 3; i++) { gs[i] = sz[s][i]; for (j = 0; j < gs[i]; j++) g[n++] = i; q[i] = qq[i]; for (j = 0; j <= i; j++) qq[i][j] = qq[j][i] = sym_real(0, 1, "q"); } sym_draw_reset();
  struct node_gra *net = UndirectedBlockGraph(3, gs, q, sym_bool("verbose") ? 'v' : 'q', G), *p = net; labels(net, n); simple(net, n, a); i = 0; while ((p = p->next) != NULL) sym_assert(p->inGroup == g[i++], "every node is in its group");
  for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) { sym_assert(a[i][j] == (sym_draw_value(k) < qq[g[i]][g[j]]), "a pair is linked with the probability of its two groups"); k++; }
  done(net, b0);
}
void h_gn(void) {
  int b0 = sym_live_blocks(), ng = sym_pick(1, 2, "groups"), gz = sym_pick(2, 2, "size"), n = ng * gz, a[HXM][HXM], i, j, k = 0; double kin = sym_real(0, 1, "kin"), kout = sym_real(0, 2, "kout"); start(); sym_draw_reset();
  struct node_gra *net = GirvanNewmanGraph(ng, gz, kin, kout, 'q', G); labels(net, n); simple(net, n, a);
  for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) { double q = i / gz == j / gz ? kin / (gz - 1) : kout / (gz * (ng - 1)); sym_assert(a[i][j] == (sym_draw_value(k) < q), "the mean numbers of links within and between groups are those asked for"); k++; }
  done(net, b0);
}
void h_gn3(void) { /* extreme connectivities, any draws */
  int b0 = sym_live_blocks(), ng = sym_pick(1, 3, "groups"), gz = sym_pick(1, 2, "size"), n = ng * gz, a[HXM][HXM], i, j, in = sym_bool("in"), out = sym_bool("out"); start();
  struct node_gra *net = GirvanNewmanGraph(ng, gz, in ? gz - 1 : 0, out ? gz * (ng - 1) : 0, 'q', G), *p = net; labels(net, n); simple(net, n, a);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) sym_assert(a[i][j] == (i / gz == j / gz ? in : out), "certain links are present and impossible ones absent"); done(net, b0);
}
void h_pa(void) {
  int b0 = sym_live_blocks(), m = sym_pick(1, 3, "m"), s = sym_pick(m, NN + 1, "nodes"), a[HXM][HXM], i, j, c; start(); sym_draw_window(0, DL, 1); sym_step_limit(400000);
  struct node_gra *net = PAGraph(s, m, G); labels(net, s); c = simple(net, s, a);
  for (i = 0; i < s; i++) { int d = 0; for (j = 0; j < i; j++) d += a[i][j]; sym_assert(d == (i < m ? i : m), "every new node brings the requested number of links"); }
  sym_assert(c == m * (m - 1) / 2 + m * (s - m), "the requested number of links"); if (s > m + 1 && m > 1) sym_reach("grown"); done(net, b0);
}
/* the last node's draw, shifted through all link ends: every node is chosen as often as it has link ends */
void h_papref(void) {
  int s = sym_pick(3, NN + 2, "nodes"), sd = sym_pick(1, 3, "stream"), a[HXM][HXM], hit[HXM] = {0}, deg[HXM], i, j, k, c, m, ee = 2 * (s - 2); struct node_gra *net; start();
  sym_draw_window(0, 0, sd); sym_draw_reset(); net = PAGraph(s, 1, G); c = sym_draw_count(); RemoveGraph(net); double u = sym_real(0, 1, "offset"); sym_assume(u * ee < 1);
  for (k = 0; k < ee; k++) {
    sym_draw_window(c - 1, c, sd); sym_draw_reset(); net = PAGraph(s, 1, G); sym_assume(sym_draw_value(c - 1) == u + (double)k / ee); m = simple(net, s, a); sym_assert(m == s - 1, "the requested number of links");
    for (i = 0; i < s - 1; i++) { if (a[s - 1][i]) hit[i]++; deg[i] = 0; for (j = 0; j < s - 1; j++) deg[i] += a[i][j]; } RemoveGraph(net);
  }
  for (i = 0; i < s - 1; i++) sym_assert(hit[i] == deg[i], "nodes are chosen in proportion to their degree"); sym_reach("end");
}
void h_add(void) {
  Ref r, e; int b0 = sym_live_blocks(), i, j, dir = UNDIR ? 0 : sym_bool("directed"), n = NN, c = 0, av; start(); if (dir) hx_any_directed(&r, n, 0, 0); else hx_any_undirected(&r, n, 0, 0); for (i = 0; i < n; i++) for (j = 0; j < n; j++) r.w[i][j] *= 2;
  struct node_gra *net = hx_build(&r, 0); av = n * (n - 1) - hx_nlinks(&r); if (!dir) av /= 2; int k = sym_pick(0, 2, "links"); if (k > av) sym_stop(); sym_draw_window(0, 2 * k + 2, 1); sym_step_limit(400000);
  AddRandomLinks(net, k, !dir, G); e = r;
  for (i = 0; i < n; i++) { struct node_lis *l = hx_nd[i]->neig; while ((l = l->next) != NULL) { for (j = 0; j < n && hx_nd[j] != l->ref; j++) ; sym_assert(j < n && j != i, "new links join two different nodes"); if (!e.a[i][j]) { e.a[i][j] = 1; e.w[i][j] = 1; c++; } } }
  hx_same(net, &e, hx_lab, 1); sym_assert(c == (dir ? k : 2 * k), "exactly the requested number of links is added"); if (!dir) for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(e.a[i][j] == e.a[j][i], "undirected links are added at both ends");
  if (c) sym_reach("added"); done(net, b0);
}
void h_remove(void) {
  Ref r, e; int b0 = sym_live_blocks(), i, j, dir = sym_bool("directed"), self = sym_bool("self"), n = NN, c = 0, av = 0; start(); if (dir) hx_any_directed(&r, n, self, 0); else hx_any_undirected(&r, n, self, 0);
  struct node_gra *net = hx_build(&r, sym_bool("rev")); for (i = 0; i < n; i++) for (j = dir ? 0 : i; j < n; j++) av += r.a[i][j]; int k = sym_pick(0, 2, "links"); if (k > av) sym_stop(); sym_draw_window(0, k + 1, 1); sym_step_limit(400000);
  RemoveRandomLinks(net, k, !dir, G); e = r;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (e.a[i][j] && IsThereLink(hx_nd[i], hx_nd[j]) == 0) { e.a[i][j] = 0; if (dir || i <= j) c++; }
  hx_same(net, &e, hx_lab, 1); sym_assert(c == k, "exactly the requested number of links is removed"); if (!dir) for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(e.a[i][j] == e.a[j][i], "undirected links are removed at both ends");
  if (c) sym_reach("removed"); done(net, b0);
}
#ifndef QLO
#define QLO 0
#define QHI 5
#endif
void h_modular(void) {
  int b0 = sym_live_blocks(), nm = sym_pick(1, 2, "modules"), own = sym_bool("sizes"), npm = sym_pick(1, 2, "permodule"), ms[2], i, j, k, s1 = 0, mod[8], s2 = sym_pick(1, NTEAM, "teams"); double cp[2], p; static const int lim[][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {-1, 0}, {3, 3}, {2, 3}}; int q = sym_pick(QLO, QHI, "limits"), pk = sym_pick(0, 2, "p"), a[8][4] = {{0}}; start();
  for (i = 0; i < nm; i++) { ms[i] = own ? sym_pick(1, 2, "size") : npm; for (j = 0; j < ms[i]; j++) mod[s1++] = i; } if (own && npm == 2) sym_stop(); if (lim[q][1] > s1) sym_stop();
  int cpk = sym_pick(0, 3, "colours"); cp[0] = cpk == 1 ? 0 : cpk == 2 ? 1 : 0.5; cp[1] = 1 - cp[0]; if (nm == 1) { cp[0] = 1; if (cpk > 1) sym_stop(); } p = pk == 0 ? 0 : pk == 1 ? 1 : 0.5;
  sym_draw_window(0, DL, 1); sym_step_limit(400000); /* draws after the arbitrary ones come from a fixed stream: a search that no draw can end is a hang */
  struct binet *b = BuildModularBipartiteNetwork(own ? ms : NULL, npm, nm, cpk ? cp : NULL, s2, lim[q][0], lim[q][1], 0.5, p, G);
  struct node_gra *x, *n1[8], *n2[4]; char l[16]; i = 0; for (x = b->net1->next; x; x = x->next) { sprintf(l, "A%d", i + 1); sym_assert(i < s1 && x->num == i && !strcmp(x->label, l) && x->inGroup == mod[i], "agents are numbered, labelled and assigned to their modules"); n1[i++] = x; } sym_assert(i == s1, "the requested number of agents");
  i = 0; for (x = b->net2->next; x; x = x->next) { sprintf(l, "B%d", i + 1); sym_assert(i < s2 && x->num == i && !strcmp(x->label, l), "teams are numbered and labelled"); sym_assert(x->inGroup >= 0 && x->inGroup < nm, "every team has the colour of a module"); if (cpk) sym_assert(cp[x->inGroup] > 0, "no team has a colour of probability zero"); n2[i++] = x; } sym_assert(i == s2, "the requested number of teams");
  for (i = 0; i < s2; i++) { struct node_lis *y = n2[i]->neig; int m = 0, col = 0; while ((y = y->next) != NULL) { for (j = 0; j < s1 && n1[j] != y->ref; j++) ; sym_assert(j < s1, "teams are made of agents"); sym_assert(!a[j][i], "no agent is in a team twice"); a[j][i] = 1; m++; col += mod[j] == n2[i]->inGroup; sym_assert(y->node == j, "links carry the number of the node they point to"); }
    if (q != 5) sym_assert(m >= lim[q][0] && m <= lim[q][1], "team sizes are within the limits"); if (pk == 1) sym_assert(col == (m < ms[n2[i]->inGroup] ? m : ms[n2[i]->inGroup]), "teams take agents of their own colour while there are any"); if (m == 2) sym_reach("two"); if (m == 3) sym_reach("three"); }
  for (j = 0; j < s1; j++) { struct node_lis *y = n1[j]->neig; int got[4] = {0}; while ((y = y->next) != NULL) { for (i = 0; i < s2 && n2[i] != y->ref; i++) ; sym_assert(i < s2 && !got[i] && a[j][i], "links are present at both ends"); got[i] = 1; } for (i = 0; i < s2; i++) sym_assert(got[i] == a[j][i], "links are present at both ends"); }
  RemoveBipart(b); gsl_rng_free(G); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
