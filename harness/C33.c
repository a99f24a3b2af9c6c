#define HX_ODD
/* C33: the scoring programs hand their input to the scorer and print every score with the labels it belongs to. The scorers themselves (C22 to C24) are replaced by tables of scores. PROGF: the source of the program. */
#include "hxb.h"
#include "hxp.h"
#include "hxd.h"
#include "prog.h"
#include "recommend.h"
#ifndef NN
#define NN 4
#endif
static Ref hxp_R0, R1; static BRef B0; static int used, bign;
/* the score of a pair: any of several orders of magnitude, different for every pair */
static double hxp_sc(int i, int j) { static const double m[5] = {0.5, 123.456, 0.000012, 98765.25, -0.25}; int a = i < j ? i : j, b = i < j ? j : i; return m[(a + 2 * b) % 5] + (a * 8 + b) * (m[(a + 2 * b) % 5] < 0.01 && m[(a + 2 * b) % 5] > 0 ? 1e-6 : 0.0625); }
static double sk(int k, int q) { static const double m[3] = {0.25, 0.015625, 0.5}; return m[(k + q) % 3] + 0.001 * q + 0.1 * k; }
static int hxp_id(const char *l, const char **lab, int n) { int i; for (i = 0; i < n && strcmp(l, lab[i]); i++) ; return i; }
#if defined(F_LINK)
static double **stub_link(struct node_gra *net) { double **m; int i, j; struct node_gra *p, *q; hx_same(net, &hxp_R0, hx_lab, 0); used++; m = allocate_d_mat(hxp_R0.n, hxp_R0.n); for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < hxp_R0.n; j++) m[i][j] = 0; for (p = net->next; p; p = p->next) for (q = net->next; q; q = q->next) if (p != q) m[p->num][q->num] = hxp_sc(hxp_id(p->label, hx_lab, hxp_R0.n), hxp_id(q->label, hx_lab, hxp_R0.n)); return m; }
#define SC4(net, lin, it, gen, v) stub_link(net)
#define LinkScore SC4
#define GibbsLinkScore SC4
#define SparseGibbsLinkScore(net, it, gen, v) stub_link(net)
#define LinkScoreMB SC4
#define ORLinkScoreMB SC4
#define GibbsLinkScoreMB SC4
#define ORGibbsLinkScoreMB SC4
#define LinkScoreMB_OD SC4
#define GibbsLinkScoreMB_OD SC4
#endif
#ifdef F_K
static int hxp_QN1[64], QN2[64], QN, KQ;
static double **stub_k(int Kx, struct node_gra *net, struct query ***qs, int *nq) { double **m; int k, q = 0; struct node_gra *a, *b; hx_same(net, &hxp_R0, hx_lab, 1); used++; KQ = Kx; *nq = QN = hxp_R0.n * (hxp_R0.n - 1) / 2; *qs = (struct query **)calloc(QN + 1, sizeof(struct query *)); for (a = net->next; a; a = a->next) for (b = a->next; b; b = b->next) { (*qs)[q] = CreateQuery(a, b); hxp_QN1[q] = hxp_id(a->label, hx_lab, hxp_R0.n); QN2[q++] = hxp_id(b->label, hx_lab, hxp_R0.n); } m = allocate_d_mat(Kx, QN); for (k = 0; k < Kx; k++) for (q = 0; q < QN; q++) m[k][q] = sk(k, q); return m; }
#define LSMultiLinkScoreKState(Kx, net, it, gen, v, dec, qs, nq) stub_k(Kx, net, qs, nq)
#endif
#ifdef F_REC
static struct node_gra *stub_rec(struct node_gra *net) { hx_same(net, &hxp_R0, hx_lab, 0); used++; return hx_build(&R1, 1); }
#define NetReconstruct(net, gen) stub_rec(net)
#endif
#if defined(F_REC2) || defined(F_RECK)
static int hxp_QL1[8], QL2[8], QN, KQ; static const char *l1x[5] = {HX_LONG "a", "50%d%s", "a2", "newcomer", "a3"}, *l2x[5] = {"b0", HX_LONG "b", "%n%s", "unseen", "b3"};
static void hxp_ratings_ok(struct binet *b, struct query **qs, int nq) { int i, j, q; sym_assert(nq == QN, "all the queries are asked"); for (q = 0; q < nq; q++) { sym_assert(!strcmp(qs[q]->n1->label, l1x[hxp_QL1[q]]) && !strcmp(qs[q]->n2->label, l2x[QL2[q]]), "a query asks for the pair it names"); sym_assert(hx_find(b->net1, l1x[hxp_QL1[q]]) == qs[q]->n1 && hx_find(b->net2, l2x[QL2[q]]) == qs[q]->n2, "queries are about nodes of the ratings"); }
  for (i = 0; i < B0.n; i++) for (j = 0; j < B0.m; j++) { struct node_gra *x = hx_find(b->net1, l1x[i]), *y = hx_find(b->net2, l2x[j]); int c = 0; struct node_lis *l; double w = -1; sym_assert(x != NULL && y != NULL, "everything rated is known"); for (l = x->neig->next; l; l = l->next) if (l->ref == y) { c++; w = l->weight; } sym_assert(c == B0.a[i][j] && (!c || w == B0.w[i][j]), "the ratings are those of the file"); } }
#endif
#ifdef F_REC2
static double *stub_r2(struct binet *b, struct query **qs, int nq) { double *s; int q; hxp_ratings_ok(b, qs, nq); used++; s = allocate_d_vec(nq); for (q = 0; q < nq; q++) s[q] = sk(0, q); return s; }
#define MultiLinkScore2State(b, qs, nq, it, gen, v, dec) stub_r2(b, qs, nq)
#endif
#ifdef F_RECK
static double **stub_rk(int Kx, struct binet *b, struct query **qs, int nq) { double **s; int q, k; hxp_ratings_ok(b, qs, nq); used++; KQ = Kx; s = allocate_d_mat(Kx, nq); for (k = 0; k < Kx; k++) for (q = 0; q < nq; q++) s[k][q] = sk(k, q); return s; }
#define MultiLinkScoreKState(Kx, b, qs, nq, it, gen, v, dec) stub_rk(Kx, b, qs, nq)
#define GibbsMultiLinkScoreKState(Kx, b, qs, nq, it, gen, v) stub_rk(Kx, b, qs, nq)
#endif
#ifdef F_CONFLICT
static struct query **stub_c(struct binet *b) { struct query **s; struct node_gra *x, *y; int q = 0; hxb_same(b, &B0, hx_lab, hx_lab, 1); used++; s = (struct query **)calloc(64, sizeof(struct query *)); for (x = b->net1->next; x; x = x->next) for (y = b->net2->next; y; y = y->next) { s[q] = CreateQuery(x, y); s[q++]->score = sk(hxp_id(x->label, hx_lab, 8), hxp_id(y->label, hx_lab, 8)); } return s; }
#define AllLinkScore2State(b, it, gen, v, dec) stub_c(b)
#endif
#include PROGF
#undef main
#ifndef WSW
#define WSW 0
#endif
static void hxp_put(const char *name, Ref *r) { FILE *f = fopen(name, "w"); int i, j, rev = sym_bool("reversed"); for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (r->a[i][j] && (rev ? j < i : i < j)) { if (WSW) fprintf(f, "%s %s %d\n", hx_lab[i], hx_lab[j], (int)r->w[i][j]); else fprintf(f, "%s %s\n", hx_lab[i], hx_lab[j]); } fclose(f); }
static void hxp_any(void) { int i, j, c = 0; hx_any_undirected(&hxp_R0, sym_pick(2, NN, "n"), 0, 0); for (i = 0; i < hxp_R0.n; i++) if (!hx_deg(&hxp_R0, i)) sym_stop(); if (WSW) for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < i; j++) if (hxp_R0.a[i][j]) hxp_R0.w[i][j] = hxp_R0.w[j][i] = c++ % 3; hxp_put("net", &hxp_R0); }
/* score, label, label: every pair of the given kind (1: linked, 0: not linked, 2: any) once, no other */
static void hxp_scores(FILE *f, int kind) { char a[120], b[120]; double v; int i, j, c = 0, e = 0, seen[HXM][HXM] = {{0}}; while (fscanf(f, "%lf %119s %119s", &v, a, b) == 3) { i = hxp_id(a, hx_lab, hxp_R0.n); j = hxp_id(b, hx_lab, hxp_R0.n); sym_assert(i < hxp_R0.n && j < hxp_R0.n && i != j && (kind == 2 || hxp_R0.a[i][j] == kind), "pairs are printed where they belong"); sym_assert(!seen[i][j], "a pair is printed once"); seen[i][j] = seen[j][i] = 1; sym_assert(pg_nearg(v, hxp_sc(i, j)), "a pair is printed with its score"); c++; } for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < i; j++) e += kind == 2 || hxp_R0.a[i][j] == kind; sym_assert(c == e, "every pair is printed"); sym_assert(pg_end(f), "and no more"); if (c && kind == 0) sym_reach("unlinked"); }
#ifndef PRG
#define PRG "prog"
#endif
#if defined(F_K) || defined(F_RECK)
#define NUMK 1
#else
#define NUMK 0
#endif
/* all but the last argument */
static int hxp_usage(void) { if (!sym_bool("usage")) return 0; int k; static const char *u[5] = {"prog", "prog x", "prog x y", "prog x y z", ""}; for (k = 0; k < NARG; k++) sym_assert(pg_run(u[k]) != 0, "missing arguments are an error"); sym_assert(!used, "nothing is computed without the arguments"); sym_reach("usage"); return 1; }
#ifdef F_LINK
#ifdef OUTEXT
static void hxp_out(const char *name) { hxp_scores(pg_open(name), 2); }
#endif
void h_main(void) {
  if (hxp_usage()) return;
#ifdef OUTEXT
  /* file names of any length */
  if (sym_bool("long name")) { static char nm[230], cmd[300]; int i; FILE *f; hx_clear(&hxp_R0, 2); hx_tog(&hxp_R0, 0, 1, 1, 0); for (i = 0; i < 205; i++) nm[i] = 'n'; nm[205] = 0; f = fopen(nm, "w"); fprintf(f, "%s %s\n", hx_lab[0], hx_lab[1]); fclose(f); strcpy(cmd, "prog "); strcat(cmd, nm); strcat(cmd, " 3"); sym_assert(pg_run(cmd) == 0, "the program succeeds"); strcat(nm, OUTEXT); hxp_out(nm); sym_reach("long"); return; }
#endif
  hxp_any(); sym_assert(pg_run("prog net 3") == 0, "the program succeeds"); sym_assert(used == 1, "the links are scored");
#ifdef OUTEXT
  hxp_out("net" OUTEXT);
#elif defined(SPLIT)
  hxp_scores(pg_open("missing.dat"), 0); hxp_scores(pg_open("spurious.dat"), 1);
#else
  hxp_scores(pg_open("stdout.txt"), 2);
#endif
  sym_reach("end"); }
#endif
#ifdef F_K
static void hxp_ks(const char *name, int kind) { FILE *f = pg_open(name); char a[120], b[120]; double v; int i, j, k, q, c = 0, e = 0; while (fscanf(f, "%119s %119s", a, b) == 2) { i = hxp_id(a, hx_lab, hxp_R0.n); j = hxp_id(b, hx_lab, hxp_R0.n); for (q = 0; q < QN && !(hxp_QN1[q] == i && QN2[q] == j) && !(hxp_QN1[q] == j && QN2[q] == i); q++) ; sym_assert(q < QN && hxp_R0.a[i][j] == kind, "pairs are printed where they belong"); for (k = 0; k < KQ; k++) sym_assert(fscanf(f, "%lf", &v) == 1 && pg_near(v, sk(k, q)), "a pair is printed with its scores"); hxp_QN1[q] = -1; c++; } for (i = 0; i < hxp_R0.n; i++) for (j = 0; j < i; j++) e += hxp_R0.a[i][j] == kind; sym_assert(c == e, "every pair is printed once"); sym_assert(pg_end(f), "and no more"); if (c && !kind) sym_reach("unlinked"); }
void h_main(void) { char cmd[60]; int kk; if (hxp_usage()) return; hxp_any(); kk = sym_pick(1, 3, "K"); sprintf(cmd, "prog %d net 3", kk); sym_assert(pg_run(cmd) == 0, "the program succeeds"); sym_assert(used == 1 && KQ == kk, "the links are scored for the given number of values"); hxp_ks("unobserved_k.dat", 0); hxp_ks("observed_k.dat", 1); sym_reach("end"); }
#endif
#ifdef F_REC
void h_main(void) { char a[120], b[120]; int i, j, c = 0, seen[HXM][HXM] = {{0}}; if (hxp_usage()) return; hxp_any(); hx_any_undirected(&R1, 3, 0, 0); sym_assert(pg_run("prog net 3") == 0, "the program succeeds"); sym_assert(used == 1, "the network is reconstructed"); FILE *f = pg_open("net_reconstructed.dat"); while (fscanf(f, "%119s %119s", a, b) == 2) { i = hxp_id(a, hx_lab, 3); j = hxp_id(b, hx_lab, 3); sym_assert(i < 3 && j < 3 && R1.a[i][j], "the links printed are links"); sym_assert(!seen[i][j], "a link is printed once"); seen[i][j] = seen[j][i] = 1; c++; } sym_assert(2 * c == hx_nlinks(&R1), "every link is printed"); fclose(f); sym_reach("end"); }
#endif
#if defined(F_REC2) || defined(F_RECK)
void h_main(void) {
  int i, j, k, q, c = 0, nl = sym_bool("final newline"); char a[120], b[120], cmd[60]; double v; if (hxp_usage()) return; hxb_any(&B0, 2, 2, 0); for (i = 0; i < 2; i++) if (!B0.a[i][0] && !B0.a[i][1]) sym_stop(); for (j = 0; j < 2; j++) if (!B0.a[0][j] && !B0.a[1][j]) sym_stop();
  FILE *f = fopen("obs", "w"); for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) if (B0.a[i][j]) { B0.w[i][j] = c++ % 3; fprintf(f, "%s %s %d\n", l1x[i], l2x[j], (int)B0.w[i][j]); } fclose(f);
  QN = sym_pick(0, NQ, "queries"); f = fopen("que", "w"); for (q = 0; q < QN; q++) { hxp_QL1[q] = sym_pick(0, 2, "who"); if (hxp_QL1[q] == 2) hxp_QL1[q] = 3; QL2[q] = sym_pick(0, 2, "what"); if (QL2[q] == 2) QL2[q] = 3; fprintf(f, "%s %s%s", l1x[hxp_QL1[q]], l2x[QL2[q]], q < QN - 1 || nl ? "\n" : ""); } fclose(f);
#ifdef F_RECK
  int kk = sym_pick(1, 3, "K"); sprintf(cmd, "prog %d obs que 3", kk);
#else
  strcpy(cmd, "prog obs que 3");
#endif
  sym_assert(pg_run(cmd) == 0, "the program succeeds"); sym_assert(used == 1, "the queries are scored"); f = pg_open("stdout.txt"); sym_assert(fscanf(f, "%119s %119s", a, b) == 2 && !strcmp(a, ">>>") && !strcmp(b, "RESULTS"), "the title of the results");
  for (q = 0; q < QN; q++) { sym_assert(fscanf(f, "%119s %119s", a, b) == 2 && !strcmp(a, l1x[hxp_QL1[q]]) && !strcmp(b, l2x[QL2[q]]), "the pair of a query");
#ifdef F_RECK
    sym_assert(KQ == kk, "the given number of ratings"); for (k = 0; k < kk; k++) sym_assert(fscanf(f, "%lf", &v) == 1 && pg_near(v, sk(k, q)), "the scores of a query");
#else
    sym_assert(fscanf(f, "%lf", &v) == 1 && pg_near(v, sk(0, q)), "the score of a query");
#endif
  } sym_assert(pg_end(f), "and no more"); if (QN) sym_reach("queries"); sym_reach("end"); }
#endif
#ifdef F_CONFLICT
void h_main(void) {
  int i, j, c = 0, e = 0, n = sym_pick(1, 3, "n"), m = sym_pick(1, 3, "m"), seen[HXM][HXM] = {{0}}; char a[120], b[120]; double v; if (hxp_usage()) return; hxb_any(&B0, n, m, 0); for (i = 0; i < n; i++) { for (j = 0, c = 0; j < m; j++) c += B0.a[i][j]; if (!c) sym_stop(); } for (j = 0; j < m; j++) { for (i = 0, c = 0; i < n; i++) c += B0.a[i][j]; if (!c) sym_stop(); }
  FILE *f = fopen("obs", "w"); c = 0; for (i = 0; i < n; i++) for (j = 0; j < m; j++) if (B0.a[i][j]) { B0.w[i][j] = c++ % 2; fprintf(f, "%s %s %d\n", hx_lab[i], hx_lab[j], (int)B0.w[i][j]); } fclose(f);
  sym_assert(pg_run("prog obs 3") == 0, "the program succeeds"); sym_assert(used == 1, "the links are scored"); f = pg_open("link_scores.dat"); c = 0; while (fscanf(f, "%119s %119s %lf", a, b, &v) == 3) { i = hxp_id(a, hx_lab, n); j = hxp_id(b, hx_lab, m); sym_assert(i < n && j < m && i != j && !seen[i][j], "pairs of different labels are printed once"); seen[i][j] = 1; sym_assert(pg_near(v, sk(i, j)), "a pair is printed with its score"); c++; } for (i = 0; i < n; i++) for (j = 0; j < m; j++) e += i != j; sym_assert(c == e, "every pair is printed"); sym_assert(pg_end(f), "and no more"); sym_reach("end"); }
#endif
