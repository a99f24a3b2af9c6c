/* C24: recommendations, K-state link scores, network scores and sampled partitions. */
#include "hxb.h"
#include "hxp.h"
#include "missing.h"
#include "recommend.h"
#ifndef N1
#define N1 2
#define N2 2
#endif
#ifndef NN
#define NN 3
#endif
#ifndef KK
#define KK 2
#endif
#ifndef WW
#define WW 4
#endif
#ifndef SPAN
#define SPAN 1
#endif
#ifndef MM
#define MM 3
#endif
#define TOL 1e-6 /* the counts are divided in single precision */
double **__wrap_InitializeFastLogChoose(int size) { int i, j, k = size < 64 ? size : 64; double **t = calloc(size, sizeof(double *)); for (i = 0; i < k; i++) { t[i] = malloc(k * sizeof(double)); for (j = 0; j < k; j++) t[i][j] = -1; } return t; }
static gsl_rng *gen;
/* ---- recommendations */
static int st[HXM][HXM], clean[HXM][HXM], nq, qi[16], qj[16]; static BRef br; static struct query *qs[16];
#ifndef STEPS
#define STEPS 0
#endif
static int step = 1;
enum { TWO, KST, GIBBS };
static double post(int *g, int *h, int q, int k) { int i, j, n = 0, l = 0; for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) if (clean[i][j] && g[i] == g[qi[q]] && h[j] == h[qj[q]]) { n++; l += clean[i][j] == k + 1; } return (l + 1.0) / (n + KK); }
static int next_part(int *g, int n) { int i, m, k; for (i = n - 1; i > 0; i--) { m = 0; for (k = 0; k < i; k++) if (g[k] > m) m = g[k]; if (g[i] <= m) { g[i]++; for (k = i + 1; k < n; k++) g[k] = 0; return 1; } } return 0; }
/* is there a pair of partitions that gives all the scores of one sample? */
static int explained(double s[KK][16]) {
  int g[HXM] = {0}, h[HXM], q, k, ok; do { memset(h, 0, sizeof h); do { ok = 1; for (q = 0; q < nq && ok; q++) for (k = 0; k < KK && ok; k++) if (!(fabs(post(g, h, q, k) - s[k][q]) < TOL)) ok = 0; if (ok) return 1; } while (next_part(h, N2)); } while (next_part(g, N1)); return 0; }
static void score(int kind, struct binet *b, int it, double s[KK][16]) {
  int q, k; if (kind == TWO) { double *r = MultiLinkScore2State(b, qs, nq, it, gen, 'q', step); for (q = 0; q < nq; q++) { s[1][q] = r[q]; s[0][q] = 1 - r[q]; sym_assert(r[q] > 0 && r[q] < 1, "scores are strictly between 0 and 1"); } free_d_vec(r); return; }
  double **r = kind == KST ? MultiLinkScoreKState(KK, b, qs, nq, it, gen, 'q', step) : GibbsMultiLinkScoreKState(KK, b, qs, nq, it, gen, 'q');
  for (q = 0; q < nq; q++) { double t = 0; for (k = 0; k < KK; k++) { s[k][q] = r[k][q]; t += r[k][q]; sym_assert(r[k][q] > 0 && r[k][q] < 1, "scores are strictly between 0 and 1"); } sym_assert(fabs(t - 1) < TOL, "the scores of a pair add up to one"); } free_d_mat(r, KK); }
static void queries_kept(struct binet *b) { int q; for (q = 0; q < nq; q++) sym_assert(qs[q]->n1 == hxb_1[qi[q]] && qs[q]->n2 == hxb_2[qj[q]], "queries point to the nodes of the caller's network"); hxb_same(b, &br, hxb_l1, hxb_l2, 1); }
static void recommend(int kind) {
  int i, j, k, q, n1, obs = 0; double s1[KK][16], s2[KK][16]; hxb_clear(&br, N1, N2); for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) { st[i][j] = sym_pick(0, KK, "state"); if (st[i][j]) { br.a[i][j] = 1; br.w[i][j] = st[i][j] - 1; } }
  for (i = 0; i + 1 < N1; i++) for (j = 0; j < N2 && st[i][j] <= st[i + 1][j]; j++) if (st[i][j] < st[i + 1][j]) sym_stop();
  for (j = 0; j + 1 < N2; j++) if (st[0][j] < st[0][j + 1]) sym_stop();
  memcpy(clean, st, sizeof st); nq = 0; for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) if (sym_bool("asked")) { qi[nq] = i; qj[nq++] = j; obs |= st[i][j]; clean[i][j] = 0; } if (!nq) sym_stop();
  if (STEPS && kind != GIBBS) step = sym_pick(0, 1, "step");
  int b0 = sym_live_blocks(); struct binet *b = hxb_build(&br, 0); for (q = 0; q < nq; q++) qs[q] = CreateQuery(hxb_1[qi[q]], hxb_2[qj[q]]); gen = gsl_rng_alloc(gsl_rng_mt19937);
  sym_draw_window(1 << 30, 0, 1); score(kind, b, 1, s1); n1 = sym_draw_count(); queries_kept(b); sym_assert(explained(s1), "the scores of one sample are the posterior probabilities of the states for the groups of a partition, the queries' own ratings left out");
  int at = sym_pick(0, SPAN - 1, "window") * WW; sym_draw_window(n1 + at, n1 + at + WW, 1); score(kind, b, 2, s2); if (sym_draw_count() <= n1 + at) sym_stop(); queries_kept(b);
  for (q = 0; q < nq; q++) for (k = 0; k < KK; k++) { s2[k][q] = 2 * s2[k][q] - s1[k][q]; if (fabs(s2[k][q] - s1[k][q]) > TOL) sym_reach("changed"); } sym_assert(explained(s2), "scores are averages over the partitions sampled");
  if (obs) sym_reach("observed"); for (q = 0; q < nq; q++) FreeQuery(qs[q]); RemoveBipart(b); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
void h_two(void) { recommend(TWO); } void h_k(void) { recommend(KST); } void h_gibbs(void) { recommend(GIBBS); }
/* unobserved pairs, removal of ratings */
void h_unobserved(void) {
  int i, j, n = 0, v; hxb_clear(&br, 3, 2); for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) { int k = sym_pick(0, MM, "state"); if (k) { br.a[i][j] = 1; br.w[i][j] = k - 1; } else n++; }
  int b0 = sym_live_blocks(), seen[3][2] = {{0}}; struct binet *b = hxb_build(&br, 0); sym_assert(CountUnobserved(b) == n, "number of unobserved pairs"); struct query **u = BuildUnobservedSet(b);
  for (i = 0; i < n; i++) { int x, y; for (x = 0; x < 3 && u[i]->n1 != hxb_1[x]; x++) ; for (y = 0; y < 2 && u[i]->n2 != hxb_2[y]; y++) ; sym_assert(x < 3 && y < 2, "an unobserved pair is a node of each set"); sym_assert(!br.a[x][y] && !seen[x][y], "every unobserved pair is listed once"); seen[x][y] = 1; FreeQuery(u[i]); } free(u);
  v = sym_pick(0, MM, "removed"); RemoveRatings(b, v); for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) if (br.a[i][j] && br.w[i][j] == v) { br.a[i][j] = 0; br.w[i][j] = 0; sym_reach("removed"); }
  hxb_same(b, &br, hxb_l1, hxb_l2, 1); RemoveBipart(b); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- K-state link scores of a network */
static Ref r; static struct node_gra *net; static int p1[NN], p2[NN];
static void sampled(int *g) { int i; for (i = 0; i < NN; i++) g[i] = sym_conc(hx_nd[i]->inGroup); }
static double kpost(int *g, int x, int y, int k) { int i, j, n = 0, l = 0; for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) if (st[i][j] && ((g[i] == g[x] && g[j] == g[y]) || (g[i] == g[y] && g[j] == g[x]))) { n++; l += st[i][j] == k + 1; } return (l + 1.0) / (n + KK); }
static void kscores(int it, int step, int two) {
  struct query **q = NULL; int n = 0, i, k, x, y, seen[NN][NN] = {{0}}; double **s = LSMultiLinkScoreKState(KK, net, it, gen, 'q', step, &q, &n);
  sampled(two ? p2 : p1); sym_assert(n == NN * (NN - 1) / 2, "every pair of nodes gets a score");
  for (i = 0; i < n; i++) { for (x = 0; x < NN && q[i]->n1 != hx_nd[x]; x++) ; for (y = 0; y < NN && q[i]->n2 != hx_nd[y]; y++) ; sym_assert(x < NN && y < NN && x != y && !seen[x][y], "every pair of nodes gets one score"); seen[x][y] = seen[y][x] = 1; double t = 0;
    for (k = 0; k < KK; k++) { double e = two ? (kpost(p1, x, y, k) + kpost(p2, x, y, k)) / 2 : kpost(p1, x, y, k); sym_assert(fabs(s[k][i] - e) < TOL, "the score is the average over the sampled partitions of the posterior probability of a state"); sym_assert(s[k][i] > 0 && s[k][i] < 1, "scores are strictly between 0 and 1"); t += s[k][i]; }
    sym_assert(fabs(t - 1) < TOL, "the scores of a pair add up to one"); FreeQuery(q[i]); } free(q); free_d_mat(s, KK); }
void h_kls(void) {
  int i, j, n1, step = sym_pick(0, 1, "step"); hx_clear(&r, NN); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) { st[i][j] = st[j][i] = sym_pick(0, KK, "state"); if (st[i][j]) { r.a[i][j] = r.a[j][i] = 1; r.w[i][j] = r.w[j][i] = st[i][j] - 1; } }
  int b0 = sym_live_blocks(); net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(1 << 30, 0, 1); kscores(1, step, 0); n1 = sym_draw_count(); sym_draw_window(n1, n1 + WW, 1); kscores(2, step, 1);
  for (i = 0; i < NN; i++) if (p1[i] != p2[i]) sym_reach("changed"); hx_same(net, &r, hx_lab, 1); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- reliability of a network, sampled partitions */
static Ref r2; static double lch(int n, int k) { double x = 0; int i; for (i = 1; i <= k; i++) x += log((double)(n - k + i) / i); return x; }
static double h(int *g, Ref *t) {
  int i, j, a, b, any; double s = 0; for (a = 0; a < NN; a++) for (b = a; b < NN; b++) { int n = 0, lo = 0, lt = 0; any = 0; for (i = 0; i < NN; i++) { any |= (g[i] == a) | (g[i] == b) << 1; for (j = i + 1; j < NN; j++) if ((g[i] == a && g[j] == b) || (g[i] == b && g[j] == a)) { n++; lo += r.a[i][j]; lt += t->a[i][j]; } } if (any == 3) s += log(n + 1.0) + lch(n, lo) - log(2 * n + 1.0) - lch(2 * n, lo + lt); } return s; }
void h_netscore(void) {
  int n1, i; struct node_gra *obs, *tar, *nd[NN]; double s, e, T1, O1, T2, O2; hx_any_undirected(&r, NN, 0, 0); hx_any_undirected(&r2, NN, 0, 0); for (i = 0; i + 1 < NN; i++) if (hx_deg(&r, i) < hx_deg(&r, i + 1)) sym_stop();
  int b0 = sym_live_blocks(); tar = hx_build(&r2, 0); obs = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(1 << 30, 0, 1); s = NetworkScore(tar, obs, 0, 1, gen, 'q'); n1 = sym_draw_count(); sampled(p1);
  T1 = h(p1, &r2); O1 = h(p1, &r); sym_assert_eq(s, exp(T1 - O1), "the score of a network is the ratio of its reliability to that of the observed one");
  sym_draw_window(n1, n1 + WW, 1); s = NetworkScore(tar, obs, 0, 2, gen, 'q'); sampled(p2); T2 = h(p2, &r2); O2 = h(p2, &r); sym_assert_eq(s, (exp(T1 - O1) + exp(T2 - O1)) / (1 + exp(O2 - O1)), "the score of a network is the ratio of its reliability to that of the observed one, both averaged over the partitions sampled");
  for (i = 0; i < NN; i++) if (p1[i] != p2[i]) sym_reach("changed"); hx_same(obs, &r, hx_lab, 1); hx_same(tar, &r2, hx_lab, 1); RemoveGraph(obs); RemoveGraph(tar); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
static void is_part(struct group *p, int *g) { int i, k, v; for (i = 0; i < NN; i++) { struct group *q = p; int c = 0; while ((q = q->next) != NULL) { struct node_lis *l = q->nodeList; while ((l = l->next) != NULL) if (!strcmp(l->nodeLabel, hx_lab[i])) { c++; v = q->label; } } sym_assert(c == 1, "every node is in one group of each partition"); sym_assert(v == g[i], "the partitions returned are those sampled, in order"); } 
  struct group *q = p; while ((q = q->next) != NULL) hx_group_nodes(q, g, NN, q->label, hx_nd, hx_lab, 0); }
void h_sampling(void) {
  int n1, i; struct group **l; hx_any_undirected(&r, NN, 0, 0); for (i = 0; i + 1 < NN; i++) if (hx_deg(&r, i) < hx_deg(&r, i + 1)) sym_stop(); int burn = sym_pick(0, 1, "burn");
  int b0 = sym_live_blocks(); net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(1 << 30, 0, 1); l = PartitionSampling(net, 0, 1, gen, 'q', burn, 1.0); n1 = sym_draw_count(); sampled(p1); is_part(l[0], p1); RemovePartition(l[0]); free(l);
  sym_draw_window(n1, n1 + WW, 1); l = PartitionSampling(net, 0, 2, gen, 'q', burn, 1.0); sampled(p2); is_part(l[0], p1); is_part(l[1], p2); RemovePartition(l[0]); RemovePartition(l[1]); free(l);
  for (i = 0; i < NN; i++) if (p1[i] != p2[i]) sym_reach("changed"); hx_same(net, &r, hx_lab, 1); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- the decorrelation time: the equations handed to the root finder and what is made of its answer */
extern double model_root[2], model_root_start[2], model_root_f[2]; extern int model_root_iters, model_root_fail;
void h_decay(void) {
  static const double as[3] = {0, 0.25, 0.9}, bs[3] = {0.5, 2, 7}, ys[3] = {0.2, 0.6, 1}; int b0 = sym_live_blocks(), n = sym_pick(1, 3, "n") * 10, x1 = sym_pick(0, 2, "x1"), x2 = x1 + sym_pick(1, 3, "x2"); double a = as[sym_pick(0, 2, "a")], b = bs[sym_pick(0, 2, "b")], y1 = ys[sym_pick(0, 2, "y1")], y2 = ys[sym_pick(0, 2, "y2")], d;
  model_root[0] = a; model_root[1] = b; model_root_iters = sym_pick(1, 3, "iters"); model_root_fail = sym_bool("fail"); d = CalculateDecay(n, x1, y1, x2, y2);
  if (model_root_fail) sym_assert(d == -1, "no decay time when the equations are not solved"); else { sym_assert_eq(d, b, "the decay time is the solution's"); sym_reach("solved");
    double e1 = y1 - a - (1 - a) * exp(-x1 / b), e2 = y2 - a - (1 - a) * exp(-x2 / b), f0 = model_root_f[0], f1 = model_root_f[1]; sym_assert((fabs(f0 - e1) < 1e-9 && fabs(f1 - e2) < 1e-9) || (fabs(f0 - e2) < 1e-9 && fabs(f1 - e1) < 1e-9), "the equations are those of an exponential decay through the two points"); }
  sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- errors of the block model and the network of the likely links */
void h_sbm(void) {
  int i, full = sym_bool("full"), n = sym_pick(2, NN, "nodes"); double e; hx_clear(&r, n); if (full) { int j; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) { r.a[i][j] = 1; r.w[i][j] = 1; } }
  int b0 = sym_live_blocks(); struct node_gra *m; net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(0, 2, 1);
  e = SBMError(net, gen); sym_assert_le(e, 1.0 / 3 + TOL, "error of a network without or with all links"); sym_assert_le((n == 2 ? 1.0 / 3 : 1.0 / 5) - TOL, e, "error of a network without or with all links");
  sym_draw_window(0, 0, 2); m = NetFromSBMScores(net, gen); hx_same(m, &r, hx_lab, 0); hx_same(net, &r, hx_lab, 1);
  RemoveGraph(m); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
void h_reconstruct(void) {
  int i, j, l = 0; struct node_gra *m, *p; Ref q; hx_any_undirected(&r, NN, 0, 0); for (i = 0; i + 1 < NN; i++) if (hx_deg(&r, i) < hx_deg(&r, i + 1)) sym_stop();
  int b0 = sym_live_blocks(); net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(0, 2, 1); m = NetReconstruct(net, gen); hx_same(net, &r, hx_lab, 1);
  hx_clear(&q, NN); for (i = 0; i < NN; i++) for (j = i + 1; j < NN; j++) { struct node_gra *a = hx_find(m, hx_lab[i]), *b = hx_find(m, hx_lab[j]); sym_assert(a && b, "a reconstructed network has the nodes of the observed one"); if (IsThereLink(a, b)) { q.a[i][j] = q.a[j][i] = 1; l++; } }
  hx_same(m, &q, hx_lab, 0); sym_assert(2 * l == hx_nlinks(&r), "a reconstructed network has as many links as the observed one");
  RemoveGraph(m); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- every pair of a two-state network */
#include "conflict.h"
static void all(struct binet *b, int it, double sc[KK][16]) {
  struct query **a = AllLinkScore2State(b, it, gen, 'q', step); int i, j; nq = 0;
  for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) { sym_assert(a[nq]->n1 == hxb_1[i] && a[nq]->n2 == hxb_2[j], "every pair of nodes gets one score"); qi[nq] = i; qj[nq] = j; sc[1][nq] = a[nq]->score; sc[0][nq] = 1 - a[nq]->score; sym_assert(a[nq]->score > 0 && a[nq]->score < 1, "scores are strictly between 0 and 1"); FreeQuery(a[nq]); nq++; } free(a); hxb_same(b, &br, hxb_l1, hxb_l2, 1); }
void h_all(void) {
  int i, j, q, n1; double s1[KK][16], s2[KK][16]; hxb_clear(&br, N1, N2); for (i = 0; i < N1; i++) for (j = 0; j < N2; j++) { st[i][j] = sym_pick(0, KK, "state"); if (st[i][j]) { br.a[i][j] = 1; br.w[i][j] = st[i][j] - 1; } }
  for (i = 0; i + 1 < N1; i++) for (j = 0; j < N2 && st[i][j] <= st[i + 1][j]; j++) if (st[i][j] < st[i + 1][j]) sym_stop();
  for (j = 0; j + 1 < N2; j++) if (st[0][j] < st[0][j + 1]) sym_stop();
  memcpy(clean, st, sizeof st); step = sym_pick(0, 1, "step"); int b0 = sym_live_blocks(); struct binet *b = hxb_build(&br, 0); gen = gsl_rng_alloc(gsl_rng_mt19937);
  sym_draw_window(1 << 30, 0, 1); all(b, 1, s1); n1 = sym_draw_count(); sym_assert(explained(s1), "the scores of one sample are the posterior probabilities of the states for the groups of a partition");
  int at = sym_pick(0, SPAN - 1, "window") * WW; sym_draw_window(n1 + at, n1 + at + WW, 1); all(b, 2, s2); if (sym_draw_count() <= n1 + at) sym_stop();
  for (q = 0; q < nq; q++) for (i = 0; i < KK; i++) { s2[i][q] = 2 * s2[i][q] - s1[i][q]; if (fabs(s2[i][q] - s1[i][q]) > TOL) sym_reach("changed"); } sym_assert(explained(s2), "scores are averages over the partitions sampled");
  RemoveBipart(b); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
/* ---- how much worse randomised networks are described */
void h_structure(void) {
  int i, n = 3, k = sym_pick(2, 3, "repeats"), sd = 1; double o, a[3], m = 0, s = 0, v; hx_clear(&r, n); if (sym_bool("link")) { r.a[0][1] = r.a[1][0] = 1; r.w[0][1] = r.w[1][0] = 1; } int b0 = sym_live_blocks(); net = hx_build(&r, 0); gen = gsl_rng_alloc(gsl_rng_mt19937); sym_draw_window(1 << 30, 0, sd); v = SBMStructureScore(net, k, gen); hx_same(net, &r, hx_lab, 1);
  sym_draw_window(1 << 30, 0, sd); o = SBMError(net, gen); struct node_gra *c = CopyNetwork(net); for (i = 0; i < k; i++) { RandomizeSymmetricNetwork(c, 100, gen); a[i] = SBMError(c, gen); m += a[i] / k; } for (i = 0; i < k; i++) s += (a[i] - m) * (a[i] - m) / k; s = sqrt(s); RemoveGraph(c);
  sym_assert(s > 1e-9 && fabs(v - (m - o) / s) < 1e-6 * (1 + fabs(v)), "the score compares the error with those of randomised networks, in standard deviations"); RemoveGraph(net); gsl_rng_free(gen); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end"); }
