/* C35: results do not depend on what was called before. */
#include "hxb.h"
#include "hxq.h"
#include "matrix.h"
#include "models.h"
#include "missing.h"
#include "multiblock.h"
#undef RGRAPH_MULTIBLOCK_H
#include "only_deg.h"
#include "sparse_missing.h"
#include "recommend.h"
#include "conflict.h"
#include "layout.h"
#include "movements.h"
#include <gsl/gsl_vector.h>
#ifndef NN
#define NN 3
#endif
#define CAP 1200
double **__wrap_InitializeFastLogChoose(int size) { int i, j, k = size < 64 ? size : 64; double **t = calloc(size, sizeof(double *)); for (i = 0; i < k; i++) { t[i] = malloc(k * sizeof(double)); for (j = 0; j < k; j++) t[i][j] = -1; } return t; }
/* what a call gave: numbers, and the bytes of the files written */
typedef struct { int op, n; Ref r; double v[CAP]; } Res;
static Res *R; static Ref *r; static struct node_gra *net; static int fresh_net = 1;
static void put(double x) { if (R->n < CAP) R->v[R->n++] = x; }
static FILE *text(const char *mode) { return fopen("again", mode); }
static void puttext(void) { FILE *f = text("r"); int c; while ((c = getc(f)) != EOF) put(c); fclose(f); }
static void putnet(struct node_gra *p) { for (p = p->next; p; p = p->next) { char *s = p->label; struct node_lis *l; while (*s) put(*s++); put(p->num); put(NodeDegree(p)); put(NodeStrength(p)); for (l = p->neig->next; l; l = l->next) { put(l->node); put(l->weight); } } put(-1); }
static void putpart(struct group *p) { for (p = p->next; p; p = p->next) { struct node_lis *l; put(p->label); put(p->size); put(p->inlinks); put(p->totlinks); put(p->inlinksW); for (l = p->nodeList->next; l; l = l->next) { char *s = l->nodeLabel; while (*s) put(*s++); } } put(-1); }
static int deg(int i) { return hx_deg(r, i); }
static int maxdeg(void) { int i, m = 0; for (i = 0; i < r->n; i++) if (deg(i) > m) m = deg(i); return m; }
static struct binet *bip(void) { struct binet *b; FILE *f = text("w"); int i, j; for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (i == j || (i < j && r->a[i][j])) fprintf(f, "p%d t%d %g\n", i, j, 1 + .5 * r->w[i][j]); fclose(f); f = text("r"); b = FBuildNetworkBipart(f, 1, 0); fclose(f); return b; }
static struct binet *ratings(void) { struct binet *b; FILE *f = text("w"); int i, j; for (i = 0; i < 2; i++) for (j = 0; j < r->n; j++) fprintf(f, "p%d t%d %d\n", i, j, r->a[i][j] || i == j); fclose(f); f = text("r"); b = ReadRecommenderObservations(f); fclose(f); return b; }
static struct group *parted(void) { struct group *p = CreateHeaderGroup(), *g[3]; int i; for (i = 0; i < 3; i++) g[i] = CreateGroup(p, i); ResetNetGroup(net); for (i = 0; i < r->n; i++) AddNodeToGroup(g[i % 3 ? 1 : 0], hx_nd[i]); return p; }
static void edges(QEdges *q) { int i, j; q->n = r->n; q->e = 0; for (i = 0; i < r->n; i++) for (j = i; j < r->n; j++) if (r->a[i][j]) { q->a[q->e] = i; q->b[q->e] = j; q->w[q->e++] = r->w[i][j]; } }
static void putarr(Partition *p) { unsigned i; for (i = 0; i < p->N; i++) { put(p->nodes[i]->module); put(p->nodes[i]->strength); } for (i = 0; i < p->M; i++) { put(p->modules[i]->size); put(p->modules[i]->strength); } put(p->nempty); }
/* ---- measures of a network, which leave it as it was */
#define NMEAS 34
static void measure(int k) {
  int i, j, n = r->n; struct node_gra *q; struct group *p; struct node_lis *l; double a, b, c, d; FILE *f;
  switch (k) {
  case 0: put(CountNodes(net)); put(AverageDegree(net, 0)); put(AverageDegree(net, 1)); put(AverageSquaredDegree(net)); put(TotalNLinks(net, 0)); put(TotalNLinks(net, 1)); break;
  case 1: for (i = 0; i < n; i++) { put(NodeDegree(hx_nd[i])); put(NodeStrength(hx_nd[i])); if (deg(i)) put(CalculateKnn(hx_nd[i])); } break;
  case 2: f = text("w"); FPrintDistanceHistogram(f, net); FPrintDistanceHistogramFromNode(f, net, 0); fclose(f); puttext(); break;
  case 3: put(AveragePathLength(net)); break;
  case 4: put(AverageInverseDistance(net)); break;
  case 5: if (maxdeg() > 1) { put(ClusteringCoefficient(net)); put(ClusteringCoefficient2(net)); } for (i = 0; i < n; i++) put(OneNodeClusteringCoefficient(hx_nd[i], net)); break;
  case 6: for (i = 0; i < n; i++) put(OneNodeSquareClustering(hx_nd[i], net)); break;
  case 7: CalculateLinkBetweenness(net); for (i = 0; i < n; i++) for (l = hx_nd[i]->neig->next; l; l = l->next) put(l->btw); break;
  case 8: CalculateNodeBetweenness(net); for (i = 0; i < n; i++) put(hx_nd[i]->dvar1); break;
  case 9: NodeBetweennessStatistics(net, &a, &b, &c, &d); put(a); put(b); put(c); put(d); break;
  case 10: if (maxdeg()) { CalculateBiggestLinkBetweenness(net, &i, &j); put(i); put(j); } break;
  case 11: if (maxdeg()) { d = 0; for (i = 0; i < n; i++) if (deg(i) && deg(i) != maxdeg()) d = 1; if (d) put(Assortativity(net)); } break;
  case 12: put(IsGraphConnected(net)); put(CountStronglyConnectedSets(net)); break;
  case 13: q = GetLargestWeaklyConnectedSet(net, n); putnet(q); RemoveGraph(q); break;
  case 14: q = GetLargestStronglyConnectedSet(net, n); putnet(q); RemoveGraph(q); break;
  case 15: { struct node_gra *s[HXM]; j = GetAllConnectedSets(net, s); put(j); for (i = 0; i < j; i++) { putnet(s[i]); RemoveGraph(s[i]); } } break;
  case 16: for (i = 0; i < n; i++) for (j = 0; j < i; j++) { put(CommonNeighbors(hx_nd[i], hx_nd[j])); put(JaccardIndex(hx_nd[i], hx_nd[j])); if (deg(i) && deg(j)) put(TopologicalOverlap(hx_nd[i], hx_nd[j])); put(IsThereLink(hx_nd[i], hx_nd[j])); } break;
  case 17: q = CopyNetwork(net); putnet(q); { struct node_gra *s = AddTwoNetworks(net, q); putnet(s); RemoveGraph(s); } RemoveGraph(q); break;
  case 18: p = ClustersPartition(net); putpart(p); RemovePartition(p); break;
  case 19: p = CreateEquiNPartition(net, 2); putpart(p); RemovePartition(p); break;
  case 20: p = parted(); if (maxdeg()) { put(Modularity(p)); put(ModularityWeight(p)); } put(NG2GLinks(p->next, p->next->next)); put(NNonEmptyGroups(p)); { struct group *c2 = CompressPart(CopyPartition(p)); putpart(c2); RemovePartition(c2); } RemovePartition(p); break;
  case 21: p = parted(); { struct group *s = CatalogRoleIdent(net, CompressPart(p)); putpart(s); RemovePartition(s); for (i = 0; i < n; i++) { put(ParticipationCoefficient(hx_nd[i])); put(WithinModuleRelativeDegree(hx_nd[i], GetGroup(p, hx_nd[i]->inGroup))); put(WeightedParticipationCoefficient(hx_nd[i], p)); put(WithinModuleRelativeStrength(hx_nd[i], GetGroup(p, hx_nd[i]->inGroup))); } } RemovePartition(p); break;
  case 22: p = CompressPart(parted()); { struct group *s = CopyPartition(p), *t = ClustersPartition(net); if (n > 1) { put(MutualInformation(p, s, 0)); put(MutualInformation(p, s, 1)); put(CorrectlyClassified(p, s)); put(PartitionSize(t)); put(MutualInformation(p, t, 1)); put(MutualInformation(t, p, 0)); } RemovePartition(t); RemovePartition(s); } RemovePartition(p); break;
  case 23: p = parted(); f = text("w"); FPrintPartition(f, p, 0); FPrintPartition(f, p, 1); fclose(f); puttext(); RemovePartition(p); break;
  case 24: f = text("w"); FPrintNetAdjacencyList(f, net, 1, 1); FPrintNetAdjacencyList(f, net, 0, 0); FPrintDegrees(f, net); fclose(f); puttext(); break;
  case 25: FPrintPajekFile("again", net, 0, 1, 1); puttext(); FPrintPajekPartitionFile("again", net); break;
  case 26: { int **m = AdjacencyMat(net), **s = LaplacianMat(net); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { put(m[i][j]); put(s[i][j]); } free_i_mat(m, n); free_i_mat(s, n); } break;
  case 27: { void *dict = MakeLabelDict(net); for (i = 0; i < n; i++) put(GetNodeDict((char *)hx_lab[i], dict) == hx_nd[i]); FreeLabelDict(dict); for (i = 0; i < n; i++) { put(GetNode(i, net) == hx_nd[i]); put(IsThereNode((char *)hx_lab[i], net)); } } break;
  case 28: { Ref *o = r; struct node_gra *q2; Ref x; hx_clear(&x, 2); x.a[0][1] = x.a[1][0] = 1; x.w[0][1] = x.w[1][0] = 1; struct node_gra *sv[HXM]; memcpy(sv, hx_nd, sizeof sv); q2 = hx_build(&x, 0); memcpy(hx_nd, sv, sizeof sv); int nA, nB, nc, lA, lB, lc; double e, g, h, m; if (o->a[0][1]) { CompareTwoNetworks(net, q2, &nA, &nB, &nc, &e, &g, &lA, &lB, &lc, &h, &m); put(nA); put(nB); put(nc); put(e); put(g); put(lA); put(lB); put(lc); put(h); put(m); } RemoveGraph(q2); } break;
  case 29: p = parted(); q = BuildNetFromGroup(p->next); putnet(q); RemoveGraph(q); GroupSizeStatistics(p, &a, &b, &c, &d); put(a); put(b); put(c); put(d); RemovePartition(p); break;
  case 30: p = CreatePartitionFromInGroup(net); i = 0; for (struct group *g = p; (g = g->next); ) i += g->size; put(i); RemovePartition(p); break;
  case 31: p = parted(); { double h = PartitionH(p, 0.5); put(h); h = LSHKState(2, p); put(h); } RemovePartition(p); break;
  case 32: if (n > 1) { put(SquareClustering(net)); } break;
  case 33: p = parted(); for (i = 0; i < n; i++) { put(NLinksToGroup(hx_nd[i], p->next)); put(StrengthToGroup(hx_nd[i], p->next)); put(NLinksToGroupByNum(hx_nd[i], 0)); put(StrengthToGroupByNum(hx_nd[i], 1)); put(NWeightLinksToGroup(hx_nd[i], p->next, 1)); } put(NG2GLinksWeight(p->next, p->next->next)); RemovePartition(p); break;
  } }
/* ---- readers, edits, searches of partitions in arrays, bipartite networks, numbers */
#define NOTHER 25
static void other(int k) {
  int i, j, n = r->n; struct binet *b; struct node_gra *q; struct group *p; FILE *f; gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937);
  switch (k) {
  case 0: f = text("w"); FPrintNetAdjacencyList(f, net, 1, 1); fclose(f); f = text("r"); q = FBuildNetwork(f, 1, 0, 0, 1); fclose(f); putnet(q); RemoveGraph(q); break;
  case 1: f = text("w"); FPrintNetAdjacencyList(f, net, 0, 0); fclose(f); f = text("r"); q = FBuildNetwork(f, 0, 1, 1, 0); fclose(f); putnet(q); RemoveGraph(q); break;
  case 2: b = bip(); putnet(b->net1); putnet(b->net2); put(NLinksBipart(b)); q = ProjectBipart(b); putnet(q); RemoveGraph(q); q = ProjectBipartWeighted(b); putnet(q); RemoveGraph(q); RemoveBipart(b); break;
  case 3: b = InvertBipart(bip()); { struct binet *c = CopyBipart(b); putnet(c->net1); putnet(c->net2); RemoveBipart(c); } f = text("w"); FPrintBipart(f, b, 1); fclose(f); puttext(); RemoveBipart(b); break;
  case 4: b = bip(); p = CreateHeaderGroup(); { struct group *x = CreateGroup(p, 0); struct node_gra *m = b->net1; while ((m = m->next)) AddNodeToGroup(x, m); } if (n > 1) put(ModularityBipartWeighted(b, p)); RemovePartition(p); RemoveBipart(b); break;
  case 5: p = parted(); f = text("w"); FPrintPartition(f, p, 1); fclose(f); RemovePartition(p); f = text("r"); p = FCreatePartition(f); fclose(f); putpart(p); MapPartToNet(p, net); putpart(p); RemovePartition(p); break;
  case 6: case 7: if (maxdeg()) { unsigned *a, *c, E, N, m; double *w; char **lab; f = text("w"); FPrintNetAdjacencyList(f, net, 1, 1); fclose(f); f = text("r"); put(EdgeListFileInput(f, 1, 0, &a, &c, &w, &lab, &E, &N)); fclose(f); Partition *x = CreatePartition(N, N); AdjaArray *adj = CreateAdjaArray(N, E); EdgeListToAdjaArray((int *)a, (int *)c, w, adj, x, 1); for (m = 0; m < E; m++) { put(a[m]); put(c[m]); put(w[m]); }
      AssignNodesToModules(x, k == 6 ? NULL : g); put(PartitionModularity(x, adj, 1)); if (k == 7) { GeneralSA(&x, adj, .2, .5, .2, .6, 0, 2, g); } CompressPartition(x); putarr(x); double C[HXM], P[HXM]; PartitionRolesMetrics(x, adj, C, P); f = text("w"); TabularOutput(f, lab, x, C, P); ClusteringOutput(f, x, lab); fclose(f); puttext();
      f = text("w"); ClusteringOutput(f, x, lab); fclose(f); Partition *y = CreatePartition(N, N); for (m = 0; m < N; m++) y->nodes[m]->strength = 1; f = text("r"); put(AssignNodesToModulesFromFile(f, y, lab)); fclose(f); putarr(y); FreePartition(y); FreePartition(x); FreeAdjaArray(adj); free(a); free(c); free(w); for (m = 0; m < N; m++) free(lab[m]); free(lab); } break;
  case 8: { QEdges e; edges(&e); Partition *x; AdjaArray *adj; if (e.e > 1) { unsigned pr = 0; for (i = 0; i < e.e; i++) for (j = 0; j < i; j++) pr |= e.b[i] == e.b[j]; for (i = 0, j = 0; i < e.e; i++) if ((int)e.a[i] > j) j = e.a[i]; if (pr) { ProjectBipartEdgeList(e.a, e.b, e.w, e.e, &x, &adj); AssignNodesToModules(x, NULL); put(x->N); for (i = 0; i < (int)adj->idx[x->N]; i++) { put(adj->neighbors[i]); put(adj->strength[i]); } putarr(x); FreePartition(x); FreeAdjaArray(adj); } } } break;
  case 9: q = CopyNetwork(net); if (maxdeg()) { struct node_gra *a = q->next, *c; while (!a->neig->next) a = a->next; c = a->neig->next->ref; RemoveLink(a, c, 1); } putnet(q); RemoveIsolatedNodes(q); putnet(q); RemoveGraph(q); break;
  case 10: put(fact(n + 2)); put(Choose(n + 4, 2)); put(LogChoose(n + 4, n)); { double *h = InitializeHarmonicList(n + 2), *t = InitializeFastLog(n + 2), *u = InitializeFastLogFact(n + 2); put(h[n + 1]); for (i = 1; i < n + 4; i++) { put(FastLog(i, t, n + 2)); put(FastLogFact(i, u, n + 2)); } double **c = InitializeFastLogChoose(6); for (i = 0; i < 9; i++) put(FastLogChoose(i, i / 2, c, 6)); FreeFastLogChoose(c, 6); FreeFastLog(t); FreeFastLogFact(u); FreeHarmonicList(h); } { double v[HXM]; for (i = 0; i < n; i++) v[i] = deg(i); put(mean(v, n)); put(stddev(v, n)); put(max(v, n)); put(min(v, n)); } break;
  case 11: f = text("w"); for (i = 0; i < n; i++) fprintf(f, "x\n"); fclose(f); put(CountLinesInFile("again")); for (i = 0; i < 3; i++) put(geometric_dist_val(.5, g)); break;
  case 12: q = CopyNetwork(net); if (TotalNLinks(q, 1) > 1) RandomizeSymmetricNetwork(q, 1, g); putnet(q); RemoveGraph(q); break;
  case 13: q = CopyNetwork(net); i = n * (n - 1) / 2 - TotalNLinks(q, 1); if (i) AddRandomLinks(q, 1, 1, g); if (TotalNLinks(q, 1)) RemoveRandomLinks(q, 1, 1, g); putnet(q); RemoveGraph(q); break;
  case 14: q = EmptyGraph(n); putnet(q); RemoveGraph(q); q = ERGraph(n, .5, g); putnet(q); RemoveGraph(q); q = PAGraph(n + 1, 1, g); putnet(q); RemoveGraph(q); q = GirvanNewmanGraph(2, n, 1, .5, 'q', g); putnet(q); RemoveGraph(q); break;
  case 15: b = BuildModularBipartiteNetwork(NULL, n, 2, NULL, 2, 2, 2, .5, .7, g); putnet(b->net1); putnet(b->net2); RemoveBipart(b); b = bip(); RandomizeBipart(b, 1, g); putnet(b->net1); RemoveBipart(b); break;
  case 16: if (n > 1 && maxdeg()) { p = SACommunityIdent(net, .5, .2, .6, .1, 0, 'o', 1, 'n', g); putpart(p); RemovePartition(p); } break;
  case 17: b = ratings(); put(CountUnobserved(b)); { struct query *s[2]; double *x; s[0] = CreateQuery(b->net1->next, b->net2->next); s[1] = CreateQuery(b->net1->next->next, b->net2->next); x = MultiLinkScore2State(b, s, 2, 2, g, 'q', 1); put(x[0]); put(x[1]); free_d_vec(x); double **y = MultiLinkScoreKState(2, b, s, 2, 2, g, 'q', 1); for (i = 0; i < 2; i++) { put(y[i][0]); put(y[i][1]); } free_d_mat(y, 2); y = GibbsMultiLinkScoreKState(2, b, s, 2, 2, g, 'q'); for (i = 0; i < 2; i++) { put(y[i][0]); put(y[i][1]); } free_d_mat(y, 2); FreeQuery(s[0]); FreeQuery(s[1]); } RemoveBipart(b); break;
  case 18: MDGraphLayout(net, .1, .1, 3, g, 2); f = text("w"); PrintNodeCoordinates(f, net); fclose(f); puttext(); break;
  case 19: for (i = 0; i < n; i++) { hx_nd[i]->coorX = i * .3; hx_nd[i]->coorY = (i * 7 % 5) * .2; hx_nd[i]->coorZ = i; } ArrangeComponents(net, g); for (i = 0; i < n; i++) { put(hx_nd[i]->coorX); put(hx_nd[i]->coorY); } break;
  case 20: MDGraphLayout3D(net, .1, .1, 3, g, 2); f = text("w"); PrintNodeCoordinates(f, net); fclose(f); puttext(); break;
  case 21: MDGraphLayout2Dp(net, .1, .1, 3, g, 2); f = text("w"); PrintNodeCoordinates(f, net); fclose(f); puttext(); break;
  case 22: { double *t = InitializeFastLogGamma(n + 2, .5); for (i = 0; i < n + 4; i++) put(FastLogGamma(i, t, n + 2, .5)); FreeFastLogGamma(t); Stack *s = CreateStack(n); for (i = 0; i < n; i++) AddToStack(i * i, s); while (s->top >= 0) put(PopFromStack(s)); FreeStack(s); } break;
  case 23: { int gs[2] = {2, 0}; double q0[2] = {.9, .2}, q1[2] = {.2, .6}, *qq[2] = {q0, q1}; gs[1] = n; q = UndirectedBlockGraph(2, gs, qq, 'q', g); putnet(q); RemoveGraph(q); p = parted(); RemoveWithinGroupLinks(p->next->next, 1); putnet(net); RemoveBetweenGroupLinks(p, 1); putnet(net); RemovePartition(p); } break;
  case 24: b = bip(); p = CreateHeaderGroup(); { struct group *x[2]; struct node_gra *m = b->net1; x[0] = CreateGroup(p, 0); x[1] = CreateGroup(p, 1); for (i = 0; (m = m->next) != NULL; i++) { AddNodeToGroup(x[i % 2], m); put(NCommonLinksBipart(b->net1->next, m)); put(SumProductsOfCommonWeightsBipart(b->net1->next, m)); } } for (i = 0, q = b->net2; (q = q->next) != NULL; ) i |= NodeDegree(q) > 1; if (i) put(ModularityBipart(b, p)); RemovePartition(p); f = text("w"); fprintf(f, "p0 t1\np%d t0\n", n - 1); fclose(f); f = text("r"); { struct query **s = ReadQueries(f, 2, b); for (i = 0; i < 2; i++) { put(s[i]->n1->num); put(s[i]->n2->num); FreeQuery(s[i]); } free(s); } fclose(f); RemoveBipart(b); break;
  }
  gsl_rng_free(g); }
#define NSCORE 11
static void putmat(double **s) { int i, j; for (i = 0; i < r->n; i++) for (j = 0; j < r->n; j++) if (i != j) put(s[i][j]); free_d_mat(s, r->n); }
static void scored(int k) {
  gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); int i, n = r->n; double linC = 0;
  switch (k) {
  case 0: putmat(LinkScore(net, linC, 2, g, 'q')); break; case 1: putmat(LinkScoreMB(net, linC, 2, g, 'q')); break; case 2: putmat(ORLinkScoreMB(net, linC, 2, g, 'q')); break; case 3: putmat(LinkScoreMB_OD(net, linC, 2, g, 'q')); break;
  case 4: putmat(GibbsLinkScore(net, linC, 2, g, 'q')); break; case 5: putmat(GibbsLinkScoreMB(net, linC, 2, g, 'q')); break; case 6: putmat(ORGibbsLinkScoreMB(net, linC, 2, g, 'q')); break; case 7: putmat(GibbsLinkScoreMB_OD(net, linC, 2, g, 'q')); break;
  case 8: i = TotalNLinks(net, 1); if (i && i < n * (n - 1) / 2) putmat(SparseGibbsLinkScore(net, 2, g, 'q')); break;
  case 9: put(NetworkScore(net, net, 0, 2, g, 'q')); { struct group **l = PartitionSampling(net, 0, 2, g, 'q', 1, 1.0); for (i = 0; i < 2; i++) { putpart(l[i]); RemovePartition(l[i]); } free(l); } break;
  case 10: { struct query **q; int m; double **s = LSMultiLinkScoreKState(2, net, 2, g, 'q', 1, &q, &m); for (i = 0; i < m; i++) { put(q[i]->n1->num); put(q[i]->n2->num); put(s[0][i]); put(s[1][i]); FreeQuery(q[i]); } free(q); free_d_mat(s, 2); } break;
  }
  gsl_rng_free(g); }
/* a call on a network built for it */
static void call(void *a) { R = a; r = &R->r; R->n = 0; sym_draw_window(1 << 30, 0, 1); net = hx_build(r, 0); if (R->op < NMEAS) measure(R->op); else if (R->op < NMEAS + NOTHER) other(R->op - NMEAS); else scored(R->op - NMEAS - NOTHER); hx_nd[0] = NULL; RemoveGraph(net); }
static void weights(Ref *x) { static const double w[] = {1, 2, .5, 3, 1.25}; int i, j, c = 0; for (i = 0; i < x->n; i++) for (j = i + 1; j < x->n; j++) if (x->a[i][j]) x->w[i][j] = x->w[j][i] = w[c++ % 5]; }
static void same(Res *a, Res *b) { int i; sym_assert(a->n == b->n, "a call gives the same result whatever was called before"); for (i = 0; i < a->n; i++) { double d = a->v[i] - b->v[i]; sym_assert(a->v[i] == b->v[i] || (a->v[i] != a->v[i] && b->v[i] != b->v[i]) || (d < 1e-9 && d > -1e-9), "a call gives the same result whatever was called before"); } if (a->n) sym_reach("result"); }
/* another network: more nodes, or fewer */
static void before(Ref *x, int k) { int i; if (k == 0) { hx_clear(x, 5); for (i = 0; i < 5; i++) { x->a[i][(i + 1) % 5] = x->a[(i + 1) % 5][i] = 1; } x->a[0][2] = x->a[2][0] = 1; } else { hx_clear(x, 2); x->a[0][1] = x->a[1][0] = 1; } weights(x); }
static void again(int lo, int hi, int glo, int ghi) {
  Res *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b), *c = calloc(1, sizeof *c); hx_any_undirected(&a->r, NN, 0, 0); weights(&a->r); b->r = a->r; a->op = b->op = sym_pick(lo, hi, "call"); c->op = glo <= ghi ? sym_pick(glo, ghi, "earlier call") : a->op; before(&c->r, c->op != a->op && c->op >= NMEAS ? 0 : lo && c->op < NMEAS ? (c->op + a->op) % 2 : sym_pick(0, 1, "earlier network"));
  sym_in_fresh(call, a, sizeof *a); call(c); call(b); same(a, b); free(a); free(b); free(c); sym_reach("end"); }
void h_measures(void) { again(0, NMEAS - 1, 0, NMEAS - 1); }
void h_others(void) { again(NMEAS, NMEAS + NOTHER - 1, 0, NMEAS + NOTHER - 1); }
void h_scores(void) { again(NMEAS + NOTHER, NMEAS + NOTHER + NSCORE - 1, 1, 0); }
/* measures of one network, one after the other */
void h_onenet(void) {
  Res *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b), *c = calloc(1, sizeof *c); Ref x; int k; hx_any_undirected(&x, NN, 0, 0); weights(&x); a->r = b->r = c->r = x; a->op = b->op = sym_pick(0, NMEAS - 1, "call"); c->op = sym_pick(0, NMEAS - 1, "call between"); if (a->op == 30 || c->op == 30) sym_stop();
  sym_draw_window(1 << 30, 0, 1); net = hx_build(&x, 0); for (k = 0; k < 3; k++) { R = k == 0 ? a : k == 1 ? c : b; r = &R->r; measure(R->op); } same(a, b); hx_same(net, &x, hx_lab, 1); RemoveGraph(net); free(a); free(b); free(c); sym_reach("end"); }
