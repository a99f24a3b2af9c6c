/* C26: matrices of every network of NN nodes. */
#include "hx.h"
#include "matrix.h"
#include <gsl/gsl_vector.h>
#ifndef NN
#define NN 4
#endif
extern double model_eigen_in[64], model_eigen_out[8]; extern double model_eigen_pos; extern int model_eigen_n, model_sorted;
static int nat(int **m, int i, int j) { return m[i][j]; }
static void mats(Ref r, int self) {
  int i, j, n = r.n, b0 = sym_live_blocks();
  struct node_gra *net = hx_build(&r, sym_bool("rev"));
  int **a = AdjacencyMat(net); for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(nat(a, i, j) == r.a[i][j], "adjacency matrix entry"); free_i_mat(a, n);
  if (!self) {
    int **l = LaplacianMat(net); for (i = 0; i < n; i++) { int s = 0; for (j = 0; j < n; j++) { s += nat(l, i, j); if (i == j) sym_assert(nat(l, i, j) == hx_deg(&r, i), "Laplacian diagonal entry"); else sym_assert(nat(l, i, j) == -r.a[i][j], "Laplacian entry"); } sym_assert(s == 0, "Laplacian rows add up to zero"); } free_i_mat(l, n);
    sym_reach("laplacian");
  }
  hx_same(net, &r, hx_lab, 1); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
static void run(int dir) { Ref r; int n = sym_pick(0, NN, "nodes"), self = sym_bool("self"); if (dir) hx_any_directed(&r, n, self, 0); else hx_any_undirected(&r, n, self, 0); mats(r, self); }
void h_family(void) { Ref r; int d = sym_bool("directed"); hx_family(&r, d, 1); mats(r, 0); }
void h_undirected(void) { run(0); }
void h_directed(void) { run(1); }
/* the spectrum is that of the Laplacian, in increasing order, for any spectrum the eigensolver may return */
static void spec(void) {
  Ref r; int i, j, n = sym_pick(1, NN, "nodes"), b0 = sym_live_blocks(); hx_any_undirected(&r, n, 0, 0); struct node_gra *net = hx_build(&r, 0);
  {
    gsl_vector *v = LaplacianSpectrum(net); sym_assert(model_eigen_n == n, "size of the matrix whose spectrum is computed");
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) sym_assert(model_eigen_in[i * n + j] == (i == j ? hx_deg(&r, i) : -r.a[i][j]), "the spectrum is that of the Laplacian");
    sym_assert(model_sorted == 1 && (int)v->size == n, "the spectrum is sorted and complete"); for (i = 1; i < n; i++) sym_assert(gsl_vector_get(v, i - 1) <= gsl_vector_get(v, i), "eigenvalues in increasing order"); gsl_vector_free(v);
  }
  RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory"); sym_reach("end");
}
void h_spectrum(void) { spec(); }
void h_sync(void) {
  Ref r; int i, n = sym_pick(2, NN, "nodes"), b0 = sym_live_blocks(); hx_clear(&r, n); r.a[0][1] = r.a[1][0] = 1; struct node_gra *net = hx_build(&r, 0);
  model_eigen_pos = 1e-10; double q = Synchronizability(net), lo = 2000, hi = -2000; sym_reach("end");
  for (i = 0; i < n; i++) { double v = model_eigen_out[i]; if (v > hi) hi = v; if (v >= 1e-10 && v < lo) lo = v; }
  sym_assert_eq(q * lo, hi, "ratio of the largest to the smallest positive eigenvalue"); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "the library releases all its memory");
}
