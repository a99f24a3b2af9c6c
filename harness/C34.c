#define HX_ODD
/* C34: layout of networks: forces, energies, boxes, normalisation, the equations of motion and the arrangement of components. D3: three dimensions. */
#include "hx.h"
#include "layout.h"
#ifdef PLANAR
#define D3 1
#endif
#ifdef D3
#define DD 3
#else
#define DD 2
#endif
#ifndef NN
#define NN 4
#endif
#ifndef NB
#define NB 1
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef SEED0
#define SEED0 1
#endif
static Ref R0; static int n, nb; static double X[HXM][3]; static int cell[HXM][3];
static double *co(struct node_gra *p, int d) { return d == 0 ? &p->coorX : d == 1 ? &p->coorY : &p->coorZ; }
static int boxof(int i) { return cell[i][0] + nb * cell[i][1] + (DD == 3 ? nb * nb * cell[i][2] : 0); }
static int adjacent(int i, int j) { int d; for (d = 0; d < DD; d++) { int c = cell[i][d] - cell[j][d]; if (c < -1 || c > 1) return 0; } return 1; }
static double range(int d) { double lo = X[0][d], hi = X[0][d]; int i; for (i = 1; i < n; i++) { if (X[i][d] < lo) lo = X[i][d]; if (X[i][d] > hi) hi = X[i][d]; } return hi - lo; }
static double dist2(int i, int j) { double s = 0; int d; for (d = 0; d < DD; d++) s += (X[j][d] - X[i][d]) * (X[j][d] - X[i][d]); return s; }
/* do the charges of i and j see each other */
static int sees(int i, int j) { double c = 0; int d; if (!adjacent(i, j)) return 0; if (nb <= 2) return 1; for (d = 0; d < DD; d++) c += range(d); c /= DD * nb; return sqrt(dist2(i, j)) < c; }
static void ref_forces(double F[HXM][3]) { int i, j, d; double eps = sqrt(n) / 1e4; for (i = 0; i < n; i++) for (d = 0; d < 3; d++) F[i][d] = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) { double q = dist2(i, j), r = sqrt(q); int s = sees(i, j); for (d = 0; d < DD; d++) { double u = X[j][d] - X[i][d]; if (R0.a[i][j]) F[i][d] += R0.w[i][j] * u; if (s) F[i][d] -= u / (n * (q + eps) * r); } } }
static double ref_energy(void) { int i, j; double E = 0, eps = sqrt(n) / 1e4; for (i = 0; i < n; i++) for (j = 0; j < i; j++) { double q = dist2(i, j); if (R0.a[i][j]) E += R0.w[i][j] * q / 2; if (sees(i, j)) E += 1 / (n * sqrt(q + eps)); } return E; }
static void near(double a, double b, const char *m) { double e = a - b, s = (b > 1 ? b : b < -1 ? -b : 1) * 1e-9; sym_assert(e < s && e > -s, m); }
static struct node_gra *net; static struct node_box **bl; static int nbl;
static void boxes(int rev) { int i; nbl = DD == 3 ? nb * nb * nb : nb * nb; bl = (struct node_box **)malloc(nbl * sizeof *bl); for (i = 0; i < nbl; i++) bl[i] = CreateNodeBox(NULL); for (i = 0; i < n; i++) { int k = rev ? n - 1 - i : i; AddNodeToBox(hx_nd[k], bl[boxof(k)]); } }
static void unbox(void) { int i; for (i = 0; i < nbl; i++) FreeBox(bl[i]); free(bl); }
static void check(int real) {
  int i, d, b0 = sym_live_blocks(); double F[HXM][3], f[3][HXM], E; for (d = 0; d < 3; d++) for (i = 0; i < n; i++) f[d][i] = 77; 
#ifdef D3
  CalculateNodeForces3D(net, f[0], f[1], f[2], bl, nb); E = PotentialEnergy3D(net, bl, nb);
#else
  CalculateNodeForces(net, f[0], f[1], bl, nb); E = PotentialEnergy(net, bl, nb);
#endif
  ref_forces(F); for (i = 0; i < n; i++) { for (d = 0; d < DD; d++) if (real) sym_assert_eq(f[d][hx_nd[i]->trans], F[i][d], "force on a node"); else near(f[d][hx_nd[i]->trans], F[i][d], "force on a node"); }
  if (real) sym_assert_eq(E, ref_energy(), "potential energy"); else near(E, ref_energy(), "potential energy");
  sym_assert(sym_live_blocks() == b0, "all memory is released"); for (i = 0; i < n; i++) for (d = 0; d < DD; d++) sym_assert(*co(hx_nd[i], d) == X[i][d], "nodes stay where they are"); hx_same(net, &R0, hx_lab, 1); }
static void place(void) { int i, d; for (i = 0; i < n; i++) { hx_nd[i]->trans = n - 1 - i; for (d = 0; d < DD; d++) *co(hx_nd[i], d) = X[i][d]; } }
/* any positions and weights, one box */
void h_any(void) { int i, j, d; n = NN; nb = 1; hx_any_undirected(&R0, n, 0, 1); for (i = 0; i < n; i++) for (d = 0; d < DD; d++) { X[i][d] = sym_real(-3, 3, "x"); cell[i][d] = 0; } for (i = 0; i < n; i++) for (j = 0; j < i; j++) sym_assume(dist2(i, j) > 0.01); net = hx_build(&R0, 0); place(); boxes(0); check(1); unbox(); RemoveGraph(net); sym_reach("end"); }
/* positions from a grid of nb + 1 points a side that fills the boxes unevenly; every number of boxes */
void h_grid(void) {
  static const double off[6] = {0.13, 0.71, 0.37, 0.89, 0.05, 0.55}; int i, j, d, far = 0, cut = 0; n = sym_pick(1, NN, "n"); nb = sym_pick(1, NB, "boxes"); hx_any_undirected(&R0, n, 0, 0); for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (R0.a[i][j]) R0.w[i][j] = R0.w[j][i] = 0.5 + i + 0.25 * j;
  for (i = 0; i < n; i++) for (d = 0; d < DD; d++) { cell[i][d] = DD == 3 && d == 1 && i > 1 ? (i + nb) % nb : sym_pick(0, nb - 1, "cell"); X[i][d] = (cell[i][d] + off[(i * 2 + d) % 6]) * (d == 1 ? 2.0 : 1) / nb; }
  for (i = 0; i < n; i++) for (j = 0; j < i; j++) { if (!adjacent(i, j)) far = 1; else if (!sees(i, j)) cut = 1; } net = hx_build(&R0, 0); place(); boxes(sym_bool("reversed")); check(0); unbox(); RemoveGraph(net); if (far) sym_reach("far"); if (cut) sym_reach("cut"); sym_reach("end"); }
/* the box of a node of three dimensions: any position */
void h_assign(void) {
  double lo[3], hi[3]; int d, b, k, m; struct node_gra *h = CreateHeaderGraph(), *p; char l[4] = "a"; p = CreateNodeGraph(h, l); nb = sym_pick(1, 4, "boxes"); k = sym_pick(0, 2, "axis"); for (d = 0; d < 3; d++) { double x; if (d != k) { lo[d] = -1 + 0.5 * d; hi[d] = 2; *co(p, d) = 0.125 + 0.8 * sym_pick(0, 2, "x"); continue; } lo[d] = sym_real(-2, 2, "lo"); hi[d] = sym_real(-2, 3, "hi"); sym_assume(hi[d] - lo[d] >= 0.125); x = sym_real(-2, 3, "x"); sym_assume(x >= lo[d] && x <= hi[d]); *co(p, d) = x; }
  b = sym_conc(AssignBox3D(p, nb, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])); sym_assert(b >= 0 && b < nb * nb * nb, "there is such a box");
  for (d = 0, m = b; d < 3; d++, m /= nb) { double w = hi[d] - lo[d], t = (*co(p, d) - lo[d]) * nb; k = m % nb; sym_assert_le(t, (k + 1 + 1e-3) * w, "a node is in its box"); sym_assert_le((k - 1e-3) * w, t, "a node is in its box"); } RemoveGraph(h); sym_reach("end"); }
/* normalisation: any coordinates */
void h_norm(void) {
  int i, d; double lo, hi; n = sym_pick(1, NN, "n"); hx_clear(&R0, n); net = hx_build(&R0, 0); for (i = 0; i < n; i++) for (d = 0; d < 3; d++) X[i][d] = sym_real(-3, 3, "x"); for (i = 0; i < n; i++) { hx_nd[i]->coorX = X[i][0]; hx_nd[i]->coorY = X[i][1]; hx_nd[i]->coorZ = X[i][2]; }
#ifdef D3
  NormalizeCoordinates3D(net);
#else
  NormalizeCoordinates(net);
#endif
  for (d = 0; d < 3; d++) { if (d >= DD) { for (i = 0; i < n; i++) sym_assert_eq(*co(hx_nd[i], d), X[i][d], "other coordinates are left alone"); continue; } lo = hi = X[0][d]; for (i = 1; i < n; i++) { if (X[i][d] < lo) lo = X[i][d]; if (X[i][d] > hi) hi = X[i][d]; }
    for (i = 0; i < n; i++) if (hi > lo) { sym_assert_eq(*co(hx_nd[i], d) * (hi - lo), X[i][d] - lo, "coordinates are scaled to go from 0 to 1"); sym_reach("scaled"); } else { sym_assert(*co(hx_nd[i], d) >= 0 && *co(hx_nd[i], d) <= 1, "coordinates are between 0 and 1"); sym_reach("degenerate"); } }
  RemoveGraph(net); sym_reach("end"); }
static void normal(double Y[HXM][3], int dims) { int i, d; for (d = 0; d < dims; d++) { double lo = Y[0][d], hi = lo; for (i = 1; i < n; i++) { if (Y[i][d] < lo) lo = Y[i][d]; if (Y[i][d] > hi) hi = Y[i][d]; } for (i = 0; i < n; i++) Y[i][d] = hi > lo ? (Y[i][d] - lo) / (hi - lo) : 0.5; } }
static void comps(int *c) { int i, j, ch; for (i = 0; i < n; i++) c[i] = i; do { ch = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (R0.a[i][j] && c[j] > c[i]) { c[j] = c[i]; ch = 1; } } while (ch); }
/* the motion: a step at a time from the draws made */
static void border(double v) { double f = v * nb - floor(v * nb); if (f < 1e-7 || f > 1 - 1e-7) sym_stop(); }
void h_md(void) {
  static const double dts[3] = {0.05, 0.5, 0.02}, drags[3] = {0.05, 1.5, 3}; int i, j, d, s, steps, b0 = sym_live_blocks(), k, want, c[HXM], one = 1, arg; double P[HXM][3], dt, drag, T, kz = 0, F[HXM][3], lo[3], hi[3]; int pull = 0; gsl_rng *g;
  n = sym_pick(1, NN, "n"); 
#ifdef CONN
  hx_any_undirected(&R0, n, 0, 0); comps(c); for (i = 0; i < n; i++) if (c[i]) sym_stop();
#else
  { static const int e[4][2] = {{0, 1}, {2, 3}, {1, 2}, {0, 3}}; hx_clear(&R0, n); for (i = 0; i < 4; i++) if (e[i][0] < n && e[i][1] < n && sym_bool("link")) hx_tog(&R0, e[i][0], e[i][1], 1, 0); comps(c); for (i = 0, j = 0; i < n; i++) j |= c[i]; if (!j) sym_stop(); }
#endif
  for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (R0.a[i][j]) R0.w[i][j] = R0.w[j][i] = 1 + 0.37 * ((i + j) % 3);
  net = hx_build(&R0, sym_bool("reversed")); k = sym_pick(0, 2, "parameters"); dt = dts[k]; drag = drags[k]; steps = sym_pick(0, STEPS, "steps"); arg = nb = sym_pick(0, 3, "boxes"); sym_step_limit(400000000L);
#ifndef CONN
  if (nb > 1 || steps > 1) sym_stop();
#endif
  for (i = 0, want = 0; i < n; i++) for (j = 0; j < i; j++) want += R0.a[i][j]; if (nb == 0) { nb = want ? (int)floor(DD == 3 ? pow(n * n / (10.0 * want), 1 / 3.) : sqrt(n * n / (10.0 * want))) : 1; if (nb < 1) nb = 1; }
  sym_draw_reset(); sym_draw_window(0, 0, SEED0 + sym_pick(0, 2, "seed")); g = gsl_rng_alloc(gsl_rng_mt19937);
#if defined(PLANAR)
  MDGraphLayout2Dp(net, drag, dt, steps, g, arg);
#elif defined(D3)
  MDGraphLayout3D(net, drag, dt, steps, g, arg);
#else
  MDGraphLayout(net, drag, dt, steps, g, arg);
#endif
  gsl_rng_free(g); hx_same(net, &R0, hx_lab, 1);
  for (i = 0, k = 0; i < n; i++) for (d = 0; d < DD; d++) P[i][d] = X[i][d] = sym_draw_value(k++); for (i = 0; i < n; i++) for (d = 0; d < DD; d++) { border(X[i][d]); cell[i][d] = (int)floor(X[i][d] * nb); }
  for (s = 0; s < steps; s++) {
    ref_forces(F); T = 0; for (i = 0; i < n; i++) for (d = 0; d < DD; d++) { double x = X[i][d], f = F[i][d], v; 
#ifdef PLANAR
      if (d == 2) f -= kz * (x - 0.5);
#endif
      X[i][d] = (2 * x - P[i][d] * (1 - drag * dt / 2) + f * dt * dt) / (1 + drag * dt / 2); v = (X[i][d] - P[i][d]) / (2 * dt); T += v * v / 2; P[i][d] = x; }
    for (d = 0; d < DD; d++) { double l = X[0][d]; for (i = 1; i < n; i++) if (X[i][d] < l) l = X[i][d]; for (i = 0; i < n; i++) { double r = range(d), t = r > 0 ? (X[i][d] - l) / r : 0; cell[i][d] = (int)floor(t * nb); if (cell[i][d] == nb) cell[i][d]--; if (t > 0 && t < 1) { double q = t * nb - floor(t * nb); if (q < 2e-4 || q > 1 - 2e-4) if (floor(t * nb + 0.5) > 0 && floor(t * nb + 0.5) < nb) sym_stop(); } } }
    if (pull) kz += dt; if (T / n < 1e-3) pull = 1; if (pull) sym_reach("slow"); if (T / n < 1e-5) { sym_reach("stopped"); break; } }
#ifdef D3
#ifndef PLANAR
#define OUTD 3
#endif
#endif
#ifndef OUTD
#define OUTD 2
#endif
  normal(X, OUTD); for (i = 0; i < n; i++) if (c[i]) one = 0; 
  if (one || OUTD == 3) for (i = 0; i < n; i++) for (d = 0; d < OUTD; d++) { double e = *co(hx_nd[i], d) - X[i][d]; sym_assert(e < 1e-7 && e > -1e-7, "a node is where the motion takes it"); }
  else { double sc[2], o; for (d = 0; d < 2; d++) { sc[d] = 0; double l = 9, h = -9; for (i = 0; i < n; i++) { double y = *co(hx_nd[i], d); if (y < l) l = y; if (y > h) h = y; for (j = 0; j < i; j++) if (c[i] == c[j] && sc[d] == 0) { sc[d] = (*co(hx_nd[i], d) - *co(hx_nd[j], d)) / (X[i][d] - X[j][d]); sym_assert(sc[d] > 0, "components keep their shape"); } } near(l, 0, "coordinates start at 0"); near(h, 1, "coordinates end at 1");
      for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (c[i] == c[j]) { o = *co(hx_nd[i], d) - *co(hx_nd[j], d) - sc[d] * (X[i][d] - X[j][d]); sym_assert(o < 1e-7 && o > -1e-7, "components keep their shape"); } } sym_reach("components"); }
  RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "all memory is released"); if (steps > 1) sym_reach("moved"); sym_reach("end"); }
/* arrangement: components move as a whole, towards the largest and away from each other */
static double score(double Y[HXM][3], int *c, double cx, double cy) { int i, j; double x[HXM] = {0}, y[HXM] = {0}, r[HXM] = {0}, D = 0; int z[HXM] = {0}; for (i = 0; i < n; i++) { z[c[i]]++; x[c[i]] += Y[i][0]; y[c[i]] += Y[i][1]; } for (i = 0; i < n; i++) if (z[i]) { x[i] /= z[i]; y[i] /= z[i]; } for (i = 0; i < n; i++) { double q = 1.02 * sqrt((Y[i][0] - x[c[i]]) * (Y[i][0] - x[c[i]]) + (Y[i][1] - y[c[i]]) * (Y[i][1] - y[c[i]])); if (q > r[c[i]]) r[c[i]] = q; }
  for (i = 0; i < n; i++) if (z[i]) { D += sqrt((x[i] - cx) * (x[i] - cx) + (y[i] - cy) * (y[i] - cy)); for (j = 0; j < i; j++) if (z[j]) { double o = r[i] + r[j] - sqrt((x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j])); if (o > 0) D += 1e5 * o; } } return D; }
void h_arrange(void) {
  static const int e[5][2] = {{0, 1}, {2, 3}, {1, 2}, {0, 4}, {3, 4}}; static const double px[6] = {0.1, 0.9, 0.4, 0.2, 0.75, 0.5}, py[6] = {0.3, 0.6, 0.05, 0.95, 0.5, 0.45}; int i, j, d, c[HXM], b0 = sym_live_blocks(), sz[HXM] = {0}, big = 0, k, ok = 0, p; double Y[HXM][3]; gsl_rng *g; n = NN; hx_clear(&R0, n); for (i = 0; i < 5; i++) if (sym_bool("link")) hx_tog(&R0, e[i][0], e[i][1], 1, 0); comps(c); net = hx_build(&R0, 0); p = sym_pick(0, 2, "positions");
  for (i = 0; i < n; i++) { X[i][0] = px[(i * (p + 1) + p) % (p == 2 ? 5 : 6)]; X[i][1] = py[(i + 2 * p) % 6]; hx_nd[i]->coorX = X[i][0]; hx_nd[i]->coorY = X[i][1]; sz[c[i]]++; } sym_step_limit(400000000L); sym_draw_window(0, 0, SEED0 + sym_pick(0, 1, "seed")); g = gsl_rng_alloc(gsl_rng_mt19937); ArrangeComponents(net, g); gsl_rng_free(g);
  for (i = 0; i < n; i++) { Y[i][0] = hx_nd[i]->coorX; Y[i][1] = hx_nd[i]->coorY; if (sz[i] > big) big = sz[i]; }
  for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (c[i] == c[j]) for (d = 0; d < 2; d++) near(Y[i][d] - Y[j][d], X[i][d] - X[j][d], "a component moves as a whole");
  if (big == n) for (i = 0; i < n; i++) for (d = 0; d < 2; d++) sym_assert(Y[i][d] == X[i][d], "a connected network is left alone");
  else { for (k = 0; k < n; k++) if (sz[k] == big) { double x = 0, y = 0; for (i = 0; i < n; i++) if (c[i] == k) { x += X[i][0] / big; y += X[i][1] / big; } double D0 = score(X, c, x, y), D1 = score(Y, c, x, y); if (D1 <= D0 + 1e-6) ok = 1; } sym_assert(ok, "components are not further from the largest or more on top of each other than before"); sym_reach("components"); }
  hx_same(net, &R0, hx_lab, 0); RemoveGraph(net); sym_assert(sym_live_blocks() == b0, "all memory is released"); sym_reach("end"); }
void h_print(void) { int i; double x, y; char l[120]; n = sym_pick(1, 4, "n"); hx_clear(&R0, n); net = hx_build(&R0, 0); static const double t[5] = {0, 1, 0.123456, 0.000025, 0.5}; for (i = 0; i < n; i++) { hx_nd[i]->coorX = X[i][0] = t[sym_pick(0, 4, "x")]; hx_nd[i]->coorY = X[i][1] = t[(i + 1) % 5]; } FILE *f = fopen("o", "w"); PrintNodeCoordinates(f, net); fclose(f); f = fopen("o", "r"); for (i = 0; i < n; i++) sym_assert(fscanf(f, "%119s %lf %lf", l, &x, &y) == 3 && !strcmp(l, hx_lab[i]) && fabs(x - X[i][0]) < 1e-9 && fabs(y - X[i][1]) < 1e-9, "a line per node with its coordinates"); sym_assert(fscanf(f, "%119s", l) != 1, "and no more"); fclose(f); RemoveGraph(net); sym_reach("end"); }
