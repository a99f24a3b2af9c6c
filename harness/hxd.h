/* Reference distances on a reference network (Floyd-Warshall); HXINF: no path. */
#ifndef HXD_H
#define HXD_H
#include "hx.h"
#define HXINF 99
static inline void hx_dist(Ref *r, int d[HXM][HXM]) {
  int i, j, k, n = r->n; for (i = 0; i < n; i++) for (j = 0; j < n; j++) d[i][j] = i == j ? 0 : r->a[i][j] ? 1 : HXINF;
  for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j];
}
#endif
