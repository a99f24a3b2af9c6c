/* Draws outside a window come from a fixed concrete stream; those inside stay arbitrary. */
static int win_on, win_lo, win_hi, win_n; static unsigned win_s;
void sym_draw_window(int lo, int hi, unsigned seed) { win_on = 1; win_lo = lo; win_hi = hi; win_n = 0; win_s = seed * 2654435761u + 12345u; }
int sym_draw_count(void) { return win_n; }
static int win_draw(double *u) { int n; if (!win_on) return 0; n = win_n++; if (n >= win_lo && n < win_hi) return 0; win_s = win_s * 1664525u + 1013904223u; *u = (win_s >> 16) / 65536.0; return 1; }
/* the uniform draws made since the last reset */
static double win_rec[64]; static int win_rn;
static double win_uniform(void) { double u; if (!win_draw(&u)) u = sym_draw(); if (win_rn < 64) win_rec[win_rn] = u; win_rn++; return u; }
void sym_draw_reset(void) { win_rn = 0; }
int sym_draws_made(void) { return win_rn; }
double sym_draw_value(int i) { return win_rec[i]; }
/* integer draws: at most lim of them (0: any number) */
static int win_il, win_in;
void sym_intdraw_limit(int n) { win_il = n; win_in = 0; }
static void win_int(void) { if (win_il && ++win_in > win_il) sym_stop(); }
