/* Interface between harnesses and (a) the symbolic executor, (b) the native replay runtime. */
#ifndef SYM_H
#define SYM_H
int sym_int(int lo, int hi, const char *name);
double sym_real(double lo, double hi, const char *name);
double sym_draw(void);                 /* a random draw: any u with 0 <= u < 1 */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_assert_eq(double a, double b, const char *msg);
void sym_assert_le(double a, double b, const char *msg);
void sym_reach(const char *tag);
int sym_conc(int x);                   /* fork until x is a constant */
void sym_note_i(const char *tag, int x);
void sym_note_d(const char *tag, double x);
void sym_note_s(const char *tag, const char *x);
int sym_symbolic(void);                /* 1 under symbolic execution, 0 in native replay */
void sym_draw_limit(int n);
void sym_draw_window(int lo, int hi, unsigned seed); /* draws number lo..hi-1 are arbitrary, all others come from a fixed stream */
int sym_draw_count(void);
void sym_draw_reset(void); int sym_draws_made(void); double sym_draw_value(int i); /* uniform draws since the last reset (at most 64 recorded) */
void sym_intdraw_limit(int n);        /* abandon paths with more integer draws */
void sym_step_limit(long n);
void sym_stop(void);                   /* abandon this path: outside the bounds */
void sym_allow_exit(void);
int sym_alloc_ok(const void *p);       /* p points into a live heap block */
int sym_live_blocks(void);
void sym_in_fresh(void (*fn)(void *), void *arg, unsigned size); /* fn(arg) as if no function had been called before; arg: size bytes, the only memory that keeps what fn did. Afterwards variables have their initial values */
#define sym_bool(n) sym_conc(sym_int(0, 1, n))
#define sym_pick(lo, hi, n) sym_conc(sym_int(lo, hi, n))
#endif
