/* Running a program's own main: its source is compiled into the harness as prog_main, its output is read back from files. */
#ifndef PROG_H
#define PROG_H
#pragma clang diagnostic ignored "-Wimplicit-int"
#pragma clang diagnostic ignored "-Wreturn-type"
#pragma clang diagnostic ignored "-Wimplicit-function-declaration"
#pragma clang diagnostic ignored "-Wformat"
#include <unistd.h>
#include <stdarg.h>
#include "hx.h"
int prog_main(int argc, char **argv);
static char pg_arg[24][300]; static char *pg_argv[25]; static int pg_n;
static void pg_args(const char *a) { /* words separated by blanks */ int k; pg_n = 0; while (*a) { k = 0; while (*a == ' ') a++; if (!*a) break; while (*a && *a != ' ') pg_arg[pg_n][k++] = *a++; pg_arg[pg_n][k] = 0; pg_argv[pg_n] = pg_arg[pg_n]; pg_n++; } pg_argv[pg_n] = NULL; }
/* standard output and error go to files of their own */
static int pg_run(const char *args) { FILE *f; int r; pg_args(args); f = freopen("stdout.txt", "w", stdout); f = freopen("stderr.txt", "w", stderr); (void)f; r = prog_main(pg_n, pg_argv); fflush(stdout); fflush(stderr); return r; }
static int pg_near(double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; }
/* six significant digits (%g) */
static int pg_nearg(double a, double b) { double d = a - b, s = fabs(b) > 1e-4 ? fabs(b) * 6e-6 : 6e-10; return d <= s && d >= -s; }
static FILE *pg_open(const char *n) { FILE *f = fopen(n, "r"); sym_assert(f != NULL, "the program writes its output file"); return f; }
static int pg_end(FILE *f) { char b[8]; int r = fscanf(f, "%7s", b); fclose(f); return r != 1; }
#define main prog_main
#endif
