/* C models of the library functions the code calls, executed symbolically together with it.
   Their behaviour follows the C standard / glibc; the replay uses the real libraries. */
typedef unsigned long size_t; typedef long ssize_t;
#define NULL ((void *)0)
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t);
int sym_conc(int); double sym_draw(void); int sym_int(int, int, const char *); void exit(int); void abort(void);
int __m_dtoa(char *buf, const char *fmt, double v); int __m_atod(const char *s, double *out);

/* ------------------------------------------------------------ strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } if (!n) return 0; return (unsigned char)*a - (unsigned char)*b; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return low(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && low(*a) == low(*b)) { a++; b++; } return low((unsigned char)*a) - low((unsigned char)*b); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { char *r = malloc(strlen(s) + 1); return strcpy(r, s); }
char *strndup(const char *s, size_t n) { size_t l = 0; while (l < n && s[l]) l++; char *r = malloc(l + 1); memcpy(r, s, l); r[l] = 0; return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return NULL; } char *r = s; s += strcspn(s, d); if (*s) *s++ = 0; *sv = s; return r; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p - *q; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { c = low(c); return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
static unsigned short ctab[384]; static int ctabInit; static const unsigned short *ctabp;
const unsigned short **__ctype_b_loc(void) {
  if (!ctabInit) { ctabInit = 1; for (int c = 0; c < 256; c++) { unsigned short m = 0; if (c >= 'A' && c <= 'Z') m |= 256 | 1024; if (c >= 'a' && c <= 'z') m |= 512 | 1024; if (isdigit(c)) m |= 2048; if (isspace(c)) m |= 8192; if (isprint(c)) m |= 16384; if (isalnum(c)) m |= 8; if (isprint(c) && c != ' ') m |= 32768; if (isprint(c) && c != ' ' && !isalnum(c)) m |= 4; if (c < 32 || c == 127) m |= 2; if (c == ' ' || c == 9) m |= 1; if (isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= 4096; ctab[c + 128] = m; } ctabp = ctab + 128; }
  return &ctabp;
}
static int strtolDigit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
long strtol(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0; long v = 0;
  while (isspace(*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && strtolDigit(p[2]) < 16) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  while (strtolDigit(*p) < base) { int d = strtolDigit(*p); if (v > ((long)(~0UL >> 1) - d) / base) { p++; while (strtolDigit(*p) < base) p++; if (end) *end = (char *)p; return neg ? -(long)(~0UL >> 1) - 1 : (long)(~0UL >> 1); } v = v * base + d; p++; any = 1; }
  if (end) *end = (char *)(any ? p : s);
  return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
double strtod(const char *s, char **end) { const char *p = s; double v = 0; while (isspace(*p)) p++; int n = __m_atod(p, &v); if (end) *end = (char *)(n ? p + n : s); return n ? v : 0.0; }
double atof(const char *s) { return strtod(s, NULL); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
double fmin(double a, double b) { return a < b ? a : b; }
double fmax(double a, double b) { return a > b ? a : b; }
double log2(double x) { double log(double); return log(x) / log(2.0); }
double log10(double x) { double log(double); return log(x) / log(10.0); }

/* ------------------------------------------------------------ sorting */
#define WKQ __attribute__((weak))
static void swapEl(char *a, char *b, char *t, size_t s) { memcpy(t, a, s); memcpy(a, b, s); memcpy(b, t, s); }
void qsort(void *base, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
  char *b = base; size_t i, j; if (n < 2) return; char *t = malloc(s);
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(b + (j - 1) * s, b + j * s) > 0; j--) swapEl(b + (j - 1) * s, b + j * s, t, s);
  free(t);
}
WKQ void qsort_r(void *base, size_t n, size_t s, int (*cmp)(const void *, const void *, void *), void *a) {
  char *b = base; size_t i, j; if (n < 2) return; char *t = malloc(s);
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(b + (j - 1) * s, b + j * s, a) > 0; j--) swapEl(b + (j - 1) * s, b + j * s, t, s);
  free(t);
}
void *bsearch(const void *k, const void *base, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * s; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return NULL;
}

/* ------------------------------------------------------------ hash table (hsearch) */
typedef struct { char *key; void *data; } ENTRY;
static ENTRY *htab; static size_t hcap, hused;
static int isPrime(size_t n) { for (size_t d = 3; d * d <= n; d += 2) if (n % d == 0) return 0; return 1; }
int hcreate(size_t n) { if (htab) return 0; if (n < 3) n = 3; n |= 1; while (!isPrime(n)) n += 2; hcap = n; hused = 0; htab = calloc(n, sizeof(ENTRY)); return 1; }
void hdestroy(void) { free(htab); htab = NULL; hused = 0; }
ENTRY *hsearch(ENTRY e, int action) {
  for (size_t i = 0; i < hused; i++) if (!strcmp(htab[i].key, e.key)) return &htab[i];
  if (action != 1 || hused >= hcap) return NULL;
  htab[hused] = e; return &htab[hused++];
}

/* ------------------------------------------------------------ files (in memory) */
void __m_uncount(int n); /* the store of the in-memory files is not memory of the program */
typedef struct { char *name; char *data; long len, cap; } VNode;
typedef struct { int node; long pos; int eof, err, rd, wr, app, live; } VFILE;
#define MAXVN 16
static VNode vn[MAXVN]; static int nvn;
static VFILE vstd[3] = {{-1, 0, 0, 0, 1, 0, 0, 1}, {-1, 0, 0, 0, 0, 1, 0, 1}, {-1, 0, 0, 0, 0, 1, 0, 1}};
void *stdin = &vstd[0], *stdout = &vstd[1], *stderr = &vstd[2];
static int vfind(const char *nm) { for (int i = 0; i < nvn; i++) if (vn[i].name && !strcmp(vn[i].name, nm)) return i; return -1; }
VFILE *fopen(const char *nm, const char *mode) {
  int i = vfind(nm); 
  if (mode[0] == 'r') { if (i < 0) return NULL; }
  else { if (i < 0) { if (nvn >= MAXVN) abort(); i = nvn++; vn[i].name = strdup(nm); __m_uncount(1); vn[i].data = NULL; vn[i].cap = 0; vn[i].len = 0; } if (mode[0] == 'w') vn[i].len = 0; }
  VFILE *f = malloc(sizeof(VFILE)); int plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
  f->node = i; f->pos = 0; f->eof = 0; f->err = 0; f->rd = mode[0] == 'r' || plus; f->wr = mode[0] != 'r' || plus; f->app = mode[0] == 'a'; f->live = 1; return f;
}
VFILE *freopen(const char *nm, const char *mode, VFILE *f) { VFILE *g = fopen(nm, mode); if (!g) return NULL; *f = *g; free(g); return f; }
int fclose(VFILE *f) { f->live = 0; if (f != &vstd[0] && f != &vstd[1] && f != &vstd[2]) free(f); return 0; }
int remove(const char *nm) { int i = vfind(nm); if (i < 0) return -1; vn[i].name = NULL; return 0; }
int fflush(VFILE *f) { return 0; }
int feof(VFILE *f) { return f->eof; }
int ferror(VFILE *f) { return f->err; }
void rewind(VFILE *f) { f->pos = 0; f->eof = 0; }
int fseek(VFILE *f, long o, int w) { f->eof = 0; f->pos = w == 0 ? o : w == 1 ? f->pos + o : vn[f->node].len + o; return 0; }
long ftell(VFILE *f) { return f->pos; }
static int vget(VFILE *f) { if (f->node < 0 || f->pos >= vn[f->node].len) { f->eof = 1; return -1; } return (unsigned char)vn[f->node].data[f->pos++]; }
static void vunget(VFILE *f) { f->pos--; f->eof = 0; }
static void vput(VFILE *f, int c) {
  if (f->node < 0) return;
  VNode *v = &vn[f->node]; if (f->app) f->pos = v->len;
  if (f->pos >= v->cap) { if (!v->cap) __m_uncount(1); v->cap = v->cap ? v->cap * 2 : 64; v->data = realloc(v->data, v->cap); }
  v->data[f->pos++] = (char)c; if (f->pos > v->len) v->len = f->pos;
}
int fgetc(VFILE *f) { return vget(f); }
int getc(VFILE *f) { return vget(f); }
int getchar(void) { return vget(&vstd[0]); }
int ungetc(int c, VFILE *f) { if (c == -1) return -1; vunget(f); vn[f->node].data[f->pos] = (char)c; return c; }
int fputc(int c, VFILE *f) { vput(f, c); return c; }
int putc(int c, VFILE *f) { vput(f, c); return c; }
int putchar(int c) { vput(stdout, c); return c; }
int fputs(const char *s, VFILE *f) { if (f->node < 0) return 1; while (*s) vput(f, *s++); return 1; }
int puts(const char *s) { if (vstd[1].node < 0) return 1; while (*s) vput(stdout, *s++); vput(stdout, 10); return 1; }
size_t fwrite(const void *p, size_t s, size_t n, VFILE *f) { const char *c = p; if (f->node < 0) return n; for (size_t i = 0; i < s * n; i++) vput(f, c[i]); return n; }
size_t fread(void *p, size_t s, size_t n, VFILE *f) { char *c = p; size_t i; for (i = 0; i < s * n; i++) { int x = vget(f); if (x < 0) break; c[i] = x; } return s ? i / s : 0; }
char *fgets(char *b, int n, VFILE *f) {
  int i = 0; if (n <= 0) return NULL;
  while (i < n - 1) { int c = vget(f); if (c < 0) { if (i == 0) return NULL; break; } b[i++] = (char)c; if (c == '\n') break; }
  b[i] = 0; return b;
}
ssize_t getdelim(char **lp, size_t *np, int delim, VFILE *f) {
  size_t i = 0;
  for (;;) {
    int c = vget(f); if (c < 0) { if (i == 0) { if (!*lp) { *lp = malloc(120); *np = 120; } return -1; } break; }
    if (!*lp || i + 2 > *np) { size_t nn = *lp && *np ? *np * 2 : 120; while (nn < i + 2) nn *= 2; *lp = realloc(*lp, nn); *np = nn; }
    (*lp)[i++] = (char)c; if (c == delim) break;
  }
  (*lp)[i] = 0; return i;
}
ssize_t getline(char **lp, size_t *np, VFILE *f) { return getdelim(lp, np, '\n', f); }
ssize_t __getdelim(char **lp, size_t *np, int d, VFILE *f) { return getdelim(lp, np, d, f); }
int isatty(int x) { return 0; }
void perror(const char *s) {}
static int errnoV; int *__errno_location(void) { return &errnoV; }
char *strerror(int e) { return "error"; }
int setvbuf(VFILE *f, char *b, int m, size_t s) { return 0; }

/* ------------------------------------------------------------ options (arguments in order, no permutation) */
char *optarg; int optind = 1, opterr = 1, optopt; static int optpos;
int getopt(int argc, char *const *argv, const char *os) {
  const char *o; if (!optpos) { if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) return -1; if (!strcmp(argv[optind], "--")) { optind++; return -1; } optpos = 1; }
  int c = (unsigned char)argv[optind][optpos++], last = !argv[optind][optpos]; optarg = NULL; o = c == ':' ? NULL : strchr(os, c);
  if (!o) { optopt = c; if (last) { optind++; optpos = 0; } return '?'; }
  if (o[1] == ':') { if (!last) optarg = argv[optind] + optpos; else if (o[2] == ':') ; else if (optind + 1 < argc) optarg = argv[++optind]; else { optopt = c; optind++; optpos = 0; return os[0] == ':' ? ':' : '?'; } optind++; optpos = 0; return c; }
  if (last) { optind++; optpos = 0; } return c;
}

/* ------------------------------------------------------------ formatted output */
typedef struct { VFILE *f; char *b; size_t cap; size_t n; } Sink;
static void emitc(Sink *k, int c) { if (k->f) vput(k->f, c); else if (k->n + 1 < k->cap) k->b[k->n] = (char)c; k->n++; }
static int fmtOut(Sink *k, const char *fmt, void **args) {
  int ai = 0;
  for (; *fmt; fmt++) {
    if (*fmt != '%') { emitc(k, *fmt); continue; }
    if (fmt[1] == '%') { emitc(k, '%'); fmt++; continue; }
    char spec[32]; int sn = 0, left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    spec[sn++] = '%'; fmt++;
    for (;; fmt++) { if (*fmt == '-') left = 1; else if (*fmt == '0') zero = 1; else if (*fmt == '+') plus = 1; else if (*fmt == ' ' || *fmt == '#') ; else break; spec[sn++] = *fmt; }
    if (*fmt == '*') { width = (int)(long)args[ai++]; if (width < 0) { left = 1; width = -width; } fmt++; char t[12]; int q = 0, w = width; if (!w) t[q++] = '0'; while (w) { t[q++] = '0' + w % 10; w /= 10; } while (q) spec[sn++] = t[--q]; }
    else while (isdigit(*fmt)) { width = width * 10 + (*fmt - '0'); spec[sn++] = *fmt++; }
    if (*fmt == '.') { spec[sn++] = *fmt++; prec = 0; if (*fmt == '*') { prec = (int)(long)args[ai++]; fmt++; char t[12]; int q = 0, w = prec; if (!w) t[q++] = '0'; while (w) { t[q++] = '0' + w % 10; w /= 10; } while (q) spec[sn++] = t[--q]; } else while (isdigit(*fmt)) { prec = prec * 10 + (*fmt - '0'); spec[sn++] = *fmt++; } }
    while (*fmt == 'l' || *fmt == 'h' || *fmt == 'z' || *fmt == 'j' || *fmt == 't') { if (*fmt != 'h') lng = 1; fmt++; }
    char buf[400]; const char *s = buf; int len = 0;
    switch (*fmt) {
      case 'd': case 'i': case 'u': case 'x': {
        long v = (long)args[ai++]; if (!lng) v = sym_conc((int)v); 
        if (!lng && *fmt != 'd' && *fmt != 'i') v = (long)(unsigned int)v;
        int neg = v < 0, q = 0; char t[24]; unsigned long w = neg ? -(unsigned long)v : v; int base = *fmt == 'x' ? 16 : 10; if (*fmt == 'u' && lng) { neg = 0; w = v; }
        if (!w) t[q++] = '0'; while (w) { int dg = w % base; t[q++] = dg < 10 ? '0' + dg : 'a' + dg - 10; w /= base; }
        while (q < prec) t[q++] = '0'; int sg = neg || plus; if (zero && !left && prec < 0) while (q + sg < width) t[q++] = '0';
        if (neg) buf[len++] = '-'; else if (plus) buf[len++] = '+';
        while (q) buf[len++] = t[--q]; break; }
      case 'c': buf[len++] = (char)(long)args[ai++]; break;
      case 's': { s = args[ai++]; if (!s) s = "(null)"; while ((prec < 0 || len < prec) && s[len]) len++; break; }
      case 'p': { args++; s = "0x1"; len = 3; break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { spec[sn++] = *fmt; spec[sn] = 0; double v = ((double *)args)[ai++]; __m_dtoa(buf, spec, v); while (buf[len]) len++; width = 0; break; }
      default: abort();
    }
    if (!left) for (int i = len; i < width; i++) emitc(k, ' ');
    for (int i = 0; i < len; i++) emitc(k, s[i]);
    if (left) for (int i = len; i < width; i++) emitc(k, ' ');
  }
  return (int)k->n;
}
int __m_fprintf(VFILE *f, const char *fmt, void **args) { if (f->node < 0) return 1; Sink k = {f, NULL, 0, 0}; return fmtOut(&k, fmt, args); }
int __m_printf(const char *fmt, void **args) { return __m_fprintf(stdout, fmt, args); }
int __m_sprintf(char *b, const char *fmt, void **args) { Sink k = {NULL, b, ~0UL, 0}; int n = fmtOut(&k, fmt, args); b[n] = 0; return n; }
int __m_snprintf(char *b, size_t c, const char *fmt, void **args) { Sink k = {NULL, b, c, 0}; int n = fmtOut(&k, fmt, args); if (c) b[(size_t)n < c ? n : c - 1] = 0; return n; }

/* ------------------------------------------------------------ formatted input */
typedef struct { VFILE *f; const char *s; long pos; } Src;
static int sget(Src *k) { if (k->f) return vget(k->f); if (!k->s[k->pos]) return -1; return (unsigned char)k->s[k->pos++]; }
static void sunget(Src *k, int c) { if (c < 0) return; if (k->f) vunget(k->f); else k->pos--; }
static int inSet(const char *set, int n, int c) { int neg = 0, i = 0, r = 0; if (n && set[0] == '^') { neg = 1; i = 1; } for (int st = i; i < n; i++) { if (i + 2 < n && i > st - 1 && set[i + 1] == '-' ) { if (c >= set[i] && c <= set[i + 2]) r = 1; i += 2; } else if (c == set[i]) r = 1; } return r != neg; }
static int fmtIn(Src *k, const char *fmt, void **args) {
  int done = 0, ai = 0, c;
  for (; *fmt; fmt++) {
    if (isspace(*fmt)) { do c = sget(k); while (c >= 0 && isspace(c)); sunget(k, c); continue; }
    if (*fmt != '%') { c = sget(k); if (c < 0) return done ? done : -1; if (c != (unsigned char)*fmt) { sunget(k, c); return done; } continue; }
    fmt++; int sup = 0, width = 0, lng = 0;
    if (*fmt == '*') { sup = 1; fmt++; }
    while (isdigit(*fmt)) width = width * 10 + (*fmt++ - '0');
    while (*fmt == 'l' || *fmt == 'h' || *fmt == 'z') { if (*fmt == 'l') lng = 1; fmt++; }
    if (*fmt == '%') { do c = sget(k); while (c >= 0 && isspace(c)); if (c != '%') { sunget(k, c); return c < 0 && !done ? -1 : done; } continue; }
    if (*fmt != 'c' && *fmt != '[' && *fmt != 'n') { do c = sget(k); while (c >= 0 && isspace(c)); sunget(k, c); if (c < 0) return done ? done : -1; }
    switch (*fmt) {
      case 'n': *(int *)args[ai++] = (int)k->pos; break;
      case 's': { char *o = sup ? NULL : args[ai++]; int n = 0; while ((!width || n < width) && (c = sget(k)) >= 0) { if (isspace(c)) { sunget(k, c); break; } if (o) o[n] = (char)c; n++; } if (o) o[n] = 0; if (!sup) done++; break; }
      case 'c': { char *o = sup ? NULL : args[ai++]; int w = width ? width : 1, n = 0; while (n < w && (c = sget(k)) >= 0) { if (o) o[n] = (char)c; n++; } if (n < w) return done ? done : -1; if (!sup) done++; break; }
      case '[': {
        const char *set = ++fmt; int n = 0, sn; if (*fmt == '^') fmt++; if (*fmt == ']') fmt++; while (*fmt && *fmt != ']') fmt++; sn = (int)(fmt - set);
        char *o = sup ? NULL : args[ai++]; int first = 1;
        while (!width || n < width) { c = sget(k); if (c < 0) { if (first) return done ? done : -1; break; } first = 0; if (!inSet(set, sn, c)) { sunget(k, c); break; } if (o) o[n] = (char)c; n++; }
        if (!n) return done; if (o) o[n] = 0; if (!sup) done++; break; }
      case 'd': case 'u': case 'i': {
        long v = 0; int neg = 0, any = 0, n = 0; c = sget(k); if (c == '-' || c == '+') { neg = c == '-'; c = sget(k); n++; }
        while (c >= 0 && isdigit(c) && (!width || n < width)) { v = v * 10 + (c - '0'); any = 1; n++; c = sget(k); } sunget(k, c);
        if (!any) return done; if (neg) v = -v; if (!sup) { if (lng) *(long *)args[ai] = v; else *(int *)args[ai] = (int)v; ai++; done++; } break; }
      case 'f': case 'g': case 'e': {
        char b[80]; int n = 0; double v; c = sget(k);
        if (c == '@') { do { b[n++] = (char)c; c = sget(k); } while (c >= 0 && c != '@'); b[n++] = '@'; b[n] = 0; __m_atod(b, &v); }
        else { long st = 0; while (c >= 0 && n < 70 && (isalnum(c) || c == '+' || c == '-' || c == '.')) { b[n++] = (char)c; c = sget(k); } sunget(k, c); b[n] = 0; int u = __m_atod(b, &v); for (st = n; st > u; st--) sunget(k, 'x'); if (!u) return done; }
        if (!sup) { if (lng) *(double *)args[ai] = v; else *(float *)args[ai] = (float)v; ai++; done++; } break; }
      default: abort();
    }
  }
  return done;
}
int __m_fscanf(VFILE *f, const char *fmt, void **args) { Src k = {f, NULL, 0}; return fmtIn(&k, fmt, args); }
int __m_sscanf(const char *s, const char *fmt, void **args) { Src k = {NULL, s, 0}; return fmtIn(&k, fmt, args); }
int __m_scanf(const char *fmt, void **args) { return __m_fscanf(stdin, fmt, args); }

/* ------------------------------------------------------------ less usual functions, for code that comes to use them */
#define WK __attribute__((weak))
double sqrt(double), log(double), exp(double), pow(double, double), fabs(double), floor(double), ceil(double), trunc(double), rint(double), round(double);
struct va { unsigned gp, fp; void **over, *save; };
void *memset(void *, int, size_t), *memmove(void *, const void *, size_t);
WK int vfprintf(VFILE *f, const char *fmt, struct va *ap) { return __m_fprintf(f, fmt, ap->over); }
WK int vprintf(const char *fmt, struct va *ap) { return __m_printf(fmt, ap->over); }
WK int vsprintf(char *b, const char *fmt, struct va *ap) { return __m_sprintf(b, fmt, ap->over); }
WK int vsnprintf(char *b, size_t c, const char *fmt, struct va *ap) { return __m_snprintf(b, c, fmt, ap->over); }
WK int vfscanf(VFILE *f, const char *fmt, struct va *ap) { return __m_fscanf(f, fmt, ap->over); }
WK int vsscanf(const char *s, const char *fmt, struct va *ap) { return __m_sscanf(s, fmt, ap->over); }
WK int __m_asprintf(char **o, const char *fmt, void **args) { int n = __m_snprintf(NULL, 0, fmt, args); *o = malloc(n + 1); return __m_snprintf(*o, n + 1, fmt, args); }
WK int vasprintf(char **o, const char *fmt, struct va *ap) { return __m_asprintf(o, fmt, ap->over); }
WK double fmod(double a, double b) { return a - b * trunc(a / b); }
WK double frexp(double x, int *e) { *e = 0; if (x == 0 || x != x) return x; while (fabs(x) >= 1) { x /= 2; ++*e; } while (fabs(x) < .5) { x *= 2; --*e; } return x; }
WK double ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
WK double modf(double x, double *ip) { *ip = trunc(x); return x - *ip; }
WK double nearbyint(double x) { return rint(x); }
WK long lround(double x) { return (long)(x < 0 ? -floor(-x + 0.5) : floor(x + 0.5)); }
WK long long llround(double x) { return lround(x); }
WK long lrint(double x) { return (long)rint(x); }
WK long long llrint(double x) { return (long)rint(x); }
WK double hypot(double a, double b) { return sqrt(a * a + b * b); }
WK double cbrt(double x) { return x < 0 ? -pow(-x, 1. / 3) : x == 0 ? 0 : pow(x, 1. / 3); }
WK double copysign(double a, double b) { return b < 0 ? -fabs(a) : fabs(a); }
WK double exp2(double x) { return pow(2, x); }
WK double log1p(double x) { return log(1 + x); }
WK double expm1(double x) { return exp(x) - 1; }
WK double fma(double a, double b, double c) { return a * b + c; }
WK double fdim(double a, double b) { return a > b ? a - b : 0; }
WK float fabsf(float x) { return (float)fabs(x); }
WK float sqrtf(float x) { return (float)sqrt(x); }
WK float floorf(float x) { return (float)floor(x); }
WK float ceilf(float x) { return (float)ceil(x); }
WK long long llabs(long long x) { return x < 0 ? -x : x; }
WK long long atoll(const char *s) { return strtol(s, NULL, 10); }
WK unsigned long long strtoull(const char *s, char **e, int b) { return strtol(s, e, b); }
WK float strtof(const char *s, char **e) { return (float)strtod(s, e); }
WK size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
WK void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
WK void *memccpy(void *d, const void *s, int c, size_t n) { char *o = d; const char *p = s; for (size_t i = 0; i < n; i++) if ((o[i] = p[i]) == (char)c) return o + i + 1; return NULL; }
WK void *memrchr(const void *s, int c, size_t n) { const char *p = s; while (n--) if (p[n] == (char)c) return (void *)(p + n); return NULL; }
WK void bzero(void *d, size_t n) { memset(d, 0, n); }
WK void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
WK void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
WK char *index(const char *s, int c) { return strchr(s, c); }
WK char *rindex(const char *s, int c) { return strrchr(s, c); }
WK char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
WK char *strsep(char **sp, const char *set) { char *s = *sp; if (!s) return NULL; size_t n = strcspn(s, set); if (s[n]) { s[n] = 0; *sp = s + n + 1; } else *sp = NULL; return s; }
WK int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && tolower(*a) == tolower(*b)) { a++; b++; n--; } return n ? tolower(*a) - tolower(*b) : 0; }
WK int strcoll(const char *a, const char *b) { return strcmp(a, b); }
WK int isupper(int c) { return c >= 'A' && c <= 'Z'; }
WK int islower(int c) { return c >= 'a' && c <= 'z'; }
WK int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
WK int isgraph(int c) { return isprint(c) && c != ' '; }
WK int isblank(int c) { return c == ' ' || c == '\t'; }
WK void *reallocarray(void *p, size_t n, size_t s) { return realloc(p, n * s); }
WK void *aligned_alloc(size_t a, size_t n) { return malloc(n); }
WK int posix_memalign(void **p, size_t a, size_t n) { *p = malloc(n); return 0; }
typedef struct { int quot, rem; } div_t_; typedef struct { long quot, rem; } ldiv_t_;
WK div_t_ div(int a, int b) { div_t_ r = {a / b, a % b}; return r; }
WK ldiv_t_ ldiv(long a, long b) { ldiv_t_ r = {a / b, a % b}; return r; }
WK char *getenv(const char *n) { return NULL; }
WK long time(long *t) { if (t) *t = 1; return 1; }
WK long clock(void) { return 0; }
WK int fileno(VFILE *f) { return 3; }
WK void clearerr(VFILE *f) { f->eof = 0; f->err = 0; }
WK int fputs_unlocked(const char *s, VFILE *f) { int fputs(const char *, VFILE *); return fputs(s, f); }
WK void *lfind(const void *k, const void *b, size_t *n, size_t s, int (*cmp)(const void *, const void *)) { for (size_t i = 0; i < *n; i++) if (!cmp(k, (const char *)b + i * s)) return (char *)b + i * s; return NULL; }
WK void *lsearch(const void *k, void *b, size_t *n, size_t s, int (*cmp)(const void *, const void *)) { void *r = lfind(k, b, n, s, cmp); if (r) return r; memcpy((char *)b + *n * s, k, s); return (char *)b + (*n)++ * s; }
