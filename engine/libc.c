/* Mini C library linked (as LLVM bitcode) with the program under analysis, so that string,
   formatting and stream code is executed symbolically like everything else.  Only __sx_* calls
   leave the interpreter.  Integer formatting only (no floating point). */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#define W __attribute__((weak))
typedef struct SXFILE { int fd, eof, err, unget, used; } FILE;
extern int __sx_open(const char *name, int mode, int plus);
extern int __sx_getc(int fd);
extern int __sx_putc(int fd, int c);
extern int __sx_close(int fd);
extern long __sx_seek(int fd, long off, int whence);
extern int __sx_trunc(int fd);
extern int __sx_remove(const char *name);
extern int __sx_rename(const char *a, const char *b);
extern void __sx_exit(int);
extern void __sx_abort(const char *);
extern void *__sx_malloc(size_t n);
extern void *__sx_alloc(size_t n);   /* never fails */
extern void __sx_free(void *);
extern size_t __sx_size(void *);
extern void __sx_copy(void *d, const void *s, size_t n);
extern void __sx_fill(void *d, int c, size_t n);

static int sx_errno;
W int *__errno_location(void) { return &sx_errno; }
static FILE sx_in = {0,0,0,-1,1}, sx_out = {1,0,0,-1,1}, sx_err = {2,0,0,-1,1};
W FILE *stdin = &sx_in; W FILE *stdout = &sx_out; W FILE *stderr = &sx_err;

/* ---- string.h */
W void *memcpy(void *d, const void *s, size_t n) { __sx_copy(d, s, n); return d; }
W void *memmove(void *d, const void *s, size_t n) { __sx_copy(d, s, n); return d; }
W void *mempcpy(void *d, const void *s, size_t n) { __sx_copy(d, s, n); return (char *)d + n; }
W void *memset(void *d, int c, size_t n) { __sx_fill(d, c, n); return d; }
W void bzero(void *d, size_t n) { __sx_fill(d, 0, n); }
W void bcopy(const void *s, void *d, size_t n) { __sx_copy(d, s, n); }
W int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p < *q ? -1 : 1; return 0; }
W void *memchr(const void *a, int c, size_t n) { const unsigned char *p = a; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
W void *memrchr(const void *a, int c, size_t n) { const unsigned char *p = a; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
W size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
W size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
W char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
W char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
W char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
W int strcmp(const char *a, const char *b) { while (*a == *b) { if (!*a) return 0; a++; b++; } return (unsigned char)*a < (unsigned char)*b ? -1 : 1; }
W int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
W int strcoll(const char *a, const char *b) { return strcmp(a, b); }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strchrnul(const char *s, int c) { for (;; s++) if (!*s || *s == (char)c) return (char *)s; }
W char *index(const char *s, int c) { return strchr(s, c); }
W char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
W char *rindex(const char *s, int c) { return strrchr(s, c); }
W size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
W size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
W char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
W char *strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return 0; } }
W char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
W char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
W char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
W char *strerror(int e) { (void)e; return e == 2 ? "No such file or directory" : e == 13 ? "Permission denied" : e == 28 ? "No space left on device" : "Input/output error"; }

/* ---- ctype.h (branch free) */
W int isdigit(int c) { return (unsigned)c - '0' < 10u; }
W int isupper(int c) { return (unsigned)c - 'A' < 26u; }
W int islower(int c) { return (unsigned)c - 'a' < 26u; }
W int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
W int isalnum(int c) { return (((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
W int isxdigit(int c) { return (((unsigned)c | 32u) - 'a' < 6u) | ((unsigned)c - '0' < 10u); }
W int isspace(int c) { return (c == 32) | ((unsigned)c - 9 < 5u); }
W int isblank(int c) { return (c == 32) | (c == 9); }
W int isprint(int c) { return (unsigned)c - 32 < 95u; }
W int isgraph(int c) { return (unsigned)c - 33 < 94u; }
W int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
W int ispunct(int c) { return ((unsigned)c - 33 < 94u) & !((((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u)); }
W int isascii(int c) { return ((unsigned)c & ~127u) == 0; }
W int toascii(int c) { return c & 127; }
W int toupper(int c) { return c - (int)(((unsigned)c - 'a' < 26u) << 5); }
W int tolower(int c) { return c + (int)(((unsigned)c - 'A' < 26u) << 5); }
W int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
W int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }

/* ---- stdlib.h */
W void *malloc(size_t n) { return __sx_malloc(n); }
W void *calloc(size_t a, size_t b) { void *p = __sx_malloc(a * b); if (p) __sx_fill(p, 0, a * b); return p; }
W void free(void *p) { if (p) __sx_free(p); }
W void *realloc(void *p, size_t n) { if (!p) return __sx_malloc(n); void *q = __sx_malloc(n); if (!q) return 0; size_t o = __sx_size(p); __sx_copy(q, p, o < n ? o : n); __sx_free(p); return q; }
W char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) __sx_copy(p, s, n); return p; }
W char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { __sx_copy(p, s, n); p[n] = 0; } return p; }
static void (*sx_atexit[32])(void); static int sx_natexit;
W int atexit(void (*f)(void)) { if (sx_natexit >= 32) return -1; sx_atexit[sx_natexit++] = f; return 0; }
W void exit(int c) { while (sx_natexit > 0) sx_atexit[--sx_natexit](); __sx_exit(c); }
W void _exit(int c) { __sx_exit(c); }
W void _Exit(int c) { __sx_exit(c); }
W void abort(void) { __sx_abort("abort() called"); }
W void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; __sx_abort(a); }
W char *getenv(const char *n) { (void)n; return 0; }
W int abs(int x) { return x < 0 ? -x : x; }
W long labs(long x) { return x < 0 ? -x : x; }
W long long llabs(long long x) { return x < 0 ? -x : x; }
static int sx_dig(int c) { if ((unsigned)c - '0' < 10u) return c - '0'; c |= 32; if ((unsigned)c - 'a' < 26u) return c - 'a' + 10; return 99; }
W unsigned long strtoul(const char *s, char **e, int b) {
  const char *p = s; int neg = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((b == 0 || b == 16) && p[0] == '0' && (p[1] | 32) == 'x' && sx_dig(p[2]) < 16) { p += 2; b = 16; }
  else if (b == 0) b = p[0] == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ovf = 0; int d;
  while ((d = sx_dig((unsigned char)*p)) < b) { if (v > (~0ul - d) / b) ovf = 1; v = v * b + d; any = 1; p++; }
  if (e) *e = (char *)(any ? p : s);
  if (ovf) { sx_errno = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
W long strtol(const char *s, char **e, int b) {
  const char *p = s; int neg = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-') neg = 1;
  unsigned long v; char *q; const char *st = p + (*p == '-' || *p == '+');
  if (*st == '-' || *st == '+' || isspace((unsigned char)*st)) { if (e) *e = (char *)s; return 0; }
  v = strtoul(st, &q, b);
  if (e) *e = q == st ? (char *)s : q;
  if (neg) { if (v > 1ul << 63) { sx_errno = 34; return (long)(1ul << 63); } return (long)(0 - v); }
  if (v > ~(1ul << 63)) { sx_errno = 34; return (long)~(1ul << 63); }
  return (long)v;
}
W long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
W long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
W long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
W int atoi(const char *s) { return (int)strtol(s, 0, 10); }
W long atol(const char *s) { return strtol(s, 0, 10); }
W void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base; char *t = malloc(sz);
  for (size_t i = 1; i < n; i++) { size_t j = i; __sx_copy(t, b + i * sz, sz);
    while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { __sx_copy(b + j * sz, b + (j - 1) * sz, sz); j--; }
    __sx_copy(b + j * sz, t, sz); }
  free(t);
}
W void *bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int r = cmp(k, p); if (!r) return (void *)p; if (r < 0) hi = m; else lo = m + 1; } return 0; }

/* ---- formatting */
typedef struct { char *buf; size_t cap, n; FILE *f; } SXO;
W int fputc(int c, FILE *f);
static void sx_emit(SXO *o, int c) { if (o->f) fputc(c, o->f); else if (o->buf && o->n + 1 < o->cap) o->buf[o->n] = (char)c; o->n++; }
static const unsigned long sx_p10[20] = {1ul,10ul,100ul,1000ul,10000ul,100000ul,1000000ul,10000000ul,100000000ul,1000000000ul,10000000000ul,100000000000ul,1000000000000ul,10000000000000ul,100000000000000ul,1000000000000000ul,10000000000000000ul,100000000000000000ul,1000000000000000000ul,10000000000000000000ul};
static int sx_vfmt(SXO *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { sx_emit(o, *f); continue; }
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (f++;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') lng++; else if (*f == 'h') lng--; else break; }
    char nb[32]; const char *s = nb; int n = 0, i; char sign = 0; const char *pre = "";
    switch (*f) {
    case '%': sx_emit(o, '%'); continue;
    case 'c': nb[0] = (char)va_arg(ap, int); n = 1; zero = 0; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; if (prec >= 0) n = (int)strnlen(s, prec); else n = (int)strlen(s); zero = 0; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; int isneg = 0;
      if (*f == 'd' || *f == 'i') {
        long sv = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
        if (lng == -1) sv = (short)sv; if (lng == -2) sv = (signed char)sv;
        if (sv < 0) { isneg = 1; v = 0ul - (unsigned long)sv; } else v = (unsigned long)sv;
        if (isneg) sign = '-'; else if (plus) sign = '+'; else if (space) sign = ' ';
      } else if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); pre = "0x"; }
      else { v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; }
      if (*f == 'd' || *f == 'i' || *f == 'u') {
        n = 1; while (n < 20 && v >= sx_p10[n]) n++;
        for (i = 0; i < n; i++) nb[i] = (char)('0' + v / sx_p10[n - 1 - i] % 10);
      } else {
        int sh = *f == 'o' ? 3 : 4; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        n = 1; while (n * sh < 64 && (v >> (n * sh))) n++;
        for (i = 0; i < n; i++) nb[i] = dg[(v >> ((n - 1 - i) * sh)) & (sh == 3 ? 7 : 15)];
        if (alt && sh == 4 && v) pre = *f == 'X' ? "0X" : "0x";
      }
      if (prec == 0 && v == 0) n = 0;
      if (prec >= 0) zero = 0;
      break; }
    default: __sx_abort("unsupported printf conversion"); }
    int np = 0; if (s == nb && *f != 'c' && prec > n) np = prec - n;
    int pl = (int)strlen(pre), tot = n + np + (sign != 0) + pl, pad = width > tot ? width - tot : 0;
    if (!left && !zero) for (i = 0; i < pad; i++) sx_emit(o, ' ');
    if (sign) sx_emit(o, sign);
    for (i = 0; i < pl; i++) sx_emit(o, pre[i]);
    if (!left && zero) for (i = 0; i < pad; i++) sx_emit(o, '0');
    for (i = 0; i < np; i++) sx_emit(o, '0');
    for (i = 0; i < n; i++) sx_emit(o, s[i]);
    if (left) for (i = 0; i < pad; i++) sx_emit(o, ' ');
  }
  return (int)o->n;
}
W int vsnprintf(char *b, size_t n, const char *f, va_list ap) { SXO o = {b, n, 0, 0}; sx_vfmt(&o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return (int)o.n; }
W int vsprintf(char *b, const char *f, va_list ap) { SXO o = {b, (size_t)1 << 40, 0, 0}; sx_vfmt(&o, f, ap); b[o.n] = 0; return (int)o.n; }
W int vfprintf(FILE *s, const char *f, va_list ap) { SXO o = {0, 0, 0, s}; int r = sx_vfmt(&o, f, ap); return s->err ? -1 : r; }
W int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
W int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
W int fprintf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(s, f, ap); va_end(ap); return r; }
W int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
W int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }

/* ---- stdio.h streams */
W FILE *fopen(const char *name, const char *mode) {
  int plus = 0; for (const char *m = mode; *m; m++) if (*m == '+') plus = 1;
  int fd = __sx_open(name, mode[0], plus); if (fd < 0) { sx_errno = -fd; return 0; }
  FILE *f = __sx_alloc(sizeof(FILE)); f->fd = fd; f->eof = f->err = 0; f->unget = -1; f->used = 1; return f;
}
W int fclose(FILE *f) { int r = __sx_close(f->fd); int e = f->err; if (f != &sx_in && f != &sx_out && f != &sx_err) free(f); if (r < 0) { sx_errno = -r; return -1; } (void)e; return 0; }
W FILE *freopen(const char *n, const char *m, FILE *f) { int plus = 0; for (const char *p = m; *p; p++) if (*p == '+') plus = 1; __sx_close(f->fd); int fd = __sx_open(n, m[0], plus); if (fd < 0) { sx_errno = -fd; return 0; } f->fd = fd; f->eof = f->err = 0; f->unget = -1; return f; }
W int fgetc(FILE *f) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->eof) return -1; int c = __sx_getc(f->fd); if (c == -1) f->eof = 1; if (c == -2) { f->err = 1; sx_errno = 5; return -1; } return c; }
W int getc(FILE *f) { return fgetc(f); }
W int _IO_getc(FILE *f) { return fgetc(f); }
W int getchar(void) { return fgetc(stdin); }
W int ungetc(int c, FILE *f) { if (c < 0) return -1; f->unget = c & 255; f->eof = 0; return c & 255; }
W char *fgets(char *b, int n, FILE *f) {
  int i = 0; if (n <= 0) return 0;
  while (i < n - 1) { int c = fgetc(f); if (c == -1) { if (i == 0 || f->err) return 0; break; } b[i++] = (char)c; if (c == '\n') break; }
  b[i] = 0; return b;
}
W long getline(char **lp, size_t *n, FILE *f) {
  size_t i = 0; if (!*lp) { *n = 128; *lp = malloc(*n); }
  for (;;) { int c = fgetc(f); if (c == -1) { if (!i) return -1; break; } if (i + 2 > *n) { *n *= 2; *lp = realloc(*lp, *n); } (*lp)[i++] = (char)c; if (c == '\n') break; }
  (*lp)[i] = 0; return (long)i;
}
W int fputc(int c, FILE *f) { int r = __sx_putc(f->fd, c); if (r < 0) { f->err = 1; sx_errno = -r; return -1; } return c & 255; }
W int putc(int c, FILE *f) { return fputc(c, f); }
W int _IO_putc(int c, FILE *f) { return fputc(c, f); }
W int putchar(int c) { return fputc(c, stdout); }
W int fputs(const char *s, FILE *f) { for (; *s; s++) fputc(*s, f); return f->err ? -1 : 1; }
W int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout) < 0 ? -1 : 1; }
W size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { const unsigned char *b = p; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sz; j++) if (fputc(b[i * sz + j], f) < 0) return i; return n; }
W size_t fread(void *p, size_t sz, size_t n, FILE *f) { unsigned char *b = p; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sz; j++) { int c = fgetc(f); if (c == -1) return i; b[i * sz + j] = (unsigned char)c; } return n; }
W int feof(FILE *f) { return f->eof; }
W int ferror(FILE *f) { return f->err; }
W void clearerr(FILE *f) { f->eof = f->err = 0; }
W int fflush(FILE *f) { return f && f->err ? -1 : 0; }
W int fseek(FILE *f, long o, int w) { f->eof = 0; f->unget = -1; return __sx_seek(f->fd, o, w) < 0 ? -1 : 0; }
W long ftell(FILE *f) { return __sx_seek(f->fd, 0, 1); }
W void rewind(FILE *f) { f->eof = f->err = 0; f->unget = -1; __sx_seek(f->fd, 0, 0); }
W int fileno(FILE *f) { return f->fd; }
W int setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
W void setbuf(FILE *f, char *b) { (void)f; (void)b; }
W int remove(const char *n) { int r = __sx_remove(n); if (r < 0) { sx_errno = -r; return -1; } return 0; }
W int unlink(const char *n) { return remove(n); }
W int rename(const char *a, const char *b) { int r = __sx_rename(a, b); if (r < 0) { sx_errno = -r; return -1; } return 0; }
W void perror(const char *s) { if (s && *s) { fputs(s, stderr); fputs(": ", stderr); } fputs(strerror(sx_errno), stderr); fputc('\n', stderr); }
