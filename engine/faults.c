/* Fault injection for the native replay: fopen and malloc of the program are replaced (-Wl,--wrap) by versions whose
   operations fail where VP_FAULTS says:  lines "kind name count once errno", as in the symbolic executor. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>

static struct fault { char kind[16], name[256]; long at, n; int once, err; } F[16];
static int nf;
struct strm { int fd; char name[256]; long pos; };
FILE *__real_fopen(const char *, const char *);
void *__real_malloc(size_t);
int __real_fclose(FILE *), __real_fputc(int, FILE *), __real_ferror(FILE *), __real_fflush(FILE *);
void __real_clearerr(FILE *);

static int faulty(const char *kind, const char *name, long at) {
  for (int i = 0; i < nf; i++) if (!strcmp(F[i].kind, kind) && (!strcmp(F[i].name, name) || !strcmp(F[i].name, "*"))) {
    long n = at >= 0 ? at : F[i].n++;
    if (F[i].once ? n == F[i].at : n >= F[i].at) return F[i].err;
  }
  return 0;
}
static ssize_t c_read(void *c, char *b, size_t n) {
  struct strm *s = c; if (!n) return 0;
  long here = lseek(s->fd, 0, SEEK_CUR); char t; ssize_t r = read(s->fd, &t, 1);
  if (r == 1) { int e = faulty("read", s->name, here); if (e) { lseek(s->fd, here, SEEK_SET); errno = e; return -1; } *b = t; }
  return r;
}
static int c_seek(void *c, off64_t *o, int w) { struct strm *s = c; off_t r = lseek(s->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { struct strm *s = c; close(s->fd); free(s); return 0; }

/* the streams of the program: their names, and whether a write to them failed */
static struct { FILE *f; char name[256]; int err; } T[64];
static int slot(FILE *f) { for (int i = 0; i < 64; i++) if (T[i].f == f) return i; return -1; }
static int known(FILE *f, const char *name) { int i = slot(f); if (i < 0) i = slot(NULL); T[i].f = f; T[i].err = 0; strncpy(T[i].name, name, 255); return i; }
static int of(FILE *f) { int i = slot(f); return i >= 0 ? i : known(f, f == stdout ? "<stdout>" : f == stderr ? "<stderr>" : "?"); }
FILE *__wrap_fopen(const char *name, const char *mode) {
  char k[300]; snprintf(k, sizeof k, "%c%s", mode[0], name);
  int e = faulty("open", k, -1); if (e) { errno = e; return NULL; }
  FILE *r;
  if (mode[0] == 'r') {
    int fd = open(name, O_RDONLY); if (fd < 0) return NULL;
    struct strm *s = calloc(1, sizeof *s); s->fd = fd; strncpy(s->name, name, 255);
    cookie_io_functions_t f = { c_read, NULL, c_seek, c_close };
    r = fopencookie(s, mode, f); setvbuf(r, NULL, _IONBF, 0);
  } else r = __real_fopen(name, mode);
  if (r) known(r, name);
  return r;
}
int __wrap_fclose(FILE *f) {
  int i = slot(f), e = i >= 0 ? faulty("close", T[i].name, -1) : 0;
  if (i >= 0) T[i].f = NULL;
  int r = __real_fclose(f);
  if (e) { errno = e; return EOF; }
  return r;
}
/* writing: character by character; one that fails is lost and marks the stream */
int __wrap_fputc(int c, FILE *f) {
  int i = of(f), e = faulty("write", T[i].name, -1);
  if (e) { T[i].err = 1; errno = e; return EOF; }
  return __real_fputc(c, f);
}
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
int __wrap_fputs(const char *s, FILE *f) { for (; *s; s++) __wrap_fputc((unsigned char)*s, f); return T[of(f)].err ? EOF : 1; }
int __wrap_puts(const char *s) { __wrap_fputs(s, stdout); return __wrap_fputc('\n', stdout) < 0 ? EOF : 1; }
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) { const unsigned char *b = p; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sz; j++) if (__wrap_fputc(b[i * sz + j], f) < 0) return i; return n; }
int __wrap_vfprintf(FILE *f, const char *m, va_list a) { char *b; int n = vasprintf(&b, m, a); for (int i = 0; i < n; i++) __wrap_fputc((unsigned char)b[i], f); free(b); return T[of(f)].err ? -1 : n; }
int __wrap_fprintf(FILE *f, const char *m, ...) { va_list a; va_start(a, m); int r = __wrap_vfprintf(f, m, a); va_end(a); return r; }
int __wrap_printf(const char *m, ...) { va_list a; va_start(a, m); int r = __wrap_vfprintf(stdout, m, a); va_end(a); return r; }
int __wrap_vprintf(const char *m, va_list a) { return __wrap_vfprintf(stdout, m, a); }
int __wrap_ferror(FILE *f) { int i = slot(f); return i >= 0 && T[i].err ? 1 : __real_ferror(f); }
void __wrap_clearerr(FILE *f) { int i = slot(f); if (i >= 0) T[i].err = 0; __real_clearerr(f); }
int __wrap_fflush(FILE *f) { int r = __real_fflush(f), i = f ? slot(f) : -1; return i >= 0 && T[i].err ? EOF : r; }
void *__wrap_malloc(size_t n) { if (faulty("malloc", "", -1)) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
__attribute__((constructor)) static void setup(void) {
  const char *s = getenv("VP_FAULTS");
  while (s && *s && nf < 16) {
    struct fault *q = &F[nf]; if (sscanf(s, "%15s %255s %ld %d %d", q->kind, q->name, &q->at, &q->once, &q->err) == 5) nf++;
    s = strchr(s, '\n'); if (s) s++;
  }
}
