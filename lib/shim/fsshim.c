/* LD_PRELOAD: log every call that changes the directory, and fail one of them on demand.
   FSLOG: file to append to; FSFAIL=k: the k-th call that would destroy or move something fails;
   FSKILL=k: the process ends just before the k-th such call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static int count = 0;
static int logfd = -1;

static int want(const char *v) { const char *s = getenv(v); return s ? atoi(s) : 0; }

static void put(const char *op, const char *a, const char *b, int ok) {
  const char *p = getenv("FSLOG");
  char line[3000];
  int n;
  if (!p) return;
  if (logfd < 0) logfd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CREAT, 0644);
  n = snprintf(line, sizeof line, "%s\t%s\t%s\t%d\n", op, a, b, ok);
  if (logfd >= 0 && n > 0) { ssize_t r = syscall(SYS_write, logfd, line, n); (void)r; }
}

/* 1: this call has to fail */
static int gate(const char *op, const char *a, const char *b) {
  count++;
  if (count == want("FSKILL")) _exit(0);
  if (count == want("FSFAIL")) { put(op, a, b, 0); return 1; }
  return 0;
}

static int writing(const char *m) { return m && (m[0] == 'w' || m[0] == 'a' || strchr(m, '+')); }

#define FOPEN(NAME) \
FILE *NAME(const char *f, const char *m) { \
  static FILE *(*real)(const char *, const char *); \
  FILE *r; \
  if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, #NAME); \
  if (!writing(m)) return real(f, m); \
  if (gate(m[0] == 'w' ? "write" : "append", f, "")) { errno = EACCES; return NULL; } \
  r = real(f, m); \
  put(m[0] == 'w' ? "write" : "append", f, "", r != NULL); \
  return r; \
}
FOPEN(fopen)
FOPEN(fopen64)

int rename(const char *a, const char *b) {
  static int (*real)(const char *, const char *);
  int r;
  if (!real) real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
  if (gate("rename", a, b)) { errno = EACCES; return -1; }
  r = real(a, b);
  put("rename", a, b, r == 0);
  return r;
}

#define REMOVE(NAME) \
int NAME(const char *a) { \
  static int (*real)(const char *); \
  int r; \
  if (!real) real = (int (*)(const char *))dlsym(RTLD_NEXT, #NAME); \
  if (gate("remove", a, "")) { errno = EACCES; return -1; } \
  r = real(a); \
  put("remove", a, "", r == 0); \
  return r; \
}
REMOVE(remove)
REMOVE(unlink)

#define OPEN(NAME) \
int NAME(const char *f, int fl, ...) { \
  static int (*real)(const char *, int, ...); \
  mode_t md = 0; \
  int r; \
  va_list ap; \
  va_start(ap, fl); \
  if (fl & O_CREAT) md = va_arg(ap, mode_t); \
  va_end(ap); \
  if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #NAME); \
  if (!(fl & (O_TRUNC | O_CREAT))) return real(f, fl, md); \
  if (gate("write", f, "")) { errno = EACCES; return -1; } \
  r = real(f, fl, md); \
  put("write", f, "", r >= 0); \
  return r; \
}
OPEN(open)
OPEN(open64)
