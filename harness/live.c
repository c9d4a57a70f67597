/* LD_PRELOAD library: counts the bytes and blocks a program holds and its open descriptors.  One record
   (3 longs) is written to descriptor LIVE_LOG every time the program opens a file whose name contains LIVE_MARK. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static long bytes, blocks;
static int logfd = -1;
static const char *mark;

static void record(void)
{
  long r[3] = {bytes, blocks, 0};
  int i, e = errno;
  for (i = 0; i < 256; i++)
    r[2] += fcntl(i, F_GETFD) != -1;
  (void)!write(logfd, r, sizeof r);
  errno = e;
}

__attribute__((constructor)) static void init(void)
{
  char *e = getenv("LIVE_LOG");
  mark = getenv("LIVE_MARK");
  if (e) logfd = atoi(e);
}

__attribute__((destructor)) static void fini(void) { if (logfd >= 0) record(); }

static void *got(void *p) { if (p) { bytes += malloc_usable_size(p); blocks++; } return p; }
static void lost(void *p) { if (p) { bytes -= malloc_usable_size(p); blocks--; } }

void *malloc(size_t s) { return got(__libc_malloc(s)); }
void *calloc(size_t a, size_t s) { return got(__libc_calloc(a, s)); }
void free(void *p) { lost(p); __libc_free(p); }
void *realloc(void *p, size_t s)
{
  size_t u = p ? malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, s);
  if (q) { bytes += malloc_usable_size(q) - u; blocks += !p; }
  else if (p && !s) { bytes -= u; blocks--; }
  return q;
}

static FILE *opened(const char *sym, const char *f, const char *m)
{
  FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, sym);
  if (logfd >= 0 && mark && strstr(f, mark)) record();
  return real(f, m);
}
FILE *fopen(const char *f, const char *m) { return opened("fopen", f, m); }
FILE *fopen64(const char *f, const char *m) { return opened("fopen64", f, m); }
