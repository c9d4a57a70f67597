/* LD_PRELOAD library: the OOM_AT-th memory allocation of the program (and, with OOM_ALL=1, every later one) fails.
   With OOM_LOG=<fd> every allocation's call stack (the program's own frames, position independent) is written as 8 bytes. */
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long n, at = -1;
static int all, armed, logfd = -1, inside, used;
static uintptr_t lo, hi;
static uint64_t buf[4096];

static int first(struct dl_phdr_info *i, size_t s, void *d)
{
  int k;
  for (k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t e = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
      if (!lo) lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      if (e > hi) hi = e;
    }
  return 1;
}

static void flush(void)
{
  if (used) (void)!write(logfd, buf, used * sizeof buf[0]);
  used = 0;
}

__attribute__((constructor)) static void init(void)
{
  char *e = getenv("OOM_AT");
  void *f[4];
  if (e) at = atol(e);
  e = getenv("OOM_ALL");
  all = e && *e == '1';
  e = getenv("OOM_LOG");
  if (e) {
    logfd = atoi(e);
    dl_iterate_phdr(first, NULL);
    backtrace(f, 4);            /* loads what it needs */
    atexit(flush);
  }
  armed = 1;
}

static int fail(void)
{
  if (!armed || inside) return 0;
  n++;
  if (logfd >= 0) {
    void *f[64];
    int i, k;
    uint64_t h = 1469598103934665603u;
    inside = 1;
    k = backtrace(f, 64);
    for (i = 0; i < k; i++)
      if ((uintptr_t)f[i] >= lo && (uintptr_t)f[i] < hi)
        h = (h ^ ((uintptr_t)f[i] - lo)) * 1099511628211u;
    buf[used++] = h;
    if (used == 4096) flush();
    inside = 0;
  }
  if (at > 0 && (n == at || (all && n > at))) {
    errno = ENOMEM;
    return 1;
  }
  return 0;
}

void *malloc(size_t s) { return fail() ? NULL : __libc_malloc(s); }
void *calloc(size_t a, size_t s) { return fail() ? NULL : __libc_calloc(a, s); }
void *realloc(void *p, size_t s) { return fail() ? NULL : __libc_realloc(p, s); }
