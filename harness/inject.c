/* Explores signal delivery points of the real pomdp-solve.
 *
 * The sources are built with -fsanitize-coverage=trace-pc, so every basic block
 * that is executed calls __sanitizer_cov_trace_pc(); a step is one such call after
 * the program has installed its handler for the signal.  One recording run
 * numbers the steps and finds, for every distinct (basic block, interval between
 * two file openings), its first and its last step; then one run per chosen step
 * is forked, the signal is raised at exactly that step, and the run continues to
 * its end in a directory of its own.  Runs are grouped by everything observable:
 * status, files, solution contents, normalised report.
 *
 * inject SIG MODE SLICE NSLICES OUTDIR -- arguments of pomdp-solve (with -o o)
 * SIG may be S+T: S is raised at the chosen step, T is the second signal (default: S again).
 * MODE: none    one run without a signal
 *       class   first and last step of every (block, interval)
 *       all     every step
 *       stride:N  every N-th step
 *       next    like class, with a second signal at the following step
 *       late:K  like class, with a second signal K steps later
 * The signal is also delivered right after each call the program makes to
 * install a handler or start the timer (ids below 0; the lowest id is the run without a signal).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

#define main ps_main
#include "main.c"
#undef main

#define NOCOV __attribute__((no_sanitize_coverage, noinline))

typedef struct { long steps, armed, epochs, phase, calls, fired, after; } Shared;
static Shared *sh;
static int SIG, SIG2, have, counting, recording, fired_twice;
static long target = -1, target2 = -1, calltarget = -1;

/* (pc, phase) -> first, last */
typedef struct { unsigned long pc; long phase, first, last; } Ent;
static Ent *tab; static long tabn;
#define TABSZ (1L << 22)
static long *sel; static long *nsel;

static NOCOV void list_epochs(void) {
  char n[64]; long k = 1;
  for (;; k++) { snprintf(n, sizeof n, "o.alpha%ld", k); if (access(n, F_OK)) break; }
  sh->epochs = k - 1;
}

static NOCOV void deliver(void) {
  counting = 0;
  if (!sh->fired) list_epochs();
  raise(sh->fired++ ? SIG2 : SIG);
}

static NOCOV void record(unsigned long pc) {
  unsigned long h = (pc * 11400714819323198485UL) ^ ((unsigned long)sh->phase * 0x9E3779B97F4A7C15UL);
  long i = (h >> 20) & (TABSZ - 1);
  while (tab[i].pc && (tab[i].pc != pc || tab[i].phase != sh->phase)) i = (i + 1) & (TABSZ - 1);
  if (!tab[i].pc) { tab[i].pc = pc; tab[i].phase = sh->phase; tab[i].first = sh->steps; tabn++; if (tabn > TABSZ / 2) _exit(99); }
  tab[i].last = sh->steps;
}

NOCOV void __sanitizer_cov_trace_pc(void) {
  if (!counting) { if (sh && sh->fired) sh->after++; return; }
  sh->steps++;
  if (recording) { record((unsigned long)__builtin_return_address(0)); return; }
  if (sh->steps == target) {
    deliver();
    if (target2 > target) counting = 1;
  } else if (sh->steps == target2) deliver();
}

static NOCOV void called(void) {
  sh->calls++;
  if (!recording && calltarget == sh->calls && sh->armed) deliver();
}

NOCOV int __wrap_getpid(void) { return 4242; }
/* phases: every opening of a file */
FILE *__real_fopen(const char *, const char *);
NOCOV FILE *__wrap_fopen(const char *p, const char *m) { if (sh) sh->phase++; return __real_fopen(p, m); }


typedef void (*H)(int);
H __real_signal(int, H);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
static NOCOV void arm(int s, int real) {
  if (!real) return;
  if (s == SIG) have |= 1;
  if (s == SIG2) have |= 2;
  if (have == 3 && (s == SIG || s == SIG2)) { if (!sh->armed) { sh->armed = 1; counting = 1; } called(); }
}
NOCOV H __wrap_signal(int s, H h) { H r = __real_signal(s, h); arm(s, h != SIG_DFL && h != SIG_IGN); return r; }
NOCOV int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  int r = __real_sigaction(s, a, o); if (a) arm(s, a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN); return r; }

/* ------------------------------------------------------------------ parent */
static NOCOV void empty(const char *d) {
  DIR *D = opendir(d); struct dirent *e; char p[4096];
  if (!D) return;
  while ((e = readdir(D))) { if (e->d_name[0] == '.' && (!e->d_name[1] || (e->d_name[1] == '.' && !e->d_name[2]))) continue;
    snprintf(p, sizeof p, "%s/%s", d, e->d_name); unlink(p); }
  closedir(D);
}
typedef unsigned long U;
static NOCOV U mix(U h, int c) { return (h ^ (U)(c & 255)) * 1099511628211UL; }
static NOCOV U hashfile(const char *p, int norm) {
  U h = 14695981039346656037UL; FILE *f = __real_fopen(p, "r"); static char b[1 << 20]; size_t n, i;
  if (!f) return 0;
  n = fread(b, 1, sizeof b, f); fclose(f);
  for (i = 0; i < n; i++) {
    if (norm && b[i] >= '0' && b[i] <= '9') {          /* d.dd or d.ddd not followed by e: a time */
      size_t j = i, k; while (j < n && b[j] >= '0' && b[j] <= '9') j++;
      if (j < n && b[j] == '.') { k = j + 1; while (k < n && b[k] >= '0' && b[k] <= '9') k++;
        if ((k - j == 3 || k - j == 4) && (k >= n || b[k] != 'e')) { h = mix(h, 'T'); i = k - 1; continue; } }
      while (i < j) h = mix(h, b[i++]);
      i--; continue;
    }
    h = mix(h, b[i]);
  }
  return h | 1;
}
static NOCOV int namecmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static NOCOV U hashdir(const char *d) {
  DIR *D = opendir(d); struct dirent *e; char *n[4096]; int k = 0, i; U h = 14695981039346656037UL; char p[4096];
  while (D && (e = readdir(D)) && k < 4096) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n[k++] = strdup(e->d_name);
  if (D) closedir(D);
  qsort(n, k, sizeof *n, namecmp);
  for (i = 0; i < k; i++) {
    char *q; for (q = n[i]; *q; q++) if (*n[i] != '#' || *q < '0' || *q > '9') h = mix(h, *q);
    if (!strcmp(n[i], "stdout") || !strcmp(n[i], "stderr")) continue;
    snprintf(p, sizeof p, "%s/%s", d, n[i]);
    h ^= hashfile(p, 0) * (U)(2 * i + 3);
    free(n[i]);
  }
  return h;
}

static char **pargv; static int pargc;

static NOCOV int child(const char *dir) {
  pid_t p; int st, fd;
  memset(sh, 0, sizeof *sh);
  p = fork();
  if (p == 0) {
    if (chdir(dir)) _exit(98);
    fd = open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 1); close(fd);
    fd = open("stderr", O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 2); close(fd);
    fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
    alarm(20);
    exit(ps_main(pargc, pargv));
  }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  return st;
}

typedef struct { U key; long epochs, count, lo, hi, status, armed, fired, after; } Out;
static Out outs[4096]; static int nout;

static NOCOV int lcmp(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }

NOCOV int main(int argc, char **argv) {
  long slice, nsl, i, n = 0, total, second = 0, calls; const char *mode, *outdir; char work[4096], rep[4096];
  if (argc < 8) return 2;
  SIG = SIG2 = atoi(argv[1]); if (strchr(argv[1], '+')) SIG2 = atoi(strchr(argv[1], '+') + 1); mode = argv[2]; slice = atol(argv[3]); nsl = atol(argv[4]); outdir = argv[5];
  pargv = argv + 6; pargc = argc - 6; pargv[0] = "pomdp-solve";
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tab = mmap(0, TABSZ * sizeof *tab, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  snprintf(work, sizeof work, "%s/w%ld", outdir, slice); mkdir(work, 0777);
  recording = 1; child(work); recording = 0;
  total = sh->steps; calls = sh->calls;
  printf("total %ld armed %ld calls %ld phases %ld\n", total, sh->armed, calls, sh->phase);
  if (!strcmp(mode, "all") || !strncmp(mode, "stride:", 7)) {
    long st = mode[0] == 's' ? atol(mode + 7) : 1;
    sel = malloc(sizeof(long) * (total + 2)); for (i = 1; i <= total; i += st) sel[n++] = i;
  } else if (strcmp(mode, "none")) {
    sel = malloc(sizeof(long) * (2 * TABSZ));
    for (i = 0; i < TABSZ; i++) if (tab[i].pc) { sel[n++] = tab[i].first; if (tab[i].last != tab[i].first) sel[n++] = tab[i].last; }
    qsort(sel, n, sizeof *sel, lcmp);
    { long k = 0; for (i = 0; i < n; i++) if (!k || sel[k - 1] != sel[i]) sel[k++] = sel[i]; n = k; }
    if (!strcmp(mode, "next")) second = 1; else if (!strncmp(mode, "late:", 5)) second = atol(mode + 5);
  }
  munmap(tab, TABSZ * sizeof *tab);
  printf("chosen %ld\n", n);
  for (i = -calls - 1; i < n; i++) {
    int st, k; U key; long id;
    if (i >= 0 && i % nsl != slice) continue;
    if (i < 0 && i >= -calls && slice) continue;
    target = target2 = calltarget = -1;
    if (i >= 0) { target = sel[i]; target2 = second ? target + second : -1; id = target; }
    else if (i >= -calls) { calltarget = -i; id = i; }         /* right after the k-th installation */
    else id = -calls - 1;                                      /* no signal at all */
    empty(work);
    st = child(work);
    key = (U)st;
    { char p[4200]; key = (key * 31) ^ hashdir(work);
      snprintf(p, sizeof p, "%s/stdout", work); key = key * 31 + hashfile(p, 1);
      snprintf(p, sizeof p, "%s/stderr", work); key = key * 31 + hashfile(p, 1);
      key = key * 31 + (U)sh->epochs; key = key * 31 + (U)sh->fired; if (id < 0) key = key * 31 + (U)id; }
    for (k = 0; k < nout && outs[k].key != key; k++) ;
    if (k == nout) {
      if (nout == 4096) { printf("toomany\n"); return 3; }
      outs[k].key = key; outs[k].lo = id; outs[k].status = st; outs[k].epochs = sh->epochs; outs[k].fired = sh->fired; nout++;
      snprintf(rep, sizeof rep, "%s/r%ld-%d", outdir, slice, k);
      rename(work, rep); mkdir(work, 0777);
    }
    outs[k].count++; outs[k].hi = id; if (sh->after > outs[k].after) outs[k].after = sh->after;
  }
  for (i = 0; i < nout; i++)
    printf("out %ld %ld count %ld lo %ld hi %ld status %ld epochs %ld fired %ld after %ld\n", slice, i, outs[i].count, outs[i].lo, outs[i].hi,
           outs[i].status, outs[i].epochs, outs[i].fired, outs[i].after);
  return 0;
}
