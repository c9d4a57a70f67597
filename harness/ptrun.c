/* Runs one program under system-call control (the unmodified plain build).
 *
 * ptrun ACTIONS LOG STDOUT STDERR -- program args...
 * The file operations of the program below its working directory are numbered
 * 1, 2, ... in order: openings for writing, writes to such files, their closes,
 * renames, unlinks, truncations.  ACTIONS is "log" or act:K:ARG+act:K:ARG+...
 *   kill:K:0         the process dies (SIGKILL) just before operation K
 *   tear:K:N         operation K is a write; only N bytes of it reach the file, then the process dies
 *   short:K:N        operation K is a write; it transfers only N bytes and the program continues
 *   fail:K:E         operation K fails with errno E
 *   failfrom:K:E     operation K and all later openings/writes/renames fail with errno E
 *   sig:K:S          signal S arrives just before operation K
 *   sigall:K:S       signal S arrives just before the K-th system call of any kind after the
 *                    program installed a handler for it
 *   reads:0:0        instead of the operations above, openings of files for reading and reads from
 *                    them are numbered; short and fail work on them
 * LOG gets one line per operation: number kind path bytes [positions after each newline of the data]
 * and a last line: status WAITSTATUS calls N handled H armed A
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>

static pid_t pid;
static char cwd[4096];
static int wfd[1024];                 /* fd opened for writing below cwd */
static char *wpath[1024];
static int reads;                     /* number reading instead of writing */

static void getstr(unsigned long a, char *b, size_t n) {
  struct iovec l = {b, n - 1}, r = {(void *)a, n - 1};
  size_t want = n - 1; ssize_t k;
  /* do not cross a page that may not be mapped */
  size_t room = 4096 - (a & 4095); if (want > room) want = room;
  l.iov_len = r.iov_len = want;
  k = process_vm_readv(pid, &l, 1, &r, 1, 0);
  if (k <= 0) { b[0] = 0; return; }
  b[k] = 0;
  if (!memchr(b, 0, k) && k < (ssize_t)n - 1) {
    struct iovec l2 = {b + k, n - 1 - k}, r2 = {(void *)(a + k), n - 1 - k};
    ssize_t j = process_vm_readv(pid, &l2, 1, &r2, 1, 0); if (j > 0) b[k + j] = 0;
  }
}
static int inside(const char *p) {    /* "/dev/..." and absolute paths elsewhere are not ours */
  size_t n = strlen(cwd);
  if (p[0] != '/') return strncmp(p, "..", 2) != 0;
  return !strncmp(p, cwd, n) && p[n] == '/';
}

static struct { char act[16]; long k, arg; } acts[16];
static int nacts;
static int on(const char *act, long op, long *arg) {
  int i;
  for (i = 0; i < nacts; i++)
    if (!strcmp(acts[i].act, act) && (op < 0 || acts[i].k == op || (!strcmp(act, "failfrom") && op >= acts[i].k))) { *arg = acts[i].arg; return 1; }
  return 0;
}

int main(int argc, char **argv) {
  FILE *log; long ARG = 0, sall = 0, sallk = -1;
  int st, entry = 1, i, armed = 0, deliver = 0, handled = 0; long op = 0, calls = 0;
  long fix = 0; int fixing = 0, killexit = 0, pendopen = 0; char pathbuf[4096];
  { char *q = argv[1]; int n;
    while (*q && nacts < 16) {
      if (sscanf(q, "%15[a-z]:%ld:%ld%n", acts[nacts].act, &acts[nacts].k, &acts[nacts].arg, &n) != 3) break;
      if (!strcmp(acts[nacts].act, "sigall")) { sall = acts[nacts].arg; sallk = acts[nacts].k; }
      if (!strcmp(acts[nacts].act, "reads")) reads = 1;
      if (!strcmp(acts[nacts].act, "sig")) sall = acts[nacts].arg;
      nacts++; q += n; if (*q == '+') q++;
    } }
  if (argc < 7) return 2;
  if (!getcwd(cwd, sizeof cwd)) return 2;
  log = fopen(argv[2], "w");
  pid = fork();
  if (!pid) {
    int fd = open(argv[3], O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 1); close(fd);
    fd = open(argv[4], O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 2); close(fd);
    fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
    fclose(log);
    ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP);
    execv(argv[6], argv + 6); _exit(127);
  }
  if (waitpid(pid, &st, 0) < 0 || !WIFSTOPPED(st)) { fprintf(log, "notrace\n"); return 3; }
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD)) { fprintf(log, "notrace\n"); return 3; }
  for (;;) {
    struct user_regs_struct r; int kind = 0; const char *name = ""; const char *path = ""; long bytes = 0; unsigned long buf = 0;
    if (ptrace(PTRACE_SYSCALL, pid, 0, (void *)(long)deliver) && errno != ESRCH) { fprintf(log, "notrace\n"); return 3; }
    deliver = 0;
    if (waitpid(pid, &st, 0) < 0) return 3;
    if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { if (WSTOPSIG(st) != SIGTRAP) deliver = WSTOPSIG(st); continue; }
    ptrace(PTRACE_GETREGS, pid, 0, &r);
    if (!entry) {                       /* return from the call */
      entry = 1;
      if (fixing) { r.rax = fix; ptrace(PTRACE_SETREGS, pid, 0, &r); fixing = 0; }
      if (killexit) { kill(pid, SIGKILL); continue; }
      if (pendopen) {
        long fd = (long)r.rax; pendopen = 0;
        if (fd >= 0 && fd < 1024) { wfd[fd] = 1; free(wpath[fd]); wpath[fd] = strdup(pathbuf); }
      }
      continue;
    }
    entry = 0;
    if (reads) switch (r.orig_rax) {
    case SYS_open: case SYS_openat: {
      long fl = r.orig_rax == SYS_open ? (long)r.rsi : (long)r.rdx;
      getstr(r.orig_rax == SYS_openat ? r.rsi : r.rdi, pathbuf, sizeof pathbuf);
      if ((fl & O_ACCMODE) == O_RDONLY && inside(pathbuf)) { kind = 1; name = "ropen"; path = pathbuf; pendopen = 1; }
      break; }
    case SYS_read: case SYS_pread64: case SYS_readv:
      if (r.rdi < 1024 && wfd[r.rdi]) { kind = 8; name = "read"; path = wpath[r.rdi]; bytes = r.rdx; }
      break;
    case SYS_close: if (r.rdi < 1024) wfd[r.rdi] = 0; break;
    } else switch (r.orig_rax) {
    case SYS_rt_sigaction: if (sall && (long)r.rdi == sall && r.rsi && !armed) { armed = 1; calls = 0; continue; } break;
    case SYS_open: case SYS_openat: case SYS_creat: {
      long fl = r.orig_rax == SYS_open ? (long)r.rsi : r.orig_rax == SYS_openat ? (long)r.rdx : O_WRONLY | O_CREAT | O_TRUNC;
      getstr(r.orig_rax == SYS_openat ? r.rsi : r.rdi, pathbuf, sizeof pathbuf);
      if ((fl & O_ACCMODE) != O_RDONLY && inside(pathbuf)) { kind = 1; name = fl & O_TRUNC ? "trunc" : "open"; path = pathbuf; pendopen = 1; }
      break; }
    case SYS_write: case SYS_pwrite64: case SYS_writev:
      if (r.rdi < 1024 && wfd[r.rdi]) { kind = 2; name = "write"; path = wpath[r.rdi]; buf = r.rsi; bytes = r.rdx; }
      break;
    case SYS_close: if (r.rdi < 1024 && wfd[r.rdi]) { kind = 3; name = "close"; path = wpath[r.rdi]; wfd[r.rdi] = 0; } break;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat:
      getstr(r.orig_rax == SYS_rename || r.orig_rax == SYS_link ? r.rdi : r.rsi, pathbuf, sizeof pathbuf); kind = 4; name = "rename"; path = pathbuf; break;
    case SYS_unlink: case SYS_unlinkat:
      getstr(r.orig_rax == SYS_unlink ? r.rdi : r.rsi, pathbuf, sizeof pathbuf); kind = 5; name = "unlink"; path = pathbuf; break;
    case SYS_truncate: case SYS_ftruncate: kind = 6; name = "truncate"; path = "?"; break;
    case SYS_fsync: case SYS_fdatasync: if (r.rdi < 1024 && wfd[r.rdi]) { kind = 7; name = "sync"; path = wpath[r.rdi]; } break;
    }
    calls++;
    if (armed && calls == sallk && !handled) { kill(pid, sall); handled = 1; }
    if (!kind) continue;
    op++;
    if (log) {
      fprintf(log, "%ld %s %s %ld", op, name, path, bytes);
      if (kind == 2 && bytes > 0 && bytes < 1 << 20 && r.orig_rax == SYS_write) {
        char *b = malloc(bytes); struct iovec l = {b, bytes}, q = {(void *)buf, bytes};
        if (process_vm_readv(pid, &l, 1, &q, 1, 0) == bytes) for (i = 0; i < bytes; i++) if (b[i] == '\n') fprintf(log, " %d", i + 1);
        free(b);
      }
      fprintf(log, "\n"); fflush(log);
    }
    if (on("kill", op, &ARG)) { kill(pid, SIGKILL); continue; }
    if (on("sig", op, &ARG)) kill(pid, ARG);
    if (kind == 2 && on("tear", op, &ARG)) {
      if (ARG == 0) { kill(pid, SIGKILL); continue; }
      killexit = 1; r.rdx = ARG; ptrace(PTRACE_SETREGS, pid, 0, &r);
      continue;
    }
    if ((kind == 2 || (kind == 8 && r.orig_rax == SYS_read)) && on("short", op, &ARG)) { r.rdx = ARG; ptrace(PTRACE_SETREGS, pid, 0, &r); continue; }
    if (on("fail", op, &ARG) || (kind != 3 && kind != 5 && on("failfrom", op, &ARG))) {
      if (kind == 3) { fix = -ARG; fixing = 1; continue; }    /* a failing close still releases the descriptor */
      r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); fix = -ARG; fixing = 1; if (kind == 1) pendopen = 0;
    }
  }
  fprintf(log, "status %d calls %ld handled %d armed %d\n", st, calls, handled, armed);
  fclose(log);
  return 0;
}
