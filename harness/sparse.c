/* Sparse matrices against dense ones.
     dfs R C DEPTH i0 [i1]   every operation sequence of DEPTH operations starting with operations i0 (and i1); with "-" every shorter prefix once
     perm N              every insertion order of every set of up to N columns in the middle row of three, each followed by every single operation
   Prints "OK sequences operations outcomes" or "BAD sequence: what". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mdp/sparse-matrix.h"

#define MAXN 8
static double VAL[8];
static int NV, R, C, NOP;
static long nseq, nops;
static unsigned char seen[1 << 20];
static long distinct;

typedef struct { int kind, r, c, v; } Op;      /* kind 0 set, 1 accumulate, 2 compact (and go on) */
static Op ops[512];
static int seq[64], len;

static void bad(const char *what) {
  int k;
  printf("BAD");
  for (k = 0; k < len; k++) {
    Op o = ops[seq[k]];
    if (o.kind == 2) printf(" compact;");
    else printf(" %s(%d,%d,%g);", o.kind ? "add" : "set", o.r, o.c, VAL[o.v]);
  }
  printf(": %s\n", what);
  exit(0);
}

static int eq(double a, double b) { return fabs(a - b) <= 5e-10; }

static void verify(I_Matrix im, double D[MAXN][MAXN]) {
  char buf[200];
  int r, c, j, total = 0;
  Matrix m;
  unsigned long h = 5381;
  for (r = 0; r < R; r++) {
    double s = 0;
    for (c = 0; c < C; c++) s += D[r][c];
    if (!eq(s, sumIMatrixRowValues(im, r))) { sprintf(buf, "row %d of the intermediate form sums to %g, should be %g", r, sumIMatrixRowValues(im, r), s); bad(buf); }
  }
  m = transformIMatrix(im);
  if (m->num_rows != R) bad("number of rows");
  for (r = 0; r < R; r++) {
    double s = 0;
    int used[MAXN] = {0};
    for (c = 0; c < C; c++) {
      double g = getEntryMatrix(m, r, c);
      s += D[r][c];
      h = h * 33 + (long)(g * 1e4 + 7);
      if (!eq(g, D[r][c])) { sprintf(buf, "entry (%d,%d) is %g, should be %g", r, c, g, D[r][c]); bad(buf); }
    }
    if (!eq(s, sumRowValues(m, r))) { sprintf(buf, "row %d sums to %g, should be %g", r, sumRowValues(m, r), s); bad(buf); }
    total += m->row_length[r];
    if (m->row_length[r] < 0 || m->row_start[r] < 0 || m->row_start[r] + m->row_length[r] > m->num_non_zero) { sprintf(buf, "row %d occupies places %d+%d of %d", r, m->row_start[r], m->row_length[r], m->num_non_zero); bad(buf); }
    for (j = m->row_start[r]; j < m->row_start[r] + m->row_length[r]; j++) {
      if (m->col[j] < 0 || m->col[j] >= C || used[m->col[j]]++) { sprintf(buf, "row %d stores column %d wrongly or twice", r, m->col[j]); bad(buf); }
      if (!eq(m->mat_val[j], D[r][m->col[j]])) { sprintf(buf, "row %d stores %g for column %d", r, m->mat_val[j], m->col[j]); bad(buf); }
    }
    for (c = 0; c < C; c++) if (!used[c] && !eq(D[r][c], 0)) { sprintf(buf, "row %d does not store column %d", r, c); bad(buf); }
  }
  if (total != m->num_non_zero) { sprintf(buf, "%d entries counted, rows hold %d", m->num_non_zero, total); bad(buf); }
  destroyMatrix(m);
  h = (h ^ (h >> 20)) & ((1 << 20) - 1);
  if (!seen[h]) { seen[h] = 1; distinct++; }
}

static void play(void) {
  double D[MAXN][MAXN];
  int k;
  I_Matrix im = newIMatrix(R);
  memset(D, 0, sizeof D);
  for (k = 0; k < len; k++) {
    Op o = ops[seq[k]];
    double v = VAL[o.v];
    if (o.kind == 0) { addEntryToIMatrix(im, o.r, o.c, v); D[o.r][o.c] = v; }
    else if (o.kind == 1) { accumulateEntryInIMatrix(im, o.r, o.c, v); D[o.r][o.c] += v; }
    else verify(im, D);
  }
  verify(im, D);
  destroyIMatrix(im);
  nseq++; nops += len;
}

static void mkops(int compact) {
  int k, r, c, v;
  NOP = 0;
  for (k = 0; k < 2; k++) for (r = 0; r < R; r++) for (c = 0; c < C; c++) for (v = 0; v < NV; v++) ops[NOP++] = (Op){k, r, c, v};
  if (compact) ops[NOP++] = (Op){2, 0, 0, 0};
}

static void dfs(int depth) {
  int i;
  play();
  if (depth == 0) return;
  for (i = 0; i < NOP; i++) { seq[len++] = i; dfs(depth - 1); len--; }
}

static void perms(int n, unsigned set, unsigned done) {
  int c, i;
  if (done == set) {
    play();
    for (i = 0; i < NOP; i++) if (ops[i].r == 1) { seq[len++] = i; play(); len--; }
    return;
  }
  for (c = 0; c < n; c++) if ((set & ~done) >> c & 1) {
    /* value number c%NV of the set operations of row 1 */
    for (i = 0; i < NOP; i++) if (ops[i].kind == 0 && ops[i].r == 1 && ops[i].c == c && ops[i].v == 1 + c % (NV - 1)) break;
    seq[len++] = i; perms(n, set, done | 1u << c); len--;
  }
}

/* big R C form: large matrices whose dense counterpart is a formula */
static double *DD;
static int set(I_Matrix im, int add, int r, int c, double v) {
  if (add) { accumulateEntryInIMatrix(im, r, c, v); DD[(long) r * C + c] += v; }
  else { addEntryToIMatrix(im, r, c, v); DD[(long) r * C + c] = v; }
  nops++;
  return 0;
}
static void large(int form) {
  I_Matrix im = newIMatrix(R);
  Matrix m;
  int r, c, j, k, round;
  long total = 0, nz = 0;
  char *used = malloc(C), buf[200];
  DD = calloc((long) R * C, sizeof *DD);
  for (round = 0; round < 2; round++)
    for (r = 0; r < R; r++) {
      int rr = form & 1 ? R - 1 - r : r;
      if (form & 2) for (c = C - 1; c >= 0; c--) { if ((c * 7 + rr * 3 + round) % (form & 4 ? 13 : 2) == 0) set(im, round, rr, c, (c % 11 - 5) * .25 + rr % 3); }
      else if (form & 8) for (k = 0; k < C; k++) { c = (int) ((k * 7919L + rr) % C); if ((c + rr) % 3) set(im, round || k % 5 == 0, rr, c, c % 7 + .5); }
      else for (c = 0; c < C; c++) if (form & 4 ? (c + rr) % 17 == round : 1) set(im, 0, rr, c, round && c % 4 == 0 ? 0 : (c % 9) * .5 - 1);
    }
  for (k = 0; k < 2; k++) {
    for (r = 0; r < R; r++) {
      double s = 0;
      for (c = 0; c < C; c++) s += DD[(long) r * C + c];
      if (fabs(s - sumIMatrixRowValues(im, r)) > 1e-7) { sprintf(buf, "row %d of the intermediate form sums to %g, should be %g", r, sumIMatrixRowValues(im, r), s); bad(buf); }
    }
    m = transformIMatrix(im);
    if (m->num_rows != R) bad("number of rows");
    for (r = 0, total = 0; r < R; r++) {
      double s = 0;
      memset(used, 0, C);
      total += m->row_length[r];
      if (m->row_length[r] < 0 || m->row_start[r] < 0 || m->row_start[r] + m->row_length[r] > m->num_non_zero) { sprintf(buf, "row %d occupies places %d+%d of %d", r, m->row_start[r], m->row_length[r], m->num_non_zero); bad(buf); }
      for (j = m->row_start[r]; j < m->row_start[r] + m->row_length[r]; j++) {
        if (m->col[j] < 0 || m->col[j] >= C || used[m->col[j]]++) { sprintf(buf, "row %d stores column %d wrongly or twice", r, m->col[j]); bad(buf); }
        if (!eq(m->mat_val[j], DD[(long) r * C + m->col[j]])) { sprintf(buf, "row %d stores %g for column %d", r, m->mat_val[j], m->col[j]); bad(buf); }
      }
      for (c = 0; c < C; c++) { double v = DD[(long) r * C + c]; s += v; if (!used[c] && !eq(v, 0)) { sprintf(buf, "row %d does not store column %d", r, c); bad(buf); } if (!eq(v, 0)) nz++; }
      for (c = r % 7; c < C; c += 1 + C / 40) if (!eq(getEntryMatrix(m, r, c), DD[(long) r * C + c])) { sprintf(buf, "entry (%d,%d) is %g, should be %g", r, c, getEntryMatrix(m, r, c), DD[(long) r * C + c]); bad(buf); }
      if (fabs(s - sumRowValues(m, r)) > 1e-7) { sprintf(buf, "row %d sums to %g, should be %g", r, sumRowValues(m, r), s); bad(buf); }
    }
    if (total != m->num_non_zero) { sprintf(buf, "%d entries counted, rows hold %ld", m->num_non_zero, total); bad(buf); }
    destroyMatrix(m);
    /* the intermediate form can be changed and compacted again */
    if (k == 0) { set(im, 0, R - 1, C - 1, 4.5); set(im, 0, 0, 0, 0); set(im, 1, R / 2, C / 2, 2); set(im, 0, R / 3, C - 1, -3); }
  }
  destroyIMatrix(im);
  free(DD); free(used);
  nseq++; distinct++;
}

int main(int argc, char **argv) {
  int i;
  if (!strcmp(argv[1], "big")) {
    R = atoi(argv[2]); C = atoi(argv[3]);
    large(atoi(argv[4]));
    printf("OK %ld %ld %ld\n", nseq, nops, distinct);
    return 0;
  }
  if (!strcmp(argv[1], "dfs")) {
    int depth = atoi(argv[5]);
    R = atoi(argv[2]); C = atoi(argv[3]); NV = atoi(argv[4]);
    { static double a[] = {0, .25, -1.5, 1e-9, 1e-12}; memcpy(VAL, a, sizeof a); }
    mkops(1);
    if (argc > 6) for (i = 6; i < argc; i++) { seq[len] = atoi(argv[i]); if (seq[len] >= NOP) { printf("NONE %d\n", NOP); return 0; } len++; depth--; }
    dfs(depth);
  } else {
    int n = atoi(argv[2]);
    unsigned set;
    R = 3; C = n; NV = 4;
    { static double a[] = {0, .25, -1.5, 3}; memcpy(VAL, a, sizeof a); }
    mkops(1);
    for (set = 0; set < 1u << n; set++) {
      /* with and without neighbours in the other rows */
      int a;
      for (a = 0; a < 4; a++) {
        len = 0;
        if (a & 1) for (i = 0; i < NOP; i++) if (ops[i].kind == 1 && ops[i].r == 0 && ops[i].c == n - 1 && ops[i].v == 1) seq[len++] = i;
        if (a & 2) for (i = 0; i < NOP; i++) if (ops[i].kind == 0 && ops[i].r == 2 && ops[i].c == 0 && ops[i].v == 2) seq[len++] = i;
        perms(n, set, 0);
      }
    }
  }
  printf("OK %ld %ld %ld\n", nseq, nops, distinct);
  return 0;
}
