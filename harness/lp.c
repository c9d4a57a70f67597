/* Linear programs through the solver's LP layer, enumerated and judged exactly.
   stdin: jobs
     G n m bounds nc coefs.. nr rhs.. no objs.. senses objsen zeros lo hi unit
        all programs number lo..hi-1 of the mixed-radix enumeration (bounds: string of 1/i per variable;
        senses: letters; zeros: 1 = write explicit zeros; unit: factor on all numbers)
     R S n form ng grid.. fixed lo hi unit off
        the solver's own programs for "where does vector 0 beat vectors 1..n" over grid vectors
        form o/O old formulation sparse/dense, n/N new formulation, t two-pass
     B S n form k seed
        one region program of n vectors: k of them at random, the others below one of these everywhere (k = 0, S = 2:
        all n on a common parabola)
   output per job: "J solved optimal infeasible unbounded" or "X <text of the failing program>" lines */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "global.h"
#include "timing.h"
#include "random.h"
#include "mdp/mdp.h"
#include "pomdp.h"
#include "alpha.h"
#include "stats.h"
#include "params.h"
#include "common.h"
#include "lp-interface.h"

typedef __int128 Z;
#define MV 8
#define MC 24
static int N, M;
static long long A[MC][MV], B[MC], OBJ[MV], UP[MV];   /* UP <0: none */
static char SE[MC];

static Z det(int k, Z a[MV][MV]) {
  /* Bareiss */
  Z prev = 1; int sign = 1, i, j, c, p;
  for (c = 0; c < k - 1; c++) {
    for (p = c; p < k && a[p][c] == 0; p++);
    if (p == k) return 0;
    if (p != c) { for (j = 0; j < k; j++) { Z t = a[p][j]; a[p][j] = a[c][j]; a[c][j] = t; } sign = -sign; }
    for (i = c + 1; i < k; i++) for (j = c + 1; j < k; j++)
      a[i][j] = (a[i][j] * a[c][c] - a[i][c] * a[c][j]) / prev;
    prev = a[c][c];
  }
  return sign * a[k - 1][k - 1];
}

/* maximise obj over { rows, 0 <= x <= up }; returns 0 if empty, else *num / *den */
/* the same question in fewer variables, where the program has redundant ones */
static int ALT, AN, AM;
static long long AA[MC][MV], AOBJ[MV], AUP[MV];
static int bestVertex(int n, int m, long long a[MC][MV], long long *b, char *se, long long *up, long long *obj,
                      Z *num, Z *den) {
  int rows = m, i, j, k, c, pick[MV], found = 0;
  static long long F[MC * 2][MV], G[MC * 2];
  int must[MC * 2], nm = 0;
  for (i = 0; i < m; i++) { memcpy(F[i], a[i], sizeof F[i]); G[i] = b[i]; must[i] = se[i] == 'E'; nm += must[i]; }
  for (j = 0; j < n; j++) {
    memset(F[rows], 0, sizeof F[rows]); F[rows][j] = 1; G[rows] = 0; must[rows++] = 0;
    if (up[j] >= 0) { memset(F[rows], 0, sizeof F[rows]); F[rows][j] = 1; G[rows] = up[j]; must[rows++] = 0; }
  }
  for (i = 0; i < n; i++) pick[i] = i;
  if (rows < n) return 0;
  for (;;) {
    Z q[MV][MV], d, x[MV], v;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) q[i][j] = F[pick[i]][j];
    d = det(n, q);
    if (d != 0) {
      int ok = 1;
      for (c = 0; c < n; c++) {
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) q[i][j] = j == c ? G[pick[i]] : F[pick[i]][j];
        x[c] = det(n, q);
      }
      if (d < 0) { d = -d; for (c = 0; c < n; c++) x[c] = -x[c]; }
      for (c = 0; c < n && ok; c++) ok = x[c] >= 0 && (up[c] < 0 || x[c] <= up[c] * d);
      for (i = 0; i < m && ok; i++) {
        for (v = 0, j = 0; j < n; j++) v += a[i][j] * x[j];
        v -= b[i] * d;
        ok = se[i] == 'E' ? v == 0 : se[i] == 'L' ? v <= 0 : v >= 0;
      }
      if (ok) {
        for (v = 0, j = 0; j < n; j++) v += obj[j] * x[j];
        if (!found || v * *den > *num * d) { *num = v; *den = d; }
        found = 1;
      }
    }
    for (k = n - 1; k >= 0 && pick[k] == rows - n + k; k--);
    if (k < 0) break;
    for (pick[k]++, i = k + 1; i < n; i++) pick[i] = pick[i - 1] + 1;
  }
  return found;
}

/* 0 infeasible, 1 optimal (value num/den), 2 unbounded */
static int reference(int sen, Z *num, Z *den) {
  long long obj[MV], zero[MC], z2[MV], a2[MC][MV], up2[MV]; int i, j; char se2[MC];
  Z rn, rd;
  if (ALT) return bestVertex(AN, AM, AA, B, SE + (M - AM), AUP, AOBJ, num, den);
  for (j = 0; j < N; j++) obj[j] = sen == MAXIMIZE ? OBJ[j] : -OBJ[j];
  if (!bestVertex(N, M, A, B, SE, UP, obj, num, den)) return 0;
  memset(zero, 0, sizeof zero); memset(z2, 0, sizeof z2);
  memcpy(a2, A, sizeof a2); memcpy(se2, SE, sizeof se2);
  for (j = 0; j < N; j++) { up2[j] = UP[j] >= 0 ? 0 : -1; a2[M][j] = 1; }
  se2[M] = 'E'; zero[M] = 1;
  for (i = 0; i < M; i++) zero[i] = 0;
  if (bestVertex(N, M + 1, a2, zero, se2, up2, obj, &rn, &rd) && rn > 0) return 2;
  if (sen != MAXIMIZE) *num = -*num;
  return 1;
}

static SolutionStats stat;
static int solved, cnt[3], bad;

static void describe(const char *why, int st, LP lp, int want, double v) {
  int i, j;
  if (++bad > 3) return;
  printf("X %s | solver %d obj %.17g x", why, st, lp ? lp->objval : 0.0);
  if (lp) for (j = 0; j < lp->cols; j++) printf(" %.17g", lp->x[j]);
  printf(" | expected %s %.17g | obj", want == 1 ? "optimal" : want ? "unbounded" : "infeasible", v);
  for (j = 0; j < N; j++) printf(" %lld", OBJ[j]);
  for (i = 0; i < M; i++) { printf(" |"); for (j = 0; j < N; j++) printf(" %lld", A[i][j]); printf(" %c %lld", SE[i], B[i]); }
  printf(" | upper"); for (j = 0; j < N; j++) printf(" %lld", UP[j]);
  printf("\n");
}

static void judge(LP lp, int sen, double unit, double acc) {
  int st, want, i, j, sz = lp->matspace;
  double v = 0, o, s, big = 1;
  Z num, den;
  double *mv = malloc(sz * sizeof(double));
  int *mi = malloc(sz * sizeof(int));
  memcpy(mv, lp->matval, sz * sizeof(double)); memcpy(mi, lp->matind, sz * sizeof(int));
  st = LP_solveLP(lp, stat);
  solved++;
  want = reference(sen, &num, &den);
  cnt[want]++;
  if (memcmp(mv, lp->matval, sz * sizeof(double)) || memcmp(mi, lp->matind, sz * sizeof(int))) describe("the program itself was changed", st, lp, want, v);
  free(mv); free(mi);
  if (want == 1) v = (double) num / (double) den;
  /* an unbounded program is reported as "no solution" by this layer */
  if (st != (want == 1 ? LP_OPTIMAL : LP_INFEASIBLE)) {
    if (!(want == 2 && st == LP_UNBOUNDED)) describe("wrong status", st, lp, want, v);
    return;
  }
  if (want != 1) return;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) if (llabs(A[i][j]) > big) big = llabs(A[i][j]);
  /* region programs are homogeneous up to the unit */
  acc *= big;
  if (fabs(lp->objval - v * unit) > acc * unit) { describe("wrong optimum", st, lp, want, v); return; }
  for (o = 0, j = 0; j < N; j++) o += lp->obj[j] * lp->x[j];
  if (fabs(o - v * unit) > acc * unit) { describe("wrong point", st, lp, want, v); return; }
  for (j = 0; j < N; j++)
    if (!(lp->x[j] >= -1e-7) || (UP[j] >= 0 && lp->x[j] > UP[j] + 1e-7)) { describe("point out of bounds", st, lp, want, v); return; }
  for (i = 0; i < M; i++) {
    double act = 0;
    for (j = 0; j < N; j++) {
      int p;
      for (p = lp->matbeg[j]; p < lp->matbeg[j] + lp->matcnt[j]; p++) if (lp->matind[p] == i) act += lp->matval[p] * lp->x[j];
    }
    s = act - lp->rhs[i];
    o = acc * (unit > 1 ? unit : 1);
    if ((SE[i] != 'G' && s > o) || (SE[i] != 'L' && s < -o)) { describe("point violates a row", st, lp, want, v); return; }
  }
}

static void generic(void) {
  char bnd[16], senses[8], sen[8]; int zeros, i, j, k, nc, nr, no, ns;
  long long co[16], rh[16], ob[16], lo, hi, q, p; double unit;
  if (scanf("%d %d %15s %d", &N, &M, bnd, &nc) != 4) exit(3);
  for (i = 0; i < nc; i++) if (scanf("%lld", co + i) != 1) exit(3);
  if (scanf("%d", &nr) != 1) exit(3);
  for (i = 0; i < nr; i++) if (scanf("%lld", rh + i) != 1) exit(3);
  if (scanf("%d", &no) != 1) exit(3);
  for (i = 0; i < no; i++) if (scanf("%lld", ob + i) != 1) exit(3);
  if (scanf("%7s %7s %d %lld %lld %lf", senses, sen, &zeros, &lo, &hi, &unit) != 6) exit(3);
  ns = strlen(senses);
  for (q = lo; q < hi; q++) {
    int nz = 0;
    LP lp;
    p = q;
    for (i = 0; i < M; i++) {
      for (j = 0; j < N; j++) { A[i][j] = co[p % nc]; p /= nc; nz += zeros || A[i][j]; }
      B[i] = rh[p % nr]; p /= nr; SE[i] = senses[p % ns]; p /= ns;
    }
    for (j = 0; j < N; j++) { OBJ[j] = ob[p % no]; p /= no; UP[j] = bnd[j] == 'i' ? -1 : bnd[j] - '0'; }
    if (p) break;
    if (!nz) continue;
    lp = LP_newLP(M, N, nz);
    lp->objsen = sen[0] == 'M' ? MAXIMIZE : MINIMIZE;
    for (k = 0, j = 0; j < N; j++) {
      lp->obj[j] = OBJ[j] * unit; lp->lowbnd[j] = 0; lp->upbnd[j] = UP[j] < 0 ? INFBOUND : UP[j];
      lp->matbeg[j] = k;
      for (i = 0; i < M; i++) if (zeros || A[i][j]) { lp->matind[k] = i; lp->matval[k++] = A[i][j] * unit; }
      lp->matcnt[j] = k - lp->matbeg[j];
    }
    for (i = 0; i < M; i++) { lp->rhs[i] = B[i] * unit; lp->sense[i] = SE[i]; }
    judge(lp, lp->objsen, unit, 1e-7);
    LP_freeLP(lp);
  }
}

static void region(void) {
  int S, n, ng, fixed, i, j, k, r, dense; char form[4];
  long long g[16], lo, hi, off, q, p, v[8][4]; double unit;
  if (scanf("%d %d %3s %d", &S, &n, form, &ng) != 4) exit(3);
  for (i = 0; i < ng; i++) if (scanf("%lld", g + i) != 1) exit(3);
  if (scanf("%d %lld %lld %lf %lld", &fixed, &lo, &hi, &unit, &off) != 5) exit(3);
  dense = form[0] == 'O' || form[0] == 'N' || form[0] == 'T';
  for (q = lo; q < hi; q++) {
    LP lp; int nz = 0;
    double *c[MC]; double mat[MC][MV];
    p = q;
    for (i = 0; i <= n; i++) for (j = 0; j < S; j++) { v[i][j] = g[p % ng] + off; p /= ng; }
    if (p) break;
    memset(A, 0, sizeof A); memset(B, 0, sizeof B); memset(OBJ, 0, sizeof OBJ);
    (void) c;
    if (form[0] == 'o' || form[0] == 'O') {
      N = S + 1; M = n + 1;
      for (j = 0; j < S; j++) { A[0][j] = 1; for (i = 1; i <= n; i++) A[i][j] = v[i][j] - v[0][j]; }
      for (i = 1; i <= n; i++) A[i][S] = 1;
      OBJ[S] = 1;
    } else if (form[0] == 'n' || form[0] == 'N') {
      N = S + 3; M = n + 2;
      for (j = 0; j < S; j++) { A[0][j] = 1; A[1][j] = v[0][j]; for (i = 1; i <= n; i++) A[i + 1][j] = v[i][j]; }
      for (i = 1; i <= n + 1; i++) { A[i][S + 1] = -1; A[i][S + 2] = 1; if (i > 1) A[i][S] = 1; }
      OBJ[S] = 1;
      ALT = 1; AN = S + 1; AM = n + 1;
      memset(AA, 0, sizeof AA); memset(AOBJ, 0, sizeof AOBJ);
      for (j = 0; j < S; j++) { AA[0][j] = 1; AUP[j] = 1; for (i = 1; i <= n; i++) AA[i][j] = v[i][j] - v[0][j]; }
      for (i = 1; i <= n; i++) AA[i][S] = 1;
      AOBJ[S] = 1; AUP[S] = -1;
    } else {
      /* two-pass: maximise neighbour - vector 0 inside vector 0's region */
      N = S; M = n;
      for (j = 0; j < S; j++) { A[0][j] = 1; for (i = 1; i < n; i++) A[i][j] = v[i][j] - v[0][j]; OBJ[j] = v[n][j] - v[0][j]; }
    }
    B[0] = 1; SE[0] = 'E';
    for (i = 1; i < M; i++) SE[i] = 'L';
    if (form[0] == 'n' || form[0] == 'N') SE[1] = 'E';
    for (j = 0; j < N; j++) UP[j] = j < S ? 1 : -1;
    for (i = 0; i < M; i++) for (j = 0; j < N; j++) {
      mat[i][j] = i && j < S ? A[i][j] * unit : A[i][j];
      nz += dense || A[i][j] != 0;
    }
    lp = LP_newLP(M, N, nz);
    lp->objsen = MAXIMIZE;
    for (k = 0, j = 0; j < N; j++) {
      lp->obj[j] = OBJ[j] * (N == S ? unit : 1); lp->lowbnd[j] = 0; lp->upbnd[j] = UP[j] < 0 ? INFBOUND : 1;
      lp->matbeg[j] = k;
      for (r = 0; r < M; r++) if (dense || A[r][j]) { lp->matind[k] = r; lp->matval[k++] = mat[r][j]; }
      lp->matcnt[j] = k - lp->matbeg[j];
    }
    for (r = 0; r < M; r++) { lp->rhs[r] = B[r]; lp->sense[r] = SE[r]; }
    judge(lp, MAXIMIZE, unit, 1e-7);
    ALT = 0;
    LP_freeLP(lp);
  }
}

static unsigned long long rs;
static int rnd(int k) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (int) ((rs >> 33) % k); }

static void big(void) {
  int S, n, k, i, j, q, rows, cols, dense, st, neu, r0; char form[4];
  long long seed, *v; double want, o, worst; Z num, den; LP lp;
  if (scanf("%d %d %3s %d %lld", &S, &n, form, &k, &seed) != 5) exit(3);
  rs = seed; for (i = 0; i < 8; i++) rnd(2);
  dense = form[0] == 'O' || form[0] == 'N';
  neu = form[0] == 'n' || form[0] == 'N';
  v = malloc(sizeof *v * (n + 1) * S);
  for (i = 0; i <= n; i++)
    if (!k) {
      /* tangents of x^2 at x = i/n, in units of 1/n^2 */
      long long t = i ? (i * 7919LL) % (n + 1) : rnd(n);
      v[i * S] = -t * t; v[i * S + 1] = 2 * t * n - t * t;
    } else {
      int base = i <= k ? 0 : 1 + rnd(k);
      for (j = 0; j < S; j++) v[i * S + j] = base ? v[base * S + j] - rnd(20) - 1 : rnd(30);
    }
  if (k) {
    N = S + 1; M = k + 1;
    memset(A, 0, sizeof A); memset(B, 0, sizeof B); memset(OBJ, 0, sizeof OBJ);
    for (j = 0; j < S; j++) { A[0][j] = 1; UP[j] = 1; for (i = 1; i <= k; i++) A[i][j] = v[i * S + j] - v[j]; }
    for (i = 1; i <= k; i++) { A[i][S] = 1; SE[i] = 'L'; }
    OBJ[S] = 1; UP[S] = -1; B[0] = 1; SE[0] = 'E';
    want = reference(MAXIMIZE, &num, &den) == 1 ? (double) num / (double) den : -1e30;
  } else {
    double lo = 0, hi = 1;
    want = 0;
    for (q = 0; q < 200; q++) {
      double b = (lo + hi) / 2, f = 1e300, s = 0;
      for (i = 1; i <= n; i++) {
        double x = v[0] - v[i * 2], y = v[1] - v[i * 2 + 1], w = x * (1 - b) + y * b;
        if (w < f) { f = w; s = y - x; }
      }
      want = f;
      if (s > 0) lo = b; else hi = b;
    }
  }
  rows = n + 1 + neu; cols = S + 1 + 2 * neu;
  lp = LP_newLP(rows, cols, rows * cols);
  lp->objsen = MAXIMIZE;
  r0 = 1 + neu;
  for (q = 0, j = 0; j < cols; j++) {
    lp->obj[j] = j == S; lp->lowbnd[j] = 0; lp->upbnd[j] = j < S ? 1 : INFBOUND;
    lp->matbeg[j] = q;
    for (i = 0; i < rows; i++) {
      double x = 0;
      if (j < S) x = !i ? 1 : i < r0 ? v[j] : v[(i - r0 + 1) * S + j] - (neu ? 0 : v[j]);
      else if (j == S) x = i >= r0;
      else if (i) x = j == S + 1 ? -1 : 1;
      if (x != 0 || dense) { lp->matind[q] = i; lp->matval[q++] = x; }
    }
    lp->matcnt[j] = q - lp->matbeg[j];
  }
  lp->matspace = q;
  for (i = 0; i < rows; i++) { lp->rhs[i] = !i; lp->sense[i] = i < r0 ? 'E' : 'L'; }
  st = LP_solveLP(lp, stat);
  solved++;
  cnt[want >= 0]++;
  o = k ? 1e-7 * 30 : 1e-7 * n * (double) n;
  if ((st == LP_OPTIMAL) != (want >= 0) && fabs(want) > o) {
    bad++; printf("X region program of %d vectors (S=%d %s k=%d seed %lld): status %d, optimum %.12g\n", n, S, form, k, seed, st, want);
  } else if (st == LP_OPTIMAL && fabs(want) > o) {
    for (worst = 1e300, i = 1; i <= n; i++) {
      double w = 0;
      for (j = 0; j < S; j++) w += lp->x[j] * (double) (v[j] - v[i * S + j]);
      if (w < worst) worst = w;
    }
    if (fabs(lp->objval - want) > o || fabs(worst - want) > 2 * o) {
      bad++; printf("X region program of %d vectors (S=%d %s k=%d seed %lld): reported %.12g, at the point %.12g, optimum %.12g\n", n, S, form, k, seed, lp->objval, worst, want);
    }
  }
  LP_freeLP(lp); free(v);
}

int main(void) {
  char op;
  PomdpSolveParams param = newPomdpSolveParams();
  gStdErrFile = stderr;
  initCommon();
  initLpInterface(param);
  while (scanf(" %c", &op) == 1) {
    solved = cnt[0] = cnt[1] = cnt[2] = bad = 0;
    if (op == 'G') generic(); else if (op == 'R') region(); else if (op == 'B') big(); else return 3;
    printf("J %d %d %d %d %d\n", solved, cnt[1], cnt[0], cnt[2], bad);
    fflush(stdout);
  }
  printf("END\n");
  return 0;
}
