/* Vector lists against a sequence model.
     dfs DEPTH EPS-INDEX i0 [i1 ..]   every operation sequence of at most DEPTH operations beginning with i0 ..
   Two lists A and B of vectors over two states; the operations work on A (with B as partner); "swap" exchanges them.
   Prints "OK sequences operations states" or "BAD sequence: what", or "NONE n" when i0 is not an operation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "global.h"
#include "mdp/mdp.h"
#include "alpha.h"

#define NV 4
/* 1 strictly dominates 0; 2 is incomparable; 3 ties with 1 in the first component */
static double V[NV][2] = {{0, 0}, {1, 1}, {-1, 3}, {1, 1.5}};
static double BEL[3][2] = {{1, 0}, {.5, .5}, {.25, .75}};
static double EPS = 1e-9;
static int seq[32], len;
static long nseq, nops, nstates;
static unsigned char seen[1 << 24];

typedef struct { AlphaList p; int v, a, m, w; } It;
typedef struct { It x[64]; int n; } Seq;
static AlphaList A, B;
static Seq a, b;

static void fail(const char *f, int i, int j);
#define BAD(f, i, j) fail(f, i, j)

enum { APPEND, PREPEND, UNIQUE, REMOVE, EXTRACT, MARKDOM, REMDOM, POINTWISE_END,
       BEST = 100, DEQ, MID, TAIL, CLEARMARK, MARKALL, XMARKED, RMARKED, SORT, UNION, DUP, COPY, RENUM, CLEAR, XUNMARKED, DUPNODE, DUPWIT, SWAP, QUERY2 };
static struct { int k, v; const char *name; } ops[] = {
  {APPEND, 0, "append 0"}, {APPEND, 1, "append 1"}, {APPEND, 2, "append 2"}, {APPEND, 3, "append 3"},
  {PREPEND, 0, "prepend 0"}, {PREPEND, 2, "prepend 2"},
  {UNIQUE, 0, "append-unique 0"}, {UNIQUE, 1, "append-unique 1"},
  {REMOVE, 0, "remove 0"}, {REMOVE, 1, "remove 1"}, {REMOVE, 2, "remove 2"},
  {EXTRACT, 0, "extract 0, to B"}, {EXTRACT, 1, "extract 1, to B"},
  {MARKDOM, 1, "mark dominated by 1"}, {MARKDOM, 0, "mark dominated by 0"}, {MARKDOM, 3, "mark dominated by 3"},
  {REMDOM, 1, "remove dominated by 1"}, {REMDOM, 3, "remove dominated by 3"},
  {BEST, 0, "remove best at corner, to B"}, {BEST, 1, "remove best at the middle, to B"}, {BEST, 2, "remove best inside, to B"},
  {DEQ, 0, "dequeue, enqueue in B"}, {MID, 0, "extract second, to the front of B"}, {TAIL, 0, "extract last, back to the end"},
  {CLEARMARK, 0, "clear marks"}, {MARKALL, 0, "mark all"}, {XMARKED, 0, "extract marked, add to B"}, {RMARKED, 0, "remove marked"},
  {SORT, 0, "sort"}, {UNION, 0, "union with B"}, {DUP, 0, "duplicate as B"}, {COPY, 0, "copy into B"}, {RENUM, 0, "renumber"}, {CLEAR, 0, "clear"},
  {XUNMARKED, 0, "extract unmarked, to B"}, {DUPNODE, 0, "append a duplicate of the first to B"}, {DUPWIT, 0, "duplicate with witnesses as B"}, {SWAP, 0, "swap A and B"}};
#define NOPS ((int)(sizeof ops / sizeof *ops))

static void fail(const char *f, int i, int j) {
  int k;
  printf("BAD");
  for (k = 0; k < len; k++) printf(" %s;", ops[seq[k]].name);
  printf(": ");
  printf(f, i, j);
  printf("\n");
  exit(0);
}

static double *vec(int v) { double *d = newAlpha(); d[0] = V[v][0]; d[1] = V[v][1]; return d; }
static int same(int x, int y) { return x == y; }
static int dom(int x, int y) { return V[x][0] > V[y][0] && V[x][1] > V[y][1]; }
static int lex(int x, int y) { return V[x][0] != V[y][0] ? V[x][0] > V[y][0] : V[x][1] > V[y][1]; }
static void push(Seq *s, It i) { s->x[s->n++] = i; }
static It cut(Seq *s, int i) { It r = s->x[i]; memmove(s->x + i, s->x + i + 1, (s->n - i - 1) * sizeof r); s->n--; return r; }
static void front(Seq *s, It i) { memmove(s->x + 1, s->x, s->n * sizeof i); s->x[0] = i; s->n++; }
static int find(Seq *s, int v) { int i; for (i = 0; i < s->n; i++) if (same(s->x[i].v, v)) return i; return -1; }

static unsigned long verify(AlphaList l, Seq *s, const char *which) {
  AlphaList p;
  int i, v, un = 0, first = -1;
  unsigned long h = 17;
  if (l->length != s->n || sizeAlphaList(l) != s->n) BAD("stored length %d, should be %d", l->length, s->n);
  if (s->n == 0 && l->head) BAD("an empty list has a first vector", 0, 0);
  for (p = l->head, i = 0; p; p = p->next, i++) {
    if (i >= s->n) BAD("more than %d vectors can be reached", s->n, 0);
    if (s->x[i].p && p != s->x[i].p) BAD("vector %d is not the node expected", i, 0);
    if (p->alpha[0] != V[s->x[i].v][0] || p->alpha[1] != V[s->x[i].v][1]) BAD("vector %d has other values than vector %d", i, s->x[i].v);
    if (p->action != s->x[i].a) BAD("vector %d has the wrong action %d", i, p->action);
    if ((p->mark != 0) != s->x[i].m) BAD("vector %d: mark is %d", i, p->mark);
    if ((p->witness != 0) != s->x[i].w || (p->witness && (p->witness[0] != .25 || p->witness[1] != s->x[i].v))) BAD("vector %d: witness wrong", i, 0);
    if (!s->x[i].m) { un++; if (first < 0) first = i; }
    s->x[i].p = p;
    h = h * 31 + s->x[i].v * 4 + s->x[i].m * 2 + s->x[i].w + 1;
    if (p == l->tail && i != s->n - 1) BAD("the tail is vector %d of %d", i, s->n);
  }
  if (i != s->n) BAD("%d vectors can be reached, should be %d", i, s->n);
  if (s->n && l->tail != s->x[s->n - 1].p) BAD("the tail is not the last vector", 0, 0);
  if (sizeUnmarkedAlphaList(l) != un) BAD("%d unmarked counted, there are %d", sizeUnmarkedAlphaList(l), un);
  if (!!allMarkedAlphaList(l) != (un == 0)) BAD("all marked: %d", allMarkedAlphaList(l), 0);
  if (findUnmarkedVector(l) != (first < 0 ? 0 : s->x[first].p)) BAD("wrong first unmarked vector (%d)", first, 0);
  for (v = 0; v < NV; v++) {
    int k = find(s, v), d = 0;
    for (i = 0; i < s->n; i++) d |= dom(s->x[i].v, v);
    if (findAlphaVector(l, V[v], EPS) != (k < 0 ? 0 : s->x[k].p)) BAD("vector %d is looked up wrongly, should be found at %d", v, k);
    if (!!queryAlphaList(l, V[v], EPS) != (k >= 0)) BAD("query of vector %d is wrong", v, 0);
    if (!!dominatedAlphaList(V[v], l) != d) BAD("domination of vector %d is wrong", v, 0);
  }
  for (v = 0; v < 3; v++) {
    double best = -1e9, got;
    int bi = -1;
    AlphaList r;
    for (i = 0; i < s->n; i++) {
      double x = V[s->x[i].v][0] * BEL[v][0] + V[s->x[i].v][1] * BEL[v][1];
      if (bi < 0 || x > best + 1e-9 || (fabs(x - best) <= 1e-9 && lex(s->x[i].v, s->x[bi].v))) { best = x; bi = i; }
    }
    r = bestVector(l, BEL[v], &got, EPS);
    if (bi < 0 ? r != 0 : r == 0 || fabs(got - best) > 1e-8 || r->alpha[0] != V[s->x[bi].v][0] || r->alpha[1] != V[s->x[bi].v][1]) BAD("best vector at belief %d is wrong (should be number %d)", v, bi);
  }
  return h;
}

static It tail_item(AlphaList l, int v, int act) { It r = {0, v, act, 0, 0}; return r; }

static void step(int o) {
  int v = ops[o].v, i, k, r;
  It it;
  AlphaList p, q;
  switch (ops[o].k) {
  case APPEND: p = appendAlphaList(A, vec(v), v + 5); it = tail_item(A, v, v + 5); it.p = p; if (v == 2) { double w[2] = {.25, 2}; addWitnessToAlphaNode(p, w); it.w = 1; } push(&a, it); break;
  case PREPEND: p = prependAlphaList(A, vec(v), v + 9); it = tail_item(A, v, v + 9); it.p = p; if (v == 0) { double w[2] = {.25, 0}; addWitnessToAlphaNode(p, w); it.w = 1; } front(&a, it); break;
  case UNIQUE: {
    double *d = vec(v);
    k = find(&a, v);
    p = appendUniqueAlphaList(A, d, v + 20, EPS);
    if ((p == 0) != (k >= 0)) BAD("append-unique returned %d though the vector is at %d", p != 0, k);
    if (p == 0) destroyAlpha(d); else { it = tail_item(A, v, v + 20); it.p = p; push(&a, it); }
    break; }
  case REMOVE:
    k = find(&a, v);
    r = removeFromAlphaList(A, V[v], EPS);
    if (!!r != (k >= 0)) BAD("remove returned %d though the vector is at %d", r, k);
    if (k >= 0) cut(&a, k);
    break;
  case EXTRACT:
    k = find(&a, v);
    p = extractFromAlphaList(A, V[v], EPS);
    if (p != (k < 0 ? 0 : a.x[k].p)) BAD("extract gave the wrong vector, should be number %d", k, 0);
    if (k >= 0) { it = cut(&a, k); appendNodeToAlphaList(B, p); push(&b, it); }
    break;
  case MARKDOM:
    r = markDominatedAlphaList(V[v], A);
    for (i = k = 0; i < a.n; i++) if (!a.x[i].m && dom(v, a.x[i].v)) { a.x[i].m = 1; k++; }
    if (r != k) BAD("%d reported marked, should be %d", r, k);
    break;
  case REMDOM:
    r = removeDominatedAlphaList(V[v], A);
    for (i = k = 0; i < a.n; ) { a.x[i].m = 0; if (dom(v, a.x[i].v)) { cut(&a, i); k++; } else i++; }
    if (r != k) BAD("%d reported removed, should be %d", r, k);
    break;
  case BEST: {
    double best = -1e9;
    int bi = -1;
    for (i = 0; i < a.n; i++) {
      double x = V[a.x[i].v][0] * BEL[v][0] + V[a.x[i].v][1] * BEL[v][1];
      if (bi < 0 || x > best + 1e-9 || (fabs(x - best) <= 1e-9 && lex(a.x[i].v, a.x[bi].v))) { best = x; bi = i; }
    }
    p = removebestVectorNode(A, BEL[v], EPS);
    if ((p == 0) != (bi < 0)) BAD("best vector to remove: %d", bi, 0);
    if (p) {
      for (k = 0; k < a.n && a.x[k].p != p; k++);
      if (k == a.n || a.x[k].v != a.x[bi].v) BAD("not the best vector was removed, should be number %d", bi, 0);
      it = cut(&a, k); appendNodeToAlphaList(B, p); push(&b, it);
    }
    break; }
  case DEQ:
    p = dequeueAlphaNode(A);
    if (p != (a.n ? a.x[0].p : 0)) BAD("dequeue gave the wrong vector", 0, 0);
    if (p) { it = cut(&a, 0); enqueueAlphaNode(B, p); push(&b, it); }
    break;
  case MID:
    if (a.n < 2) { if (extractAlphaNode(A, b.n ? b.x[0].p : 0)) BAD("extracted a vector of another list", 0, 0); break; }
    p = extractAlphaNode(A, a.x[1].p);
    if (p != a.x[1].p) BAD("extract of the second vector failed", 0, 0);
    it = cut(&a, 1); prependNodeToAlphaList(B, p); front(&b, it);
    break;
  case TAIL:
    if (a.n < 1) break;
    p = extractAlphaNode(A, a.x[a.n - 1].p);
    if (p != a.x[a.n - 1].p) BAD("extract of the last vector failed", 0, 0);
    if (A->length != a.n - 1) BAD("length %d after extracting one of %d", A->length, a.n);
    appendNodeToAlphaList(A, p);
    break;
  case CLEARMARK: clearMarkAlphaList(A); for (i = 0; i < a.n; i++) a.x[i].m = 0; break;
  case MARKALL: markAllAlphaList(A); for (i = 0; i < a.n; i++) a.x[i].m = 1; break;
  case XMARKED: {
    Seq e; e.n = 0;
    for (i = 0; i < a.n; ) if (a.x[i].m) { it = cut(&a, i); it.m = 0; push(&e, it); } else i++;
    p = extractMarkedAlphaList(A);
    verify(p, &e, "extracted");
    for (i = 0; i < e.n; i++) push(&b, e.x[i]);
    unionTwoAlphaLists(B, p);
    if (e.n == 0) destroyAlphaList(p);
    break; }
  case RMARKED:
    for (i = k = 0; i < a.n; ) if (a.x[i].m) { cut(&a, i); k++; } else i++;
    r = removeMarkedAlphaList(A);
    if (r != k) BAD("%d reported removed, should be %d", r, k);
    break;
  case SORT: {
    char used[64] = {0};
    sortAlphaList(A);
    /* ascending; equal vectors may come in any order */
    for (p = A->head, i = 0; p && i < 64; p = p->next, i++) {
      for (k = 0; k < a.n && (used[k] || a.x[k].p != p); k++);
      if (k == a.n) BAD("sorting made vector %d appear that was not there", i, 0);
      used[k] = 1;
    }
    if (i != a.n) BAD("sorting left %d of %d vectors", i, a.n);
    { Seq s; s.n = 0; for (p = A->head; p; p = p->next) { for (k = 0; a.x[k].p != p; k++); push(&s, a.x[k]); } a = s; }
    for (i = 1; i < a.n; i++) if (lex(a.x[i - 1].v, a.x[i].v)) BAD("after sorting vectors %d and %d are out of order", i - 1, i);
    break; }
  case UNION:
    for (i = 0; i < b.n; i++) push(&a, b.x[i]);
    unionTwoAlphaLists(A, B);
    if (b.n) B = newAlphaList();
    b.n = 0;
    break;
  case DUP: case COPY: case DUPWIT:
    if (ops[o].k == DUPWIT) for (i = 0; i < a.n; i++) if (!a.x[i].w) return;
    if (ops[o].k == COPY) { clearAlphaList(B); copyAlphaList(B, A); }
    else { destroyAlphaList(B); B = ops[o].k == DUP ? duplicateAlphaList(A) : duplicateAlphaListWithWitnesses(A); }
    b = a;
    for (i = 0; i < b.n; i++) { b.x[i].p = 0; if (ops[o].k != DUPWIT) b.x[i].w = 0; }
    verify(B, &b, "copy");
    for (i = 0; i < a.n; i++) for (k = 0; k < b.n; k++) if (a.x[i].p == b.x[k].p || a.x[i].p->alpha == b.x[k].p->alpha || (a.x[i].w && a.x[i].p->witness == b.x[k].p->witness)) BAD("the copy shares vector %d", i, 0);
    break;
  case RENUM:
    renumberAlphaList(A);
    for (p = A->head, i = 0; p && i < 64; p = p->next, i++) if (p->id != i) BAD("vector %d is numbered %d", i, p->id);
    break;
  case CLEAR: clearAlphaList(A); a.n = 0; break;
  case XUNMARKED:
    for (k = 0; k < a.n && a.x[k].m; k++);
    p = extractUnmarkedVector(A);
    if (p != (k == a.n ? 0 : a.x[k].p)) BAD("wrong unmarked vector extracted, should be number %d", k, 0);
    if (p) { it = cut(&a, k); appendNodeToAlphaList(B, p); push(&b, it); }
    break;
  case DUPNODE:
    if (!a.n || a.x[0].w) break;
    p = appendDuplicateNodeToAlphaList(B, A->head);
    it = a.x[0]; it.p = p; it.m = 0; push(&b, it);
    if (p == A->head || p->alpha == A->head->alpha) BAD("the duplicate shares its values", 0, 0);
    break;
  case SWAP: { Seq s = a; a = b; b = s; p = A; A = B; B = p; break; }
  }
  (void)q;
}

static void play(void) {
  int k, i, j, s1, s2;
  unsigned long h;
  A = newAlphaList(); B = newAlphaList(); a.n = b.n = 0;
  for (k = 0; k < len; k++) step(seq[k]);
  h = verify(A, &a, "A") * 1000003 + verify(B, &b, "B");
  /* comparisons of the two lists */
  s1 = a.n == b.n;
  for (i = 0; s1 && i < a.n; i++) s1 = a.x[i].v == b.x[i].v;
  s2 = a.n == b.n;
  for (i = 0; s2 && i < a.n; i++) s2 = find(&b, a.x[i].v) >= 0 && find(&a, b.x[i].v) >= 0;
  if (!!sameAlphaList(A, B, EPS) != s1) BAD("same list: should be %d", s1, 0);
  if (!!similarAlphaList(A, B, EPS) != s2) BAD("similar list: should be %d", s2, 0);
  { AlphaList two[2] = {A, B}; j = a.n > b.n ? a.n : b.n; if (maxSizeAlphaLists(two, 2) != j) BAD("largest size %d, should be %d", maxSizeAlphaLists(two, 2), j); }
  destroyAlphaList(A); destroyAlphaList(B);
  nseq++; nops += len;
  h = (h ^ (h >> 24) ^ (h >> 40)) & ((1 << 24) - 1);
  if (!seen[h]) { seen[h] = 1; nstates++; }
}

static void dfs(int depth) {
  int i;
  play();
  if (depth <= 0) return;
  for (i = 0; i < NOPS; i++) { seq[len++] = i; dfs(depth - 1); len--; }
}

int main(int argc, char **argv) {
  int i, depth = atoi(argv[1]);
  gNumStates = 2; gNumObservations = 2; gNumActions = 3;
  gStdErrFile = stderr;
  /* "=" before a number: part of the starting state, not of the explored depth */
  for (i = 2; i < argc; i++) {
    int fixed = argv[i][0] == '=', n = atoi(argv[i] + fixed);
    if (n >= NOPS) { printf("NONE %d\n", NOPS); return 0; }
    seq[len++] = n;
    if (!fixed) depth--;
  }
  dfs(depth);
  printf("OK %ld %ld %ld\n", nseq, nops, nstates);
  return 0;
}
