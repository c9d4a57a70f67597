/* The general containers against reference sequences and maps.
     cont MACHINE DEPTH i0 [i1 ..]   every operation sequence of exactly DEPTH operations that begins with i0 ..
   Prints "OK sequences operations states" or "BAD sequence: what", or "NONE n" when i0 is not an operation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include "global.h"
#include "mdp/mdp.h"
#include "mdp/parse_hash.h"
#include "double-vector.h"
#include "index-list.h"
#include "belief.h"
#include "belief-state.h"
#include "value-function.h"
#include "associative-array.h"

extern DoubleVectorNode DV_newNode(DoubleVector v, void *attr);   /* missing from the header */
#define MAXD 64
static int seq[MAXD], len, NOPS;
static long nseq, nops, nstates;
static unsigned char seen[1 << 22];
static const char *(*opname)(int);
static unsigned long HH;

static void BAD(const char *f, ...) {
  int k; va_list ap;
  printf("BAD");
  for (k = 0; k < len; k++) printf(" %s;", opname(seq[k]));
  printf(": ");
  va_start(ap, f); vprintf(f, ap); va_end(ap);
  printf("\n");
  exit(0);
}
static void mix(long x) { HH = (HH ^ (unsigned long) x) * 1099511628211UL; }

/* ------------------------------------------------------------ vectors with lists */
#define NV 4
static double V[NV][2] = {{0, 0}, {1, 1}, {-1, 3}, {1, 1.5}};
typedef struct { DoubleVectorNode p; int v, id; void *attr; } It;
typedef struct { It x[128]; int n; void *attr; } Seq;
static DoubleVectorList A, B;
static Seq a, b;
static int tag[256], ntag;
static double *dv(int v) { double *d = DV_new(); d[0] = V[v][0]; d[1] = V[v][1]; return d; }
static It cut(Seq *s, int i) { It r = s->x[i]; memmove(s->x + i, s->x + i + 1, (s->n - i - 1) * sizeof r); s->n--; return r; }

static const char *dvNames[] = {"append 0", "append 1", "append 2", "append 3", "prepend 0", "prepend 2", "append node 1", "prepend node 3",
  "dequeue, enqueue in B", "append a duplicate of the first to B", "append a duplicate of the last", "dequeue, prepend again", "renumber", "clear",
  "duplicate as B", "copy into emptied B", "union with B", "swap A and B", "dequeue and destroy"};
static const char *dvName(int o) { return dvNames[o]; }
static void dvReset(void) { A = DV_newList(&tag[200]); B = DV_newList(&tag[201]); a.n = b.n = 0; a.attr = &tag[200]; b.attr = &tag[201]; ntag = 0; }
static void dvEnd(void) { DV_destroyList(A); DV_destroyList(B); }

static void dvCheck(DoubleVectorList l, Seq *s, const char *w) {
  DoubleVectorNode p; int i, v, k;
  if (l->length != s->n || DV_sizeOfList(l) != s->n) BAD("%s: stored length %d, should be %d", w, l->length, s->n);
  if (l->attr != s->attr) BAD("%s: the list's attribute changed", w);
  if (s->n == 0 && l->head) BAD("%s: an empty list has a first vector", w);
  for (p = l->head, i = 0; p; p = p->next, i++) {
    if (i >= s->n) BAD("%s: more than %d vectors can be reached", w, s->n);
    if (s->x[i].p && s->x[i].p != p) BAD("%s: vector %d is not the node expected", w, i);
    s->x[i].p = p;
    if (p->v[0] != V[s->x[i].v][0] || p->v[1] != V[s->x[i].v][1]) BAD("%s: vector %d has other values than vector %d", w, i, s->x[i].v);
    if (p->attr != s->x[i].attr) BAD("%s: vector %d has the wrong attribute", w, i);
    if (p->id != s->x[i].id) BAD("%s: vector %d has number %d, should be %d", w, i, p->id, s->x[i].id);
    mix(s->x[i].v * 64 + s->x[i].id);
  }
  if (i != s->n) BAD("%s: %d vectors can be reached, should be %d", w, i, s->n);
  if (s->n && l->tail != s->x[s->n - 1].p) BAD("%s: the tail is not the last vector", w);
  for (v = 0; v < NV; v++) {
    for (k = 0; k < s->n && s->x[k].v != v; k++);
    if (DV_findNode(l, V[v], 1e-9) != (k < s->n ? s->x[k].p : 0)) BAD("%s: vector %d is looked up wrongly", w, v);
    if (!!DV_queryList(l, V[v], 1e-9) != (k < s->n)) BAD("%s: query of vector %d is wrong", w, v);
  }
  mix(-1);
}

static void dvVerify(void) {
  int i, same = a.n == b.n, sim = a.n == b.n, v, f, g;
  dvCheck(A, &a, "A"); dvCheck(B, &b, "B");
  for (i = 0; i < a.n && same; i++) same = a.x[i].v == b.x[i].v;
  for (v = 0; v < NV && sim; v++) {
    for (f = i = 0; i < a.n; i++) f |= a.x[i].v == v;
    for (g = i = 0; i < b.n; i++) g |= b.x[i].v == v;
    sim = f == g;
  }
  if (!!DV_isSameList(A, B, 1e-9) != same) BAD("the lists are called %s", same ? "different" : "equal");
  if (!!DV_isSimilaraList(A, B, 1e-9) != sim) BAD("the lists are called %s sets", sim ? "different" : "equal");
}

static It item(DoubleVectorNode p, int v, int id, void *attr) { It r; r.p = p; r.v = v; r.id = id; r.attr = attr; return r; }
static int dvStep(int o) {
  int v, i; It it; DoubleVectorNode p, q; DoubleVectorList t; Seq ts; void *at;
  switch (o) {
  case 0: case 1: case 2: case 3: case 6:
    v = o == 6 ? 1 : o; at = &tag[ntag++ % 200];
    if (o == 6) { q = DV_newNode(dv(v), at); DV_appendNodeToList(A, q); p = q; } else p = DV_appendList(A, dv(v), at);
    a.x[a.n] = item(p, v, a.n ? a.x[a.n - 1].id + 1 : 0, at); a.n++;
    return 1;
  case 4: case 5: case 7:
    v = o == 4 ? 0 : o == 5 ? 2 : 3; at = &tag[ntag++ % 200];
    if (o == 7) { q = DV_newNode(dv(v), at); DV_prependNodeToList(A, q); p = q; } else p = DV_prependList(A, dv(v), at);
    it = item(p, v, a.n ? a.x[0].id - 1 : 0, at);
    memmove(a.x + 1, a.x, a.n * sizeof it); a.x[0] = it; a.n++;
    return 1;
  case 8: case 11: case 18:
    p = DV_dequeueNode(A);
    if (p != (a.n ? a.x[0].p : 0)) BAD("dequeue gave the wrong node");
    if (!a.n) return 0;
    if (p->next) BAD("a dequeued node still has a successor");
    it = cut(&a, 0);
    if (o == 18) { DV_destroyNode(p); return 1; }
    if (o == 8) { DV_enqueueNode(B, p); it.id = b.n ? b.x[b.n - 1].id + 1 : 0; b.x[b.n++] = it; return 1; }
    DV_prependNodeToList(A, p); it.id = a.n ? a.x[0].id - 1 : 0;
    memmove(a.x + 1, a.x, a.n * sizeof it); a.x[0] = it; a.n++;
    return 1;
  case 9:
    if (!a.n) return 0;
    p = DV_appendDuplicateNodeToList(B, a.x[0].p);
    if (p == a.x[0].p || p->v == a.x[0].p->v) BAD("the duplicate shares the original's memory");
    b.x[b.n] = item(p, a.x[0].v, b.n ? b.x[b.n - 1].id + 1 : 0, a.x[0].attr); b.n++;
    return 1;
  case 10:
    if (!a.n) return 0;
    p = DV_appendDuplicateNodeToList(A, a.x[a.n - 1].p);
    a.x[a.n] = item(p, a.x[a.n - 1].v, a.x[a.n - 1].id + 1, a.x[a.n - 1].attr); a.n++;
    return 1;
  case 12: DV_renumberList(A); for (i = 0; i < a.n; i++) a.x[i].id = i; return 1;
  case 13: DV_clearList(A); a.n = 0; return 1;
  case 14: case 15:
    if (o == 14) { DV_destroyList(B); B = DV_duplicateList(A); at = 0; }
    else { DV_clearList(B); DV_copyList(B, A); at = b.attr; }
    b = a; b.attr = at;
    for (p = B->head, i = 0; p && i < a.n; p = p->next, i++) {
      if (p == a.x[i].p || p->v == a.x[i].p->v) BAD("the copy shares the original's memory");
      b.x[i].p = p;
    }
    return 1;
  case 16:
    if (a.n + b.n > 60) return 0;
    /* an empty partner is left alone, a non-empty one is used up */
    if (b.n == 0) { DV_unionTwoLists(A, B); return 1; }
    DV_unionTwoLists(A, B);
    for (i = 0; i < b.n; i++) a.x[a.n++] = b.x[i];
    B = DV_newList(&tag[202]); b.n = 0; b.attr = &tag[202];
    return 1;
  case 17: t = A; A = B; B = t; ts = a; a = b; b = ts; return 1;
  }
  return 0;
}

/* ------------------------------------------------------------ index lists */
static int burst[] = {1, 2, 7, 9, 10, 11, 21};
static char nm[64];
static const char *ilName(int o) { sprintf(nm, o < 14 ? "append %d to %d" : "make %2$d larger", burst[o % 7], o / 7); if (o >= 14) sprintf(nm, "make %d larger", o - 14); return nm; }
static IndexList IL[2]; static int ilv[2][2048], iln[2], ilc;
static void ilReset(void) { int k; for (k = 0; k < 2; k++) { IL[k] = IL_new(); iln[k] = 0; } ilc = -3; }
static void ilEnd(void) { IL_dispose(IL[0]); IL_dispose(IL[1]); }
static int ilStep(int o) {
  int k = o / 7, i;
  if (o >= 14) { IL_resize(IL[o - 14]); return 1; }
  for (i = 0; i < burst[o % 7]; i++) { IL_append(IL[k], ilc); ilv[k][iln[k]++] = ilc; ilc = (ilc * 3 + 5) % 99991; }
  return 1;
}
static void ilVerify(void) {
  int k, i;
  for (k = 0; k < 2; k++) {
    if (IL_sizeOf(IL[k]) != iln[k] || IL[k]->size != iln[k]) BAD("list %d has size %d, should be %d", k, IL_sizeOf(IL[k]), iln[k]);
    if (IL[k]->capacity < iln[k]) BAD("list %d: capacity %d below its size", k, IL[k]->capacity);
    for (i = 0; i < iln[k]; i++) if (IL[k]->element[i] != ilv[k][i]) BAD("list %d: element %d is %d, should be %d", k, i, IL[k]->element[i], ilv[k][i]);
    mix(iln[k]); mix(IL[k]->capacity);
  }
}

/* ------------------------------------------------------------ belief lists */
static double BV[5][2] = {{1, 0}, {0, 1}, {.5, .5}, {.5 + 1e-7, .5 - 1e-7}, {.25, .75}};
static BeliefList L; static struct { BeliefList p; int v; } bl[64]; static int bn;
static const char *blName(int o) { sprintf(nm, o < 10 ? "%s %d" : "start again", o < 5 ? "prepend" : "append", o % 5); return nm; }
static void blReset(void) { L = NULL; bn = 0; }
static void blEnd(void) { destroyBeliefList(L); }
static int blStep(int o) {
  double *src; BeliefList r, was = L;
  if (o == 10) { if (!bn) return 0; destroyBeliefList(L); L = NULL; bn = 0; return 1; }
  src = newBelief();
  if (src[0] != 0 || src[1] != 0) BAD("a new belief is not all zero");
  copyBelief(src, BV[o % 5]);
  if (!sameBelief(src, BV[o % 5], 1e-12)) BAD("a copied belief differs");
  if (o < 5) { L = prependBeliefList(L, src); if (L == was || L->next != was) BAD("prepend did not put the belief first"); memmove(bl + 1, bl, bn * sizeof *bl); bl[0].p = L; bl[0].v = o; bn++; }
  else {
    r = appendBeliefList(L, src);
    if (was && r != was) BAD("append changed the start of the list");
    L = r; bl[bn].p = 0; bl[bn].v = o - 5; bn++;
  }
  /* the list keeps its own copy */
  src[0] = src[1] = 77;
  destroyBelief(src);
  return 1;
}
static void blVerify(void) {
  BeliefList p; int i, v, k;
  for (p = L, i = 0; p; p = p->next, i++) {
    if (i >= bn) BAD("more than %d beliefs can be reached", bn);
    if (bl[i].p && bl[i].p != p) BAD("belief %d is not the node expected", i);
    bl[i].p = p;
    if (p->b[0] != BV[bl[i].v][0] || p->b[1] != BV[bl[i].v][1]) BAD("belief %d has other values than belief %d", i, bl[i].v);
    if (p->mark) BAD("belief %d is marked", i);
    mix(bl[i].v);
  }
  if (i != bn) BAD("%d beliefs can be reached, should be %d", i, bn);
  if (bn && sizeBeliefList(L) != bn) BAD("size %d, should be %d", sizeBeliefList(L), bn);
  for (v = 0; v < 5; v++) {
    for (k = 0; k < bn && bl[k].v != v; k++);
    if (findBeliefState(L, BV[v], 1e-9) != (k < bn ? bl[k].p : 0)) BAD("belief %d is looked up wrongly", v);
    for (k = 0; k < bn && !(bl[k].v == v || (v == 2 && bl[k].v == 3) || (v == 3 && bl[k].v == 2)); k++);
    if (findBeliefState(L, BV[v], 1e-5) != (k < bn ? bl[k].p : 0)) BAD("belief %d is looked up wrongly with a coarse tolerance", v);
  }
}

/* ------------------------------------------------------------ names */
/* pairs that differ in one character only, in length only, and that share a bucket */
static const char *W[] = {"a", "A", "ab", "ba", "aab", "abc", "abd", "abxbc", "abybc", "ab-bc", "bayxbc", "a9_", "state-1", "state-2", "state-1-", "stone-1"};
#define NW 16
static int hn[3], ht[3][NW], usedTypes = 3;
static const char *hName(int o) { sprintf(nm, "enter %s as %s", W[o / 3], o % 3 == 0 ? "state" : o % 3 == 1 ? "action" : "observation"); return nm; }
static void hReset(void) { int k, w; H_create(); for (k = 0; k < 3; k++) { hn[k] = 0; for (w = 0; w < NW; w++) ht[k][w] = -1; } }
static void hEnd(void) { H_destroy(); }
static int hStep(int o) {
  int t = o % 3, w = o / 3, r; char buf[32];
  strcpy(buf, W[w]);
  r = H_enter(buf, t == 0 ? nt_state : t == 1 ? nt_action : nt_observation);
  memset(buf, 'z', 8);
  if (!!r != (ht[t][w] < 0)) BAD("entering returned %d", r);
  if (ht[t][w] < 0) ht[t][w] = hn[t]++;
  return 1;
}
static void hVerify(void) {
  int t, w, r;
  for (t = 0; t < 3; t++) for (w = 0; w < NW; w++) {
    char buf[32];
    strcpy(buf, W[w]);
    r = H_lookup(buf, t == 0 ? nt_state : t == 1 ? nt_action : nt_observation);
    if (r != ht[t][w]) BAD("%s is number %d of kind %d, should be %d", W[w], r, t, ht[t][w]);
    mix(r);
  }
  if (gNumStates != hn[0] || gNumActions != hn[1] || gNumObservations != hn[2]) BAD("counts %d %d %d, should be %d %d %d", gNumStates, gNumActions, gNumObservations, hn[0], hn[1], hn[2]);
}

/* all words of up to five letters of two, as names of one kind: prefixes and shared buckets */
static char ww[62][6]; static int wt[62], wn;
static const char *wName(int o) { sprintf(nm, "enter %s", ww[o]); return nm; }
static void wReset(void) {
  int l, k, i, o = 0;
  for (l = 1; l <= 5; l++) for (k = 0; k < 1 << l; k++, o++) { for (i = 0; i < l; i++) ww[o][i] = k >> i & 1 ? 'b' : 'a'; ww[o][l] = 0; }
  H_create(); wn = 0;
  for (o = 0; o < 62; o++) wt[o] = -1;
}
static int wStep(int o) {
  if (!!H_enter(ww[o], nt_observation) != (wt[o] < 0)) BAD("entering a %s name returned %d", wt[o] < 0 ? "new" : "known", wt[o] >= 0);
  if (wt[o] < 0) wt[o] = wn++;
  return 1;
}
static void wVerify(void) {
  int o;
  for (o = 0; o < 62; o++) {
    if (H_lookup(ww[o], nt_observation) != wt[o] || H_lookup(ww[o], nt_state) != -1) BAD("%s is number %d, should be %d", ww[o], H_lookup(ww[o], nt_observation), wt[o]);
    mix(wt[o]);
  }
  if (gNumObservations != wn) BAD("count %d, should be %d", gNumObservations, wn);
}

/* ------------------------------------------------------------ key/value arrays */
static const char *K[] = {"k", "kk", "K", "", "key-abc"}, *U[] = {"v", "", "value-1"};
static AssocArray AA; static int ak[8], au[8], an;
static const char *aName(int o) { sprintf(nm, "put '%s'='%s'", K[o / 3], U[o % 3]); return nm; }
static void aReset(void) { AA = AA_new(3, 8); an = 0; }
static void aEnd(void) { AA_delete(AA); }
static int aStep(int o) {
  int k = o / 3, u = o % 3, i, r, want; char kb[16], ub[16];
  strcpy(kb, K[k]); strcpy(ub, U[u]);
  for (i = 0; i < an && ak[i] != k; i++);
  want = i < an ? 0 : an < 3 ? 1 : -1;
  r = AA_put(AA, kb, ub);
  memset(kb, 'z', 8); memset(ub, 'z', 8);
  if (r != want) BAD("put returned %d, should be %d", r, want);
  if (want >= 0) { ak[i] = k; au[i] = u; an += want; }
  return 1;
}
static void aVerify(void) {
  int k, i; char *g;
  if (AA_size(AA) != an) BAD("size %d, should be %d", AA_size(AA), an);
  for (k = 0; k < 5; k++) {
    char kb[16];
    strcpy(kb, K[k]);
    for (i = 0; i < an && ak[i] != k; i++);
    g = AA_get(AA, kb);
    if ((g == 0) != (i == an) || (g && strcmp(g, U[au[i]]))) BAD("key '%s' has value %s, should be %s", K[k], g ? g : "none", i < an ? U[au[i]] : "none");
    mix(i < an ? au[i] : -1);
  }
  if (AA_put(AA, NULL, "x") != -1 || AA_put(AA, "x", NULL) != -1 || AA_put(NULL, "x", "x") != -1 || AA_get(NULL, "x") || AA_get(AA, NULL) || AA_size(NULL) != -1)
    BAD("a missing argument was not refused");
}

/* ------------------------------------------------------------ belief grids and value functions */
static const char *gName(int o) { sprintf(nm, "append %d %s attribute to %s", o % 4, o & 4 ? "with" : "without", o & 8 ? "value function" : "grid"); return nm; }
static DoubleVectorList GR, VFN; static int gv[2][64], gn[2];
static void gReset(void) { GR = BS_newGrid(); VFN = VF_new(); gn[0] = gn[1] = 0; }
static void gEnd(void) { BS_destroyGrid(GR); VF_destroy(VFN); }
static int gStep(int o) {
  int k = !!(o & 8); void *at = 0;
  if (o & 4) { at = XMALLOC(64); memset(at, 0, 64); }
  DV_appendList(k ? VFN : GR, dv(o % 4), at);
  gv[k][gn[k]++] = o % 4;
  return 1;
}
static void gVerify(void) {
  int k, i; DoubleVectorNode p;
  for (k = 0; k < 2; k++) {
    DoubleVectorList l = k ? VFN : GR;
    if (DV_sizeOfList(l) != gn[k]) BAD("size %d, should be %d", DV_sizeOfList(l), gn[k]);
    if (!l->attr) BAD("no attributes");
    for (p = l->head, i = 0; p; p = p->next, i++) { if (p->v[0] != V[gv[k][i]][0] || p->v[1] != V[gv[k][i]][1]) BAD("vector %d", i); mix(gv[k][i] + (p->attr ? 4 : 0)); }
    mix(-1);
  }
}

/* ------------------------------------------------------------ driver */
static struct { const char *name; int n; const char *(*nm)(int); void (*reset)(void), (*end)(void); int (*step)(int); void (*verify)(void); } M[] = {
  {"dv", 19, dvName, dvReset, dvEnd, dvStep, dvVerify}, {"il", 16, ilName, ilReset, ilEnd, ilStep, ilVerify},
  {"bl", 11, blName, blReset, blEnd, blStep, blVerify}, {"hash", 48, hName, hReset, hEnd, hStep, hVerify},
  {"aa", 15, aName, aReset, aEnd, aStep, aVerify}, {"grid", 16, gName, gReset, gEnd, gStep, gVerify},
  {"words", 62, wName, wReset, hEnd, wStep, wVerify}};

static int mc;
static void record(void) {
  HH = 1469598103934665603UL;
  M[mc].verify();
  if (!(seen[(HH >> 3) & ((1 << 22) - 1)] & (1 << (HH & 7)))) { seen[(HH >> 3) & ((1 << 22) - 1)] |= 1 << (HH & 7); nstates++; }
}

/* plays seq[0..n), verifying from operation `from` on; 0 if an operation does not apply */
static int play(int n, int from) {
  int i, ok = 1;
  M[mc].reset();
  for (i = 0; i < n && ok; i++) {
    len = i + 1;
    ok = M[mc].step(seq[i]);
    if (i >= from) { nops++; record(); }
  }
  if (n == 0) { len = 0; record(); }
  M[mc].end();
  return ok;
}

static void dfs(int n, int depth) {
  int o;
  if (n == depth) return;
  for (o = 0; o < NOPS; o++) {
    seq[n] = o;
    nseq++;
    if (play(n + 1, n)) dfs(n + 1, depth);
  }
}

int main(int c, char **v) {
  int i, k, depth, n = 0, x, y;
  gNumStates = 2; gStdErrFile = stderr;
  for (mc = 0; mc < 7 && strcmp(M[mc].name, v[1]); mc++);
  if (mc == 7) return 3;
  NOPS = M[mc].n; opname = M[mc].nm;
  depth = atoi(v[2]);
  for (i = 3; i < c; i++) { k = atoi(v[i]); if (k >= NOPS) { printf("NONE %d\n", NOPS); return 0; } seq[n++] = k; }
  if (mc == 0)
    /* vector comparisons, all pairs */
    for (x = 0; x < NV; x++) for (y = 0; y < NV; y++) {
      double *d = DV_duplicate(V[x]), e[2] = {9, 9};
      int dom = V[x][0] > V[y][0] && V[x][1] > V[y][1], lex = V[x][0] != V[y][0] ? V[x][0] > V[y][0] : V[x][1] > V[y][1];
      DV_copy(e, V[y]);
      if (!!DV_isSame(d, e, 1e-9) != (x == y) || !!DV_isDominated(d, e) != dom || !!DV_isLexicographicallyBetter(d, e, 1e-9) != lex || !!DV_isZero(d, 1e-9) != (x == 0))
        BAD("comparison of vectors %d and %d", x, y);
      DV_destroy(d);
    }
  play(0, 0);
  for (i = 1; i <= n; i++) { if (!play(i, i - 1)) { printf("OK %ld %ld %ld\n", nseq + 1, nops, nstates); return 0; } }
  nseq++;
  dfs(n, depth);
  printf("OK %ld %ld %ld\n", nseq, nops, nstates);
  return 0;
}
