/* Long histories on the containers, every one completely checked against what was put in.
     contbig MODE N FORM      prints "OK checks" or "BAD what" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "global.h"
#include "mdp/mdp.h"
#include "mdp/parse_hash.h"
#include "double-vector.h"
#include "index-list.h"
#include "belief.h"
#include "associative-array.h"

static long checks;
static void BAD(const char *f, ...) {
  va_list ap; printf("BAD "); va_start(ap, f); vprintf(f, ap); va_end(ap); printf("\n"); exit(0);
}
#define CK(c, ...) do { checks++; if (!(c)) BAD(__VA_ARGS__); } while (0)
#define MIN(a, b) ((a) < (b) ? (a) : (b))

/* the i-th name: all different */
static char *name(char *b, int i, int form) {
  static const char *L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  int k, n = 0;
  switch (form) {
  case 0: sprintf(b, "s%d", i); break;
  case 1: sprintf(b, "state-number-%d-of-many", i); break;
  case 2:                                            /* letters only, shortest first */
    do { b[n++] = L[i % 52]; i = i / 52 - 1; } while (i >= 0);
    b[n] = 0; break;
  case 3:                                            /* of growing length, one letter */
    for (k = 0; k <= i; k++) b[k] = 'q';
    b[k] = 0; break;
  case 4: sprintf(b, "x%06dx", i); break;            /* one length, one bucket per digit */
  default: sprintf(b, "%0*dlong", 1, 0); sprintf(b, "very_long_common_beginning_of_a_name_and_then_%d_and_a_very_long_common_end_of_a_name", i);
  }
  return b;
}
static Mnemonic_Type T[3] = {nt_state, nt_action, nt_observation};

static void hash(int n, int form) {
  char *b = malloc(n + 200); int i, t, round;
  /* twice: a second table must know nothing of the first */
  for (round = 0; round < 2; round++) {
    H_create();
    for (i = 0; i < n; i++) for (t = 0; t < 3; t++) {
      if ((i + t) % 3 == 2 && t) continue;           /* the kinds have different numbers of names */
      CK(H_lookup(name(b, i, form), T[t]) == -1, "name %d of kind %d is known before it is entered", i, t);
      CK(H_enter(name(b, i, form), T[t]) == 1, "name %d of kind %d is refused", i, t);
    }
    for (t = 0; t < 3; t++) {
      int want = 0;
      for (i = 0; i < n; i++) {
        int in = !((i + t) % 3 == 2 && t), r = H_lookup(name(b, i, form), T[t]);
        CK(r == (in ? want : -1), "name %d of kind %d has number %d, should be %d", i, t, r, in ? want : -1);
        if (in) { want++; if (i % 7 == 0 || i > n - 3) CK(H_enter(name(b, i, form), T[t]) == 0, "name %d of kind %d entered twice", i, t); }
      }
      CK((t == 0 ? gNumStates : t == 1 ? gNumActions : gNumObservations) == want, "count of kind %d", t);
    }
    H_destroy();
  }
  free(b);
}

static int val(int i) { return (int) ((i * 2654435761u) >> 3) - 1000; }
static void il(int n, int form) {
  int i, c = 0;
  IndexList l = IL_new(), o = IL_new();
  for (i = 0; i < n; i++) {
    IL_append(l, val(i));
    if (form == 1 && i % 1000 == 999 && i < 4000) IL_resize(l);
    if (form == 2) IL_append(o, -i);
    CK(IL_sizeOf(l) == i + 1 && l->size == i + 1 && l->capacity > i, "size after %d", i + 1);
    CK(l->capacity >= c, "the capacity shrinks at %d", i); c = l->capacity;
    CK(l->element[i] == val(i) && l->element[0] == val(0) && l->element[i / 2] == val(i / 2), "elements after %d", i + 1);
  }
  for (i = 0; i < n; i++) CK(l->element[i] == val(i), "element %d is %d", i, l->element[i]);
  if (form == 2) for (i = 0; i < n; i++) CK(o->element[i] == -i, "element %d of the other is %d", i, o->element[i]);
  IL_dispose(l); IL_dispose(o);
}

static void aa(int n, int form) {
  int i, k, w = form == 0 ? 16 : 200, p; char a[256], b[256]; char *g;
  AssocArray m = AA_new(n, w);
  for (p = 0; p < 2; p++)                              /* then every value again, in the other order */
    for (k = 0; k < n; k++) {
      i = p ? n - 1 - k : k;
      sprintf(a, form == 0 ? "k%d" : "%d-key", i);
      memset(b, 'v', 250); sprintf(b + (form == 0 ? 4 : (i % 180)), "%d%c", i, p ? 'B' : 'A');
      if (p == 0) CK(AA_get(m, a) == 0, "key %d is known before it is put", i);
      CK(AA_put(m, a, b) == !p, "put %d, pass %d", i, p);
      CK(AA_size(m) == (p ? n : k + 1), "size at %d", k);
      memset(a, 'z', 20);
    }
  CK(AA_put(m, "other", "x") == -1 && AA_size(m) == n && AA_get(m, "other") == 0, "a full array took another key");
  for (i = 0; i < n; i++) {
    sprintf(a, form == 0 ? "k%d" : "%d-key", i);
    memset(b, 'v', 250); sprintf(b + (form == 0 ? 4 : (i % 180)), "%dB", i);
    g = AA_get(m, a);
    CK(g && !strcmp(g, b), "key %d has another value", i);
  }
  AA_delete(m);
}

static int NB;
static void fill(double *b, int i) { int k; for (k = 0; k < NB; k++) b[k] = 0; b[i % (NB - 1)] = (1.0 + i) / 4000; b[NB - 1] += 1 - (1.0 + i) / 4000; }
static void bl(int n, int form) {
  int i, f = 0, at; BeliefList l = 0, p; double *b, *c;
  gNumStates = NB = 2 + form;
  c = newBelief();
  int *ord = malloc(sizeof(int) * (2 * n + 2)); f = n;     /* ord[f..at) is the order expected */
  at = n;
  for (i = 0; i < n; i++) {
    b = newBelief(); fill(b, i);
    if (i % 3 == 1) { l = prependBeliefList(l, b); ord[--f] = i; } else { l = appendBeliefList(l, b); ord[at++] = i; }
    destroyBelief(b);
    if (i % 97 == 0) CK(sizeBeliefList(l) == at - f, "size after %d", i + 1);
  }
  CK(sizeBeliefList(l) == n, "size");
  for (p = l, i = f; p; p = p->next, i++) {
    CK(i < at, "more beliefs than were put in");
    fill(c, ord[i]);
    CK(sameBelief(p->b, c, 1e-13) && !memcmp(p->b, c, NB * sizeof *c), "belief %d", i - f);
    if (n <= 500 || i % 50 == 0) CK(findBeliefState(l, c, 1e-9) == p, "belief %d is looked up wrongly", i - f);
  }
  CK(i == at, "fewer beliefs than were put in");
  destroyBelief(c); destroyBeliefList(l); free(ord);
}

static double dvv(int i, int k) { return (double) val(i) / (1 + k); }
static double *dv(int i) { double *d = DV_new(); int k; for (k = 0; k < gNumStates; k++) d[k] = dvv(i, k); return d; }
static void dvIs(DoubleVectorList l, int n, int first, int step, int id0, const char *w) {
  DoubleVectorNode p; int i, k;
  CK(l->length == n && DV_sizeOfList(l) == n, "%s: length %d", w, l->length);
  for (p = l->head, i = 0; p; p = p->next, i++) {
    CK(i < n, "%s: more than %d vectors", w, n);
    for (k = 0; k < gNumStates; k++) CK(p->v[k] == dvv(first + i * step, k), "%s: vector %d component %d", w, i, k);
    CK(p->id == id0 + i, "%s: vector %d has number %d", w, i, p->id);
    if (!p->next) CK(l->tail == p, "%s: tail", w);
  }
  CK(i == n, "%s: only %d vectors", w, i);
}
static void dvl(int n, int form) {
  DoubleVectorList a, b, c; int i; double *x;
  gNumStates = form == 0 ? 1 : form == 1 ? 3 : 40;
  a = DV_newList(0); b = DV_newList(0);
  for (i = 0; i < n; i++) DV_appendList(a, dv(i), 0);
  dvIs(a, n, 0, 1, 0, "appended");
  for (i = 0; i < n; i++) DV_prependList(b, dv(i), 0);
  dvIs(b, n, n - 1, -1, -(n - 1), "prepended");
  c = DV_duplicateList(a);
  dvIs(c, n, 0, 1, 0, "duplicate");
  CK(DV_isSameList(a, c, 1e-12), "a duplicate is not the same list");
  if (n <= 1500) CK(DV_isSimilaraList(a, b, 1e-12), "the same vectors in the other order are not the same set");
  if (n > 1) CK(!DV_isSameList(a, b, 1e-12), "the other order is the same list");
  /* the last vector differs in its last component */
  c->tail->v[gNumStates - 1] += 1;
  CK(!DV_isSameList(a, c, 1e-12), "another last component is the same list");
  if (n <= 1500) CK(!DV_isSimilaraList(a, c, 1e-12) && !DV_isSimilaraList(c, a, 1e-12), "another last component is the same set");
  x = dv(n - 1);
  CK(DV_findNode(a, x, 1e-12) == a->tail && !DV_queryList(c, x, 1e-12), "finding the last vector");
  DV_destroy(x);
  DV_renumberList(b);
  dvIs(b, n, n - 1, -1, 0, "renumbered");
  /* all but a tenth moved through a queue */
  for (i = 0; i < n - n / 10; i++) DV_enqueueNode(b, DV_dequeueNode(a));
  dvIs(a, n / 10, n - n / 10, 1, n - n / 10, "dequeued");
  CK(DV_sizeOfList(b) == 2 * n - n / 10 && b->tail->v[0] == dvv(n - n / 10 - 1, 0), "enqueued");
  DV_clearList(c);
  dvIs(c, 0, 0, 0, 0, "cleared");
  DV_copyList(c, a);
  CK(DV_isSameList(a, c, 1e-12), "copied into a cleared list");
  DV_destroyList(c);
  i = DV_sizeOfList(b);
  DV_unionTwoLists(b, a);
  CK(DV_sizeOfList(b) == i + n / 10, "union has %d vectors", DV_sizeOfList(b));
  if (n / 10) { CK(b->tail->v[0] == dvv(n - 1, 0), "last vector of the union"); } else DV_destroyList(a);
  DV_destroyList(b);
}

int main(int c, char **v) {
  int n = atoi(v[2]), form = atoi(v[3]);
  gStdErrFile = stderr;
  if (!strcmp(v[1], "hash")) hash(n, form);
  else if (!strcmp(v[1], "il")) il(n, form);
  else if (!strcmp(v[1], "aa")) aa(n, form);
  else if (!strcmp(v[1], "bl")) bl(n, form);
  else if (!strcmp(v[1], "dv")) dvl(n, form);
  else return 3;
  printf("OK %ld\n", checks);
  return 0;
}
