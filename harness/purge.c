/* Purging of vector lists.  stdin: blocks
     P S n opt wit rand eps  then n*S numbers -> purgeAlphaList:  "P <diff> k  idx w.. | idx - | .."
     Q ...                               -> prune() alone:  "Q <count> .." ; D -> dominationCheck
     F S n  (first against the others)   -> "F found diff point..  simple0 simple1"
     V S n                               -> "V marks.." best at the corners
     R S n points                        -> "R marks.." best at random points */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "global.h"
#include "timing.h"
#include "random.h"
#include "mdp/mdp.h"
#include "pomdp.h"
#include "alpha.h"
#include "stats.h"
#include "params.h"
#include "common.h"
#include "lp-interface.h"
#include "parsimonious.h"
#include "region.h"

static AlphaList rd(int n, int S, int first) {
  AlphaList l = newAlphaList();
  int i, s;
  for (i = 0; i < n; i++) {
    double *v = newAlpha();
    for (s = 0; s < S; s++) if (scanf("%lf", v + s) != 1) exit(3);
    appendAlphaList(l, v, i + first);
  }
  return l;
}

int main(void) {
  char op;
  int S, n, opt, wit, rnd, i, s, k, cur = -1;
  double eps;
  AlphaList l, p;
  PomdpSolveParams param = newPomdpSolveParams();
  gStdErrFile = stderr;
  initCommon();
  initLpInterface(param);
  while (scanf(" %c %d %d", &op, &S, &n) == 3) {
    gNumStates = S; gNumActions = 100; gNumObservations = 2;
    if (S != cur) { if (cur >= 0) cleanUpGlobal(); initGlobal(); cur = S; }
    if (op == 'P' || op == 'Q' || op == 'D') {
      if (scanf("%d %d %d %lf", &opt, &wit, &rnd, &eps) != 4) return 3;
      l = rd(n, S, 0);
      param->use_witness_points = wit;
      param->prune_init_rand_points = rnd;
      param->prune_epsilon = eps;
      param->epsilon_diff_of_last_prune = -1;
      k = 0;
      if (op == 'P') purgeAlphaList(l, opt, param);
      else if (op == 'Q') k = prune(l, opt, param);
      else k = dominationCheck(l);
      printf("%c %d %d %.12g %d", op, k, sizeAlphaList(l), param->epsilon_diff_of_last_prune, 0);
      for (p = l->head; p; p = p->next) {
        printf(" | %d", p->action);
        for (s = 0; s < S; s++) printf(" %.17g", p->alpha[s]);
        if (p->witness) for (s = 0; s < S; s++) printf(" %.17g", p->witness[s]);
      }
      printf("\n");
      destroyAlphaList(l);
    } else if (op == 'F') {
      double *v = newAlpha(), b[16], diff = -1;
      for (s = 0; s < S; s++) if (scanf("%lf", v + s) != 1) return 3;
      l = rd(n - 1, S, 1);
      k = findRegionPoint(v, l, b, &diff, param);
      printf("F %d %.12g", k, diff);
      for (s = 0; s < S; s++) printf(" %.12g", k ? b[s] : 0.);
      printf(" %d %d\n", isEmptyRegionSimpleCheck(l, v, 1e-9, 0), isEmptyRegionSimpleCheck(l, v, 1e-9, 1));
      destroyAlphaList(l); destroyAlpha(v);
    } else {
      k = 0;
      if (op == 'R' && scanf("%d", &k) != 1) return 3;
      l = rd(n, S, 0);
      clearMarkAlphaList(l);
      if (op == 'V') markBestAtSimplexVertices(l, TRUE, 1e-9); else markBestAtRandomPoints(l, k, TRUE, 1e-9);
      printf("%c", op);
      for (p = l->head; p; p = p->next) if (p->mark) {
        printf(" | %d", p->action);
        for (s = 0; s < S; s++) printf(" %.17g", p->witness ? p->witness[s] : -1.);
      }
      printf("\n");
      destroyAlphaList(l);
    }
  }
  cleanUpLpInterface();
  printf("END\n");
  return 0;
}
