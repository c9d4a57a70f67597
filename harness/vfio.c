/* Reading and writing value functions and belief lists.  stdin: blocks
     R <kind a|b> <S> <max> <len>\n<bytes>      -> file from bytes, read; prints the list
     W <kind> <S> <n>\n then n lines "action hexdouble.."   -> list built, saved, read back; prints the list, then the file
   A list prints as "L n", "NULL", lines "action hexdouble ...". */
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "global.h"
#include "mdp/mdp.h"
#include "alpha.h"
#include "belief.h"

static void show(AlphaList l, BeliefList b, int kind) {
  int i, n = 0;
  if (kind == 'a') {
    if (!l) { printf("NULL\n"); return; }
    for (AlphaList p = l->head; p; p = p->next) n++;
    printf("L %d %d %d\n", n, sizeAlphaList(l), l->head == NULL ? l->tail == NULL : l->tail != NULL && l->tail->next == NULL);
    for (AlphaList p = l->head; p; p = p->next) {
      printf("%d %d", p->action, p->id);
      for (i = 0; i < gNumStates; i++) printf(" %a", p->alpha[i]);
      printf("\n");
    }
  } else {
    if (!b) { printf("NULL\n"); return; }
    for (BeliefList p = b; p; p = p->next) n++;
    printf("L %d %d 1\n", n, sizeBeliefList(b));
    for (BeliefList p = b; p; p = p->next) {
      printf("0 0");
      for (i = 0; i < gNumStates; i++) printf(" %a", p->b[i]);
      printf("\n");
    }
  }
}

int main(void) {
  char op, kind;
  int S, n, len, i, j, a;
  gStdErrFile = fopen("/dev/null", "w");
  while (scanf(" %c %c %d", &op, &kind, &S) == 3) {
    gNumStates = S;
    if (op == 'R') {
      static char buf[1 << 16];
      FILE *f;
      if (scanf("%d %d", &n, &len) != 2) return 3;
      getchar();
      if (fread(buf, 1, len, stdin) != (size_t)len) return 3;
      f = fopen("x.dat", "w"); fwrite(buf, 1, len, f); fclose(f);
      if (kind == 'a') { AlphaList l = readAlphaList("x.dat", n); show(l, 0, kind); if (l) destroyAlphaList(l); }
      else { BeliefList l = readBeliefList("x.dat", n); show(0, l, kind); if (l) destroyBeliefList(l); }
    } else {
      AlphaList l = newAlphaList(), r = 0;
      BeliefList b = 0, rb = 0;
      if (scanf("%d", &n) != 1) return 3;
      for (i = 0; i < n; i++) {
        double *v = newAlpha();
        if (scanf("%d", &a) != 1) return 3;
        for (j = 0; j < S; j++) if (scanf("%lf", v + j) != 1) return 3;
        if (kind == 'a') appendAlphaList(l, v, a); else { double *w = newBelief(); memcpy(w, v, S * sizeof *v); b = appendBeliefList(b, w); }
      }
      unlink("y.dat");
      if (kind == 'b' && !b) { printf("NULL\nF 0\n\n"); continue; }
      if (kind == 'a') { saveAlphaList(l, "y.dat"); r = readAlphaList("y.dat", 0); show(r, 0, kind); }
      else { saveBeliefList(b, "y.dat"); rb = readBeliefList("y.dat", 0); show(0, rb, kind); }
      FILE *f = fopen("y.dat", "r");
      int c; long sz = 0;
      if (!f) { printf("NOFILE\n"); continue; }
      fseek(f, 0, SEEK_END); sz = ftell(f); rewind(f);
      printf("F %ld\n", sz);
      while ((c = getc(f)) != EOF) putchar(c);
      fclose(f);
      printf("\n");
      destroyAlphaList(l); if (r) destroyAlphaList(r);
      if (rb) destroyBeliefList(rb); if (b) destroyBeliefList(b);
    }
  }
  printf("END\n");
  return 0;
}
