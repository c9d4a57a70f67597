/* Random stream: for every seed of a boundary grid, the stream depends on the seed only and resuming
   from a saved seed at every position continues it.  Exits 1 with a message on the first failure. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "global.h"
#include "random.h"

#define N 24
static long checks = 0, states = 0;
static char ctx[200];
static void bad(const char *m) { printf("FAIL %s: %s\n", ctx, m); exit(1); }

static void stream(double *out, int n) { for (int i = 0; i < n; i++) out[i] = fran(); }

static double draw(int op) {
  double v[4];
  switch (op) {
  case 0: return fran();
  case 1: return getRandomInt(0, 999);
  case 2: return getRandomDouble(-1.0, 1.0);
  case 3: setRandomDistribution(v, 3); return v[0] + 2 * v[1] + 4 * v[2];
  default: setRandomDoubleVector(v, 3, -1.0, 2.0); return v[0] + 2 * v[1] + 4 * v[2];
  }
}
static void mixed(double *out, int from, int to, int mode) { for (int i = from; i < to; i++) out[i] = draw(i % 2 ? mode / 5 : mode % 5); }

int main(int argc, char **argv) {
  static const int V[] = {0, 1, 2, 255, 256, 4660, 32767, 32768, 40000, 65534, 65535};
  int nv = sizeof V / sizeof *V, a, b, c, k, i, lo = atoi(argv[1]), hi = atoi(argv[2]);
  for (a = lo; a < hi && a < nv; a++) for (b = 0; b < nv; b++) for (c = 0; c < nv; c++) {
    unsigned short s[SEED_SIZE] = {V[a], V[b], V[c]}, t[SEED_SIZE], u[SEED_SIZE];
    double x[N], y[N];
    char str[100];
    sprintf(ctx, "seed %d:%d:%d", V[a], V[b], V[c]);
    setRandomSeed(s);
    getRandomSeed(t);
    if (memcmp(s, t, sizeof s)) bad("the seed read back is not the one set");
    stream(x, N);
    for (i = 0; i < N; i++) if (!(x[i] >= 0.0 && x[i] < 1.0)) bad("number outside [0,1)");
    /* the textual form means the same seed */
    sprintf(str, "%d:%d:%d", V[a], V[b], V[c]);
    setRandomSeedFromString(str);
    stream(y, N);
    if (memcmp(x, y, sizeof x)) bad("the seed given as text starts another stream");
    /* and is what is displayed */
    setRandomSeed(s);
    FILE *f = tmpfile();
    displayRandomSeed(f);
    rewind(f);
    memset(str, 0, sizeof str);
    if (fread(str, 1, sizeof str - 1, f) == 0) bad("nothing displayed");
    fclose(f);
    setRandomSeed(t);
    fran();
    setRandomSeedFromString(str);
    stream(y, N);
    if (memcmp(x, y, sizeof x)) bad("the displayed seed starts another stream");
    /* save at every position, disturb, restore, continue */
    for (k = 0; k < N; k++) {
      setRandomSeed(s);
      stream(y, k);
      getRandomSeed(u);
      for (i = 0; i < k % 5 + 1; i++) fran();
      randomize();              /* must not reseed a seeded generator */
      setRandomSeed(u);
      stream(y + k, N - k);
      if (memcmp(x, y, sizeof x)) { sprintf(ctx + strlen(ctx), " position %d", k); bad("resuming from the saved seed gives another stream"); }
      states++;
    }
    /* every mixture (words of length two) of the kinds of draws: same seed, same stream; saved, disturbed, resumed */
    for (int mode = 0; mode < 25; mode++) {
      double mx[N], my[N];
      if ((a + b + c + mode) % 5) continue;
      setRandomSeed(s); mixed(mx, 0, N, mode);
      setRandomSeed(s); mixed(my, 0, N, mode);
      if (memcmp(mx, my, sizeof mx)) { sprintf(ctx + strlen(ctx), " draws %d", mode); bad("the same seed gives another stream of draws"); }
      for (k = 0; k < N; k++) {
        setRandomSeed(s);
        mixed(my, 0, k, mode);
        getRandomSeed(u);
        for (i = 0; i <= k % 3; i++) draw((mode + k / 3 + i) % 5);
        setRandomSeed(u);
        mixed(my, k, N, mode);
        if (memcmp(mx, my, sizeof mx)) { sprintf(ctx + strlen(ctx), " draws %d position %d", mode, k); bad("resuming from the saved seed gives another stream of draws"); }
        states++;
      }
    }
    /* derived draws */
    static const int R[][2] = {{0, 0}, {0, 1}, {-3, 3}, {5, 9}, {0, 9}};
    for (k = 0; k < 5; k++) {
      int seen = 0;
      setRandomSeed(s);
      for (i = 0; i < 400; i++) {
        int r = getRandomInt(R[k][0], R[k][1]);
        if (r < R[k][0] || r > R[k][1]) bad("getRandomInt out of range");
        seen |= 1 << (r - R[k][0]);
      }
      if (seen != (1 << (R[k][1] - R[k][0] + 1)) - 1) bad("getRandomInt never gives some value of its range");
      setRandomSeed(s);
      for (i = 0; i < 50; i++) {
        double r = getRandomDouble(-2.5, 4.0);
        if (!(r >= -2.5 && r < 4.0)) bad("getRandomDouble out of range");
      }
    }
    for (k = 1; k <= 6; k++) {
      double d[8], e[8];
      setRandomSeed(s);
      d[k] = 123.0;
      for (int rep = 0; rep < 20; rep++) {
        double sum = 0;
        setRandomDistribution(d, k);
        for (i = 0; i < k; i++) { if (!(d[i] >= 0)) bad("negative probability"); sum += d[i]; }
        if (!(sum > 1 - 1e-9 && sum < 1 + 1e-9)) bad("random distribution does not sum to one");
        if (d[k] != 123.0) bad("random distribution written past its end");
      }
      setRandomSeed(s);
      for (int rep = 0; rep < 20; rep++) setRandomDistribution(e, k);
      if (memcmp(d, e, k * sizeof *d)) bad("random distributions differ for the same seed");
    }
    checks++;
  }
  printf("OK %ld %ld\n", checks, states);
  return 0;
}
