import functools, itertools
import numpy as np
import families as F, model as M
from vt import Check, Fail, run

C = Check("P15", "model_checking",
          "exhaustive enumeration: every sequence (set with order and repetition) of vectors over a value grid is purged by the real code with every strategy; survivors, witnesses and region tests are compared with exact polyhedral geometry of the same integers",
          "a state is one list of vectors with one strategy, a transition one purge or region test; distinct = different (list, survivors) shapes",
          ["advantages below the solver's precision are absent from the grids (all gaps are rationals with small denominators)"],
          variants=("plain", "asan"))
C.harnesses["purge"] = (["harness/purge.c"], ())
DOM, PRUNE, EPS = 1, 2, 3


@functools.lru_cache(maxsize=500000)
def gap(D):
    """max over the simplex of min_d d.b, exactly, for a frozenset of integer difference vectors"""
    if not D:
        return float("inf")
    S = len(next(iter(D)))
    D = [d for d in D if not any(e != d and all(x <= y for x, y in zip(e, d)) for e in D)]
    if S == 1:
        return float(min(D)[0])
    n = len(D)
    # unknowns b (S) and t; tight sets of S among n difference rows and S sign rows, plus sum b = 1
    rows = [list(d) + [-1.0] for d in D] + [[1.0 if j == k else 0.0 for j in range(S)] + [0.0] for k in range(S)]
    one = [1.0] * S + [0.0]
    sets = [s for s in itertools.combinations(range(n + S), S) if s[0] < n]
    A = np.array([[rows[i] for i in s] + [one] for s in sets])
    det = np.linalg.det(A)
    ok = np.abs(det) > 1e-9
    rhs = np.zeros((int(ok.sum()), S + 1, 1))
    rhs[:, S] = 1
    x = np.linalg.solve(A[ok], rhs)[:, :, 0]
    b = x[(x[:, :S] >= -1e-9).all(axis=1)][:, :S]
    return float((b @ np.array(D, float).T).min(axis=1).max())


def diff(v, W):
    return frozenset(tuple(x - y for x, y in zip(v, w)) for w in W)


def harness(builds, d, lines, variant):
    p = run([getattr(builds[variant], "h_purge")], d, "\n".join(lines).encode() + b"\n", timeout=100)
    if p.rc != 0 or not p.out.endswith("END\n"):
        raise Fail("the purge code died (rc=%s) at block %r: %s" % (p.rc, lines[min(p.out.count("\n"), len(lines) - 1)], p.err[-500:]))
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    out = p.out.split("\n")[:-2]
    out = [l for l in out if l[:2] in ("P ", "Q ", "D ", "F ", "V", "V ", "R", "R ")]
    if len(out) != len(lines):
        raise Fail("%d answers for %d questions" % (len(out), len(lines)))
    return out


def lists(c):
    """the sequences of one case: all sequences of c['n'] grid vectors with the given first ones"""
    if "top" in c:
        # the corners' vectors, and between them all sequences of vectors that stand out in the middle
        S, t = c["S"], c["top"]
        mid = [v for v in itertools.product(c["grid"], repeat=S) if sum(v) > t]
        rim = [tuple(t if j == k else 0 for j in range(S)) for k in range(S)]
        for rest in itertools.product(mid, repeat=c["n"] - S - 1):
            r = [mid[c["first"][0]]] + list(rest)
            yield rim + r if c["where"] == 0 else r + rim if c["where"] == 1 else r[:1] + rim + r[1:]
        return
    grid = list(itertools.product(c["grid"], repeat=c["S"]))
    for rest in itertools.product(range(len(grid)), repeat=c["n"] - len(c["first"])):
        yield [grid[i] for i in tuple(c["first"]) + rest]


def flat(L, sc, off):
    return " ".join(repr(x * sc + off) for v in L for x in v)


def subset(L, ans, what, sc, off):
    """indices and witnesses of the survivors"""
    head, *parts = ans.split(" | ")
    out = []
    S = len(L[0])
    for q in parts:
        w = q.split()
        i = int(w[0])
        v = [float(x) for x in w[1:1 + S]]
        if not 0 <= i < len(L) or any(i == k for k, _ in out):
            raise Fail("%s: survivor %d is not one of the list's vectors, or appears twice" % (what, i))
        if v != [x * sc + off for x in L[i]]:
            raise Fail("%s: vector %d was changed to %s" % (what, i, v))
        out.append((i, [float(x) for x in w[1 + S:]]))
    h = head.split()
    if int(h[2]) != len(out):
        raise Fail("%s: stored length %s, %d vectors" % (what, h[2], len(out)))
    return h, out


def lowered(L, keep):
    """by how much the survivors lower the value somewhere"""
    K = [L[i] for i in keep]
    return max([0.0] + [gap(diff(L[i], K)) for i in range(len(L)) if i not in keep])


def judge(L, ans, opt, alone, wit, eps, sc, off, what):
    h, surv = subset(L, ans, what, sc, off)
    keep = [i for i, _ in surv]
    if h[0] in "QD" and int(h[1]) != len(L) - len(keep):
        raise Fail("%s: reports %s removed, %d are gone" % (what, h[1], len(L) - len(keep)))
    if not keep:
        raise Fail("%s: nothing left" % what)
    low = lowered(L, keep) * sc
    if opt == 0 and keep != list(range(len(L))):
        raise Fail("%s: no purging was asked for, yet %s remain" % (what, keep))
    if opt == EPS:
        if low > eps + 1e-6:
            raise Fail("%s: the value drops by %g, allowed %g (kept %s)" % (what, low, eps, keep))
        if float(h[3]) < low - 1e-6 * (1 + low):
            raise Fail("%s: error reported as %s, is %g" % (what, h[3], low))
    elif low > 1e-7 * sc:
        raise Fail("%s: the value drops by %g (kept %s)" % (what, low, keep))
    if opt >= DOM and not alone:
        for i in keep:
            for j in keep:
                if all(x > y for x, y in zip(L[j], L[i])):
                    raise Fail("%s: kept %d, which %d exceeds in every component" % (what, i, j))
    if opt == PRUNE or (opt == EPS and eps <= 1e-6 * sc):
        for i in keep:
            if gap(diff(L[i], [L[j] for j in keep if j != i])) <= 1e-9:
                raise Fail("%s: kept %d of %s, which is nowhere better than the others" % (what, i, keep))
    for i, w in surv if opt == PRUNE else []:
        if wit:
            if not w:
                raise Fail("%s: no witness for %d" % (what, i))
            if min(w) < -1e-9 or abs(sum(w) - 1) > 1e-9:
                raise Fail("%s: witness %s of %d is no belief" % (what, w, i))
            if min([0.0] + [sum((x - y) * b for x, y, b in zip(L[i], L[j], w)) for j in range(len(L))]) < -1e-5:
                raise Fail("%s: vector %d is not best at its witness %s" % (what, i, w))
    return tuple(keep)


def strategies(n):
    yield "P", 0, 0, 0, 0.0
    yield "P", DOM, 0, 0, 0.0
    yield "P", PRUNE, 0, 0, 0.0
    yield "P", PRUNE, 1, 3, 0.0
    yield "Q", PRUNE, 1, 0, 0.0
    yield "D", DOM, 0, 0, 0.0
    yield "P", EPS, 0, 0, 1e-9
    yield "P", EPS, 0, 0, 0.3
    yield "P", EPS, 0, 0, 1.2


SPACES_Q = [(1, 3, [0, 1, 2]), (1, 5, [0, 2]), (2, 1, [0, 1, 2, 3]), (2, 2, [0, 1, 2, 3]), (2, 3, [0, 1, 2, 3]), (2, 4, [0, 1, 3]), (3, 2, [0, 1, 2]), (3, 3, [0, 1, 3]), (3, 4, [0, 1]), (4, 3, [0, 1])]
SPACES_T = [(1, 3, [0, 1, 2, 3]), (1, 6, [0, 2]), (2, 2, [0, 1, 2, 3, 5]), (2, 3, [0, 1, 2, 3, 5]), (2, 4, [0, 1, 2, 3]), (2, 5, [0, 1, 3]), (3, 3, [0, 1, 3]), (3, 4, [0, 1]), (3, 5, [0, 1]), (4, 3, [0, 1, 2]), (4, 4, [0, 1]), (5, 3, [0, 1])]
SCALES = [(1.0, 0.0), (0.001, 0.0), (1.0, -1000.0), (250.0, 7.0)]


MIDDLE_Q = [(2, 2, 6, [1, 2, 3, 4, 5]), (2, 3, 6, [1, 2, 3, 4, 5]), (3, 2, 6, [1, 3, 4])]
MIDDLE_T = [(2, 2, 9, [1, 2, 3, 4, 5, 6, 7, 8]), (2, 3, 6, [1, 2, 3, 4, 5]), (2, 4, 6, [2, 3, 4, 5]), (3, 2, 6, [1, 2, 3, 4]), (3, 3, 6, [1, 3, 4]), (4, 2, 6, [1, 2, 4])]


def purge_cases(tier):
    for S, k, top, grid in MIDDLE_T if tier == "thorough" else MIDDLE_Q:
        m = sum(sum(v) > top for v in itertools.product(grid, repeat=S))
        for first in range(m):
            for where in (0, 1, 2):
                yield {"S": S, "n": S + k, "grid": grid, "top": top, "first": [first], "where": where, "sc": SCALES[(first + where) % (4 if tier == "thorough" else 1)], "v": "plain"}
    for S, n, grid in SPACES_T if tier == "thorough" else SPACES_Q:
        size = len(grid) ** S
        free = n
        while size ** free > 1500 and free > 1:
            free -= 1
        scales = SCALES if tier == "thorough" else SCALES[:1] if size ** n > 10000 else SCALES[:1] + SCALES[2:3]
        for first in itertools.product(range(size), repeat=n - free):
            for k in range(len(scales)):
                yield {"S": S, "n": n, "grid": grid, "first": list(first), "sc": scales[k], "v": "asan" if sum(first) % 40 == 17 else "plain"}


@C.family("all sequences of grid vectors", purge_cases)
def f_purge(c, res, builds, d):
    sc, off = c["sc"]
    Ls = list(lists(c))
    for op, opt, wit, rnd, eps in strategies(c["n"]):
        if sc != 1.0 and eps > .1:
            eps *= sc
        lines = ["%s %d %d %d %d %d %r %s" % (op, c["S"], c["n"], opt, wit, rnd, eps, flat(L, sc, off)) for L in Ls]
        for L, a in zip(Ls, harness(builds, d, lines, c["v"])):
            what = "%s strategy %d (witnesses %d, random points %d, eps %g) of %s*%g%+g" % (op, opt, wit, rnd, eps, L, sc, off)
            k = judge(L, a, opt, op == "Q", wit, eps, sc, off, what)
            res.transitions += 1
            res.key(c["S"], opt, k, [sorted(range(len(L)), key=lambda i: L[i][s]) for s in range(c["S"])])
        res.states += len(Ls)
    res.traces += len(Ls)


def region_cases(tier):
    for c in purge_cases(tier):
        c["v"] = "plain"
        yield c


@C.family("region tests and starting points", region_cases)
def f_region(c, res, builds, d):
    sc, off = c["sc"]
    S, n = c["S"], c["n"]
    Ls = list(lists(c))
    for L, a in zip(Ls, harness(builds, d, ["F %d %d %s" % (S, n, flat(L, sc, off)) for L in Ls], c["v"])):
        w = a.split()
        g = gap(diff(L[0], L[1:]))
        what = "region of %s against %s (*%g%+g)" % (L[0], L[1:], sc, off)
        if int(w[1]) != (g > 1e-9):
            raise Fail("%s: found=%s, largest advantage is %g" % (what, w[1], g * sc))
        if int(w[1]):
            b = [float(x) for x in w[3:3 + S]]
            if min(b) < -1e-7 or abs(sum(b) - 1) > 1e-6:
                raise Fail("%s: the point %s is no belief" % (what, b))
            if n > 1:
                here = min(sum((x - y) * p for x, y, p in zip(L[0], o, b)) for o in L[1:])
                if abs(here - g) > 1e-5 * (1 + abs(off)) or abs(float(w[2]) - g * sc) > 1e-5 * (sc + abs(off)):
                    raise Fail("%s: advantage at %s is %g, reported %s, largest is %g" % (what, b, here * sc, w[2], g * sc))
        same = L[0] in L[1:]
        dom = any(all(y > x for x, y in zip(L[0], o)) for o in L[1:])
        if (int(w[-2]) != 0) != same or (int(w[-1]) != 0) != (same or dom):
            raise Fail("%s: simple checks say %s %s" % (what, w[-2], w[-1]))
        res.transitions += 1
    for op, tail in (("V", ""), ("R", "4 ")):
        for L, a in zip(Ls, harness(builds, d, ["%s %d %d %s%s" % (op, S, n, tail, flat(L, sc, off)) for L in Ls], c["v"])):
            marks = []
            for q in a.split(" | ")[1:]:
                w = q.split()
                i, b = int(w[0]), [float(x) for x in w[1:]]
                what = "%s of %s (*%g%+g): vector %d at %s" % ("corners" if op == "V" else "random points", L, sc, off, i, b)
                if min(b) < 0 or abs(sum(b) - 1) > 1e-6 or (op == "V" and max(b) != 1):
                    raise Fail("%s: not such a belief" % what)
                if max(sum((y - x) * p for x, y, p in zip(L[i], o, b)) for o in L) * sc > 1e-8:
                    raise Fail("%s: is not best there" % what)
                marks.append(i)
            if op == "V":
                for s in range(S):
                    best = max(v[s] for v in L)
                    if not any(L[i][s] == best for i in marks):
                        raise Fail("corner %d of %s: no best vector among the marked %s" % (s, L, marks))
                # ties are broken so that every marked vector is best on a region
                for i in marks:
                    if gap(diff(L[i], [L[j] for j in range(n) if L[j] != L[i]])) <= 1e-9:
                        raise Fail("corners of %s: marked vector %d is nowhere better than the others" % (L, i))
            elif not marks:
                raise Fail("random points of %s marked nothing" % (L,))
            res.transitions += 1
            res.key(S, op, marks and sorted(marks), n)
    res.states += 3 * len(Ls)
    res.traces += len(Ls)


# ---- the lists that value iteration itself purges ----------------------------------------------
# the last vector is best by 1.9e-4 (at 0, 0, 0.29, 0.71) among nearly parallel ones
NEAR = [[2.4198447124999993, 2.7056430109749994, 5.927344712500000, 0.5991863128749999],
        [2.4209520626781246, 2.7042781031874994, 5.928452062678125, 0.6036758595437499],
        [3.3674781422187498, 5.8528618553312492, -4.994847108750000, 5.1533680275625002],
        [3.3674793157249998, 5.8528632132749995, -4.994846635000000, 5.1533674757500005],
        [3.3680310473624999, 5.8494422844874991, -4.999396327624999, 5.1528942119062506],
        [2.4204146213156243, 2.7020750484874991, 5.927914621315625, 0.6041745873187498]]
BSHAPES = [(2, 2, 2), (3, 2, 2), (4, 2, 2), (5, 2, 2), (3, 3, 2), (3, 2, 3), (6, 2, 2)]


def vi_cases(tier):
    yield {"near": True}
    for n in range(12 if tier == "quick" else 150):
        for sh in range(len(BSHAPES)):
            for g in (0.1, 0.5, 0.95, 1.0):
                yield {"n": n, "sh": sh, "g": g}


def purge_real(c, res, builds, d, U, what):
    """-> the vectors that complete pruning keeps, after every strategy has been judged"""
    S = U.shape[1]
    ops = [x for x in strategies(len(U))] + [("P", EPS, 0, 0, 0.01)]
    txt = " ".join(repr(float(x)) for v in U for x in v)
    big = max(1.0, np.abs(U).max())
    kept = None
    for (op, opt, wit, rnd, eps), a in zip(ops, harness(builds, d, ["%s %d %d %d %d %d %r %s" % (o[0], S, len(U), *o[1:], txt) for o in ops], "plain")):
        head, *parts = a.split(" | ")
        ix = [int(q.split()[0]) for q in parts]
        w = "%s, strategy %s %d (eps %g)" % (what, op, opt, eps)
        if len(set(ix)) != len(ix) or not ix or not all(0 <= i < len(U) for i in ix):
            raise Fail("%s: survivors %s" % (w, ix))
        K = U[ix]
        for i, q in zip(ix, parts):
            if [float(x) for x in q.split()[1:1 + S]] != U[i].tolist():
                raise Fail("%s: vector %d was changed" % (w, i))
        vs = M.partition_vertices(K)
        if vs is not None:
            low = float((M.surface(U, vs) - M.surface(K, vs)).max())
            if low > (eps if opt == EPS else 0) + 1e-6 * big:
                raise Fail("%s: the value drops by %g" % (w, low), "purge-near-parallel" if c.get("near") else None)
        elif opt != EPS and len(ix) < len(U):
            res.note("completeness not decided: too many vertices")
        if opt == PRUNE and not wit and op == "P":
            for i in range(len(K)):
                g = M.dominated_somewhere(K, i)
                if g is not None and g < 1e-10:
                    raise Fail("%s: kept a vector that is nowhere better than the others" % w)
            kept = K
        if opt == 0 and ix != list(range(len(U))):
            raise Fail("%s: removed vectors" % w)
        if opt == DOM and any((K[j] > K[i]).all() for i in range(len(K)) for j in range(len(K))) and op == "P":
            raise Fail("%s: kept a vector that another exceeds in every component" % w)
        res.transitions += 1
        res.key(S, op, opt, np.round(K, 6).tolist() if len(K) < 12 else len(K))
    res.states += 1
    res.traces += 1
    return kept


@C.family("the lists of value iteration", vi_cases)
def f_vi(c, res, builds, d):
    """every list an exact backup produces for an indexed family of models, four epochs deep"""
    if c.get("near"):
        purge_real(c, res, builds, d, np.array(NEAR), "nearly parallel vectors")
        return
    S, A, O = BSHAPES[c["sh"]]
    n = c["n"]
    m = F.model_n(n + 9000, S, A, O, c["g"], full_r=n % 3 == 1, values="cost" if n % 4 == 3 else "reward")
    V = np.zeros((1, S))
    for ep in range(4):
        L = []
        for a in range(A):
            G = [V @ m.G[a, o].T for o in range(O)]
            for ch in itertools.product(range(len(V)), repeat=O):
                L.append(m.er[a] + sum(G[o][k] for o, k in enumerate(ch)))
        U = np.unique(np.round(np.array(L), 12), axis=0)
        if len(U) > 150:
            break
        if n % 2:
            U = U[::-1]
        V = purge_real(c, res, builds, d, U, "model %d, epoch %d" % (n, ep + 1))
        if len(V) ** O * A > 150:
            break
