import itertools, os, re
import numpy as np
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail, run

C = Check("P19", "model_checking",
          "explicit-state enumeration of small vector lists, pairs of lists, belief lists and policy graphs; each real tool is run on every member and its output file compared with a direct computation",
          "a state is a vector, belief or graph link whose reported fact was recomputed, a transition one run of a tool; distinct = different outputs",
          ["vectors are chosen so that values differ by nothing or by more than twice the comparison precision",
           "among equally near vectors any may be chosen by pg_relink"])
# value lattices: no accidental near-ties
ALPH = {1: [(0,), (1,), (-1,), (2.5,)],
        2: [(0, 0), (1, 1), (2, -1), (-1, 2), (1.5, 0), (-3, -3)],
        3: [(0, 0, 0), (1, 1, 1), (3, -1, 0), (-1, 3, 0.5), (0, -2, 4), (1.5, 1, -2), (2, 2, -4), (-5, -5, 5)]}


def runtool(b, d, tool, args, what):
    p = run([b.tools, "-tool", tool] + [str(a) for a in args], d)
    if p.timeout or p.rc != 0:
        raise Fail("%s: rc %s %s" % (what, p.rc, (p.err + p.out)[-300:]))
    return p


def put(d, name, avs):
    open(os.path.join(d, name), "w").write(M.fmt_alpha(avs))


def read(d, name, what):
    if not os.path.exists(os.path.join(d, name)):
        raise Fail("%s: no output file" % what)
    return open(os.path.join(d, name)).read()


def lists_small(Sn, upto):
    for k in range(1, upto + 1):
        for c in itertools.product(range(len(ALPH[Sn])), repeat=k):
            yield c


def indexed_list(n, Sn, maxlen, vals=(0, 0.5, 1, -1, 2, -2.5, 4, 7)):
    w = F.Walk(n * 13 + Sn)
    return [(w(4), np.array([vals[w(len(vals))] for _ in range(Sn)], float)) for _ in range(1 + w(maxlen))]


def acts(c, k=3):
    return [(sum(c[:i + 1]) * 7 + i) % k for i in range(len(c))]


def single_cases(tier):
    for Sn, up in ((1, 3), (2, 3), (3, 2)) if tier == "quick" else ((1, 4), (2, 4), (3, 4)):
        for c in lists_small(Sn, up):
            yield {"S": Sn, "c": list(c)}
    for n in range(300 if tier == "quick" else 6000):
        yield {"S": [1, 2, 3, 4, 5][n % 5], "n": n, "max": [4, 10, 30][n % 3]}


def get(c):
    if "c" in c:
        return [(a, np.array(ALPH[c["S"]][i], float)) for a, i in zip(acts(c["c"]), c["c"])]
    return indexed_list(c["n"], c["S"], c["max"])


def pairs_of(avs):
    return sorted((a, tuple(np.round(v, 9).tolist())) for a, v in avs)


def check_sorted(avs, what):
    for (_, x), (_, y) in zip(avs, avs[1:]):
        if tuple(x) > tuple(y):
            raise Fail("%s: not in ascending order: %s before %s" % (what, list(x), list(y)))


@C.family("sort and purge", single_cases)
def f_single(c, res, builds, d):
    b = builds["plain"]
    avs = get(c)
    put(d, "a.alpha", avs)
    runtool(b, d, "sort_alphas", ["-states", c["S"], "-alpha1", "a.alpha", "-o", "s.alpha"], "sort")
    out = M.parse_alpha(read(d, "s.alpha", "sort"))
    if pairs_of(out) != pairs_of(avs):
        raise Fail("sort changed the vectors: %s -> %s" % (pairs_of(avs), pairs_of(out)))
    check_sorted(out, "sort")
    p = runtool(b, d, "purge_alphas", ["-states", c["S"], "-alpha1", "a.alpha", "-o", "p.alpha"], "purge")
    out = M.parse_alpha(read(d, "p.alpha", "purge"))
    check_sorted(out, "purge")
    inp = set(pairs_of(avs))
    for x in pairs_of(out):
        if x not in inp:
            raise Fail("purge invented %s" % (x,))
    V, W = S.vecs(avs), S.vecs(out) if out else np.zeros((0, c["S"]))
    if len(W) == 0:
        raise Fail("purge left nothing")
    bel, _ = M.test_beliefs(np.unique(V, axis=0), c["S"])
    gap = M.surface(V, bel) - M.surface(W, bel)
    if gap.max() > 1e-6:
        raise Fail("purge lowered the value by %g at %s" % (gap.max(), bel[gap.argmax()].tolist()))
    for i in range(len(W)):
        g = M.dominated_somewhere(W, i)
        if g is not None and g < 1e-10:
            raise Fail("purge kept %s, which is nowhere better than the others" % W[i].tolist())
    m = re.search(r"Input Alpha Count: (\d+)\s+Ou\w+ Alpha Count: (\d+)", p.out)
    if not m or (int(m.group(1)), int(m.group(2))) != (len(V), len(W)):
        raise Fail("purge reported %s, had %d and left %d" % (m and m.groups(), len(V), len(W)))
    res.states += len(V) * 2
    res.transitions += 2
    res.traces += 2
    res.key(pairs_of(out))


# ---------------------------------------------------------------- beliefs
def best_sets(avs, bel, eps):
    val = bel @ S.vecs(avs).T
    return val.max(axis=1), [[i for i in range(len(avs)) if val[k, i] >= val[k].max() - eps] for k in range(len(bel))]


def parse_mapping(text, nb, na, what):
    """-> values, best index lists, unique lists, non-unique lists from one 'Belief Mapping' section"""
    try:
        m = re.search(r"Belief List: (\d+) points\s+Alpha List (\d+) vectors", text)
        if (int(m.group(1)), int(m.group(2))) != (nb, na):
            raise Fail("%s: reports %s points and vectors, there are %d and %d" % (what, m.groups(), nb, na))
        bs, al = text.split("--- Alpha Section --")
        val, best, nonu = [], [], []
        for k, blk in enumerate(re.split(r"Belief\[\d+\]:", bs)[1:]):
            i = re.search(r"Best Alpha Indices:([ \d]*)(\(non-unique\))?", blk)
            best.append([int(x) for x in i.group(1).split()])
            nonu.append(bool(i.group(2)))
            val.append(float(re.search(r"Best Alpha Value: (\S+)", blk).group(1)))
        uq, nq = [], []
        for blk in re.split(r"Alpha\[\d+\]:", al)[1:]:
            for lst, pat in ((uq, r"  Uniquely best:(.*)"), (nq, r"  Non-uniquely best:(.*)")):
                t = re.search(pat, blk).group(1)
                lst.append([] if "NONE" in t else [int(x) for x in t.split()])
        return val, best, nonu, uq, nq
    except (AttributeError, ValueError, IndexError) as e:
        raise Fail("%s: cannot read the report (%s)" % (what, e))


def check_mapping(text, avs, bel, eps, res, what):
    val, best, nonu, uq, nq = parse_mapping(text, len(bel), len(avs), what)
    wv, wb = best_sets(avs, bel, eps)
    if len(val) != len(bel) or len(uq) != len(avs):
        raise Fail("%s: %d beliefs and %d vectors listed, there are %d and %d" % (what, len(val), len(uq), len(bel), len(avs)))
    for k in range(len(bel)):
        if best[k] != wb[k] or nonu[k] != (len(wb[k]) > 1):
            raise Fail("%s: belief %d %s: best vectors %s, expected %s" % (what, k, bel[k].tolist(), best[k], wb[k]))
        if not abs(val[k] - wv[k]) <= eps + 2e-6 * (1 + abs(wv[k])):
            raise Fail("%s: belief %d: value %g, expected %g" % (what, k, val[k], wv[k]))
    for i in range(len(avs)):
        wu = [k for k in range(len(bel)) if wb[k] == [i]]
        wn = [k for k in range(len(bel)) if i in wb[k] and len(wb[k]) > 1]
        if uq[i] != wu or nq[i] != wn:
            raise Fail("%s: vector %d: uniquely best at %s, also best at %s; expected %s and %s" % (what, i, uq[i], nq[i], wu, wn))
        res.states += len(bel)
    return wv, wb


def bel_for(Sn, n):
    g = M.simplex_grid(Sn, {1: 1, 2: 4, 3: 4, 4: 2, 5: 2}[Sn])
    return g if n % 3 == 0 else g[::-1] if n % 3 == 1 else np.concatenate([g[::2], g[:1]])


def putbel(d, bel):
    open(os.path.join(d, "b.bel"), "w").write("".join(" ".join("%.12g" % x for x in b) + "\n" for b in bel))


EPS = [None, 1e-6, 0.01]


def two_cases(tier):
    for Sn, up in ((1, 1), (2, 2)) if tier == "quick" else ((1, 3), (2, 2), (3, 2)):
        L = list(lists_small(Sn, up))
        for c in L:
            for e in L:
                yield {"S": Sn, "c": list(c), "e": list(e)}
    for n in range(400 if tier == "quick" else 6000):
        yield {"S": [1, 2, 3, 4, 5][n % 5], "n": n, "max": [3, 8, 20][n % 3]}


SIZES = [1, 2, 97, 98, 99, 100, 101, 128]


def long_cases(tier):
    for na in SIZES:
        for nb in SIZES if tier == "quick" else SIZES + [255, 256, 257, 1000]:
            for kind in ("copies", "fan", "tangents"):
                yield {"S": 2, "na": na, "nb": nb, "kind": kind}


def long_list(kind, n):
    if kind == "copies":        # every vector equal: all tie everywhere
        return [(i % 3, np.array([1.0, 2.0])) for i in range(n)]
    if kind == "fan":           # all meet at one belief, two of them are best elsewhere
        return [(i % 3, np.array([1.0 + i, 1.0 - i])) for i in range(n)]
    return [(i % 3, np.array([2 * x - x * x, -x * x])) for i, x in ((i, (i + 0.5) / n) for i in range(n))]      # each best in its interval


def longsort_cases(tier):
    for n in (2, 33, 99, 128, 129, 256, 300, 511, 700) + ((150, 400, 600) if tier != "quick" else ()):
        for kind in ("copies", "fan", "tangents", "mix", "wide"):
            for order in range(3):
                yield {"n": n, "kind": kind, "order": order}


@C.family("sort and purge, long lists", longsort_cases)
def f_longsort(c, res, builds, d):
    """lists whose purged form is known: only one of many equal vectors, the two outer ones of a fan, every tangent"""
    n, kind = c["n"], c["kind"]
    Sn = 2
    if kind == "mix":
        avs = long_list("tangents", n) + [(a, v - 0.5) for a, v in long_list("tangents", n)] + [(1, np.array([0.0, -3.0]))] * 5
        keep = n
    elif kind == "wide":        # many states: each vector best at its own corner, each also lowered
        Sn = min(n, 99)
        avs = [(i % 3, 3.0 * np.eye(Sn)[i] - i / 64.0) for i in range(Sn)] if Sn < 60 else [(i % 3, 3.0 * np.eye(Sn)[i]) for i in range(Sn)]
        avs += [(a, v - 1) for a, v in avs]
        keep = Sn
    else:
        avs = long_list(kind, n)
        keep = {"copies": 1, "fan": min(2, n), "tangents": n}[kind]
    if c["order"] == 1:
        avs = avs[::-1]
    elif c["order"] == 2:
        w = F.Walk(n)
        for i in range(len(avs) - 1, 0, -1):
            j = w(i + 1)
            avs[i], avs[j] = avs[j], avs[i]
    put(d, "a.alpha", avs)
    b = builds["plain"]
    runtool(b, d, "sort_alphas", ["-states", Sn, "-alpha1", "a.alpha", "-o", "s.alpha"], "sort")
    out = M.parse_alpha(read(d, "s.alpha", "sort"))
    if pairs_of(out) != pairs_of(avs):
        raise Fail("sort changed the vectors of a list of %d (%s)" % (len(avs), kind))
    check_sorted(out, "sort")
    p = run([b.tools, "-tool", "purge_alphas", "-states", str(Sn), "-alpha1", "a.alpha", "-o", "p.alpha"], d, timeout=120)
    if p.timeout or p.rc != 0:
        raise Fail("purge of %d vectors: rc %s %s" % (len(avs), p.rc, (p.err + p.out)[-200:]))
    out = M.parse_alpha(read(d, "p.alpha", "purge"))
    check_sorted(out, "purge")
    inp = set(pairs_of(avs))
    if len(out) != keep or any(x not in inp for x in pairs_of(out)) or len(set(tuple(v) for _, v in out)) != keep:
        raise Fail("purge of %d vectors (%s) left %d, expected %d" % (len(avs), kind, len(out), keep))
    V, W = S.vecs(avs), S.vecs(out)
    bel = np.concatenate([M.simplex_grid(Sn, 4000 if Sn == 2 else 1), np.full((1, Sn), 1.0 / Sn)])
    gap = M.surface(V, bel) - M.surface(W, bel)
    if gap.max() > 1e-6:
        raise Fail("purge lowered the value by %g" % gap.max())
    m = re.search(r"Input Alpha Count: (\d+)\s+Ou\w+ Alpha Count: (\d+)", p.out)
    if not m or (int(m.group(1)), int(m.group(2))) != (len(V), len(W)):
        raise Fail("purge reported %s, had %d and left %d" % (m and m.groups(), len(V), len(W)))
    res.states += len(V) * 2
    res.transitions += 2
    res.traces += 2
    res.key(n, kind, len(out))


@C.family("belief maps and comparisons", two_cases)
def f_two(c, res, builds, d):
    b = builds["plain"]
    if "na" in c:
        A1, A2 = long_list(c["kind"], c["na"]), long_list(c["kind"], max(1, c["nb"] // 2))
        bel = np.array([[k / c["nb"], 1 - k / c["nb"]] for k in range(c["nb"])])
        return two(c, res, b, d, A1, A2, bel, c["na"] + c["nb"])
    if "c" in c:
        A1 = get({"S": c["S"], "c": c["c"]})
        A2 = get({"S": c["S"], "c": c["e"]})
        n = sum(c["c"]) + 3 * sum(c["e"])
    else:
        n = c["n"]
        A1 = indexed_list(2 * n, c["S"], c["max"])
        A2 = indexed_list(2 * n + 1, c["S"], c["max"])
        if n % 4 == 0:
            A2 = list(A1[::-1]) + A2[:2]
    two(c, res, b, d, A1, A2, bel_for(c["S"], n), n)


def two(c, res, b, d, A1, A2, bel, n):
    put(d, "a1", A1)
    put(d, "a2", A2)
    putbel(d, bel)
    eps = EPS[n % 3] if "na" not in c else None
    ea = [] if eps is None else ["-epsilon", eps]
    e = 1e-9 if eps is None else eps
    runtool(b, d, "map_beliefs", ["-states", c["S"], "-alpha1", "a1", "-belief", "b.bel", "-o", "o.map"] + ea, "map_beliefs")
    t = read(d, "o.map", "map_beliefs")
    check_mapping(t.split("\nAll Belief Points:")[0], A1, bel, e, res, "map_beliefs")
    runtool(b, d, "belief_alpha_compare", ["-states", c["S"], "-alpha1", "a1", "-alpha2", "a2", "-belief", "b.bel", "-o", "o.cmp"] + ea, "belief_alpha_compare")
    t = read(d, "o.cmp", "belief_alpha_compare")
    parts = t.split("==============\nBelief Mapping\n==============")
    if len(parts) != 3:
        raise Fail("belief_alpha_compare: %d mapping sections" % (len(parts) - 1))
    k = parts[2].find("Belief[0]:\n  [0] Best Alpha1")
    if k < 0:
        raise Fail("belief_alpha_compare: no comparison section")
    v1, b1 = check_mapping(parts[1], A1, bel, e, res, "belief_alpha_compare first list")
    v2, b2 = check_mapping(parts[2][:k], A2, bel, e, res, "belief_alpha_compare second list")
    check_compare(parts[2][k:], v1, b1, v2, b2, e, "belief_alpha_compare")
    runtool(b, d, "compare_alphas", ["-states", c["S"], "-alpha1", "a1", "-alpha2", "a2", "-o", "o.al"] + ea, "compare_alphas")
    check_alphacmp(read(d, "o.al", "compare_alphas"), A1, A2, e, res)
    res.transitions += 3
    res.traces += 3
    res.key(t)


def check_compare(t, v1, b1, v2, b2, eps, what):
    try:
        body, summ = t.split("-- Summary --")
        blks = re.split(r"Belief\[\d+\]:", body)[1:]
        diffs = v2 - v1
        nz = []
        if len(blks) != len(v1):
            raise Fail("%s: %d beliefs compared of %d" % (what, len(blks), len(v1)))
        for k, blk in enumerate(blks):
            for j, (w, bb) in enumerate(((v1, b1), (v2, b2)), 1):
                ix = [int(x) for x in re.search(r"Best Alpha%d Indices:(.*)" % j, blk).group(1).split()]
                va = float(re.search(r"Best Alpha%d Value: (\S+)" % j, blk).group(1))
                if ix != bb[k] or not abs(va - w[k]) <= eps + 2e-6 * (1 + abs(va)):
                    raise Fail("%s: belief %d list %d: %s %g, expected %s %g" % (what, k, j, ix, va, bb[k], w[k]))
            df, nzf = re.search(r"Difference: (\S+)( \(non-zero\))?", blk).groups()
            if not abs(float(df) - diffs[k]) <= 2 * eps + 2e-6 * (1 + abs(diffs[k])):
                raise Fail("%s: belief %d: difference %s, expected %g" % (what, k, df, diffs[k]))
            if bool(nzf) != (abs(diffs[k]) > 2 * eps):
                raise Fail("%s: belief %d: difference %g marked %s" % (what, k, diffs[k], nzf))
            if nzf:
                nz.append(k)
        if int(re.search(r"with value difference: (\d+)", summ).group(1)) != len(nz):
            raise Fail("%s: wrong number of differing beliefs" % what)
        if [int(x) for x in re.search(r"Belief indices with diffs:(.*)", summ).group(1).split()] != nz:
            raise Fail("%s: wrong list of differing beliefs" % what)
        mx, cnt = re.search(r"Maximal difference:\s+(\S+) \((\d+) points\)", summ).groups()
        ml = [int(x) for x in re.search(r"Belief indices with maximal diffs:(.*)", summ).group(1).split()]
        if nz:
            top = max(abs(diffs[k]) for k in nz)
            wl = [k for k in nz if abs(diffs[k]) >= top - eps]
            if not abs(float(mx) - top) <= 3 * eps + 2e-6 * (1 + top) or ml != wl or int(cnt) != len(wl):
                raise Fail("%s: maximal difference %s at %s, expected %g at %s" % (what, mx, ml, top, wl))
        elif ml or int(cnt) != 0:
            raise Fail("%s: maximal differences listed, there are none" % what)
    except (AttributeError, ValueError) as e:
        raise Fail("%s: cannot read the comparison (%s)" % (what, e))


def check_alphacmp(t, A1, A2, eps, res):
    L = [l for l in t.split("\n") if l.startswith("Index ")]
    if len(L) != len(A1):
        raise Fail("compare_alphas: %d lines for %d vectors" % (len(L), len(A1)))
    V2 = S.vecs(A2)
    for i, l in enumerate(L):
        m = re.match(r"Index (\d+) \[action=(\d+)\](: NONE, best is )?", l)
        es = [(int(j), float(x), int(a)) for j, x, a in re.findall(r": (\d+) \[diff=(\S+), action=(\d+)\]", l)]
        if not m or not es or int(m.group(1)) != i or int(m.group(2)) != A1[i][0]:
            raise Fail("compare_alphas: line %d is %r" % (i, l))
        df = np.abs(V2 - A1[i][1]).max(axis=1)
        near = {j for j in range(len(A2)) if df[j] <= eps}
        for j, x, a in es:
            if not 0 <= j < len(A2) or not abs(df[j] - x) <= 1e-5 * (1 + x) or a != A2[j][0]:
                raise Fail("compare_alphas: vector %d against %d: difference %g action %d, expected %g %d" % (i, j, x, a, df[j], A2[j][0]))
        if [x for _, x, _ in es] != sorted(x for _, x, _ in es):
            raise Fail("compare_alphas: vector %d: matches not in order of difference" % i)
        if near:
            if m.group(3) or {j for j, _, _ in es} != near or len(es) != len(near):
                raise Fail("compare_alphas: vector %d: matches %s, expected %s" % (i, es, sorted(near)))
        elif not m.group(3) or len(es) != 1 or es[0][1] > df.min() + 1e-5 * (1 + df.min()):
            raise Fail("compare_alphas: vector %d has no match, reported %r" % (i, l))
        if ("ACTION DIFFERS" in l) != (es[0][2] != A1[i][0]):
            raise Fail("compare_alphas: vector %d: wrong action remark in %r" % (i, l))
        res.states += len(A2)


C.family("long lists of vectors and beliefs", long_cases)(f_two)


# ---------------------------------------------------------------- relinking
def relink_cases(tier):
    for n in range(400 if tier == "quick" else 8000):
        yield {"n": n, "kind": "lattice"}
    for n in range(60 if tier == "quick" else 1000):
        yield {"n": n, "kind": "solver"}


@C.family("relinking policy graphs", relink_cases)
def f_relink(c, res, builds, d):
    b = builds["plain"]
    n = c["n"]
    Sn, A, O = [(2, 2, 2), (3, 2, 2), (2, 3, 3), (1, 2, 2)][n % 4]
    m = F.model_n(n + 2100, Sn, A, O, 0.9)
    if c["kind"] == "lattice":
        SM.write(d, m.text())
        w = F.Walk(n)
        cur = indexed_list(3 * n, Sn, 6)
        prev = indexed_list(3 * n + 1, Sn, 6)
        cur = [(a % A, v) for a, v in cur]
        prev = [(a % A, v) for a, v in prev]
        pg = [(i, cur[i][0], [None if w(7) == 0 else w(len(prev)) for _ in range(O)]) for i in range(len(cur))]
        if w(5) == 0:       # a link past the end of the previous list
            pg[w(len(pg))][2][0] = len(prev) + w(2)
        put(d, "o.alpha", cur)
        put(d, "o.prev", prev)
        open(os.path.join(d, "o.pg"), "w").write("".join("%d %d  %s\n" % (i, a, " ".join("-" if x is None else str(x) for x in s)) for i, a, s in pg))
    else:
        S.solve(b, d, m.text(), ["-horizon", 4, "-save_all", "true"])
        cur, prev = S.load(d, "o.alpha4"), S.load(d, "o.alpha3")
        os.rename(os.path.join(d, "o.alpha3"), os.path.join(d, "o.prev"))
        pg = M.read_pg(os.path.join(d, "o.pg"))
    p = runtool(b, d, "pg_relink", ["-pomdp", "m.POMDP", "-alpha1", "o.alpha", "-alpha2", "o.prev", "-pg1", "o.pg", "-o", "r.pg"], "pg_relink")
    out = M.read_pg(os.path.join(d, "r.pg")) if os.path.exists(os.path.join(d, "r.pg")) else None
    if out is None or len(out) != len(pg):
        raise Fail("pg_relink: %s nodes written for %d" % (out and len(out), len(pg)))
    VC = S.vecs(cur)
    for k, ((i, a, s), (j, b2, t)) in enumerate(zip(pg, out)):
        if j != k or b2 != a or len(t) != len(s):
            raise Fail("pg_relink: node %d became %s" % (k, (j, b2, t)))
        for o in range(O):
            if s[o] is None:
                if t[o] is not None:
                    raise Fail("pg_relink: node %d observation %d had no successor, now %s" % (k, o, t[o]))
            elif s[o] >= len(prev):
                if t[o] is not None and t[o] >= 0:
                    raise Fail("pg_relink: node %d observation %d: undefined link %d became %s" % (k, o, s[o], t[o]))
            else:
                df = np.abs(VC - prev[s[o]][1]).max(axis=1)
                if t[o] is None or not 0 <= t[o] < len(cur) or df[t[o]] > df.min() + 1e-9:
                    raise Fail("pg_relink: node %d observation %d: vector %d is linked to %s at distance %s, the nearest is at %g" % (
                        k, o, s[o], t[o], t[o] is not None and 0 <= t[o] < len(cur) and df[t[o]], df.min()))
            res.states += 1
    res.transitions += 1
    res.traces += 1
    res.key([t for _, _, t in out])
