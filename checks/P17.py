import itertools, os
import numpy as np
import model as M, families as F, semantics as SM
from vt import Check, Fail, run

C = Check("P17", "model_checking",
          "explicit-state search of the belief MDP: every action/observation history up to a depth is replayed on the real belief tool, with invalid lines at every position of a history, and each printed belief compared with Bayes' rule",
          "a state is a history (a node of the belief tree), a transition one action/observation pair; every leaf of the tree is one run of the real tool whose whole output is checked; "
          "distinct = different beliefs (rounded to 6 digits) per model",
          ["beliefs are printed with six decimals: compared within 2e-6 (plus the rounding of nothing else: the tool's state is not rounded)",
           "an observation is judged impossible below 1e-12; between 1e-12 and 1e-6 not judged", "what follows after an impossible observation is not judged"],
          variants=("plain", "asan"))


def parse(out, S, what):
    res = []
    for l in out.split("\n"):
        if not l.strip():
            continue
        if not (l.startswith("[") and l.rstrip().endswith("]")):
            raise Fail("%s: unexpected output line %r" % (what, l[:100]))
        body = l.strip()[1:-1].strip()
        if body == "":
            res.append(None)
            continue
        try:
            v = np.array([float(x) for x in body.split(",")])
        except ValueError:
            raise Fail("%s: unexpected output line %r" % (what, l[:100]))
        if len(v) != S:
            raise Fail("%s: belief over %d states" % (what, len(v)))
        res.append(v)
    return res


def replay(m, lines, b, d, res, what, end="exit\n"):
    """lines: (text, (a, o) or None for an invalid line)"""
    p = run([b.tools, "-tool", "update_beliefs", "-pomdp", "m.POMDP"], d, ("".join(t + "\n" for t, _ in lines) + end).encode())
    if p.timeout or p.rc != 0:
        raise Fail("%s: rc %s %s" % (what, p.rc, p.err[-200:]))
    got = parse(p.out, m.S, what)
    bel = m.start if m.start is not None else np.full(m.S, 1.0 / m.S)
    want = [bel]
    dead = False
    judged = True
    for t, ao in lines:
        if ao is None:
            want += [None, bel]
        else:
            nb, pr = m.belief_update(bel, *ao)
            if pr < 1e-12:
                want.append(np.zeros(m.S))
                dead = True
                break
            if pr < 1e-6:
                judged = False
                break
            bel = nb
            want.append(bel)
    if not dead and judged and len(got) != len(want):
        raise Fail("%s: %d beliefs printed for %d lines, expected %d" % (what, len(got), len(lines), len(want)))
    if len(got) < len(want):
        raise Fail("%s: output ends after %d of %d beliefs" % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if (g is None) != (w is None):
            raise Fail("%s: output %d is %s, expected %s" % (what, i, None if g is None else g.tolist(), None if w is None else w.tolist()))
        if w is None:
            continue
        if not np.abs(g - w).max() <= 2e-6:
            raise Fail("%s: belief %d is %s, Bayes' rule gives %s" % (what, i, g.tolist(), w.tolist()))
        res.key(np.round(w, 6).tolist())
    nbad = sum(1 for _, x in lines if x is None)
    if nbad and len(p.err.strip().split("\n")) < nbad and not dead:
        raise Fail("%s: an invalid line was not reported on stderr" % what)
    res.transitions += len(want) - 1
    res.traces += 1
    return dead


SHAPES = [(2, 2, 2, 5), (3, 2, 2, 5), (2, 3, 3, 3), (3, 2, 3, 4), (4, 2, 2, 4), (1, 2, 2, 3), (2, 1, 1, 4), (5, 2, 3, 3)]


def cases(tier):
    for n in range(3 if tier == "quick" else 40):
        for S, A, O, D in SHAPES:
            D += tier != "quick"
            # one case per prefix of length 2, so that a case stays small
            for pre in itertools.product(itertools.product(range(A), range(O)), repeat=min(2, D)):
                yield {"n": n, "S": S, "A": A, "O": O, "D": D, "pre": [list(x) for x in pre]}


@C.family("every history of the belief tree", cases)
def f_tree(c, res, builds, d):
    m = F.model_n(c["n"] + 1200, c["S"], c["A"], c["O"], 0.9, start=c["n"] % 3 != 2)
    SM.write(d, m.text())
    ao = list(itertools.product(range(m.A), range(m.O)))
    skip = set()
    for rest in itertools.product(ao, repeat=c["D"] - len(c["pre"])):
        h = [tuple(x) for x in c["pre"]] + list(rest)
        if any(tuple(h[:k]) in skip for k in range(1, len(h) + 1)):
            continue
        if replay(m, [("%d %d" % x, x) for x in h], builds["plain"], d, res, "history %s" % (h,)):
            b = m.start if m.start is not None else np.full(m.S, 1.0 / m.S)
            for k, x in enumerate(h):
                b, pr = m.belief_update(b, *x)
                if pr < 1e-12:
                    skip.add(tuple(h[:k + 1]))
                    break
        res.states += 1


BAD = ["", "x", "0", "0 x", "x 0", "0 0 0", "0 0 x", "-1 0", "0 -1", "%A 0", "0 %O", "99 99", "0.5 1", "1e0 0", "exi", "[0 0]", "0,0", "   ", "-", "0 1.", "2147483648 0", "4294967296 0", "0 4294967296", "exit0"]
GOODV = ["%d %d", " %d %d", "%d\t%d", "  %d    %d  ", "%d %d\r", "+%d +%d", "0%d 00%d", "%d %d \t "]


def bad_cases(tier):
    for n in range(2 if tier == "quick" else 12):
        for S, A, O in ((2, 2, 2), (3, 2, 2), (2, 3, 3)):
            for pos in range(4):
                for bi in range(len(BAD)):
                    for rep in (1, 2):
                        yield {"n": n, "S": S, "A": A, "O": O, "pos": pos, "b": bi, "rep": rep}


def some_history(m, k, length):
    """a possible history chosen by the index k"""
    b = m.start
    h = []
    w = F.Walk(k)
    for _ in range(length):
        a = w(m.A)
        os_ = [o for o in range(m.O) if m.belief_update(b, a, o)[1] > 1e-3]
        o = os_[w(len(os_))]
        h.append((a, o))
        b = m.belief_update(b, a, o)[0]
    return h


@C.family("invalid lines at every position", bad_cases)
def f_bad(c, res, builds, d):
    m = F.model_n(c["n"] + 1300, c["S"], c["A"], c["O"], 0.9)
    SM.write(d, m.text())
    h = some_history(m, c["n"] * 7 + c["b"], 3)
    lines = [(GOODV[(c["b"] + i) % len(GOODV)] % x, x) for i, x in enumerate(h)]
    bad = BAD[c["b"]].replace("%A", str(m.A)).replace("%O", str(m.O))
    lines[c["pos"]:c["pos"]] = [(bad, None)] * c["rep"]
    replay(m, lines, builds["plain"], d, res, "lines %s" % ([x for x, _ in lines],), ("exit\n", "", " exit \n", "exit")[c["b"] % 4])
    res.states += 1


def long_cases(tier):
    for n in range(6 if tier == "quick" else 60):
        for S, A, O in ((2, 2, 2), (3, 3, 2), (4, 2, 3), (5, 3, 3), (6, 2, 2)):
            yield {"n": n, "S": S, "A": A, "O": O}


@C.family("long histories", long_cases)
def f_long(c, res, builds, d):
    m = F.model_n(c["n"] + 1400, c["S"], c["A"], c["O"], 0.9)
    SM.write(d, m.text())
    h = some_history(m, c["n"], 60)
    # overlong lines: trailing blanks beyond any buffer, and an overlong word, which is an invalid line
    lines = [("%d %d" % x, x) for x in h]
    for k, L in ((10, 300), (20, 1022), (21, 1023), (22, 1024), (30, 5000)):
        lines[k] = (lines[k][0] + " " * L, lines[k][1])
        lines.insert(k + 20, ("q" * L, None))
    replay(m, lines, builds["plain"], d, res, "long history %d" % c["n"])
    res.states += 1


def extreme_cases(tier):
    top = 14 if tier == "quick" else 30
    for S in (2, 3, 4):
        for q in ([.9, .1], [.99, .01], [.999, .001], [.6, .4], [.9999, .0001]):
            for leak in (0, 1e-3, 1e-5):
                for i in range(1, top, 1 if tier != "quick" else 3):
                    yield {"S": S, "q": q, "leak": leak, "i": i}


@C.family("nearly excluded states that come back", extreme_cases)
def f_extreme(c, res, builds, d):
    """o0^i o1^j (and o1^i o0^j) for every j: a state is first made very unlikely and then likely again"""
    S, q, leak = c["S"], c["q"], c["leak"]
    T = np.eye(S) * (1 - leak * S) + leak
    Z = np.array([[q[0], q[1]] if s == 0 else [q[1], q[0]] if s == S - 1 else [.5, .5] for s in range(S)])
    m = M.Model([T], [Z], [[1.0] * S], 0.9, [1.0 / S] * S)
    SM.write(d, m.text())
    for o in (0, 1):
        h = [(0, o)] * c["i"] + [(0, 1 - o)] * (2 * c["i"] + 3) + [(0, o)] * 4
        replay(m, [("%d %d" % x, x) for x in h], builds["plain"], d, res, "history %d^%d then %d" % (o, c["i"], 1 - o))
        res.states += 1


BIG = [(50, 2, 2), (64, 3, 2), (65, 2, 5), (128, 2, 2), (200, 2, 2), (257, 2, 3), (600, 1, 2), (5, 100, 3), (5, 3, 40), (5, 3, 130), (3, 300, 2), (2, 2, 300)]


def big_cases(tier):
    for i in range(len(BIG)):
        for n in range(3 if tier == "quick" else 30):
            yield {"i": i, "n": n, "L": (3, 40, 1000, 5000)[(i + n) % (3 if BIG[i][0] > 100 or tier == "quick" else 4)]}


@C.family("large models, very long histories", big_cases)
def f_big(c, res, builds, d):
    n, (S, A, O) = c["n"], BIG[c["i"]]
    m = F.model_n(n + 3300, S, A, O, 0.9, start=n % 2 == 0)
    if m.start is None and S > 1:
        m0 = M.Model(m.T, m.Z, m.R, m.gamma, [1.0 / S] * S, m.values)
    else:
        m0 = m
    SM.write(d, m.text())
    h = some_history(m0, n * 31 + 5, c["L"])
    lines = [("%d %d" % x, x) for x in h]
    lines.insert(len(lines) * 2 // 3, ("%d 0" % A, None))
    replay(m, lines, builds["asan" if n % 3 == 1 and c["L"] * S < 100000 else "plain"], d, res, "large model, history of %d" % c["L"])
    res.states += 1
