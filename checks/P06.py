import itertools, os
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail
import P04

C = Check("P06", "model_checking",
          "exhaustive enumeration of all ways to split a horizon into stages and of all small terminal value sets; each chain of real runs is compared with the unbroken run, each run from given terminal values with the reference backup",
          "a case is (model, method, all compositions of the horizon into stages) or (model, terminal vector set); every intermediate value function is compared at all vertices of its surface; "
          "distinct = different (model, method, composition) or (model, terminal set) outcomes",
          ["values compared with relative tolerance 1e-6", "vector components between 1e-5 and 1e3 in size: beyond 1e5 the LP code loses vectors whose region is narrower than 1e-3 (restricted-region pruning), which is its documented numerical limit"])

SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 1), (1, 2, 2), (3, 3, 2), (2, 2, 3), (4, 2, 2)]


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def same(m, a, b, what, res):
    A, B = S.vecs(a), S.vecs(b)
    if A.shape[1] != B.shape[1]:
        raise Fail("%s: vectors of different length" % what)
    eps = S.TOL * S.scale(m, A, B)
    bel = np.concatenate([M.test_beliefs(A, m.S)[0], M.test_beliefs(B, m.S)[0]])
    x, y = M.surface(A, bel), M.surface(B, bel)
    j = int(np.abs(x - y).argmax())
    res.states += len(bel)
    if abs(x[j] - y[j]) > eps:
        raise Fail("%s: value %.9g at %s, in one go %.9g" % (what, x[j], np.round(bel[j], 6).tolist(), y[j]))
    if len(A) != len(B):
        big = A if len(A) > len(B) else B
        adv = [M.dominated_somewhere(big, k) for k in range(len(big))]
        if all(z is not None and z > eps for z in adv):
            raise Fail("%s: %d vectors, in one go %d" % (what, len(A), len(B)))


def cases(tier):
    for n in range(24 if tier == "quick" else 300):
        for (Sn, A, O) in SHAPES:
            for meth in S.METHODS:
                if meth in ("enum", "twopass") and O > 2:
                    continue
                H = 3 if meth in ("enum", "twopass") or O > 2 or Sn > 3 else 4
                yield {"n": n, "S": Sn, "A": A, "O": O, "H": H, "m": meth, "v": "cost" if n % 3 == 2 else "reward", "g": (0.9, 1.0, 0.5)[n % 3]}


@C.family("all splits", cases)
def f_split(c, res, builds, d):
    m = F.model_n(c["n"] + 7, c["S"], c["A"], c["O"], c["g"], values=c["v"])
    args = ["-stop_criteria", "exact"] + S.METHODS[c["m"]]
    b = builds["plain"]
    S.solve(b, d, m.text(), ["-horizon", c["H"], "-save_all", "true"] + args, prefix="w")
    whole = {}
    for k in range(1, c["H"] + 1):
        f = "w.alpha%d" % k
        if not os.path.exists(os.path.join(d, f)):      # converged: stays the same
            f = "w.alpha"
        whole[k] = S.load(d, f)
    for comp in compositions(c["H"]):
        if len(comp) < 2:
            continue
        done, term, pf = 0, None, None
        for i, h in enumerate(comp):
            pf = "s%d" % i
            S.solve(b, d, None, ["-horizon", h] + args + (["-terminal_values", term] if term else []), prefix=pf)
            done += h
            got = S.load(d, pf + ".alpha")
            same(m, got, whole[done], "stages %s after epoch %d" % (list(comp), done), res)
            term = pf + ".alpha"
            res.transitions += 1
        res.traces += 1
        res.key(c["n"], c["S"], c["A"], c["O"], c["m"], comp)
    if len(whole[c["H"]]) > 4:
        res.sample = {"method": c["m"], "horizon": c["H"], "vectors": len(whole[c["H"]])}


def run_terminal(m, T, meth, H, res, builds, d):
    """T: list of (action, vector)"""
    with open(os.path.join(d, "t.alpha"), "w") as f:
        f.write(M.fmt_alpha(T))
    S.solve(builds["plain"], d, m.text(), ["-horizon", H, "-save_all", "true", "-stop_criteria", "exact", "-terminal_values", "t.alpha"] + S.METHODS[meth])
    prev = S.vecs(T)
    for e in range(1, H + 1):
        if not os.path.exists(os.path.join(d, "o.alpha%d" % e)):
            if e == 1:
                raise Fail("no epoch was saved")
            break
        av = S.load(d, "o.alpha%d" % e)
        cur = S.vecs(av)
        what = "%s epoch %d from terminal values %s" % (meth, e, [np.round(v, 6).tolist() for _, v in T])
        S.check_backup(m, prev, cur, None, res, what)
        P04.check_pg(m, prev, av, "o.pg%d" % e, d, res, what)
        prev = cur
    res.traces += 1


ALPH = (-2.0, 0.0, 3.0)


def tcases(tier):
    vs = list(itertools.product(ALPH, repeat=2))
    sets = [(v,) for v in vs] + list(itertools.product(vs, repeat=2))
    if tier != "quick":
        sets += list(itertools.product(vs, repeat=3))
    else:
        sets += list(itertools.combinations(vs, 3))
    for n in range(2 if tier == "quick" else 6):
        for i, T in enumerate(sets):
            for meth in list(S.METHODS) if tier != "quick" else [list(S.METHODS)[(i + n) % 6], list(S.METHODS)[(i + n + 3) % 6]]:
                yield {"n": n, "T": T, "m": meth}


@C.family("terminal sets", tcases)
def f_term(c, res, builds, d):
    m = F.model_n(c["n"] + 3, 2, 2, 2, 0.9)
    run_terminal(m, [(i % 2, np.array(v)) for i, v in enumerate(c["T"])], c["m"], 2, res, builds, d)
    res.key(c["n"], c["T"])


def bcases(tier):
    for n in range(150 if tier == "quick" else 2000):
        for Sn, A, O in ((1, 2, 2), (3, 2, 2), (3, 3, 3), (4, 2, 2), (2, 4, 3), (5, 2, 2)):
            for meth in S.METHODS:
                if O > 2 and meth in ("enum", "twopass"):
                    continue
                yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth}


@C.family("larger terminal sets", bcases)
def f_big(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], (0.9, 1.0, 0.3)[c["n"] % 3], values="cost" if c["n"] % 4 == 1 else "reward")
    w = F.Walk(c["n"] * 11 + 5)
    mag = (1.0, 1e-3, 10.0, 1.0)[c["n"] % 4]
    k = 1 + w(5)
    T = [(w(c["A"]), mag * np.array([(w(2001) - 1000) / 100.0 for _ in range(c["S"])])) for _ in range(k)]
    if w(3) == 0:
        T.append(T[0])                      # a copy
    run_terminal(m, T, c["m"], 2, res, builds, d)
    res.key(c["n"], c["S"], c["A"], c["O"], c["m"])
