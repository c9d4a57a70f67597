import itertools
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail

C = Check("P02", "model_checking",
          "exhaustive enumeration of the option lattice: every combination of the efficiency options of every exact method on every model of an indexed family; the real solver's value functions compared with the verified reference value function",
          "a case is (model, method, projection purge, Q purge, algorithm variant); inside it all combinations of domination check, witness points, "
          "random initial points are run; distinct = different (model, option vector) value functions reached",
          ["values compared with relative tolerance 1e-6", "vector counts compared only for complete purging (Q purge / enumeration purge normal or epsilon)",
           "'domonly' and 'none' projection purging are complete product members, 'none' final purging only with horizon 2"])

PURGE = ("none", "domonly", "normal_prune", "epsilon_prune")
SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 3), (3, 3, 2), (2, 2, 3), (4, 2, 2)]


def base(m, builds, d, res, H):
    """the incremental-pruning default run, itself verified backup by backup"""
    S.solve(builds["plain"], d, m.text(), ["-horizon", H, "-save_all", "true", "-stop_criteria", "exact"], prefix="b")
    prev = np.zeros((1, m.S))
    e = 0
    import os
    while os.path.exists("%s/b.alpha%d" % (d, e + 1)):
        e += 1
        cur = S.vecs(S.load(d, "b.alpha%d" % e))
        S.check_backup(m, prev, cur, None, res, "reference epoch %d" % e)
        prev = cur
    return prev


def cases(tier):
    nm = 4 if tier == "quick" else 16
    for (Sn, A, O), n in itertools.product(SHAPES, range(nm)):
        for meth, var in (("enum", PURGE), ("twopass", (None,)), ("witness", (None,)),
                          ("incprune", ("normal", "restricted_region", "generalized"))):
            for v in var:
                for pp, qp in itertools.product(PURGE, PURGE):
                    yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth, "v": v, "pp": pp, "qp": qp,
                           "g": (0.9, 1.0, 0.6)[n % 3]}


# larger models: every single deviation from the defaults, longer horizons
DEV = [(), ("-dom_check", "false"), ("-witness_points", "true"), ("-alg_rand", 3), ("-prune_rand", 3), ("-proj_purge", "domonly"),
       ("-proj_purge", "epsilon_prune"), ("-q_purge", "epsilon_prune"), ("-alg_rand", 40), ("-dom_check", "false", "-alg_rand", 2)]
SHAPES2 = [(2, 2, 2, 6), (3, 3, 2, 5), (3, 2, 3, 4), (4, 2, 3, 3), (3, 2, 4, 3), (4, 3, 3, 3), (4, 4, 2, 4), (5, 2, 3, 3)]


def larger(tier):
    for n in range(20 if tier == "quick" else 200):
        for Sn, A, O, H in SHAPES2:
            for meth in S.METHODS:
                if meth in ("enum", "twopass") and O > 2:
                    continue
                yield {"n": 100 + n, "S": Sn, "A": A, "O": O, "H": H, "m": meth}


INNER = list(itertools.product(("true", "false"), ("false", "true"), (0, 3), (0, 3)))


def compare(m, args, ref, rv, refs, eps, complete, builds, d, res):
    S.solve(builds["plain"], d, None, args)
    cur = S.vecs(S.load(d, "o.alpha"))
    what = "options %s" % " ".join(map(str, args[4:]))
    if cur.shape[1] != m.S or not np.isfinite(cur).all():
        raise Fail("%s: bad solution" % what)
    bel, _ = M.test_beliefs(cur, m.S, limit=4000)
    for b, want in ((rv, refs), (bel, M.surface(ref, bel))):
        got = M.surface(cur, b)
        j = int(np.argmax(np.abs(got - want)))
        if abs(got[j] - want[j]) > eps:
            raise Fail("%s: value %.9g at %s, the reference value function has %.9g" % (what, got[j], np.round(b[j], 6).tolist(), want[j]))
        res.states += len(b)
    if complete and len(cur) != len(ref):
        # a vector whose whole advantage is below 1e-6 may go either way
        big, small = (cur, ref) if len(cur) > len(ref) else (ref, cur)
        adv = [M.dominated_somewhere(big, k) for k in range(len(big))]
        if all(x is not None and x > eps for x in adv):
            raise Fail("%s: %d vectors instead of %d" % (what, len(cur), len(ref)))
        if len(cur) > len(ref) and any(x is not None and x < -eps for x in adv):
            raise Fail("%s: %d vectors instead of %d, a useless one kept" % (what, len(cur), len(ref)))
        res.note("borderline counts")
    return cur


@C.family("options", cases)
def f_options(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], c["g"])
    fin = c["v"] if c["m"] == "enum" else c["qp"]
    loose = fin in ("none", "domonly") or c["pp"] in ("none", "domonly")
    H = 2 if loose and c["O"] > 2 else 3
    if fin == "none" or (c["m"] == "enum" and c["O"] > 2):
        H = 2
    ref = base(m, builds, d, res, H)
    rv, exact = M.test_beliefs(ref, m.S)
    refs = M.surface(ref, rv)
    eps = S.TOL * S.scale(m, ref)
    for i, (dom, wp, ar, pr) in enumerate(INNER):
        args = ["-horizon", H, "-stop_criteria", "exact", "-method", c["m"], "-proj_purge", c["pp"], "-q_purge", c["qp"], "-dom_check", dom,
                "-witness_points", wp, "-alg_rand", ar, "-prune_rand", pr]
        if c["m"] == "enum":
            args += ["-enum_purge", c["v"]]
        if c["m"] == "incprune":
            args += ["-inc_prune", c["v"]]
        cur = compare(m, args, ref, rv, refs, eps, fin in ("normal_prune", "epsilon_prune"), builds, d, res)
        res.traces += 1
        res.transitions += 1
        res.key(c["n"], c["S"], c["A"], c["O"], c["m"], c["v"], c["pp"], c["qp"], i)
        if len(ref) > 3 and i == 0:
            res.sample = {"args": args[4:], "vectors": len(cur), "reference": len(ref)}


@C.family("larger", larger)
def f_larger(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], 0.95)
    ref = base(m, builds, d, res, c["H"])
    rv, _ = M.test_beliefs(ref, m.S, limit=20000)
    refs = M.surface(ref, rv)
    eps = S.TOL * S.scale(m, ref)
    for i, dev in enumerate(DEV):
        args = ["-horizon", c["H"], "-stop_criteria", "exact"] + S.METHODS[c["m"]] + list(dev)
        cur = compare(m, args, ref, rv, refs, eps, True, builds, d, res)
        res.traces += 1
        res.transitions += 1
        res.key(c["n"], c["S"], c["A"], c["O"], c["m"], i)
        res.note("vectors>=20", int(len(cur) >= 20))
