import itertools, os
import numpy as np
import model as M, families as F, pomdpfile as PF, solve as S
from vt import Check, Fail

C = Check("P01", "model_checking",
          "explicit-state reference value iteration; every epoch of the real solver on an enumerated model family checked at every vertex of its value surface",
          "a case is (model, method, horizon): the real solver runs with every epoch saved, and each epoch is compared with the "
          "Bellman backup of the previous one at all vertices of the surface and on a belief grid; distinct = different rounded final value functions",
          ["double precision: values are compared with relative tolerance 1e-6",
           "models with 1..4 states, 1..4 actions, 1..5 observations over the row/reward alphabets in lib/families.py"])


def one(m, method, H, res, builds, d, limit=60000, text=None):
    b = builds["plain"]
    extra = S.reachable(m, H + 1, 300)
    S.solve(b, d, text or m.text(), ["-horizon", H, "-save_all", "true", "-discount", "%.12g" % m.gamma] + S.METHODS[method])
    prev = np.zeros((1, m.S))
    n = 0
    for e in range(1, H + 1):
        if not os.path.exists(os.path.join(d, "o.alpha%d" % e)):
            break
        cur = S.vecs(S.load(d, "o.alpha%d" % e))
        try:
            pg = M.read_pg(os.path.join(d, "o.pg%d" % e))
        except (OSError, ValueError, IndexError):
            pg = None
        S.check_backup(m, prev, cur, pg, res, "%s epoch %d" % (method, e), limit=limit, extra=extra)
        prev = cur
        n = e
    if n == 0:
        raise Fail("no epoch was saved")
    fin = S.vecs(S.load(d, "o.alpha"))
    if fin.shape != prev.shape or np.abs(fin - prev).max() > 1e-9:
        raise Fail("final solution differs from the last epoch's")
    res.traces += 1
    res.key(np.round(fin, 5).tolist())
    if len(fin) > 2:
        res.sample = {"epochs": n, "vectors": len(fin), "first": np.round(fin[0], 6).tolist()}
    res.note("epochs", n)
    res.note("max vectors>=8", int(len(fin) >= 8))


def tiny(tier):
    if tier == "quick":
        tr, zr, rw = [(1, 0), (.25, .75)], [(1, 0), (.8, .2), (.3, .7)], [0, 1]
        ms = ["incprune", "witness", "twopass", "enum", "incprune-gen", "incprune-rr"]
        for i, (T, Z, R) in enumerate(F.tiny_cases(tr, zr, rw)):
            if len(set(R)) == 1:
                continue
            yield {"T": T, "Z": Z, "R": R, "m": ms[i % 6], "H": 3}
    else:
        tr, zr, rw = [(1, 0), (0, 1), (.25, .75)], [(1, 0), (0, 1), (.8, .2), (.3, .7)], [0, 1, -2.5]
        for i, (T, Z, R) in enumerate(F.tiny_cases(tr, zr, rw)):
            if len(set(R)) == 1:
                continue
            yield {"T": T, "Z": Z, "R": R, "m": list(S.METHODS)[i % 6], "H": 3}


@C.family("tiny-2x2x2", tiny)
def f_tiny(c, res, builds, d):
    one(F.tiny_model(c["T"], c["Z"], c["R"]), c["m"], c["H"], res, builds, d)


def shapes(tier):
    k = 3 if tier == "quick" else 40
    for Sn, A, O in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3, 4, 5)):
        for n in range(k):
            for meth in S.METHODS:
                slow = meth in ("enum", "twopass")
                H = {1: 4, 2: 4, 3: 3 if slow else 4, 4: 2 if slow else 3, 5: 2 if slow else 3}[O]
                if O >= 4 and Sn >= 3 and not slow:
                    H = 2
                yield {"n": n, "S": Sn, "A": A, "O": O, "H": H, "m": meth, "fr": n % 2,
                       "g": (0.95, 0.5, 1.0, 0.0)[n % 4] if n % 5 else 0.95}


@C.family("shapes", shapes)
def f_shapes(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], c["g"], bool(c["fr"]))
    one(m, c["m"], c["H"], res, builds, d)


EXDIR = "/repo/examples/pomdp-files/"
EX = {"1d": 8, "tiger.95": 8, "tiger.aaai": 8, "4x3.95": 3, "cheese.95": 4, "shuttle.95": 3, "bridge-repair": 2,
      "ejs1": 6, "ejs2": 6, "ejs3": 6, "parr95.95": 4, "concert": 6, "uav-search.raissa-bravo.orig": 2,
      "manuel-hartman.2013-09-19": 6, "aloha-10max": 1}


def examples(tier):
    for f, h in EX.items():
        for meth in S.METHODS:
            if meth in ("enum", "twopass") and f in ("cheese.95", "shuttle.95", "4x3.95", "bridge-repair", "parr95.95"):
                yield {"f": f, "H": 2, "m": meth}
            else:
                yield {"f": f, "H": h + (2 if tier == "thorough" else 0), "m": meth}


@C.family("examples", examples)
def f_examples(c, res, builds, d):
    with open(EXDIR + c["f"] + ".POMDP", encoding="latin-1") as f:
        text = f.read()
    one(PF.interpret(text), c["m"], c["H"], res, builds, d, text=text, limit=20000)
