import itertools, os
import numpy as np
import model as M, families as F, pomdpfile as PF, solve as S
from vt import Check, Fail
import P01

C = Check("P03", "model_checking",
          "explicit-state enumeration of bounded model families; every epoch saved by the real solver is decided vector by vector at all vertices of the surface of the other vectors",
          "a case is (model, method, horizon); every vector of every saved epoch is tested for strict usefulness at all vertices of the other vectors' surface, for duplicates and for order; "
          "distinct = different rounded epoch value functions",
          ["a vector is called useless when its advantage over the others is below 1e-11 (relative) everywhere; advantages between that and the solver's precision are not judged",
           "order: components within 1e-9 count as equal"])


def check_order(V, what):
    for i in range(len(V) - 1):
        for x, y in zip(V[i], V[i + 1]):
            if x < y - 1e-9:
                break
            if x > y + 1e-9:
                raise Fail("%s: vectors %d and %d are out of order: %s before %s" % (what, i, i + 1, V[i].tolist(), V[i + 1].tolist()))
        else:
            raise Fail("%s: vectors %d and %d are the same: %s" % (what, i, i + 1, V[i].tolist()))
    n = len(V)
    if n > 1:
        D = np.abs(V[:, None, :] - V[None, :, :]).max(axis=2) + np.eye(n)
        i, j = np.unravel_index(int(np.argmin(D)), D.shape)
        if D[i, j] < 1e-10 * S.scale(None, V):
            raise Fail("%s: vectors %d and %d are the same: %s" % (what, i, j, V[i].tolist()))


def check_useful(V, what, res, limit=20000):
    from math import comb
    n, Sn = V.shape
    if n == 1:
        return
    tot = sum(comb(n - 1, k) * comb(Sn, k) for k in range(2, Sn + 1))
    sc = S.scale(None, V)
    # cheap certificate first: a vertex average of its own region, else exact decision
    for i in range(n):
        if tot <= limit:
            adv = M.dominated_somewhere(V, i)
        else:
            adv = lp_adv(V, i)
        res.states += 1
        if adv is None:
            continue
        if adv < 1e-6 * sc:
            res.note("adv<1e-6" if adv > 1e-9 * sc else "adv<1e-9")
        if adv < 1e-11 * sc:
            raise Fail("%s: vector %d = %s is nowhere better than the other %d vectors (best advantage %.3g)" % (what, i, V[i].tolist(), n - 1, adv))


def lp_adv(V, i):
    from scipy.optimize import linprog
    O = np.delete(V, i, axis=0)
    Sn = V.shape[1]
    # max d: b.(vi - o) >= d
    A = np.concatenate([-(V[i] - O), np.ones((len(O), 1))], axis=1)
    r = linprog(np.r_[np.zeros(Sn), -1.0], A_ub=A, b_ub=np.zeros(len(O)), A_eq=np.r_[np.ones(Sn), 0][None, :], b_eq=[1],
                bounds=[(0, None)] * Sn + [(None, None)], method="highs")
    if r.status != 0:
        return None
    return -r.fun if -r.fun > 1e-8 else None     # too close to zero for floating-point LP


def one(m, method, H, res, builds, d, text=None, extra=()):
    S.solve(builds["plain"], d, text or m.text(), ["-horizon", H, "-save_all", "true", "-discount", "%.12g" % m.gamma] + S.METHODS[method] + list(extra))
    e = 0
    while os.path.exists(os.path.join(d, "o.alpha%d" % (e + 1))):
        e += 1
        av = S.load(d, "o.alpha%d" % e)
        V = S.vecs(av)
        if not all(0 <= a < m.A for a, _ in av):
            raise Fail("epoch %d: action out of range" % e)
        check_order(V, "%s epoch %d" % (method, e))
        check_useful(V, "%s epoch %d" % (method, e), res)
        res.key(np.round(V, 5).tolist())
        res.transitions += 1
    if e == 0:
        raise Fail("no epoch was saved")
    V = S.vecs(S.load(d, "o.alpha"))
    check_order(V, "%s final" % method)
    check_useful(V, "%s final" % method, res)
    res.traces += 1
    if len(V) > 3:
        res.sample = {"vectors": len(V), "epochs": e}


def tiny(tier):
    tr, zr, rw = [(1, 0), (0, 1), (.25, .75)], [(1, 0), (0.5, 0.5), (.8, .2)], [0, 1]
    if tier == "quick":
        tr = tr[1:]
    for i, (T, Z, R) in enumerate(F.tiny_cases(tr, zr, rw)):
        if len(set(R)) == 1 and R[0]:
            continue
        yield {"T": T, "Z": Z, "R": R, "m": list(S.METHODS)[i % 6], "H": 3, "x": i % 3}


EXTRA = [(), ("-q_purge", "epsilon_prune", "-enum_purge", "epsilon_prune"), ("-proj_purge", "domonly", "-dom_check", "false", "-alg_rand", "2", "-prune_rand", "2")]


@C.family("tiny-2x2x2", tiny)
def f_tiny(c, res, builds, d):
    one(F.tiny_model(c["T"], c["Z"], c["R"]), c["m"], c["H"], res, builds, d, extra=EXTRA[c["x"]])


def shapes(tier):
    k = 4 if tier == "quick" else 40
    for Sn, A, O in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3)):
        for n in range(k):
            for meth in S.METHODS:
                slow = meth in ("enum", "twopass")
                H = {1: 4, 2: 4, 3: 2 if slow else 3}[O] + (0 if Sn > 2 or slow else 1)
                yield {"n": 50 + n, "S": Sn, "A": A, "O": O, "H": 2 if n % 3 == 1 and slow else H, "m": meth, "fr": n % 2, "x": n % 3}


@C.family("shapes", shapes)
def f_shapes(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], 0.95, bool(c["fr"]))
    one(m, c["m"], c["H"], res, builds, d, extra=EXTRA[c["x"]])


def ties(tier):
    """models rich in ties: repeated actions, states that cannot be told apart, equal rewards"""
    k = 12 if tier == "quick" else 100
    for n in range(k):
        for Sn, O in ((2, 2), (3, 2), (2, 3), (4, 2)):
            for kind in range(4):
                for meth in S.METHODS:
                    yield {"n": n, "S": Sn, "O": O, "k": kind, "m": meth, "H": 3 if O == 2 else 2}


@C.family("ties", ties)
def f_ties(c, res, builds, d):
    b = F.model_n(c["n"], c["S"], 2, c["O"], 0.9)
    T, Z, R = b.T.copy(), b.Z.copy(), b.er.copy()
    if c["k"] == 0:      # every action twice
        T, Z, R = np.concatenate([T, T]), np.concatenate([Z, Z]), np.concatenate([R, R])
    elif c["k"] == 1:    # state 1 behaves like state 0
        T[:, 1], Z[:, 1], R[:, 1] = T[:, 0], Z[:, 0], R[:, 0]
    elif c["k"] == 2:    # the actions differ only in what is observed
        T[1], R[1] = T[0], R[0]
    else:                # rewards in a single state
        R = np.where(np.arange(c["S"]) == c["n"] % c["S"], 1.0, 0.0)[None, :].repeat(2, 0)
    one(M.Model(T, Z, R, 0.9, b.start), c["m"], c["H"], res, builds, d)


@C.family("examples", P01.examples)
def f_examples(c, res, builds, d):
    with open(P01.EXDIR + c["f"] + ".POMDP", encoding="latin-1") as f:
        text = f.read()
    one(PF.interpret(text), c["m"], c["H"], res, builds, d, text=text)
