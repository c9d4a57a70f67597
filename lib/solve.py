"""Driving pomdp-solve / pomdp-tools."""
import os
import numpy as np
import model as M
from vt import run, Fail

# every exact method of the tool
METHODS = {
    "enum": ["-method", "enum"],
    "twopass": ["-method", "twopass"],
    "witness": ["-method", "witness"],
    "incprune": ["-method", "incprune", "-inc_prune", "normal"],
    "incprune-rr": ["-method", "incprune", "-inc_prune", "restricted_region"],
    "incprune-gen": ["-method", "incprune", "-inc_prune", "generalized"],
}
TOL = 1e-6


def solve(b, d, text, args, prefix="o", timeout=None, expect_ok=True, fname="m.POMDP", env=None):
    if text is not None:
        with open(os.path.join(d, fname), "w") as f:
            f.write(text)
    p = run([b.solve, "-pomdp", fname, "-o", prefix] + [str(a) for a in args], d, timeout=timeout, env=env)
    if expect_ok:
        if p.timeout:
            raise Fail("pomdp-solve gave no answer: " + p.err)
        if p.rc != 0:
            raise Fail("pomdp-solve failed rc=%s on a valid model: %s" % (p.rc, (p.err + p.out)[-400:]))
    return p


def load(d, name):
    """an .alpha file of the solver; a malformed or missing one is a violation"""
    p = os.path.join(d, name)
    if not os.path.exists(p):
        raise Fail("solution file %s was not written" % name)
    try:
        v = M.read_alpha(p)
    except (ValueError, IndexError) as e:
        raise Fail("solution file %s is malformed: %s" % (name, e))
    return v


def vecs(av):
    return np.array([v for _, v in av])


def scale(m, *Vs):
    return max([1.0] + [float(np.abs(V).max()) for V in Vs if len(V)])


def check_backup(m, prev, cur, pg, res, what, tol=TOL, limit=60000, extra=None):
    """cur represents exactly the Bellman backup of prev (prev, cur: arrays n x S)"""
    if len(cur) == 0:
        raise Fail("%s: empty solution" % what)
    if cur.shape[1] != m.S:
        raise Fail("%s: vectors of length %d for %d states" % (what, cur.shape[1], m.S))
    if not np.isfinite(cur).all():
        raise Fail("%s: non-finite value" % what)
    eps = tol * scale(m, cur, prev)
    bel, exact = M.test_beliefs(cur, m.S, limit=limit)
    if extra is not None:
        bel = np.concatenate([bel, extra])
    want = m.backup(prev, bel)
    got = M.surface(cur, bel)
    res.states += len(bel)
    if not exact:
        res.note("grid-only completeness")
    i = int(np.argmax(want - got))
    if want[i] - got[i] > eps:
        raise Fail("%s: value %.9g at belief %s is below the optimal backup %.9g" % (
            what, got[i], np.round(bel[i], 6).tolist(), want[i]))
    i = int(np.argmax(got - want))
    if got[i] - want[i] > eps:
        raise Fail("%s: value %.9g at belief %s exceeds the optimal backup %.9g" % (
            what, got[i], np.round(bel[i], 6).tolist(), want[i]))
    # soundness of each vector: it is the value of some one-step plan over prev
    for k, v in enumerate(cur):
        if pg is not None and k < len(pg):
            _, a, succ = pg[k]
            if 0 <= a < m.A and len(succ) == m.O and all(s is None or 0 <= s < len(prev) for s in succ):
                if np.abs(m.plan_vector(a, succ, prev) - v).max() <= eps:
                    res.transitions += 1
                    continue
        if not find_plan(m, prev, v, eps):
            raise Fail("%s: vector %d = %s is not the value of any one-step plan over the previous epoch" % (
                what, k, v.tolist()))
        res.transitions += 1


def find_plan(m, prev, v, eps, cap=300000):
    for a in range(m.A):
        cur = [m.er[a]]
        sets = []
        n = 1
        for o in range(m.O):
            g = np.unique(np.round(prev @ m.G[a, o].T, 10), axis=0)
            sets.append(g)
            n *= len(g)
        if n > cap:
            return True         # too many plans to enumerate; the belief checks stand alone
        acc = m.er[a][None, :]
        for g in sets:
            acc = (acc[:, None, :] + g[None, :, :]).reshape(-1, m.S)
        if (np.abs(acc - v).max(axis=1) <= eps + 1e-9).any():
            return True
    return False


def reachable(m, depth, cap=400):
    """belief states reachable from the initial belief within depth steps (explicit-state search)"""
    b0 = m.start if m.start is not None else np.full(m.S, 1.0 / m.S)
    seen = {tuple(np.round(b0, 9)): b0}
    front = [b0]
    for _ in range(depth):
        nxt = []
        for b in front:
            for a in range(m.A):
                for o in range(m.O):
                    nb, p = m.belief_update(b, a, o)
                    if p > 1e-12:
                        k = tuple(np.round(nb, 9))
                        if k not in seen:
                            seen[k] = nb
                            nxt.append(nb)
                            if len(seen) >= cap:
                                return np.array(list(seen.values()))
        front = nxt
    return np.array(list(seen.values()))
