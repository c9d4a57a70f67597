import itertools, os, re
import numpy as np
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail
import importlib
P04 = importlib.import_module("P04")

C = Check("P20", "model_checking",
          "explicit-state enumeration of models, grid kinds and grid sizes; the saved grid is compared with the belief states found by a reference search of the belief MDP, and every epoch of the real method with the optimal backup at each grid point",
          "a state is a grid point of an epoch (or a belief of the simplex for the bound), a transition one epoch; distinct = different grids and value functions",
          ["relative tolerance 1e-6; two beliefs are the same when all components agree to within the grid precision",
           "the grid may exceed the requested number of points by one expansion (actions times observations), as the search stops between expansions"])

SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2), (4, 2, 2), (3, 2, 3), (1, 2, 2), (2, 1, 1)]


def bfs(m, starts, cap):
    """beliefs reachable from starts, breadth first; (list, closed?)"""
    out = []

    def add(b):
        for x in out:
            if np.abs(x - b).max() <= 1e-9:
                return
        out.append(b)
    for b in starts:
        add(b)
    i = 0
    while i < len(out):
        if len(out) > cap:
            return out, False
        for a in range(m.A):
            for o in range(m.O):
                nb, p = m.belief_update(out[i], a, o)
                if p > 1e-10:
                    add(nb)
        i += 1
    return out, True


def read_beliefs(path, Sn):
    w = [float(x) for x in open(path).read().split()]
    if len(w) % Sn:
        raise Fail("the saved grid does not consist of beliefs over %d states" % Sn)
    return np.array(w).reshape(-1, Sn)


def starts(m, kind):
    if kind == "initial":
        return [m.start if m.start is not None else np.full(m.S, 1.0 / m.S)]
    b = [np.full(m.S, 1.0 / m.S)]
    for a in range(m.A):
        for o in range(m.O):
            z = (m.Z[a][:, o] > 1e-9).astype(float)
            if z.sum():
                b.append(z / z.sum())
    return b


def check_grid(m, kind, limit, G, res):
    if len(G) == 0:
        raise Fail("empty grid")
    if not np.isfinite(G).all() or (G < -1e-9).any() or np.abs(G.sum(axis=1) - 1).max() > 1e-6:
        k = next(i for i in range(len(G)) if not (np.isfinite(G[i]).all() and (G[i] >= -1e-9).all() and abs(G[i].sum() - 1) <= 1e-6))
        raise Fail("grid point %d is not a belief: %s" % (k, G[k].tolist()))
    for i in range(len(G)):
        dd = np.abs(G[i + 1:] - G[i]).max(axis=1) if i + 1 < len(G) else np.array([])
        if len(dd) and dd.min() < 1e-10:
            raise Fail("grid point %s occurs twice" % G[i].tolist())
    if kind in ("simplex", "pairwise"):
        want = [np.eye(m.S)[i] for i in range(m.S)]
        if kind == "pairwise":
            want += [(np.eye(m.S)[i] + np.eye(m.S)[j]) / 2 for i in range(m.S) for j in range(i)]
        closed = True
    else:
        want, closed = bfs(m, starts(m, kind), limit + 400)
    W = np.array(want)
    if closed:
        for g in G:
            if np.abs(W - g).max(axis=1).min() > 1e-8:
                raise Fail("grid point %s is not a %s point" % (g.tolist(), kind))
    lo = min(limit, len(want)) if kind in ("initial", "search") else len(want)
    if kind in ("simplex", "pairwise") or (closed and len(want) <= limit):
        for w in want:
            if np.abs(G - w).max(axis=1).min() > 1e-8:
                raise Fail("%s point %s is missing from the grid" % (kind, w.tolist()))
    elif len(G) < lo:
        raise Fail("grid has %d points, %d are reachable and %d were asked for" % (len(G), len(want), limit))
    if kind in ("initial", "search") and len(G) > max(limit, len(starts(m, kind))) + m.A * m.O:
        raise Fail("grid has %d points, %d were asked for" % (len(G), limit))
    if kind in ("initial", "search") and not closed:
        # every point is a starting point or a successor of another point of the grid
        st = np.array(starts(m, kind))
        succ = [st]
        for g in G:
            for a in range(m.A):
                for o in range(m.O):
                    nb, p = m.belief_update(g, a, o)
                    if p > 1e-12:
                        succ.append(nb[None])
        R = np.concatenate(succ)
        for g in G:
            if np.abs(R - g).max(axis=1).min() > 1e-7:
                raise Fail("grid point %s is not reachable" % g.tolist())
    res.states += len(G)
    res.note("closed belief sets" if closed else "unbounded belief sets")


def epochs_of(p):
    return [(int(a), int(b), float(e)) for a, b, e in re.findall(r"Epoch: (\d+)\.\.\.(\d+) vectors in .*\(err=(\S+)\)", p.out)]


def cases(tier):
    for n in range(9 if tier == "quick" else 120):
        for sh in range(len(SHAPES)):
            for kind in ("simplex", "pairwise", "initial", "search"):
                for lim in ((1, 5, 12, 60) if kind in ("initial", "search") else (10000,)):
                    if tier == "quick" and len(SHAPES) > 1 and (n + sh + lim) % 2 and kind in ("initial", "search"):
                        continue
                    yield {"n": n, "sh": sh, "kind": kind, "lim": lim}


PURGE = ["normal_prune", "domonly", "none"]


@C.family("grids and point backups", cases)
def f_grid(c, res, builds, d):
    n, kind = c["n"], c["kind"]
    m = F.model_n(n + 2800, *SHAPES[c["sh"]], [0.9, 0.5, 0.95][n % 3], full_r=n % 3 == 1, values="cost" if n % 4 == 3 else "reward", start=n % 4 != 2)
    delta = [1e-9, 0.5, 5.0][n % 3]
    h = 6
    purge = PURGE[(n + c["sh"] + c["lim"]) % 3]
    args = ["-method", "grid", "-fg_type", kind, "-fg_save", "true", "-save_all", "true", "-horizon", h, "-fg_purge", purge, "-stop_delta", delta]
    if kind in ("initial", "search"):
        args += ["-fg_points", c["lim"]]
    p = S.solve(builds["plain"], d, m.text(fmt="%.17g"), args)
    what = "%s grid of %d" % (kind, c["lim"])
    bp = os.path.join(d, "o.belief")
    if not os.path.exists(bp):
        raise Fail("%s: the grid was not saved" % what)
    G = read_beliefs(bp, m.S)
    check_grid(m, kind, c["lim"], G, res)
    k = re.search(r"Grid has (\d+) points", p.out)
    if not k or int(k.group(1)) != len(G):
        raise Fail("%s: reports %s points, saved %d" % (what, k and k.group(1), len(G)))
    ep = epochs_of(p)
    if not ep or [e for e, _, _ in ep] != list(range(1, len(ep) + 1)):
        raise Fail("%s: epochs %s" % (what, ep))
    prev = [(0, np.zeros(m.S))]
    for e, cnt, err in ep:
        cur = S.load(d, "o.alpha%d" % e)
        V, W = S.vecs(cur), S.vecs(prev)
        if len(V) != cnt:
            raise Fail("%s epoch %d: %d vectors reported, %d saved" % (what, e, cnt, len(V)))
        tol = 1e-6 * S.scale(m, V, W)
        gap = M.surface(V, G) - m.backup(W, G)
        i = int(np.abs(gap).argmax())
        if not abs(gap[i]) <= tol:
            raise Fail("%s epoch %d: value %.9g at grid point %s, optimal backup %.9g" % (what, e, M.surface(V, G[i:i + 1])[0], G[i].tolist(), m.backup(W, G[i:i + 1])[0]))
        bel, _ = M.test_beliefs(V, m.S, limit=5000)
        over = M.surface(V, bel) - m.backup(W, bel)
        i = int(over.argmax())
        if over[i] > tol:
            raise Fail("%s epoch %d: value at %s exceeds the optimal backup by %g" % (what, e, bel[i].tolist(), over[i]))
        for v in V:
            if not S.find_plan(m, W, v, tol):
                raise Fail("%s epoch %d: vector %s is not the value of a plan" % (what, e, v.tolist()))
        if len(V) > len(G):
            raise Fail("%s epoch %d: %d vectors for %d points" % (what, e, len(V), len(G)))
        P04.check_pg(m, W, cur, "o.pg%d" % e, d, res, what)
        change = np.abs(M.surface(V, G) - M.surface(W, G)).max()
        if not abs(err - change) <= 6e-3 * (1e-3 + change) + 1e-9:
            raise Fail("%s epoch %d: reported error %g, largest change at a grid point %g" % (what, e, err, change))
        bound = delta * (1 - m.gamma) / (2 * m.gamma)
        if change <= bound * (1 - 1e-6) - 1e-12 and e < len(ep):
            raise Fail("%s: went on after epoch %d, whose change %g is within %g" % (what, e, change, bound))
        if change > bound * (1 + 1e-6) + 1e-10 and e == len(ep) and e < h:
            raise Fail("%s: stopped after epoch %d, whose change %g is above %g" % (what, e, change, bound))
        res.states += len(G) + len(bel)
        res.transitions += 1
        res.key(np.round(V, 5).tolist())
        prev = cur
    res.traces += 1
