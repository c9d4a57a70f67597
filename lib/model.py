"""Reference semantics of a finite POMDP (the explicit-state oracle).

Deliberately boring: dense lists, no sharing with the code under test."""
import itertools
import numpy as np


class Model:
    def __init__(self, T, Z, R, gamma, start=None, values="reward"):
        """T[a][s][s'], Z[a][s'][o], R[a][s] or R[a][s][s'][o] (in the file's own sign)"""
        self.T = np.array(T, float)
        self.Z = np.array(Z, float)
        self.A, self.S = self.T.shape[:2]
        self.O = self.Z.shape[2]
        R = np.array(R, float)
        if R.ndim == 2:
            R = np.broadcast_to(R[:, :, None, None], (self.A, self.S, self.S, self.O))
        self.R = R
        self.gamma = float(gamma)
        self.values = values
        self.start = None if start is None else np.array(start, float)
        er = np.einsum("ast,ato,asto->as", self.T, self.Z, self.R)
        self.er = -er if values == "cost" else er
        # G[a][o] (S x S'): discounted joint probability matrix
        self.G = self.gamma * np.einsum("ast,ato->aost", self.T, self.Z)
        self.possible = np.einsum("ast,ato->ao", (self.T > 0).astype(float), (self.Z > 0).astype(float)) > 0

    # -- one-step value of the Bellman backup at belief(s) b
    def backup(self, V, bel):
        """V: n x S; bel: m x S -> (m,) optimal one-step value"""
        V = np.asarray(V, float)
        bel = np.asarray(bel, float)
        qs = []
        for a in range(self.A):
            q = bel @ self.er[a]
            for o in range(self.O):
                q = q + (bel @ (self.G[a, o] @ V.T)).max(axis=1)
            qs.append(q)
        return np.max(np.array(qs), axis=0)

    def q_backup(self, V, bel, a):
        bel = np.asarray(bel, float)
        q = bel @ self.er[a]
        for o in range(self.O):
            q = q + (bel @ (self.G[a, o] @ np.asarray(V, float).T)).max(axis=1)
        return q

    def plan_vector(self, a, succ, V):
        """value vector of: do a, then on o follow V[succ[o]] (None: observation impossible)"""
        v = self.er[a].copy()
        for o in range(self.O):
            if succ[o] is not None:
                v = v + self.G[a, o] @ np.asarray(V[succ[o]], float)
        return v

    def belief_update(self, b, a, o):
        x = (np.asarray(b, float) @ self.T[a]) * self.Z[a][:, o]
        t = x.sum()
        return (x / t, t) if t > 0 else (np.zeros(self.S), 0.0)

    # -- writing a model file
    def text(self, fmt="%.12g", style="matrix"):
        n = lambda x: fmt % x
        L = ["discount: " + n(self.gamma), "values: " + self.values, "states: %d" % self.S,
             "actions: %d" % self.A, "observations: %d" % self.O]
        if self.start is not None:
            L.append("start: " + " ".join(n(x) for x in self.start))
        for a in range(self.A):
            if style == "matrix":
                L.append("T: %d" % a)
                L += [" ".join(n(x) for x in row) for row in self.T[a]]
            else:
                for s in range(self.S):
                    for t in range(self.S):
                        if self.T[a, s, t]:
                            L.append("T: %d : %d : %d %s" % (a, s, t, n(self.T[a, s, t])))
        for a in range(self.A):
            if style == "matrix":
                L.append("O: %d" % a)
                L += [" ".join(n(x) for x in row) for row in self.Z[a]]
            else:
                for s in range(self.S):
                    for t in range(self.O):
                        if self.Z[a, s, t]:
                            L.append("O: %d : %d : %d %s" % (a, s, t, n(self.Z[a, s, t])))
        for a in range(self.A):
            for s in range(self.S):
                r = self.R[a, s]
                if (r == r.flat[0]).all():
                    L.append("R: %d : %d : * : * %s" % (a, s, n(r.flat[0])))
                else:
                    for t in range(self.S):
                        if (r[t] == r[t, 0]).all():
                            L.append("R: %d : %d : %d : * %s" % (a, s, t, n(r[t, 0])))
                        else:
                            for o in range(self.O):
                                L.append("R: %d : %d : %d : %d %s" % (a, s, t, o, n(r[t, o])))
        return "\n".join(L) + "\n"

    def spec(self):
        return {"T": self.T.tolist(), "Z": self.Z.tolist(), "R": np.asarray(self.R).tolist(),
                "g": self.gamma, "start": None if self.start is None else self.start.tolist(),
                "values": self.values}


def from_spec(j):
    return Model(j["T"], j["Z"], j["R"], j["g"], j.get("start"), j.get("values", "reward"))


# ---------------------------------------------------------------- files
def parse_alpha(text):
    """-> list of (action, vector); raises ValueError on anything not in the documented format"""
    out = []
    blocks = text.split("\n")
    i = 0
    while i < len(blocks):
        if not blocks[i].strip():
            i += 1
            continue
        a = int(blocks[i].strip())
        vals = [float(x) for x in blocks[i + 1].split()]
        if not vals:
            raise ValueError("vector %d has no values" % len(out))
        out.append((a, np.array(vals)))
        i += 2
    return out


def read_alpha(path):
    with open(path) as f:
        return parse_alpha(f.read())


def fmt_alpha(vs):
    return "".join("%d\n%s\n\n" % (a, " ".join("%.20g" % x for x in v)) for a, v in vs)


def read_pg(path):
    """-> list of (id, action, [succ or None])"""
    out = []
    with open(path) as f:
        for line in f:
            w = line.split()
            if not w:
                continue
            out.append((int(w[0]), int(w[1]), [None if x in ("-", "X") else int(x) for x in w[2:]]))
    return out


# ---------------------------------------------------------------- beliefs
def simplex_grid(S, N):
    """all beliefs with coordinates k/N"""
    out = []

    def rec(i, left, cur):
        if i == S - 1:
            out.append(cur + [left])
            return
        for k in range(left + 1):
            rec(i + 1, left - k, cur + [k])
    rec(0, N, [])
    return np.array(out, float) / N


def partition_vertices(V, limit=60000):
    """All vertices of the regions in which one vector of V is maximal (upper surface).

    Every vertex is where, for some set of k vectors and S-k zero coordinates, the k vectors tie and are
    maximal.  The difference between a convex function that is >= the surface and the surface is convex on
    each region, hence maximal at a vertex: checking the vertices decides completeness exactly.
    Returns None if there would be more than `limit` combinations."""
    V = np.asarray(V, float)
    n, S = V.shape
    verts = [np.eye(S)]
    from math import comb
    tot = sum(comb(n, k) * comb(S, k) for k in range(2, S + 1))
    if tot > limit:
        return None
    for k in range(2, S + 1):
        combos = np.array(list(itertools.combinations(range(n), k)))
        if len(combos) == 0:
            continue
        for supp in itertools.combinations(range(S), k):
            sub = V[:, supp]
            A = np.zeros((len(combos), k, k))
            A[:, 0, :] = 1.0
            for j in range(1, k):
                A[:, j, :] = sub[combos[:, j]] - sub[combos[:, 0]]
            rhs = np.zeros((len(combos), k))
            rhs[:, 0] = 1.0
            det = np.linalg.det(A)
            ok = np.abs(det) > 1e-13
            if not ok.any():
                continue
            x = np.linalg.solve(A[ok], rhs[ok][..., None])[..., 0]
            c0 = combos[ok][:, 0]
            good = np.isfinite(x).all(axis=1) & (x > -1e-9).all(axis=1)
            x, c0 = x[good], c0[good]
            if len(x) == 0:
                continue
            b = np.zeros((len(x), S))
            b[:, supp] = np.clip(x, 0, None)
            b /= b.sum(axis=1, keepdims=True)
            vals = b @ V.T
            top = vals[np.arange(len(b)), c0] >= vals.max(axis=1) - 1e-7 * (1 + np.abs(vals).max(axis=1))
            if top.any():
                verts.append(b[top])
    b = np.concatenate(verts)
    return np.unique(np.round(b, 12), axis=0)


def test_beliefs(V, S, grid=None, limit=60000):
    """(beliefs, exact) - partition vertices when affordable, always plus a fixed grid"""
    g = simplex_grid(S, grid or {1: 1, 2: 32, 3: 12, 4: 7, 5: 5, 6: 4}.get(S, 2))
    v = partition_vertices(V, limit)
    if v is None:
        return g, False
    return np.concatenate([g, v]), True


def surface(V, bel):
    return (np.asarray(bel) @ np.asarray(V).T).max(axis=1)


def dominated_somewhere(V, i):
    """is there a belief where V[i] is above all others?  exact max over vertices of the others' surface"""
    others = np.delete(V, i, axis=0)
    if len(others) == 0:
        return np.inf
    vs = partition_vertices(others)
    if vs is None:
        return None
    return float((vs @ V[i] - surface(others, vs)).max())
