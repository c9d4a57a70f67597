import itertools, os
import numpy as np
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail, run

C = Check("P24", "model_checking",
          "explicit-state enumeration of models and of every rewriting of each from a finite group (all permutations, sign, scale, shift, splits, duplicates, forms); the real solver runs on both and every epoch's value function is compared over the whole simplex",
          "a state is a belief at which original and rewritten model were compared (all vertices of both value surfaces and a grid), a transition one epoch of one rewriting; distinct = different value functions",
          ["relative tolerance 1e-6", "scalings stay within a factor of 100 so that the solver's fixed precision is not the issue"],
          variants=("plain", "asan"))
H = 3
METH = list(S.METHODS)
GAMS = [0.9, 0.5, 0.95, 0.0, 1.0, 0.75, 0.999, 0.1]


def epochs(b, d, text, args, prefix, n):
    S.solve(b, d, text, args + ["-horizon", H, "-stop_criteria", "exact", "-save_all", "true"], prefix=prefix)
    out = []
    for k in range(1, H + 1):
        if os.path.exists(os.path.join(d, "%s.alpha%d" % (prefix, k))):
            out.append(S.vecs(S.load(d, "%s.alpha%d" % (prefix, k))))
    return out


def compare(E0, E1, f, Sn, res, what):
    """E1[k] must be f(k, E0[k]) as a value function; the run may stop early when two epochs agree"""
    last0 = last1 = None
    for k in range(H):
        last0 = E0[k] if k < len(E0) else last0
        last1 = E1[k] if k < len(E1) else last1
        if k >= len(E0) or k >= len(E1):
            if len(E0) != len(E1):
                raise Fail("%s: one run ended after %d epochs, the other after %d" % (what, len(E0), len(E1)))
            break
        want = f(k + 1, last0)
        if want.shape[1] != last1.shape[1]:
            raise Fail("%s: vectors of length %d" % (what, last1.shape[1]))
        bel, _ = M.test_beliefs(np.unique(np.round(np.concatenate([want, last1]), 9), axis=0), Sn, limit=20000)
        x, y = M.surface(want, bel), M.surface(last1, bel)
        i = int(np.abs(x - y).argmax())
        if not abs(x[i] - y[i]) <= 1e-6 * max(1.0, np.abs(want).max()):
            raise Fail("%s, epoch %d: value %.9g at %s, the equivalent model gives %.9g" % (what, k + 1, y[i], np.round(bel[i], 6).tolist(), x[i]))
        res.states += len(bel)
        res.transitions += 1
        res.key(np.round(want, 5).tolist())


SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2), (2, 3, 3), (3, 2, 3), (4, 2, 2), (2, 2, 4), (1, 3, 2), (2, 2, 1)]


def base(n, sh, gam=0.9):
    Sn, A, O = SHAPES[sh]
    return F.model_n(n + 2400, Sn, A, O, gam, full_r=n % 3 == 1, values="cost" if n % 2 else "reward")


def same(k, V):
    return V


def perm_cases(tier):
    for n in range(10 if tier == "quick" else 60):
        for sh in range(len(SHAPES)):
            Sn, A, O = SHAPES[sh]
            for kind, k in (("s", Sn), ("a", A), ("o", O)):
                ps = list(itertools.permutations(range(k)))[1:]
                if tier == "quick" and len(ps) > 5:
                    ps = ps[n % 2::5]
                for p in ps:
                    yield {"n": n, "sh": sh, "kind": kind, "p": list(p)}


def permuted(m, kind, p):
    T, Z, R, st = m.T, m.Z, m.R, m.start
    p = list(p)
    if kind == "s":
        T, Z, R = T[:, p][:, :, p], Z[:, p], R[:, p][:, :, p]
        st = None if st is None else st[p]
    elif kind == "a":
        T, Z, R = T[p], Z[p], R[p]
    else:
        Z, R = Z[:, :, p], R[:, :, :, p]
    return M.Model(T, Z, R, m.gamma, st, m.values)


@C.family("permutations of states, actions and observations", perm_cases)
def f_perm(c, res, builds, d):
    b = builds["plain"]
    m = base(c["n"], c["sh"], GAMS[(c["n"] + c["sh"]) % len(GAMS)])
    q = permuted(m, c["kind"], c["p"])
    a = S.METHODS[METH[(c["n"] + c["sh"] + sum(x * i for i, x in enumerate(c["p"]))) % len(METH)]]
    E0 = epochs(b, d, m.text(), a, "o", 0)
    E1 = epochs(b, d, q.text(), a, "q", 0)
    f = (lambda k, V: V[:, c["p"]]) if c["kind"] == "s" else same
    compare(E0, E1, f, m.S, res, "%s permuted %s (%s)" % ({"s": "states", "a": "actions", "o": "observations"}[c["kind"]], c["p"], a[1]))
    res.traces += 2


REWR = ["cost", "discount", "singles", "dupaction", "badaction", "split", "deadobs", "deadstate", "expected", "stdin-forms", "names", "start"]
LIN = [(2, 0), (10, 0), (0.5, 0), (0.1, 0), (1, 5), (1, -5), (1, 0.25), (1, 100), (3, -20), (1, -300), (100, 0), (1, -20000), (1, 20000), (30, -12345)]


def rew_cases(tier):
    for n in range(20 if tier == "quick" else 150):
        for sh in range(len(SHAPES)):
            for r in REWR:
                yield {"n": n, "sh": sh, "r": r, "x": 0}
            for k in range(len(LIN)):
                if tier != "quick" or (n + sh + k) % 3 == 0:
                    yield {"n": n, "sh": sh, "r": "linear", "x": k}


def names_text(m):
    """the same model with names for everything and reward lines by name, in another order"""
    st = ["st-%c" % (97 + i) for i in range(m.S)]
    ac = ["go_%d" % i for i in range(m.A)]
    ob = ["see%d-" % i for i in range(m.O)]
    L = ["observations: " + " ".join(ob), "actions: " + " ".join(ac), "values: " + m.values, "states: " + " ".join(st), "discount: %.12g" % m.gamma]
    if m.start is not None:
        L.append("start: " + " ".join("%.12g" % x for x in m.start))
    for a in reversed(range(m.A)):
        for s in reversed(range(m.S)):
            L.append("O: %s : %s" % (ac[a], st[s]))
            L.append(" ".join("%.12g" % x for x in m.Z[a, s]))
            L.append("T: %s : %s" % (ac[a], st[s]))
            L.append(" ".join("%.12g" % x for x in m.T[a, s]))
            for t in range(m.S):
                L.append("R: %s : %s : %s" % (ac[a], st[s], st[t]))
                L.append(" ".join("%.12g" % x for x in m.R[a, s, t]))
    return "\n".join(L) + "\n"


@C.family("rewritings", rew_cases)
def f_rew(c, res, builds, d):
    b = builds["plain"]
    n, r = c["n"], c["r"]
    m = base(n, c["sh"], GAMS[(n + c["sh"]) % len(GAMS)])
    a = list(S.METHODS[METH[(n + c["sh"] * 5 + len(r)) % len(METH)]])
    f, extra, Sn = same, [], m.S
    if r == "cost":
        t = M.Model(m.T, m.Z, -m.R, m.gamma, m.start, "reward" if m.values == "cost" else "cost").text()
    elif r == "discount":
        other = M.Model(m.T, m.Z, m.R, [0.3, 1.0, 0.99, 0.0][n % 4], m.start, m.values)
        t, extra = other.text(), ["-discount", ("%.12g" if n % 5 else "%.6e") % m.gamma]
    elif r == "singles":
        t = m.text(style="single")
    elif r == "dupaction":
        k = n % m.A
        ix = list(range(m.A)) + [k] if n % 2 else [k] + list(range(m.A))
        t = M.Model(m.T[ix], m.Z[ix], m.R[ix], m.gamma, m.start, m.values).text()
    elif r == "badaction":
        k = n % m.A
        ix = list(range(m.A)) + [k] if n % 2 else [k] + list(range(m.A))
        R = m.R[ix].copy()
        R[-1 if n % 2 else 0] -= (3.0 if m.values == "reward" else -3.0)
        t = M.Model(m.T[ix], m.Z[ix], R, m.gamma, m.start, m.values).text()
    elif r == "split":
        k = n % m.O
        lam = [0.5, 0.25, 0.9][n % 3]
        Z = np.concatenate([m.Z, m.Z[:, :, k:k + 1] * (1 - lam)], axis=2)
        Z[:, :, k] *= lam
        R = np.concatenate([m.R, m.R[:, :, :, k:k + 1]], axis=3)
        t = M.Model(m.T, Z, R, m.gamma, m.start, m.values).text(fmt="%.17g")
    elif r == "deadobs":        # an observation that never occurs, with an absurd reward
        k = n % (m.O + 1)
        Z = np.insert(m.Z, k, 0.0, axis=2)
        R = np.insert(m.R, k, 77.0 if n % 2 else -77.0, axis=3)
        t = M.Model(m.T, Z, R, m.gamma, m.start, m.values).text()
    elif r == "deadstate":      # a state that is never entered: other states keep their values
        k = n % (m.S + 1)
        T = np.insert(np.insert(m.T, k, 0.0, axis=2), k, 1.0 / m.S, axis=1)
        T[:, k, k] = 0
        Z = np.insert(m.Z, k, m.Z[:, 0], axis=1)
        R = np.insert(np.insert(m.R, k, 50.0 if n % 2 else -50.0, axis=2), k, 0.0, axis=1)
        st = None if m.start is None else np.insert(m.start, k, 0.0)
        t = M.Model(T, Z, R, m.gamma, st, m.values).text(fmt="%.17g")
        E0 = epochs(b, d, m.text(), a, "o", 0)
        E1 = [np.delete(V, k, axis=1) for V in epochs(b, d, t, a, "q", 0)]
        compare(E0[:len(E1)], E1[:len(E0)], same, m.S, res, "unreachable state added (%s)" % a[1])
        res.traces += 2
        return
    elif r == "expected":       # rewards replaced by their expectation
        er = m.er if m.values == "reward" else -m.er
        t = M.Model(m.T, m.Z, er, m.gamma, m.start, m.values).text(fmt="%.17g")
    elif r == "stdin-forms":    # wildcards overridden by specific lines
        t = m.text()
        i = t.index("T: 0")
        t = t[:i] + "T: *\nuniform\nO: *\nuniform\nR: * : * : * : * 99\n" + t[i:]
    elif r == "names":
        t = names_text(m)
    elif r == "start":          # the initial belief does not influence the value function
        st = np.roll(m.start, 1) if n % 2 else np.eye(m.S)[n % m.S]
        t = M.Model(m.T, m.Z, m.R, m.gamma, st, m.values).text()
    else:
        cc, k = LIN[c["x"]]
        t = M.Model(m.T, m.Z, m.R * cc + k, m.gamma, m.start, m.values).text(fmt="%.17g")
        sh = k if m.values == "reward" else -k
        f = lambda h, V: V * cc + sh * sum(m.gamma ** i for i in range(h))
    E0 = epochs(b, d, m.text(), a, "o", 0)
    E1 = epochs(b, d, t, a + extra, "q", 0)
    if r == "linear":           # a scaled or shifted run may converge in another epoch
        k = min(len(E0), len(E1))
        E0, E1 = E0[:k], E1[:k]
    compare(E0, E1, f, Sn, res, "%s %s (%s)" % (r, LIN[c["x"]] if r == "linear" else "", a[1]))
    res.traces += 2


# ---- many equivalent states, actions or observations -------------------------------------------
LADDER = {"s": [2, 3, 7, 16, 33, 64, 100, 150, 255, 256, 257, 333], "a": [2, 9, 31, 64, 127, 128, 300, 1000], "o": [2, 5, 11, 21, 50, 130]}


def many_cases(tier):
    T = tier != "quick"
    for n in range(3 if not T else 12):
        for kind, rs in LADDER.items():
            for r in rs if not T else sorted(set(rs + [4, 12, 24, 48, 80, 200])):
                for k in range(len(METH)):
                    if kind == "o" and METH[k] in ("enum", "twopass") and r > 2:
                        continue
                    if not T and (n + r + k) % 2:
                        continue
                    yield {"n": n, "kind": kind, "r": r, "k": k, "v": "asan" if r in (33, 31, 11) and (T or n == 0) else "plain"}


@C.family("many equivalent states, actions or observations", many_cases)
def f_many(c, res, builds, d):
    b = builds[c["v"]]
    n, r, kind = c["n"], c["r"], c["kind"]
    Sn, A, O = [(2, 2, 2), (3, 2, 2), (2, 3, 2)][n % 3]
    m = F.model_n(n + 2450, Sn, A, O, 0.9, values="cost" if n % 2 else "reward")
    T, Z, R, st = m.T, m.Z, m.R, m.start
    f = same
    if kind == "s":         # copy k of state i is state k*S+i; entering any copy is equally likely
        T = np.tile(T, (1, r, r)) / r
        Z = np.tile(Z, (1, r, 1))
        R = np.tile(R, (1, r, r, 1))
        st = None if st is None else np.tile(st, r) / r
    elif kind == "a":
        T, Z, R = np.tile(T, (r, 1, 1)), np.tile(Z, (r, 1, 1)), np.tile(R, (r, 1, 1, 1))
    else:
        Z, R = np.tile(Z, (1, 1, r)) / r, np.tile(R, (1, 1, 1, r))
    a = S.METHODS[METH[c["k"]]]
    E0 = epochs(builds["plain"], d, m.text(), a, "o", 0)
    E1 = epochs(b, d, M.Model(T, Z, R, m.gamma, st, m.values).text(fmt="%.17g"), a, "q", 0)
    if kind == "s":
        out = []
        for V in E1:
            W = V.reshape(len(V), r, Sn)
            sp = np.abs(W - W[:, :1]).max()
            if not sp <= 1e-6 * max(1.0, np.abs(V).max()):
                raise Fail("equivalent states have values that differ by %g (%d copies, %s)" % (sp, r, a[1]))
            out.append(W[:, 0])
        E1 = out
    compare(E0, E1, f, Sn, res, "%d times as many %s (%s)" % (r, {"s": "states", "a": "actions", "o": "observations"}[kind], a[1]))
    res.traces += 2
