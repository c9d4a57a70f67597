import itertools, os, re
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail

C = Check("P05", "model_checking",
          "explicit-state enumeration of (model, criterion, delta, discount, horizon, start) combinations; the reference criterion is evaluated between all consecutive epochs the real solver saved and must agree with where it stopped",
          "a case is one run of the real solver; for every pair of consecutive saved epochs the reference error is computed and the run must continue while it is above the bound and stop at the first epoch where it is not; "
          "distinct = different (criterion, number of epochs, stop reason, rounded error) outcomes",
          ["weak: every new vector within the bound of a previous vector in every component, and within delta itself",
           "bellman residuals are exact maxima over surface vertices; differences within 1e-5 (relative to the largest value) of the bound are not judged: the LP code is that accurate",
           "exact: vectors equal within 1e-9; differences between 0.9e-9 and 1.1e-9 are not judged"])


def threshold(delta, g):
    if g == 0:
        return np.inf
    return delta * (1 - g) / (2 * g)


def weak(cur, prev):
    return max(float(np.abs(prev - v).max(axis=1).min()) for v in cur)


def residual(cur, prev):
    vp, vc = M.partition_vertices(prev), M.partition_vertices(cur)
    if vp is None or vc is None:
        return None
    return max(float((M.surface(cur, vp) - M.surface(prev, vp)).max()), float((M.surface(prev, vc) - M.surface(cur, vc)).max()))


def verdict(crit, cur, prev, delta, g):
    """-> (met for certain, unmet for certain, error)"""
    if crit == "exact":
        if len(cur) != len(prev):
            return False, True, np.inf
        e = max(weak(cur, prev), weak(prev, cur))       # as sets of vectors
        return e <= 0.9e-9, e > 1.1e-9, e
    thr = threshold(delta, g)
    if crit == "weak":
        e = weak(cur, prev)
        met = (e <= thr * (1 - 1e-9) or (e == 0 and thr == 0)) and e <= delta * (1 - 1e-9)
        return met, e > thr * (1 + 1e-9), e
    e = residual(cur, prev)
    if e is None:
        return False, False, 0.0
    tol = 1e-5 * S.scale(None, cur, prev)     # the accuracy of the LP code
    return e <= thr - tol or e < 1e-12, e > thr + tol, e


def run_case(m, crit, delta, H, meth, terminal, res, builds, d):
    args = ["-save_all", "true", "-stop_criteria", crit, "-stop_delta", "%.12g" % delta, "-discount", "%.12g" % m.gamma] + S.METHODS[meth]
    if H:
        args += ["-horizon", H]
    prev = np.zeros((1, m.S))
    if terminal is not None:
        prev = np.array(terminal, float)
        with open(os.path.join(d, "t.alpha"), "w") as f:
            f.write(M.fmt_alpha([(0, v) for v in prev]))
        args += ["-terminal_values", "t.alpha"]
    S.solve(builds["plain"], d, m.text(), args)
    eps = []
    while os.path.exists(os.path.join(d, "o.alpha%d" % (len(eps) + 1))):
        eps.append(S.vecs(S.load(d, "o.alpha%d" % (len(eps) + 1))))
    N = len(eps)
    if N == 0:
        raise Fail("no epoch was saved")
    if H and N > H:
        raise Fail("%d epochs with -horizon %d" % (N, H))
    for e, cur in enumerate(eps, 1):
        met, unmet, err = verdict(crit, cur, prev, delta, m.gamma)
        if e < N and met:
            raise Fail("%s criterion (delta %g, discount %g) is met at epoch %d (error %.6g, bound %.6g) but the run went on to epoch %d" % (
                crit, delta, m.gamma, e, err, threshold(delta, m.gamma), N))
        if e == N and (not H or N < H) and unmet:
            raise Fail("the run stopped at epoch %d%s but the %s criterion (delta %g, discount %g) is not met: error %.6g, bound %.6g" % (
                e, " of %d" % H if H else "", crit, delta, m.gamma, err, threshold(delta, m.gamma)))
        prev = cur
        res.transitions += 1
    res.states += N
    res.traces += 1
    res.key(crit, N, bool(H and N == H), "%.3g" % err)
    res.note("stopped by criterion", int(not H or N < H))
    if N > 3:
        res.sample = {"criterion": crit, "epochs": N, "last error": err}


REWS = [[0.0, 1.0, 2.5, 0.3], [0.0, 1.0, -1.0, 2.5, -10.0, 0.3], [-1.0, -2.0, 0.0, -0.5], [0.0, 1.0, 0.0, 2.0]]


def cases(tier):
    k = 12 if tier == "quick" else 400
    for n in range(k):
        for Sn, A, O in ((1, 2, 1), (2, 2, 2), (2, 2, 1), (2, 3, 2), (3, 2, 2)):
            for crit, delta in (("exact", 1e-9), ("weak", 1e-9), ("weak", 0.05), ("weak", 1.0), ("weak", 3e-4), ("bellman", 0.01), ("bellman", 0.3), ("bellman", 3.0), ("bellman", 1e-3)):
                for g in (0.0, 0.15, 0.4, 0.6, 0.95, 1.0):
                    for H in ((0 if delta > 1e-3 and Sn < 3 else 40 if Sn < 3 else 8, 7, 1) if g <= 0.6 else (12, 5) if Sn < 3 else (6, 3)):
                        yield {"n": n, "S": Sn, "A": A, "O": O, "c": crit, "dl": delta, "g": g, "H": H, "rw": n % 4,
                               "v": "cost" if n % 5 == 3 else "reward", "m": ("incprune", "witness", "incprune-gen", "incprune-rr", "twopass", "enum")[n % 6]}


@C.family("zero start", cases)
def f_zero(c, res, builds, d):
    m = F.model_n(c["n"] + 20, c["S"], c["A"], c["O"], c["g"], rew=REWS[c["rw"]], values=c["v"])
    run_case(m, c["c"], c["dl"], c["H"], c["m"], None, res, builds, d)


def tcases(tier):
    k = 24 if tier == "quick" else 400
    for n in range(k):
        for Sn, A, O in ((2, 2, 2), (2, 2, 1), (3, 2, 2)):
            for crit, delta in (("exact", 1e-9), ("weak", 1e-9), ("weak", 0.05), ("bellman", 0.01), ("bellman", 0.3)):
                for g in (0.15, 0.4, 0.6):
                    for t in range(5):
                        yield {"n": n, "S": Sn, "A": A, "O": O, "c": crit, "dl": delta, "g": g, "t": t, "rw": n % 4}


@C.family("terminal start", tcases)
def f_term(c, res, builds, d):
    m = F.model_n(c["n"] + 40, c["S"], c["A"], c["O"], c["g"], rew=REWS[c["rw"]])
    w = F.Walk(c["n"] * 5 + c["t"])
    if c["t"] == 0:
        T = [[10.0] * m.S]
    elif c["t"] == 1:
        T = [[-10.0] * m.S]
    elif c["t"] == 2:
        T = (np.eye(m.S) * 8).tolist()
    elif c["t"] == 3:
        T = [[float(w(7) - 3) for _ in range(m.S)] for _ in range(3)]
    else:           # the converged solution itself, highest vector first
        S.solve(builds["plain"], d, m.text(), ["-stop_criteria", "exact", "-horizon", 60 if m.S < 3 else 6], prefix="c")
        T = S.vecs(S.load(d, "c.alpha"))[::-1].tolist()
    run_case(m, c["c"], c["dl"], 40 if m.S < 3 else 7, "incprune", T, res, builds, d)


TM = {"stay": [[1, 0], [0, 1]], "to0": [[1, 0], [1, 0]], "half": [[.5, .5], [.75, .25]], "swap": [[0, 1], [1, 0]], "absorb": [[1, 0], [.3, .7]]}
ZM = {"see": [[1, 0], [0, 1]], "blind": [[1, 0], [1, 0]], "noisy": [[1, 0], [.1, .9]]}


def scases(tier):
    for T in itertools.product(TM, repeat=2):
        for Z in ZM:
            for R in itertools.product((0.0, 2.0) if tier == "quick" else (0.0, 2.0, -1.0), repeat=4):
                for crit, delta in (("weak", 0.01), ("weak", 0.5), ("bellman", 0.05), ("exact", 1e-9)):
                    yield {"T": T, "Z": Z, "R": R, "c": crit, "dl": delta}


@C.family("structured models, complete product", scases)
def f_str(c, res, builds, d):
    """sparse rewards and absorbing/blind structure: some vectors converge (or are zero) long before others"""
    m = M.Model([TM[t] for t in c["T"]], [ZM["noisy" if a == 0 and c["Z"] == "noisy" else c["Z"]] for a in (0, 1)], np.array(c["R"]).reshape(2, 2), 0.6, [.5, .5])
    run_case(m, c["c"], c["dl"], 40, "incprune", None, res, builds, d)
