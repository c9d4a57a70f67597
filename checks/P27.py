import itertools, os, re
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail

C = Check("P27", "model_checking",
          "explicit-state enumeration of (model, method, approximation option, tolerance, horizon); every epoch the real solver saved is compared with the exact backup of the epoch before: never above it, every vector the value of a plan, never below it by more than the tolerance the settings imply",
          "a case is one run; every saved epoch is checked at all vertices of its value surface; distinct = different (method, option, tolerance, vector counts) outcomes",
          ["epsilon pruning of the merged set may lose at most the tolerance, of the projections at most the tolerance per observation; a coarse -epsilon at most (2*observations+1) times it (ten times that for restricted-region pruning, see factor())",
           "accelerated runs: non-negative rewards, optimal value computed by an independent value iteration to 1e-9"])

SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 3), (3, 3, 2), (2, 2, 3), (4, 2, 2), (1, 2, 2), (2, 2, 1)]


def check_epochs(m, d, bound, res, what, H):
    """bound(e) -> largest loss allowed in epoch e"""
    prev = np.zeros((1, m.S))
    e = 0
    sizes = []
    while os.path.exists(os.path.join(d, "o.alpha%d" % (e + 1))):
        e += 1
        av = S.load(d, "o.alpha%d" % e)
        cur = S.vecs(av)
        w = "%s epoch %d" % (what, e)
        if cur.shape[1] != m.S or not np.isfinite(cur).all():
            raise Fail("%s: bad solution" % w)
        eps = 2e-6 * S.scale(m, cur, prev)
        bel, exact = M.test_beliefs(cur, m.S)
        gap = m.backup(prev, bel) - M.surface(cur, bel)
        i = int(gap.argmin())
        if gap[i] < -eps:
            raise Fail("%s: value %.9g at %s exceeds the exact backup by %.3g" % (w, M.surface(cur, bel)[i], np.round(bel[i], 6).tolist(), -gap[i]))
        i = int(gap.argmax())
        if gap[i] > bound(e) + eps:
            raise Fail("%s: value at %s is %.6g below the exact backup, the settings allow %.6g" % (w, np.round(bel[i], 6).tolist(), gap[i], bound(e)))
        res.note("epochs that lost something", int(gap[i] > eps))
        for k, v in enumerate(cur):
            if not S.find_plan(m, prev, v, eps):
                raise Fail("%s: vector %d = %s is not the value of any plan over the previous epoch" % (w, k, v.tolist()))
        res.states += len(bel)
        res.transitions += 1
        sizes.append(len(cur))
        prev = cur
    if e == 0 or (H and e > H):
        raise Fail("%s: %d epochs saved" % (what, e))
    res.traces += 1
    res.key(what, sizes)
    return prev


OPTS = ("q", "proj", "both")
TOLS = (0.01, 0.2, 1.5)


def cases(tier):
    for n in range(3 if tier == "quick" else 40):
        for (Sn, A, O) in SHAPES:
            for meth in S.METHODS:
                for opt in OPTS:
                    for t in TOLS:
                        yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth, "opt": opt, "t": t}


@C.family("epsilon pruning", cases)
def f_eps(c, res, builds, d):
    m = F.model_n(c["n"] + 300, c["S"], c["A"], c["O"], (0.9, 1.0, 0.6)[c["n"] % 3], values="cost" if c["n"] % 4 == 3 else "reward")
    fin = "-enum_purge" if c["m"] == "enum" else "-q_purge"
    args = ["-prune_epsilon", c["t"]]
    loss = 0.0
    if c["opt"] in ("q", "both"):
        args += [fin, "epsilon_prune"]
        loss += c["t"]
    if c["opt"] in ("proj", "both"):
        args += ["-proj_purge", "epsilon_prune"]
        loss += c["O"] * c["t"]
    H = 2 if c["m"] == "enum" and c["O"] > 2 else 4
    S.solve(builds["plain"], d, m.text(), ["-horizon", H, "-save_all", "true", "-stop_criteria", "exact"] + S.METHODS[c["m"]] + args)
    check_epochs(m, d, lambda e: loss, res, "%s %s" % (c["m"], " ".join(map(str, args))), H)


def ccases(tier):
    for n in range(6 if tier == "quick" else 60):
        for (Sn, A, O) in SHAPES:
            for meth in S.METHODS:
                for e in (1e-3, 0.05, 0.5):
                    yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth, "e": e}


def factor(meth, O):
    """losses of one epoch in units of a coarse -epsilon: one per projection purge, one per observation for the
    construction of the action's set, one for the final merge; the restricted-region construction compares with part of
    the vectors only, so its losses add up"""
    return O + 1 if meth == "enum" else (10 if meth == "incprune-rr" else 1) * (2 * O + 1)


@C.family("coarse precision", ccases)
def f_coarse(c, res, builds, d):
    m = F.model_n(c["n"] + 400, c["S"], c["A"], c["O"], (0.9, 1.0, 0.6)[c["n"] % 3])
    H = 2 if c["m"] == "enum" and c["O"] > 2 else 4
    S.solve(builds["plain"], d, m.text(), ["-horizon", H, "-save_all", "true", "-stop_criteria", "exact", "-epsilon", c["e"]] + S.METHODS[c["m"]])
    k = factor(c["m"], c["O"])
    check_epochs(m, d, lambda e: k * c["e"], res, "%s -epsilon %g" % (c["m"], c["e"]), H)


def acases(tier):
    for n in range(8 if tier == "quick" else 80):
        for (Sn, A, O) in SHAPES:
            for meth in S.METHODS:
                for q in (False, True):
                    if meth == "enum" and (q or O > 2):
                        continue
                    yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth, "q": q}


@C.family("adjustable precision", acases)
def f_adj(c, res, builds, d):
    m = F.model_n(c["n"] + 500, c["S"], c["A"], c["O"], (0.9, 0.5, 0.7)[c["n"] % 3])
    H = 8 if c["S"] < 3 and c["O"] < 3 else 5
    start, fac, hist = ((1.0, 10, 1), (0.3, 3, 2), (0.1, 100, 1))[c["n"] % 3]
    args = ["-vi_variation", "adjustable_epsilon", "-start_epsilon", start, "-end_epsilon", 0.02, "-epsilon_adjust", fac, "-history_length", hist, "-history_delta", 1]
    if c["q"]:
        args += ["-q_purge", "epsilon_prune"]
    p = S.solve(builds["plain"], d, m.text(), ["-horizon", H, "-save_all", "true", "-stop_criteria", "exact"] + S.METHODS[c["m"]] + args)
    # the announced schedule: epsilon in force during each epoch
    eps, cur, ep = {}, None, 0
    for line in p.out.split("\n"):
        x = re.match(r">>(?:Starting epsilon set|Adjusted epsilon) to (\S+)<<", line)
        if x:
            v = float(x.group(1))
            if cur is not None and not v < cur:
                raise Fail("precision was announced to become coarser: %g after %g" % (v, cur))
            if cur is not None and cur <= 0.02 * 0.999:
                raise Fail("precision adjusted below the end precision: %g after %g" % (v, cur))
            if cur is not None and abs(v * fac / cur - 1) > 1e-2:
                raise Fail("precision adjusted from %g to %g, the factor is %g" % (cur, v, fac))
            if cur is None and abs(v / start - 1) > 1e-3:
                raise Fail("starting precision %g instead of %g" % (v, start))
            cur = v
        x = re.match(r"Epoch: (\d+)", line)
        if x:
            ep = int(x.group(1))
            eps[ep] = cur
    if not eps or eps.get(1) is None:
        raise Fail("no precision was announced before the first epoch")
    res.note("epochs after an adjustment", sum(1 for e in eps if eps[e] != eps[1]))
    k = 1 if c["q"] else factor(c["m"], c["O"])
    check_epochs(m, d, lambda e: k * eps[e] * 1.001, res, "%s adjustable%s" % (c["m"], " q" if c["q"] else ""), H)


def zcases(tier):
    for n in range(16 if tier == "quick" else 150):
        for (Sn, A, O) in SHAPES:
            for meth in S.METHODS:
                if meth in ("enum", "twopass") and O > 2:
                    continue
                for crit, delta in (("weak", 0.3), ("bellman", 0.3), ("bellman", 0.02)):
                    yield {"n": n, "S": Sn, "A": A, "O": O, "m": meth, "c": crit, "dl": delta}


def optimal(m, d, b, H):
    """tight bounds of the optimal value function by the (separately checked) normal method:
    with non-negative rewards the n-step value plus the largest possible rest"""
    S.solve(b, d, None, ["-horizon", H, "-stop_criteria", "exact"], prefix="v")
    V = S.vecs(S.load(d, "v.alpha"))
    return V


@C.family("accelerated", zcases)
def f_zlz(c, res, builds, d):
    g = (0.4, 0.6, 0.5)[c["n"] % 3]
    m = F.model_n(c["n"] + 600, c["S"], c["A"], c["O"], g, rew=[0.0, 1.0, 0.5, 2.5, 0.3])
    b = builds["plain"]
    big = c["S"] > 2 or c["O"] > 2
    H = 7 if big else 40
    hz = 3 if big else 12
    what = "zlz %s %s %g" % (c["m"], c["c"], c["dl"])
    S.solve(b, d, m.text(), ["-vi_variation", "zlz", "-witness_points", "true", "-save_all", "true", "-stop_criteria", c["c"], "-stop_delta", c["dl"],
                             "-horizon", hz] + S.METHODS[c["m"]])
    opt = optimal(m, d, b, H)
    rest = g ** H * 2.5 / (1 - g)           # optimal value - H-step value lies in [0, rest]
    prev, e = None, 0
    while os.path.exists(os.path.join(d, "o.alpha%d" % (e + 1))) or prev is None:
        e += 1
        cur = S.vecs(S.load(d, "o.alpha%d" % e))
        eps = 2e-6 * S.scale(m, cur)
        bel, _ = M.test_beliefs(opt, m.S)
        b2, _ = M.test_beliefs(cur, m.S)
        bel = np.concatenate([bel, b2])
        v = M.surface(cur, bel)
        gap = v - M.surface(opt, bel) - rest
        i = int(gap.argmax())
        if gap[i] > eps:
            raise Fail("%s epoch %d: value %.9g at %s exceeds the optimal value by %.6g" % (what, e, v[i], np.round(bel[i], 6).tolist(), gap[i]))
        if prev is not None:
            gap = m.backup(prev, bel) - v
            i = int(gap.argmax())
            if gap[i] > eps:
                raise Fail("%s epoch %d: value %.9g at %s is below the exact backup of the previous epoch by %.6g" % (what, e, v[i], np.round(bel[i], 6).tolist(), gap[i]))
        res.states += len(bel)
        res.transitions += 1
        prev = cur
    fin = S.vecs(S.load(d, "o.alpha"))
    gap = M.surface(fin, bel) - M.surface(opt, bel) - rest
    if gap.max() > eps:
        raise Fail("%s: the final value function exceeds the optimal value by %.6g" % (what, gap.max()))
    gap = M.surface(cur, bel) - M.surface(fin, bel)
    if gap.max() > eps:
        raise Fail("%s: the final value function is %.6g below the last exact update" % (what, gap.max()))
    if e < hz:                  # stopped by the criterion: the promised error
        gap = M.surface(opt, bel) - M.surface(fin, bel)
        if gap.max() > c["dl"] / 2 + 2e-5:
            raise Fail("%s: converged, but the value is %.6g below the optimum (promised %.6g)" % (what, gap.max(), c["dl"] / 2))
        res.note("converged")
    res.traces += 1
    res.key(what, e, len(fin))
    if e > 2:
        res.sample = {"run": what, "epochs": e, "vectors": len(fin)}
