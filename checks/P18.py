import itertools, os
import numpy as np
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail, run

C = Check("P18", "model_checking",
          "explicit-state enumeration of all finite-state controllers up to a size over a family of models; the real evaluation tool is run on each and compared with the exact solution of the controller's Markov chain",
          "a state is a (node, model state) pair of an evaluated controller, a transition one controller evaluated; distinct = different (rounded) value tables",
          ["the tool prints two decimals and iterates to a relative residual of 1e-5: compared within 0.0051 + 1e-5*||rewards||/(1-discount); rewards are scaled by ten to make this sharp",
           "a successor given as '-' or 'X' is only used for observations that cannot occur"],
          variants=("plain", "asan"))
REW10 = [10 * x for x in F.REW]


def evaluate(m, acts, nxt):
    """exact value table V[n][s] of the controller, in the model's own terms (costs stay costs)"""
    er = -m.er if m.values == "cost" else m.er
    N = len(acts)
    n = N * m.S
    A = np.eye(n)
    b = np.zeros(n)
    for i in range(N):
        a = acts[i]
        b[i * m.S:(i + 1) * m.S] = er[a]
        for o in range(m.O):
            j = nxt[i][o]
            if j is not None:
                A[i * m.S:(i + 1) * m.S, j * m.S:(j + 1) * m.S] -= m.G[a, o]
    v = np.linalg.solve(A, b)
    tol = 0.0051 + 1.1e-5 * np.linalg.norm(b) / (1 - m.gamma)
    return v.reshape(N, m.S), tol


def pgtext(acts, nxt, ids=None, sep=" ", sym="-", end="\n"):
    ids = ids or range(len(acts))
    return "".join(sep.join([str(i), str(acts[i])] + [sym if x is None else str(x) for x in nxt[i]]) + end for i in ids)


def tool(b, d, pg, extra=()):
    open(os.path.join(d, "p.pg"), "w").write(pg)
    return run([b.tools, "-tool", "pg_eval", "-pomdp", "m.POMDP", "-pg1", "p.pg"] + list(extra), d, timeout=30)


def judge(m, acts, nxt, p, res, what):
    V, tol = evaluate(m, acts, nxt)
    if p.timeout or p.rc != 0:
        raise Fail("%s: rc %s %s" % (what, p.rc, (p.err + p.out)[-200:]))
    L = p.out.split("\n")
    try:
        k = L.index("Solution found is:")
        rows = [[float(x) for x in l.split()] for l in L[k + 1:k + 1 + len(acts)]]
        got = np.array(rows)
        w = L[k + 1 + len(acts)].split()
        bv, bn = float(w[4]), int(w[7])
        if w[:4] != "Initial belief state value:".split() or w[5:7] != ["at", "node"]:
            raise ValueError
    except (ValueError, IndexError):
        raise Fail("%s: unexpected output %r" % (what, p.out[-300:]))
    if got.shape != V.shape:
        raise Fail("%s: %s values printed for %d nodes, %d states" % (what, got.shape, *V.shape))
    if not np.abs(got - V).max() <= tol:
        raise Fail("%s: values %s, exact %s" % (what, got.tolist(), np.round(V, 3).tolist()))
    b = m.start if m.start is not None else np.full(m.S, 1.0 / m.S)
    best = V @ b
    if m.values == "cost":          # best: least cost
        best, bv = -best, -bv
    if not abs(bv - best.max()) <= tol:
        raise Fail("%s: initial value %g, exact %g" % (what, bv, best.max()))
    if not (0 <= bn < len(acts)) or best[bn] < best.max() - 2 * tol:
        raise Fail("%s: node %d reported best, its value is %s of %s" % (what, bn, best[bn] if 0 <= bn < len(acts) else None, best.tolist()))
    res.states += V.size
    res.transitions += 1
    res.traces += 1
    res.key(np.round(V, 2).tolist())


# (nodes, S, A, O) with all A^N * N^(N*O) controllers; split by the actions and the first node's successors
SHAPES = {"quick": [(1, 2, 2, 2, 20), (2, 2, 2, 2, 10), (2, 3, 2, 2, 10), (2, 2, 2, 3, 3), (2, 1, 2, 2, 2), (2, 4, 3, 1, 2), (3, 2, 2, 1, 3), (3, 3, 1, 2, 1), (4, 2, 1, 1, 2)],
          "thorough": [(1, 2, 2, 2, 60), (2, 2, 2, 2, 60), (2, 3, 2, 2, 40), (2, 2, 2, 3, 20), (2, 3, 3, 2, 10), (2, 1, 2, 2, 10), (2, 4, 3, 1, 20), (3, 2, 2, 1, 60), (3, 3, 1, 2, 20), (3, 2, 2, 2, 6), (4, 2, 1, 1, 30), (4, 2, 2, 1, 20), (2, 5, 2, 4, 2)]}


def cases(tier):
    for N, Sn, A, O, cnt in SHAPES[tier]:
        for n in range(cnt):
            for acts in itertools.product(range(A), repeat=N):
                for first in itertools.product(range(N), repeat=O):
                    yield {"N": N, "S": Sn, "A": A, "O": O, "n": n, "acts": list(acts), "first": list(first)}


GAM = [0.9, 0.5, 0.95, 0.75, 0.0]


@C.family("all controllers", cases)
def f_all(c, res, builds, d):
    n = c["n"]
    m = F.model_n(n + 1500, c["S"], c["A"], c["O"], GAM[n % len(GAM)], full_r=n % 3 == 1, values="cost" if n % 4 == 3 else "reward", start=n % 5 != 4, rew=REW10)
    SM.write(d, m.text())
    for rest in itertools.product(itertools.product(range(c["N"]), repeat=c["O"]), repeat=c["N"] - 1):
        nxt = [tuple(c["first"])] + list(rest)
        p = tool(builds["plain"], d, pgtext(c["acts"], nxt))
        judge(m, c["acts"], nxt, p, res, "controller %s %s" % (c["acts"], nxt))


def sized_cases(tier):
    for n in range(800 if tier == "quick" else 3000):
        yield {"n": n}


@C.family("larger indexed controllers, orders, separators, impossible observations", sized_cases)
def f_sized(c, res, builds, d):
    n = c["n"]
    w = F.Walk(n + 77)
    Sn, A, O = [(2, 2, 2), (3, 2, 2), (4, 3, 2), (3, 2, 4), (5, 3, 3), (6, 2, 2), (2, 3, 5), (1, 3, 2)][n % 8]
    m = F.model_n(n + 1700, Sn, A, O, [0.95, 0.9, 0.99, 0.5][w(4)], full_r=w(2) == 1, values=["reward", "cost"][w(2)], start=w(3) != 0, rew=REW10)
    SM.write(d, m.text())
    N = 1 + w(12)
    acts = [w(A) for _ in range(N)]
    nxt = [[w(N) for _ in range(O)] for _ in range(N)]
    for i in range(N):
        for o in range(O):
            if not m.possible[acts[i], o]:
                nxt[i][o] = None
    ids = list(range(N))
    for k in range(N - 1, 0, -1):
        j = w(k + 1)
        ids[k], ids[j] = ids[j], ids[k]
    sep, end = [" ", "  ", "\t"][w(3)], ["\n", " \n", "\n\n", "\r\n", " "][w(5)]
    sym = ["-", "X"][w(2)]
    p = tool(builds["plain"], d, pgtext(acts, nxt, ids, sep, sym, end))
    judge(m, acts, nxt, p, res, "controller %s %s" % (acts, nxt))


def disc_cases(tier):
    for g in (0.99, 0.995, 0.998, 0.999, 0.9995, 0.9999):
        for n in range(4 if tier == "quick" else 60):
            yield {"g": g, "n": n}


@C.family("discount factors near one", disc_cases)
def f_disc(c, res, builds, d):
    n = c["n"]
    w = F.Walk(n + 7)
    m = F.model_n(n + 1900, 2 + n % 2, 2, 2, c["g"], rew=REW10)
    SM.write(d, m.text())
    N = 1 + n % 4
    acts = [w(2) for _ in range(N)]
    nxt = [[w(N) for _ in range(2)] for _ in range(N)]
    p = tool(builds["plain"], d, pgtext(acts, nxt))
    if p.rc != 0 and "Solution found" not in p.out:
        res.note("refused")         # giving up with an error is allowed, a wrong value is not
        return
    judge(m, acts, nxt, p, res, "discount %g controller %s %s" % (c["g"], acts, nxt))


def solver_cases(tier):
    for n in range(40 if tier == "quick" else 600):
        for meth in ("incprune", "witness", "enum", "twopass"):
            yield {"n": n, "meth": meth}


@C.family("the solver's own policy graphs", solver_cases)
def f_solver(c, res, builds, d):
    n = c["n"]
    Sn, A, O = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (2, 2, 4)][n % 5]
    m = F.model_n(n + 2000, Sn, A, O, 0.5, values=["reward", "cost"][n % 3 == 0], rew=REW10, full_r=n % 4 == 0)
    S.solve(builds["plain"], d, m.text(), ["-method", c["meth"], "-horizon", 18, "-stop_criteria", "exact"])
    pg = M.read_pg(os.path.join(d, "o.pg"))
    N = len(pg)
    acts = [a for _, a, _ in pg]
    nxt = [s for _, _, s in pg]
    p = run([builds["plain"].tools, "-tool", "pg_eval", "-pomdp", "m.POMDP", "-pg1", "o.pg"], d)
    if any(x is not None and not 0 <= x < N for s in nxt for x in s):
        # not converged: the graph refers to the larger previous epoch and must be refused
        if "Solution found" in p.out:
            raise Fail("a graph with undefined successors was evaluated")
        res.note("not a closed graph")
        return
    judge(m, acts, nxt, p, res, "solver graph")
    # a converged graph is worth what the value function says
    av = S.load(d, "o.alpha")
    V, tol = evaluate(m, acts, nxt)
    if len(av) == N:
        err = np.abs(S.vecs(av) - (-V if m.values == "cost" else V)).max()
        res.note("closed graphs")
        if err < 1e-3:
            res.note("converged graphs equal to the value function")


# ---- large controllers ------------------------------------------------------------------------
LARGE = [(64, 2, 2, 2), (65, 3, 2, 2), (100, 2, 3, 2), (128, 4, 2, 2), (129, 2, 2, 3), (255, 2, 2, 2), (256, 2, 2, 2), (257, 3, 2, 2), (400, 4, 2, 2), (1000, 2, 2, 2), (1500, 1, 2, 2),
         (1, 64, 2, 2), (2, 100, 2, 2), (3, 255, 2, 2), (4, 257, 2, 2), (2, 600, 2, 2), (30, 30, 2, 2), (20, 7, 50, 2), (20, 7, 130, 2), (12, 5, 2, 30), (12, 5, 2, 100), (50, 2, 2, 260), (300, 3, 40, 3)]


def large_cases(tier):
    T = tier != "quick"
    for i in range(len(LARGE)):
        for form in range(4):
            for n in range(4 if T else 1):
                if T or (i + form) % 2 == 0:
                    yield {"i": i, "form": form, "n": n, "v": "asan" if (i + form) % 4 == 0 and (T or LARGE[i][0] * LARGE[i][1] < 900) else "plain"}


@C.family("large controllers", large_cases)
def f_large(c, res, builds, d):
    N, Sn, A, O = LARGE[c["i"]]
    form = c["form"]
    n = 4 * c["i"] + form + 100 * c["n"]
    w = F.Walk(n + 5)
    m = F.model_n(n + 3100, Sn, A, O, [0.9, 0.5, 0.95][n % 3], full_r=Sn * Sn * A * O < 20000 and n % 2 == 1, values=["reward", "cost"][n % 4 == 3], rew=REW10)
    SM.write(d, m.text())
    if form == 0:               # a ring; every node sends every observation to the next one
        nxt = [[(i + 1) % N] * O for i in range(N)]
    elif form == 1:             # a ladder: the last node absorbs
        nxt = [[min(N - 1, i + 1 + o % 3) for o in range(O)] for i in range(N)]
    elif form == 2:             # scattered
        nxt = [[w(N) for _ in range(O)] for _ in range(N)]
    else:                       # everything returns to one node, which fans out
        nxt = [[(N - 1) if i != N - 1 else (o * 37) % N for o in range(O)] for i in range(N)]
    acts = [(i * 5 + form) % A for i in range(N)]
    ids = list(range(N))
    if form % 2:
        ids.reverse()
    p = tool(builds[c["v"]], d, pgtext(acts, nxt, ids))
    judge(m, acts, nxt, p, res, "%d nodes, %d states, %d actions, %d observations, form %d" % (N, Sn, A, O, form))


TOK = ["", "x", "1.5", "0x1", "-5", "7", "99999999999", "--", "-1-", "1x", "+"]


def bad_cases(tier):
    base = ["0", "0", "0", "1", "1", "1", "1", "0"]      # two nodes, two observations
    for i in range(8):
        for t in TOK:
            w = list(base)
            w[i] = t
            yield {"text": " ".join(w[:4]) + "\n" + " ".join(w[4:]) + "\n"}
        yield {"text": " ".join(base[:i])}
        yield {"text": " ".join(base[:i]) + "\n"}
    for ids in ((0, 0), (1, 1), (1, 2), (0, 2), (-1, 0), (5, 6), (0, 1000000), (-2, -1)):
        yield {"text": "%d 0 %d %d\n%d 1 %d %d\n" % (ids[0], ids[0], ids[1], ids[1], ids[0], ids[1])}
    for L in (100, 1094, 1095, 1096, 1097, 3000, 70000):
        yield {"text": "0 0 0 1\n1 1 1 " + "0" * L + "q\n"}
        yield {"text": "0 0 0 1\n" + "0" * L + "1q 1 1 0\n"}


@C.family("malformed graphs are refused", bad_cases)
def f_bad(c, res, builds, d):
    m = F.model_n(1, 2, 2, 2, 0.9)
    SM.write(d, m.text())
    p = tool(builds["plain"], d, c["text"])
    res.states += 1
    # does the text, read strictly, define a closed graph after all?
    w = c["text"].split()
    ok = len(w) % 4 == 0 and len(w) > 0
    nodes = {}
    try:
        for i in range(0, len(w), 4):
            s = [int(x) for x in w[i:i + 4]]
            if s[0] in nodes or not 0 <= s[1] < 2:
                ok = False
            nodes[s[0]] = s[1:]
    except (ValueError, IndexError):
        ok = False
    if ok and set(nodes) == set(range(len(nodes))) and all(0 <= x < len(nodes) for s in nodes.values() for x in s[1:]):
        judge(m, [nodes[i][0] for i in range(len(nodes))], [nodes[i][1:] for i in range(len(nodes))], p, res, "graph %r" % c["text"][:80])
        return
    if p.rc is not None and (p.rc < 0 or p.timeout):
        raise Fail("malformed graph %r: the tool died with signal %s" % (c["text"][:80], -p.rc))
    if "Solution found" in p.out or p.rc == 0:
        raise Fail("malformed graph %r was evaluated: rc %s %s" % (c["text"][:80], p.rc, p.out[-200:]))
