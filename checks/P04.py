import itertools, os
import numpy as np
import model as M, families as F, pomdpfile as PF, solve as S
from vt import Check, Fail
import P01

C = Check("P04", "model_checking",
          "explicit-state enumeration of bounded model families; every line of every policy graph the real solver saves is unfolded one step against the reference model and the previous epoch's vectors, so that by induction over epochs every finite history is covered",
          "a case is (model, method, options, horizon); every line of every saved policy graph is evaluated one step over the previous epoch and compared with its vector; distinct = different policy graphs",
          ["values compared with relative tolerance 1e-6"])


def check_pg(m, prev, av, pgname, d, res, what, names=True):
    V = S.vecs(av)
    eps = S.TOL * S.scale(m, V, prev)
    try:
        with open(os.path.join(d, pgname)) as f:
            raw = f.read()
        pg = M.read_pg(os.path.join(d, pgname))
    except (OSError, ValueError, IndexError) as e:
        raise Fail("%s: policy graph %s missing or malformed: %s" % (what, pgname, e))
    if len(pg) != len(V):
        raise Fail("%s: %d policy graph nodes for %d vectors" % (what, len(pg), len(V)))
    for i, (nid, a, succ) in enumerate(pg):
        if nid != i:
            raise Fail("%s: line %d of the policy graph has number %d" % (what, i, nid))
        if a != av[i][0]:
            raise Fail("%s: node %d has action %d but its vector has action %d" % (what, i, a, av[i][0]))
        if len(succ) != m.O:
            raise Fail("%s: node %d lists %d observations instead of %d" % (what, i, len(succ), m.O))
        for o, s in enumerate(succ):
            if s is None and m.possible[a, o]:
                raise Fail("%s: node %d has no successor for observation %d, which can occur" % (what, i, o))
            if s is not None and not 0 <= s < len(prev):
                raise Fail("%s: node %d continues with %d, but the previous epoch has %d vectors" % (what, i, s, len(prev)))
        w = m.plan_vector(a, succ, prev)
        j = int(np.abs(w - V[i]).argmax())
        if abs(w[j] - V[i][j]) > eps:
            raise Fail("%s: following node %d (action %d, then %s) is worth %.9g in state %d, its vector says %.9g" % (
                what, i, a, succ, w[j], j, V[i][j]))
        res.transitions += 1
    res.states += len(pg)
    res.key(raw)


def one(m, args, H, res, builds, d, text=None):
    S.solve(builds["plain"], d, text or m.text(), ["-horizon", H, "-save_all", "true", "-discount", "%.12g" % m.gamma] + list(args))
    prev = np.zeros((1, m.S))
    e = 0
    what = " ".join(map(str, args))
    while os.path.exists(os.path.join(d, "o.alpha%d" % (e + 1))):
        e += 1
        av = S.load(d, "o.alpha%d" % e)
        check_pg(m, prev, av, "o.pg%d" % e, d, res, "%s epoch %d" % (what, e))
        last, prev = prev, S.vecs(av)
    if e == 0:
        raise Fail("no epoch was saved")
    check_pg(m, last, S.load(d, "o.alpha"), "o.pg", d, res, "%s final" % what)
    res.traces += 1
    if len(prev) > 3:
        with open(os.path.join(d, "o.pg")) as f:
            res.sample = {"epochs": e, "graph": f.read()[:300]}


OPT = [(), ("-proj_purge", "none"), ("-proj_purge", "domonly"), ("-q_purge", "epsilon_prune"), ("-dom_check", "false"), ("-witness_points", "true"),
       ("-alg_rand", "3"), ("-prune_rand", "3"), ("-stop_criteria", "exact")]


def tiny(tier):
    tr = [(0, 1), (.25, .75)]
    zr = [(1, 0), (0, 1), (.3, .7)] if tier == "quick" else [(1, 0), (0, 1), (.5, .5), (.3, .7)]
    for i, (T, Z, R) in enumerate(F.tiny_cases(tr, zr, [0, 1])):
        if len(set(R)) > 1:
            yield {"T": T, "Z": Z, "R": R, "m": list(S.METHODS)[i % 6], "H": 4, "x": i % len(OPT)}


@C.family("tiny-2x2x2", tiny)
def f_tiny(c, res, builds, d):
    one(F.tiny_model(c["T"], c["Z"], c["R"]), S.METHODS[c["m"]] + list(OPT[c["x"]]), c["H"], res, builds, d)


def shapes(tier):
    k = 6 if tier == "quick" else 40
    for Sn, A, O in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3, 4, 5)):
        for n in range(k):
            for j, meth in enumerate(S.METHODS):
                slow = meth in ("enum", "twopass")
                H = {1: 5, 2: 4, 3: 2 if slow else 3, 4: 2, 5: 2}[O]
                yield {"n": 200 + n, "S": Sn, "A": A, "O": O, "H": H, "m": meth, "fr": n % 2,
                       "x": 0 if slow else (n + j + Sn + A + O) % len(OPT)}


@C.family("shapes", shapes)
def f_shapes(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], 0.95, bool(c["fr"]))
    one(m, S.METHODS[c["m"]] + list(OPT[c["x"]]), c["H"], res, builds, d)


def impossible(tier):
    """observation matrices with columns that cannot occur under some actions"""
    rows = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (.4, .6, 0), (0, .4, .6)]
    prods = list(itertools.product(rows, repeat=4))
    for i, z in enumerate(prods):
        for meth in S.METHODS:
            if tier == "quick" and (i + len(meth)) % 2:
                continue
            yield {"Z": z, "m": meth, "n": i % 7}


@C.family("impossible-observations", impossible)
def f_imp(c, res, builds, d):
    b = F.model_n(c["n"], 2, 2, 3, 0.95)
    m = M.Model(b.T, np.array(c["Z"], float).reshape(2, 2, 3), b.er, 0.95, b.start)
    one(m, S.METHODS[c["m"]], 3, res, builds, d)


@C.family("examples", P01.examples)
def f_examples(c, res, builds, d):
    with open(P01.EXDIR + c["f"] + ".POMDP", encoding="latin-1") as f:
        text = f.read()
    one(PF.interpret(text), S.METHODS[c["m"]], c["H"], res, builds, d, text=text)


def converge(tier):
    """runs to convergence: the final graph is a stationary controller"""
    for n in range(40 if tier == "quick" else 400):
        for Sn, A, O in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)):
            yield {"n": 300 + n, "S": Sn, "A": A, "O": O, "m": list(S.METHODS)[n % 6]}


@C.family("converged", converge)
def f_conv(c, res, builds, d):
    m = F.model_n(c["n"], c["S"], c["A"], c["O"], 0.5)
    one(m, S.METHODS[c["m"]] + ["-stop_criteria", "weak"], 14, res, builds, d)
