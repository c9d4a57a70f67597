import glob, itertools, os
import numpy as np
import build as B, texts, pomdpfile as PF, semantics as SM, model as M
from vt import Check, Fail, run

C = Check("P10", "model_checking",
          "explicit-state enumeration of all sequences of model-file statements up to a depth over an alphabet of all statement forms; after each sequence the parser's final state, observed through the real programs, is compared with a reference interpreter of the language",
          "a case is one model text the reference interpreter accepts; the real solver writes the value of every one-step plan over scaled unit vectors, which determines expected rewards, discount and every T*O product; the belief tool prints the initial belief; "
          "distinct = different models denoted by the texts",
          ["2-5 states; probabilities below 1e-5 are not used", "values compared with relative tolerance 1e-6, beliefs to the 6 printed digits",
           "repeating a preamble line and wildcards in start lists are outside the documented format (the latter: known finding)"])


def check(text, res, builds, d, what):
    try:
        m = PF.interpret(text)
    except PF.Invalid:
        res.note("texts the reference refuses (decided by P11)")
        return
    SM.accepted(builds["plain"], d, text, m, what, res=res)
    res.traces += 1
    res.key(np.round(m.G, 8).tolist(), np.round(m.er, 8).tolist(), m.start.tolist())
    if len(text) < 400:
        res.sample = text


def fam(name, gen, mk=None):
    def f(c, res, builds, d):
        text = texts.seq_text(*c) if isinstance(c, (tuple, list)) else c
        check(text, res, builds, d, name)
    f.__name__ = "f_" + "".join(x if x.isalnum() else "_" for x in name)

    def cases(tier):
        for c in gen(tier):
            yield c if isinstance(c, str) else [c[0], list(c[1])]
    C.family(name, cases)(f)


def valid_only(gen):
    def g(tier):
        for c in gen(tier):
            try:
                PF.interpret(texts.seq_text(*c) if isinstance(c, (tuple, list)) else c)
            except PF.Invalid:
                continue
            yield c
    return g


fam("transition statement sequences", valid_only(texts.t_sequences))
fam("observation statement sequences", valid_only(texts.o_sequences))
fam("interleaved sections", valid_only(texts.mixed_sequences))
fam("preambles", texts.preambles)
fam("start forms", texts.starts)
fam("layouts", texts.layouts)
fam("number forms", texts.numbers)
fam("names", texts.names)
fam("larger models in all styles", texts.styled)


def ex_cases(tier):
    for f in sorted(glob.glob(os.path.join(B.REPO, "examples", "**", "*.POMDP"), recursive=True)):
        if os.path.getsize(f) < (60000 if tier == "quick" else 4000000):
            yield os.path.relpath(f, B.REPO)


@C.family("shipped models", ex_cases)
def f_ex(c, res, builds, d):
    """too many plans to write: one terminal vector instead, and a walk of belief updates"""
    text = open(os.path.join(B.REPO, c), encoding="latin-1").read()
    try:
        m = PF.interpret(text)
    except PF.Invalid as e:
        res.note("shipped models the reference refuses")
        SM.rejected(builds["plain"], d, text, str(e))
        return
    SM.write(d, text)
    b = builds["plain"]
    rng = np.arange(1, m.S + 1)
    for k in range(2):
        v = ((rng * (7 + 4 * k)) % 13) - 5.0
        with open(os.path.join(d, "t.alpha"), "w") as f:
            f.write(M.fmt_alpha([(0, v)]))
        p = run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-terminal_values", "t.alpha"] + SM.ALL, d, timeout=30)
        if p.timeout or p.rc:
            raise Fail("%s refused (rc %s): %s" % (c, p.rc, p.text[-200:]))
        want = [(m.er[a] + sum(m.G[a, o] @ v for o in range(m.O)))[None, :] for a in range(m.A)]
        SM.match(M.read_alpha(os.path.join(d, "o.alpha")), want, 1e-6 * max(1.0, max(np.abs(w).max() for w in want)), c)
        res.states += m.A * m.S
    b0 = m.start
    lines, exp = [], [b0]
    for k in range(60):
        a = (k * 5 + 1) % m.A
        pr = [(m.belief_update(b0, a, o)[1], o) for o in range(m.O)]
        pr = sorted((x for x in pr if x[0] > 1e-3), reverse=True)
        o = pr[k % len(pr)][1]
        lines.append("%d %d" % (a, o))
        b0 = m.belief_update(b0, a, o)[0]
        exp.append(b0)
    p = run([b.tools, "-tool", "update_beliefs", "-pomdp", "m.POMDP"], d, ("\n".join(lines) + "\nexit\n").encode(), timeout=30)
    got = [[float(x) for x in l.strip("[] \n").split(",")] for l in p.out.split("\n") if l.startswith("[ ")]
    if len(got) != len(exp):
        raise Fail("%s: %d beliefs printed after %d updates" % (c, len(got), len(lines)))
    for i, (g, w) in enumerate(zip(got, exp)):
        if len(g) != m.S or np.abs(np.array(g) - w).max() > 5e-6:
            raise Fail("%s: after %s the belief is %s instead of %s" % (c, lines[:i], g[:12], w[:12]))
    res.transitions += len(exp)
    res.traces += 1
    res.key(c)


def known(tier):
    return ["include", "exclude"]


@C.family("wildcards in start lists", known)
def f_known(c, res, builds, d):
    text = "discount: 0.5\nvalues: reward\nstates: 3\nactions: 2\nobservations: 2\nstart %s: *\n%s" % (c, texts.PLAIN.replace("T: *\n0.37 0.63\n0.29 0.71\nT: 0 : 1\n1 0", "T: * uniform").replace("0.45 0.55", "0.45 0.55\n0.1 0.9"))
    try:
        if c == "include":
            SM.accepted(builds["plain"], d, text, PF.interpret(text.replace("start include: *", "start: uniform")), "start include: *")
        else:
            SM.rejected(builds["plain"], d, text, "start exclude: *")
    except Fail as e:
        raise Fail(str(e), "start-wildcard-" + c)
