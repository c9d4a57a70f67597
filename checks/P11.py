import itertools
import numpy as np
import texts, pomdpfile as PF, semantics as SM
from vt import Check, Fail, run

C = Check("P11", "model_checking",
          "exhaustive enumeration of all single token faults (deletion, duplication, swap, replacement by every token of an alphabet) of valid model texts, all double deletions, all invalid statement sequences up to a depth and probability sums at a grid of distances from one; a reference validity checker decides which texts are invalid",
          "a case is one text; if the reference refuses it, the real solver must exit with a failing status, write a message and no solution file (no signal, no hang); if the reference accepts it, it must be understood as the reference says; distinct = different (fault kind, position) pairs",
          ["sums within 0.5e-5 of one must be accepted, beyond 2e-5 refused, between them not judged", "repeated preamble lines and integers beyond 9 digits are not judged"])


def decide(text, res, builds, d, what):
    try:
        m = PF.interpret(text)
    except PF.Invalid as e:
        if "repeated" in str(e):
            return
        SM.rejected(builds["plain"], d, text, "%s: %s" % (what, e))
        res.note("refused")
        res.traces += 1
        res.states += 1
        return
    SM.accepted(builds["plain"], d, text, m, what, res=res)
    res.note("accepted")
    res.traces += 1


BASES = [texts.TOKTEXT.split("#")[0],
         "discount : 0.95 values : cost states : 3 actions : go stay observations : 2 start include : 0 2 T : go uniform T : stay identity "
         "O : * 0.5 0.5 1 0 0.25 0.75 R : go : * : 1 : * -4.5",
         "values : reward discount : 1 actions : 1 observations : x states : s start : uniform T : * : * : * 1.0 O : 0 : s : x 1 R : * : * 3"]
REPL = [":", "*", "foo", "s0", "a0", "o1", "0", "1", "2", "7", "0.5", "1.5", "-", "+", "uniform", "identity", "reset", "T", "O", "R", "start", "include", "exclude",
        "discount", "values", "states", "actions", "observations", "reward", "cost", "@", "\"", "/", ".5", "1e", "_x", "0..5", ";", "1-", "-1"]


def mut_cases(tier):
    for bi, b in enumerate(BASES):
        n = len(b.split())
        for i in range(n):
            yield [bi, "del", i, 0]
            yield [bi, "dup", i, 0]
            yield [bi, "swap", i, 0]
            yield [bi, "cut", i, 0]
            for r in range(len(REPL)):
                yield [bi, "rep", i, r]
                if tier != "quick" or r % 4 == i % 4:
                    yield [bi, "ins", i, r]
        for i, j in itertools.combinations(range(n), 2):
            if tier != "quick" or (i + j) % 5 == 0:
                yield [bi, "del2", i, j]


@C.family("token faults", mut_cases)
def f_mut(c, res, builds, d):
    bi, k, i, r = c
    t = BASES[bi].split()
    if k == "del":
        del t[i]
    elif k == "dup":
        t.insert(i, t[i])
    elif k == "swap":
        if i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
    elif k == "cut":
        t = t[:i]
    elif k == "rep":
        t[i] = REPL[r]
    elif k == "ins":
        t.insert(i, REPL[r])
    else:
        del t[r], t[i]
    decide(" ".join(t) + "\n", res, builds, d, "%s of token %d (%s)" % (k, i, REPL[r] if k in ("rep", "ins") else r))
    res.key(c)


def inv(gen, every):
    def g(tier):
        n = 0
        for c in gen(tier):
            text = texts.seq_text(*c) if isinstance(c, (tuple, list)) else c
            try:
                PF.interpret(text)
            except PF.Invalid:
                n += 1
                if tier != "quick" or n % every == 0:
                    yield text
    return g


@C.family("invalid statement sequences", inv(lambda t: itertools.chain(texts.t_sequences("quick"), texts.o_sequences("quick"), texts.mixed_sequences("quick")), 3))
def f_seq(c, res, builds, d):
    decide(c, res, builds, d, "invalid sequence")
    res.key(c)


@C.family("invalid start and number forms", inv(lambda t: itertools.chain(texts.starts("quick"), texts.numbers("quick"), texts.preambles("quick"), texts.names("quick")), 1))
def f_start(c, res, builds, d):
    decide(c, res, builds, d, "invalid form")
    res.key(c)


DEL = [0, 1e-7, 1e-6, 4e-6, 2.5e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0]


def sum_cases(tier):
    for S in (1, 2, 3):
        for where in ("T", "O", "start"):
            for a in ((0, 1) if where != "start" else (0,)):
                for s in range(S if where != "start" else 1):
                    for form in ("row", "matrix", "single") if where != "start" else ("row",):
                        for col in range(2 if where == "O" else S):
                            for dl in DEL:
                                for sg in (1, -1):
                                    yield [S, where, a, s, form, col, sg * dl]


@C.family("probability sums", sum_cases)
def f_sum(c, res, builds, d):
    S, where, a, s, form, col, dl = c
    base = {1: [1.0], 2: [.5, .5], 3: [.25, .5, .25]}
    W = 2 if where == "O" else S
    row = list(base[W])
    row[col] += dl
    if row[col] < 0 or row[col] > 1:
        res.note("entry out of range")
    pre = "discount: 0.5\nvalues: reward\nstates: %d\nactions: 2\nobservations: 2\n" % S
    f = lambda r: " ".join("%.9f" % x for x in r)
    body = ""
    st = "start: " + f(row) + "\n" if where == "start" else ""
    for k, w in (("T", S), ("O", 2)):
        for x in range(2):
            bad = where == k and x == a
            if not bad:
                body += "%s: %d uniform\n" % (k, x)
            elif form == "matrix":
                body += "%s: %d\n" % (k, x) + "\n".join(f(row if y == s else base[w]) for y in range(S)) + "\n"
            elif form == "row":
                body += "%s: %d uniform\n%s: %d : %d\n%s\n" % (k, x, k, x, s, f(row))
            else:
                body += "%s: %d uniform\n" % (k, x) + "".join("%s: %d : %d : %d %.9f\n" % (k, x, s, j, v) for j, v in enumerate(row))
    text = pre + st + body + "R: * : * : * : * 1\n"
    b = builds["plain"]
    if not all(0 <= x <= 1 for x in row) or abs(dl) >= 2e-5:
        if any(x < 0 for x in row):
            what = "negative probability"
        else:
            what = "%s row sums to %.9f" % (where, 1 + dl)
        SM.rejected(b, d, text, what)
    else:
        SM.write(d, text)
        p = run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-horizon", "1"], d)
        if p.rc:
            raise Fail("valid model refused: %s row sums to %.9f: %s" % (where, 1 + dl, p.text[-200:]))
    res.states += 1
    res.traces += 1
    res.key(c)


def miss_cases(tier):
    # rows never given a value at all, for every action and state, and every preamble line missing
    for S in (1, 2, 3):
        for k in ("T", "O"):
            for a in range(2):
                for s in range(S):
                    yield [S, k, a, s]
    for i in range(5):
        yield [2, "pre", i, 0]
    for i, j in itertools.combinations(range(5), 2):
        yield [2, "pre", i, j + 1]
    yield [2, "empty", 0, 0]
    yield [2, "nofile", 0, 0]
    yield [2, "dir", 0, 0]
    yield [2, "binary", 0, 0]


@C.family("missing rows, preamble lines and files", miss_cases)
def f_miss(c, res, builds, d):
    S, k, a, s = c
    pre = ["discount: 0.5\n", "values: reward\n", "states: %d\n" % S, "actions: 2\n", "observations: 2\n"]
    body = ""
    for kk, w in (("T", S), ("O", 2)):
        for x in range(2):
            for y in range(S):
                if (kk, x, y) != (k, a, s):
                    body += "%s: %d : %d uniform\n" % (kk, x, y)
    body += "R: * : * : * : * 1\n"
    if k == "pre":
        pre = [l for i, l in enumerate(pre) if i != a and i != s - 1]
    if k in ("nofile", "dir"):
        b = builds["plain"]
        for args in (["-pomdp", "nothere.POMDP"], ["-pomdp", "."], []) if k == "nofile" else (["-pomdp", "/dev/null"],):
            p = run([b.solve, "-o", "o", "-horizon", "1"] + args, d)
            if p.rc == 0 or p.timeout or p.rc < 0:
                raise Fail("%s: rc %s" % (args, p.rc))
    else:
        text = {"empty": "", "binary": "".join(map(chr, range(1, 256))) * 3}.get(k, "".join(pre) + body)
        if k != "binary":
            try:
                PF.interpret(text)
                raise Fail("INTERNAL: reference accepts")
            except PF.Invalid:
                pass
        SM.rejected(builds["plain"], d, text, str(c))
    res.states += 1
    res.traces += 1
    res.key(c)
