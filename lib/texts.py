"""Families of model texts (shared by P10, P11 and P12)."""
import itertools
import families as F
import model as M

PRE = """discount: 0.5
values: reward
states: s0 s1
actions: a0 a1
observations: o0 o1
"""
START = "start: 0.25 0.75\n"
TB = "T: *\n0.37 0.63\n0.29 0.71\n"
OB = "O: *\n0.8 0.2\n0.45 0.55\n"
RB = "R: * : s0 : * : * 3\nR: a1 : * : s1 : * -2\nR: * : * : * : o1 0.5\n"


def t_alphabet(small=False):
    out = []
    for a in ("*", "0", "a1"):
        out += ["T: %s identity" % a, "T: %s uniform" % a, "T: %s\n0.2 0.8\n0.6 0.4" % a]
        if small:
            continue
    for a in ("*", "a0", "1"):
        for s in ("*", "s0", "1"):
            out += ["T: %s : %s uniform" % (a, s), "T: %s : %s reset" % (a, s), "T: %s : %s\n0.3 0.7" % (a, s)]
    for a in ("*", "1"):
        for s in ("*", "s1"):
            for t, p in (("*", ".5"), ("s0", "1"), ("s0", ".25"), ("1", "0"), ("1", ".75"), ("1", "1.0")):
                out.append("T: %s : %s : %s %s" % (a, s, t, p.replace(".", "0.") if p[0] == "." else p))
    return out


def o_alphabet():
    out = []
    for a in ("*", "0", "a1"):
        out += ["O: %s uniform" % a, "O: %s\n0.2 0.8\n0.6 0.4" % a]
    for a in ("*", "a0", "1"):
        for s in ("*", "s0", "1"):
            out += ["O: %s : %s uniform" % (a, s), "O: %s : %s\n0.3 0.7" % (a, s)]
    for a in ("*", "1"):
        for s in ("*", "s1"):
            for t, p in (("*", "0.5"), ("o0", "1"), ("o0", "0.25"), ("1", "0"), ("1", "0.75"), ("1", "1.0")):
                out.append("O: %s : %s : %s %s" % (a, s, t, p))
    return out


def t_sequences(tier):
    al = t_alphabet()
    for k in (1, 2):
        for seq in itertools.product(al, repeat=k):
            yield "T", ("T: * uniform",) + seq
    for seq in itertools.product(al, repeat=2):       # nothing before: rows must still become complete
        yield "T", seq
    if tier != "quick":
        for seq in itertools.product(al[::2], repeat=3):
            yield "T", ("T: * identity",) + seq


def o_sequences(tier):
    al = o_alphabet()
    for k in (1, 2):
        for seq in itertools.product(al, repeat=k):
            yield "O", ("O: * uniform",) + seq
    if tier != "quick":
        for seq in itertools.product(al[::2], repeat=3):
            yield "O", ("O: *\n1 0\n0.5 0.5",) + seq


def mixed_sequences(tier):
    """T, O and R statements interleaved in every order"""
    pool = [TB.strip(), OB.strip(), "R: * : s0 : * : * 3", "R: a1 : * : s1 : * -2", "T: a0 : s1 identity", "T: 1 : s1 reset", "O: a1 : 0\n0 1"]
    for k in (3, 4, 5):
        for sub in itertools.permutations(pool, k):
            yield "*", sub


def seq_text(kind, seq):
    body = "\n".join(seq) + "\n"
    if kind == "T":
        return PRE + START + body + OB + RB
    if kind == "O":
        return PRE + START + TB + body + RB
    return PRE + START + body


PREAMBLE = {"discount": ["0.5", "+0.5", "5e-1", "0.50", "0", "1", "1.0", "0.5E0", "50.e-2"],
            "values": ["reward", "cost"],
            "states": ["2", "s0 s1", "a b"],
            "actions": ["2", "a0 a1", "s0 s1"],
            "observations": ["2", "o0 o1", "s1 s0"]}
PLAIN = "T: *\n0.37 0.63\n0.29 0.71\nT: 0 : 1\n1 0\nO: *\n0.8 0.2\n0.45 0.55\nO: 1 : 0 uniform\nR: * : 0 : * : * 3\nR: 1 : * : 1 : * -2\nR: * : * : * : 1 0.5\n"


def preambles(tier):
    keys = list(PREAMBLE)
    for perm in itertools.permutations(keys):
        yield "\n".join("%s: %s" % (k, PREAMBLE[k][-1 if k in ("states", "actions", "observations") else 0]) for k in perm) + "\n" + PLAIN
    for combo in itertools.product(*PREAMBLE.values()):
        yield "\n".join("%s: %s" % (k, v) for k, v in zip(keys, combo)) + "\n" + PLAIN


STARTS3 = ["", "start: uniform", "start: 0.2 0.3 0.5", "start: 0 0 1", "start: 1 0.0 0", "start: a", "start: c", "start: b"]


def starts(tier):
    pre = "discount: 0.9\nvalues: reward\nstates: a b c\nactions: 2\nobservations: 2\n"
    rest = "T: 0 identity\nT: 1 : * reset\nO: * uniform\nO: 1 : b\n0.9 0.1\nR: * : 2 : * : * 1\n"
    out = list(STARTS3)
    st = ["a", "b", "c", "0", "1", "2"]
    for w in ("include", "exclude"):
        for k in (1, 2, 3):
            for l in itertools.product(st, repeat=k):
                out.append("start %s: %s" % (w, " ".join(l)))
    g = ["0", "1", "0.5", "0.25", "0.333333", "0.1"]
    for t in itertools.product(g, repeat=3):
        out.append("start: " + " ".join(t))
    out += ["start: 0", "start: 2", "start: 0.5 0.5", "start: 0.25 0.25 0.25 0.25", "start: d", "start include: d", "start include: 3", "start exclude: 7",
            "start: reset", "start: identity", "start include:", "start:", "start: *", "start: -0.5 0.5 1", "start: a b",
            "start: 0.4 0.3 0.3\nstart: uniform", "start: 1.5 0 0", "start: 0.33334 0.33334 0.33334"]
    for s in out:
        yield pre + s + "\n" + rest
        if tier != "quick":
            yield pre + s + " # comment\n\n" + rest.replace("2\n", "c\n", 0)


TOKTEXT = ("discount : 0.5 values : reward states : s0 s1 actions : 2 observations : o0 o1 start : 0.25 0.75 T : * 0.37 0.63 0.29 0.71 T : 0 : s1 reset "
           "O : * : s0 0.8 0.2 O : * : 1 : o0 1 R : * : s0 : * : * 3 R : 1 : * : s1 -2 4 R : 1 : s1 1 2 3 4 # end")


def layouts(tier):
    toks = TOKTEXT.split("#")[0].split()
    seps = [" ", "\n", "\t", "\r\n", "\n\n", " # comment T: 0 *\n", " \t \n#\n"]
    for s in seps:
        yield s.join(toks) + s
        yield s.join(toks)
    for i in range(1, len(toks)):            # each single gap on its own
        for s in seps[1:]:
            yield " ".join(toks[:i]) + s + " ".join(toks[i:]) + "\n"
    # colons need no blanks
    yield " ".join(toks).replace(" :", ":").replace(": ", ":") + "\n"
    yield " ".join(toks).replace(" :", ":") + "\n"


NUMS = ["1", "1.0", "1.", "1e0", "1E0", "1.0e+0", "10e-1", "0.1e1", "100.E-2", "01", "1.00000000000"]
SNUMS = ["+1", "-1", "+1.5", "-1.5e0", "- 2", "+ 2.25", "1e2", "-1E+2", "12345.6789", "-0.001", "0", "-0", "1e-3", "1000", "3.", "-3."]


def numbers(tier):
    base = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nT: *\n0.37 0.63\n0.29 0.71\nT: 0 : 1 : 0 %s\nT: 0 : 1 : 1 0\nO: *\n0.8 0.2\n0.45 0.55\nO: 1 : 1\n%s 0\nR: 0 : 0 : * : * %s\nR: 1 : 1 : 0\n%s 7\n"
    for x, y in itertools.product(NUMS, NUMS[:3]):
        yield base % (x, y, "1", "2")
    for x, y in itertools.product(SNUMS, SNUMS):
        yield base % ("1", "1", x, y)


LONG = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"


def names(tier):
    sets = [("s0", "s1", "s2"), ("s", "ss", "sss"), ("A", "a", "Aa"), ("x-1", "x-2", "x_1"), ("Tt", "Oo", "Rr"), ("t", "o", "r"),
            ("Start", "Uniform", "resets"), ("e1", "e2", "E1"), (LONG + "1", LONG + "2", LONG + "3"), (LONG * 7 + "1", LONG * 7 + "2", LONG * 7), ("b", "a", "c"), ("x1", "x10", "x100"),
            ("reward-x", "cost-x", "start-x"), ("a0", "a00", "a000")]
    # names that differ in one place only, early or late, with the same end
    at = lambda p, n: tuple("n" * p + c + "n" * (n - p) for c in "kKq")
    ones = [at(p, n) for n in (6, 12, 20, 40, 70, 130, 300, 1100) + ((5000,) if tier == "thorough" else ())
            for p in (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4096) if p < n]
    short = (("s0", "s1", "s2"), ("a0", "a1", "a2"), ("o0", "o1", "o2"))
    one = [tuple(x if i == k else short[i] for i in range(3)) for x in ones for k in range(3)]
    for S, A, O in itertools.chain(itertools.product(sets, repeat=3), one):
        yield ("discount: 0.5\nvalues: reward\nstates: %s\nactions: %s\nobservations: %s\n" % (" ".join(S), " ".join(A), " ".join(O[:2]))
               + "T: * uniform\nT: %s : %s\n0.1 0.2 0.7\nT: %s : %s : %s 1\nT: %s : %s : %s 0\nT: %s : %s : %s 0\n" % (A[1], S[2], A[2], S[0], S[0], A[2], S[0], S[1], A[2], S[0], S[2])
               + "O: *\n0.8 0.2\n0.45 0.55\n0.1 0.9\nO: %s : %s\n0.7 0.3\n" % (A[0], S[1])
               + "R: %s : %s : * : * 3\nR: %s : * : %s : %s -2\n" % (A[1], S[0], A[2], S[1], O[1]))


def styled(tier):
    """indexed larger models, every block written in a style chosen by the index"""
    for n in range(250 if tier == "quick" else 4000):
        Sn, A, O = ((2, 2, 3), (3, 2, 2), (3, 3, 2), (2, 3, 3), (4, 2, 2), (1, 2, 2), (2, 1, 1), (5, 2, 1), (3, 1, 3))[n % 9]
        w = F.Walk(n * 131 + 7)
        m = F.model_n(n + 900, Sn, A, O, (0.9, 0.5, 1.0)[n % 3], full_r=w(2) == 1, values="cost" if w(3) == 0 else "reward")
        nm = lambda k, i: ("%s%d" % (k, i) if w(2) else str(i))
        L = ["discount: %g" % m.gamma, "values: " + m.values, "states: " + " ".join("s%d" % i for i in range(Sn)),
             "actions: " + " ".join("a%d" % i for i in range(A)), "observations: " + " ".join("o%d" % i for i in range(O)),
             "start: " + " ".join("%.12g" % x for x in m.start)]
        blocks = []
        for k, X in (("T", m.T), ("O", m.Z)):
            W = X.shape[2]
            cn = "s" if k == "T" else "o"
            for a in range(A):
                st = w(3)
                b = []
                junk = w(3)
                if junk == 0:
                    b.append("%s: %s uniform" % (k, nm("a", a)))
                elif junk == 1 and k == "T":
                    b.append("T: %s identity" % nm("a", a))
                if st == 0:
                    b.append("%s: %s\n" % (k, nm("a", a)) + "\n".join(" ".join("%.12g" % x for x in r) for r in X[a]))
                elif st == 1:
                    order = list(range(Sn))
                    r = w(Sn)
                    for s in order[r:] + order[:r]:
                        b.append("%s: %s : %s\n" % (k, nm("a", a), nm("s", s)) + " ".join("%.12g" % x for x in X[a, s]))
                else:
                    for s in range(Sn):
                        for j in reversed(range(W)):
                            if X[a, s, j] or junk < 2:
                                b.append("%s: %s : %s : %s %.12g" % (k, nm("a", a), nm("s", s), nm(cn, j), X[a, s, j]))
                blocks.append("\n".join(b))
        b = []
        for a in range(A):
            for s in range(Sn):
                r = m.R[a, s]
                st = w(3)
                if st == 0:
                    b.append("R: %s : %s\n" % (nm("a", a), nm("s", s)) + "\n".join(" ".join("%.12g" % x for x in q) for q in r))
                else:
                    for t in range(Sn):
                        if st == 1:
                            b.append("R: %s : %s : %s\n" % (nm("a", a), nm("s", s), nm("s", t)) + " ".join("%.12g" % x for x in r[t]))
                        else:
                            for o in range(O):
                                b.append("R: %s : %s : %s : %s %.12g" % (nm("a", a), nm("s", s), nm("s", t), nm("o", o), r[t, o]))
        blocks.append("\n".join(b))
        r = w(len(blocks))
        L += blocks[r:] + blocks[:r]
        yield "\n".join(L) + "\n"


# ------------------------------------------------------------- reward statements
PV = [("*", "0", "1")] * 4


def r_alphabet(kinds=("1", "r", "m")):
    out = []
    k = 0
    vals = [3, -1, 0, 7, 2.5]
    nm = [("*", "a0", "1"), ("*", "0", "s1"), ("*", "s0", "1"), ("*", "0", "o1")]
    for a in nm[0]:
        for s in nm[1]:
            if "m" in kinds:
                out.append("R: %s : %s\n%d %d\n%d %d" % (a, s, 1 + k % 2, 0, -2, 5))
            for t in nm[2]:
                if "r" in kinds:
                    out.append("R: %s : %s : %s\n%d %d" % (a, s, t, (0, 6)[k % 2], -3))
                for o in nm[3]:
                    k += 1
                    if "1" in kinds:
                        out.append("R: %s : %s : %s : %s %g" % (a, s, t, o, vals[k % 5]))
    return out
