import itertools, os, re
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail, run

C = Check("P22", "model_checking",
          "explicit-state enumeration: every list over an alphabet of magnitudes is written and read back by the real code; every truncation point and every single-token corruption of files is read by the real reader and compared with a reference reader of the format",
          "a state is one file content (or list) read by the real code, a transition one read or write; distinct = different contents",
          ["a file cut inside its last number or after a whole vector is well formed and cannot be told from a complete one",
           "25 decimals are written: values come back exactly, or within 1e-25 when smaller than 1e-8"])
C.harnesses["vfio"] = (["harness/vfio.c"], ())
INT = re.compile(r"[+-]?\d+$")
NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
BIG = 1.7976931348623157e308


class Out:
    def __init__(self, text):
        self.t, self.p = text, 0

    def line(self):
        e = self.t.find("\n", self.p)
        if e < 0:
            raise Fail("the reader stopped: %r" % self.t[-200:])
        s = self.t[self.p:e]
        self.p = e + 1
        return s

    def list(self):
        h = self.line()
        if h == "NULL":
            return None
        _, n, sz, ok = h.split()
        if n != sz or ok != "1":
            raise Fail("list of %s elements with stored length %s (ends in order: %s)" % (n, sz, ok))
        out = []
        for i in range(int(n)):
            x = self.line().split()
            out.append((int(x[0]), int(x[1]), [float.fromhex(y) for y in x[2:]]))
        return out

    def file(self):
        h = self.line()
        if not h.startswith("F "):
            raise Fail("the file was not written")
        n = int(h[2:])
        s = self.t[self.p:self.p + n]
        self.p += n
        self.line()
        return s


def harness(builds, d, blocks, variant="plain"):
    p = run([getattr(builds[variant], "h_vfio")], d, "".join(blocks).encode("latin-1"), timeout=40)
    if p.rc != 0 or not p.out.endswith("END\n"):
        raise Fail("the reader/writer died (rc=%s) %s" % (p.rc, p.err[-300:]))
    return Out(p.out)


def ref_read(text, kind, Sn, mx):
    """-> list of (action, values), or None when the text is malformed"""
    tok = text.split()
    k = Sn + 1 if kind == "a" else Sn
    out = []
    i = 0
    while i < len(tok) and (mx <= 0 or len(out) < mx):
        g = tok[i:i + k]
        i += k
        if len(g) < k:
            return None
        if kind == "a":
            if not INT.match(g[0]):
                return None
            a, g = int(g[0]), g[1:]
            if not -2 ** 31 <= a < 2 ** 31:
                return None
        else:
            a = 0
        if not all(NUM.match(x) for x in g):
            return None
        out.append((a, [float(x) for x in g]))
    return out


def block_r(text, kind, Sn, mx):
    return "R %s %d %d %d\n%s" % (kind, Sn, mx, len(text), text)


def judge(got, want, what, kind):
    if want is None or (kind == "b" and not want):
        if got is not None:
            raise Fail("%s: should be refused, was read as %s" % (what, got[:3]))
        return "refused"
    if got is None:
        raise Fail("%s: a well-formed file was refused" % what)
    if len(got) != len(want):
        raise Fail("%s: %d elements read, the file has %d" % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0] or g[2] != w[1]:
            raise Fail("%s: element %d read as %s %s, the file says %s %s" % (what, i, g[0], g[2], w[0], w[1]))
        if kind == "a" and g[1] != i:
            raise Fail("%s: vector %d is numbered %d" % (what, i, g[1]))
    return "read %d" % len(want)


# ---------------------------------------------------------------- write and read back
MAG = [0.0, 1.0, -1.0, 1 / 3.0, -0.1, 123456.789, -1e15 - 0.3, 1e22, 9.87654321012345678e-5, -1e-8, 1e-12, -3e-24, 1e-300, 5e-324, 1.7e308, -BIG, 2 ** 53 + 1.0, 0.1 + 0.2, -7.0, 99999.99999999999]


def rt_cases(tier):
    for kind in "ab":
        for Sn in (1, 2, 3):
            if Sn == 1:
                for n in (0, 1, 2, 3):
                    yield {"k": kind, "S": Sn, "n": n, "first": None}
            else:
                for f in range(len(MAG)):
                    yield {"k": kind, "S": Sn, "n": 1 if Sn == 3 else 2, "first": f}
        for Sn in (7, 40):
            yield {"k": kind, "S": Sn, "n": 5, "first": None}
        for Sn, n in ((4, 2000), (5, 256), (300, 20), (1000, 3), (65, 129)):
            yield {"k": kind, "S": Sn, "n": n, "first": None}


@C.family("write and read back", rt_cases)
def f_rt(c, res, builds, d):
    Sn, n, kind = c["S"], c["n"], c["k"]
    lists = []
    if Sn == 1:
        for vs in itertools.product(MAG, repeat=n):
            lists.append([((i * 7 + 3) % 11 - 1, [v]) for i, v in enumerate(vs)])
    elif Sn in (2, 3):
        small = MAG[::2] if n * Sn > 3 else MAG
        for vs in itertools.product(small, repeat=n * Sn - 1):
            vs = (MAG[c["first"]],) + vs
            lists.append([(i, list(vs[i * Sn:(i + 1) * Sn])) for i in range(n)])
    else:
        for k in range(40 if n == 5 else 2):
            w = F.Walk(k * 13 + Sn)
            lists.append([(w(9), [MAG[w(len(MAG))] for _ in range(Sn)]) for _ in range(n)])
    blocks = []
    for l in lists:
        blocks.append("W %s %d %d\n" % (kind, Sn, len(l)) + "".join("%d %s\n" % (a, " ".join(float(v).hex() for v in vs)) for a, vs in l))
    o = harness(builds, d, blocks)
    for l in lists:
        got = o.list()
        text = o.file()
        what = "list %s" % (l[:3],)
        if kind == "b" and not l:
            got = got or []
        if got is None:
            raise Fail("%s: the written file was refused" % what)
        if len(got) != len(l):
            raise Fail("%s: %d elements came back" % (what, len(got)))
        ref = ref_read(text, kind, Sn, 0)
        if ref is None or len(ref) != len(l):
            raise Fail("%s: the file written is malformed: %r" % (what, text[:200]))
        if kind == "a" and [len(x.split()) for x in text.split("\n") if x.strip()] != [1, Sn] * len(l):
            raise Fail("%s: the file is not laid out as action and value lines: %r" % (what, text[:200]))
        for (a, vs), g, r in zip(l, got, ref):
            for w in (g[2], r[1]):
                for x, y in zip(vs, w):
                    if abs(x - y) > (1e-25 if abs(x) < 1e-8 else 0.0):
                        raise Fail("%s: %r came back as %r" % (what, x, y))
            if kind == "a" and (g[0] != a or r[0] != a):
                raise Fail("%s: action %d came back as %d / %d" % (what, a, g[0], r[0]))
        res.states += 1
        res.transitions += 2
    res.traces += len(lists)
    res.key(kind, Sn, n, c["first"])


# ---------------------------------------------------------------- truncation at every byte
def texts(kind):
    T = []
    for Sn in (1, 2, 3):
        for n in (1, 2, 3):
            w = F.Walk(Sn * 5 + n)
            L = []
            for i in range(n):
                v = [[0.0, 1.25, -3.5, 1e-7, 12345.678, 1 / 3.0][w(6)] for _ in range(Sn)]
                if kind == "a":
                    L.append("%d\n%s\n\n" % (w(4), "".join("%.*f " % ((25, 2, 4)[i % 3], x) for x in v)))
                else:
                    L.append("".join("%.*f " % ((25, 2, 4)[i % 3], x) for x in v) + "\n")
            T.append((Sn, "".join(L)))
    return T


def trunc_cases(tier):
    for kind in "ab":
        for i in range(9):
            yield {"k": kind, "i": i}


@C.family("truncation at every byte", trunc_cases)
def f_trunc(c, res, builds, d):
    Sn, t = texts(c["k"])[c["i"]]
    qs = []
    for k in range(len(t) + 1):
        for mx in (0, -1, 1, 2, 5):
            qs.append((t[:k], mx))
            if mx == 0:         # a file that lost its beginning or a block in the middle
                qs.append((t[k:], mx))
                qs.append((t[:k] + t[k + 16:], mx))
                qs.append((t[:k] + "\0" * (len(t) - k), mx))
    o = harness(builds, d, [block_r(x, c["k"], Sn, mx) for x, mx in qs])
    for x, mx in qs:
        want = ref_read(x, c["k"], Sn, mx)
        res.key(judge(o.list(), want, "file %r (at most %d)" % (x[-120:], mx), c["k"]), x[-30:])
        res.states += 1
        res.transitions += 1
    res.traces += len(qs)


# ---------------------------------------------------------------- corruption of every token
BAD = ["x", "1x", "x1", "-", "+", ".", "--1", "1.2.3", "1,5", "1.5", "2", "-2", "1e5", "1e-3x", "#", "0 x", "1 2", "", "99999999999", ":", "1:", "NaN?", "e5", "1-2", "-1.5", "+3", "$", "\xff", "1;", "0x"]


def corr_cases(tier):
    for kind in "ab":
        for i in range(9):
            for b in range(len(BAD)):
                yield {"k": kind, "i": i, "b": b}


@C.family("corruption of every token", corr_cases)
def f_corr(c, res, builds, d):
    Sn, t = texts(c["k"])[c["i"]]
    parts = re.split(r"(\s+)", t)
    qs = []
    for k in range(0, len(parts), 2):
        if not parts[k]:
            continue
        for mode in ("replace", "before", "after", "glue"):
            p = list(parts)
            b = BAD[c["b"]]
            p[k] = b if mode == "replace" else b + " " + p[k] if mode == "before" else p[k] + " " + b if mode == "after" else p[k] + b
            qs.append("".join(p))
    if c["b"] == 0:             # other ways to lay the same numbers out are fine
        for sep in (" ", "\n", "\t", "\r\n", "  \n\n ", "\f", "\v"):
            qs.append(sep.join(t.split()))
            qs.append(sep + sep.join(t.split()) + sep)
    qs2 = [(x, mx) for x in qs for mx in (0, 1)]
    o = harness(builds, d, [block_r(x, c["k"], Sn, mx) for x, mx in qs2])
    for x, mx in qs2:
        want = ref_read(x, c["k"], Sn, mx)
        res.key(judge(o.list(), want, "file %r (at most %d)" % (x[:160], mx), c["k"]), x[-40:])
        res.states += 1
        res.transitions += 1
    res.traces += len(qs2)
