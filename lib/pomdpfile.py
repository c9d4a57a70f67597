"""Reference interpreter of the POMDP model-file language (written from its documentation and grammar)."""
import re
import numpy as np
import model as M

TOK = re.compile(r"\s+|#[^\n]*|(?P<f>\d+(?:\.\d*(?:[eE][+-]?\d+)?|[eE][+-]?\d+))|(?P<i>\d+)"
                 r"|(?P<s>[A-Za-z][A-Za-z0-9_\-]*)|(?P<p>[*:+\-])")
RESERVED = {"discount", "values", "states", "actions", "observations", "T", "O", "R", "uniform",
            "identity", "reward", "cost", "start", "include", "exclude", "reset"}
EPS = 1e-5


class Invalid(Exception):
    pass


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Invalid("illegal character %r" % text[i])
        i = m.end()
        k = m.lastgroup
        if k == "f":
            out.append(("num", float(m.group("f")), False))
        elif k == "i":
            out.append(("num", float(m.group("i")), True))
        elif k == "s":
            s = m.group("s")
            out.append(("kw" if s in RESERVED else "id", s, None))
        elif k == "p":
            out.append((m.group("p"), None, None))
    out.append(("end", None, None))
    return out


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def want(self, kind):
        x = self.next()
        if x[0] != kind:
            raise Invalid("syntax: expected %s got %s" % (kind, x))
        return x

    def kw(self, *names):
        x = self.peek()
        return x[0] == "kw" and x[1] in names

    # number with optional sign
    def number(self):
        sg = 1.0
        if self.peek()[0] in "+-" and self.peek()[0] in ("+", "-"):
            sg = -1.0 if self.next()[0] == "-" else 1.0
        return sg * self.want("num")[1]

    def prob(self):
        v = self.want("num")[1]
        if not 0 <= v <= 1:
            raise Invalid("probability out of range")
        return v

    def parse(self):
        names = {}
        self.n = {}
        discount = values = None
        while self.kw("discount", "values", "states", "actions", "observations"):
            k = self.next()[1]
            self.want(":")
            if k == "discount":
                discount = self.number()
                if not 0 <= discount <= 1:
                    raise Invalid("discount")
            elif k == "values":
                if not self.kw("reward", "cost"):
                    raise Invalid("values")
                values = self.next()[1]
            else:
                if k in self.n:
                    raise Invalid("repeated " + k)     # callers do not generate this
                if self.peek()[0] == "num":
                    x = self.next()
                    if not x[2] or x[1] < 1:
                        raise Invalid("number of " + k)
                    self.n[k] = int(x[1])
                    names[k] = {}
                else:
                    l = []
                    while self.peek()[0] == "id":
                        l.append(self.next()[1])
                    if not l or len(set(l)) != len(l):
                        raise Invalid("names of " + k)
                    self.n[k] = len(l)
                    names[k] = {s: i for i, s in enumerate(l)}
        self.names = names
        if discount is None or values is None or "states" not in self.n or "actions" not in self.n:
            raise Invalid("preamble incomplete")
        if "observations" not in self.n:
            raise Invalid("MDP")
        S, A, O = self.n["states"], self.n["actions"], self.n["observations"]
        self.S, self.A, self.O = S, A, O
        self.start = np.full(S, 1.0 / S)
        if self.kw("start"):
            self.next()
            if self.kw("include", "exclude"):
                inc = self.next()[1] == "include"
                self.want(":")
                st = np.zeros(S) if inc else np.ones(S)
                n = 0
                while self.peek()[0] in ("id", "num", "*"):
                    if self.peek()[0] == "*":
                        raise Invalid("not judged here (repeated): wildcard in a start list")
                    st[self.idx("states")] = 1.0 if inc else 0.0
                    n += 1
                if n == 0 or st.sum() <= 0:
                    raise Invalid("start list")
                self.start = st / st.sum()
            else:
                self.want(":")
                if self.kw("uniform"):
                    self.next()
                elif self.peek()[0] == "id":
                    i = self.idx("states")
                    self.start = np.zeros(S)
                    self.start[i] = 1.0
                elif self.peek()[0] == "num":
                    self.start = self.matrix(1, S, self.prob)[0]
                    if abs(self.start.sum() - 1) > EPS:
                        raise Invalid("start sum")
                else:
                    raise Invalid("start")
        T = np.zeros((A, S, S))
        Z = np.zeros((A, S, O))
        R = np.zeros((A, S, S, O))
        while self.peek()[0] != "end":
            if not self.kw("T", "O", "R"):
                raise Invalid("syntax: %s" % (self.peek(),))
            k = self.next()[1]
            self.want(":")
            ix = [self.idx("actions")]
            kinds = {"T": ["states", "states"], "O": ["states", "observations"],
                     "R": ["states", "states", "observations"]}[k]
            for kind in kinds:
                if self.peek()[0] != ":":
                    break
                self.next()
                ix.append(self.idx(kind))
            tgt = {"T": T, "O": Z, "R": R}[k]
            if k == "R":
                if len(ix) == 4:
                    tgt[np.ix_(*ix)] = self.number()
                elif len(ix) == 3:
                    row = self.matrix(1, O, self.number)[0]
                    tgt[np.ix_(*ix)] = row
                elif len(ix) == 2:
                    m = self.matrix(S, O, self.number)
                    tgt[np.ix_(*ix)] = m
                else:
                    raise Invalid("reward syntax")
                continue
            W = tgt.shape[2]
            if len(ix) == 3:
                tgt[np.ix_(*ix)] = self.prob()
            elif len(ix) == 2:
                if self.kw("uniform"):
                    self.next()
                    row = np.full(W, 1.0 / W)
                elif self.kw("reset") and k == "T":
                    self.next()
                    row = self.start
                else:
                    row = self.matrix(1, W, self.prob)[0]
                tgt[np.ix_(*ix)] = row
            else:
                if self.kw("uniform"):
                    self.next()
                    m = np.full((S, W), 1.0 / W)
                elif self.kw("identity") and k == "T":
                    self.next()
                    m = np.eye(S)
                else:
                    m = self.matrix(S, W, self.prob)
                tgt[np.ix_(*ix)] = m
        if (abs(T.sum(axis=2) - 1) > EPS).any() or (abs(Z.sum(axis=2) - 1) > EPS).any():
            raise Invalid("probabilities do not sum to one")
        m = M.Model(T, Z, R, discount, self.start, values)
        m.names = names
        return m

    def idx(self, kind):
        """-> list of indices (all of them for the wildcard)"""
        x = self.next()
        n = self.n[kind]
        if x[0] == "*":
            return list(range(n))
        if x[0] == "num" and x[2]:
            if x[1] >= n:
                raise Invalid("index")
            return [int(x[1])]
        if x[0] == "id":
            if x[1] not in self.names[kind]:
                raise Invalid("name " + x[1])
            return [self.names[kind][x[1]]]
        raise Invalid("syntax: index expected, got %s" % (x,))

    def matrix(self, r, c, item):
        out = []
        while self.peek()[0] == "num" or (item == self.number and self.peek()[0] in ("+", "-")):
            out.append(item())
        if len(out) != r * c:
            raise Invalid("number of entries")
        return np.array(out).reshape(r, c)


def interpret(text):
    return Parser(text).parse()


def interpret_file(path):
    with open(path, encoding="latin-1") as f:
        return interpret(f.read())
