import itertools
import numpy as np
import texts, pomdpfile as PF, semantics as SM
from vt import Check, Fail

C = Check("P12", "model_checking",
          "explicit-state enumeration of all sequences of reward statements up to a depth (all wildcard patterns, single/row/matrix forms); the real solver's expected immediate rewards after each sequence compared with a last-match-wins reference interpreter",
          "a case is one statement sequence, one run of the real solver; transition and observation probabilities are chosen so that no two different reward tables over the value alphabet give the same expected rewards; distinct = different reward tables reached",
          ["2 states, actions and observations for the complete products, 3 of each for the larger family", "expected rewards compared with relative tolerance 1e-6"])
PRE = texts.PRE + texts.TB + "T: 1\n0.83 0.17\n0.59 0.41\n" + texts.OB + "O: 1\n0.91 0.09\n0.13 0.87\n"


def run_seq(pre, seq, res, builds, d):
    text = pre + "\n".join(seq) + "\n"
    m = PF.interpret(text)
    SM.rewards_only(builds["plain"], d, text, m, " | ".join(s.replace("\n", " ") for s in seq))
    res.states += m.A * m.S * m.S * m.O
    res.transitions += len(seq)
    res.traces += 1
    res.key(np.round(m.R, 6).tolist())
    if len(seq) > 2:
        res.sample = list(seq)


def pairs(tier):
    al = texts.r_alphabet()
    yield []
    for k in (1, 2):
        for s in itertools.product(al, repeat=k):
            yield list(s)


@C.family("all sequences up to length 2 over all patterns and forms", pairs)
def f_pairs(c, res, builds, d):
    run_seq(PRE, c, res, builds, d)


def deep(tier):
    # patterns in which each field is either fixed or a wildcard: the shape of the decision tree
    al = ["R: %s : %s : %s : %s %d" % (a, s, t, o, 2 + i) for i, (a, s, t, o) in enumerate(itertools.product(("*", "1"), repeat=4))]
    al2 = al[::3] + ["R: 1 : *\n0 4\n-1 0", "R: * : 1 : *\n9 0", "R: 0 : 0 : 0\n1 2", "R: * : 0\n5 6\n7 8"]
    for s in itertools.permutations(al, 3):
        yield list(s)
    for s in itertools.product(al2, repeat=3 if tier == "quick" else 5):
        yield list(s)
    if tier != "quick":
        for s in itertools.permutations(al, 4):
            yield list(s)


@C.family("longer sequences over wildcard shapes", deep)
def f_deep(c, res, builds, d):
    run_seq(PRE, c, res, builds, d)


PRE3 = """discount: 0.5
values: cost
states: 3
actions: 3
observations: 3
T: 0
0.37 0.33 0.3
0.29 0.5 0.21
0.11 0.19 0.7
T: 1
0.17 0.13 0.7
0.39 0.6 0.01
0.51 0.29 0.2
T: 2
0.27 0.23 0.5
0.49 0.2 0.31
0.21 0.59 0.2
O: *
0.8 0.13 0.07
0.45 0.35 0.2
0.3 0.4 0.3
"""


def big(tier):
    al = []
    k = 0
    for a, s, t, o in itertools.product(("*", "0", "2"), ("*", "1"), ("*", "0", "2"), ("*", "2")):
        k += 1
        al.append("R: %s : %s : %s : %s %d" % (a, s, t, o, k % 7 - 2))
    for a, s in itertools.product(("*", "1"), ("*", "0", "2")):
        al.append("R: %s : %s\n1 2 3\n0 0 6\n7 8 0" % (a, s))
        al.append("R: %s : %s : 1\n1 0 -3" % (a, s))
    for s in itertools.product(al, repeat=2):
        yield list(s)
    for n, s in enumerate(itertools.permutations(al, 3)):
        if n % (29 if tier == "quick" else 2) == 0:
            yield list(s)


@C.family("three states, actions and observations, cost values", big)
def f_big(c, res, builds, d):
    run_seq(PRE3, c, res, builds, d)
