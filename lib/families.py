"""Finite model families that the checks enumerate.  Everything is deterministic."""
import functools, itertools
import numpy as np
import model as M

ROWS = {
    1: [(1.0,)],
    2: [(1, 0), (0, 1), (.5, .5), (.9, .1), (.25, .75)],
    3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (.5, .5, 0), (.2, .3, .5), (.1, 0, .9)],
    4: [(1, 0, 0, 0), (0, 0, 1, 0), (.25, .25, .25, .25), (.5, 0, .5, 0), (.1, .2, .3, .4), (0, .7, 0, .3)],
    5: [(1, 0, 0, 0, 0), (0, 0, 0, 0, 1), (.2, .2, .2, .2, .2), (.5, 0, .25, 0, .25), (.1, .2, .3, .35, .05)],
    6: [(1, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 1), (.5, 0, .25, 0, .25, 0), (.1, .2, .3, .15, .05, .2), (0, .4, 0, .3, .1, .2)],
}
REW = [0.0, 1.0, -1.0, 2.5, -10.0, 0.3]


class Walk:
    """mixed-radix walk: a fixed enumeration order through a huge product space"""

    def __init__(self, n):
        self.x = (n * 2654435761 + 12345) & 0xFFFFFFFFFFFF

    def __call__(self, k):
        self.x = (self.x * 25214903917 + 11) & 0xFFFFFFFFFFFF
        return (self.x >> 17) % k


@functools.lru_cache(None)
def big_rows(n):
    """rows of any length, exactly representable in the text (multiples of 2^-k or of few decimals)"""
    def put(*iv):
        r = [0.0] * n
        for i, v in iv:
            r[i % n] += v
        return tuple(r)
    q = 1 << (n.bit_length() - 1)           # a power of two that is at most n
    return (put((0, 1)), put((n // 2, 1)), put((0, .5), (1, .5)), put((0, .25), (n // 3, .5), (n - 1, .25)),
            put((1, .1), (3, .2), (n // 2, .3), (n - 2, .4)), put(*[(i, 1 / q) for i in range(q)]))


def rows_for(w, n, perm=True):
    rows = ROWS.get(n) or big_rows(n)
    base = list(rows[w(len(rows))])
    if perm:
        r = w(n)
        base = base[r:] + base[:r]
    return base


def model_n(n, S, A, O, gamma=0.9, full_r=False, values="reward", start=True, rew=REW):
    """the n-th member of the (S,A,O) family"""
    w = Walk(n * 977 + S * 31 + A * 7 + O)
    T = [[rows_for(w, S) for _ in range(S)] for _ in range(A)]
    Z = [[rows_for(w, O) for _ in range(S)] for _ in range(A)]
    if full_r:
        R = [[[[rew[w(len(rew))] for _ in range(O)] for _ in range(S)] for _ in range(S)] for _ in range(A)]
    else:
        R = [[rew[w(len(rew))] for _ in range(S)] for _ in range(A)]
    st = rows_for(w, S) if start else None
    return M.Model(T, Z, R, gamma, st, values)


def tiny_cases(trows, zrows, rews):
    """the complete (2,2,2) family over the given row and reward alphabets"""
    for T in itertools.product(trows, repeat=4):
        for Z in itertools.product(zrows, repeat=4):
            for R in itertools.product(rews, repeat=4):
                yield T, Z, R


def tiny_model(T, Z, R, gamma=0.9, A=2, S=2):
    O = len(Z[0])
    return M.Model(np.array(T).reshape(A, S, S), np.array(Z).reshape(A, S, O), np.array(R).reshape(A, S), gamma,
                   [1.0 / S] * S)
