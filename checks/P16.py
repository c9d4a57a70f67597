import itertools
from vt import Check, Fail, run

C = Check("P16", "model_checking",
          "exhaustive enumeration: every linear program of bounded size over small coefficient grids, and every region program over vector grids, is put through the solver's LP layer and judged by exact integer vertex and ray enumeration",
          "a state is one linear program, a transition one solve; distinct = (job, outcome class) pairs",
          ["optimum compared to 1e-7 of the largest coefficient", "an unbounded program is reported as having no solution, by design of the layer"],
          variants=("plain", "asan"))
C.harnesses["lp"] = (["harness/lp.c"], ())


def go(res, builds, d, jobs, variant, what):
    p = run([getattr(builds[variant], "h_lp")], d, "\n".join(jobs).encode() + b"\n", timeout=25)
    if p.rc != 0 or not p.out.endswith("END\n"):
        raise Fail("%s: the LP layer died (rc=%s) after %r: %s" % (what, p.rc, p.out[-300:], p.err[-600:]))
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    n = 0
    for l in p.out.split("\n"):
        if l.startswith("X "):
            raise Fail("%s: %s" % (what, l[2:]))
        if l.startswith("J "):
            a = [int(x) for x in l[2:].split()]
            n += 1
            res.states += a[0]
            res.transitions += a[0]
            res.traces += a[0]
            for k in range(1, 4):
                if a[k]:
                    res.key(jobs[n - 1], k)
    if n != len(jobs):
        raise Fail("%d answers for %d jobs" % (n, len(jobs)))


def G(n, m, bounds, co, rh, ob, sen, zeros, unit, senses="LGE"):
    total = (len(co) ** n * len(rh) * len(senses)) ** m * len(ob) ** n
    head = "G %d %d %s %d %s %d %s %d %s %s %s %d" % (
        n, m, bounds, len(co), " ".join(map(str, co)), len(rh), " ".join(map(str, rh)), len(ob), " ".join(map(str, ob)), senses, sen, zeros)
    return head, total, unit


def split(h, chunk, variant="plain"):
    head, total, unit = h[:3]
    tail = h[3] if len(h) > 3 else ""
    for lo in range(0, total, chunk):
        yield {"jobs": ["%s %d %d %r%s" % (head, lo, min(lo + chunk, total), unit, tail)], "v": variant}


def generic(tier):
    T = tier == "thorough"
    co = [-1, 0, 1, 2]
    for b in ("11", "1i", "ii", "02"):
        for sen, z in (("M", 0), ("m", 1)):
            yield from split(G(2, 2, b, co, [-1, 0, 1], [-1, 0, 1], sen, z, 1), 100000)
    for u in (1e-3, 1e3):
        yield from split(G(2, 2, "1i", co, [-1, 0, 1], [-1, 0, 1], "M", 0, u), 100000)
    yield from split(G(3, 2, "11i", [-1, 0, 1], [0, 1], [-1, 1], "M", 0, 1), 60000)
    yield from split(G(2, 3, "ii", [-1, 1, 2], [0, 1], [-1, 1], "M", 0, 1), 100000)
    yield from split(G(1, 3, "i", [-1, 0, 1, 3], [-1, 0, 1, 2], [-1, 0, 2], "M", 0, 1), 100000)
    yield from split(G(2, 2, "1i", [-1, 0, 1], [0, 1], [-1, 1], "M", 0, 1), 1000, "asan")
    if T:
        for b in ("111", "iii", "1ii"):
            yield from split(G(3, 2, b, [-1, 0, 1], [-1, 0, 1], [-1, 0, 1], "M", 0, 1), 100000)
            yield from split(G(3, 3, b, [-1, 1], [0, 1], [-1, 1], "M", 0, 1), 100000)
            yield from split(G(3, 3, b, [0, 1], [0, 1], [-1, 1], "m", 1, 1), 100000)
        for b in ("11", "ii", "1i"):
            yield from split(G(2, 3, b, [-1, 0, 1, 2], [0, 1], [-1, 1], "M", 0, 1), 100000)
            yield from split(G(2, 2, b, [-3, -2, -1, 0, 1, 2, 3], [-1, 0, 2], [-1, 0, 1, 3], "M", 0, 1), 100000)
        yield from split(G(4, 2, "1111", [-1, 0, 1], [0, 1], [-1, 1], "M", 0, 1), 50000)
        yield from split(G(2, 4, "ii", [-1, 1], [0, 1], [1, -1], "M", 0, 1), 50000)


@C.family("all small programs", generic)
def f_generic(c, res, builds, d):
    go(res, builds, d, c["jobs"], c["v"], "small program")


def R(S, n, form, grid, unit=1, off=0):
    return "R %d %d %s %d %s 0" % (S, n, form, len(grid), " ".join(map(str, grid))), len(grid) ** (S * (n + 1)), unit, " %d" % off


def regions(tier):
    T = tier == "thorough"
    for f in "oOnNtT":
        for u, o in ((1, 0), (1e-3, -1), (1, 1000)) if T or f in "on" else ((1e3, 0),):
            yield from split(R(2, 2, f, [0, 1, 2, 3, 5], u, o), 5000)
            yield from split(R(2, 3, f, [0, 1, 3], u, o), 7000)
        yield from split(R(3, 2, f, [0, 1, 2], 1, -1), 1500)
        yield from split(R(3, 3, f, [0, 1]), 600)
        yield from split(R(4, 2, f, [0, 1]), 400)
        yield from split(R(2, 2, f, [0, 1, 2]), 1000, "asan")
        if T:
            for u, o in ((1, 0), (1e-3, -1), (1e3, 0), (1, 1000)):
                yield from split(R(2, 3, f, [0, 1, 2, 4], u, o), 20000)
            yield from split(R(2, 5, f, [0, 1, 2]), 20000)
            yield from split(R(2, 7, f, [0, 1]), 10000)
            yield from split(R(3, 2, f, [0, 1, 2, 5], 1, -1), 10000)
            yield from split(R(3, 4, f, [0, 1]), 2000)
            if f in "ont":
                yield from split(R(4, 3, f, [0, 1]), 2000)


@C.family("belief region programs", regions)
def f_region(c, res, builds, d):
    go(res, builds, d, c["jobs"], c["v"], "region program")


def pairs(tier):
    """single programs of many sizes and kinds, every ordered pair solved in one process"""
    kinds = [G(1, 1, "i", [1, -1], [1, -1], [1, -1], "M", 0, 1), G(2, 2, "11", [-1, 0, 1, 2], [-1, 0, 1], [-1, 0, 1], "M", 0, 1),
             G(2, 3, "ii", [-1, 0, 1, 2], [0, 1], [-1, 1], "m", 0, 1), G(3, 2, "1ii", [-1, 0, 1], [0, 1], [-1, 1], "M", 1, 1),
             G(4, 3, "1111", [-1, 0, 1], [0, 1], [-1, 1], "M", 0, 1), R(2, 4, "o", [0, 1, 3]), R(3, 2, "n", [0, 1, 3]),
             R(3, 3, "o", [0, 1, 3]), R(2, 2, "t", [0, 1, 3]), R(4, 3, "T", [0, 1, 2])]
    k = 40 if tier == "thorough" else 12
    jobs = []
    for h in kinds:
        for i in range(k):
            lo = h[1] * (2 * i + 1) // (2 * k)
            jobs.append("%s %d %d %r%s" % (h[0], lo, lo + 1, h[2], h[3] if len(h) > 3 else ""))
    for v in ("plain", "asan"):
        js = jobs if v == "plain" else jobs[::6]
        for i in range(0, len(js)):
            yield {"jobs": [x for j in js for x in (js[i], j)], "v": v}


@C.family("every program after every other", pairs)
def f_pairs(c, res, builds, d):
    go(res, builds, d, c["jobs"], c["v"], "program after another")


SIZES = [1, 2, 10, 100, 999, 2499, 3332, 3333, 3334, 4999, 5000, 5001, 6000, 7499, 7500, 7502, 9998, 9999, 10000, 12000, 15000, 22500, 30000]


def big(tier):
    for n in SIZES if tier == "quick" else sorted(set(SIZES + list(range(500, 40000, 500)))):
        jobs = []
        for f in "oOnN":
            jobs.append("B 2 %d %s 0 %d" % (n, f, n))
            for S in (2, 3, 4):
                if n > 10:
                    jobs.append("B %d %d %s %d %d" % (S, n, f, 3 + n % 4, n + S))
        for j in jobs:
            yield {"jobs": [j], "v": "plain"}
            if n in (5000, 7500, 10000, 22500) or tier != "quick":
                yield {"jobs": [j], "v": "asan"}


@C.family("programs of many vectors", big)
def f_big(c, res, builds, d):
    go(res, builds, d, c["jobs"], c["v"], "large program")
