import hashlib, os, re, shutil, subprocess
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail, run, BASE_ENV

C = Check("P08", "model_checking",
          "stateless exploration of interrupt delivery on the real program: one forked run per delivery point (every executed basic block, every system call, pairs of interrupts), each run compared with the uninterrupted run's epochs",
          "a case is (model, method, options, slice of the delivery points); states = delivery points explored; distinct = different observable outcomes",
          ["one interrupt delivered between two basic blocks of the project's own code or at a system call; interrupts inside a libc routine between two system calls are covered by the class of the calling block, since the handler only touches program state",
           "the basic-block build (gcc -O1 -fsanitize-coverage=trace-pc) is tied to the ordinary build by comparing all its uninterrupted results byte for byte, and by exploring the ordinary build at every system call"],
          variants=("plain", "steps"))
C.harnesses["inject"] = (("harness/inject.c",), ("-Wl,--wrap=fopen,--wrap=signal,--wrap=sigaction,--wrap=getpid",))
C.harnesses["ptrun"] = (("harness/ptrun.c",), ())
C.harness_variants = {"inject": ("steps",), "ptrun": ("plain",)}

SLICES = 4

CONFIGS = [     # (family member, shape, gamma, values, options, slices)
    (10, (2, 2, 2), .9, "reward", ["-method", "incprune", "-horizon", "3"], 3),
    (5, (3, 2, 2), .5, "reward", ["-method", "incprune", "-inc_prune", "restricted_region", "-horizon", "3"], 4),
    (9, (2, 3, 2), .5, "reward", ["-method", "incprune", "-inc_prune", "generalized", "-horizon", "3"], 4),
    (10, (2, 2, 2), .9, "cost", ["-method", "witness", "-horizon", "4"], 4),
    (4, (2, 2, 2), .95, "reward", ["-method", "enum", "-horizon", "3"], 4),
    (5, (3, 2, 2), .9, "reward", ["-method", "twopass", "-horizon", "2"], 3),
    (22, (2, 2, 2), .2, "reward", ["-method", "incprune", "-stop_criteria", "exact"], 4),
    (6, (2, 2, 2), .3, "reward", ["-method", "incprune", "-stop_criteria", "bellman", "-stop_delta", "0.05"], 4),
    (17, (2, 2, 2), .3, "reward", ["-method", "witness", "-stop_criteria", "weak", "-stop_delta", "0.05"], 4),
    (10, (2, 2, 2), .9, "reward", ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "20", "-horizon", "4"], 3),
    (5, (3, 2, 2), .9, "cost", ["-method", "grid", "-fg_type", "simplex", "-fg_points", "20", "-horizon", "3"], 3),
    (10, (2, 2, 2), .9, "reward", ["-method", "incprune", "-horizon", "4", "-save_penultimate", "true"], 4),
    (10, (2, 2, 2), .5, "reward", ["-method", "incprune", "-vi_variation", "zlz", "-witness_points", "true", "-horizon", "3"], 4),
    (10, (2, 2, 2), .9, "reward", ["-method", "witness", "-vi_variation", "adjustable_epsilon", "-start_epsilon", "0.1", "-end_epsilon", "1e-4",
                                  "-epsilon_adjust", "0.1", "-history_length", "2", "-history_delta", "1", "-horizon", "5"], 4),
    (4, (2, 2, 2), .9, "reward", ["-method", "incprune", "-horizon", "3", "-stat_summary", "true"], 3),
]


def text_of(c):
    return F.model_n(c["n"], *c["shape"], c["g"], values=c["v"]).text()


def cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(CONFIGS):
        for save in ("true", "false"):
            if "zlz" in opts and save == "true":
                continue
            if tier == "quick":
                if save == "false" and i % 3 and "zlz" not in opts:
                    continue
                md, k = "class", sl
            else:
                md, k = "all", 8 * sl
            for s in range(k):
                yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": save, "mode": md, "slice": s, "of": k}


def double_cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(CONFIGS):
        if tier == "quick" and i % 3:
            continue
        for md in ("next", "late:40") + (() if tier == "quick" else ("late:7", "late:150", "late:700", "late:2500")):
            for s in range(2):
                yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": "false" if "zlz" in opts else "true", "mode": md, "slice": s, "of": 2}


def norm(t):
    t = re.sub(r"\b\d+\.\d{2,3}(?![\de])", "T", t)
    return re.sub(r"PID=\d+|##pomdp-solve-\d+##", "PID", t)


def epochs(out):
    return [norm(l) for l in out.splitlines() if l.startswith("Epoch:")]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def files(d):
    return sorted(f for f in os.listdir(d) if f not in ("stdout", "stderr"))


class Ref:
    """what uninterrupted runs of the ordinary build have after each epoch"""

    def __init__(self, c, b, d):
        self.c = c
        self.K = None
        r = os.path.join(d, "ref")
        os.makedirs(r)
        zlz = "zlz" in c["opts"]
        model = os.path.join(d, "m.POMDP")
        base = [b.solve, "-pomdp", model, "-rand_seed", "1:2:3", "-o", "o"]
        p = run(base + ["-save_all", "false" if zlz else "true"] + c["opts"], r, timeout=20)
        if p.rc != 0:
            raise Fail("uninterrupted run failed rc=%s: %s" % (p.rc, p.err[-300:]))
        self.out = p.out
        self.ep = epochs(p.out)
        self.K = len(self.ep)
        self.sol = {self.K: (rd(os.path.join(r, "o.alpha")), rd(os.path.join(r, "o.pg")))}
        self.prev = None
        if not zlz:
            for k in range(1, self.K + 1):
                s = (rd(os.path.join(r, "o.alpha%d" % k)), rd(os.path.join(r, "o.pg%d" % k)))
                if k == self.K and s != self.sol[k]:
                    raise Fail("final solution differs from the one saved for the last epoch")
                self.sol[k] = s
        else:
            for k in range(1, self.K):
                o = list(c["opts"])
                o[o.index("-horizon") + 1] = str(k)
                q = os.path.join(d, "ref%d" % k)
                os.makedirs(q)
                p = run(base + o, q, timeout=20)
                self.sol[k] = (rd(os.path.join(q, "o.alpha")), rd(os.path.join(q, "o.pg")))


def judge(ref, d, status, inj, c, what):
    """one finished run in directory d; inj = epochs whose solution was saved when the interrupt came (None: unknown)"""
    out = open(os.path.join(d, "stdout"), encoding="latin-1").read()
    err = open(os.path.join(d, "stderr"), encoding="latin-1").read()
    if status != 0:
        raise Fail("%s: ended with wait status %#x: %s" % (what, status, (err + out)[-250:]))
    if err.strip():
        raise Fail("%s: complained: %s" % (what, err[-250:]))
    ep = epochs(out)
    k = len(ep)
    if ep != ref.ep[:k]:
        raise Fail("%s: epoch report %s is not a prefix of the uninterrupted run's %s" % (what, ep, ref.ep))
    if inj is not None and k not in (inj, inj + 1):
        raise Fail("%s: %d epochs were finished when it came, the run ended after %d" % (what, inj, k))
    fs = files(d)
    want = {"o.alpha", "o.pg"}
    if c["save"] == "true":
        for j in range(1, k + 1):
            want |= {"o.alpha%d" % j, "o.pg%d" % j}
    if "-save_penultimate" in c["opts"] and k >= 2:
        want.add("o.prev.alpha")
    if set(fs) != want:
        raise Fail("%s: files %s, expected %s" % (what, fs, sorted(want)))
    if out.count("Solution found.") != 1:
        raise Fail("%s: the report does not name the solution: %s" % (what, out[-300:]))
    got = (rd(os.path.join(d, "o.alpha")), rd(os.path.join(d, "o.pg")))
    if k == 0:
        v = M.read_alpha(os.path.join(d, "o.alpha"))
        if len(v) != 1 or any(x != 0 for x in v[0][1]):
            raise Fail("%s: no epoch was finished, but the solution is %s" % (what, v))
    elif got != ref.sol[k]:
        raise Fail("%s: the solution after %d epochs differs from the uninterrupted run's (%s)" % (
            what, k, "values" if got[0] != ref.sol[k][0] else "policy graph"))
    if c["save"] == "true":
        for j in range(1, k + 1):
            if (rd(os.path.join(d, "o.alpha%d" % j)), rd(os.path.join(d, "o.pg%d" % j))) != ref.sol[j]:
                raise Fail("%s: the solution saved for epoch %d differs" % (what, j))
    if "-save_penultimate" in c["opts"] and k >= 2 and rd(os.path.join(d, "o.prev.alpha")) != ref.sol[k - 1][0]:
        raise Fail("%s: the penultimate solution saved is not that of epoch %d" % (what, k - 1))
    return k


def explore(c, res, builds, d, sig=2, extra=(), timeout=600):
    """runs the explorer, yields (outcome directory, fields)"""
    model = os.path.join(d, "m.POMDP")
    x = os.path.join(d, "x")
    os.makedirs(x, exist_ok=True)
    p = run([builds["steps"].h_inject, str(sig), c["mode"], str(c["slice"]), str(c["of"]), x,
             "--", "-pomdp", model, "-rand_seed", "1:2:3", "-o", "o", "-save_all", c["save"]] + list(extra) + c["opts"], d, timeout=timeout)
    if p.rc != 0 or p.timeout:
        raise RuntimeError("explorer failed rc=%s %s" % (p.rc, (p.out + p.err)[-500:]))
    head = dict(re.findall(r"(total|armed|calls|phases|chosen) (-?\d+)", p.out))
    outs = []
    for l in p.out.splitlines():
        if l.startswith("out "):
            w = l.split()
            f = {w[i]: int(w[i + 1]) for i in range(3, len(w), 2)}
            f["dir"] = os.path.join(x, "r%s-%s" % (w[1], w[2]))
            outs.append(f)
    return {k: int(v) for k, v in head.items()}, outs


def f_block(c, res, builds, d):
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(text_of(c))
    ref = Ref(c, builds["plain"], d)
    head, outs = explore(c, res, builds, d)
    if not head["armed"]:
        raise Fail("the program never installs a handler for the interrupt")
    seen = set()
    for o in outs:
        n = o["count"]
        res.states += n
        res.transitions += n * max(1, o["fired"])
        saved = o["epochs"] if c["save"] == "true" and o["fired"] else None
        what = "no interrupt" if not o["fired"] else "interrupt at step %d%s" % (o["lo"], "..%d" % o["hi"] if n > 1 else "")
        k = judge(ref, o["dir"], o["status"], saved, c, what)
        if not o["fired"] and o["lo"] < 0 and k != ref.K:
            raise Fail("run without interrupt stops after %d of %d epochs" % (k, ref.K))
        if o["fired"]:
            seen.add(k)
            res.key(c["n"], c["opts"], c["save"], k, o["epochs"])
    res.traces += len(outs)
    # every interrupt before the end must be noticed by the end of the epoch under way
    if c["mode"] in ("all", "class") and ref.K > 1:
        for k in range(1, ref.K):
            if k not in seen:
                raise Fail("no interrupt at any of the %d points ended the run after epoch %d of %d" % (sum(o["count"] for o in outs), k, ref.K))
    if c["slice"] == 0:
        res.sample = {"options": c["opts"], "steps": head["total"], "explored": sum(o["count"] for o in outs),
                      "epochs of the outcomes": sorted(seen), "of": ref.K}


C.family("interrupt at every block", cases)(f_block)
C.family("two interrupts", double_cases)(f_block)


def sys_cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(CONFIGS):
        for save in ("true", "false"):
            if "zlz" in opts and save == "true":
                continue
            yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": save}


@C.family("interrupt at every system call", sys_cases)
def f_sys(c, res, builds, d):
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(text_of(c))
    b = builds["plain"]
    ref = Ref(c, b, d)
    w = os.path.join(d, "w")
    cmd = [b.solve, "-pomdp", os.path.join(d, "m.POMDP"), "-rand_seed", "1:2:3", "-o", "o", "-save_all", c["save"]] + c["opts"]
    k, last = 1, 0
    while True:
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        st = ptrun(b, w, "sigall:%d:2" % k, cmd)
        if not st["armed"]:
            raise Fail("the program never installs a handler for the interrupt")
        if not st["handled"]:
            break
        e = judge(ref, w, st["status"], None, c, "interrupt at system call %d" % k)
        if e < last:
            raise Fail("interrupt at system call %d ends after %d epochs, an earlier one after %d" % (k, e, last))
        if e > last + 1:
            raise Fail("interrupt at system call %d ends after %d epochs, just before it after %d" % (k, e, last))
        last = e
        res.states += 1
        res.transitions += 1
        res.key(c["n"], c["opts"], c["save"], e)
        k += 1
    if last != ref.K:
        raise Fail("interrupts at the last system calls end after %d of %d epochs" % (last, ref.K))
    res.traces += k


def ptrun(b, w, actions, cmd, timeout=20):
    log = w + ".log"
    p = run([b.h_ptrun, actions, log, "stdout", "stderr", "--"] + cmd, w, timeout=timeout)
    if p.timeout:
        raise Fail("no answer with %s" % actions)
    if p.rc != 0:
        raise RuntimeError("ptrun: rc %s %s" % (p.rc, open(log).read()[-300:]))
    lines = open(log, encoding="latin-1").read().splitlines()
    m = re.match(r"status (\d+) calls (\d+) handled (\d+) armed (\d+)", lines[-1])
    st = {"status": int(m.group(1)), "calls": int(m.group(2)), "handled": int(m.group(3)), "armed": int(m.group(4)), "ops": []}
    for l in lines[:-1]:
        x = l.split(" ")
        st["ops"].append({"i": int(x[0]), "kind": x[1], "path": x[2], "bytes": int(x[3]), "lines": [int(y) for y in x[4:]]})
    return st
