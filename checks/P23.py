import os, re
import numpy as np
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail, run, BASE_ENV

C = Check("P23", "model_checking",
          "explicit-state exploration of the random stream (all seeds of a boundary grid, save and restore at every position) on the real generator, and enumeration of environments (repetition, memory fill patterns, directory, environment size, address layout) for seed-sensitive models on the real solver",
          "a state is a stream position or an (environment, output file) pair compared byte by byte; distinct = different outputs",
          ["durations and the process number are masked in the reports"])
C.harnesses["rand"] = (["harness/rand.c"], ())


@C.family("every stream resumes at every position", lambda tier: ({"lo": i} for i in range(11)))
def f_stream(c, res, builds, d):
    p = run([builds["plain"].h_rand, str(c["lo"]), str(c["lo"] + 1)], d, timeout=60)
    if p.rc != 0 or not p.out.startswith("OK"):
        raise Fail("random stream: " + (p.out + p.err)[-300:])
    _, a, s = p.out.split()
    res.states += int(s)
    res.transitions += int(s)
    res.traces += int(a)
    res.key(c["lo"])


ENVS = {"again": {}, "fill55": {"MALLOC_PERTURB_": "85"}, "fillaa": {"MALLOC_PERTURB_": "170"}, "fillff": {"MALLOC_PERTURB_": "255"},
        "bigenv": {"PAD": "x" * 5000}, "dir": {}, "noaslr": {}}
OPTS = [[], ["-alg_rand", 7, "-prune_rand", 7], ["-alg_rand", 3, "-witness_points", "true"], ["-prune_rand", 20, "-q_purge", "domonly"],
        ["-stat_summary", "true"], ["-stop_criteria", "bellman", "-stop_delta", 0.1], ["-dom_check", "false", "-proj_purge", "domonly"]]
METH = list(S.METHODS.items()) + [("grid", ["-method", "grid"]), ("zlz", ["-method", "incprune", "-vi_variation", "zlz", "-witness_points", "true"])]


def mask(t):
    t = re.sub(r"PID=\d+", "PID=", t)
    t = re.sub(r"\d+\.\d\d secs", "# secs", t)
    t = re.sub(r"\d+\.\d\d total", "# total", t)
    # the statistics table ends in durations
    return "\n".join(re.sub(r"\s+\d+\.\d\d\b", " #", l) if re.match(r"\s*(\d+|Totals)\s", l) or "time =" in l else l for l in t.split("\n"))


def outputs(d):
    r = {}
    for f in sorted(os.listdir(d)):
        if f != "m.POMDP" and os.path.isfile(os.path.join(d, f)):
            r[f] = open(os.path.join(d, f), "rb").read()
    return r


def go(b, d, text, args, env, name):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "m.POMDP"), "w").write(text)
    e = dict(BASE_ENV)
    e.update(env)
    cmd = [b.solve, "-pomdp", "m.POMDP", "-o", "o"] + [str(a) for a in args]
    if name == "noaslr":
        cmd = ["setarch", "-R"] + cmd
    p = run(cmd, d, env=e)
    if p.timeout or p.rc != 0:
        raise Fail("run failed: %s %s" % (p.rc, (p.err + p.out)[-200:]))
    o = outputs(d)
    o["stdout"] = mask(p.out).encode()
    return o


def cases(tier):
    for n in range(12 if tier == "quick" else 150):
        for mi in range(len(METH)):
            for oi in range(len(OPTS)):
                if tier == "quick" and (n + mi + oi) % 3:
                    continue
                yield {"n": n, "m": mi, "o": oi}


SEEDS = ["1:2:3", "65535:65535:65535", "0:0:0", "100:0:40000"]


@C.family("runs in different environments", cases)
def f_env(c, res, builds, d):
    n = c["n"]
    m = F.model_n(n + 5000, *[(2, 2, 2), (3, 2, 2), (3, 3, 2)][n % 3], 0.9)
    ix = list(range(m.A)) + [n % m.A]       # a copy of an action: which one is named depends on the random points
    m = M.Model(m.T[ix], m.Z[ix], m.R[ix], m.gamma, m.start)
    _, meth = METH[c["m"]]
    opt = OPTS[c["o"]]
    if any(str(x).startswith("-") and x in meth for x in opt):
        return
    base = meth + opt + ["-horizon", 3, "-save_all", "true"]
    outs = []
    for si, seed in enumerate(SEEDS):
        args = base + ["-rand_seed", seed]
        ref = go(builds["plain"], os.path.join(d, "ref%d" % si), m.text(), args, {}, "ref")
        outs.append({k: v for k, v in ref.items() if k != "stdout"})
        for i, (name, env) in enumerate(ENVS.items()):
            if si and i > 1:
                break
            sub = os.path.join(d, "%s%d" % (name if name != "dir" else "dir" * 30, si))
            o = go(builds["plain"], sub, m.text(), args, env, name)
            if set(o) != set(ref):
                raise Fail("files %s, with %s %s" % (sorted(ref), name, sorted(o)))
            for k in ref:
                if o[k] != ref[k]:
                    x, y = ref[k].split(b"\n"), o[k].split(b"\n")
                    df = next(((p, q) for p, q in zip(x, y) if p != q), None)
                    raise Fail("seed %s: %s differs in environment '%s': %s" % (seed, k, name, df))
                res.states += 1
            res.transitions += 1
            res.traces += 1
    if any(o != outs[0] for o in outs):
        res.note("output depends on the seed")
    res.key(sorted(outs[0].items()))


BAD = ["", "1", "1:2", "a:b:c", "1:2:x", ":", "::", "1::3", ":2:3", "1,2,3", "1 2 3"]


@C.family("incomplete seeds are refused", lambda tier: ({"s": s} for s in BAD))
def f_bad(c, res, builds, d):
    m = F.model_n(3, 2, 2, 2, 0.9)
    open(os.path.join(d, "m.POMDP"), "w").write(m.text())
    p = run([builds["plain"].solve, "-pomdp", "m.POMDP", "-o", "o", "-horizon", "2", "-rand_seed", c["s"]], d)
    res.states += 1
    if c["s"] == "":
        return      # the default: seeded from the clock
    if p.rc == 0 or os.path.exists(os.path.join(d, "o.alpha")):
        raise Fail("seed %r was accepted: the stream would depend on memory contents" % c["s"])
