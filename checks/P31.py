import os, re, struct, subprocess, tempfile
import families as F
import P09, P08
from vt import Check, Fail, run, BASE_ENV

C = Check("P31", "model_checking",
          "exhaustive fault exploration of the real programs: every memory allocation of a run fails, alone and together with all later ones (quick: the first and the last allocation of every distinct call stack), over all methods, variations and tools; what the run leaves behind is compared with the undisturbed run",
          "a state is one (run, failing allocation, single or lasting) execution; distinct = different outcomes (status, state of every result file)",
          ["a run that ends by a signal when memory is exhausted counts as failed", "the result file of a tool that failed may be incomplete", "glibc's allocator is replaced by one that fails on request (LD_PRELOAD); mapping of big blocks is not distinguished from small ones"])
C.harnesses["ptrun"] = (("harness/ptrun.c",), ())
C.harnesses["oom"] = (("harness/oom.c",), ("-shared", "-fPIC"))

N = lambda i, sh=(2, 2, 2), g=0.9: ("n", i, sh, g)
SOLVES = [
    (N(10), "reward", ["-method", "incprune", "-horizon", "2"]),
    (N(10), "reward", ["-method", "witness", "-horizon", "2", "-save_all", "true"]),
    (N(5, (3, 2, 2), .5), "cost", ["-method", "enum", "-horizon", "2", "-save_penultimate", "true"]),
    (N(10), "cost", ["-method", "twopass", "-horizon", "2", "-save_all", "true"]),
    (N(10), "reward", ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "20", "-horizon", "2", "-fg_save", "true"]),
    (N(10), "reward", ["-method", "grid", "-fg_type", "simplex", "-fg_points", "9", "-horizon", "2"]),
    (N(10), "reward", ["-method", "grid", "-fg_type", "search", "-fg_points", "9", "-horizon", "2"]),
    (N(10), "reward", ["-method", "incprune", "-inc_prune", "generalized", "-horizon", "2"]),
    (N(10), "reward", ["-method", "incprune", "-inc_prune", "restricted_region", "-horizon", "2", "-q_purge", "domonly"]),
    (N(10, (2, 2, 2), .5), "reward", ["-method", "incprune", "-vi_variation", "zlz", "-witness_points", "true", "-horizon", "2"]),
    (N(10), "reward", ["-method", "incprune", "-stop_criteria", "bellman", "-stop_delta", "0.5", "-horizon", "3", "-stat_summary", "true"]),
    (N(10), "reward", ["-method", "incprune", "-q_purge", "epsilon_prune", "-prune_epsilon", "0.01", "-horizon", "2"]),
    (N(10), "reward", ["-method", "incprune", "-alg_rand", "3", "-prune_rand", "3", "-horizon", "2"]),
    (N(6, (3, 3, 3)), "reward", ["-method", "incprune", "-horizon", "2"]),
]
KEPT = b"result of an earlier run\n"
OLD = ["o.alpha", "o.pg", "o.alpha1", "o.prev.alpha", "res"]
MORE = [(N(11 + i, sh), v, o) for i, sh in enumerate([(2, 3, 2), (3, 2, 3), (4, 2, 2)]) for v, o in
        [("reward", ["-method", "witness", "-horizon", "3"]), ("cost", ["-method", "enum", "-horizon", "2", "-save_all", "true"]), ("reward", ["-method", "incprune", "-inc_prune", "generalized", "-horizon", "3"]),
         ("reward", ["-method", "twopass", "-horizon", "2", "-dom_check", "false", "-proj_purge", "epsilon_prune"])]]


def fresh(d):
    w = P09.fresh(d)
    for f in OLD:
        with open(os.path.join(w, f), "wb") as fh:
            fh.write(KEPT)
    return w


def go(b, w, cmd, env=(), timeout=60):
    """(status, None when it did not end; stdout; stderr)"""
    e = dict(BASE_ENV, LD_PRELOAD=b.h_oom)
    e.update(env)
    p = run(cmd, w, env=e, timeout=timeout)
    return p


def stacks(b, w, cmd):
    """hash of the call stack of every allocation of the undisturbed run"""
    with tempfile.NamedTemporaryFile(dir=os.path.dirname(w)) as t:
        fd = os.open(t.name, os.O_RDWR)
        os.set_inheritable(fd, True)
        e = dict(BASE_ENV, LD_PRELOAD=b.h_oom, OOM_LOG=str(fd))
        subprocess.run(cmd, cwd=w, env=e, close_fds=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60)
        os.close(fd)
        data = open(t.name, "rb").read()
    return list(struct.unpack("<%dQ" % (len(data) // 8), data))


def points(hs, tier, s, of):
    if tier == "quick":
        a, z = {}, {}
        for i, h in enumerate(hs, 1):
            a.setdefault(h, i)
            z[h] = i
        ps = sorted(set(a.values()) | set(z.values()))
    else:
        ps = list(range(1, len(hs) + 1))
    return ps[s::of]


def contents(w):
    out = {}
    for f in os.listdir(w):
        if f not in ("stdout", "stderr", "log"):
            with open(os.path.join(w, f), "rb") as fh:
                out[f] = fh.read()
    return out


def judge(ref, whole, p, files, what):
    """ref: result files of the undisturbed run; whole: contents a recovery file may have"""
    if p.timeout:
        raise Fail("%s: does not end" % what)
    state = []
    for f, t in sorted(files.items()):
        if f.startswith("##"):
            if f.endswith("~"):
                continue        # never taken for the recovery file
            if t not in whole:
                raise Fail("%s: the recovery file (%d bytes) is not the solution of any epoch" % (what, len(t)))
            state.append("recovery")
        elif f in ref and t == ref[f]:
            state.append(f)
        elif f in OLD and t == KEPT:
            pass
        elif p.rc == 0:
            raise Fail("%s: the run reports success, but %s is %s" % (what, f, "wrong" if f in ref else "not a result"))
        elif f == "res":
            state.append("partial")
        else:
            raise Fail("%s: %s is left with a wrong or partial content (%d bytes) [%s]" % (what, f, len(t), p.rc), sig="partial %s" % f)
    for f in OLD:
        if f not in files:
            raise Fail("%s: %s of an earlier run is gone" % (what, f))
    if p.rc == 0:
        missing = sorted(f for f in ref if f not in state)
        if missing:
            raise Fail("%s: the run reports success, but %s was not written" % (what, missing))
        if "recovery" in state:
            raise Fail("%s: the run reports success and leaves a recovery file" % what)
    elif p.rc is None:
        raise Fail("%s: no exit status" % what)
    return p.rc == 0, p.rc < 0, tuple(state)


def solve_cases(tier):
    for i in range(len(SOLVES) + (len(MORE) if tier != "quick" else 0)):
        for mode in (0, 1):
            of = 4 if tier == "quick" else 24
            for s in range(of):
                yield {"i": i, "all": mode, "s": s, "of": of, "tier": tier}


def explore(b, d, cmd, c, ref, whole, name, res, out=None):
    w = fresh(d)
    hs = stacks(b, w, cmd)
    if len(hs) < 100 or len(set(hs)) < 20:
        raise Fail("INTERNAL: only %d allocations seen" % len(hs))
    n = died = 0
    for at in points(hs, c["tier"], c["s"], c["of"]):
        w = fresh(d)
        p = go(b, w, cmd, {"OOM_AT": str(at), "OOM_ALL": str(c["all"])})
        what = "%s, allocation %d of %d%s fails" % (name, at, len(hs), " and every later one" if c["all"] else "")
        r = judge(ref, whole, p, contents(w), what)
        if p.rc == 0 and out is not None and re.sub(r"PID=\d+", "", p.out) != re.sub(r"PID=\d+", "", out):
            raise Fail("%s: the run reports success, but prints something else: %s" % (what, p.out[-200:]))
        if p.rc > 0 and not re.search(r"[A-Za-z]{3}", p.err):
            raise Fail("%s: failed (%s) without a message" % (what, p.rc))
        n += 1
        died += p.rc != 0
        res.key(name, r)
    res.states += n
    res.transitions += n
    res.traces += n
    res.note("runs that failed", died)
    res.note("runs that got by", n - died)


@C.family("solver runs", solve_cases)
def f_solve(c, res, builds, d):
    b = builds["plain"]
    m, v, o = (SOLVES + MORE)[c["i"]]
    ref = P09.Ref({"m": m, "v": v, "opts": o}, b, d)
    explore(b, d, ref.cmd, c, ref.files, set(ref.sol.values()), "pomdp-solve %s" % " ".join(o), res)


ALPHA = "".join("%d\n%.6f %.6f\n\n" % (i % 2, 1 + i / 6, 1 + (6 - i) ** 2 / 36) for i in range(6))
BETA = "".join("%d\n%.6f %.6f\n\n" % (i % 2, 1.1 + i / 6, 1 + (6 - i) ** 2 / 36) for i in range(6))
FILES = {"m.POMDP": F.model_n(10, 2, 2, 2, .9).text(), "a.alpha": ALPHA, "b.alpha": BETA, "b.bel": "".join("%.6f %.6f\n" % (i / 6, 1 - i / 6) for i in range(7)),
         "g.pg": "".join("%d %d  %d %d\n" % (i, i % 2, (i * 5) % 6, (i * 3) % 6) for i in range(6)), "t.cfg": "states = 2\nepsilon = 0.25\n"}
TOOLS = {"map_beliefs": "states alpha1 belief o", "sort_alphas": "states alpha1 o", "purge_alphas": "states alpha1 o", "compare_alphas": "states alpha1 alpha2 o",
         "belief_alpha_compare": "states alpha1 alpha2 belief o", "pg_relink": "pomdp alpha1 alpha2 pg1 o", "pg_eval": "pomdp pg1", "update_beliefs": "pomdp"}
VALUE = {"states": "2", "alpha1": "a.alpha", "alpha2": "b.alpha", "belief": "b.bel", "pomdp": "m.POMDP", "pg1": "g.pg", "o": "res"}


def tool_cases(tier):
    for t in list(TOOLS) + ["pomdp-fg"]:
        for cfg in (0, 1):
            for mode in (0, 1):
                of = 2 if tier == "quick" else 16
                for s in range(of):
                    yield {"t": t, "cfg": cfg, "all": mode, "s": s, "of": of, "tier": tier}


@C.family("tools", tool_cases)
def f_tools(c, res, builds, d):
    b = builds["plain"]
    for f, t in FILES.items():
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t)
    full = lambda o: VALUE[o] if o in ("states", "o") else os.path.join(d, VALUE[o])
    if c["t"] == "pomdp-fg":
        cmd = [b.fg, "-pomdp", full("pomdp"), "-horizon", "3", "-o", "o"]
    else:
        cmd = [b.tools, "-tool", c["t"]]
        for o in TOOLS[c["t"]].split():
            cmd += ["-" + o, full(o)]
    if c["cfg"]:
        if c["t"] == "pomdp-fg":
            with open(os.path.join(d, "t.cfg"), "w") as fh:
                fh.write("rand_seed = 1:2:3\nhorizon = 7\n")
        cmd += ["-f", os.path.join(d, "t.cfg")]
    w = fresh(d)
    p = go(b, w, cmd)
    if p.rc != 0:
        raise Fail("%s failed undisturbed: %s" % (c["t"], p.text[-300:]))
    ref = {f: t for f, t in contents(w).items() if t != KEPT}
    explore(b, d, cmd, c, ref, (), c["t"] + (" with a configuration file" if c["cfg"] else ""), res, out=p.out)


# ---------------------------------------------------------------- what is refused stays refused
GOODM = FILES["m.POMDP"]
WRONG = {"row sum": (GOODM + "\nT: 0 : 0 : 0 0.0\nT: 0 : 0 : 1 0.25\n", []),
         "unknown state": (GOODM + "\nR: 0 : nowhere : * : * 1.0\n", []),
         "out of range": (GOODM + "\nT: 0 : 0 : 7 0.5\n", []),
         "syntax": (GOODM + "\nR: 0 : : 1.0\n", []),
         "two errors": (GOODM + "\nT: 9 : 0 : 0 0.5\nO: 0 : 8 : 0 0.5\n", []),
         "probability": (GOODM + "\nO: 0 : 0 : 0 1.5\n", []),
         "option value": (GOODM, ["-method", "best"]),
         "unknown option": (GOODM, ["-horizons", "3"]),
         "seed": (GOODM, ["-rand_seed", "1:2"]),
         "method not available": (GOODM, ["-method", "linsup"])}


def wrong_cases(tier):
    for k in WRONG:
        for mode in (0, 1):
            of = 2 if tier == "quick" else 16
            for s in range(of):
                yield {"k": k, "all": mode, "s": s, "of": of, "tier": tier}


@C.family("refused runs", wrong_cases)
def f_wrong(c, res, builds, d):
    b = builds["plain"]
    text, opts = WRONG[c["k"]]
    with open(os.path.join(d, "m.POMDP"), "w") as fh:
        fh.write(text)
    cmd = [b.solve, "-pomdp", os.path.join(d, "m.POMDP"), "-o", "o", "-horizon", "2"] + opts
    w = fresh(d)
    p = go(b, w, cmd)
    if p.rc == 0 or contents(w) != {f: KEPT for f in OLD}:
        raise Fail("%s: accepted or files changed undisturbed" % c["k"])
    w = fresh(d)
    hs = stacks(b, w, cmd)
    n = 0
    for at in points(hs, c["tier"], c["s"], c["of"]):
        w = fresh(d)
        p = go(b, w, cmd, {"OOM_AT": str(at), "OOM_ALL": str(c["all"])})
        what = "%s, allocation %d of %d%s fails" % (c["k"], at, len(hs), " and every later one" if c["all"] else "")
        if p.timeout or p.rc == 0:
            raise Fail("%s: %s" % (what, "does not end" if p.timeout else "the run succeeds"))
        if contents(w) != {f: KEPT for f in OLD}:
            raise Fail("%s: files changed by a refused run" % what)
        n += 1
        res.key(c["k"], p.rc)
    res.states += n
    res.transitions += n
    res.traces += n
