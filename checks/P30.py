import errno, itertools, os, re
import families as F
import P09
from vt import Check, Fail, run

C = Check("P30", "model_checking",
          "exhaustive enumeration of unusable invocations of the three programs (all proper subsets of each tool's required options; the complete product of the states of each tool's input files; all single and double faults of a solver run) over a directory that already holds results, and of all failures of every operation on a result file",
          "a case is one invocation with one set of faults; after it the directory must be byte for byte as before, a message must have been written and the status must be a failure; for result files a case is one run with one failing operation (ptrace); distinct = different (program, faults, status)",
          ["the report file given with -stdout belongs to the failing run too and is not looked at",
           "a result file that cannot be written completely may be damaged: it must be reported"])
C.harnesses["ptrun"] = (("harness/ptrun.c",), ())

MODEL = F.model_n(2100, 2, 2, 2, 0.9).text()
ALPHA = "0\n1.0 0.0\n\n1\n0.0 1.0\n\n"
GOOD = {"m.POMDP": MODEL, "a.alpha": ALPHA, "b.alpha": "1\n0.5 0.25\n\n", "b.bel": "0.5 0.5\n0.25 0.75\n", "g.pg": "0 0 0 1\n1 1 1 0\n"}
OLD = {n: "results of another run %s\n" % n for n in ("res", "out.alpha", "out.pg", "out.alpha1", "out.pg1", "out.alpha2", "out.belief", "out", "stdin", ".alpha", ".pg", "m.alpha", "m.pg", "m-0.alpha")}
TOOLS = {"map_beliefs": ["states", "alpha1", "belief", "o"], "sort_alphas": ["states", "alpha1", "o"], "purge_alphas": ["states", "alpha1", "o"],
         "compare_alphas": ["states", "alpha1", "alpha2", "o"], "belief_alpha_compare": ["states", "alpha1", "alpha2", "belief", "o"],
         "pg_relink": ["pomdp", "alpha1", "alpha2", "pg1", "o"], "pg_eval": ["pomdp", "pg1"], "pg_isomorphism": ["obs", "pg1", "pg2"], "update_beliefs": ["pomdp"]}
VALUE = {"states": "2", "obs": "2", "alpha1": "a.alpha", "alpha2": "b.alpha", "belief": "b.bel", "pomdp": "m.POMDP", "pg1": "g.pg", "pg2": "g.pg", "o": "res"}


def wr(d, n, t):
    with open(os.path.join(d, n), "w") as f:
        f.write(t)


def stock(d):
    for n, t in list(GOOD.items()) + list(OLD.items()):
        wr(d, n, t)


def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = b""
    return out


def refused(prog, args, d, what, res, stdin=None):
    before = snap(d)
    p = run([prog] + args, d, stdin=stdin)
    after = snap(d)
    if p.timeout or p.rc < 0:
        raise Fail("%s: no answer or death (%s)" % (what, p.rc))
    if p.rc == 0:
        raise Fail("%s: succeeded: %s" % (what, p.text[-200:]))
    new = sorted(set(after) - set(before))
    gone = sorted(set(before) - set(after))
    changed = sorted(k for k in before if k in after and before[k] != after[k])
    if new or gone or changed:
        raise Fail("%s: refused (status %s), but new files %s, removed %s, changed %s" % (what, p.rc, new, gone, changed))
    if not re.search(r"[A-Za-z]{3}", re.sub(r"(?s)- - - - .*- - - -|//\*\*.*?\*\*//|\s\S+ = \S*", "", p.err + p.out)):
        raise Fail("%s: refused without a message" % what)
    res.states += 1
    res.transitions += 1
    res.traces += 1
    return p


def give(pairs, route, d):
    if route == "cli":
        return [x for k, v in pairs for x in ("-" + k, v)]
    wr(d, "c.cfg", "".join("%s = %s\n" % kv for kv in pairs))
    return ["-f", "c.cfg"]


# ---------------------------------------------------------------- the tools
def subset_cases(tier):
    for t, req in TOOLS.items():
        for n in range(len(req)):
            for sub in itertools.combinations(req, n):
                if n == len(req) - 1 and "o" in req and "o" not in sub:
                    continue            # the result file has a default name
                for r in ("cli", "cfg"):
                    for tool in ("first", "last"):
                        yield {"t": t, "sub": list(sub), "r": r, "tool": tool}
    for r in ("cli", "cfg"):
        yield {"t": "none", "sub": [], "r": r, "tool": "first"}
        yield {"t": "pg_isomorphism", "sub": TOOLS["pg_isomorphism"], "r": r, "tool": "first"}
        for t, req in TOOLS.items():
            for o in ("states", "obs"):
                if o in req:
                    for v in ("0", "-1", "two", ""):
                        yield {"t": t, "sub": req, "r": r, "tool": "first", "set": [o, v]}


@C.family("incomplete tool arguments", subset_cases)
def f_sub(c, res, builds, d):
    b = builds["plain"]
    stock(d)
    v = dict(VALUE, **dict([c["set"]] if "set" in c else []))
    pairs = [(o, v[o]) for o in c["sub"]]
    pairs = [("tool", c["t"])] + pairs if c["tool"] == "first" else pairs + [("tool", c["t"])]
    p = refused(b.tools, give(pairs, c["r"], d), d, "%s with only %s by %s" % (c["t"], c["sub"], c["r"]), res, stdin=b"0 0\n")
    res.key(c["t"], len(c["sub"]), p.rc)


BAD = {"alpha": {"missing": None, "directory": "/", "cut in a vector": "0\n1.0 0.0\n\n1\n0.0\n", "no vector": "0\n1.0 0.0\n\n1\n", "word": "0\n1.0 zero\n\n", "action": "a\n1.0 0.0\n\n"},
       "bel": {"missing": None, "directory": "/", "cut": "0.5 0.5\n0.25\n", "word": "0.5 half\n"},
       "pg": {"missing": None, "directory": "/", "cut": "0 0 0 1\n1 1 1\n", "word": "0 0 zero 1\n1 1 1 0\n"},
       "POMDP": {"missing": None, "directory": "/", "syntax": MODEL + "T T T\n", "sum": MODEL + "T: 0 : 0 : 0 0.5\nT: 0 : 0 : 1 0.25\n", "mdp": "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nT: * identity\nR: * : * : * 1\n", "empty": ""}}


def kind(o):
    return VALUE[o].split(".")[1] if "." in VALUE[o] else None


def input_cases(tier):
    for t, req in TOOLS.items():
        if t == "pg_isomorphism":
            continue
        files = [o for o in req if kind(o)]
        for st in itertools.product(*[["ok"] + list(BAD[kind(o)]) for o in files]):
            if any(s != "ok" for s in st):
                for out in ("old", "none"):
                    yield {"t": t, "files": files, "st": list(st), "out": out}


def spoil(d, name, how, k):
    t = BAD[k][how]
    p = os.path.join(d, name)
    if os.path.exists(p):
        os.unlink(p)
    if t == "/":
        os.mkdir(p)
    elif t is not None:
        wr(d, name, t)


@C.family("unusable tool inputs", input_cases)
def f_input(c, res, builds, d):
    b = builds["plain"]
    stock(d)
    if c["out"] == "none":
        os.unlink(os.path.join(d, "res"))
    args = ["-tool", c["t"]]
    for o in TOOLS[c["t"]]:
        args += ["-" + o, VALUE[o]]
    for o, s in zip(c["files"], c["st"]):
        if s != "ok":
            spoil(d, VALUE[o], s, kind(o))
    p = refused(b.tools, args, d, "%s with %s" % (c["t"], [x for x in zip(c["files"], c["st"]) if x[1] != "ok"]), res, stdin=b"0 0\n")
    res.key(c["t"], c["st"], p.rc)


def inplace_cases(tier):
    for t, req in TOOLS.items():
        for o in req:
            if "o" in req and kind(o):
                for s in BAD[kind(o)]:
                    for inp in req:
                        if kind(inp) and inp != o:
                            yield {"t": t, "bad": o, "st": s, "over": inp}
                    if s not in ("missing", "directory"):
                        yield {"t": t, "bad": o, "st": s, "over": o}


@C.family("the result would replace an input", inplace_cases)
def f_inplace(c, res, builds, d):
    """one input is unusable and the result is to replace an input: the input survives"""
    b = builds["plain"]
    stock(d)
    v = dict(VALUE, o=VALUE[c["over"]])
    spoil(d, VALUE[c["bad"]], c["st"], kind(c["bad"]))
    args = ["-tool", c["t"]]
    for o in TOOLS[c["t"]]:
        args += ["-" + o, v[o]]
    p = refused(b.tools, args, d, "%s with %s %s and the result over %s" % (c["t"], c["bad"], c["st"], c["over"]), res)
    res.key(c["t"], c["bad"], c["st"], c["over"], p.rc)


def mismatch_cases(tier):
    for na, npg, nobs in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        if na != npg or nobs != 2:
            yield [na, npg, nobs]


@C.family("graphs and vectors that do not belong together", mismatch_cases)
def f_mismatch(c, res, builds, d):
    na, npg, nobs = c
    b = builds["plain"]
    stock(d)
    wr(d, "a.alpha", "".join("0\n%d.0 %d.0\n\n" % (i, 3 - i) for i in range(na)))
    wr(d, "g.pg", "".join("%d 0  %s\n" % (i, " ".join("0" for _ in range(nobs))) for i in range(npg)))
    p = refused(b.tools, ["-tool", "pg_relink", "-o", "res", "-pomdp", "m.POMDP", "-alpha1", "a.alpha", "-alpha2", "b.alpha", "-pg1", "g.pg"], d,
                "pg_relink with %d vectors, %d nodes, %d observations" % (na, npg, nobs), res)
    res.key(c, p.rc)


# ---------------------------------------------------------------- the solver and pomdp-fg
S_FAULTS = [("pomdp", "nothere.POMDP"), ("pomdp", "."), ("pomdp", "syntax.POMDP"), ("pomdp", "sum.POMDP"), ("pomdp", "mdp.POMDP"), ("pomdp", "empty.POMDP"), ("pomdp", "a.alpha"),
            ("method", "linsup"), ("method", "best"), ("horizon", "-1"), ("horizon", "x"), ("discount", "1.5"), ("rand_seed", "1:2"), ("epsilon", "small"),
            ("save_all", "maybe"), ("q_purge", ""), ("o", "p" * 1100), ("no_such_option", "1"), ("f", "nothere.cfg"), ("f", "bad.cfg"), ("time_limit", "-1")]
S_BASE = [[("save_all", "true")], [("method", "grid"), ("fg_save", "true"), ("fg_points", "4")], [("method", "enum"), ("save_penultimate", "true")], [("vi_variation", "adjustable_epsilon"), ("start_epsilon", "0.1"), ("end_epsilon", "0.001"), ("epsilon_adjust", "0.1"), ("history_length", "1")]]


def solve_cases(tier):
    n = len(S_FAULTS)
    for bi in range(len(S_BASE)):
        for r in ("cli", "cfg"):
            for i in range(n):
                yield {"f": [i], "b": bi, "r": r}
    for i, j in itertools.combinations(range(n), 2):
        if S_FAULTS[i][0] != S_FAULTS[j][0]:
            for bi in range(len(S_BASE)) if tier != "quick" else [(i + j) % len(S_BASE)]:
                for r in ("cli", "cfg"):
                    yield {"f": [i, j], "b": bi, "r": r}


def spoiled(d):
    for s in ("syntax", "sum", "mdp", "empty"):
        wr(d, s + ".POMDP", BAD["POMDP"][s])
    wr(d, "cut.alpha", BAD["alpha"]["cut in a vector"])
    wr(d, "word.alpha", BAD["alpha"]["word"])
    wr(d, "bad.cfg", "horizon 2\n")


def combine(base, faults):
    pairs = list(base)
    for i in faults:
        pairs = [kv for kv in pairs if kv[0] != i[0]]
    return pairs + list(faults)


@C.family("faults of a solver run", solve_cases)
def f_solve(c, res, builds, d):
    b = builds["plain"]
    stock(d)
    spoiled(d)
    fs = [S_FAULTS[i] for i in c["f"]]
    pairs = combine([("pomdp", "m.POMDP"), ("o", "out"), ("horizon", "2")] + S_BASE[c["b"]], fs)
    cfgf = [kv for kv in pairs if kv[0] == "f"]
    if c["r"] == "cfg" and not cfgf:
        args = give(pairs, "cfg", d)
    else:
        args = give(pairs, "cli", d)
    p = refused(b.solve, args, d, "pomdp-solve with %s by %s" % ([(k, v[:20]) for k, v in fs], c["r"]), res)
    if "** Finished" in p.out:
        raise Fail("solved all the same")
    res.key("solve", c["f"], p.rc)


@C.family("unusable terminal values", lambda tier: ({"st": s, "r": r, "b": b} for s in list(BAD["alpha"]) + ["model"] for r in ("cli", "cfg") for b in range(len(S_BASE))))
def f_terminal(c, res, builds, d):
    """a warning, and the result is that of the default start"""
    b = builds["plain"]
    outs = []
    for term in (False, True):
        for f in os.listdir(d):
            if not os.path.isdir(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
        wr(d, "m.POMDP", MODEL)
        if term:
            wr(d, "t.alpha", MODEL)
            if c["st"] != "model":
                spoil(d, "t.alpha", c["st"], "alpha")
        pairs = [("pomdp", "m.POMDP"), ("o", "out"), ("horizon", "2")] + S_BASE[c["b"]] + ([("terminal_values", "t.alpha")] if term else [])
        before = snap(d)
        p = run([b.solve] + give(pairs, c["r"], d), d)
        after = snap(d)
        after.pop("c.cfg", None)
        if p.rc != 0 or "out.alpha" not in after:
            raise Fail("terminal values %s: status %s" % (c["st"], p.rc))
        outs.append({k: v for k, v in after.items() if before.get(k) != v})
        warned = "(Using default)" in p.err + p.out
        if warned != term:
            raise Fail("terminal values %s: warning %s" % (c["st"] if term else "none", warned))
    if outs[0] != outs[1]:
        raise Fail("unusable terminal values (%s) change the result" % c["st"])
    res.states += 2
    res.transitions += 2
    res.traces += 2
    res.key("terminal", c["st"], c["b"], sorted(outs[0]))


FG_FAULTS = [("grid_type", "best"),
             ("horizon", "-1"), ("horizon", "x"), ("max_grid_points", "0"), ("no_such_option", "1"), ("f", "nothere.cfg"), ("f", "bad.cfg"), ("save_all", "maybe")]


def fg_cases(tier):
    for k in (1, 2):
        for f in itertools.combinations(range(len(FG_FAULTS)), k):
            if k == 1 or FG_FAULTS[f[0]][0] != FG_FAULTS[f[1]][0]:
                for r in ("cli", "cfg"):
                    yield {"f": list(f), "r": r}


@C.family("faults of a pomdp-fg run", fg_cases)
def f_fg(c, res, builds, d):
    b = builds["plain"]
    stock(d)
    spoiled(d)
    fs = [FG_FAULTS[i] for i in c["f"]]
    pairs = combine([("pomdp", "m.POMDP"), ("o", "out")], fs)
    args = give(pairs, "cfg" if c["r"] == "cfg" and not [1 for k, _ in pairs if k == "f"] else "cli", d)
    p = refused(b.fg, args, d, "pomdp-fg with %s by %s" % (fs, c["r"]), res)
    res.key("fg", c["f"], p.rc)


# ---------------------------------------------------------------- results that cannot be written
def out_cases(tier):
    for t, req in TOOLS.items():
        if "o" in req:
            for n in (2, 40) if tier == "quick" else (1, 2, 3, 40, 90):
                yield {"t": t, "n": n}


@C.family("tool results that cannot be written", out_cases)
def f_out(c, res, builds, d):
    b = builds["plain"]
    stock(d)
    n = c["n"]
    wr(d, "a.alpha", "".join("%d\n%.6f %.6f\n\n" % (i % 2, 1 + i / n, 1 + (n - i) ** 2 / n ** 2) for i in range(n)))
    wr(d, "g.pg", "".join("%d %d  %d %d\n" % (i, i % 2, (i * 7) % n, (i * 3) % n) for i in range(n)))
    wr(d, "b.alpha", "".join("%d\n%.6f %.6f\n\n" % (i % 2, 1.1 + i / n, 1 + (n - i) ** 2 / n ** 2) for i in range(n)))
    wr(d, "b.bel", "".join("%.6f %.6f\n" % (i / n, 1 - i / n) for i in range(n)))
    cmd = [b.tools, "-tool", c["t"]]
    for o in TOOLS[c["t"]]:
        cmd += ["-" + o, os.path.join(d, VALUE[o]) if kind(o) else "out" if o == "o" else VALUE[o]]
    w = P09.fresh(d)
    st = P09.ptrun(b, w, "log", cmd)
    if st["status"] != 0 or not os.path.exists(os.path.join(w, "out")):
        raise Fail("%s failed: %#x %r" % (c["t"], st["status"], P09.rd(os.path.join(w, "stderr"))[-300:]))
    good, err = P09.rd(os.path.join(w, "out")), P09.rd(os.path.join(w, "stderr"))
    faults = 0
    for op in st["ops"]:
        for e in P09.ERR[op["kind"]]:
            w = P09.fresh(d)
            s2 = P09.ptrun(b, w, "fail:%d:%d" % (op["i"], e), cmd)
            ok = os.path.exists(os.path.join(w, "out")) and P09.rd(os.path.join(w, "out")) == good
            if s2["status"] & 0x7f:
                raise Fail("%s with %s at %s: killed, %#x" % (c["t"], errno.errorcode[e], op["kind"], s2["status"]))
            if op["path"] == "out" and op["kind"] in ("trunc", "write", "close"):
                faults += 1
                if s2["status"] == 0 or P09.rd(os.path.join(w, "stderr")) == err:
                    raise Fail("%s: %s at %s of the result file is not reported (status %#x)" % (c["t"], errno.errorcode[e], op["kind"], s2["status"]))
            res.states += 1
            res.transitions += 1
            res.key(c["t"], n, op["kind"], e, ok)
    if not faults:
        raise Fail("INTERNAL: no operation on the result file was seen")
    res.traces += len(st["ops"])


GRID = ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "40", "-fg_save", "true", "-horizon", "2"]


def sol_cases(tier):
    cs = [(m, v, o) for m, v, o in P09.CONFIGS] + [(("n", 3, (2, 2, 2), 0.9), "reward", GRID)]
    for m, v, o in cs:
        if tier == "quick" and m[0] == "big" and "-save_all" in o:
            continue
        yield {"m": m, "v": v, "opts": o}


@C.family("solutions that cannot be written", sol_cases)
def f_sol(c, res, builds, d):
    b = builds["plain"]
    ref = P09.Ref(c, b, d)
    faults = 0
    for op in ref.ops:
        own = not op["path"].startswith("##")
        for e in P09.ERR[op["kind"]]:
            w = P09.fresh(d)
            st = P09.ptrun(b, w, "fail:%d:%d" % (op["i"], e), ref.cmd)
            what = "%s at %s of %s" % (errno.errorcode[e], op["kind"], op["path"] if own else "the recovery file")
            if st["status"] & 0x7f:
                raise Fail("%s: killed, %#x" % (what, st["status"]))
            bad = [f for f in ref.files if not os.path.exists(os.path.join(w, f)) or P09.rd(os.path.join(w, f)) != ref.files[f]]
            if bad and not own:
                raise Fail("%s: %s not written" % (what, bad))
            if own and op["path"] in ref.files and op["kind"] in ("trunc", "open", "write", "close"):
                faults += 1
                if st["status"] == 0 or P09.rd(os.path.join(w, "stderr")) == ref.err:
                    raise Fail("%s is not reported (status %#x)" % (what, st["status"]))
                if set(bad) - {op["path"]}:
                    raise Fail("%s: also %s not written" % (what, bad))
            elif bad and st["status"] == 0:
                raise Fail("%s: %s not written and the run reports success" % (what, bad))
            elif st["status"] and not bad:
                raise Fail("%s: everything is written, but the run ends with %#x" % (what, st["status"]))
            res.states += 1
            res.transitions += 1
            res.key(c["m"], c["opts"], op["kind"], own, st["status"], len(bad))
    if faults < 4:
        raise Fail("INTERNAL: too few operations on result files were seen")
    res.traces += len(ref.ops)


# ---------------------------------------------------------------- inputs that fail while they are read
def big(n):
    """inputs of several buffers"""
    m = F.model_n(2100, 2, 2, 2, 0.9).text()
    al = "".join("%d\n%.12f %.12f\n\n" % (i % 2, 1 + i / n, 1 + (n - i) ** 2 / n ** 2) for i in range(n))
    return {"m.POMDP": m + "".join("# comment %d, which makes the file longer than the buffer of the scanner\n" % i for i in range(4 * n)) + "R: 0 : 0 : 0 : 0 0.5\n",
            "a.alpha": al, "b.alpha": al.replace("1.0", "1.1"), "b.bel": "".join("%.12f %.12f\n" % (i / n, 1 - i / n) for i in range(2 * n // 2)),
            # records of 16 bytes: what was read before a failing read is well formed by itself
            "g.pg": "".join(("%d %d  %d %d" % (i, i % 2, i, i)).ljust(15) + "\n" for i in range(n)),
            "c.cfg": conf("pomdp = m.POMDP\no = res\n", n, "horizon = 1\n"), "f.cfg": conf("pomdp = m.POMDP\no = res\n", n, "horizon = 1\n"),
            "t.cfg": conf("tool = compare_alphas\nstates = 2\nalpha1 = a.alpha\nalpha2 = b.alpha\no = res\n", n, "epsilon = 0.5\n")}


def conf(first, n, last):
    return first + "".join(("# comment %d" % i).ljust(31) + "\n" for i in range(4 * n)) + last


def read_cases(tier):
    for n in (320,) if tier == "quick" else (1, 60, 320, 700):
        for w in [t for t in TOOLS if t not in ("pg_isomorphism",)] + ["solve", "solve-cfg", "solve-terminal", "fg-cfg", "tools-cfg"]:
            yield {"w": w, "n": n}


@C.family("inputs that cannot be opened or read", read_cases)
def f_read(c, res, builds, d):
    b = builds["plain"]
    what = c["w"]
    files = big(c["n"])
    if what in TOOLS:
        cmd = [b.tools, "-tool", what] + [x for o in TOOLS[what] for x in ("-" + o, VALUE[o])]
    else:
        cmd = {"solve": [b.solve, "-pomdp", "m.POMDP", "-o", "res", "-horizon", "2"], "solve-cfg": [b.solve, "-f", "c.cfg", "-time_limit", "1000"],
               "solve-terminal": [b.solve, "-pomdp", "m.POMDP", "-o", "res", "-horizon", "1", "-terminal_values", "a.alpha"],
               "fg-cfg": [b.fg, "-f", "f.cfg"], "tools-cfg": [b.tools, "-f", "t.cfg"]}[what]

    def norm(x):
        return re.sub(rb"[-\d.]+ ?secs?\.?|\([-\d.]+ total\)|PID=\d+|##pomdp-solve-\d+##|(?m:^.*(time|RAND|[Ss]eed).*$)", b"", x)

    def one(actions):
        w = P09.fresh(d)
        for k, t in files.items():
            wr(w, k, t)
        for k in ("res", "res.alpha", "res.pg"):
            wr(w, k, "results of another run\n")
        before = snap(w)
        st = P09.ptrun(b, w, actions, cmd)
        after = snap(w)
        out, err = after.pop("stdout"), after.pop("stderr")
        if st["status"] & 0x7f:
            raise Fail("%s with %s: killed, %#x" % (what, actions, st["status"]))
        return st["status"] >> 8, norm(out), err, {k: v for k, v in after.items() if before.get(k) != v}, st["ops"]
    rc, out, err, new, ops = one("reads:0:0")
    if rc:
        raise Fail("%s failed: %s %r" % (what, rc, (err + out)[-300:]))
    kinds = [o["kind"] for o in ops]
    if kinds.count("read") < 2 * kinds.count("ropen"):
        raise Fail("INTERNAL: reads %s" % kinds)
    for o in ops:
        acts = [("fail", e) for e in ((errno.EACCES, errno.ENOENT, errno.EMFILE) if o["kind"] == "ropen" else (errno.EIO,))]
        if o["kind"] == "read":
            acts += [("short", k) for k in ((1, 2, 3, 5, 100) if what != "solve" else (1, 100))]
        for act, arg in acts:
            w_ = "%s with %s %s at operation %d (%s of %s)" % (what, act, arg if act == "short" else errno.errorcode[arg], o["i"], o["kind"], o["path"])
            rc2, out2, err2, new2, _ = one("reads:0:0+%s:%d:%d" % (act, o["i"], arg))
            same = (rc2, out2, err2, new2) == (rc, out, err, new)
            if act == "short":
                if not same:
                    raise Fail("%s: the outcome is different" % w_)
            elif not same:
                if what == "solve-terminal" and o["path"].endswith(".alpha") and rc2 == 0 and b"(Using default)" in err2 + out2:
                    pass            # said, and documented
                elif rc2 == 0:
                    raise Fail("%s: the outcome is different, but the status is 0: %r" % (w_, err2[-200:]))
                elif new2:
                    raise Fail("%s: refused, but %s changed" % (w_, sorted(new2)))
                elif not re.search(rb"[A-Za-z]{3}", err2) and not re.search(rb"[A-Za-z]{3}", out2.replace(out, b"")):
                    raise Fail("%s: refused without a message" % w_)
            res.states += 1
            res.transitions += 1
            res.key(what, c["n"], o["kind"], act, arg, rc2)
    res.traces += len(ops)
