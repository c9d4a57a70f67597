import errno, itertools, os, re, shutil
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail, run
import P08
from P08 import ptrun, rd

C = Check("P09", "model_checking",
          "exhaustive crash-point and fault enumeration of the real program under system-call control: death before every file operation, every torn write at record boundaries, every single failing operation and failing suffix, short writes, and fault-then-crash pairs; the files left behind are compared with the uninterrupted run's",
          "a case is (model, method, options, kind of fault, slice of the points); states = crash/fault points explored; distinct = different states of the files left behind",
          ["the process dies, the machine does not: what reached the kernel stays (no power loss model)",
           "file operations are the system calls on files below the working directory; writes are torn at 0, 1, half, all-but-one and after every newline"],
          variants=("plain",))
C.harnesses["ptrun"] = (("harness/ptrun.c",), ())
H = 3


def big(values, n=40):
    """40 states: each value function file takes several writes"""
    T = np.zeros((2, n, n)); Z = np.zeros((2, n, 2)); R = np.zeros((2, n))
    for a in range(2):
        for s in range(n):
            T[a, s, s] += .5
            T[a, s, (s + 1 + a) % n] += .5
            Z[a, s] = (.75, .25) if (s // 3 + a) % 2 else (.25, .75)
            R[a, s] = (s * 7 + a * 13) % 11 - 5
    return M.Model(T, Z, R, .9, [1.0 / n] * n, values)


CONFIGS = [     # (model, values, options)
    (("n", 10, (2, 2, 2), .9), "reward", ["-method", "incprune", "-horizon", "3", "-save_all", "true"]),
    (("n", 10, (2, 2, 2), .9), "reward", ["-method", "incprune", "-horizon", "3"]),
    (("n", 5, (3, 2, 2), .5), "cost", ["-method", "witness", "-horizon", "3", "-save_all", "true", "-save_penultimate", "true"]),
    (("n", 4, (2, 2, 2), .9), "reward", ["-method", "enum", "-horizon", "3"]),
    (("n", 6, (2, 2, 2), .3), "reward", ["-method", "incprune", "-stop_criteria", "bellman", "-stop_delta", "0.05"]),
    (("n", 10, (2, 2, 2), .9), "reward", ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "20", "-horizon", "3", "-fg_save", "true"]),
    (("big",), "reward", ["-method", "incprune", "-horizon", "3", "-save_all", "true"]),
    (("big",), "cost", ["-method", "twopass", "-horizon", "2"]),
    (("n", 10, (2, 2, 2), .5), "reward", ["-method", "incprune", "-vi_variation", "zlz", "-witness_points", "true", "-horizon", "3"]),
]


def text_of(c):
    m = c["m"]
    return big(c["v"]).text() if m[0] == "big" else F.model_n(m[1], *m[2], m[3], values=c["v"]).text()


class Ref:
    """solutions after each epoch of undisturbed runs"""

    def __init__(self, c, b, d):
        self.c, self.d, self.b = c, d, b
        self.model = os.path.join(d, "m.POMDP")
        with open(self.model, "w") as f:
            f.write(text_of(c))
        self.cmd = [b.solve, "-pomdp", self.model, "-rand_seed", "1:2:3", "-o", "o"] + c["opts"]
        r = os.path.join(d, "ref")
        os.makedirs(r)
        st = ptrun(b, r, "log", self.cmd)
        if st["status"] != 0:
            raise Fail("undisturbed run failed: %#x" % st["status"])
        self.ops = st["ops"]
        self.files = {f: rd(os.path.join(r, f)) for f in P08.files(r)}
        self.err = rd(os.path.join(r, "stderr"))
        self.K = len(P08.epochs(open(os.path.join(r, "stdout")).read()))
        for f in self.files:
            if f.startswith("##"):
                raise Fail("the undisturbed run leaves %s behind" % f)
        if "o.alpha" not in self.files or "o.pg" not in self.files:
            raise Fail("the undisturbed run wrote %s" % sorted(self.files))
        self.sol = {}
        q = os.path.join(d, "all")
        os.makedirs(q)
        zlz = "zlz" in c["opts"]
        if not zlz:
            o = [x for x in c["opts"] if x not in ("-save_all",)]
            o = []
            it = iter(c["opts"])
            for x in it:
                if x == "-save_all":
                    next(it)
                else:
                    o.append(x)
            p = run([b.solve, "-pomdp", self.model, "-rand_seed", "1:2:3", "-o", "o", "-save_all", "true"] + o, q)
            for k in range(1, self.K + 1):
                self.sol[k] = rd(os.path.join(q, "o.alpha%d" % k))
        else:
            for k in range(1, self.K + 1):
                o = list(c["opts"])
                o[o.index("-horizon") + 1] = str(k)
                run([b.solve, "-pomdp", self.model, "-rand_seed", "1:2:3", "-o", "o"] + o, q)
                self.sol[k] = rd(os.path.join(q, "o.alpha"))
        # the recovery file holds the solver's own values: check that it does resume (done in f_resume)

    def epoch_of(self, data):
        for k in sorted(self.sol, reverse=True):
            if self.sol[k] == data:
                return k
        return None


def look(ref, w):
    """(epoch of the recovery file or 0, other facts) - raises if the recovery file is not whole"""
    fs = P08.files(w)
    rec = [f for f in fs if re.match(r"##pomdp-solve-\d+##$", f)]
    if len(rec) > 1:
        raise Fail("%d recovery files" % len(rec))
    e = 0
    if rec:
        data = rd(os.path.join(w, rec[0]))
        e = ref.epoch_of(data)
        if e is None:
            raise Fail("the recovery file is not a whole solution of any epoch: %d bytes (whole ones have %s)" % (
                len(data), sorted({len(x) for x in ref.sol.values()})))
    return e, fs, rec


def judge_crash(ref, w, what, state):
    """files left by a process that died; state carries what must not get lost"""
    try:
        e, fs, rec = look(ref, w)
    except Fail as x:
        raise Fail("%s: %s" % (what, x))
    whole = {f: rd(os.path.join(w, f)) == ref.files[f] for f in fs if f in ref.files}
    saved = [int(f[7:]) for f in fs if re.match(r"o\.alpha\d+$", f)]
    E = max(saved) if saved else 0
    for k in range(1, E):
        for f in ("o.alpha%d" % k, "o.pg%d" % k):
            if f in ref.files and not whole.get(f):
                raise Fail("%s: %s, written in an earlier epoch, is %s" % (what, f, "damaged" if f in fs else "missing"))
    done = whole.get("o.alpha") and whole.get("o.pg")
    if not rec:
        for f in ("o.alpha", "o.pg"):
            if f in fs and not whole[f]:
                raise Fail("%s: %s is incomplete and there is no recovery file" % (what, f))
        if not done:
            if E >= 2 or state.get("e", 0) >= 1 or "o.alpha" in fs or "o.pg" in fs:
                raise Fail("%s: neither a recovery file nor the whole solution (files %s)" % (what, fs))
    else:
        if e < E - 1:
            raise Fail("%s: the recovery file has epoch %d, epoch %d was already over" % (what, e, E - 1))
        if e < state.get("e", 0):
            raise Fail("%s: the recovery file has epoch %d, an earlier crash would have left epoch %d" % (what, e, state["e"]))
        state["e"] = e
        if ("o.alpha" in fs or "o.pg" in fs) and e != ref.K:
            raise Fail("%s: the solution is being written, the recovery file has epoch %d of %d" % (what, e, ref.K))
    return (e, E, tuple(sorted((f, bool(x)) for f, x in whole.items() if f in ("o.alpha", "o.pg"))), bool(rec))


def fresh(d):
    w = os.path.join(d, "w")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    return w


def tears(op, tier):
    n = op["bytes"]
    cut = {0, 1, n // 2, n - 1} | {x for x in op["lines"] if x < n}
    if tier != "quick":
        cut |= {x - 1 for x in op["lines"]} | {x + 1 for x in op["lines"]} | set(range(0, n, max(1, n // 40)))
    return sorted(x for x in cut if 0 <= x < n)


def crash_cases(tier):
    for i, (m, v, o) in enumerate(CONFIGS):
        k = 12 if m[0] == "big" else 3
        for s in range(k):
            yield {"m": m, "v": v, "opts": o, "tier": tier, "slice": s, "of": k}


@C.family("death before every operation and in every write", crash_cases)
def f_crash(c, res, builds, d):
    b = builds["plain"]
    ref = Ref(c, b, d)
    pts = []
    for op in ref.ops:
        pts.append(("kill", op, 0))
        if op["kind"] == "write":
            pts += [("tear", op, t) for t in tears(op, c["tier"])]
    state, got = {}, set()
    pts = pts[c["slice"]::c["of"]]
    for act, op, arg in pts:
        w = fresh(d)
        st = ptrun(b, w, "%s:%d:%d" % (act, op["i"], arg), ref.cmd)
        if st["status"] != 9:
            raise RuntimeError("did not die at the chosen point: %r" % st)
        name = re.sub(r"\d+##", "PID##", op["path"])
        r = judge_crash(ref, w, "death %s operation %d (%s %s%s)" % ("before" if act == "kill" else "in", op["i"], op["kind"], name,
                                                               " after %d of %d bytes" % (arg, op["bytes"]) if act == "tear" else ""), state)
        got.add(r)
        res.states += 1
        res.transitions += 1
        res.key(c["m"], c["v"], c["opts"], r)
    if state.get("e") != ref.K and c["of"] < len(ref.ops) // 6:
        raise Fail("no crash point leaves a recovery file of the last epoch (best: %s of %d)" % (state.get("e"), ref.K))
    res.traces += len(pts)
    res.sample = {"options": c["opts"], "operations": len(ref.ops), "crash points": len(pts), "distinct states left": len(got)}


ERR = {"trunc": (errno.EACCES, errno.ENOSPC, errno.EMFILE), "open": (errno.EACCES, errno.ENOSPC), "write": (errno.ENOSPC, errno.EIO),
       "close": (errno.EIO, errno.ENOSPC), "rename": (errno.EACCES, errno.EIO), "unlink": (errno.EACCES,), "truncate": (errno.EIO,), "sync": (errno.EIO,)}


def judge_fault(ref, w, st, what, single, unlinkfault):
    if st["status"] & 0x7f or (st["status"] >> 8) not in (0, 1, 255):
        raise Fail("%s: ended with wait status %#x" % (what, st["status"]))
    try:
        e, fs, rec = look(ref, w)
    except Fail as x:
        raise Fail("%s: %s" % (what, x))
    bad = [f for f in ref.files if f not in fs or rd(os.path.join(w, f)) != ref.files[f]]
    err = rd(os.path.join(w, "stderr"))
    said = err != ref.err or st["status"] != 0
    if bad and not said:
        raise Fail("%s: %s not written or incomplete, and nothing is reported" % (what, bad))
    if st["status"] == 0 and ("o.alpha" in bad) and single and e != ref.K:
        raise Fail("%s: the solution file is not whole and the recovery file has epoch %s of %d" % (what, e or "(none)", ref.K))
    over = set(fs) - set(ref.files) - (set(rec) if said else set())       # what is whole may stay after a reported error
    if single and not unlinkfault and over:
        raise Fail("%s: left %s behind" % (what, sorted(over)))
    return (tuple(bad), e, said)


def fault_cases(tier):
    for i, (m, v, o) in enumerate(CONFIGS):
        for act in ("fail", "failfrom", "short"):
            yield {"m": m, "v": v, "opts": o, "act": act, "tier": tier}


@C.family("failing and short operations", fault_cases)
def f_fault(c, res, builds, d):
    b = builds["plain"]
    ref = Ref(c, b, d)
    n = 0
    for op in ref.ops:
        if c["act"] == "short":
            args = [x for x in (1, op["bytes"] // 2, op["bytes"] - 1) if 0 < x < op["bytes"]] if op["kind"] == "write" else []
        elif c["act"] == "failfrom":
            args = [errno.ENOSPC] + ([errno.EACCES] if op["kind"] == "trunc" else [])
        else:
            args = ERR[op["kind"]]
        for arg in args:
            w = fresh(d)
            st = ptrun(b, w, "%s:%d:%d" % (c["act"], op["i"], arg), ref.cmd)
            what = "%s at operation %d (%s %s)" % ({"short": "short write of %d bytes" % arg}.get(c["act"], "%s %s" % (
                "error" if c["act"] == "fail" else "errors from here on,", errno.errorcode.get(arg))), op["i"], op["kind"], re.sub(r"\d+##", "PID##", op["path"]))
            if c["act"] == "short":
                e, fs, rec = look(ref, w)
                bad = [f for f in ref.files if f not in fs or rd(os.path.join(w, f)) != ref.files[f]]
                if bad or rec or st["status"] or rd(os.path.join(w, "stderr")) != ref.err:
                    raise Fail("%s: status %#x, different files %s" % (what, st["status"], bad))
                r = ()
            else:
                r = judge_fault(ref, w, st, what, c["act"] == "fail", op["kind"] == "unlink")
            n += 1
            res.key(c["m"], c["v"], c["opts"], c["act"], r)
    res.states += n
    res.transitions += n
    res.traces += n


def pair_cases(tier):
    for i, (m, v, o) in enumerate(CONFIGS):
        if tier == "quick" and i not in (0, 1, 2):
            continue
        k = 4 if tier == "quick" else 8
        for s in range(k):
            yield {"m": m, "v": v, "opts": o, "slice": s, "of": k, "tier": tier}


@C.family("a failing operation, then death", pair_cases)
def f_pair(c, res, builds, d):
    """an operation on the recovery file fails, later the process dies: an older whole recovery file is fine, a damaged one is not"""
    b = builds["plain"]
    ref = Ref(c, b, d)
    n = 0
    idx = [op for op in ref.ops if op["kind"] in ("trunc", "write", "close", "rename") and (op["path"].startswith("##") or c["tier"] != "quick")]
    for op in idx[c["slice"]::c["of"]]:
        best = 0
        for j in range(op["i"] + 1, len(ref.ops) + 4):
            w = fresh(d)
            st = ptrun(b, w, "fail:%d:%d+kill:%d:0" % (op["i"], errno.ENOSPC, j), ref.cmd)
            if st["status"] != 9:
                break
            what = "operation %d (%s %s) fails, death before operation %d" % (op["i"], op["kind"], re.sub(r"\d+##", "PID##", op["path"]), j)
            try:
                e, fs, rec = look(ref, w)
            except Fail as x:
                raise Fail("%s: %s" % (what, x))
            done = all(f in fs and rd(os.path.join(w, f)) == ref.files[f] for f in ("o.alpha",))
            if e < best and not done:
                raise Fail("%s: the recovery file has epoch %d, earlier it had %d" % (what, e, best))
            best = max(best, e)
            n += 1
            res.key(c["m"], c["opts"], op["i"], e, done)
    res.states += n
    res.transitions += 2 * n
    res.traces += n


def resume_cases(tier):
    for i, (m, v, o) in enumerate(CONFIGS):
        if "-horizon" in o and "zlz" not in o and "grid" not in o:
            yield {"m": m, "v": v, "opts": o}


@C.family("resuming from the recovery file", resume_cases)
def f_resume(c, res, builds, d):
    b = builds["plain"]
    ref = Ref(c, b, d)
    seen = set()
    for op in ref.ops:
        w = fresh(d)
        ptrun(b, w, "kill:%d:0" % op["i"], ref.cmd)
        e, fs, rec = look(ref, w)
        if not e or e in seen or e >= ref.K:
            continue
        seen.add(e)
        o = list(c["opts"])
        o[o.index("-horizon") + 1] = str(ref.K - e)
        p = run([b.solve, "-pomdp", ref.model, "-rand_seed", "1:2:3", "-o", "z", "-terminal_values", rec[0]] + o, w)
        if p.rc != 0:
            raise Fail("resuming from the recovery file of epoch %d fails: %s" % (e, p.err[-300:]))
        A, B = M.read_alpha(os.path.join(w, "z.alpha")), M.read_alpha(os.path.join(d, "ref", "o.alpha"))
        x, y = S.vecs(A), S.vecs(B)
        bel = np.concatenate([M.test_beliefs(y, y.shape[1])[0] if y.shape[1] <= 4 else np.eye(y.shape[1]),
                              np.full((1, y.shape[1]), 1 / y.shape[1])])
        df = np.abs(M.surface(x, bel) - M.surface(y, bel)).max()
        if df > 1e-6 * max(1, np.abs(y).max()):
            raise Fail("resuming from the recovery file of epoch %d gives values off by %.3g" % (e, df))
        res.states += len(bel)
        res.transitions += 1
    if len(seen) != ref.K - 1:
        raise Fail("recovery files of epochs %s seen, there are %d epochs" % (sorted(seen), ref.K))
    res.traces += len(seen)
    res.key(c["m"], c["opts"], sorted(seen))


def tool_cases(tier):
    for t in ("sort", "purge", "relink"):
        for m in (("n", 10, (2, 2, 2), .9), ("n", 5, (3, 2, 2), .5)):
            yield {"t": t, "m": m, "v": "reward"}


@C.family("tool output that cannot be written", tool_cases)
def f_tool(c, res, builds, d):
    b = builds["plain"]
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(text_of(c))
    run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-horizon", "3", "-save_all", "true"], d)
    p = lambda n: os.path.join(d, n)
    cmd = [b.tools, "-o", "out"] + {"sort": ["-tool", "sort_alphas", "-alpha1", p("o.alpha3"), "-states", str(c["m"][2][0])],
                                    "purge": ["-tool", "purge_alphas", "-alpha1", p("o.alpha3"), "-states", str(c["m"][2][0])],
                                    "relink": ["-tool", "pg_relink", "-pomdp", p("m.POMDP"), "-alpha1", p("o.alpha3"), "-alpha2", p("o.alpha2"),
                                               "-pg1", p("o.pg3")]}[c["t"]]
    w = fresh(d)
    st = ptrun(b, w, "log", cmd)
    if st["status"] != 0 or not os.path.exists(os.path.join(w, "out")):
        raise Fail("%s failed: %#x %r" % (c["t"], st["status"], rd(os.path.join(w, "stderr"))[-300:]))
    good, err = rd(os.path.join(w, "out")), rd(os.path.join(w, "stderr"))
    for op in st["ops"]:
        for e in ERR[op["kind"]]:
            w = fresh(d)
            s2 = ptrun(b, w, "fail:%d:%d" % (op["i"], e), cmd)
            ok = os.path.exists(os.path.join(w, "out")) and rd(os.path.join(w, "out")) == good
            if s2["status"] & 0x7f:
                raise Fail("%s with %s at %s: killed, %#x" % (c["t"], errno.errorcode[e], op["kind"], s2["status"]))
            if op["path"] == "out" and op["kind"] in ("trunc", "write", "close") and s2["status"] == 0 and rd(os.path.join(w, "stderr")) == err and not (ok and op["kind"] == "close" and False):
                raise Fail("%s: %s at %s of the output file is not reported" % (c["t"], errno.errorcode[e], op["kind"]))
            res.states += 1
            res.transitions += 1
            res.key(c["t"], c["m"], op["kind"], e, ok)
    res.traces += len(st["ops"])
