import os, re, resource, shutil, subprocess, time
import model as M, families as F, solve as S
from vt import Check, Fail, run, BASE_ENV
import P08, P09
from P08 import ptrun, rd

C = Check("P28", "model_checking",
          "stateless exploration of timer expiry on the real program: one forked run per expiry point (every executed basic block class, every system call), the run must stop at once with a message and leave only whole solutions; every method is also run against a real limit, and with a limit it does not reach",
          "a case is (model, method, options, slice of the expiry points) or (method, real limit); states = expiry points explored; distinct = different observable outcomes",
          ["timer expiry is delivered between two basic blocks of the project's own code or at a system call",
           "system-call level expiry may hit the C library in the middle of writing the report: text may then come out twice, so only files, status and message are judged there",
           "the limit is processor time in user mode (ITIMER_VIRTUAL), as the program documents"],
          variants=("plain", "steps", "stepsasan"))
C.harnesses["inject"] = P08.C.harnesses["inject"]
C.harnesses["ptrun"] = (("harness/ptrun.c",), ())
C.harness_variants = {"inject": ("steps", "stepsasan"), "ptrun": ("plain",)}
SIGVTALRM = 26
MSG = re.compile(r"Terminated due to SIGVTALRM signal after (-?[\d.]+|T) secs")
EARLY = 50            # blocks right after the timer is started: a limit is at least one second, it cannot be over yet
CLEAN = 2500          # blocks the program may take to clean up: the limit is off by then
AFTER = 1500          # blocks the program may still execute once the limit is over


def cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(P08.CONFIGS):
        for build in ("steps", "stepsasan"):
            if tier == "quick":
                if i % 3 or (i // 3 % 2 == 0) == (build == "stepsasan"):
                    continue
                md, k = "class", sl
            else:
                md, k = ("all", 8 * sl) if build == "steps" else ("class", 4 * sl)
            for s in range(k):
                yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": "true" if i % 3 and "zlz" not in opts else "false", "mode": md, "slice": s, "of": k, "b": build}


def judge(ref, d, status, c, what, report=True, intr=False):
    """one run whose limit ran out; returns what happened"""
    out = open(os.path.join(d, "stdout"), encoding="latin-1").read()
    err = open(os.path.join(d, "stderr"), encoding="latin-1").read()
    if status != 0:
        raise Fail("%s: ended with wait status %#x: %s" % (what, status, (err + out)[-300:]))
    if err.strip():
        raise Fail("%s: complained: %s" % (what, err[:300]))
    n = len(MSG.findall(out))
    # the line under way may be cut, and text not yet written may come out twice: whole lines count
    ep = [l for l in P08.epochs(out) if re.match(r"Epoch: \d+\.\.\.\d+ (DP )?vectors in", l)]
    ep = [l for i, l in enumerate(ep) if l not in ep[:i]]
    k = len(ep)
    if n > 1 and report:
        raise Fail("%s: the message appears %d times" % (what, n))
    fs = P08.files(d)
    if not report and n:
        k = 0
        for f in fs:
            if re.match(r"##pomdp-solve-\d+##$", f):
                k = max([j for j in ref.sol if ref.sol[j][0] == rd(os.path.join(d, f))] or [-1])
                if k < 0:
                    raise Fail("%s: the recovery file is not the whole solution of an epoch" % what)
        return "stopped", k or (ref.K if "o.alpha" in fs and rd(os.path.join(d, "o.alpha")) == ref.sol[ref.K][0] else 0)
    if n == 0:
        P08.judge(ref, d, status, None, c, what)
        if k != ref.K and not intr:
            raise Fail("%s: the run ends after epoch %d of %d without saying why" % (what, k, ref.K))
        return "done", k
    if ep != ref.ep[:k]:
        raise Fail("%s: epoch report %s is not a prefix of %s" % (what, ep, ref.ep))
    rec = [f for f in fs if re.match(r"##pomdp-solve-\d+##$", f)]
    if rec:
        data = rd(os.path.join(d, rec[0]))
        e = [j for j in ref.sol if ref.sol[j][0] == data]
        if not e or not k - 1 <= max(e) <= k + 1:
            raise Fail("%s: after %d epochs the recovery file is not the whole solution of the last one" % (what, k))
    elif k > 1 and not ("o.alpha" in fs and rd(os.path.join(d, "o.alpha")) == ref.sol[k if intr else ref.K][0]):
        raise Fail("%s: %d epochs reported, neither a recovery file nor the solution is there (%s)" % (what, k, fs))
    return "stopped", k


@C.family("limit over at every block", cases)
def f_block(c, res, builds, d):
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(P08.text_of(c))
    ref = P08.Ref(c, builds["plain"], d)
    b = {"steps": builds[c["b"]]}
    head, outs = P08.explore(c, res, b, d, sig=SIGVTALRM, extra=["-time_limit", "1000000"])
    if not head["armed"]:
        raise Fail("a time limit is given, but the program never installs a handler for its timer")
    kinds, worst = set(), 0
    for o in outs:
        if o["fired"] and o["hi"] < EARLY:
            continue
        res.states += o["count"]
        res.transitions += o["count"]
        what = "no expiry" if not o["fired"] else "limit over at step %d" % o["lo"]
        kind, k = judge(ref, o["dir"], o["status"], c, what)
        if o["lo"] < 0 and not o["fired"]:
            if kind != "done":
                raise Fail("the run stops without the limit being over")
            continue
        if kind == "stopped":
            worst = max(worst, o["after"])
            if o["after"] > AFTER:
                raise Fail("%s: the program goes on for %d blocks before it stops" % (what, o["after"]))
        elif o["lo"] > 0 and o["after"] > CLEAN:
            raise Fail("%s of %d: the program does not stop, it goes on for %d blocks" % (what, head["total"], o["after"]))
        kinds.add((kind, k))
        res.key(c["n"], c["opts"], kind, k)
    if ("stopped", 0) not in kinds and c["slice"] == 0:
        raise Fail("the program never stops: %s" % sorted(kinds))
    res.traces += len(outs)
    if c["slice"] == 0:
        res.sample = {"options": c["opts"], "steps": head["total"], "outcomes": sorted(kinds), "most blocks executed after the limit": worst}


def both_cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(P08.CONFIGS):
        for j, (pair, md) in enumerate(((p, m) for p in ("2+26", "26+2") for m in ("next", "late:9", "late:60", "late:400", "late:2500", "late:9000"))):
            if tier == "quick" and (i % 3 or (pair == "26+2" and md != "late:9") or i // 3 % 2 != j % 2 or md == "late:9000"):
                continue
            for s in range(3):
                yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": "true" if i % 2 and "zlz" not in opts else "false",
                       "pair": pair, "mode": md, "slice": s, "of": 3, "b": "stepsasan" if tier != "quick" and i % 2 else "steps"}


@C.family("an interrupt and the limit", both_cases)
def f_both(c, res, builds, d):
    """^C first, the limit over before the epoch is: the limit still stops the program; and the other way round"""
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(P08.text_of(c))
    ref = P08.Ref(c, builds["plain"], d)
    head, outs = P08.explore(c, res, {"steps": builds[c["b"]]}, d, sig=c["pair"], extra=["-time_limit", "1000000"])
    if not head["armed"]:
        raise Fail("no handlers for both signals")
    for o in outs:
        if o["fired"] and o["hi"] < EARLY:
            continue
        res.states += o["count"]
        res.transitions += o["count"] * max(1, o["fired"])
        what = {0: "no signal", 1: "first signal of %s at step %d" % (c["pair"], o["lo"])}.get(o["fired"], "signals %s (%s) at step %d" % (c["pair"], c["mode"], o["lo"]))
        kind, k = judge(ref, o["dir"], o["status"], c, what, intr=o["fired"] > 0 and c["pair"][0] == "2")
        if o["fired"] == (2 if c["pair"][0] == "2" else 1) and kind != "stopped" and o["lo"] > 0 and o["after"] > CLEAN:
            raise Fail("%s: the program does not stop, it goes on for %d blocks" % (what, o["after"]))
        if kind == "stopped" and o["after"] > AFTER:
            raise Fail("%s: the program goes on for %d blocks before it stops" % (what, o["after"]))
        res.key(c["n"], c["opts"], c["pair"], kind, k)
    res.traces += len(outs)


def sys_cases(tier):
    for i, (n, sh, g, v, opts, sl) in enumerate(P08.CONFIGS):
        yield {"n": n, "shape": sh, "g": g, "v": v, "opts": opts, "save": "true" if i % 2 and "zlz" not in opts else "false"}


@C.family("limit over at every system call", sys_cases)
def f_sys(c, res, builds, d):
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(P08.text_of(c))
    b = builds["plain"]
    ref = P08.Ref(c, b, d)
    cmd = [b.solve, "-pomdp", os.path.join(d, "m.POMDP"), "-rand_seed", "1:2:3", "-o", "o", "-time_limit", "1000000", "-save_all", c["save"]] + c["opts"]
    k, last = 1, 0
    while True:
        w = P09.fresh(d)
        st = ptrun(b, w, "sigall:%d:%d" % (k, SIGVTALRM), cmd)
        if not st["armed"]:
            raise Fail("a time limit is given, but the program never installs a handler for its timer")
        if not st["handled"]:
            break
        kind, e = judge(ref, w, st["status"], c, "limit over at system call %d" % k, report=False)
        if e < last:
            raise Fail("limit over at system call %d: %d epochs on disk, %d with an earlier one" % (k, e, last))
        last = e
        res.states += 1
        res.transitions += 1
        res.key(c["n"], c["opts"], kind, e)
        k += 1
    res.traces += k


def same_cases(tier):
    for n in range(6 if tier == "quick" else 60):
        for sh in ((2, 2, 2), (3, 2, 2), (2, 3, 2)):
            for m in list(S.METHODS) + ["grid"]:
                yield {"n": n, "shape": sh, "m": m}


@C.family("a limit that is not reached", same_cases)
def f_same(c, res, builds, d):
    b = builds["plain"]
    o = S.METHODS[c["m"]] if c["m"] in S.METHODS else ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "20"]
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(F.model_n(c["n"], *c["shape"], .9).text())
    got = []
    for lim in ([], ["-time_limit", "1000000"], ["-time_limit", "1000"], ["-time_limit", "60"]):
        w = P09.fresh(d)
        p = run([b.solve, "-pomdp", "../m.POMDP", "-rand_seed", "1:2:3", "-o", "o", "-horizon", "3", "-save_all", "true"] + o + lim, w)
        out = [l for l in P08.norm(p.out).splitlines() if "time_limit" not in l and "Max. secs" not in l and "secs" not in l or l.startswith("Epoch")]
        got.append((lim, p.rc, out, p.err, {f: rd(os.path.join(w, f)) for f in P08.files(w)}))
    for g in got[1:]:
        for i, nm in ((1, "exit status"), (4, "files"), (2, "report"), (3, "messages")):
            if g[i] != got[0][i]:
                if nm == "report":
                    x = [l for l in g[2] if l not in got[0][2]][:3]
                    # the parameter listing shows the limit itself
                    if all(re.search(r"limit|Time|time", l) for l in x) and len(g[2]) - len(got[0][2]) in (0, 1):
                        continue
                    raise Fail("with %s the report differs: %s" % (g[0], x))
                raise Fail("with %s the %s differ from a run without a limit" % (g[0], nm))
        res.states += 1
    res.transitions += 4
    res.traces += 1
    res.key(c["n"], c["shape"], c["m"])


def real_cases(tier):
    for m in list(S.METHODS) + ["grid"]:
        for lim in (1,) if tier == "quick" else (1, 2, 3):
            for extra in ([], ["-save_all", "true"], ["-stat_summary", "true"], ["-stdout", "rep"]):
                if tier == "quick" and extra and m not in ("witness", "grid"):
                    continue
                yield {"m": m, "lim": lim, "x": extra}


def cpu_run(args, cwd, timeout):
    """(wait status, user seconds, out, err)"""
    with open(os.path.join(cwd, "so"), "wb") as so, open(os.path.join(cwd, "se"), "wb") as se:
        p = subprocess.Popen(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=BASE_ENV)
        t0 = time.time()
        while True:
            pid, st, ru = os.wait4(p.pid, os.WNOHANG)
            if pid:
                break
            if time.time() - t0 > timeout:
                p.kill()
                pid, st, ru = os.wait4(p.pid, 0)
                st = -1
                break
            time.sleep(.01)
        p.returncode = st
    return st, ru.ru_utime, open(os.path.join(cwd, "so"), errors="replace").read(), open(os.path.join(cwd, "se"), errors="replace").read()


@C.family("real limit", real_cases)
def f_real(c, res, builds, d):
    b = builds["plain"]
    n, sh, g = (7, (6, 4, 4), .999) if c["m"] == "grid" else (25, (3, 3, 3), .99)
    o = S.METHODS[c["m"]] if c["m"] in S.METHODS else ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "100000"]
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(F.model_n(n, *sh, g).text())
    st, cpu, out, err = cpu_run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-time_limit", str(c["lim"]), "-horizon", "100000", "-stop_criteria", "exact"] + o + c["x"], d, 60)
    if c["x"][:1] == ["-stdout"]:
        out = open(os.path.join(d, "rep"), errors="replace").read()
    if st == -1:
        raise Fail("still running after 60 s with a limit of %d s (%.1f s of processor time)" % (c["lim"], cpu))
    if st != 0:
        raise Fail("limit of %d s: ended with wait status %#x: %s" % (c["lim"], st, err[-200:]))
    if cpu > c["lim"] + .6:
        raise Fail("limit of %d s: used %.2f s" % (c["lim"], cpu))
    if not MSG.search(out):
        if "Solution found" in out and cpu < c["lim"]:
            res.note("finished within the limit")
            return
        raise Fail("limit of %d s: stopped after %.2f s without the message: %s" % (c["lim"], cpu, out[-200:]))
    t = float(MSG.search(out).group(1))
    if not c["lim"] * .9 - .05 <= t <= cpu + 1.0:
        raise Fail("limit of %d s: the message says %.3f s (used %.2f s)" % (c["lim"], t, cpu))
    k = len(P08.epochs(out))
    rec = [f for f in os.listdir(d) if re.match(r"##pomdp-solve-\d+##$", f)]
    if k >= 1:
        if len(rec) != 1:
            raise Fail("limit of %d s: %d epochs done, %d recovery files" % (c["lim"], k, len(rec)))
        v = M.read_alpha(os.path.join(d, rec[0]))
        sizes = [int(x) for x in re.findall(r"Epoch: \d+\.\.\.(\d+) vectors", out)]
        if len(v) not in sizes[-1:] and "-save_all" not in c["x"]:
            raise Fail("the recovery file has %d vectors, the last epoch %s" % (len(v), sizes[-1:]))
    res.states += 1
    res.transitions += 1
    res.traces += 1
    res.key(c["m"], c["lim"], c["x"])
