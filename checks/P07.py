import glob, itertools, os, re
import model as M, families as F, solve as S
from vt import Check, Fail, run

C = Check("P07", "model_checking",
          "exhaustive enumeration of the saving-option lattice (per-epoch saving, penultimate saving, report file, output prefix form) x method x stopping reason x number of epochs; the complete directory content after each real run is compared with the set of files and byte relations the options promise",
          "a case is (model, method, stop reason, prefix form, report option); inside it all combinations of the two saving options are run; distinct = different (options, directory listing) outcomes",
          ["the number of completed epochs is taken from the per-epoch report lines, which P29 checks on its own",
           "adjustable precision can keep several copies of a vector, whose order among themselves is unspecified: its policy graphs are not compared byte by byte"])

PREFIX = [("plain", "o"), ("sub", "sub/x"), ("dots", "a.b.c"), ("digits", "r1"), ("long", "n" * 120), ("abs", None), ("default", None), ("alpha", "x.alpha")]
STOPS = [("h1", ["-horizon", 1]), ("h2", ["-horizon", 2]), ("h3", ["-horizon", 3]), ("h11", ["-horizon", 11]), ("weak", ["-stop_criteria", "weak", "-stop_delta", 0.5, "-horizon", 20]),
         ("bellman", ["-stop_criteria", "bellman", "-stop_delta", 2, "-horizon", 20]), ("exact", ["-stop_criteria", "exact", "-horizon", 20])]
KINDS = dict(S.METHODS)
KINDS["grid"] = ["-method", "grid", "-fg_points", 20, "-fg_type", "simplex"]
KINDS["zlz"] = ["-vi_variation", "zlz", "-witness_points", "true"]
KINDS["adj"] = ["-vi_variation", "adjustable_epsilon", "-start_epsilon", 0.1, "-end_epsilon", 1e-9, "-epsilon_adjust", 0.1, "-history_length", 2, "-history_delta", 1]


def cases(tier):
    for n in range(6 if tier == "quick" else 40):
        for kind in KINDS:
            for si in range(len(STOPS)):
                for pi in range(len(PREFIX)):
                    if tier == "quick" and (n + si + pi) % 3:
                        continue
                    yield {"n": n, "k": kind, "s": si, "p": pi}


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def one(m, c, sa, sp, so, d, builds):
    """one run -> ({relative name: bytes}, prefix, epochs)"""
    sub = os.path.join(d, "r%d%d%d" % (sa, sp, so))
    os.makedirs(os.path.join(sub, "sub"))
    with open(os.path.join(sub, "m.POMDP"), "w") as f:
        f.write(m.text())
    pn, pref = PREFIX[c["p"]]
    args = [builds["plain"].solve, "-pomdp", "m.POMDP"]
    if pn == "abs":
        pref = os.path.join(sub, "sub", "abs")
    if pref is not None:
        args += ["-o", pref]
    args += list(map(str, STOPS[c["s"]][1] + KINDS[c["k"]]))
    if sa:
        args += ["-save_all", "true"]
    if sp:
        args += ["-save_penultimate", "true"]
    if so:
        args += ["-stdout", "rep.txt"]
    p = run(args, sub)
    if p.timeout or p.rc != 0:
        raise Fail("run failed rc=%s: %s" % (p.rc, (p.err + p.out)[-300:]))
    files = {}
    for root, _, fs in os.walk(sub):
        for f in fs:
            q = os.path.join(root, f)
            files[os.path.relpath(q, sub)] = rd(q)
    if rd(os.path.join(sub, "m.POMDP")).decode() != m.text():
        raise Fail("the model file was changed")
    del files["m.POMDP"]
    rep = p.out
    if so:
        if "rep.txt" not in files:
            raise Fail("the report file was not written")
        if p.out.strip():
            raise Fail("with -stdout the report still goes to standard output: %r" % p.out[:100])
        rep = files.pop("rep.txt").decode()
    ep = [int(x) for x in re.findall(r"^Epoch: (\d+)", rep, re.M)]
    if not ep or ep != list(range(1, len(ep) + 1)):
        raise Fail("epochs reported: %s" % ep)
    if pn == "abs":
        pref = "sub/abs"
    if pref is None:
        a = [f for f in files if f.endswith(".alpha") and ".prev." not in f]
        if len(a) != 1 or not re.fullmatch(r"m-\d+\.alpha", a[0]):
            raise Fail("default output name: files %s" % sorted(files))
        pref = a[0][:-6]
    return files, pref, len(ep)


@C.family("saving options", cases)
def f_save(c, res, builds, d):
    m = F.model_n(c["n"] + 60, 2, 2, 2, 0.7, rew=[0.0, 1.0, -1.0, 2.5], values="cost" if c["n"] % 2 else "reward")
    ref = None
    for sa, sp, so in itertools.product((0, 1), repeat=3):
        what = "%s %s %s save_all=%d save_penultimate=%d stdout=%d" % (c["k"], STOPS[c["s"]][0], PREFIX[c["p"]][0], sa, sp, so)
        files, pref, N = one(m, c, sa, sp, so, d, builds)
        want = {pref + ".alpha", pref + ".pg"}
        if sa:
            want |= {"%s.alpha%d" % (pref, e) for e in range(1, N + 1)}
            if c["k"] != "zlz":
                want |= {"%s.pg%d" % (pref, e) for e in range(1, N + 1)}
        if sp and N > 1:
            want.add(pref + ".prev.alpha")
        got = {f for f in files if c["k"] != "grid" or not f.endswith(".belief")}
        if got != want:
            raise Fail("%s: %d epochs, files missing %s, unexpected %s" % (what, N, sorted(want - got), sorted(got - want)))
        fin = (files[pref + ".alpha"], files[pref + ".pg"], N)
        if not fin[0].strip() or not fin[1].strip():
            raise Fail("%s: empty solution file" % what)
        if ref is None:
            ref = fin
        elif fin != ref if c["k"] != "adj" else (fin[0], fin[2]) != (ref[0], ref[2]):
            raise Fail("%s: the solution (or number of epochs, %d) differs from that of the run without saving options (%d)" % (what, N, ref[2]))
        if sa and c["k"] != "zlz":
            if files["%s.alpha%d" % (pref, N)] != fin[0]:
                raise Fail("%s: the last epoch's value function differs from the final one" % what)
            if files["%s.pg%d" % (pref, N)] != fin[1] and c["k"] != "adj":
                raise Fail("%s: the last epoch's policy graph differs from the final one" % what)
            if sp and N > 1 and files[pref + ".prev.alpha"] != files["%s.alpha%d" % (pref, N - 1)]:
                raise Fail("%s: the penultimate value function is not that of epoch %d" % (what, N - 1))
        res.states += len(files)
        res.transitions += N
        res.traces += 1
        res.key(what, N)
        if N > 3 and sa:
            res.sample = {"options": what, "files": sorted(files)[:12]}


# ---------------------------------------------------------------- default output names
DIRS = ["", "./", "d/", "./d/", "d.x/", "./d.x/", "../w.1/", "d.x/e/", "d.x/e.y/", "d.x/..//", "a b/", "d./"]
BASES = ["m.POMDP", "m", "m.x.y", "m.", "a.b.POMDP", "m.POMDP.95", "m-1.POMDP", "m" * 40 + ".P", "m" * 40, "m,1", "1.5"]


def name_cases(tier):
    for d in DIRS:
        for b in BASES:
            for sa in (0, 1):
                yield {"d": d, "b": b, "sa": sa}


@C.family("default output names", name_cases)
def f_name(c, res, builds, d):
    m = F.model_n(61, 2, 2, 2, 0.7)
    w = os.path.join(d, "w.1")
    os.makedirs(w)
    path = c["d"] + c["b"]
    for k in ("d", "d.x/e.y", "d.x/e", "a b", "d."):
        os.makedirs(os.path.join(w, k), exist_ok=True)
    with open(os.path.join(w, path), "w") as f:
        f.write(m.text())
    p = run([builds["plain"].solve, "-pomdp", path, "-horizon", "2"] + (["-save_all", "true"] if c["sa"] else []), w)
    if p.timeout or p.rc != 0:
        raise Fail("%s: run failed rc=%s: %s" % (path, p.rc, (p.err + p.out)[-300:]))
    pid = re.search(r"PID=(\d+)", p.out)
    if not pid:
        raise Fail("%s: no process number in the report" % path)
    pre = path[:path.rindex(".")] + "-" + pid.group(1) if "." in c["b"] else "solution"
    pre = os.path.relpath(os.path.join(w, pre), w) if not pre.endswith("/") else pre
    got = set()
    for root, _, fs in os.walk(w):
        got |= {os.path.relpath(os.path.join(root, f), w) for f in fs}
    want = {os.path.relpath(os.path.join(w, path), w)} | {pre + s for s in [".alpha", ".pg"] + ([".alpha1", ".alpha2", ".pg1", ".pg2"] if c["sa"] else [])}
    if got != want:
        raise Fail("model file %s: files missing %s, unexpected %s" % (path, sorted(want - got), sorted(got - want)))
    res.states += len(got)
    res.transitions += 2
    res.traces += 1
    res.key(path)
