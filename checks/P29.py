import os, re
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail, run
from P05 import weak, residual

C = Check("P29", "model_checking",
          "explicit-state enumeration of (model, method, criterion, variation, report option) combinations; every line of the real solver's report is compared with the value functions saved for every epoch and with a reference of the reporting rules",
          "a state is a reported figure that was recomputed from the saved files, a transition an epoch of a run; distinct = different (criterion, number of epochs, rounded errors) outcomes",
          ["errors are printed with three digits; the recomputed figure must round to the printed one up to 1e-5 of the largest value (LP accuracy) or 0.6 percent",
           "times are judged by their sums only (each figure is rounded to 0.01 s)"])
EP = re.compile(r"Epoch: (\d+)\.\.\.")
END = re.compile(r"(\d+) vectors in (-?\d+\.\d\d) secs\. \((-?\d+\.\d\d) total\) \(err=(\S+)\)\n")
CONTEXTS = 7


def parse(t, what):
    """-> dict of the figures of a report"""
    r = {"epochs": [], "starts": [int(x) for x in EP.findall(t)]}
    parts = EP.split(t)
    for k in range(1, len(parts), 2):
        x = END.search(parts[k + 1])
        if not x:
            raise Fail("%s: epoch %s has no result line" % (what, parts[k]))
        r["epochs"].append((int(parts[k]), int(x[1]), float(x[2]), float(x[3]), float(x[4])))
    x = re.search(r"\[Initial policy has (\d+) vectors\.\]", t)
    r["init"] = int(x[1]) if x else None
    x = re.search(r"Solution found\.  See file:\n\t(.*)\n\t(.*)\n", t)
    r["files"] = (x[1], x[2]) if x else None
    r["times"] = [tuple(map(float, y)) for y in re.findall(r"time = (\d+) hrs\., (\d+) mins, (\d+\.\d\d) secs\. \(= (\d+\.\d\d) secs\)", t)]
    r["nontotal"] = t.count("Total execution time")
    r["ctx"] = [(y[0], float(y[1])) for y in re.findall(r"\t(.*) time: (\d+\.\d\d) secs\.\n", t)]
    x = re.search(r"Total context time: (\d+\.\d\d) secs\.", t)
    r["ctxtot"] = float(x[1]) if x else None
    r["table"], r["totals"] = None, None
    if "** Statistic Summary **" in t:
        s = t.split("** Statistic Summary **", 1)[1]
        r["table"] = []
        for line in s.split("\n"):
            x = re.match(r"\s*(\d+)\s+(-?\d+)\s+(\S+)\s+(-?\d+\.\d\d)\s+(N/A|\d\.\d\de[-+]\d\d)\s*((?:-?\d+\.\d\d\s*)*)$", line)
            if x:
                r["table"].append((int(x[1]), int(x[2]), float(x[3]), float(x[4]), x[5], [float(y) for y in x[6].split()]))
            x = re.match(r"\s+Totals\s+(.*)$", line)
            if x:
                r["totals"] = [float(y) for y in x[1].split()]
        r["names"] = re.findall(r"^\t(\S+) = (.*) time$", s, re.M)
    return r


def near(p, e, tol):
    """printed error p against the recomputed e"""
    if np.isinf(e) or np.isinf(p):
        return p == e
    return abs(p - e) <= 0.006 * abs(e) + tol


def ref_error(crit, cur, prev, delta, grid):
    """-> (acceptable values, tolerance)"""
    tol = 1e-5 * S.scale(None, cur, prev)
    if grid is not None:
        return [float(np.abs(M.surface(cur, grid) - M.surface(prev, grid)).max())], 1e-7 * S.scale(None, cur, prev) + 1e-12
    if crit == "exact":
        if len(cur) != len(prev):
            return [np.inf], 0
        e = max(weak(cur, prev), weak(prev, cur))
        return ([0.0] if e <= 0.9e-9 else [np.inf] if e > 1.1e-9 else [0.0, np.inf]), 0
    if crit == "weak":
        e = weak(cur, prev)
        if e > delta * (1 + 1e-9):
            return [np.inf], 0
        return ([e] if e < delta * (1 - 1e-9) else [e, np.inf]), 1e-12
    e = residual(cur, prev)
    return (None, 0) if e is None else ([e], tol)


def judge(m, d, t, what, res, crit="weak", delta=1e-9, prev=None, prefix="o", zlz=False, summary=False, grid=None, ninit=1, names=None, adj=None, table_eps=None):
    r = parse(t, what)
    if r["init"] != ninit:
        raise Fail("%s: reports an initial policy of %s vectors, it has %d" % (what, r["init"], ninit))
    N = 0
    while os.path.exists(os.path.join(d, "%s.alpha%d" % (prefix, N + 1))):
        N += 1
    if r["starts"] != list(range(1, N + 1)) or len(r["epochs"]) != N:
        raise Fail("%s: epochs %s reported, %d value functions saved" % (what, r["starts"], N))
    last = 0.0
    sizes = []
    for k, (n, size, sec, tot, err) in enumerate(r["epochs"], 1):
        cur = S.vecs(S.load(d, "%s.alpha%d" % (prefix, k)))
        if not zlz and size != len(cur):
            raise Fail("%s epoch %d: reports %d vectors, the saved value function has %d" % (what, k, size, len(cur)))
        sizes.append(size)
        if not zlz:
            ok, tol = ref_error(crit, cur, prev, delta, grid)
            if ok is not None and not any(near(err, e, tol) for e in ok):
                raise Fail("%s epoch %d: reports error %g, it is %s" % (what, k, err, ok))
            res.key(crit, k, "%.2e" % err)
        res.states += 4
        if sec < 0 or tot < last + sec - 0.0201:
            raise Fail("%s epoch %d: %.2f s, total %.2f after a total of %.2f" % (what, k, sec, tot, last))
        last = tot
        prev = cur
        res.transitions += 1
    fin = S.load(d, "%s.alpha" % prefix)
    if zlz and r["epochs"] and r["epochs"][-1][1] != len(fin):
        raise Fail("%s: reports %d vectors, the solution has %d" % (what, r["epochs"][-1][1], len(fin)))
    names = names or ("%s.alpha" % prefix, "%s.pg" % prefix)
    if r["files"] != tuple(names):
        raise Fail("%s: reports solution files %s, they are %s" % (what, r["files"], names))
    for n in names:
        if not os.path.exists(os.path.join(d, n)):
            raise Fail("%s: reported file %s does not exist" % (what, n))
    if len(r["times"]) != 3:
        raise Fail("%s: %d time lines" % (what, len(r["times"])))
    for h, mi, s, tot in r["times"]:
        if abs(h * 3600 + mi * 60 + s - tot) > 0.0101:
            raise Fail("%s: %g hrs %g mins %g secs reported as %g secs" % (what, h, mi, s, tot))
    if abs(r["times"][0][3] + r["times"][1][3] - r["times"][2][3]) > 0.0151 or r["times"][2][3] < last - 0.0101:
        raise Fail("%s: user %g, system %g, total %g, last epoch total %g" % (what, r["times"][0][3], r["times"][1][3], r["times"][2][3], last))
    res.states += 6
    if not summary:
        if r["table"] is not None:
            raise Fail("%s: a statistics summary was not asked for" % what)
    else:
        T = r["table"]
        if T is None:
            raise Fail("%s: no statistics summary" % what)
        if [(x[0], x[1], x[2], x[3]) for x in T] != [(e[0], e[1], e[4], e[2]) for e in r["epochs"]]:
            raise Fail("%s: the summary %s differs from the epochs reported %s" % (what, T[:6], r["epochs"][:6]))
        nc = len(r["names"])
        if nc != len(r["ctx"]) or any(len(x[5]) != nc for x in T) or r["totals"] is None or len(r["totals"]) != nc + 1:
            raise Fail("%s: malformed summary table: %s" % (what, T[:3]))
        if [b for _, b in r["names"]] != [a for a, _ in r["ctx"]]:
            raise Fail("%s: contexts %s and %s" % (what, r["names"], r["ctx"]))
        half = 0.00501
        if abs(r["totals"][0] - sum(x[3] for x in T)) > half * (N + 1):
            raise Fail("%s: total time %.2f, the epochs add up to %.2f" % (what, r["totals"][0], sum(x[3] for x in T)))
        for i in range(nc):
            s = sum(x[5][i] for x in T)
            if abs(r["totals"][i + 1] - s) > half * (N + 1) or abs(r["ctx"][i][1] - r["totals"][i + 1]) > 2 * half:
                raise Fail("%s: %s: total %.2f, by epochs %.2f, in the list of contexts %.2f" % (what, r["names"][i], r["totals"][i + 1], s, r["ctx"][i][1]))
        if abs(sum(x for _, x in r["ctx"]) - r["ctxtot"]) > half * (nc + 1):
            raise Fail("%s: context times %s add up to %.2f" % (what, r["ctx"], r["ctxtot"]))
        for x in T:             # no context takes longer than its epoch (system time of a context is not split out)
            if sum(x[5]) > x[3] + half * (nc + 1) + 0.02:
                raise Fail("%s epoch %d: %.2f s, contexts %s" % (what, x[0], x[3], x[5]))
            if table_eps is not None and not table_eps(x[0], x[4]):
                raise Fail("%s epoch %d: epsilon column %s" % (what, x[0], x[4]))
        res.states += len(T) * (4 + nc)
        res.note("seconds accounted", r["totals"][0])
    if adj is not None:
        check_schedule(t, sizes, adj, what, res, r)
    if N > 2:
        res.sample = {"run": what, "epochs": N, "sizes": sizes[-6:]}
    return r


def check_schedule(t, sizes, adj, what, res, r):
    """the announced precisions follow from the reported sizes by the documented rule"""
    start, end, fac, hist, hd = adj
    cur, want = start, [(0, start)]
    for k in range(1, len(sizes) + 1):
        if cur <= end or k < hist:
            continue
        w = sizes[k - hist:k]
        if max(w) - min(w) <= hd:
            cur /= fac
            want.append((k, cur))
    got, ep = [], 0
    for x in re.finditer(r"Epoch: (\d+)|>>(?:Starting epsilon set|Adjusted epsilon) to (\S+)<<", t):
        if x[1]:
            ep = int(x[1])
        else:
            got.append((ep, float(x[2])))
    # the run may end (by criterion or horizon) before the last adjustment would be announced
    want = [w for w in want if w[0] < len(sizes)] if len(got) < len(want) else want
    if len(got) != len(want) or any(g[0] != w[0] or abs(g[1] / w[1] - 1) > 1e-3 for g, w in zip(got, want)):
        raise Fail("%s: precisions (epoch, epsilon) announced %s, by the reported sizes %s they are %s" % (what, got, sizes, want))
    res.states += len(got)


SH = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (1, 2, 1), (3, 3, 2)]
CR = [("exact", 1e-9), ("weak", 1e-9), ("weak", 0.3), ("weak", 5.0), ("bellman", 0.01), ("bellman", 2.0)]
METH = list(S.METHODS)


def model(n, sh, g=None):
    return F.model_n(n + 2900, *SH[sh], g or (0.9, 0.5, 0.7)[n % 3], values="cost" if n % 4 == 1 else "reward", full_r=n % 5 == 2)


def cases(tier):
    for n in range(14 if tier == "quick" else 120):
        for sh in range(len(SH)):
            for c in range(len(CR)):
                yield {"n": n, "sh": sh, "c": c}


@C.family("epochs and summary", cases)
def f_epochs(c, res, builds, d):
    n, sh = c["n"], c["sh"]
    m = model(n, sh)
    crit, delta = CR[c["c"]]
    meth = METH[(n + sh + c["c"]) % len(METH)]
    summary = (n + c["c"]) % 2 == 0
    H = 5 if SH[sh][2] < 3 and meth != "enum" else 3
    args = ["-save_all", "true", "-stop_criteria", crit, "-stop_delta", delta, "-horizon", H] + S.METHODS[meth]
    if summary:
        args += ["-stat_summary", "true"]
    ep = None
    prev = np.zeros((1, m.S))
    if n % 3 == 2:
        w = F.Walk(n * 17 + sh)
        prev = np.array([[w(9) - 4.0 for _ in range(m.S)] for _ in range(1 + n % 4)])
        with open(os.path.join(d, "t.alpha"), "w") as f:
            f.write(M.fmt_alpha([(0, v) for v in prev]))
        args += ["-terminal_values", "t.alpha"]
    if n % 5 == 3 and meth in ("twopass", "witness", "incprune", "incprune-rr", "incprune-gen"):
        args += ["-q_purge", "epsilon_prune", "-prune_epsilon", 1e-9]
        ep = lambda k, s: s != "N/A" and float(s) <= 1e-6
    else:
        ep = lambda k, s: s == "N/A"
    p = S.solve(builds["plain"], d, m.text(), args)
    judge(m, d, p.out, "%s %s %g" % (meth, crit, delta), res, crit, delta, prev, summary=summary, ninit=len(prev), table_eps=ep)
    if p.err.strip():
        raise Fail("%s: unexpected messages %r" % (meth, p.err[:200]))
    res.traces += 1


def grid_cases(tier):
    for n in range(12 if tier == "quick" else 80):
        for sh in range(len(SH)):
            for ty in ("simplex", "pairwise", "search", "initial"):
                yield {"n": n, "sh": sh, "ty": ty}


@C.family("grid method", grid_cases)
def f_grid(c, res, builds, d):
    m = model(c["n"], c["sh"])
    delta = (1e-9, 0.1)[c["n"] % 2]
    args = ["-method", "grid", "-fg_type", c["ty"], "-fg_save", "true", "-save_all", "true", "-stop_delta", delta, "-horizon", 6, "-stat_summary", "true", "-fg_points", 12]
    p = S.solve(builds["plain"], d, m.text(), args)
    x = re.search(r"\[Grid has (\d+) points\.\]", p.out)
    with open(os.path.join(d, "o.belief")) as f:
        B = np.array(f.read().split(), float).reshape(-1, m.S)
    if not x or int(x[1]) != len(B):
        raise Fail("grid of %s points reported, %d saved" % (x and x[1], len(B)))
    x = re.search(r"Grid saved to (\S+?)\.?\]?\n", p.out)
    judge(m, d, p.out, "grid %s" % c["ty"], res, "grid", delta, np.zeros((1, m.S)), summary=True, grid=B)
    res.traces += 1


def var_cases(tier):
    for n in range(10 if tier == "quick" else 80):
        for sh in range(len(SH)):
            for v in ("adjust", "adjust-q", "zlz"):
                for hist in (1, 2, 3):
                    yield {"n": n, "sh": sh, "v": v, "h": hist}


@C.family("variations", var_cases)
def f_var(c, res, builds, d):
    n, v = c["n"], c["v"]
    m = model(n + 50, c["sh"])
    meth = ("incprune", "witness", "twopass", "incprune-rr", "incprune-gen")[(n + c["sh"]) % 5]
    args = ["-save_all", "true", "-horizon", 7 if SH[c["sh"]][2] < 3 else 4, "-stat_summary", "true"] + S.METHODS[meth]
    adj = None
    if v == "zlz":
        args += ["-vi_variation", "zlz", "-witness_points", "true", "-stop_criteria", "bellman", "-stop_delta", 0.3]
        p = S.solve(builds["plain"], d, m.text(), args)
        judge(m, d, p.out, "zlz " + meth, res, zlz=True, summary=True)
    else:
        start, end, fac, hd = ((0.5, 1e-4, 10, 1), (0.3, 0.02, 3, 3), (1.0, 0.01, 4, 2), (0.1, 1e-9, 100, 1))[n % 4]
        adj = (start, end, fac, c["h"], hd)
        args += ["-vi_variation", "adjustable_epsilon", "-start_epsilon", start, "-end_epsilon", end, "-epsilon_adjust", fac,
                 "-history_length", c["h"], "-history_delta", hd, "-stop_criteria", "weak", "-stop_delta", 1e-9]
        if v == "adjust-q":
            args += ["-q_purge", "epsilon_prune"]
        p = S.solve(builds["plain"], d, m.text(), args)
        judge(m, d, p.out, "%s %s" % (v, meth), res, "weak", 1e-9, np.zeros((1, m.S)), summary=True, adj=adj)
    res.traces += 1


def out_cases(tier):
    for n in range(6 if tier == "quick" else 30):
        for pre in ("o", "sub/x", "./a.b", "long" * 20, None, "solution"):
            for so in (None, "rep.txt", "o.report"):
                for existing in (False, True):
                    yield {"n": n, "pre": pre, "so": so, "ex": existing}


@C.family("where the report goes", out_cases)
def f_out(c, res, builds, d):
    m = model(c["n"], c["n"] % len(SH))
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(m.text())
    if c["pre"] and "/" in c["pre"] and c["pre"][0] != ".":
        os.mkdir(os.path.join(d, "sub"))
    args = [builds["plain"].solve, "-pomdp", "m.POMDP", "-horizon", "3", "-save_all", "true", "-stat_summary", "true"] + S.METHODS[METH[c["n"] % len(METH)]]
    if c["pre"]:
        args += ["-o", c["pre"]]
    if c["so"]:
        args += ["-stdout", c["so"]]
        if c["ex"]:
            with open(os.path.join(d, c["so"]), "w") as f:
                f.write("Epoch: 9...old contents\n" * 2000)
    p = run(args, d)
    if p.rc != 0:
        raise Fail("failed: " + p.text[-200:])
    t = p.out
    if c["so"]:
        if p.text:
            raise Fail("with -stdout %s, %r went to the terminal" % (c["so"], p.text[:100]))
        with open(os.path.join(d, c["so"])) as f:
            t = f.read()
    x = re.search(r"PID=(\d+)", t)
    if not x:
        raise Fail("no process number reported")
    pre = c["pre"] if c["pre"] and c["pre"] != "solution" else "m-" + x[1]
    if c["pre"] == "solution":      # the default of the option: either reading of it is accepted here
        if os.path.exists(os.path.join(d, "solution.alpha")):
            pre = "solution"
    if not os.path.exists(os.path.join(d, pre + ".alpha")):
        raise Fail("process %s reported; the files are %s" % (x[1], sorted(os.listdir(d))[:8]))
    judge(m, d, t, "-o %s -stdout %s" % (c["pre"], c["so"]), res, prev=np.zeros((1, m.S)), prefix=pre, summary=True, names=(pre + ".alpha", pre + ".pg"))
    res.traces += 1


def slow_cases(tier):
    for n in range(10 if tier == "quick" else 60):
        for meth in ("witness", "twopass", "incprune", "incprune-rr", "incprune-gen", "enum"):
            yield {"n": n, "m": meth}


@C.family("time accounting", slow_cases)
def f_slow(c, res, builds, d):
    """models that take long enough for the times to be non-zero"""
    Sn, A, O = (4, 3, 3) if c["m"] != "enum" else (3, 3, 2)
    m = F.model_n(c["n"] + 77, Sn, A, O, 0.95)
    args = ["-save_all", "true", "-horizon", 9 if c["m"] != "enum" else 8, "-stat_summary", "true", "-time_limit", 2] + S.METHODS[c["m"]]
    with open(os.path.join(d, "m.POMDP"), "w") as f:
        f.write(m.text())
    p = run([builds["plain"].solve, "-pomdp", "m.POMDP", "-o", "o"] + [str(x) for x in args], d, timeout=20)
    if p.rc != 0 or "Solution found" not in p.out:
        res.note("stopped by the time limit")
        return
    judge(m, d, p.out, c["m"], res, prev=np.zeros((1, m.S)), summary=True)
    res.traces += 1
