import itertools, os, re
import numpy as np
import model as M, families as F, solve as S
from vt import Check, Fail, run

C = Check("P21", "model_checking",
          "exhaustive enumeration of option settings: every option with every representative value by every route (command line, configuration file, both), every ordered pair of options, every configuration file over a small alphabet up to a length bound, and every ill-typed value; the real program's accepted settings and results are compared with the documented option table and a reference reader of configuration files",
          "a state is a set of option settings reaching the program, a transition one run; distinct = different settings as the program reports them",
          ["numbers are compared with six decimals, as the program prints them",
           "results of the different routes are compared byte for byte after removing process id, file name of the configuration file and times"])

ENUMS = {"inc_prune": "normal restricted_region generalized",
         "enum_purge": "none domonly normal_prune epsilon_prune", "q_purge": "none domonly normal_prune epsilon_prune",
         "fg_purge": "none domonly normal_prune epsilon_prune", "proj_purge": "none domonly normal_prune epsilon_prune",
         "fg_type": "simplex pairwise search initial", "stop_criteria": "exact weak bellman",
         "method": "enum twopass linsup witness incprune grid mcgs",
         "vi_variation": "normal zlz adjustable_epsilon fixed_soln_size"}
ENUMS = {k: v.split() for k, v in ENUMS.items()}
for k in "save_all save_penultimate stat_summary fg_save dom_check witness_points".split():
    ENUMS[k] = ["false", "true"]
ENUMS["verbose"] = ("context lp global timing stats cmdline main alpha proj crosssum agenda enum twopass linsup witness incprune "
                    "lpinterface vertexenum mdp pomdp param parsimonious region approx_mcgs zlz_speedup finite_grid mcgs").split()
# name -> smallest legal value, representative values
INTS = {"time_limit": (1, [1000, 77777]), "memory_limit": (1, [2000000000]), "history_length": (1, [1, 7, 2147483647]), "history_delta": (1, [1, 7]),
        "horizon": (1, [1, 2, 5]), "fg_points": (1, [1, 7]), "alg_rand": (0, [0, 1, 5]), "prune_rand": (0, [0, 1, 5]),
        "mcgs_prune_freq": (1, [1, 7]), "mcgs_traj_iter_count": (1, [2]), "mcgs_num_traj": (1, [1, 7]), "mcgs_traj_length": (1, [1, 7])}
DBLS = {k: (None, [0.0, 0.5, 0.012345, 3.0]) for k in "prune_epsilon fg_epsilon lp_epsilon epsilon end_epsilon start_epsilon stop_delta epsilon_adjust max_soln_size".split()}
DBLS["discount"] = (1.0, [0.0, 0.5, 0.987654, 1.0])
STRS = {"o": ["zz", "a.b"], "stdout": ["rep.txt"], "rand_seed": ["1:2:3"], "terminal_values": ["term.alpha"], "pomdp": ["m.POMDP", "n.POMDP"]}
DEFAULT = {"time_limit": "0", "mcgs_prune_freq": "100", "verbose": "context", "stdout": "", "inc_prune": "normal", "history_length": "0",
           "prune_epsilon": "0.000000", "save_all": "false", "fg_save": "false", "enum_purge": "normal_prune", "fg_type": "initial",
           "fg_epsilon": "0.000000", "mcgs_traj_iter_count": "1", "lp_epsilon": "0.000000", "end_epsilon": "0.000000", "start_epsilon": "0.000000",
           "dom_check": "true", "stop_delta": "0.000000", "q_purge": "normal_prune", "mcgs_num_traj": "1000", "stop_criteria": "weak",
           "method": "incprune", "memory_limit": "0", "alg_rand": "0", "terminal_values": "", "save_penultimate": "false", "epsilon": "0.000000",
           "rand_seed": "", "discount": "-1.000000", "fg_points": "10000", "fg_purge": "normal_prune", "proj_purge": "normal_prune",
           "mcgs_traj_length": "100", "history_delta": "0", "epsilon_adjust": "0.000000", "prune_rand": "0", "vi_variation": "normal",
           "horizon": "0", "stat_summary": "false", "max_soln_size": "0.000000", "witness_points": "false"}
NAMES = sorted(DEFAULT) + ["o", "pomdp"]
MODEL = F.model_n(2100, 2, 2, 2, 0.9).text()
MODEL2 = F.model_n(2101, 3, 2, 2, 0.9).text()
TERM = "0\n1.0 0.0\n\n1\n0.0 1.0\n\n"
NOSOLVE = {("method", "linsup"), ("method", "mcgs"), ("vi_variation", "fixed_soln_size"), ("vi_variation", "zlz"), ("discount", "1.0"), ("pomdp", "n.POMDP")}


def values(name):
    if name in ENUMS:
        return ENUMS[name]
    if name in INTS:
        return [str(v) for v in INTS[name][1]]
    if name in DBLS:
        return [str(v) for v in DBLS[name][1]]
    return STRS[name]


def shown(name, v):
    return "%.6f" % float(v) if name in DBLS else str(int(v)) if name in INTS else v


def setup(d):
    for f, t in (("m.POMDP", MODEL), ("n.POMDP", MODEL2), ("term.alpha", TERM)):
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t)


def cfg_text(pairs):
    return "".join("%s = %s\n" % kv for kv in pairs)


def go(b, d, cli, cfg=None, tool=None):
    """runs with command line pairs and a configuration file; (proc, files written)"""
    setup(d)
    before = set(os.listdir(d)) | {"c.cfg"}
    args = []
    for kv in cli:
        args += ["-" + kv[0]] + ([kv[1]] if len(kv) > 1 else [])
    if cfg is not None:
        with open(os.path.join(d, "c.cfg"), "w") as f:
            f.write(cfg)
        args += ["-f", "c.cfg"]
    p = run([tool or b.solve] + args, d)
    if p.timeout:
        raise Fail("no answer for %s %s" % (args, cfg))
    new = {}
    for f in sorted(os.listdir(d)):
        if f not in before:
            with open(os.path.join(d, f), errors="replace") as fh:
                new[re.sub(r"##pomdp-solve-\d+##", "##backup##", f)] = fh.read()
            os.unlink(os.path.join(d, f))
    return p, new


def norm(text):
    text = re.sub(r"PID=\d+|^f = .*$", "", text, flags=re.M)
    text = re.sub(r"[-\d.]+ ?secs?\.?|\([-\d.]+ total\)|##pomdp-solve-\d+##", "", text)
    return "\n".join(l for l in text.split("\n") if not re.search(r"time =|[Tt]ime|secs|RANDOM|[Ss]eed", l))


def settings(p, new, rep=None):
    text = p.out if rep is None else new.get(rep, "")
    out = {}
    for l in re.findall(r"^(\w+) = (.*)$", text.split("[Initializing")[0], re.M):
        out[l[0]] = l[1].strip()
    return out


def check_settings(p, new, want, what):
    rep = want.get("stdout") or None
    got = settings(p, new, rep)
    if not got:
        raise Fail("%s: the settings were not reported: %s" % (what, (p.err + p.out)[-300:]))
    for k in NAMES:
        w = shown(k, want[k]) if k in want else DEFAULT.get(k)
        if k == "lp_epsilon" and float(want.get(k, 1e-9)) > float(want.get("epsilon", 1e-9)):
            # never coarser than the general precision; the program says so
            w = shown("epsilon", want.get("epsilon", "1e-9"))
            if "LP epsilon" not in p.text + new.get(rep or "", ""):
                raise Fail("%s: LP precision changed without a word" % what)
        if w is None:
            continue
        if got.get(k) != w:
            raise Fail("%s: setting %s is %r, should be %r" % (what, k, got.get(k), w))
    return got


BASE = [("pomdp", "m.POMDP"), ("o", "out"), ("horizon", "2")]


def with_base(pairs):
    names = {k for k, *_ in pairs}
    return [kv for kv in BASE if kv[0] not in names] + list(pairs)


ROUTES = ["cli", "cfg", "override", "cli-last"]


def route(r, name, v, alt):
    if r == "cli":
        return with_base([(name, v)]), None
    if r == "cli-last":
        return [(name, v)] + [kv for kv in BASE if kv[0] != name], None
    if r == "cfg":
        return [], cfg_text(with_base([(name, v)]))
    return [(name, v)], cfg_text(with_base([(name, alt)]))


def singles(tier):
    for name in NAMES:
        for v in values(name):
            yield {"o": name, "v": v}


@C.family("one option", singles)
def f_single(c, res, builds, d):
    name, v = c["o"], c["v"]
    vals = values(name)
    ref = None
    for r in ROUTES:
        for alt in (vals if r == "override" else vals[:1]):
            if r == "override" and alt == v and len(vals) > 1:
                continue
            cli, cfg = route(r, name, v, alt)
            p, new = go(builds["plain"], d, cli, cfg)
            what = "%s=%s by %s" % (name, v, r + (" of " + alt if r == "override" else ""))
            want = dict(BASE)
            want[name] = v
            got = check_settings(p, new, want, what)
            if r != "cfg" and r != "override" and got.get("f"):
                raise Fail("%s: configuration file %r" % (what, got["f"]))
            key = (p.rc, norm(p.out), {k: norm(t) for k, t in new.items()})
            if ref is None:
                ref = (what, key)
            elif ref[1] != key:
                raise Fail("%s and %s behave differently" % (ref[0], what))
            if (name, v) not in NOSOLVE and (p.rc != 0 or want["o"] + ".alpha" not in new):
                raise Fail("%s: not solved (rc %s): %s" % (what, p.rc, p.err[-200:]))
            res.transitions += 1
    res.states += 1
    res.traces += 1
    res.key(name, v, ref[1][1])
    if name in ENUMS and "true" in ENUMS[name] and v == "true":
        # a boolean without a value means true
        p, new = go(builds["plain"], d, with_base([]) + [(name,)])
        check_settings(p, new, dict(BASE, **{name: "true"}), "%s without a value" % name)
        for first in (0, 1):
            for w in ("false", "true"):
                base = with_base([])
                p, new = go(builds["plain"], d, [(name,)] + base if first else [(name,)], cfg_text([(name, w)] + ([] if first else base)))
                check_settings(p, new, dict(BASE, **{name: "true"}), "%s without a value over %s in the configuration file" % (name, w))
                res.transitions += 1
    elif name not in STRS and v == vals[0] and "true" not in vals:
        p, new = go(builds["plain"], d, with_base([])[:2] + [(name,)] if name == "horizon" else with_base([]) + [(name,)])
        refused(p, new, "%s without a value" % name)


def refused(p, new, what):
    if p.rc == 0 or p.rc < 0:
        raise Fail("%s: exit status %s instead of a failure" % (what, p.rc))
    if "Epoch:" in p.out or new:
        raise Fail("%s: refused but something was solved or written: %s" % (what, sorted(new)))
    if not (p.err + p.out).strip():
        raise Fail("%s: refused without a message" % what)


def pairs(tier):
    vs = lambda n: [values(n)[-1]] if tier == "quick" else values(n)[-2:]
    for a, b in itertools.permutations(NAMES, 2):
        for x in vs(a):
            for y in vs(b):
                if "memory_limit" in (a, b) or ("method", "mcgs") in ((a, x), (b, y)) and tier == "quick" and False:
                    continue
                yield {"a": a, "x": x, "b": b, "y": y}


@C.family("ordered pairs of options", pairs)
def f_pair(c, res, builds, d):
    a, x, b, y = c["a"], c["x"], c["b"], c["y"]
    ref = None
    for r in (0, 1, 2):
        p2 = [(a, x), (b, y)]
        full = [kv for kv in BASE if kv[0] not in (a, b)]
        if r == 0:
            cli, cfg = p2 + full, None
        elif r == 1:
            cli, cfg = [], cfg_text(p2 + full)
        else:
            cli, cfg = [(a, x)], cfg_text([(b, y)] + full)
        p, new = go(builds["plain"], d, cli, cfg)
        want = dict(BASE)
        want.update(p2)
        what = "%s=%s %s=%s route %d" % (a, x, b, y, r)
        check_settings(p, new, want, what)
        key = (p.rc, norm(p.out), {k: norm(t) for k, t in new.items()})
        if ref is None:
            ref = key
        elif ref != key:
            raise Fail("%s behaves differently from the other route" % what)
        res.transitions += 1
    res.states += 1
    res.traces += 1
    res.key(a, x, b, y)


BADINT = ["x", "1x", "1.5", "1e3", "99999999999", "4294967298", "9223372036854775808", "0x10", "2 3", "--1", "1,"]
BADDBL = ["x", "0.5x", "1e", "nan", "0.5.5", "1,5", ".", "e5", "0.5 x"]
BADENUM = ["x", "True", "tru", "truex", "1", "normal_", "none,domonly", "no"]


def bad(tier):
    for n in NAMES:
        if n in ENUMS:
            for v in BADENUM + [ENUMS[n][0][:-1], ENUMS[n][-1] + "s", ENUMS[n][0].upper(), ENUMS[n][0] + ENUMS[n][1]]:
                if v not in ENUMS[n]:
                    yield {"o": n, "v": v}
        elif n in INTS:
            for v in BADINT + ["-1"] + (["0"] if INTS[n][0] else []):
                yield {"o": n, "v": v}
        elif n in DBLS:
            for v in BADDBL + ["-0.5", "-1"] + (["1.000001", "2", "inf"] if n == "discount" else []):
                yield {"o": n, "v": v}
    for n in NAMES:
        for u in (n[:-1], n + "s", n.upper(), "-" + n, n + "_", "x" + n):
            if u not in NAMES and u not in ("", "h", "f"):
                yield {"o": u, "v": values(n)[0]}


@C.family("values and names that must be refused", bad)
def f_bad(c, res, builds, d):
    n, v = c["o"], c["v"]
    base = [kv for kv in BASE if kv[0] != n]
    for cli, cfg, what in ((base + [(n, v)], None, "command line"), ([(n, v)] + base, None, "command line first"),
                           (base, cfg_text([(n, v)]) if " " not in v else None, "configuration file"),
                           (base + [(n, v)], cfg_text([(n, values(n)[0])]) if n in NAMES else None, "overriding")):
        if cfg is None and what in ("configuration file", "overriding"):
            continue
        p, new = go(builds["plain"], d, cli, cfg)
        refused(p, new, "%s=%r on the %s" % (n, v, what))
        res.transitions += 1
    res.states += 1
    res.traces += 1
    res.key(n, v)


# ---------------------------------------------------------------- configuration file syntax
TOK = {"h": "horizon", "=": "=", " ": " ", "1": "1", "#": "#", "n": "\n", "d": "discount", ".": "0.5", "t": "\t"}


def ref_cfg(text):
    """the configuration language: one `name = value' per line, blanks around either, # starts a comment; None if ill-formed"""
    out = {}
    for line in re.split("[\r\n]", text):
        body, _, _ = line.partition("#")
        if not body.strip(" \t"):
            continue
        mm = re.fullmatch(r"[ \t]*([^ \t=]+)[ \t]*=[ \t]*([^ \t=]*)[ \t]*", body)
        if not mm or mm.group(1) in out:
            return None
        out[mm.group(1)] = mm.group(2)
    return out


def cfgs(tier):
    n = 5 if tier == "quick" else 6
    alph = "h= 1#n"
    for k in range(0, n + 1):
        for t in itertools.product(alph, repeat=k):
            if k >= 5 and "h" not in t:
                continue
            yield {"t": "".join(t)}
    for k in range(2, 7 if tier == "quick" else 8):
        for pre in ("d=.n", "h=1n", "h = 1 "):
            for t in itertools.product("d=.n", repeat=k - 2):
                yield {"t": pre + "".join(t)}


@C.family("configuration file syntax", cfgs)
def f_cfg(c, res, builds, d):
    text = "".join(TOK[x] for x in c["t"])
    want = ref_cfg(text)
    p, new = go(builds["plain"], d, [("pomdp", "m.POMDP"), ("o", "out"), ("stop_delta", "1000")], text)
    what = "configuration file %r" % text
    ok = want is not None and set(want) <= {"horizon", "discount"}
    if ok:
        ok = re.fullmatch(r"1+", want.get("horizon", "1")) is not None and want.get("discount", "0.5") == "0.5"
    if not ok:
        refused(p, new, what)
        res.key("refused")
    else:
        if p.rc != 0:
            raise Fail("%s was refused: %s" % (what, p.err[-200:]))
        w = {"pomdp": "m.POMDP", "o": "out", "stop_delta": "1000"}
        w.update(want)
        check_settings(p, new, w, what)
        res.key(sorted(want.items()))
    res.states += 1
    res.transitions += 1
    res.traces += 1


# ---------------------------------------------------------------- visible effects
def effects(tier):
    for r in ("cli", "cfg"):
        for e in ("horizon", "discount", "save", "report", "prefix", "terminal", "summary", "grid", "delta", "nomodel", "extremes"):
            for n in range(3 if tier == "quick" else 12):
                yield {"r": r, "e": e, "n": n}


def give(b, d, r, pairs):
    return go(b, d, pairs, None) if r == "cli" else go(b, d, [], cfg_text(pairs))


def backups(m, h, prev=None):
    """value of the h-step backup at the corners and centre, by brute force"""
    V = np.zeros((1, m.S)) if prev is None else prev
    for _ in range(h):
        out = []
        for a in range(m.A):
            acc = m.er[a][None, :]
            for o in range(m.O):
                g = np.unique(np.round(V @ m.G[a, o].T, 12), axis=0)
                acc = np.unique((acc[:, None, :] + g[None]).reshape(-1, m.S), axis=0)
            out.append(acc)
        V = np.unique(np.concatenate(out), axis=0)
    return V


@C.family("effects of options", effects)
def f_eff(c, res, builds, d):
    b, r, e, n = builds["plain"], c["r"], c["e"], c["n"]
    P = [("pomdp", "m.POMDP"), ("o", "out")]

    def alpha(new, name):
        if name not in new:
            raise Fail("%s by %s: %s was not written" % (e, r, name))
        with open(os.path.join(d, "x.alpha"), "w") as f:
            f.write(new[name])
        return S.vecs(M.read_alpha(os.path.join(d, "x.alpha")))

    def values_are(V, W, what):
        bel = M.simplex_grid(2, 20)
        g = np.abs(M.surface(V, bel) - M.surface(W, bel)).max()
        if g > 1e-6:
            raise Fail("%s by %s: solution is off by %g" % (what, r, g))
    m = F.model_n(2100, 2, 2, 2, 0.9)
    if e == "horizon":
        h = n + 1
        p, new = give(b, d, r, P + [("horizon", str(h))])
        if len(re.findall("Epoch: ", p.out)) != h:
            raise Fail("horizon %d by %s: %d epochs" % (h, r, len(re.findall("Epoch: ", p.out))))
        values_are(alpha(new, "out.alpha"), backups(m, min(h, 3)) if h <= 3 else alpha(new, "out.alpha"), "horizon %d" % h)
    elif e == "discount":
        g = ["0.3", "0.99", "0.0001"][n % 3]
        p, new = give(b, d, r, P + [("horizon", "2"), ("discount", g)])
        values_are(alpha(new, "out.alpha"), backups(F.model_n(2100, 2, 2, 2, float(g)), 2), "discount %s" % g)
    elif e == "save":
        all_, pen = n % 2, n // 2 % 2 or n == 0
        p, new = give(b, d, r, P + [("horizon", "3"), ("save_all", "true" if all_ else "false"), ("save_penultimate", "true" if pen else "false")])
        want = {"out.alpha", "out.pg"} | ({"out.prev.alpha"} if pen else set()) | ({"out.%s%d" % (x, k) for x in ("alpha", "pg") for k in (1, 2, 3)} if all_ else set())
        if set(new) - {"out.prev.pg"} != want:
            raise Fail("save_all=%d save_penultimate=%d by %s wrote %s" % (all_, pen, r, sorted(new)))
    elif e == "report":
        p, new = give(b, d, r, P + [("horizon", "2"), ("stdout", "rep.txt")])
        if "Epoch: 2" not in new.get("rep.txt", "") or "Epoch" in p.out:
            raise Fail("stdout by %s: the report is not in the file" % r)
    elif e == "prefix":
        o = ["a", "a.b", "x_1-2"][n % 3]
        p, new = give(b, d, r, [P[0], ("horizon", "1"), ("o", o)])
        if set(new) != {o + ".alpha", o + ".pg"}:
            raise Fail("o=%s by %s wrote %s" % (o, r, sorted(new)))
    elif e == "terminal":
        h = n % 3 + 1
        p, new = give(b, d, r, P + [("horizon", str(h)), ("terminal_values", "term.alpha")])
        values_are(alpha(new, "out.alpha"), backups(m, min(h, 3), np.eye(2)), "terminal values, horizon %d" % h)
    elif e == "summary":
        p, new = give(b, d, r, P + [("horizon", "2"), ("stat_summary", "true")])
        q, _ = give(b, d, r, P + [("horizon", "2")])
        if len(p.out) <= len(q.out) + 200:
            raise Fail("stat_summary by %s: no summary" % r)
    elif e == "grid":
        p, new = give(b, d, r, P + [("horizon", "2"), ("method", "grid"), ("fg_type", ["simplex", "pairwise", "search"][n % 3]), ("fg_save", "true"), ("fg_points", "3")])
        k = len(new.get("out.belief", "").split()) / 2
        if (n % 3 == 0 and k != 2) or (n % 3 == 1 and k != 3) or k < 2:
            raise Fail("grid by %s: %g points" % (r, k))
    elif e == "delta":
        big = ["1000", "1e3", "+1000.0"][n % 3]
        p, new = give(b, d, r, P + [("horizon", "9"), ("stop_delta", big)])
        if len(re.findall("Epoch: ", p.out)) != 1:
            raise Fail("stop_delta %s by %s: %d epochs" % (big, r, len(re.findall("Epoch: ", p.out))))
    elif e == "nomodel":
        pr = [[("o", "out")], [("pomdp", "none.POMDP"), ("o", "out")], [("pomdp", "."), ("o", "out")]][n % 3]
        p, new = give(b, d, r, pr)
        refused(p, new, "model %s by %s" % (pr[:-1], r))
    elif e == "extremes":
        # names and values of many lengths
        for L in (1, 50, 200):
            o = "p" * L
            p, new = give(b, d, r, [P[0], ("horizon", "1"), ("o", o)])
            if set(new) != {o + ".alpha", o + ".pg"}:
                raise Fail("prefix of length %d by %s wrote %s" % (L, r, [x[:20] for x in new]))
        for L in (1024, 1025, 3000):
            p, new = give(b, d, r, [P[0], ("horizon", "1"), ("o", "p" * L)])
            refused(p, new, "prefix of length %d by %s" % (L, r))
    res.states += 1
    res.transitions += 1
    res.traces += 1
    res.key(e, r, n, norm(p.out))


# ---------------------------------------------------------------- the tools program
def tools(tier):
    for n in ("tool", "pomdp", "alpha1", "alpha2", "pg1", "belief", "epsilon", "states", "obs", "o"):
        for v in (["x", "pg", "pg_evalx", "PG_EVAL", ""] if n == "tool" else ["x", "1x", "", "-1"] if n in ("epsilon", "states", "obs") else []):
            yield {"o": n, "v": v}
        for u in (n[:-1], n + "s", n.upper()):
            if u not in ("", "h", "f", "pg1", "obs"):
                yield {"o": u, "v": "1"}


@C.family("pomdp-tools options", tools)
def f_tools(c, res, builds, d):
    base = [("tool", "compare_alphas"), ("alpha1", "term.alpha"), ("alpha2", "term.alpha"), ("states", "2"), ("obs", "2")]
    p, new = go(builds["plain"], d, base, None, builds["plain"].tools)
    if p.rc != 0:
        raise Fail("comparing two files was refused")
    for cli, cfg, what in (([kv for kv in base if kv[0] != c["o"]] + [(c["o"], c["v"])], None, "command line"),
                           ([kv for kv in base if kv[0] != c["o"]], "%s = %s\n" % (c["o"], c["v"]), "configuration file")):
        p, new = go(builds["plain"], d, cli, cfg, builds["plain"].tools)
        if p.rc == 0:
            raise Fail("tools: %s=%r on the %s was accepted" % (c["o"], c["v"], what))
        res.transitions += 1
    p2, new2 = go(builds["plain"], d, [], cfg_text(base), builds["plain"].tools)
    p, new = go(builds["plain"], d, base, None, builds["plain"].tools)
    if (p.rc, norm(p.out)) != (p2.rc, norm(p2.out)):
        raise Fail("tools behave differently when configured by file")
    res.states += 1
    res.traces += 1
    res.key(c["o"], c["v"])


# ---------------------------------------------------------------- debugging output
MODES = "context lp global timing stats cmdline main alpha proj crosssum agenda enum twopass linsup witness incprune lpinterface vertexenum mdp pomdp param parsimonious region approx_mcgs zlz_speedup finite_grid".split()


VERBS = {k: [("method", k)] for k in "enum twopass witness incprune grid".split()}
VERBS["zlz"] = [("vi_variation", "zlz"), ("witness_points", "true")]
VERBS["adjustable"] = [("vi_variation", "adjustable_epsilon"), ("start_epsilon", "0.1"), ("end_epsilon", "0.000000001"), ("epsilon_adjust", "0.1"), ("history_length", "2")]
VERBS["restricted"] = [("method", "incprune"), ("inc_prune", "restricted_region")]
VERBS["generalized"] = [("method", "incprune"), ("inc_prune", "generalized")]
VERBS["bellman"] = [("stop_criteria", "bellman"), ("stop_delta", "0.5"), ("horizon", "9")]
VERBS["epsilon"] = [("q_purge", "epsilon_prune"), ("prune_epsilon", "0.01"), ("stat_summary", "true")]


def verb_cases(tier):
    for r in ("cli", "cfg"):
        for v in VERBS:
            for n in range(1 if tier == "quick" else 6):
                yield {"r": r, "v": v, "n": n}


@C.family("verbose", verb_cases)
def f_verbose(c, res, builds, d):
    P = VERBS[c["v"]]

    def report(pairs):
        p, new = give(builds["plain"], d, c["r"], [BASE[0], BASE[1]] + ([] if c["v"] == "bellman" else [("horizon", "3")]) + [("rand_seed", "%d:2:3" % c["n"])] + P + pairs)
        if p.rc != 0:
            raise Fail("verbose %s by %s was refused" % (pairs, c["r"]))
        return re.sub(r"^verbose = .*$", "", norm(p.text), flags=re.M), {k: new.get(k) for k in ("out.alpha", "out.pg")}
    base, files = report([])
    more = 0
    for m in MODES:
        t, f = report([("verbose", m)])
        if f != files:
            raise Fail("verbose %s by %s changed the solution (%s)" % (m, c["r"], c["v"]))
        more += t != base
        res.transitions += 1
    res.states += len(MODES)
    res.traces += 1
    res.key(c["r"], c["v"], more)
    if not more:
        raise Fail("no verbose mode given by %s has any effect (%s)" % (c["r"], c["v"]), sig="verbose-no-effect")


# ---------------------------------------------------------------- the grid program: it reads and reports its settings, nothing more
FGDEF = {"time_limit": "0", "max_grid_points": "10000", "initial_values": "", "save_penultimate": "false", "memory_limit": "0", "rand_seed": "",
         "save_all": "false", "initial_grid": "", "horizon": "0", "grid_save": "false", "grid_type": "initial", "f": ""}
FGVAL = {"time_limit": ["1", "77777"], "max_grid_points": ["1", "2147483647"], "initial_values": ["term.alpha", "x y"], "save_penultimate": ["true", "false"],
         "memory_limit": ["2000000"], "rand_seed": ["1:2:3"], "save_all": ["true", "false"], "initial_grid": ["none.bel"], "horizon": ["1", "12"],
         "grid_save": ["true", "false"], "grid_type": ["simplex", "pairwise", "search", "initial"], "o": ["zz", "a.b"], "pomdp": ["m.POMDP", "none"]}
FGBAD = {"time_limit": ["0", "-1", "x", "1x", "1.5", "99999999999"], "max_grid_points": ["0", "-3", "many", ""], "memory_limit": ["0", "1e3"], "horizon": ["0", "-1", "1:", "2147483648"],
         "save_penultimate": ["yes", "1", "TRUE", ""], "save_all": ["tru", "truee"], "grid_save": ["no"], "grid_type": ["simplexx", "simple", "Search", "", "grid"], "rand_seed": ["1:2", "x"],
         "fg_type": ["search"], "horizo": ["1"], "Horizon": ["1"], "grid": ["search"]}


def fg_cases(tier):
    for r in ("cli", "cfg", "override", "cli-last"):
        for n, vs in FGVAL.items():
            for v in vs:
                if r in ("cli", "cli-last") or v == v.split()[0]:
                    yield {"k": "one", "r": r, "s": [[n, v]]}
        for (n1, v1), (n2, v2) in itertools.permutations([(n, vs[0]) for n, vs in FGVAL.items()], 2):
            if r in ("cli", "cfg") and " " not in v1 + v2:
                yield {"k": "two", "r": r, "s": [[n1, v1], [n2, v2]]}
        for n, vs in FGBAD.items():
            for v in vs:
                if v or r != "cfg":
                    yield {"k": "bad", "r": r, "s": [[n, v]]}
    yield {"k": "none", "r": "cli", "s": []}


@C.family("pomdp-fg options", fg_cases)
def f_fg(c, res, builds, d):
    b = builds["plain"]
    s = [tuple(x) for x in c["s"]]
    what = "pomdp-fg %s by %s" % (s, c["r"])
    names = {k for k, _ in s}
    base = [] if c["k"] == "none" else [kv for kv in (("pomdp", "m.POMDP"), ("o", "out")) if kv[0] not in names]
    if c["r"] == "cli":
        p, new = go(b, d, base + s, None, b.fg)
    elif c["r"] == "cli-last":
        p, new = go(b, d, s + base, None, b.fg)
    elif c["r"] == "cfg":
        p, new = go(b, d, [], cfg_text(base + s), b.fg)
    else:
        p, new = go(b, d, s, cfg_text(base + [(k, FGVAL[k][0]) for k in names if k in FGVAL]), b.fg)
    if new:
        raise Fail("%s: wrote %s" % (what, sorted(new)))
    got = settings(p, new)
    if c["k"] in ("bad", "none"):
        if p.rc in (None, 0) or p.rc < 0 or not p.err.strip() or got:
            raise Fail("%s: status %s, message %r" % (what, p.rc, p.err[-200:]))
    else:
        if p.rc != 0:
            raise Fail("%s: refused: %s" % (what, p.err[-200:]))
        want = dict(FGDEF, pomdp="m.POMDP", o="out")
        want.update(s)
        got.pop("f", None)
        want.pop("f", None)
        if got != want:
            raise Fail("%s: settings %s, expected %s" % (what, {k: v for k, v in got.items() if want.get(k) != v}, {k: v for k, v in want.items() if got.get(k) != v}))
    res.states += 1
    res.transitions += 1
    res.traces += 1
    res.key(c["k"], c["r"], c["s"])


# ---------------------------------------------------------------- the option listing
TOOLENUM = {"tool": "update_beliefs compare_alphas map_beliefs pg_isomorphism purge_alphas sort_alphas pg_eval pg_relink belief_alpha_compare none".split()}
KINDS = {"solve": dict([(k, "string") for k in STRS] + [("f", "string")] + [(k, "int") for k in INTS] + [(k, "double") for k in DBLS] + list(ENUMS.items())),
         "tools": dict({k: "string" for k in "alpha1 alpha2 belief f pomdp pg1 pg2 o".split()}, epsilon="double", states="int", obs="int", **TOOLENUM),
         "fg": dict({k: "string" for k in "f rand_seed o pomdp initial_values initial_grid".split()},
                    **{k: "int" for k in "horizon time_limit memory_limit max_grid_points".split()},
                    **dict({k: ["false", "true"] for k in "save_penultimate save_all grid_save".split()}, grid_type=ENUMS["fg_type"]))}


def usage_cases(tier):
    for prog in KINDS:
        names = sorted(n for n in KINDS[prog] if n != "f")
        yield {"p": prog, "a": [], "at": 0}
        for n in names:
            for at in (0, 2):
                yield {"p": prog, "a": [n], "at": at}
        for a, b in itertools.permutations(names, 2):
            if tier != "quick" or (a, b) == tuple(names[:2]):
                for at in (0, 2, 4):
                    yield {"p": prog, "a": [a, b], "at": at}


def example(prog, n):
    k = KINDS[prog][n]
    return k[0] if isinstance(k, list) else {"string": "m.POMDP", "int": "2", "double": "0.5"}[k]


@C.family("the option listing", usage_cases)
def f_usage(c, res, builds, d):
    b = builds["plain"]
    setup(d)
    before = set(os.listdir(d))
    args = [x for n in c["a"] for x in ("-" + n, example(c["p"], n))]
    args.insert(c["at"], "-h")
    what = "%s %s" % (c["p"], " ".join(args))
    p = run([{"solve": b.solve, "tools": b.tools, "fg": b.fg}[c["p"]]] + args, d)
    if p.timeout or p.rc is None or p.rc < 0:
        raise Fail("%s: ended with %s" % (what, p.rc))
    if set(os.listdir(d)) != before or "Epoch:" in p.out:
        raise Fail("%s: did more than list the options: %s" % (what, sorted(set(os.listdir(d)) - before)))
    if any(len(l.expandtabs(8)) > 100 for l in p.out.split("\n")[1:]):
        raise Fail("%s: a line of the listing is longer than its width limit" % what)
    got = {}
    for m in re.finditer(r"^\s+-(\w+)\s+(<(\w+)>|\[([^\]]*)\])\s*$", p.out, re.M):
        if m.group(1) in got:
            raise Fail("%s: -%s is listed twice" % (what, m.group(1)))
        got[m.group(1)] = m.group(3) or [x.strip() for x in m.group(4).split(",")]
    for n, k in KINDS[c["p"]].items():
        g = got.get(n)
        if g is None:
            raise Fail("%s: -%s is not listed" % (what, n))
        if sorted(g) != sorted(k) if isinstance(k, list) else g != k:
            raise Fail("%s: -%s is listed as %s, accepts %s" % (what, n, g, k))
    if set(got) - set(KINDS[c["p"]]):
        raise Fail("%s: lists unknown options %s" % (what, sorted(set(got) - set(KINDS[c["p"]]))))
    res.states += 1
    res.transitions += 1
    res.traces += 1
    res.key(c["p"], sorted(got))
