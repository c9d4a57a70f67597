import importlib, os, re, sys
import vt, families as F, solve as S
from vt import Check, Fail, Skip, Res, run

C = Check("P26", "model_checking",
          "exhaustive enumeration of the bounded families of the other properties, every process run on instrumented builds of the real programs (address and undefined-behaviour checks; reads of uninitialised memory)",
          "a case is a member of a family of another property; states = processes run on an instrumented build; distinct = different (family, instrumentation, program, exit status)",
          ["gcc's address and undefined-behaviour sanitizers and clang's memory sanitizer report what they can see: leaks are not errors, reads within one allocation are not checked for meaning",
           "the verdict of the other property on the case is not used here"],
          variants=("plain", "asan", "msan"))
BAD = re.compile(rb"(AddressSanitizer|MemorySanitizer|LeakSanitizer|UndefinedBehaviorSanitizer|runtime error:|stack smashing|double free|corrupted)")


class Mem(BaseException):
    pass


_now = {}


def on_proc(args, rc, err):
    prog = os.path.basename(args[0])
    _now["n"] += 1
    _now["keys"].add((prog, rc))
    m = BAD.search(err)
    if m or rc in (86, 87) or rc in (-11, -7, -8, -4):
        t = err[m.start():] if m else err
        raise Mem("%s %s: status %s: %s" % (prog, " ".join(map(str, args[1:]))[:400], rc, t[:900].decode("latin-1")))


def mirror(mod, fam, fn):
    def f(c, res, builds, d):
        b = builds[c["b"]]
        _now.update(n=0, keys=set())
        vt.ON_PROC = on_proc
        try:
            fn(c["c"], Res(), {"plain": b, "asan": b}, d)
        except Mem as e:
            raise Fail("%s, family '%s' of %s: %s" % (c["b"], fam, mod, e), "start-wildcard-%s" % c["c"] if fam == "wildcards in start lists" else None)
        except (Fail, Skip, ValueError, LookupError, OSError, TypeError, AttributeError, ArithmeticError):
            res.note("no verdict by %s (instrumented programs are slower)" % mod)
        finally:
            vt.ON_PROC = None
        res.states += _now["n"]
        res.transitions += _now["n"]
        res.traces += _now["n"]
        for k in _now["keys"]:
            res.key(fam, c["b"], k)
    return f



# ---------------------------------------------------------------- the check's own families
TINY = F.model_n(2100, 2, 2, 2, 0.9)
ONE = "discount: 0.5\nvalues: reward\nstates: 1\nactions: 1\nobservations: 1\nT: * identity\nO: * uniform\nR: * : * : * : * 1\n"
ALPHA = "0\n1.0 0.0\n\n1\n0.0 1.0\n\n"
SHORT = sorted({1, 8, 16} | {k + j for k in (32, 64, 100, 128, 256, 512, 1000, 1024, 1096, 1200, 2048, 4096) for j in (-1, 0, 1)})
LENS = sorted({1, 2, 3, 7, 8, 9, 15, 16, 17} | {k + j for k in (32, 64, 100, 128, 256, 512, 1000, 1024, 1096, 1200, 2048, 4096) for j in (-2, -1, 0, 1, 2)})
LONG = [5000, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 20000]


def watched(c, res, what, fn):
    """runs fn with every process watched"""
    _now.update(n=0, keys=set())
    vt.ON_PROC = on_proc
    try:
        fn()
    except Mem as e:
        raise Fail("%s, %s: %s" % (c["b"], what, e))
    finally:
        vt.ON_PROC = None
    res.states += _now["n"]
    res.transitions += _now["n"]
    res.traces += _now["n"]
    for k in _now["keys"]:
        res.key(what, c["b"], k)


def both(cases):
    def g(tier):
        for c in cases(tier):
            for b in ("asan", "msan"):
                yield dict(c, b=b)
    return g


def wr(d, name, text):
    with open(os.path.join(d, name), "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def pad(name, n):
    """a valid path to `name` of n characters, if n is large enough"""
    k = n - len(name)
    return name if k < 2 else "./" * (k // 2) + ("/" if k % 2 else "") + name


SOLVE = ["pomdp", "o", "terminal_values", "stdout", "rand_seed", "horizon", "discount", "epsilon", "method", "verbose", "time_limit", "memory_limit", "q_purge", "save_all", "no_such_option"]
FG = ["pomdp", "o", "initial_values", "initial_grid", "rand_seed", "horizon", "time_limit", "memory_limit", "max_grid_points", "grid_type", "grid_save", "save_all", "no_such_option"]
FGFILES = ("pomdp", "o", "initial_values", "initial_grid")
TOOLS = {"map_beliefs": ["states", "alpha1", "belief", "o"], "sort_alphas": ["states", "alpha1", "o"], "purge_alphas": ["states", "alpha1", "o"],
         "compare_alphas": ["states", "alpha1", "alpha2", "o"], "belief_alpha_compare": ["states", "alpha1", "alpha2", "belief", "o"],
         "pg_relink": ["pomdp", "alpha1", "alpha2", "pg1", "o"], "pg_eval": ["pomdp", "pg1"], "pg_isomorphism": ["states", "obs", "pg1", "pg2", "o"], "update_beliefs": ["pomdp", "belief"]}
FILES = {"pomdp": "m.POMDP", "o": "out", "terminal_values": "t.alpha", "stdout": "rep", "states": "2", "actions": "2", "obs": "2",
         "alpha1": "t.alpha", "alpha2": "t.alpha", "belief": "b.bel", "pg1": "g.pg", "pg2": "g.pg", "horizon": "2", "discount": "0.5", "epsilon": "0.001",
         "method": "enum", "verbose": "lp", "time_limit": "100", "memory_limit": "1000000", "q_purge": "none", "save_all": "true", "initial_values": "t.alpha", "initial_grid": "b.bel", "max_grid_points": "5", "grid_type": "search", "grid_save": "true", "rand_seed": "1:2:3", "no_such_option": "x"}


def stock(d):
    wr(d, "m.POMDP", TINY.text())
    wr(d, "t.alpha", ALPHA)
    wr(d, "b.bel", "0.5 0.5\n0.25 0.75\n")
    wr(d, "g.pg", "0 0 0 1\n1 1 1 0\n")


def long_value(o, n, how):
    v = FILES[o]
    if how == "path":
        return pad(v, n)
    if how == "zeros":
        return "0" * max(0, n - len(v)) + v
    return "x" * n


def opt_cases(tier):
    L = LENS + LONG if tier == "thorough" else SHORT + LONG[2:5]
    for n in L:
        for o in SOLVE:
            for how in ("path",) if o in ("pomdp", "o", "terminal_values", "stdout") else ("zeros", "junk"):
                for r in ("cli", "cfg"):
                    yield {"p": "solve", "o": o, "n": n, "how": how, "r": r}
        for o in ("name", "proper", "flag", "argv0"):
            for p in ("solve", "tools", "fg"):
                yield {"p": p, "o": o, "n": n, "how": "junk", "r": "cli"}
        for o in ("m", "m.P", "m.POMDP"):
            for p in ("solve", "fg"):
                yield {"p": p, "o": o, "n": n, "how": "path", "r": "default prefix"}
                yield {"p": p, "o": o, "n": n, "how": "slashes", "r": "default prefix"}
        for o in ("cfgname", "comment", "cfgline", "blank"):
            yield {"p": "solve", "o": o, "n": n, "how": "junk", "r": "cfg"}
        for o in FG:
            for how in ("path",) if o in FGFILES else ("zeros", "junk"):
                for r in ("cli", "cfg"):
                    yield {"p": "fg", "o": o, "n": n, "how": how, "r": r}
        for t, os_ in TOOLS.items():
            for o in os_:
                yield {"p": t, "o": o, "n": n, "how": "zeros" if FILES[o].isdigit() else "path", "r": "cli"}


@C.family("lengths of option values, names, arguments and configuration lines", both(opt_cases))
def f_len(c, res, builds, d):
    b = builds[c["b"]]
    stock(d)
    n, o = c["n"], c["o"]
    prog = b.solve if c["p"] == "solve" else b.fg if c["p"] == "fg" else b.tools
    base = {"pomdp": "m.POMDP", "o": "out", "horizon": "2"} if c["p"] == "solve" else {} if c["p"] == "tools" else {"pomdp": "m.POMDP"} if c["p"] == "fg" else {k: FILES[k] for k in TOOLS[c["p"]]}
    args = [] if c["p"] in ("solve", "tools", "fg") else ["-tool", c["p"]]
    cfg = None
    if c["r"] == "default prefix":
        wr(d, o, ONE)
        base = {"pomdp": pad(o, n) if c["how"] == "path" else "." + "/" * (n - len(o) - 1) + o, "horizon": "1"}
    elif o in ("name", "proper", "flag", "argv0", "cfgname", "comment", "cfgline", "blank"):
        x = "x" * n
        if o == "name":
            args += ["-" + x, "1"]
        elif o == "proper":
            args += [x]
        elif o == "flag":
            args += ["-" + x]
        elif o == "argv0":
            os.symlink(prog, os.path.join(d, "prog"))
            prog = pad("./prog", n) if n < 4000 else prog
        else:
            cfg = {"cfgname": x + " = 1\n", "comment": "#" + x + "\n", "cfgline": x + "\n", "blank": " " * n + "horizon" + " " * n + "=" + " " * n + "2" + " " * n + "\n"}[o]
    elif c["r"] == "cfg":
        cfg = "%s = %s\n" % (o, long_value(o, n, c["how"]))
        base.pop(o, None)
    else:
        base[o] = long_value(o, n, c["how"])
    for k, v in base.items():
        args += ["-" + k, v]
    if cfg is not None:
        wr(d, "c.cfg", cfg)
        args += ["-f", "c.cfg"]
    watched(c, res, "%s option %s of length %d" % (c["p"], o, n), lambda: run([prog] + args, cwd=d))
    res.key(c["p"], o, c["how"])


COUNTS = [0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 300]


def count_cases(tier):
    for n in COUNTS:
        for what in ("flags", "args", "options", "cfglines", "cfgother", "states", "actions", "observations", "names", "alphas", "beliefs", "pgnodes", "identical"):
            yield {"w": what, "n": n}
    for n in LENS + LONG:
        for what in ("ident", "number", "digits", "comment", "rowline", "nonewline"):
            yield {"w": what, "n": n}
        for what in ("alphatok", "beltok", "pgtok", "alphaline", "seedtok"):
            yield {"w": what, "n": n}


def big_model(S_, A, O):
    return ("discount: 0.5\nvalues: reward\nstates: %d\nactions: %d\nobservations: %d\nT: * identity\nO: * uniform\nR: * : 0 : * : * 1\nR: 0 : * : * : * 0.5\n" % (S_, A, O))


@C.family("numbers of things and lengths of words", both(count_cases))
def f_count(c, res, builds, d):
    b = builds[c["b"]]
    stock(d)
    n, w = c["n"], c["w"]
    S0 = [b.solve, "-pomdp", "m.POMDP", "-o", "out", "-horizon", "2"]
    runs = []
    model = None
    if w == "flags":
        runs = [S0 + ["-x%d" % i for i in range(n)], [b.tools] + ["-x%d" % i for i in range(n)]]
    elif w == "args":
        runs = [S0 + ["x%d" % i for i in range(n)], [b.tools, "-tool", "sort_alphas"] + ["x%d" % i for i in range(n)]]
    elif w == "options":
        runs = [S0 + sum((["-x%d" % i, "1"] for i in range(n)), []), S0 + ["-epsilon", "0.001"] * n]
    elif w in ("cfglines", "cfgother"):
        wr(d, "c.cfg", "".join("epsilon = 0.001\n" if w == "cfglines" else "x%d = 1\n" % i for i in range(n)))
        runs = [S0 + ["-f", "c.cfg"]]
    elif w in ("states", "actions", "observations"):
        if n > 130 and w == "states":
            n = n // 4
        model = big_model(n if w == "states" else 2, n if w == "actions" else 2, n if w == "observations" else 2)
        runs = [S0 + ["-method", "incprune"], S0 + ["-method", "grid", "-fg_points", "5"]]
    elif w == "names":
        model = "discount: 0.5\nvalues: reward\nstates: %s\nactions: a b\nobservations: 2\nstart include: %s\nT: * identity\nO: * uniform\nR: * : * : * : * 1\n" % (
            " ".join("s%d" % i for i in range(n)), " ".join("s%d" % i for i in range(0, n, 2)))
        runs = [S0[:-1] + ["1"]]
    elif w in ("alphas", "beliefs", "pgnodes", "identical"):
        al = "".join("%d\n%g %g\n\n" % ((i % 3,) + ((1.0 + i, 1.0 - i) if w == "alphas" else (1.0, 2.0))) for i in range(n)) if w in ("alphas", "identical") else ALPHA
        wr(d, "t.alpha", al)
        if w == "beliefs":
            wr(d, "b.bel", "".join("%.9g %.9g\n" % ((i / max(1, n)), 1 - i / max(1, n)) for i in range(n)))
        if w == "pgnodes":
            wr(d, "g.pg", "".join("%d %d  %d %d\n" % (i, i % 2, (i + 1) % n, i * 7 % n) for i in range(n)))
        runs = [[b.tools, "-tool", t] + sum((["-" + o, FILES[o]] for o in TOOLS[t]), []) for t in TOOLS]
        runs += [S0 + ["-terminal_values", "t.alpha"]]
    elif w in ("ident", "number", "digits", "comment", "rowline", "nonewline"):
        t = TINY.text()
        x = "x" * n
        model = {"ident": "discount: 0.9\nvalues: reward\nstates: %s b\nactions: a%s c\nobservations: o%s p\nT: * identity\nO: * uniform\nR: a%s : %s : * : o%s 1\n" % (x, x, x, x, x, x),
                 "number": "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nT: * identity\nO: * uniform\nR: 0 : * : * : * 1." + "1" * n + "\n",
                 "digits": "discount: 0.9\nvalues: reward\nstates: " + "0" * n + "2\nactions: 2\nobservations: 2\nT: * identity\nO: * uniform\nR: " + "0" * n + " : * : * : * 1\n",
                 "comment": "#" + x + "\n" + t + "#" + x + "\n", "rowline": t.replace("\n", " " * n + "\n"), "nonewline": t.rstrip("\n") + " " * n}[w]
        runs = [S0]
    elif w in ("alphatok", "alphaline"):
        wr(d, "t.alpha", "0\n1.%s 0.5\n\n1\n0.0%s1.0\n\n" % ("0" * n, " " * n if w == "alphaline" else " "))
        runs = [S0 + ["-terminal_values", "t.alpha"], [b.tools, "-tool", "sort_alphas", "-states", "2", "-alpha1", "t.alpha", "-o", "out"]]
    elif w == "beltok":
        wr(d, "b.bel", "0.5%s 0.5\n" % ("0" * n))
        runs = [[b.tools, "-tool", "map_beliefs"] + sum((["-" + o, FILES[o]] for o in TOOLS["map_beliefs"]), [])]
        wr(d, "in", "%s %s\n" % ("0" * n + "0", "0" * n + "1"))
        runs += [[b.tools, "-tool", "update_beliefs", "-pomdp", "m.POMDP", "-belief", "b.bel"]]
    elif w == "pgtok":
        wr(d, "g.pg", "0 0 0 %s1\n1 1%s 1 0\n" % ("0" * n, " " * n))
        runs = [[b.tools, "-tool", "pg_eval", "-pomdp", "m.POMDP", "-pg1", "g.pg"]]
    elif w == "seedtok":
        runs = [S0 + ["-rand_seed", "1:%s2:3" % ("0" * n)]]
    if model is not None:
        wr(d, "m.POMDP", model)
    for r in runs:
        inp = None
        if "update_beliefs" in r:
            inp = ("%s1 %s1\n%s q\n" % ("0" * (n if w == "beltok" else 1), "0", "y" * n)).encode()
        watched(c, res, "%s %d" % (w, n), lambda: run(r, cwd=d, stdin=inp))
    res.key(w)


MODULES = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P27", "P29"]

# the families run in the quick tier, whole; the thorough tier runs all of them
QUICK = {
    "P01": ["shapes", "examples"], "P03": ["ties"], "P04": ["impossible-observations", "examples"], "P06": ["terminal sets"],
    "P07": ["default output names"], "P10": ["start forms", "layouts", "number forms", "larger models in all styles", "shipped models", "wildcards in start lists"],
    "P11": ["token faults", "invalid start and number forms", "missing rows, preamble lines and files"],
    "P13": ["insertion orders"], "P15": ["region tests and starting points"], "P16": ["every program after every other"],
    "P17": ["invalid lines at every position", "long histories", "nearly excluded states that come back"],
    "P18": ["larger indexed controllers, orders, separators, impossible observations", "discount factors near one", "malformed graphs are refused"],
    "P19": ["sort and purge", "relinking policy graphs", "long lists of vectors and beliefs"],
    "P21": ["one option", "values and names that must be refused", "effects of options", "pomdp-tools options", "pomdp-fg options"],
    "P22": ["write and read back", "truncation at every byte", "corruption of every token"], "P23": ["every stream resumes at every position", "incomplete seeds are refused"],
    "P27": ["epsilon pruning", "coarse precision", "adjustable precision"],
    "P29": ["epochs and summary", "grid method", "variations", "where the report goes"]}


def mirrored(mod, fam, cases):
    def g(tier):
        if tier == "quick" and fam not in QUICK.get(mod, ()):
            return
        for c in cases("quick"):
            for b in ("asan", "msan"):
                yield {"c": c, "b": b}
    return g


for mod in MODULES:
    m = importlib.import_module(mod)
    C.harnesses.update(m.C.harnesses)
    C.optional_harnesses.update(m.C.harnesses)
    for fam, fn, cases in m.C.families:
        C.family("%s %s" % (mod, fam), mirrored(mod, fam, cases))(mirror(mod, fam, fn))
    assert not set(QUICK.get(mod, ())) - {f for f, _, _ in m.C.families}, mod
