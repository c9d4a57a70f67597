"""Builds pomdp-solve from /repo's current working tree, outside /repo.

Every check calls `get(variant)`; the result is a directory with the binaries
and static libraries.  The directory name is a hash over the content of every
source file and the flags, so an edited tree can never be served stale objects.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".build")
# generated parsers: the committed C is used unless only the grammar was edited
# (same rule as /opt/vp/build.sh).  (source, [outputs], tool)
GEN = [("src/mdp/parser.y", ["src/mdp/parser.c", "src/mdp/parser.h"], "bison"),
       ("src/mdp/scanner.l", ["src/mdp/scanner.c"], "flex"),
       ("src/lp-solve/lp.y", ["src/lp-solve/lp.c", "src/lp-solve/lp.h"], "bison"),
       ("src/lp-solve/lex.l", ["src/lp-solve/lex.c"], "flex")]
BASE = {}
with open(os.path.join(HERE, "lib", "grammar.sha256")) as _f:
    for _l in _f:
        _h, _n = _l.split()
        BASE[_n] = _h

MAINS = {"src/main.c", "src/pomdp-tools-main.c", "src/pomdp-fg-main.c"}
SKIP_LP = {"demo.c", "from_solve.c", "lp2mps.c", "lp_solve.c", "mps2lp.c"}
VARIANTS = {
    "plain": ("gcc", ["-O2", "-g"], []),
    "asan": ("gcc", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
    # reads of uninitialised memory that decide something
    "msan": ("clang", ["-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"],
             ["-fsanitize=memory"]),
    # every basic block calls __sanitizer_cov_trace_pc(): the step counter of harness/inject.c
    "steps": ("gcc", ["-O1", "-g", "-fsanitize-coverage=trace-pc"],
              [os.path.join(HERE, "harness", "stepstub.c")]),
    "stepsasan": ("gcc", ["-O1", "-g", "-fsanitize=address", "-fsanitize-coverage=trace-pc"],
                  ["-fsanitize=address", os.path.join(HERE, "harness", "stepstub.c")]),
}
COMMON = ["-w", "-DHAVE_CONFIG_H"]


class BuildError(Exception):
    pass


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds[:] = sorted(x for x in ds if not x.startswith("."))
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".y", ".l", ".def", ".inc")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def tree_hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files + ["config.h"]:
        h.update(f.encode())
        p = os.path.join(REPO, f)
        h.update(sha(p).encode() if os.path.exists(p) else b"-")
    return h.hexdigest()[:20]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def get(variant="plain", defs=()):
    files = tree_files()
    cc, cflags, ldflags = VARIANTS[variant]
    key = variant + "-" + tree_hash(files, variant + repr((cc, cflags, ldflags, COMMON, tuple(defs))))
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock-" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            os.utime(dest)
            return Build(dest, variant)
        _prune()
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        _build(dest, files, cc, COMMON + cflags + ["-D" + d for d in defs], ldflags)
        open(os.path.join(dest, "ok"), "w").close()
    return Build(dest, variant)


def _prune(keep=12):
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if not d.startswith("lock-")]
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.unlink(os.path.join(CACHE, "lock-" + os.path.basename(d)))
        except OSError:
            pass


def _build(dest, files, cc, cflags, ldflags):
    src = os.path.join(dest, "tree")
    for f in files + ["config.h"]:
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
            shutil.copyfile(p, os.path.join(src, f))

    def changed(names):
        for n in names:
            p = os.path.join(REPO, n)
            if not os.path.exists(p) or sha(p) != BASE.get(n):
                return True
        return False

    for g, outs, tool in GEN:
        if os.path.exists(os.path.join(REPO, g)) and changed([g]) and not changed(outs):
            d = os.path.join(src, os.path.dirname(g))
            if tool == "bison":
                rc, o = _run(["bison", "-y", "-d", os.path.basename(g)], d)
                if rc == 0:
                    os.replace(os.path.join(d, "y.tab.c"), os.path.join(src, outs[0]))
                    os.replace(os.path.join(d, "y.tab.h"), os.path.join(src, outs[1]))
            else:
                rc, o = _run(["flex", "-o", os.path.basename(outs[0]), os.path.basename(g)], d)
            if rc:
                raise BuildError("%s failed on %s:\n%s" % (tool, g, o))

    inc = ["-I" + os.path.join(src, x) for x in ("", "src", "src/mdp", "src/lp-solve", "src/laspack")]
    units = []
    for f in files:
        if not f.endswith(".c"):
            continue
        b = os.path.basename(f)
        if f.startswith("src/lp-solve/") and b in SKIP_LP:
            continue
        units.append(f)
    objs = {}

    def one(f):
        o = os.path.join(dest, "obj", f.replace("/", "__")[:-2] + ".o")
        rc, out = _run([cc] + cflags + inc + ["-c", os.path.join(src, f), "-o", o], dest)
        return f, o, rc, out

    os.makedirs(os.path.join(dest, "obj"))
    errs = {}
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, o, rc, out in ex.map(one, units):
            if rc == 0:
                objs[f] = o
            else:
                errs[f] = out
    libs = {}
    for name, pred in (("libps.a", lambda f: f.count("/") == 1 and f not in MAINS),
                       ("libmdp.a", lambda f: f.startswith("src/mdp/")),
                       ("liblpk.a", lambda f: f.startswith("src/lp-solve/")),
                       ("liblaspack.a", lambda f: f.startswith("src/laspack/"))):
        os_ = [o for f, o in objs.items() if pred(f)]
        p = os.path.join(dest, name)
        rc, out = _run(["ar", "rcs", p] + os_, dest)
        if rc:
            raise BuildError(out)
        libs[name] = p
    lib = [libs["libps.a"], libs["libmdp.a"], libs["liblpk.a"], libs["liblaspack.a"]]
    for main, exe in (("src/main.c", "pomdp-solve"), ("src/pomdp-tools-main.c", "pomdp-tools"),
                      ("src/pomdp-fg-main.c", "pomdp-fg")):
        if main not in objs:
            raise BuildError("%s does not compile:\n%s" % (main, errs.get(main, "missing")[:2000]))
        rc, out = _run([cc] + ldflags + [objs[main]] + ["-Wl,--start-group"] + lib +
                       ["-Wl,--end-group", "-lm", "-o", os.path.join(dest, exe)], dest)
        if rc:
            raise BuildError("link of %s failed:\n%s\n%s" % (exe, out[:2000], "\n".join(errs.values())[:2000]))
    with open(os.path.join(dest, "errs"), "w") as f:
        for k, v in errs.items():
            f.write(k + "\n" + v + "\n")
    shutil.rmtree(os.path.join(dest, "obj"), ignore_errors=True)


class Build:
    def __init__(self, d, variant):
        self.dir, self.variant = d, variant
        self.solve = os.path.join(d, "pomdp-solve")
        self.tools = os.path.join(d, "pomdp-tools")
        self.fg = os.path.join(d, "pomdp-fg")

    def harness(self, name, sources, extra=()):
        """compiles a C harness of /verif against this build's libraries"""
        cc, cflags, ldflags = VARIANTS[self.variant]
        src = os.path.join(self.dir, "tree")
        inc = ["-I" + os.path.join(src, x) for x in ("", "src", "src/mdp", "src/lp-solve", "src/laspack")]
        h = hashlib.sha256()
        for s in sources:
            h.update(open(s, "rb").read())
        h.update(repr(extra).encode())
        exe = os.path.join(self.dir, "h-%s-%s" % (name, h.hexdigest()[:12]))
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        lib = [os.path.join(self.dir, x) for x in ("libps.a", "libmdp.a", "liblpk.a", "liblaspack.a")]
        rc, out = _run([cc] + COMMON + cflags + list(extra) + inc + list(sources) + ldflags +
                       ["-Wl,--start-group"] + lib + ["-Wl,--end-group", "-lm", "-o", tmp], self.dir)
        if rc:
            raise BuildError("harness %s: %s" % (name, out[:3000]))
        os.replace(tmp, exe)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        b = get(v)
        print(b.dir)
        print(open(os.path.join(b.dir, "errs")).read()[:1000])
