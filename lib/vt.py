"""Framework shared by all checks: exhaustive case exploration over a process pool,
confirmation by replay, known findings, evidence and VIOLATION output."""
import hashlib, itertools, json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B

SEED = int(os.environ.get("VERIF_SEED", "1"))
MAXFAIL = 3            # stop exploring after this many confirmed violations


class Fail(Exception):
    """a property violation; sig identifies it for the known-findings file"""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """no verdict on this case (the model is too hard for the time limit)"""


class Res:
    """what one case covered"""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.keys = set()
        self.fails = []
        self.sample = None
        self.notes = {}

    def fail(self, msg, sig=None):
        self.fails.append((str(msg)[:1500], sig))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def key(self, *xs):
        self.keys.add(hashlib.md5(repr(xs).encode()).hexdigest()[:12])


# ---------------------------------------------------------------- running programs
class Proc:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def text(self):
        return self.out + self.err


BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0",
            "MSAN_OPTIONS": "exitcode=87"}
ON_PROC = None         # P26 looks at every process the other checks run
TIMEOUT = 10.0


def hard(out):
    """a run that was still producing epochs with many vectors is slow, not stuck"""
    k = [int(x) for x in re.findall(r"Epoch: \d+\.\.\.(\d+) vectors", out)]
    return bool(k) and max(k) >= 60


def run(args, cwd, stdin=b"", timeout=None, env=None):
    """runs a program of the build; a timeout is retried once alone-ish with 3x the limit"""
    lim = timeout or TIMEOUT
    for k in (1, 3):
        p = subprocess.Popen(args, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env or BASE_ENV, start_new_session=True)
        try:
            o, e = p.communicate(stdin, timeout=lim * k)
            if ON_PROC:
                ON_PROC(args, p.returncode, e)
            return Proc(p.returncode, o.decode("latin-1"), e.decode("latin-1"))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            if hard(o.decode("latin-1")):
                raise Skip()
    return Proc(-999, "", "no answer within %gs" % (3 * lim), True)


class Scratch:
    """a private directory per worker process, emptied between cases"""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="pomdpv-", dir=base)

    def clean(self):
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        return self.dir


_W = {}


def _winit(builds, roots, fams):
    _W["f"] = {name: fn for name, fn, _ in fams}
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W["b"] = builds
    _W["s"] = Scratch()
    _W["pid"] = os.getpid()
    roots.append(_W["s"].dir)


def _wrun(job):
    name, case = job
    fn = _W["f"][name]
    r = Res()
    try:
        fn(case, r, _W["b"], _W["s"].clean())
    except Fail as e:
        r.fail(e, e.sig)
    except Skip:
        r.note("skipped: solution too large for the time limit")
    except (MemoryError, RuntimeError):
        r.fails.append(("INTERNAL " + traceback.format_exc()[-1500:], "INTERNAL"))
    except (ValueError, LookupError, OSError, TypeError, AttributeError, ArithmeticError):
        # what the programs wrote could not be interpreted
        r.fail("output missing or not understood: " + traceback.format_exc()[-900:])
    except Exception:
        r.fails.append(("INTERNAL " + traceback.format_exc()[-1500:], "INTERNAL"))
    return name, case, r


class Check:
    def __init__(self, pid, level, technique, rule, assumptions=(), variants=("plain",)):
        self.pid, self.level, self.technique, self.rule = pid, level, technique, rule
        self.assumptions, self.variants = list(assumptions), variants
        self.families = []          # (name, fn, cases(tier)->iterable)
        self.harnesses = {}
        self.optional_harnesses = set()     # a check that can do without these
        self.harness_variants = {}

    def family(self, name, cases):
        """decorator: fn(case, res, builds, scratch); cases(tier) yields JSON-able cases"""
        def deco(fn):
            self.families.append((name, fn, cases))
            return fn
        return deco

    # ------------------------------------------------------------------
    def main(self, argv):
        tier = os.environ.get("VERIF_TIER", "quick")
        replay = None
        jobs = os.cpu_count() or 8
        only = None
        it = iter(argv)
        for a in it:
            if a == "--tier":
                tier = next(it)
            elif a == "--replay":
                replay = next(it)
            elif a == "-j":
                jobs = int(next(it))
            elif a == "--only":
                only = next(it)
        t0 = time.time()
        # the whole check must answer within 900 s (quick); thorough has no fixed limit
        self.deadline = t0 + (720 if tier == "quick" else 4 * 3600)
        try:
            builds = {v: B.get(v) for v in self.variants}
            for name, (srcs, extra) in self.harnesses.items():
                for v, b in builds.items():
                    if v not in self.harness_variants.get(name, self.variants):
                        continue
                    try:
                        p = b.harness(name, [os.path.join(HERE, s) for s in srcs], extra)
                    except B.BuildError:
                        if name not in self.optional_harnesses:
                            raise
                        p = "/nonexistent"
                    setattr(b, "h_" + name, p)
        except B.BuildError as e:
            print("BUILD ERROR:", e)
            return 2
        if replay:
            return self.replay(replay, builds)
        mgr_roots = mp.Manager().list()
        agg = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0, "keys": set(),
               "samples": [], "fams": {}, "notes": {}}
        known = load_known(self.pid)
        seen_known, viol, unconfirmed, capped = {}, [], [], []
        ctx = mp.get_context("fork")
        pool = ctx.Pool(jobs, _winit, (builds, mgr_roots, self.families))
        parent_scratch = Scratch()
        try:
            for name, fn, cases in self.families:
                if only and only != name:
                    continue
                ft = time.time()
                n = 0
                fam = {"cases": 0, "complete": True}
                gen = ((name, c) for c in cases(tier))
                done = False
                for fname, case, r in pool.imap_unordered(_wrun, gen, chunksize=1):
                    n += 1
                    agg["states"] += r.states
                    agg["transitions"] += r.transitions
                    agg["traces"] += r.traces
                    agg["keys"] |= {name + k for k in r.keys}
                    for k, v in r.notes.items():
                        agg["notes"][k] = agg["notes"].get(k, 0) + v
                    if r.sample is not None and sum(1 for s in agg["samples"] if s["family"] == name) < 3:
                        agg["samples"].append({"family": name, "case": short(case), "observed": r.sample})
                    for msg, sig in r.fails:
                        if sig == "INTERNAL":
                            print("INTERNAL ERROR in family %s case %s:\n%s" % (name, short(case), msg))
                            return 2
                        k = match_known(known, sig)
                        if k is not None:
                            seen_known[k["id"]] = k
                            continue
                        # replay before report
                        again = []
                        for _ in range(2 if 'no answer' not in msg else 1):
                            r2 = Res()
                            try:
                                fn(case, r2, builds, parent_scratch.clean())
                            except Fail as e:
                                r2.fail(e, e.sig)
                            except Skip:
                                pass
                            except Exception:
                                r2.fail("output missing or not understood: " + traceback.format_exc()[-900:])
                            again.append([f for f in r2.fails if match_known(known, f[1]) is None])
                        if all(again):
                            viol.append((name, case, again[0][0][0]))
                        else:
                            unconfirmed.append((name, short(case), msg))
                        break
                    if len(viol) >= MAXFAIL or (viol and time.time() - t0 > 150):
                        done = True
                        break
                    if time.time() > self.deadline:
                        capped.append(name)
                        fam["complete"] = False
                        done = True
                        break
                fam["cases"] = n
                fam["wall_s"] = round(time.time() - ft, 2)
                agg["fams"][name] = fam
                agg["evaluations"] += n
                if done:
                    break
        finally:
            pool.terminate()
            pool.join()
            for d in list(mgr_roots) + [parent_scratch.dir]:
                shutil.rmtree(d, ignore_errors=True)
        for i, (name, case, msg) in enumerate(viol):
            path = write_replay(self.pid, i, name, case, msg)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  family %s: %s" % (name, msg))
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for u in unconfirmed[:5]:
            print("NOTE: not reproduced on replay, not reported:", u)
        self.write_evidence(tier, agg, viol, capped, unconfirmed, time.time() - t0)
        print("%s: %d cases, %d states, %d transitions, %d distinct outcomes, %s, %.1fs" % (
            self.pid, agg["evaluations"], agg["states"], agg["transitions"], len(agg["keys"]),
            {k: (v["cases"], v["wall_s"]) for k, v in agg["fams"].items()}, time.time() - t0))
        if agg["notes"]:
            print("  notes:", agg["notes"])
        if capped:
            print("  time cap reached in", capped)
        return 1 if viol else 0

    def write_evidence(self, tier, agg, viol, capped, unconfirmed, wall):
        cov = {"states": agg["states"], "transitions": agg["transitions"],
               "traces_validated_against_impl": agg["traces"],
               "evaluations": agg["evaluations"], "distinct_nontrivial": len(agg["keys"]),
               "rule": self.rule, "samples": agg["samples"][:12], "families": agg["fams"],
               "exhaustive": not capped and not viol, "notes": agg["notes"],
               "time_capped_families": capped,
               "not_reproduced": [list(map(str, u)) for u in unconfirmed[:5]]}
        ev = {"property": self.pid, "tier": tier, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def replay(self, path, builds):
        with open(path) as f:
            j = json.load(f)
        for name, fn, _ in self.families:
            if name == j["family"]:
                r = Res()
                s = Scratch()
                try:
                    fn(j["case"], r, builds, s.dir)
                except Fail as e:
                    r.fail(e, e.sig)
                finally:
                    if "--keep" in sys.argv:
                        print("kept", s.dir)
                    else:
                        shutil.rmtree(s.dir, ignore_errors=True)
                for m, sig in r.fails:
                    print("FAIL", m, "sig=", sig)
                if r.fails:
                    print("VIOLATION property=%s replay=%s" % (self.pid, path))
                return 1 if r.fails else 0
        print("no such family")
        return 2


def short(case, n=1200):
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def write_replay(pid, i, family, case, msg):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, i))
    with open(p, "w") as f:
        json.dump({"property": pid, "family": family, "case": case, "observed": msg,
                   "replay": "python3-vt checks/run.py %s --replay %s" % (pid, p)}, f, indent=1)
    return p


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                j = json.loads(line)
                if j.get("property") == pid and j.get("status") == "known":
                    out.append(j)
    return out


def match_known(known, sig):
    if sig is None:
        return None
    for k in known:
        if k["sig"] == sig:
            return k
    return None
