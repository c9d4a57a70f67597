"""development aid: writes /verif/seeded/<id>/ (patch, demo, meta) from an edit description"""
import json, os, subprocess, shutil, sys
SEEDED = "/verif/seeded"
CMP = '''import sys
def rd(p):
    return open(p).read().split()
def same(x,y):
    try:
        u,v=float(x),float(y)
        return abs(u-v)<=1e-6*(1+abs(v))
    except ValueError:
        return x==y
a,b=rd(sys.argv[1]),rd(sys.argv[2])
ok=len(a)==len(b) and all(map(same,a,b))
if not ok: print("differs:",a[:60],"expected:",b[:60])
sys.exit(0 if ok else 1)
'''


def search(W, gen, args, out="o.alpha", files=None):
    """first (text, args) of gen for which the changed build's output differs"""
    sys.path.insert(0, "/verif/lib")
    import build as B
    import model as M, numpy as np
    B.REPO = W
    pb = B.get("plain")
    B.REPO = "/repo"
    bb = B.get("plain")
    for text in gen():
        r = []
        for b in (bb, pb):
            T = "/tmp/seedexp"
            shutil.rmtree(T, ignore_errors=True)
            os.makedirs(T)
            open(T + "/m.POMDP", "w").write(text)
            for n, t in (files or {}).items():
                open(T + "/" + n, "w").write(t)
            try:
                rc = subprocess.call("timeout 10 %s -pomdp m.POMDP -o o %s >log 2>&1" % (b.solve, args), shell=True, cwd=T)
                v = open(T + "/" + out).read().split() if rc == 0 else None
            except OSError:
                v = None
            if v is not None:
                w = []
                for x in v:
                    try:
                        w.append("%.4f" % float(x))
                    except ValueError:
                        w.append(x)
                v = w
            r.append(v)
        if r[0] is not None and r[0] != r[1]:
            print("demo model found", r[0][:2], r[1] and r[1][:2])
            return (text, args, out)
    raise SystemExit("no demo model found")


def seed(id, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(SEEDED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    W = "/tmp/seedmk"
    if not os.path.exists(W):
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
    subprocess.check_call("git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD", shell=True, cwd=W)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p, encoding="latin-1").read()
        import re
        rx = r"\s+".join(map(re.escape, old.split()))
        ms = list(re.finditer(rx, s))
        assert len(ms) == 1, (id, f, len(ms), old)
        x = ms[0]
        open(p, "w", encoding="latin-1").write(s[:x.start()] + new.strip() + s[x.end():])
    diff = subprocess.check_output(["git", "diff"], cwd=W)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    if isinstance(demo, tuple) and callable(demo[0]):
        demo = search(W, *demo, files=files)
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=W)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    if isinstance(demo, tuple):       # (model text, args, [which output], run lines)
        text, args = demo[:2]
        out = demo[2] if len(demo) > 2 else "o.alpha"
        open(os.path.join(d, "m.POMDP"), "w").write(text)
        open(os.path.join(d, "cmp.py"), "w").write(CMP)
        demo = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && cp "$H"/m.POMDP . && for f in "$H"/in.*; do [ -e "$f" ] && cp "$f" .; done
timeout 60 "$R/_build/tree/src/pomdp-solve" -pomdp m.POMDP -o o %s >log 2>&1 || { tail -3 log; exit 1; }
python3 "$H/cmp.py" %s "$H/expected"
''' % (args, out)
        T = "/tmp/seedexp"
        shutil.rmtree(T, ignore_errors=True)
        os.makedirs(T)
        open(T + "/m.POMDP", "w").write(text)
        for n, t in (files or {}).items():
            if n.startswith("in."):
                open(T + "/" + n, "w").write(t)
        subprocess.check_call("/repo/_build/tree/src/pomdp-solve -pomdp m.POMDP -o o %s >log 2>&1" % args, shell=True, cwd=T)
        shutil.copy(T + "/" + out, os.path.join(d, "expected"))
        shutil.rmtree(T)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    return subprocess.call(["/verif/lib/seed.sh", id] + sys.argv[1:])
