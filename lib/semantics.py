"""What the real programs understood of a model file, observed from outside.

One epoch of exhaustive enumeration without any pruning, started from scaled unit vectors as terminal values, writes the
value of every one-step plan: that determines expected rewards, discount and every product T(s'|s,a)O(o|a,s').  The
belief tool prints the initial belief."""
import itertools, os, re
import numpy as np
import model as M
from vt import run, Fail

ALL = ["-method", "enum", "-horizon", "1", "-proj_purge", "none", "-enum_purge", "none", "-dom_check", "false", "-stop_criteria", "exact"]
K = 4.0


def plans(m):
    out = []
    for a in range(m.A):
        acc = m.er[a][None, :]
        for o in range(m.O):
            g = K * m.G[a, o].T          # row j: contribution of going on with K*e_j
            acc = (acc[:, None, :] + g[None, :, :]).reshape(-1, m.S)
        out.append(acc)
    return out


def write(d, text, name="m.POMDP"):
    with open(os.path.join(d, name), "w", encoding="latin-1") as f:
        f.write(text)


def rejected(b, d, text, why, tools=True):
    """the text must be refused"""
    write(d, text)
    for f in ("o.alpha", "o.pg"):
        if os.path.exists(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))
    p = run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-horizon", "1"], d)
    if p.timeout:
        raise Fail("no answer on an invalid model (%s)" % why)
    if p.rc == 0:
        raise Fail("invalid model (%s) was accepted with exit status 0" % why)
    if p.rc < 0:
        raise Fail("invalid model (%s): killed by signal %d" % (why, -p.rc))
    for f in ("o.alpha", "o.pg"):
        if os.path.exists(os.path.join(d, f)):
            raise Fail("invalid model (%s): %s was written" % (why, f))
    if len(p.err.strip()) < 5 and "ERROR" not in p.text.upper():
        raise Fail("invalid model (%s) was refused without a message" % why)


def rewards_only(b, d, text, m, what, tol=1e-6):
    """compares expected immediate rewards (one epoch from the zero function)"""
    write(d, text)
    p = run([b.solve, "-pomdp", "m.POMDP", "-o", "o"] + ALL, d)
    if p.timeout or p.rc != 0:
        raise Fail("%s: valid model refused (rc %s): %s" % (what, p.rc, " ".join(p.text.split())[-300:]))
    got = M.read_alpha(os.path.join(d, "o.alpha"))
    eps = tol * max(1.0, float(np.abs(m.er).max()))
    match(got, [m.er[a][None, :] for a in range(m.A)], eps, what)


def match(got, want, eps, what):
    for a, W in enumerate(want):
        G = np.array([v for x, v in got if x == a])
        if len(G) == 0:
            raise Fail("%s: no plan of action %d among %s" % (what, a, [(x, v.tolist()) for x, v in got][:8]))
        if G.shape[1] != W.shape[1]:
            raise Fail("%s: %d states instead of %d" % (what, G.shape[1], W.shape[1]))
        D = np.abs(G[:, None, :] - W[None, :, :]).max(axis=2)
        i = int(D.min(axis=0).argmax())
        if not D.min(axis=0)[i] <= eps:
            raise Fail("%s: action %d: no vector %s; the closest is %s" % (what, a, W[i].tolist(), G[int(D[:, i].argmin())].tolist()))
        i = int(D.min(axis=1).argmax())
        if not D.min(axis=1)[i] <= eps:
            raise Fail("%s: action %d has the vector %s, which is no plan's value" % (what, a, G[i].tolist()))
    if any(not 0 <= x < len(want) for x, _ in got):
        raise Fail("%s: unknown action in the solution" % what)


def accepted(b, d, text, m, what, tol=1e-6, start=True, res=None):
    """the text must be understood as model m"""
    write(d, text)
    with open(os.path.join(d, "t.alpha"), "w") as f:
        f.write(M.fmt_alpha([(0, K * v) for v in np.eye(m.S)]))
    p = run([b.solve, "-pomdp", "m.POMDP", "-o", "o", "-terminal_values", "t.alpha"] + ALL, d)
    if p.timeout or p.rc != 0:
        raise Fail("%s: valid model refused (rc %s): %s" % (what, p.rc, " ".join(p.text.split())[-300:]))
    if not os.path.exists(os.path.join(d, "o.alpha")):
        raise Fail("%s: no solution was written" % what)
    got = M.read_alpha(os.path.join(d, "o.alpha"))
    want = plans(m)
    eps = tol * max(1.0, float(max(np.abs(w).max() for w in want)))
    match(got, want, eps, what)
    if res is not None:
        res.states += sum(len(w) for w in want)
    if start:
        p = run([b.tools, "-tool", "update_beliefs", "-pomdp", "m.POMDP"], d, b"exit\n")
        x = re.search(r"\[([^\]]*)\]", p.out)
        try:
            v = np.array([float(t) for t in x.group(1).split(",")])
        except (AttributeError, ValueError):
            raise Fail("%s: no initial belief printed: %s" % (what, " ".join(p.text.split())[-200:]))
        if len(v) != m.S or np.abs(v - m.start).max() > 2e-6:
            raise Fail("%s: initial belief %s instead of %s" % (what, v.tolist(), m.start.tolist()))
        if res is not None:
            res.transitions += 1
