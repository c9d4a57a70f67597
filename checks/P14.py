from vt import Check, Fail, run

C = Check("P14", "model_checking",
          "explicit-state search: every sequence of list operations up to a depth, from empty and from populated lists, is executed by the real code and every reached pair of lists compared with a sequence model",
          "a state is the pair of lists after one operation sequence, a transition one operation; distinct = different pairs of contents, marks and witnesses",
          ["a duplicated node shares its witness with the original by design, so only nodes without one are duplicated singly"],
          variants=("plain", "asan"))
C.harnesses["alist"] = (["harness/alist.c"], ())
# vectors already in A before the explored operations (numbers of operations of the harness)
STARTS = [[], [0, 1, 2], [1, 0, 0, 3], [2, 1, 0, 1, 15, 0], [0, 2, 1, 30, 25, 37, 3]]
MAXOPS = 40


def go(res, builds, d, args, variant):
    p = run([getattr(builds[variant], "h_alist")] + [str(a) for a in args], d, timeout=250)
    if p.rc != 0 or not p.out:
        raise Fail("died (rc=%s) in %s: %s" % (p.rc, args, (p.out + p.err)[-600:]))
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    w = p.out.split()
    if w[0] == "NONE":
        return
    if w[0] != "OK":
        raise Fail(p.out.strip())
    res.states += int(w[1])
    res.transitions += int(w[2])
    res.traces += int(w[1])
    for k in range(int(w[3])):
        res.key(args[1:-1], k)


def seqs(tier):
    deep, mid, san = (5, 4, 3) if tier == "thorough" else (4, 3, 2)
    for s, st in enumerate(STARTS):
        for v, dep in (("plain", deep), ("asan", mid if s == 0 else san if tier == "quick" else san)):
            for i in range(MAXOPS):
                yield {"s": s, "d": dep, "i": i, "v": v}


@C.family("operation sequences", seqs)
def f_seq(c, res, builds, d):
    go(res, builds, d, [c["d"]] + ["=%d" % x for x in STARTS[c["s"]]] + [c["i"]], c["v"])
