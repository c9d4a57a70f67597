from vt import Check, Fail, run

C = Check("P13", "model_checking",
          "explicit-state search: every sequence of set/add/compact operations up to a depth, and every insertion order, is executed by the real code and compared with a dense matrix",
          "a state is the matrix after one operation sequence, a transition one operation; distinct = different dense contents",
          ["entries smaller than 1e-10 in magnitude may be dropped", "an entry that accumulates to zero may be stored or not"],
          variants=("plain", "asan"))
C.harnesses["sparse"] = (["harness/sparse.c"], ())


def go(res, builds, d, args, variant="plain"):
    p = run([getattr(builds[variant], "h_sparse")] + [str(a) for a in args], d, timeout=200)
    if p.rc != 0 or not p.out:
        raise Fail("died (rc=%s): %s" % (p.rc, (p.out + p.err)[-600:]))
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    if p.out.startswith("BAD"):
        raise Fail(p.out.strip())
    w = p.out.split()
    if w[0] == "NONE":
        return
    res.states += int(w[1])
    res.transitions += int(w[2])
    res.traces += int(w[1])
    for k in range(int(w[3])):
        res.key(args[:4], k)


def seqs(tier):
    # rows, columns, values, depth, variant
    big = [(2, 3, 3, 5, "plain"), (1, 4, 3, 5, "plain"), (2, 2, 5, 4, "plain"), (2, 3, 3, 3, "asan"), (2, 2, 5, 3, "asan")]
    if tier == "thorough":
        big = [(2, 3, 3, 5, "plain"), (1, 4, 3, 5, "plain"), (2, 2, 5, 5, "plain"), (3, 3, 2, 5, "plain"), (1, 2, 3, 7, "plain"), (2, 2, 3, 6, "plain"), (2, 3, 3, 4, "asan"), (2, 2, 5, 4, "asan")]
    for R, K, V, D, v in big:
        for i in range(2 * R * K * V + 1):
            yield {"a": [R, K, V, D, i], "v": v}


@C.family("operation sequences", seqs)
def f_seq(c, res, builds, d):
    go(res, builds, d, ["dfs"] + c["a"], c["v"])


@C.family("insertion orders", lambda tier: [{"n": n, "v": v} for v, m in (("plain", 7 if tier == "thorough" else 6), ("asan", 5)) for n in range(1, m + 1)])
def f_perm(c, res, builds, d):
    go(res, builds, d, ["perm", c["n"]], c["v"])


BIG = [(1, 1), (1, 9), (9, 1), (1, 255), (1, 256), (1, 257), (1, 5000), (5000, 1), (40, 40), (127, 129), (256, 256), (300, 300), (2, 4000), (4000, 2), (70000, 1)]


def big_cases(tier):
    for i, (R, Cn) in enumerate(BIG + ([(2, 20000), (600, 600), (1, 66000), (200000, 1)] if tier == "thorough" else [])):
        for form in range(16):
            if tier != "thorough" and Cn >= 4000 and (form + i) % 3:
                continue
            yield {"a": [R, Cn, form], "v": "asan" if R * Cn < 20000 and (form + i) % 4 == 0 else "plain"}


@C.family("large matrices", big_cases)
def f_big(c, res, builds, d):
    go(res, builds, d, ["big"] + c["a"], c["v"])
