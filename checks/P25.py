from vt import Check, Fail, run

C = Check("P25", "model_checking",
          "explicit-state search: every sequence of operations up to a depth on each container is executed by the real code and every reached content compared with a reference sequence or map",
          "a state is the container's content after one operation sequence, a transition one operation; distinct = different contents",
          ["names are of the characters the file format allows; keys and values fit the width the container was made for"],
          variants=("plain", "asan"))
C.harnesses["cont"] = (["harness/cont.c"], ())
C.harnesses["contbig"] = (["harness/contbig.c"], ())
NOPS = {"dv": 19, "il": 16, "bl": 11, "hash": 48, "aa": 15, "grid": 16, "words": 62}
#                quick (plain, asan)   thorough
DEPTH = {"dv": ((5, 3), (6, 5)), "il": ((5, 4), (6, 5)), "bl": ((6, 4), (7, 6)),
         "hash": ((3, 2), (4, 3)), "aa": ((5, 4), (6, 5)), "grid": ((4, 4), (5, 5)), "words": ((3, 2), (3, 3))}
# contents to begin from, as operation numbers
STARTS = {"dv": [[0, 1, 2], [3, 4, 17, 1, 0], [1, 1, 9, 12]], "il": [[], [3, 10]], "bl": [[], [0, 7, 3]],
          "hash": [[], [0, 18, 19, 30, 36, 42]], "aa": [[]], "grid": [[]], "words": [[]]}


def seqs(tier):
    T = tier == "thorough"
    for m in DEPTH:
        for st in ([[]] if [] not in STARTS[m] else []) + STARTS[m]:
            for v in (0, 1):
                dep = DEPTH[m][T][v] - (1 if st and m in ("dv", "hash") else 0)
                for i in range(NOPS[m]):
                    if T:
                        for j in range(NOPS[m]):
                            yield {"m": m, "s": st, "d": dep, "i": [i, j], "v": v}
                    else:
                        yield {"m": m, "s": st, "d": dep, "i": [i], "v": v}


@C.family("operation sequences", seqs)
def f_seq(c, res, builds, d):
    args = [c["m"], len(c["s"]) + c["d"]] + c["s"] + c["i"]
    p = run([builds["asan" if c["v"] else "plain"].h_cont] + [str(x) for x in args], d, timeout=250)
    if p.rc != 0 or not p.out:
        raise Fail("died (rc=%s) in %s: %s" % (p.rc, args, (p.out + p.err)[-800:]))
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    w = p.out.strip().split("\n")[-1].split()
    if w[0] == "NONE":
        return
    if w[0] != "OK":
        raise Fail("%s: %s" % (c["m"], p.out.strip()[-600:]))
    res.states += int(w[1])
    res.transitions += int(w[2])
    res.traces += int(w[1])
    for k in range(int(w[3])):
        res.key(args[0], args[2:], k)

def longs(tier):
    T = tier == "thorough"
    sizes = (1, 9, 10, 11, 100, 509, 1021, 3000) + ((20000,) if T else ())
    for v in (0, 1):
        for n in sizes[:-1] if v and not T else sizes:
            for m, forms in (("hash", 6), ("il", 3), ("aa", 2), ("bl", 3), ("dv", 3)):
                if n > 3000 and m in ("hash", "bl", "aa"):
                    continue
                for f in range(forms):
                    if m == "hash" and f == 3 and n > 509:
                        continue
                    yield {"m": m, "n": n * (50 if m == "il" and not v else 1), "f": f, "v": v}


@C.family("long histories", longs)
def f_long(c, res, builds, d):
    """one long history each: thousands of names, elements, keys, beliefs, vectors, all of them read back"""
    p = run([builds["asan" if c["v"] else "plain"].h_contbig, c["m"], str(c["n"]), str(c["f"])], d, timeout=250)
    if "runtime error" in p.err:
        raise Fail("undefined behaviour: " + p.err[-600:])
    w = p.out.split()
    if p.rc != 0 or not w or w[0] != "OK":
        raise Fail("%s (rc=%s): %s" % (c["m"], p.rc, (p.out + p.err).strip()[-600:]))
    res.states += 1
    res.transitions += int(w[1])
    res.traces += 1
    res.key("long", c["m"], c["n"], c["f"])

