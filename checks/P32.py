import os, re, struct, subprocess, tempfile
import model as M, families as F, semantics as SM, solve as S
from vt import Check, Fail, Skip, run, BASE_ENV

C = Check("P32", "model_checking",
          "exhaustive exploration of long histories of the real solver over all methods, variations and saving options: the blocks, bytes and descriptors the program holds are recorded at every epoch and compared between all epochs of a run at which it has the same value function sizes to hold",
          "a state is one epoch of one run, a transition one pair of epochs with equal value function sizes that was compared; distinct = different (sizes, growth) pairs",
          ["one bookkeeping block of at most 192 bytes per epoch is allowed (the statistics of the epoch)", "what is held is what malloc, calloc and realloc gave and free did not take back (LD_PRELOAD)"])
C.harnesses["live"] = (("harness/live.c",), ("-shared", "-fPIC"))


def held(b, d, cmd, mark, timeout=20):
    """(status, output, [(bytes, blocks, descriptors) at every opening of a file whose name contains mark, and at the end])"""
    with tempfile.NamedTemporaryFile(dir=d) as t:
        fd = os.open(t.name, os.O_RDWR)
        os.set_inheritable(fd, True)
        e = dict(BASE_ENV, LD_PRELOAD=b.h_live, LIVE_LOG=str(fd), LIVE_MARK=mark)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, close_fds=False, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Skip("value function too large")
        finally:
            os.close(fd)
        data = open(t.name, "rb").read()
    return p.returncode, p.stdout.decode("latin-1"), list(struct.iter_unpack("<3q", data))


METHODS = [["-method", "incprune"], ["-method", "incprune", "-inc_prune", "restricted_region"], ["-method", "incprune", "-inc_prune", "generalized"],
           ["-method", "witness"], ["-method", "enum"], ["-method", "twopass"],
           ["-method", "grid", "-fg_type", "simplex", "-fg_points", "12"], ["-method", "grid", "-fg_type", "pairwise", "-fg_points", "30"],
           ["-method", "grid", "-fg_type", "search", "-fg_points", "9"], ["-method", "grid", "-fg_type", "initial", "-fg_points", "9"]]
VARIANTS = [[], ["-save_all", "true"], ["-save_penultimate", "true"], ["-stat_summary", "true", "-stdout", "rep"], ["-dom_check", "false"],
            ["-q_purge", "domonly"], ["-proj_purge", "domonly"], ["-q_purge", "none"], ["-proj_purge", "none"],
            ["-q_purge", "epsilon_prune", "-prune_epsilon", "0.0001"], ["-proj_purge", "epsilon_prune", "-prune_epsilon", "0.0001"],
            ["-witness_points", "true"], ["-alg_rand", "7"], ["-prune_rand", "7"], ["-stop_criteria", "weak"], ["-stop_criteria", "bellman", "-stop_delta", "0.00000001"],
            ["-vi_variation", "adjustable_epsilon", "-start_epsilon", "0.00001", "-end_epsilon", "0.0000001", "-epsilon_adjust", "0.5", "-history_length", "3", "-history_delta", "1"],
            ["-fg_save", "true"], ["-vi_variation", "zlz", "-witness_points", "true"]]
SHAPES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (4, 2, 2), (3, 3, 2)]


def cases(tier):
    for n in range(2 if tier == "quick" else 16):
        for sh in range(3 if tier == "quick" else len(SHAPES)):
            for i in range(len(METHODS)):
                for j in range(len(VARIANTS)):
                    if j == 17 and i < 6:
                        continue
                    yield {"n": n, "sh": sh, "m": i, "v": j, "H": 30 if tier == "quick" else 60}


@C.family("epochs of a run", cases)
def f_epochs(c, res, builds, d):
    b = builds["plain"]
    m = F.model_n(c["n"] + 3200, *SHAPES[c["sh"]], [0.9, 0.95][c["n"] % 2], values=["reward", "cost"][c["n"] // 2 % 2])
    SM.write(d, m.text())
    H = c["H"]
    args = METHODS[c["m"]] + VARIANTS[c["v"]]
    cmd = [b.solve, "-pomdp", "m.POMDP", "-o", "o", "-horizon", str(H)] + ([] if "-stop_criteria" in args else ["-stop_criteria", "exact"]) + args
    rc, out, rec = held(b, d, cmd, "##pomdp-solve")
    what = " ".join(args)
    if "rep" in args:
        with open(os.path.join(d, "rep")) as f:
            out = f.read()
    if rc != 0:
        raise Fail("%s: status %s %s" % (what, rc, out[-300:]))
    sizes = [int(x) for x in re.findall(r"(\d+) vectors in ", out)]
    if len(sizes) != len(rec) - 1:
        raise Fail("%s: %d epochs reported, %d recovery files" % (what, len(sizes), len(rec) - 1))
    grew = []
    n = 0
    for k in range(2, len(sizes)):
        for q in range(k + 10, len(sizes)):
            if sizes[k - 1:k + 1] != sizes[q - 1:q + 1]:
                continue
            n += 1
            e = q - k
            by, bl, fd = (rec[q][x] - rec[k][x] for x in range(3))
            if fd > 0:
                raise Fail("%s: %d descriptors open at epoch %d, %d at epoch %d" % (what, rec[k][2], k + 1, rec[q][2], q + 1))
            slack = 2 * (sizes[k] + sizes[k - 1]) if "zlz" in args else 0     # its vectors may or may not carry a source list and a witness
            if bl > e + 2 + slack or by > 192 * e + 512 + 64 * slack:
                raise Fail("%s: with %d vectors in both, the program holds %d blocks (%d bytes) at epoch %d and %d blocks (%d bytes) at epoch %d" % (
                    what, sizes[k], rec[k][1], rec[k][0], k + 1, rec[q][1], rec[q][0], q + 1))
            grew.append((sizes[k], bl - e))
    if not n:
        res.note("no two epochs alike")
    res.states += len(sizes)
    res.transitions += n
    res.traces += 1
    res.key(sizes[-1], len(set(grew)))
