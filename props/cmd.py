"""C16, C17 (spec/CmdSolver.tla): solves through external programs."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from check import SEED, THOROUGH


def spread(c, files, parts=8, limit=None, timeout=800, what="cmd", binary=None, extra_env=None):
    """Each driver process has its own directory, programs and environment."""
    c.round = getattr(c, "round", 0) + 1
    lines = []
    for z, f in enumerate(files):
        # z: other sizes, texts, exit codes, log levels for the same case
        lines += [l[:-1] + ', "z":%d}' % (100 * c.round + z) for l in open(f).read().splitlines()]
    if limit and len(lines) > limit:
        step = len(lines) / limit
        lines = [lines[int(k * step)] for k in range(limit)]
    names = []
    for k in range(parts):
        d = c.path("d%d_%d" % (c.round, k))
        os.makedirs(d, exist_ok=True)
        open(d + "/cases.jsonl", "w").write("".join(l + "\n" for l in lines[k::parts]))
        names.append(d)
    with ThreadPoolExecutor(parts) as ex:
        list(ex.map(lambda d: c.drive(what, d + "/cases.jsonl", cwd=d, timeout=timeout, binary=binary, extra_env=extra_env), names))


def c16(c):
    out = c.path("seq1.jsonl")
    c.tlc_ok("CmdSolver", "CmdSolver_seq1", out=out)
    two = c.path("seq.jsonl")
    c.tlc_ok("CmdSolver", "CmdSolver_seq", out=two)
    spread(c, [out] * (50 if THOROUGH else 10) + [two] * (20 if THOROUGH else 3))
    if THOROUGH:
        three = c.path("seq3.jsonl")
        c.tlc_ok("CmdSolver", "CmdSolver_seq3", out=three)
        spread(c, [three])
    c.minimum += [("programs_started", 500), ("expected_solved", 100), ("expected_infeasible", 50), ("expected_error", 700)]
    return c.finish("model_checking", "every sequence of one and two solves (thorough: three) with every fault of the program and the system, played with stand-in programs; "
                    "nontrivial: a fault or a second solve", ["the system reports failures of its calls"], exhaustive=True)


def c17(c):
    c.tlc_ok("CmdSolver", "CmdSolver_fine3" if THOROUGH else "CmdSolver_fine")
    bad, _ = c.tlc("CmdSolver", "CmdSolver_shared")
    if not bad:
        from check import ToolError
        raise ToolError("shared file names should break the design")
    inter = c.path("inter.jsonl")
    c.tlc_ok("CmdSolver", "CmdSolver_inter", out=inter)
    spread(c, [inter], limit=None if THOROUGH else 1500)
    files = c.simulate("CmdSolver", "CmdSolver_random", runs=8 if THOROUGH else 4, num=1500 if THOROUGH else 60, depth=40)
    spread(c, files)
    stress = c.path("stress.jsonl")
    with open(stress, "w") as f:
        for k in range(400 if THOROUGH else 24):
            f.write(json.dumps({"stress": 1 + (k * 7 + SEED) % 9, "threads": 2 + (k + SEED) % 7, "reps": 12,
                                "procs": k % 4 if k % 4 > 1 else 0, "k": k}) + "\n")
        for k in range(20 if THOROUGH else 3):   # many at once
            f.write(json.dumps({"stress": 60, "threads": 48 + 16 * (k % 2), "reps": 3, "procs": 0, "k": 1000 + k}) + "\n")
    spread(c, [stress], parts=4)
    c.minimum += [("programs_started", 1000), ("expected_solved", 500), ("concurrent_solves", 500)]
    return c.finish("model_checking", "every interleaving of two solves' program steps with programs that behave, fail or write badly (quick: every second one), random schedules of four solves, "
                    "and free-running solves of 2 to 8 threads in one directory; nontrivial: two solves or a fault",
                    ["interleavings inside the library's own steps are sampled by the free-running solves, not controlled"], exhaustive=False)


PROPS = {"C16": c16, "C17": c17}
