"""C15 (spec/SolFile.tla)."""
from check import THOROUGH


def c15(c):
    files = [c.path("all.jsonl")]
    c.tlc_ok("SolFile", "SolFile_deep", out=files[0])
    files += c.simulate("SolFile", "SolFile_random", runs=48 if THOROUGH else 4, num=10000 if THOROUGH else 3000, depth=4)
    for f in files:
        c.drive("solfile", f)
    c.minimum += [("solved", 1000), ("infeasible", 200), ("error", 1500), ("bad", 50000)]
    return c.finish("model_checking", "every file of a header out of 25 and up to three lines out of 25 for problems of up to 2 variables and a row, by TLC, and random files of up to 520 lines with headers of random words; "
                    "nontrivial: the file is a solution", ["numbers are read as the nearest double"], exhaustive=True)


PROPS = {"C15": c15}
