"""C13 (spec/Sparse.tla)."""
from check import THOROUGH


def c13(c):
    c.tlc_ok("Sparse", "Sparse_all", out=c.path("all.jsonl"))
    files = [c.path("all.jsonl")]
    if THOROUGH:
        c.tlc_ok("Sparse", "Sparse_deep", out=c.path("deep.jsonl"), timeout=1500)
        files.append(c.path("deep.jsonl"))
    files += c.simulate("Sparse", "Sparse_big", runs=32 if THOROUGH else 4, num=1000 if THOROUGH else 250, depth=200)
    for f in files:
        c.drive("sparse", f)
    c.minimum += [("with_duplicates", 5000), ("without_duplicates", 1000), ("lifted", 5000), ("lifted_far", 50)]
    return c.finish("model_checking", "matrices built by TLC: all of up to 2 by 3 (thorough 3 by 3) with up to 4 (5) entries in four sign patterns, random ones up to 14 by 13 with 40 entries; each also with its rows and columns moved 256 and some 65536 apart; "
                    "nontrivial: the matrix has entries",
                    ["entries are small multiples of distinct powers of two, so sums are exact and tell which entries were added"], exhaustive=not THOROUGH)


PROPS = {"C13": c13}
