"""C14 (spec/LpText.tla, LpGen.tla, LpRead.tla)."""
from check import THOROUGH, SEED


def c14(c):
    c.tlc_ok("LpGen", "LpGen_all", out=c.path("all.jsonl"))
    files = [c.path("all.jsonl")]
    if not THOROUGH:      # every problem is checked by TLC at the design level; the real writer gets every 4th
        lines = open(files[0]).read().splitlines()
        files = [c.path("some.jsonl")]
        open(files[0], "w").write("\n".join(lines[SEED % 4::4]) + "\n")
    files += c.simulate("LpGen", "LpGen_random", runs=24 if THOROUGH else 3, num=3000 if THOROUGH else 700, depth=5)
    files += c.simulate("LpGen", "LpGen_big", runs=8 if THOROUGH else 1, num=400 if THOROUGH else 30, depth=5)
    for k, f in enumerate(files):
        rec = c.path("rec%d" % k)
        c.drive("lp", f, extra_env={"RECORDS": rec})
        c.validate("LpRead", "LpRead", rec)
    c.minimum += [("repeated_entries", 500), ("ten_or_more_variables", 50), ("linear_class", 500), ("records", 3000)]
    return c.finish("model_checking", "problems built by TLC: all of up to 2 columns and 2 rows over a menu of coefficients, limits and marks, and random ones up to 14 columns and up to 130; "
                    "TLC reads the tokens of every file written by the rules of the LP format (spec/LpText.tla) and compares with the problem; nontrivial: the problem has a row",
                    ["the tokeniser of the driver (white space, numbers, names, relations)", "numbers compare to ten significant digits"], exhaustive=THOROUGH)


PROPS = {"C14": c14}
