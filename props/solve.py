"""C11, C12 (spec/Solve.tla, SolveCheck.tla)."""
from check import THOROUGH
from props.opt import kkt


def histories(c, menu):
    files = [c.path("all.jsonl")]
    c.tlc_ok("Solve", "Solve_deep" if THOROUGH else "Solve_all", out=files[0], timeout=1800)
    if menu:
        files.append(c.path("menu.jsonl"))
        c.tlc_ok("Solve", "Solve_menu3" if THOROUGH else "Solve_menu", out=files[1], timeout=1800)
    else:
        files += c.simulate("Solve", "Solve_many", runs=16 if THOROUGH else 2, num=2000 if THOROUGH else 400, depth=44)
    return files + c.simulate("Solve", "Solve_random", runs=32 if THOROUGH else 4, num=4000 if THOROUGH else 800, depth=20)


RULE = ("histories of a model enumerated by TLC (all of 4 steps over 14 edits and solves, thorough 5; random ones of 16 steps over 12 expressions and 32 constraints, and of 40 steps over 15 variables), "
        "replayed with mock solvers that succeed, fail and panic; nontrivial: the history solves")


def c11(c):
    for f in histories(c, False):
        c.drive("solve", f)
    c.minimum += [("values_compared", 5000), ("solve_fail", 1000), ("solve_panic", 1000), ("solve_solved", 2000), ("solve_unknown", 200)]
    return c.finish("model_checking", RULE, ["variables are told apart in the standard problem by their initial values"])


def c12(c):
    for k, f in enumerate(histories(c, True)):
        rec = c.path("rec%d" % k)
        c.drive("solve", f, extra_env={"RECORDS": rec})
        c.validate("SolveCheck", "SolveCheck", rec)
    kkt(c)
    c.minimum += [("recorded_solves", 5000), ("recorded_parts", 500)]
    return c.finish("model_checking", RULE + "; every sequence of two (thorough three) of 32 constraints is solved with distinct multipliers and TLC judges the duals (spec/SolveCheck.tla); "
                    "random convex models made around their only solution (spec/KktGen.tla) are solved by Cbc, Clp and Ipopt",
                    ["variables are told apart in the standard problem by their initial values"])


PROPS = {"C11": c11, "C12": c12}
