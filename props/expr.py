"""C01-C06, C22: expressions (spec/ExprDesign.tla, ExprGen.tla, Prog.tla, Jet.tla)."""
from check import THOROUGH, SEED

ASSUME = ["rounding: values are compared up to 1e-10 of the magnitude of the terms that make them up",
          "the floating-point reference is confirmed against TLC's exact rationals where those are representable"]
RULE = ("programs of operator applications enumerated by TLC (all of <= 2 instructions over 2 variables, constants and scalars"
        " in every operand form) or simulated (14 instructions over 4 variables; towers of 130; 36 instructions over 12 variables; sums of 130 terms, of 30 terms over 20 variables, of 310 terms over 100 variables and of 1200 terms over 30; 22 in which every second doubles the expression; two like expressions of other variables combined); nontrivial: ")


def gen(c, wide=True):
    """Generates programs and returns the case files."""
    files = []
    mode = "all" if (wide or THOROUGH) else "thin"
    c.tlc_ok("ExprGen", "ExprGen_" + mode, out=c.path("enum.jsonl"), timeout=1500)
    files.append(c.path("enum.jsonl"))
    if THOROUGH:
        c.tlc_ok("ExprGen", "ExprGen_deep", out=c.path("deep.jsonl"), timeout=1500)
        files.append(c.path("deep.jsonl"))
    files += c.simulate("ExprGen", "ExprGen_random", runs=64 if THOROUGH else 6, num=3000 if THOROUGH else 1000, depth=15)
    files += c.simulate("ExprGen", "ExprGen_tower", runs=16 if THOROUGH else 2, num=300 if THOROUGH else 100, depth=131)
    files += c.simulate("ExprGen", "ExprGen_wide", runs=16 if THOROUGH else 1, num=1500 if THOROUGH else 250, depth=37)
    files += c.simulate("ExprGen", "ExprGen_sums", runs=16 if THOROUGH else 1, num=300 if THOROUGH else 40, depth=261)
    files += c.simulate("ExprGen", "ExprGen_sums20", runs=16 if THOROUGH else 1, num=600 if THOROUGH else 120, depth=61)
    files += c.simulate("ExprGen", "ExprGen_span", runs=8 if THOROUGH else 1, num=40 if THOROUGH else 16, depth=621)
    files += c.simulate("ExprGen", "ExprGen_long", runs=8 if THOROUGH else 1, num=30 if THOROUGH else 8, depth=2401)
    files += c.simulate("ExprGen", "ExprGen_bushy", runs=16 if THOROUGH else 1, num=600 if THOROUGH else 120, depth=23)
    for d in (5, 7, 11):
        files += c.simulate("ExprGen", "ExprGen_twin%d" % d, runs=16 if THOROUGH else 1, num=4000 if THOROUGH else 2000, depth=d + 1)
    return files


def design(c):
    """The path-based derivative, the simplifying constructors and the affine analysis, as a
    specification over exact rationals, satisfy the property by themselves."""
    c.tlc_ok("ExprDesign", "ExprDesign_ex")
    if THOROUGH:
        c.tlc_ok("ExprDesign", "ExprDesign_sim", sim=3000, depth=11)


def run(pid, wide, what, minimum=()):
    def f(c):
        design(c)
        for cases in gen(c, wide):
            c.drive("expr", cases)
        c.minimum += list(minimum)
        if pid in ("C01", "C02", "C03", "C04"):
            c.minimum.append(("sums_side_by_side", 50))
        return c.finish("model_checking", RULE + what, ASSUME)
    return f


PROPS = {
    "C01": run("C01", True, "the program means a finite number at one of the three points tried", [("missing_value_checked", 1000)]),
    "C02": run("C02", True, "some derivative is not zero", [("derivative_points", 100000), ("second_derivative_points", 10000)]),
    "C03": run("C03", False, "some second derivative is not zero", [("hessian_entries", 100000), ("reference_confirmed_by_tlc", 1000)]),
    "C04": run("C04", True, "std_properties was compared with the meaning", [("affine", 1000), ("not_affine", 1000), ("affine_points", 10000)]),
    "C05": run("C05", False, "the program means a finite number with all variables named alike"),
    "C06": run("C06", True, "the text was parsed and evaluated"),
    "C22": run("C22", False, "some requested variable is reached", [("nodes_combined", 10000), ("path_sets", 10000)]),
}
