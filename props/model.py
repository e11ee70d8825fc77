"""C07-C10 and the model part of C05, C06 (spec/ModelGen.tla, StdCheck.tla)."""
from check import THOROUGH, SEED
from props.expr import ASSUME, design, gen
from props.solve import histories

RULE = ("models enumerated by TLC (all sequences of <= 2, thorough 3, constraints of a menu of 27 over a continuous and an integer variable, "
        "at a grid of 64 points) or simulated (random linear, nonlinear and 13-variable models, those of 24 variables with up to 32 constraints and of 70 variables with up to 120, and models whose limits lie close together far from zero); nontrivial: ")


def models(c, sims=("lin", "mix", "wide", "many", "huge", "near"), menu=True):
    files = []
    if menu:
        c.tlc_ok("ModelGen", "ModelGen_menu", out=c.path("menu.jsonl"))
        files.append(c.path("menu.jsonl"))
        if THOROUGH:
            c.tlc_ok("ModelGen", "ModelGen_menu3", out=c.path("menu3.jsonl"), timeout=1800)
            files.append(c.path("menu3.jsonl"))
    runs, num = (48, 1500) if THOROUGH else (2, 600)
    for m in sims:
        if m == "huge":
            files += c.simulate("ModelGen", "ModelGen_huge", runs=8 if THOROUGH else 1, num=100 if THOROUGH else 24, depth=300)
            continue
        files += c.simulate("ModelGen", "ModelGen_" + m, runs=runs, num=num // 2 if m == "many" else num, depth=100)
    return files


def check(pid, what, minimum=(), records=None, sims=("lin", "mix", "wide", "many", "huge", "near"), exprs=False, hist=False):
    def f(c):
        if hist:
            for cases in histories(c, False):
                c.drive("solve", cases)
        if exprs:
            design(c)
            for cases in gen(c, pid == "C06"):
                c.drive("expr", cases)
        for k, cases in enumerate(models(c, sims)):
            rec = c.path("rec%d" % k) if records else None
            c.drive("model", cases, extra_env={"RECORDS": rec} if rec else None)
            if rec:
                c.validate("StdCheck", "StdCheck_" + records, rec)
        c.minimum += list(minimum)
        return c.finish("model_checking", RULE + what, ASSUME)
    return f


def c07(c):
    c.tlc_ok("Viol", "Viol_one", out=c.path("one.jsonl"))
    c.drive("viol", c.path("one.jsonl"))
    for cases in c.simulate("Viol", "Viol_hist", runs=16 if THOROUGH else 2, num=2000 if THOROUGH else 300, depth=8):
        c.drive("viol", cases)
    for cases in models(c):
        c.drive("model", cases)
    c.minimum += [("not_evaluable", 1000), ("exact_satisfied", 1000), ("exact_violated", 1000), ("satisfied", 1000), ("violated", 1000), ("missing_value", 1000)]
    return c.finish("model_checking", "relations, forms and pairs of values enumerated by TLC (spec/Viol.tla); " + RULE + "the violation was compared with its exact value", ASSUME)


PROPS = {
    "C07": c07,
    "C05": check("C05", "the program or model has a meaning with all variables named alike", exprs=True),
    "C06": check("C06", "the text was parsed and evaluated", exprs=True),
    "C08": check("C08", "both feasible and infeasible points were tried", [("feasible_points", 2000), ("infeasible_points", 2000), ("class_minlp", 100), ("side_by_side", 30), ("records", 200)], records="C08"),
    "C09": check("C09", "the objective was compared at some point", [("objective_points", 5000), ("class_milp", 50), ("class_lp", 20), ("records", 200), ("starts_compared", 5000), ("side_by_side", 30)], records="C09", hist=True),
    "C10": check("C10", "a nonlinear problem was evaluated at a sequence of points", [("objective_hessians", 2000), ("constraint_hessians", 2000), ("combinations", 1000), ("linear_points", 500), ("side_by_side", 30)], sims=("lin", "mix", "wide", "many", "huge")),
}
