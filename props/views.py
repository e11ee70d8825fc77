"""C23 (spec/Views.tla): problem objects made by hand and their views."""
from check import THOROUGH


def c23(c):
    c.tlc_ok("Views", "Views_all", out=c.path("all.jsonl"))
    files = [c.path("all.jsonl")]
    files += c.simulate("Views", "Views_random", runs=32 if THOROUGH else 4, num=6000 if THOROUGH else 1000, depth=10)
    for f in files:
        c.drive("views", f)
    c.minimum += [("inconsistent", 1000), ("evaluated", 5000), ("combined", 500)]
    return c.finish("model_checking", "every class of problem at every size up to three variables, two rows and two nonlinear constraints, with consistent data and with each single size off by one; "
                    "random problems through eight evaluations and combinations by their views; nontrivial: every case", ["quadratic functions with small integer data, exact in double precision"], exhaustive=True)


PROPS = {"C23": c23}
