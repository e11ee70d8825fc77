"""C20 (spec/Params.tla): typed parameters and refused problem classes."""
from check import THOROUGH
from props.cmd import spread


def c20(c):
    files = []
    for cfg in ["one", "two"] + (["three"] if THOROUGH else []):
        out = c.path(cfg + ".jsonl")
        c.tlc_ok("Params", "Params_" + cfg, out=out)
        files.append(out)
    spread(c, files, what="params", binary="ipo")
    files = c.simulate("Params", "Params_random", runs=16 if THOROUGH else 4, num=3000 if THOROUGH else 150, depth=22)
    spread(c, files, what="params", binary="ipo")
    c.minimum += [("set", 2000), ("set_refused", 10000), ("solved", 800), ("refused", 1000)]
    return c.finish("model_checking", "every history of two (thorough: three) settings and solves on two objects of each solver and of a solver of all types, and random histories of 20; every solver with every class; "
                    "nontrivial: every history", ["stand-ins for the solver programs and the Ipopt library tell what was run"], exhaustive=True)


PROPS = {"C20": c20}
