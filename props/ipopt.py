"""C18 (spec/IpoptCb.tla), C19 (spec/IpoptUse.tla, IpoptTrace.tla): the Ipopt interface with a stand-in library."""
from check import THOROUGH, ToolError


def broken(c, module, cfg, why):
    bad, _ = c.tlc(module, cfg)
    if not bad:
        raise ToolError(why)


def c18(c):
    broken(c, "IpoptCb", "IpoptCb_newlambda", "combining Hessians for new multipliers only should break the design")
    broken(c, "IpoptCb", "IpoptCb_stale", "evaluating at the first point only should break the design")
    for cfg in ["one", "two"] + (["three"] if THOROUGH else []):
        out = c.path(cfg + ".jsonl")
        c.tlc_ok("IpoptCb", "IpoptCb_" + cfg, out=out)
        c.drive("cb", out, binary="ipo")
    for f in c.simulate("IpoptCb", "IpoptCb_random", runs=32 if THOROUGH else 8, num=6000 if THOROUGH else 600, depth=17):
        c.drive("cb", f, binary="ipo")
    c.minimum += [("calls", 150000), ("h", 20000), ("refused", 9000), ("jacS", 800), ("hS", 800)]
    return c.finish("model_checking", "every history of two (thorough: three) callbacks, proper or refused, on six problems at two points with two sets of multipliers, every history of two calls on two open problems, "
                    "and random histories of 14 calls on up to three random problems; nontrivial: every history", ["Ipopt passes the flags its documentation describes"], exhaustive=True)


def c19(c):
    broken(c, "IpoptUse", "IpoptUse_leak", "releasing only after a solve should break the design")
    files = []
    for cfg in ["one", "two"]:
        out = c.path(cfg + ".jsonl")
        c.tlc_ok("IpoptUse", "IpoptUse_" + cfg, out=out)
        files.append(out)
    files += c.simulate("IpoptUse", "IpoptUse_random", runs=32 if THOROUGH else 4, num=5000 if THOROUGH else 500, depth=90)
    for k, f in enumerate(files):
        rec = c.path("rec%d.jsonl" % k)
        c.drive("use", f, binary="ipo", extra_env={"RECORDS": rec})
        if k < 4 or THOROUGH:
            c.validate("IpoptTrace", "IpoptTrace", rec)
    c.minimum += [("expected_solved", 500), ("expected_infeasible", 300), ("expected_error", 500), ("expected_fail", 3000), ("records", 5000)]
    return c.finish("model_checking", "every ending of one solve (19 return codes, creation and option failures, parameter settings) and of two in a row on three problems, and random scenarios of six solves with random problems, "
                    "limits and answers; recorded library calls validated by TLC; nontrivial: every scenario", ["the stand-in library behaves as Ipopt's C interface documents"], exhaustive=True)


PROPS = {"C18": c18, "C19": c19}
