"""C21 (spec/Opt.tla): models solved end to end by the real solvers."""
import os, shutil
from check import THOROUGH, env
from props.cmd import spread


def sound_cbc(c):
    """Cbc 2.10.11's preprocessing calls some feasible models infeasible (DESIGN.md): such an answer is
    given up for that of Cbc without preprocessing when that one finds an optimum."""
    d = c.path("bin")
    os.makedirs(d, exist_ok=True)
    real = shutil.which("cbc", path=env()["PATH"])
    with open(d + "/cbc", "w") as f:
        f.write(r"""#!/bin/bash
%s "$@"
r=$?
o="${!#}"
if [ "$(head -c 18 "$o" 2>/dev/null)" = "Integer infeasible" ]; then
  m="$1"; shift; set -- "${@:1:$#-1}"
  %s "$m" preprocess off "$@" "$o.2" >/dev/null 2>&1
  if [ "$(head -c 7 "$o.2" 2>/dev/null)" = "Optimal" ]; then cat "$o.2" > "$o"; fi
  rm -f "$o.2"
fi
exit $r
""" % (real, real))
    os.chmod(d + "/cbc", 0o755)
    return {"PATH": d + ":" + env()["PATH"]}


def c21(c):
    e = sound_cbc(c)
    menu = c.path("menu.jsonl")
    c.tlc_ok("Opt", "Opt_menu", out=menu, workers=1)
    spread(c, [menu] * (4 if THOROUGH else 1), what="opt", extra_env=e)
    files = c.simulate("Opt", "Opt_random", runs=32 if THOROUGH else 4, num=4000 if THOROUGH else 1500, depth=4)
    spread(c, files, what="opt", extra_env=e, timeout=1800)
    files = c.simulate("Opt", "Opt_knap", runs=32 if THOROUGH else 4, num=500 if THOROUGH else 150, depth=4)
    spread(c, files, what="opt", extra_env=e, timeout=1800)
    c.tlc_ok("Opt", "Opt_pairs")
    files = c.simulate("Opt", "Opt_blocks", runs=32 if THOROUGH else 4, num=2000 if THOROUGH else 150, depth=4)
    spread(c, files, what="opt", extra_env=e, timeout=1800)
    c.minimum += [("cbc_solved", 2500), ("cbc_infeasible", 1000), ("clp_solved", 800), ("ipopt_solved", 800)]
    return c.finish("model_checking", "bounded models with up to three variables and three rows, and up to six of them side by side, whose exact optimum TLC finds among all integer assignments and vertices, "
                    "solved by Cbc, Clp and Ipopt; a menu of 1458 and random ones; nontrivial: every case",
                    ["Ipopt is asked only for models with an interior relative to independent equations", "the installed solvers are right up to their tolerances"])


def kkt(c):
    """Part of C12: models made around their only primal and dual solution."""
    files = c.simulate("KktGen", "KktGen_random", runs=32 if THOROUGH else 4, num=4000 if THOROUGH else 800, depth=30)
    spread(c, files, what="kkt", timeout=1800)
    files = c.simulate("KktGen", "KktGen_blocks", runs=16 if THOROUGH else 2, num=2000 if THOROUGH else 200, depth=200)
    spread(c, files, what="kkt", timeout=1800)
    c.minimum += [("cbc_solved", 800), ("clp_solved", 800), ("ipopt_solved", 1500), ("duals", 8000)]


PROPS = {"C21": c21}
