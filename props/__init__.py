"""Property id -> function(Check) -> exit code."""
import importlib
PROPS = {}
for m in ("expr", "model", "matrix", "lp", "solve", "solfile", "cmd", "ipopt", "params", "opt", "views"):
    PROPS.update(importlib.import_module("props." + m).PROPS)
