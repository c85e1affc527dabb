"""Shared by N01 and N02: the numeric assignment dispatch records of src/dynd/assignment.cpp."""
from vlib import core

_MODES = ("overflow", "fractional", "inexact")
_N = {"overflow": 1, "fractional": 2, "inexact": 3}


def records():
    bc = core.bitcode(["src/dynd/assignment.cpp"])
    return core.run_tool(["numassign"], list(bc.values()))


def kernel_modes(rec):
    """Modes named by the kernels reached (a label only, used to word reports)."""
    import re
    out = set()
    for k in rec["kernels"]:
        m = re.search(r"\(dynd::assign_error_mode\)(\d)", k)
        if m:
            out.add(int(m.group(1)))
    return out
