from vlib.core import Report
from checks._num import records

TECHNIQUE = "constant-propagating path enumeration of each resolver instance, then conformance of the selected kernel to the requested mode"
LEVEL = "other"
NOTE = ("For each of the built-in type pairs and each checked error mode the resolver instance is evaluated with the caller's mode fixed; the kernel "
        "instantiated on every such path is found through the closure it emplaces, and that kernel is analysed against the standard of the mode that was "
        "asked for. A mode mapped to a laxer conversion is reported when that conversion can actually lose what the mode forbids.")
RULE = "kernel reached for (D,S,mode) stores only values mode permits, for all sources; every mode value leads to a kernel or an error"


def run():
    r = Report("N02")
    recs = records()
    by = {}
    for x in recs:
        by[(x["pair"], x["mode"])] = x
    num = {"overflow": 1, "fractional": 2, "inexact": 3}
    from checks._num import kernel_modes
    for x in recs:
        key = "%s [%s]" % (x["pair"], x["mode"])
        if x["reads"] == 0 or x["aborted"]:
            r.add(key, False, x["where"], "the resolver's error mode dispatch could not be followed")
        elif not x["kernels"] and x["mode_throws"] == 0:
            r.add(key, False, x["where"], "no conversion is selected and no error raised")
        elif x["bad"] and (kernel_modes(x) - {num[x["mode"]]} or x["kernels"] == []):
            # the mode was mapped elsewhere and what it was mapped to is too lax
            r.add(key, False, x["where"], "requested %s, got kernel(s) %s: %s" % (x["mode"], sorted(kernel_modes(x)), "; ".join(x["bad"][:2])), kernels=x["kernels"][:2])
        else:
            r.add(key, True, x["where"], "kernel meets the requested mode")
    r.notes = {"pairs": len({x["pair"] for x in recs}), "dispatches": len(recs), "kernels": len({k for x in recs for k in x["kernels"]})}
    r.assumptions = ["the mode is read through as<assign_error_mode>() on the keyword or the evaluation context default"]
    return r.finish(400, RULE, NOTE, units=["src/dynd/assignment.cpp"])
