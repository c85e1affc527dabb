from vlib import core
from vlib.core import Report
from checks import _arith

TECHNIQUE = "value-numbering equivalence of reduction step and starting-value kernels' LLVM IR with reference operations"
LEVEL = "other"
NOTE = ("The step and starting-value kernels reachable from the initialisers of sum, min, max, all_equal and limits are enumerated, inlined together with a "
        "reference (accumulator op element; zero, greatest or lowest value of the element type), and must be reduced to 'equal'. A starting value of one "
        "fixed type is only accepted when that is the only element type.")
RULE = "step(acc, x) == acc op x bit for bit; start(T) == identity of op over T, stored in T; one start type only if one element type"
OPS = [("sum", "f", "sum"), ("sum", "k", "zero"), ("min", "f", "min"), ("min", "k", "upper"), ("max", "f", "max"), ("max", "k", "lower"),
       ("limits::max", "k", "limits_max"), ("limits::min", "k", "limits_min"), ("all_equal", "y", "all_equal")]
UNITS = ["src/dynd/sum.cpp", "src/dynd/statistics.cpp", "src/dynd/limits.cpp", "src/dynd/all_equal.cpp"]


def run():
    r = Report("N09")
    bc = core.bitcode(UNITS)
    ref = _arith.reference()
    core.build_tool()
    ty = {}
    n = {}
    wh = {}
    for x in core.run_tool(["arith", ref] + [":".join(o) for o in OPS], list(bc.values())):
        if x["k"] == "arith":
            r.add(x["key"], x["ok"], x["where"], x["why"])
            n[x["op"]] = n.get(x["op"], 0) + 1
            wh[x["op"]] = x["where"]
        elif x["k"] == "aritype":
            ty.setdefault(x["op"], set()).add(x["type"])
    for op, start in (("sum", "zero"), ("min", "upper"), ("max", "lower")):
        f, i = ty.get(op, set()), ty.get(start, set())
        ok = len(i) != 1 or f <= i
        r.add("%s: the starting value has the element type" % op, ok, wh.get(op, ""),
              "" if ok else "the only starting value is of type %s but elements of type %s are reduced" % (", ".join(sorted(i)), ", ".join(sorted(f - i))))
    for o in ("sum", "min", "max", "limits::max", "limits::min", "all_equal"):
        r.notes["kernels " + o] = n.get(o, 0)
    return r.finish(150, RULE, NOTE, units=UNITS, floors={"kernels sum": 30, "kernels min": 30, "kernels max": 30, "kernels limits::max": 12, "kernels limits::min": 12, "kernels all_equal": 100})
