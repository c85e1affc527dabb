from vlib import core
from vlib.core import Report

TECHNIQUE = "path-sensitive interval abstract interpretation of every division kernel's LLVM IR"
LEVEL = "other"
NOTE = ("Each single and strided kernel of divide, mod and compound divide is inlined completely; at every integer division instruction the divisor is "
        "proved non-zero and the pair (smallest value, -1) excluded on every path, and with the divisor fixed to zero every path that reads it ends in a raise before any store.")
RULE = "sdiv/udiv/srem/urem reached => divisor range excludes 0, and not (dividend may be MIN and divisor may be -1); divisor leaf == 0 => sa.throw"
UNITS = ["src/dynd/divide.cpp", "src/dynd/mod.cpp", "src/dynd/compound_div.cpp"]


def run():
    r = Report("N05")
    bc = core.bitcode(UNITS)
    recs = []
    for u, f in bc.items():
        for x in core.run_tool(["intdiv"], [f]):
            x["unit"] = u
            recs.append(x)
    for x in recs:
        key = "%s %s %s" % (x["unit"], x["kind"], x["cls"])
        if x["bad"]:
            r.add(key, False, x["badw"][0], "; ".join(x["bad"]))
        else:
            r.add(key, x["zero_throws"] > 0, x["where"], "%d divisions, %d raising paths for zero" % (x["divs"], x["zero_throws"]))
    r.notes = {"kernels": len(recs), "divisions": sum(x["divs"] for x in recs), "reached": sum(x["reached"] for x in recs),
               "raising_paths": sum(x["zero_throws"] for x in recs)}
    for u in UNITS:
        n = sum(1 for x in recs if x["unit"] == u)
        r.notes["kernels " + u] = n
    r.assumptions = ["operands are read from the source element the kernel was given; bool operands may hold any byte"]
    return r.finish(250, RULE, NOTE, units=UNITS, floors={"kernels " + u: 60 for u in UNITS})
