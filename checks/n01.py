from vlib.core import Report
from checks._num import records

TECHNIQUE = "path-sensitive interval/float-range abstract interpretation of LLVM IR"
LEVEL = "other"
NOTE = ("Every conversion kernel selected for a built-in type pair in a checked mode is analysed over all source values: each "
        "float-to-integer conversion instruction must be in range, each stored value must equal the source up to what the mode permits, "
        "and each raise must be unreachable for representable values. Covers bool, 8-64 bit integers, float, double and their complex "
        "types; 128-bit and half precision are outside the domain.")
RULE = ("for every path of every kernel reached by assign_callable<D,S>::resolve in a checked mode: (1) operands of fptosi/fptoui lie in the "
        "target's range and are not NaN/inf; (2) the value stored is the source value (fraction may go in overflow mode, rounding may happen in "
        "overflow/fractional mode for float destinations); (3) no non-zero imaginary part is dropped; (4) sa.throw is reached only with "
        "sources that the destination cannot hold in that mode")


def run():
    r = Report("N01")
    recs = records()
    for x in recs:
        key = "%s [%s]" % (x["pair"], x["mode"])
        if x["reads"] == 0 or x["aborted"]:
            r.add(key, False, x["where"], "the resolver's error mode dispatch could not be followed")
            continue
        if x["bad"]:
            r.add(key, False, x["badw"][0], "; ".join(x["bad"][:3]), kernels=x["kernels"][:2])
        else:
            r.add(key, bool(x["kernels"]) or x["mode_throws"] > 0, x["where"],
                  "checked" if x["kernels"] else "no conversion kernel is selected and no error is raised", kernels=x["kernels"][:2])
    r.notes = {"pairs": len({x["pair"] for x in recs}), "kernels": len({k for x in recs for k in x["kernels"]}),
               "stores_checked": sum(x["stores"] for x in recs), "raises_checked": sum(x["throws"] for x in recs),
               "float_to_int_conversions": sum(x["convs"] for x in recs)}
    r.assumptions = ["clang's IR of the translation unit is what runs; bool sources hold 0 or 1"]
    return r.finish(400, RULE, NOTE, units=["src/dynd/assignment.cpp"], floors={"stores_checked": 300})
