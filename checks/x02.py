import re
from vlib import core
from vlib.core import Report
from checks import _ktree as T

TECHNIQUE = "range analysis of subscripts into arrays of fixed length (scalar evolution, dominating conditions, value ranges), with the origin of the bound"
LEVEL = "other"
NOTE = ("For every variable subscript of an array whose length is a compile-time constant, anywhere in the library: the subscript is proven below the length from loop bounds and dominating tests, or runs over the values of an enumeration of that size. "
        "Subscripts bounded only by a member, a capture or a constructor argument (fixed when the object was made) are counted but not judged.")
RULE = "0 <= subscript < length of the array on every path to the access"


def run():
    R = Report("X02")
    bcs = core.bitcode(sorted(core.compdb()), debug="-g")
    n = {}
    for d in core.run_tool(["tables", ""], sorted(bcs.values())):
        if d["k"] == "sum":
            R.notes["functions"] = R.notes.get("functions", 0) + d["functions"]
            continue
        fn = T.spec(re.sub(r"^.*?(?=(?:dynd|\(anonymous)::)", "", d["fn"], 1) if "call_node::init" not in d["fn"] else T.owner(d["fn"]))
        if not d["ok"] and not d["judged"]:
            n.setdefault(fn, 0)
            R.notes["bounded by configuration, not judged"] = R.notes.get("bounded by configuration, not judged", 0) + 1
            continue
        key = "%s: subscripts of its %d-element array" % (fn, d["n"])
        R.notes["subscripts"] = R.notes.get("subscripts", 0) + 1
        R.add(key, d["ok"], d["where"], "subscript %s is not bounded by %d here" % (d["idx"][:80], d["n"]) if not d["ok"] else d["why"] or "bounded")
    if n:
        R.assumptions.append("not judged, bounded by members or captures only: " + ", ".join(sorted(n))[:500])
    return R.finish(20, RULE, "Every access with a variable subscript into a fixed-length array is one obligation; the analysis looks for a proof of the bound at the access.", sorted(bcs), {"subscripts": 60})
