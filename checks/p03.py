from vlib import core
from vlib.core import Report
from checks._cursor import short

TECHNIQUE = "path-sensitive linear integer arithmetic over machine words: every operation on the number read is a linear relation with an unknown multiple of 2^width, which the path's conditions must rule out"
LEVEL = "proof"
NOTE = ("Every function that turns text into a built-in integer in a checked error mode: on every path of an arbitrary iteration the number so far becomes exactly ten times itself plus the digit, the number returned or stored is exactly the number read or, after '-', its negative, and an overflow error is raised only where that number does not fit. "
        "128-bit destinations and the unchecked (nocheck) conversions are out of scope; an accumulation that reads several digits per step is not judged.")
RULE = "accumulator' = 10 * accumulator + digit without wrap-around; stored value = +-(number read) in the destination type; overflow raised => the number is outside the destination's range"
UNITS = ["src/dynd/parse.cpp", "src/dynd/assignment.cpp", "src/dynd/option.cpp", "src/dynd/json_parser.cpp", "src/dynd/parse_util.cpp", "src/dynd/types/datashape_parser.cpp"]


def run():
    R = Report("P03")
    rels = [r for r in sorted(core.compdb()) if r in UNITS]
    bcs = core.bitcode(rels, debug="-g")
    seen = {}
    for d in core.run_tool(["parseint"], [bcs[r] for r in rels]):
        if d["kind"] == 4 and d["tids"] < 8:
            raise core.AnalysisBroken("the type ids of the built-in integers were not found")
        k = short(d["fn"])
        o = seen.get(k)
        if o is None or d["bad"] > o["bad"]:
            seen[k] = d
    n = {}
    for k, d in sorted(seen.items()):
        R.notes["paths judged"] = R.notes.get("paths judged", 0) + d["judged"]
        R.notes["not judged"] = R.notes.get("not judged", 0) + d["vague"]
        n[d["kind"]] = n.get(d["kind"], 0) + 1
        R.add("P03:" + k, not d["bad"], d["where"], "%s (%d of %d obligations)" % (d["why"], d["bad"], d["judged"]) if d["bad"] else "")
    R.notes["accumulating parsers"] = n.get(1, 0)
    R.notes["signed parsers"] = n.get(2, 0)
    R.notes["kernels and dynamically typed parsers"] = n.get(3, 0) + n.get(4, 0)
    return R.finish(minimum=10, rule=RULE, explanation="every checked conversion of text to a built-in integer", units=len(rels), floors={"accumulating parsers": 4, "signed parsers": 4, "kernels and dynamically typed parsers": 4, "paths judged": 300})
