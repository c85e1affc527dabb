from vlib.core import Report
from checks import _cursor

TECHNIQUE = "difference-bound (zone) abstract interpretation of every function that walks a character range, with a computed postcondition per function"
LEVEL = "proof"
NOTE = ("Every function taking a position and an end of a character range is analysed for all inputs over difference bounds between its pointers, loops to a fixed point, callees through their own proven contract (position <= end before, position' between position and end after). "
        "Every character read through a pointer derived from the range, every piece handed on (string ranges, memcmp, memchr, stream writes) and every position handed back must be proven inside; text may not be handed to functions that read until a zero. Functions taking only std::string are out of scope, as is text reached through pointers the domain cannot follow (counted as not judged).")
RULE = "begin <= p and p + width <= end for every access through the range; begin <= position after <= end; every callee entered with position <= end"


def run():
    R = Report("P01")
    rels = _cursor.judge(R, lambda d: not ("string_encodings." in d["fwhere"] or d["what"] == "room" if d["k"] == "ob" else "string_encodings." in d["fwhere"] or not d["role"]))
    return R.finish(minimum=120, rule=RULE, explanation="every function of the text-handling units that has a (position, end) parameter pair", units=len(rels), floors={"functions": 70, "range obligations": 900})
