from vlib.core import Report
from checks import _cursor

TECHNIQUE = "difference-bound (zone) abstract interpretation of the decoders and encoders of every text encoding and of the code that calls them"
LEVEL = "proof"
NOTE = ("The next_/append_ functions of all encodings are analysed for all inputs under the contract of their callers: at least one unit between position and end, the range a whole number of units. Every read and write must be proven between position and end, the position handed back must be inside, and must have moved forward, so loops over text end. "
        "Calls through the selected function pointers must be proven to have position < end. UTF-16 and UTF-32 text is assumed to be a whole number of units long. A destination that was just enlarged is not tracked (counted as not judged).")
RULE = "position <= p and p + width <= end for every access; position < position after <= end; every caller passes position < end"


def run():
    R = Report("P02")
    rels = _cursor.judge(R, lambda d: (d["what"] == "room" if d["k"] == "ob" else not d["role"]) or "string_encodings." in d["fwhere"])
    return R.finish(minimum=60, rule=RULE, explanation="decoders and encoders of all encodings, and the callers that select them at run time", units=len(rels), floors={"functions": 24, "range obligations": 120})
