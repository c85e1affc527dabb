from vlib import core
from vlib.core import Report

TECHNIQUE = "case analysis of every comparison kernel's inlined LLVM IR (operands less / equal / greater / NaN)"
LEVEL = "other"
NOTE = ("For every comparison callable on built-in boolean, 8-64-bit integer, float and double operands, the single and strided kernels it "
        "instantiates are found through its vtable, inlined completely, and the stored result is shown to be the relation's value in each of the cases "
        "less, equal, greater and NaN operand; a comparison instruction only counts when both operands were converted to their common type.")
RULE = "stored result == rel(case) for case in {lt, eq, gt, NaN-first, NaN-second, NaN-both}; compared values are the two operands converted to the common type"
RELS = ["less", "less_equal", "equal", "not_equal", "greater_equal", "greater"]


def run():
    r = Report("N06")
    units = ["src/dynd/%s.cpp" % x for x in RELS]
    bc = core.bitcode(units)
    import concurrent.futures
    core.build_tool()
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda x: core.run_tool(["relcmp", x], [bc["src/dynd/%s.cpp" % x]]), RELS))
    nk = nc = 0
    for rel, recs in zip(RELS, res):
        for x in recs:
            nk += len(x["kernels"])
            nc += x["cases"]
            if x["bad"]:
                r.add(x["callable"], False, x["badw"][0], "; ".join(x["bad"][:4]))
            else:
                ok = x["kernels"] and x["cmps"] > 0
                if not ok:
                    raise core.AnalysisBroken("no comparison kernel found behind %s" % x["callable"])
                r.add(x["callable"], True, x["where"], "%d cases over %s" % (x["cases"], ", ".join(x["kernels"])[:200]))
        r.notes["callables " + rel] = len(recs)
    r.notes["kernels"] = nk
    r.notes["cases"] = nc
    r.assumptions = ["which callable a name denotes is H01's subject", "bool operands hold 0 or 1"]
    return r.finish(600, RULE, NOTE, units=units, floors={"callables " + x: 100 for x in RELS})
