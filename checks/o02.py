import os
import re
from vlib import core
from vlib.core import Report

TECHNIQUE = "path analysis of missing-value tests: reachability between tests, value uses and missing-value stores in the inlined LLVM IR"
LEVEL = "other"
NOTE = ("In every kernel that handles values that may be missing, and every function that asks whether a value is there, the IR is searched for the tests (calls that write a local flag, or a named predicate), "
        "the uses of the value, and the stores of a missing value (calls with no source). From each side of each test the paths are followed, with the small constants known along them, to the next test or the "
        "end: no use where the value is missing, a missing value stored or an error raised there, and the value used where it is there. For kernels working on runs of equal flags the run searched last decides.")
RULE = "missing edge: no value use before the next test, and every path to a return stores a missing value; available edge: no missing store, and every path uses the value; test and use see the same operand and count"


def run():
    R = Report("O02")
    files = []
    for d, _, fs in os.walk(os.path.join(core.REPO, "src/dynd")):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), core.REPO)
            if f.endswith(".cpp"):
                t = open(os.path.join(d, f), errors="replace").read()
                if any(x in t for x in ("old_is_avail", "is_avail_builtin", "assign_callable.hpp", "assignment_kernels.hpp", "option_to_value", "forward_na")) or os.path.basename(f) in ("add.cpp", "equal.cpp", "less.cpp", "assignment.cpp"):
                    files.append(rel)
    units = core.compdb()
    files = sorted(f for f in files if f in units)
    bc = core.bitcode(files, debug="-g")
    seen = {}
    for x in core.run_tool(["missing"], [bc[f] for f in files]):
        k = x["fn"]
        if k not in seen or (x["bad"] and not seen[k]["bad"]):
            seen[k] = x
    for fn, x in sorted(seen.items()):
        if not x["tests"] and not x["runs"]:
            R.notes["not judged"] = R.notes.get("not judged", 0) + 1
            R.notes.setdefault("not judged functions", []).append(fn)
            continue
        R.add("O02:%s" % fn, not x["bad"], core.relpath(x["where"]), re.sub(re.escape(core.REPO) + "/", "", x["bad"]) or "values are used only where they are there")
    R.assumptions = ["a call that writes a local flag from the operand is the test whether it is missing, one without a source stores a missing value: which kernels these are is decided by K04 and O01"]
    return R.finish(minimum=5, rule=RULE, explanation="tests for missing values and what is reached from their two sides", units=len(files))
