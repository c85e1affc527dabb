import collections, re
from vlib import core
from vlib.core import Report


def generic(c):
    """Name without template arguments and parameters."""
    out, d = "", 0
    for i, ch in enumerate(c.replace("operator<", "operator_lt")):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    out = re.sub(r"\(.*", "", out)
    return out.replace("dynd::nd::", "").strip()


def spec(c):
    """Name with short template arguments, or the generic one when they are long."""
    c = re.sub(r"(::resolve)\(.*", r"\1", c)
    for a, b in (("dynd::nd::", ""), ("dynd::ndt::", ""), ("dynd::", ""), ("(anonymous namespace)::", "")):
        c = c.replace(a, b)
    return c if len(c) < 90 and "(" not in c else generic(c)


def owner(fn):
    """The callable whose resolve function recorded this closure."""
    i = fn.find("call_node::init<")
    j = fn.rfind("::resolve(", 0, fn.find("lambda")) if "lambda" in fn else fn.find("::resolve(")
    if i < 0 or j < i:
        return spec(fn)
    return spec(fn[i + len("call_node::init<"):j])


def trees():
    bcs = core.bitcode(sorted(core.compdb()), debug="-g")
    recs = core.run_tool(["ktree", ""], sorted(bcs.values()))
    builds, kernels = {}, {}
    for d in recs:
        if d["k"] == "build":
            builds.setdefault(d["fn"], d)
        else:
            kernels.setdefault(d["cls"], d)
    return sorted(bcs), builds, kernels


def plans():
    bcs = core.bitcode(sorted(core.compdb()), debug="-g")
    out = {}
    for d in core.run_tool(["kplan", ""], sorted(bcs.values())):
        out.setdefault(d["fn"], d)
    return out


def note_aborted(R, what, names):
    if names:
        R.notes["not judged (%s)" % what] = len(names)
        R.assumptions.append("not judged, %s: %s" % (what, ", ".join(sorted(set(names)))[:600]))
