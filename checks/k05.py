import re
from vlib.core import Report
from vlib import core
from checks import _ktree as T

TECHNIQUE = "type analysis of recorded closures and kernel objects: the members of every instantiated closure and kernel class, taken from the compiled program's type information"
LEVEL = "other"
NOTE = ("Every closure type recorded in a call graph and every kernel type emplaced in a kernel buffer, in every instantiation of the library. Members of classes with a destructor of their own are taken to manage what they refer to. "
        "A captured `this` is taken to be kept alive by whoever holds the callable; plain char pointers in kernels are places in the caller's metadata or data, which live as long as the call.")
RULE = ("a closure recorded by resolve() holds no pointer or reference, other than to code or to its callable: everything it was resolved with is gone when it is instantiated; "
        "a kernel holds no pointer or reference to a type, array, callable, string or vector object, but a copy")
OBJECTS = re.compile(r"^(const )?(type|array|callable|string|bytes|vector<.*|basic_string<.*|\w+_type|base_callable|\w+_callable|map<.*|pair<.*) [*&]")


def run():
    R = Report("K05")
    units = sorted(core.compdb())
    bcs = core.bitcode(units, debug="-g")
    seen = {}
    for d in core.run_tool(["capture"], sorted(bcs.values())):
        seen.setdefault((d["k"], d["cls"] if d["k"] == "kernel" and d["cls"] else d["fn"]), d)
    for (kind, _), d in seen.items():
        where = core.relpath(d["where"])
        if not d["complete"]:
            R.notes["types not seen in full"] = R.notes.get("types not seen in full", 0) + 1
            continue
        R.notes[kind + "s"] = R.notes.get(kind + "s", 0) + 1
        name = T.owner(d["fn"]) if kind == "closure" else T.spec(d["cls"])
        bad = []
        for m in d["members"]:
            n, k, t, _ = m.split("|")
            R.notes["members"] = R.notes.get("members", 0) + 1
            if k == "pointer" and n != "this" and (kind == "closure" or OBJECTS.match(t)):
                bad.append("%s, %s" % (n, t.strip()))
            if n == "this":
                R.notes["captures of the callable"] = R.notes.get("captures of the callable", 0) + 1
        key = ("closure recorded by %s owns what it refers to" if kind == "closure" else "kernel %s owns the objects it refers to") % name
        R.add(key, not bad, where, "holds " + "; ".join(bad) if bad else "%d members" % len(d["members"]))
    return R.finish(100, RULE, "Members, bases and plain aggregates of each closure and kernel class are enumerated from the debug information of its instantiation.", units, {"closures": 1000, "kernels": 1000})
