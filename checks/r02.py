from checks._refs import handles, prims
from vlib import core
from vlib.core import Report

TECHNIQUE = "symbolic balance of reference-count events on every path of the handle operations, with and without aliasing"
LEVEL = "other"
NOTE = ("Every path of construction, copy, move, assignment, swap, adoption and destruction of each handle class is walked over symbolic objects, once for distinct operands and once for an operand assigned to itself. "
        "The retains and releases of each object must equal the change in the number of handles naming it, and nothing reachable through the source operand may be touched after a release.")
RULE = "retains(x) - releases(x) == handles naming x after - before, for every object x; no retain and no access to the source handle after a release; the handle ends up naming the object the operation promises"
WHERE = "include/dynd/config.hpp"
MULT = {}


def judge(op, alias, p):
    """-> list of complaints for one path"""
    why = []
    ev = [e.split(" ", 1) for e in p["ev"]]
    cells = dict(c.split("=", 1) for c in p["cells"])
    facts = p["facts"]
    null = {f[5:] for f in facts if f.startswith("null ")}
    same = {}
    for f in facts:
        if f.startswith("same "):
            a, b = f[5:].split(" ")
            same[a] = b

    def canon(x):
        while x in same:
            x = same[x]
        return "null" if x in null else x
    h = "%0+0"
    src = "%0+0" if alias else "%1+0"
    hist = {"default": [], "copy_ctor": [src], "move_ctor": [src], "dtor": ["%0+0"], "copy_assign": ["%0+0", src], "move_assign": ["%0+0", src], "swap": ["%0+0", src], "member_swap": ["%0+0", src],
            "adopt": [], "share": [], "assign_raw": ["%0+0"], "give_away": ["%0+0"], "get": ["%0+0"], "eq": ["%0+0", src], "ne": ["%0+0", src]}[op]
    init = {c: canon("[%s]" % c[:-2]) for c in set(hist)}
    count = {}

    def add(x, d):
        x = canon(x)
        if x != "null":
            count[x] = count.get(x, 0) + d
    for c, v in init.items():
        add(v, -1)
    after = dict(init)
    if op in ("default", "copy_ctor", "move_ctor", "adopt", "share"):
        after[h] = None
    for c in after:
        if c in cells:
            after[c] = canon(cells[c])
    if op == "dtor":
        after = {}
    for c, v in after.items():
        if v is None:
            return ["handle left uninitialised"]
        add(v, 1)
    if op == "adopt":
        add("%1", -1)
    if op == "give_away":
        if canon(p["ret"]) != init[h]:
            why.append("returns %s instead of the object held" % p["ret"])
        add(init[h], 1)
    if op == "get" and canon(p["ret"]) != init[h]:
        why.append("returns %s instead of the object held" % p["ret"])
    for k, a in ev:
        if k == "retain":
            add(a, -1)
        elif k == "release":
            add(a, 1)
    for x, d in count.items():
        if d:
            why.append("%s ends with %d %s than it is counted for" % (x, abs(d), "more handles" if d > 0 else "fewer handles"))
    # the handle names what the operation promises
    want = {}
    if op == "default":
        want[h] = "null"
    elif op in ("copy_ctor", "copy_assign"):
        want[h] = init[src]
        want[src] = init[src]
    elif op in ("move_ctor", "move_assign"):
        if not alias:
            want[h] = init[src]
    elif op in ("swap", "member_swap"):
        want[h], want[src] = init[src], init[h]
    elif op in ("adopt", "share", "assign_raw"):
        want[h] = canon("%1")
    elif op == "give_away":
        want[h] = "null"
    elif op in ("get", "eq", "ne"):
        want[h] = init[h]
    for c, v in want.items():
        if after.get(c) != v:
            why.append("%s names %s, expected %s" % ("destination" if c == h else "source", after.get(c), v))
    if op in ("eq", "ne"):
        a, b = init["%0+0"], init[src]
        eq = a == b
        if p["ret"] in ("0", "1") and (a == b or p.get("decided")):
            if (p["ret"] == "1") != (eq == (op == "eq")):
                why.append("returns %s for %s objects" % (p["ret"], "the same" if eq else "different"))
        elif p["ret"] in ("0", "1"):
            # not merged on this path: the comparison found them different
            if (p["ret"] == "1") != (op == "ne"):
                why.append("returns %s for different objects" % p["ret"])
        else:
            raise core.AnalysisBroken("comparison result not decided")
    # order: the object released may own the source
    rel = False
    owned = "%0" if alias else "%1"
    for k, a in ev:
        if k == "release" and canon(a) != "null":
            rel = True
        elif rel and k == "retain" and canon(a) != "null":
            why.append("takes a reference to %s after giving one up" % a)
        elif rel and k in ("load", "store") and not alias and op in ("copy_assign", "move_assign") and a.startswith("%1"):
            why.append("uses the source handle after releasing the old object")
    return why


CTOR = r"^dynd::(intrusive_ptr<.*>::intrusive_ptr|ndt::type::type|nd::(callable|array|buffer)::\w+)\([^,]*\*, bool\)$"
BASES = {"base_type": r"^dynd::ndt::base_type::base_type\(", "base_memory_block": r"^dynd::nd::base_memory_block::base_memory_block\(\)", "base_callable": r"^dynd::nd::base_callable::base_callable\("}


def family(ctor):
    a = ctor[ctor.rindex("("):]
    return "base_callable" if "base_callable" in a else "base_memory_block" if "memory_block" in a else "base_type" if "base_type" in a else None


def sites(r):
    bc = core.bitcode()
    files = list(bc.values())
    init = {}
    field = {}
    pw = core.compile_witness("r01", prims())
    for x in core.run_tool(["refcount", "w_rc__retain"], [pw]):
        for e in x.get("ev", "").split():
            if e.startswith("rmw@"):
                field[x["fn"].split("__")[-1]] = e.split(":")[0][4:]
    off = {"base_type": field.get("type"), "base_memory_block": field.get("memory_block"), "base_callable": field.get("callable")}
    for f, rx in BASES.items():
        for x in core.run_tool(["initcount", rx], files):
            if str(x["off"]) == off[f]:
                init.setdefault(f, {}).setdefault(x["val"], x["where"])
    for f, v in init.items():
        if set(v) - {"0", "1"} or len(v) != 1:
            r.add("%s: initial count" % f, False, list(v.values())[0], "constructors start the count at %s" % sorted(v))
    kinds = {}
    total = 0
    for x in core.run_tool(["adopt", CTOR], files):
        f = family(x["ctor"])
        if f is None or len(init.get(f, {})) != 1:
            continue
        start = list(init[f])[0]
        fn = core.re.sub(r"\(.*", "", x["fn"]) if x["fn"][0] != "(" else x["fn"][:120]
        tmpl = core.re.sub(r"<.*>", "<...>", fn)
        total += 1
        o = x["origin"]
        if o == "new" and x["flag"] != "?":
            ok = (start == "1") == (x["flag"] == "adopt") and start in ("0", "1")
            r.add("new %s counted once in %s" % (f, tmpl), ok, x["where"],
                  "object starts with count %s and the handle %s a reference" % (start, "adds" if x["flag"] == "share" else "does not add"))
            kinds["new"] = kinds.get("new", 0) + 1
        elif x["flag"] == "adopt" and o in ("arg0", "arg1", "load") and core.re.search(r"\) const$", x["fn"]):
            r.add("borrowed %s shared in %s" % (f, tmpl), False, x["where"], "handle adopts a pointer (%s) whose reference belongs to someone else" % ("this" if o.startswith("arg") else "loaded from a member"))
        elif x["flag"] == "share" and o.startswith(("arg", "load")):
            r.add("borrowed %s shared in %s" % (f, tmpl), True, x["where"], "adds a reference")
            kinds["borrowed"] = kinds.get("borrowed", 0) + 1
    r.notes = {"construction sites": total, "by kind": kinds, "initial counts": {f: sorted(v) for f, v in init.items()}}


def run():
    r = Report("R02")
    t, names = handles()
    w = core.compile_witness("r02", t)
    n = 0
    got = {}
    for x in core.run_tool(["handles", "w_h__"], [w]):
        got.setdefault((x["fn"], x["alias"]), []).append(x)
    for (fn, alias), xs in sorted(got.items()):
        h, op = names[fn]
        if alias and op in ("copy_ctor", "move_ctor", "adopt", "share"):
            continue
        for x in xs:
            if x["k"] == "fn" and not x["ok"]:
                raise core.AnalysisBroken("%s %s: %s" % (h, op, x["why"]))
        if alias and op == "assign_raw":
            continue
        paths = [x for x in xs if x["k"] == "path"]
        n += len(paths)
        why = sorted({c for p in paths for c in judge(op, alias, p)})
        if not paths:
            why = ["no path returns"]
        r.add("%s %s%s" % (h, op, " to itself" if alias else ""), not why, WHERE, "; ".join(why) or "%d paths" % len(paths))
    sites(r)
    r.notes["paths"] = n
    r.assumptions = ["retain and release change the count by one (R01)"]
    return r.finish(80, RULE, NOTE, units=["witness r02", "all translation units (construction sites)"])
