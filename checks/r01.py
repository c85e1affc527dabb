from checks._refs import prims, OBJ
from vlib import core
from vlib.core import Report

TECHNIQUE = "path enumeration over the inlined retain/release primitives with an effect analysis of atomic operations"
LEVEL = "other"
NOTE = ("Every path of each retain and release primitive (types, memory blocks, array buffers, callables, C ABI counts) is enumerated in the IR after inlining; a path must change the count by exactly one "
        "atomic read-modify-write, and the release destroys the object on exactly the paths on which the value it replaced was one. A path without a count update is accepted only when the pointer is a small built-in tag.")
RULE = "retain: one atomic +1, no other write; release: one atomic -1 (release order, acquire before destruction), destroy once iff old count == 1, nothing else written; both on the same field"
WHERE = {"type": "include/dynd/types/base_type.hpp", "memory_block": "include/dynd/memblock/base_memory_block.hpp", "buffer_block": "include/dynd/memblock/buffer_memory_block.hpp",
         "callable": "include/dynd/callables/base_callable.hpp", "abi": "include/dynd/abi/refcount.h"}


def run():
    r = Report("R01")
    w = core.compile_witness("r01", prims())
    field = {}
    npaths = 0
    by = {}
    for x in core.run_tool(["refcount", "w_rc__"], [w]):
        by.setdefault(x["fn"], []).append(x)
    for fn, xs in sorted(by.items()):
        op, obj = fn[6:].split("__")
        where = WHERE[obj]
        for x in xs:
            if x["k"] == "fn" and not x["ok"]:
                raise core.AnalysisBroken("%s: %s" % (fn, x["why"]))
        paths = [x for x in xs if x["k"] == "path"]
        if not paths:
            raise core.AnalysisBroken("no path through " + fn)
        why = []
        live = 0
        for x in paths:
            npaths += 1
            ev = x["ev"].split()
            rmw = [e for e in ev if e.startswith("rmw")]
            des = [e for e in ev if e.startswith("destroy")]
            if x["tagged"]:
                if rmw or des:
                    why.append("a built-in tag is dereferenced or destroyed")
                continue
            live += 1
            if len(rmw) != 1:
                why.append("a path updates the count %d times (%s)" % (len(rmw), x["ev"] or "no effect"))
                continue
            at, d, order = rmw[0].split(":")
            field.setdefault(obj, set()).add(at)
            if d != ("1" if op == "retain" else "-1"):
                why.append("count changes by %s" % d)
            if any(e.startswith(("store", "cas")) for e in ev):
                why.append("another write to shared memory (%s)" % x["ev"])
            if op == "retain":
                if des:
                    why.append("retain destroys")
                continue
            if order not in ("release", "acq_rel", "seq_cst"):
                why.append("decrement is ordered %s" % order)
            if len(des) > 1:
                why.append("destroys twice")
            if des:
                if ev.index(rmw[0]) > ev.index(des[0]):
                    why.append("destroys before the decrement")
                elif des[0] != "destroy:old=1":
                    why.append("destroys when the count was not known to be one")
                if order == "release" and not (x["fence"] and ev.index(des[0]) > min(i for i, e in enumerate(ev) if e.startswith("fence"))):
                    why.append("no acquire before destruction")
            elif x["old"] in ("1", "any"):
                why.append("the last reference goes without destruction")
        if not live:
            why.append("no path updates a count")
        r.add("%s of %s" % (op, obj), not why, where, "; ".join(sorted(set(why))) or "%d paths" % len(paths))
    for o, s in field.items():
        r.add("%s: one count field" % o, len(s) == 1 and "rmw@?" not in s, WHERE[o], "retain and release use %s" % sorted(s))
    r.notes = {"paths": npaths}
    r.assumptions = ["std::atomic and GCC atomic builtins are atomic", "handles call the primitives in balance (R02)"]
    return r.finish(12, RULE, NOTE, units=["witness r01"])
