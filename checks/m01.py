from vlib import core
from vlib.core import Report

TECHNIQUE = "abstract interpretation of the memory block classes over their histories: chunks as segments with symbolic bounds, all counts and capacities symbolic, what was handed out tracked as ghost state"
LEVEL = "other"
NOTE = ("Every history of construction, then up to five calls of alloc, resize, reset (and finalize) in the listed orders, then destruction, for any counts and any initial capacity, for pod, zeroinit and object array memory blocks and several element sizes and alignments. "
        "Assumed: counts below 2^40, allocations succeed and are aligned to 16 bytes; resize is called on the latest piece, as documented. Longer histories and finalize followed by further use are not covered.")
RULE = "each piece handed out lies inside a live chunk, is aligned, is apart from the others and zero where promised; contents survive alloc and resize; every chunk is released once; object elements are destroyed exactly once, with their own metadata and stride"

HIST = {"aaa": "a0 a1 a2", "arr": "a0 r1 r2", "aara": "a0 a1 r2 a3", "arar": "a0 r1 a2 r3", "aaxaa": "a0 a1 x a2 a3", "arxar": "a0 r1 x a2 r3", "axa": "a0 x a1", "aaf": "a0 a1 f"}
CLS = [("pod", 4, 4), ("pod", 24, 8), ("pod", 1, 1), ("pod", 6, 4), ("zeroinit", 4, 4), ("zeroinit", 24, 8), ("objects", 16, 8), ("objects", 40, 8)]
INC = {"pod": "pod_memory_block", "zeroinit": "zeroinit_memory_block", "objects": "objectarray_memory_block"}


def text(c, size, al):
    t = ["#include <dynd/memblock/%s.hpp>" % h for h in INC.values()]
    t += ["using namespace dynd;", 'extern "C" void sa_alloc(char *, size_t); extern "C" void sa_resize(char *, size_t); extern "C" void sa_reset(); extern "C" void sa_end();']
    for h, ops in HIST.items():
        if c == "pod":
            make = "nd::pod_memory_block b(size_t(%d), %d, cap);" % (size, al)
        elif c == "zeroinit":
            make = "nd::zeroinit_memory_block b(*tp, cap);"
        else:
            make = "nd::objectarray_memory_block b(*tp, 24, meta, %d, cap);" % size
        body, n = [], 0
        for o in ops.split():
            if o[0] == "a":
                body.append("p = b.alloc(n%s); sa_alloc(p, n%s);" % (o[1], o[1]))
            elif o[0] == "r":
                body.append("p = b.resize(p, n%s); sa_resize(p, n%s);" % (o[1], o[1]))
            elif o[0] == "x":
                body.append("b.reset(); sa_reset();")
            else:
                body.append("b.finalize();")
        t.append('extern "C" void w_%s_%d_%d_%s(const ndt::type *tp, const char *meta, size_t n0, size_t n1, size_t n2, size_t n3, intptr_t cap) { { %s char *p; %s } sa_end(); }'
                 % (c, size, al, h, make, " ".join(body)))
    return "\n".join(t) + "\n"


def run():
    R = Report("M01")
    ws = [core.compile_witness("memblock-%s-%d" % k[:2], text(*k)) for k in CLS]
    for d in core.run_tool(["memblock"], ws):
        key = "M01:%s of %d-byte elements: %s" % (INC[d["cls"]], d["size"], " ".join({"a": "alloc", "r": "resize", "x": "reset", "f": "finalize"}[c] for c in d["history"]))
        if not d["bad"] and (d["vague"] or not d["judged"]):
            R.notes["not judged"] = R.notes.get("not judged", 0) + 1
            R.notes.setdefault("not judged histories", []).append(key + ": " + d["unclear"])
            continue
        R.notes["cases judged"] = R.notes.get("cases judged", 0) + d["judged"]
        R.add(key, not d["bad"], core.relpath(d["where"]) if d["where"].startswith(core.REPO) else "include/dynd/memblock/%s.hpp" % INC[d["cls"]], d["why"])
    return R.finish(minimum=16, rule=RULE, explanation="histories of the memory blocks that store variable-sized elements", units=1, floors={"cases judged": 30})
