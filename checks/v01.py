import os
from vlib import core
from vlib.core import Report

TECHNIQUE = "ownership and flag dataflow over the inlined LLVM IR of every function that makes an array over existing memory"
LEVEL = "other"
NOTE = ("In every function that makes an array over another array's memory, the IR (with the array and buffer helpers inlined) is searched for the source of the memory pointer, of the owner reference and of "
        "the access flags of the new array's memory block: the owner must be the source's owner where that is set and the source itself otherwise (the reference kept in the metadata for memory behind a "
        "pointer), and the flags must be derived from the source's without gaining the write bit. The same is decided for the references that pointer and var-dimension metadata carry when it is copied or "
        "indexed, and for the write check of buffer::data(). Sites whose sources are not understood are not judged.")
RULE = "owner(new) refers to owner(src) if set, else src; flags(new) & write implies flags(src) & write; copied metadata keeps or gets the element memory reference; data() returns memory only behind a write-flag check"
FILES = ["src/dynd/array.cpp", "src/dynd/buffer.cpp", "src/dynd/view.cpp", "src/dynd/types/pointer_type.cpp", "src/dynd/types/var_dim_type.cpp"]


def run():
    R = Report("V01")
    files = [f for f in FILES if os.path.exists(os.path.join(core.REPO, f))]
    for d, _, fs in os.walk(os.path.join(core.REPO, "src/dynd")):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), core.REPO)
            if f.endswith(".cpp") and rel not in files and any(x in open(os.path.join(d, f), errors="replace").read() for x in ("make_array(", "make_buffer(", "get_owner(")):
                files.append(rel)
    bc = core.bitcode(files, debug="-g")
    seen = {}
    for x in core.run_tool(["views"], [bc[f] for f in files]):
        k = (x["fn"], x.get("place", ""), x["where"].rsplit(":", 1)[0] if x.get("place") else x["where"])
        old = seen.get(k)
        order = ["ok", "vague", "bad"]
        if not old or order.index(x["state"]) > order.index(old["state"]):
            seen[k] = x
    n = {}
    for (fn, place, w), x in sorted(seen.items()):
        if x["state"] == "vague":
            R.notes["not judged"] = R.notes.get("not judged", 0) + 1
            R.notes.setdefault("not judged sites", []).append("%s at %s" % (fn, core.relpath(x["where"])))
            continue
        key = "V01:%s%s" % (fn, " (%s)" % place if place else "")
        n[key] = n.get(key, 0) + 1
        if n[key] > 1:
            key += " #%d" % n[key]
        R.add(key, x["state"] == "ok", core.relpath(x["where"]), x["why"])
    R.assumptions = ["assigning to an array does not check its write access flag: assignments write through the read pointer by design"]
    return R.finish(minimum=8, rule=RULE, explanation="arrays made over existing memory, copied metadata references, and the write check of buffers", units=len(files))
