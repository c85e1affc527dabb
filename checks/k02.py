from vlib.core import Report
from checks import _ktree as T

TECHNIQUE = "abstract interpretation of instantiation closures: addresses inside the kernel buffer carry the epoch of the last possible move"
LEVEL = "other"
NOTE = ("For every instantiation closure of the library and every path through it (loop bodies once, for an arbitrary iteration): an address inside the kernel buffer is not dereferenced, stored through or passed as metadata after a call that may move the buffer. "
        "The data argument handed to a child is opaque here and not judged; memory accesses inside called helper functions that are not inlined are not followed.")
RULE = "every access through an address inside the kernel buffer happens before the next emplace_back / reserve / child instantiation"


def run():
    R = Report("K02")
    units, builds, _ = T.trees()
    aborted = []
    for b in builds.values():
        if b["aborted"]:
            aborted.append(T.owner(b["fn"]))
            continue
        if not b["events"]:
            continue
        fn = T.owner(b["fn"])
        R.notes["closures"] = R.notes.get("closures", 0) + 1
        R.notes["accesses"] = R.notes.get("accesses", 0) + b["derefs"]
        key = "closure of %s: no address into the buffer outlives a move" % fn
        if not b["stale"]:
            R.add(key, True, b["where"], "%d accesses on %d paths" % (b["derefs"], b["paths"]))
        for s in b["stale"]:
            w, why = s.split("|", 1)
            R.add(key, False, w, why)
    T.note_aborted(R, "instantiation not followed", aborted)
    return R.finish(40, RULE, "Each address derived from the builder's data pointer is tagged with the number of buffer-moving calls made so far on the path; using it under a later tag is a violation.", units, {"closures": 1000, "accesses": 2000})
