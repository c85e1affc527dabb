import collections
from vlib.core import Report
from checks import _ktree as T

TECHNIQUE = "path-sensitive counting of what resolve functions record in the call graph, matched with what the recorded instantiation closures consume"
LEVEL = "other"
NOTE = ("For every resolve function of the library and every path: it records exactly one node of its own before any callable it resolves into the graph, or none and passes on to exactly one callable; the closure it records takes exactly its own node, and builds as many children as were resolved. "
        "Children resolved or built in loops are matched as 'some number'; their number and which child is meant for what are not judged. Paths that raise are not judged.")
RULE = "nodes recorded on a path = (own node, one subtree per child), consumed in that order by the closure"


def run():
    R = Report("K04")
    units, builds, _ = T.trees()
    plans = T.plans()
    aborted = []
    for b in builds.values():
        if b["aborted"]:
            aborted.append(T.owner(b["fn"]))
            continue
        if not b["events"]:
            continue
        key = "closure of %s: takes its own node first, and only that" % T.owner(b["fn"])
        R.notes["closures"] = R.notes.get("closures", 0) + 1
        if not b["order"]:
            R.add(key, True, b["where"], "%d paths" % b["paths"])
        for o in b["order"]:
            w, why = o.split("|", 1)
            R.add(key, False, w, why)
    T.note_aborted(R, "instantiation not followed", aborted)
    need, dark = collections.defaultdict(set), []
    for d in plans.values():
        fn = T.spec(d["fn"])
        if d["aborted"]:
            dark.append(fn)
            continue
        R.notes["resolve functions"] = R.notes.get("resolve functions", 0) + 1
        key = "%s: one node, recorded before its children" % fn
        if not d["order"] and d["plans"]:
            R.add(key, True, d["where"], "%d paths" % d["paths"])
        for o in d["order"]:
            w, why = o.split("|", 1)
            R.add(key, False, w, why)
        for p in d["plans"]:
            n, k, w = p.split("\t")
            if not d["whole"]:
                if k == "0" or n != "0":
                    R.add("%s: records exactly one node" % fn, n == "1" and k == "0", d["where"], "records %s nodes and resolves %s callables" % (n, k))
                continue
            if n == "0":
                if k != "*":
                    R.add("%s: records a node or passes on" % fn, k == "1", d["where"], "records no node and passes on to %s callables" % k if k != "1" else "passes on")
            elif n == "1" and w not in ("", "?"):
                need[(d["fn"], w, d["where"])].add(k)
    for (f, w, where), ks in sorted(need.items()):
        b = builds.get(w)
        if not b or b["aborted"]:
            R.notes["closures not matched"] = R.notes.get("closures not matched", 0) + 1
            continue
        c = set(b["counts"])
        ok = ks == c or not c or ("*" in ks and "*" in c)
        key = "%s: resolves as many children as its kernel builds" % T.spec(f)
        R.notes["matched"] = R.notes.get("matched", 0) + 1
        R.add(key, ok, where, "resolves %s, builds %s" % ("/".join(sorted(ks)), "/".join(sorted(c))))
    T.note_aborted(R, "resolve function not followed", dark)
    return R.finish(60, RULE, "The call graph is consumed front to back: a node recorded in another order, missing or surplus makes every later kernel take its neighbour's node.", units,
                    {"resolve functions": 1000, "matched": 1000, "closures": 1000})
