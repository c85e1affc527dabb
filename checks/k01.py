import collections
from vlib.core import Report
from checks import _ktree as T

TECHNIQUE = "abstract interpretation of instantiation closures (symbolic positions in the kernel buffer) matched with the children a kernel's destructor destroys"
LEVEL = "other"
NOTE = ("For every kernel class built by an instantiation closure of the library: each child built right after it is destroyed by its destructor exactly once per place, nothing else is destroyed, and its evaluation calls only children it owns. "
        "A child's place is a constant offset, an offset stored in a member, or an element of a stored table; tables are not checked for being filled up to their length. A build that fails half way is not judged.")
RULE = "children built inside a kernel = children destroyed by its destructor, and children called are among them"


def run():
    R = Report("K01")
    units, builds, kernels = T.trees()
    kids, aborted = collections.defaultdict(list), []
    for b in builds.values():
        if b["aborted"]:
            aborted.append(T.owner(b["fn"]))
            continue
        R.notes["closures"] = R.notes.get("closures", 0) + 1
        for k in b["kids"]:
            c, w, des = k.split("\t")
            kids[c].append((w, set(x for x in des.split(" ; ") if x), T.owner(b["fn"])))
        for m in b["made"]:
            kids.setdefault(m, kids.get(m, []))
    for c, ks in sorted(kids.items()):
        k, g = kernels.get(c), T.spec(c)
        if not k:
            R.notes["kernels without body"] = R.notes.get("kernels without body", 0) + 1
            continue
        R.notes["kernels"] = R.notes.get("kernels", 0) + 1
        rel, cov = set(k["releases"]), set()
        for i in k["issues"]:
            R.add("%s: destructor" % g, False, k["where"], "the destructor destroys a child twice or itself: " + i)
        order = collections.Counter()
        for w, des, fn in sorted(ks):
            order[fn] += 1
            cov |= des
            key = "%s: child %d built by %s is destroyed" % (g, order[fn], fn)
            if des & rel:
                R.add(key, True, w, "at " + ", ".join(sorted(des & rel)))
                R.notes["children"] = R.notes.get("children", 0) + 1
            elif k["unknown"]:
                R.notes["not judged (destructor unclear)"] = R.notes.get("not judged (destructor unclear)", 0) + 1
            elif not des:
                R.add(key, False, w, "nothing in the kernel tells where this child is, so it can't be destroyed")
            else:
                R.add(key, False, w, "the child is at %s and the destructor destroys %s" % (" or ".join(sorted(des)), ", ".join(sorted(rel)) or "nothing"))
        if rel or ks:
            bad = sorted(rel - cov)
            R.add("%s: destroys only what was built inside it" % g, not bad, k["where"], "destroys %s, where no child is built on every path" % ", ".join(bad) if bad else "destroys " + ", ".join(sorted(rel)))
        if ks and not k["unknown"]:
            for u in k["uses"]:
                d, w = u.split("\t")
                R.add("%s: calls only its own children" % g, d in rel, w, "calls the child at %s, not one of %s" % (d, ", ".join(sorted(rel))) if d not in rel else d)
    T.note_aborted(R, "instantiation not followed", aborted)
    return R.finish(60, RULE, "Positions in the kernel buffer are tracked symbolically through every path of each closure recorded by a resolve function; designators (constant offset / member holding the offset / table entry) connect children to destructor and evaluation functions of the kernel class.",
                    units, {"children": 40, "kernels": 1000})
