import os
import re
from vlib import core
from vlib.core import Report

TECHNIQUE = "consistency of component visits across the metadata operations of each composite type, read from the inlined LLVM IR"
LEVEL = "other"
NOTE = ("For every composite type the calls that its metadata operations make on its components are found in the IR by their slot in the virtual table, with the component, the place of its metadata as an "
        "expression over the type's own fields, the loop that visits the components and the conditions the call stands under. Construction from defaults is the reference: the other operations must reach the "
        "component at the same place, for the same range of components, under no further condition than that the component has metadata at all, and the cleanup of a construction that throws must destroy the "
        "components before the failing one, each at its own place. Forms that are not understood are not judged.")
RULE = "place(op, component) = place(construct, component); range(op) = range(construct); guards(op) within {component is not builtin, component has metadata} and guards(construct); cleanup covers [0, failing)"
MUST = ["arrmeta_copy_construct", "arrmeta_destruct", "arrmeta_reset_buffers", "arrmeta_finalize_buffers", "data_destruct", "data_destruct_strided"]
TO = {"data_destruct": ("data_destruct", "data_destruct_strided"), "data_destruct_strided": ("data_destruct", "data_destruct_strided")}


def place(s):
    if "{" in s:
        return "?"
    return re.sub(r"^arg\d", "meta", s).replace("(iadd-1)", "i").replace("(isub1)", "i")


def extra_guards(c, ref, size, refbound):
    """guards under which a component with metadata would be passed over; None in the list for one that is not understood"""
    out = []
    child = c["child"]
    for g in [x for x in c["guards"].split(";") if x]:
        if g in ref:
            continue
        m = re.match(r"^(\w+) (\{.*?\}|\(.*\)|\S+) (\S+)$", g)
        if not m or "?" in g:
            continue
        pred, a, b = m.groups()
        if pred in ("is", "not") or "i" in (a, b) or "(iadd" in g or "(isub" in g:
            continue  # a loop, or a flag that is not an order
        if re.match(r"^arg\d$", a) and (b == "0" or re.match(r"^arg\d$", b)):
            continue
        nonzero = (b == "0" and pred in ("ne", "ugt", "sgt")) or (b == "1" and pred in ("uge", "sge"))
        if child in a:
            if "and" in a and pred in ("ne", "eq"):
                out.append("only where the component's flags say so (%s)" % g)
            elif size and ("[%s+%s]" % (child, size)) in a and not nonzero:
                out.append("only for components with some sizes of metadata (%s)" % g)
            elif size and re.search(r"\[%s\+(?!%s\])\d+\]" % (re.escape(child), size), a) and re.match(r"^-?\d+$", b):
                out.append("only where the component's type says so (%s)" % g)
            continue
        if nonzero and (size is None or a == "[arg0+%s]" % size or a == refbound):
            continue
        if re.match(r"^\[arg[01](\+\d+)?\]$", a) and (re.match(r"^-?\d+$", b) or re.match(r"^\[arg[01](\+\d+)?\]$", b)):
            out.append("under a condition that construction does not have (%s)" % g)
    return out


def run():
    R = Report("T01")
    d = os.path.join(core.REPO, "src/dynd/types")
    files = sorted("src/dynd/types/" + f for f in os.listdir(d) if f.endswith(".cpp") and "arrmeta_default_construct" in open(os.path.join(d, f), errors="replace").read())
    bc = core.bitcode(files, debug="-g")
    calls, fns, size = {}, {}, None
    for x in core.run_tool(["nestmeta"], [bc[f] for f in files]):
        if x["k"] == "size":
            m = re.match(r"^\[arg0\+(\d+)\]$", x["at"])
            size = size or (m and m.group(1))
        elif x["k"] == "call":
            l = calls.setdefault((x["cls"], x["op"]), [])
            if x not in l:
                l.append(x)
        else:
            fns[x["cls"], x["op"]] = x
    judged = set()
    for cls in sorted({c for c, _ in fns}):
        ref = [c for c in calls.get((cls, "arrmeta_default_construct"), []) if not c["cleanup"] and c["to"] == "arrmeta_default_construct"]
        if not ref:
            # the type has no component whose metadata it constructs, or it does so elsewhere
            continue
        places = {place(c["at"]) for c in ref}
        refguards = {g for c in ref for g in c["guards"].split(";") if g}
        refloops = {c["loop"] for c in ref}
        known = all("?" not in p for p in places)
        bounds = {l.split("|")[2] for l in refloops if l}
        refbound = next(iter(bounds)) if len(bounds) == 1 else None
        judged.add(cls)
        for op in ["arrmeta_default_construct"] + MUST:
            f = fns.get((cls, op))
            if not f:
                continue
            cs = calls.get((cls, op), [])
            body = [c for c in cs if not c["cleanup"]]
            key = "T01:%s::%s" % (cls, op)
            w = core.relpath(f["where"])
            if not f["returns"]:
                R.notes["not judged"] = R.notes.get("not judged", 0) + 1
                continue
            bad = []
            good = [c for c in body if c["to"] in TO.get(op, (op,))]
            if not good:
                if f["opaque"] or (cls, op) == ("pointer_type", "arrmeta_finalize_buffers"):
                    R.notes["not judged"] = R.notes.get("not judged", 0) + 1
                    continue
                bad.append("it does not reach the components' metadata at all")
            for c in body:
                if c["to"] not in TO.get(op, (op,)):
                    if c["to"] == "arrmeta_destruct" and op == "arrmeta_default_construct":
                        continue
                    bad.append("it calls %s on a component (%s)" % (c["to"], core.relpath(c["where"])))
                    continue
                at, frm = place(c["at"]), place(c["from"])
                if known and "?" not in at and at not in places:
                    bad.append("a component's metadata is taken at %s, and construction puts it at %s (%s)" % (at, " or ".join(sorted(places)), core.relpath(c["where"])))
                if op == "arrmeta_copy_construct" and "?" not in at + frm and at != frm:
                    bad.append("a component's metadata is copied from %s to %s (%s)" % (frm, at, core.relpath(c["where"])))
                if op == "arrmeta_copy_construct" and "?" not in at + frm and (c["at"][:4] != "arg1" or c["from"][:4] != "arg2"):
                    bad.append("a component's metadata is copied from %s to %s (%s)" % (c["from"], c["at"], core.relpath(c["where"])))
                if not c["idx"] and "?" not in at + frm + c["child"]:
                    bad.append("a component is given the place of another one's metadata (%s)" % core.relpath(c["where"]))
                if c["data"] and "?" not in c["data"] + c["child"] and not c["dataidx"] and c["nidx"]:
                    bad.append("a component is given the place of another one's data (%s)" % core.relpath(c["where"]))
                if c["left"] and not f["opaque"]:
                    bad.append("only one component is visited (%s)" % core.relpath(c["where"]))
                for x in c["exits"].split(";"):
                    if x == "kind" or (c["child"] in x and "?" not in x):
                        bad.append("the visit stops at the first component of some kind (%s, %s)" % (x, core.relpath(c["where"])))
                if c["loop"]:
                    init, step, bound = c["loop"].split("|")
                    if step == "1":
                        if re.match(r"^\d+$", init) and init != "0":
                            bad.append("the first %s components are passed over (%s)" % (init, core.relpath(c["where"])))
                        if refbound and "?" not in bound and "?" not in refbound and bound not in ("outer", refbound) and re.match(r"^[(\[]*arg|^-?\d+$|^\(\[", bound) and "arg0" in bound:
                            if bound.strip("()").startswith(refbound) or re.match(r"^-?\d+$", bound):
                                bad.append("the components are visited up to %s and not %s (%s)" % (bound, refbound, core.relpath(c["where"])))
                    elif re.match(r"^\d+$", step) and step != "0":
                        bad.append("only every %s. component is visited (%s)" % (step, core.relpath(c["where"])))
                if not op.startswith("data_") and op != "arrmeta_default_construct":
                    bad += ["a component is visited " + g for g in extra_guards(c, refguards, size, refbound)]
                elif op == "arrmeta_default_construct":
                    bad += ["a component is visited " + g for g in extra_guards(c, set(), size, refbound) if "only" in g]
            R.add(key, not bad, w, "; ".join(sorted(set(bad))) or "every component is reached at its place")
            if op == "arrmeta_default_construct" and any(refloops) and all(refloops):
                cl = [c for c in cs if c["cleanup"] and c["to"] != op]
                bad = []
                if not cl and not f["opaque_cleanup"]:
                    bad.append("when a component's construction throws, the ones before it are not destroyed")
                for c in cl:
                    at = place(c["at"])
                    if c["to"] != "arrmeta_destruct":
                        bad.append("the cleanup calls %s (%s)" % (c["to"], core.relpath(c["where"])))
                    if known and "?" not in at and at not in places:
                        bad.append("the cleanup takes a component's metadata at %s, and construction puts it at %s (%s)" % (at, " or ".join(sorted(places)), core.relpath(c["where"])))
                    if not c["idx"] and "?" not in at + c["child"]:
                        bad.append("the cleanup gives a component the place of another one's metadata (%s)" % core.relpath(c["where"]))
                    if c["loop"]:
                        init, step, bound = c["loop"].split("|")
                        if step == "1":
                            if re.match(r"^\d+$", init) and init != "0":
                                bad.append("the cleanup passes over the first %s components (%s)" % (init, core.relpath(c["where"])))
                            if bound == refbound:
                                bad.append("the cleanup also destroys components that were never constructed (%s)" % core.relpath(c["where"]))
                    if any(re.match(r"^[su]le i i$", g) for g in c["guards"].split(";")):
                        bad.append("the cleanup also destroys the component whose construction failed (%s)" % core.relpath(c["where"]))
                R.add("T01:%s::%s cleanup" % (cls, op), not bad, w, "; ".join(sorted(set(bad))) or "the components already constructed are destroyed, each at its place")
    for (cls, op), f in sorted(fns.items()):
        if op not in ("arrmeta_default_construct", "arrmeta_copy_construct"):
            continue
        g = fns.get((cls, "arrmeta_destruct"))
        for p in [x for x in f["kept"].split(";") if x and "?" not in x and "{" not in x]:
            if not g:
                R.add("T01:%s own reference (%s)" % (cls, op), False, core.relpath(f["where"]), "%s keeps a reference in the metadata at %s, and the type has no arrmeta_destruct to give it up" % (op, p))
            elif not g["opaque"]:
                R.add("T01:%s own reference (%s)" % (cls, op), p in g["read"].split(";"), core.relpath(g["where"]), "%s keeps a reference in the metadata at %s, and arrmeta_destruct %s" % (op, p, "takes it from there" if p in g["read"].split(";") else "does not give it up"))
    R.notes["composite types judged"] = sorted(judged)
    R.assumptions = ["pointer_type does not pass arrmeta_finalize_buffers on to its target and does not implement arrmeta_reset_buffers: neither is judged"]
    return R.finish(minimum=25, rule=RULE, explanation="visits of component metadata in the operations of each composite type", units=len(files))
