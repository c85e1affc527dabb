import json
from vlib import core
from vlib.core import Report

TECHNIQUE = "must-compare dataflow: components stored by the constructors against the comparisons passed on every path of the equality operator that answers equal"
LEVEL = "other"
NOTE = ("For every type class, the constructors say which components of the object hold the construction parameters; every path of operator== that returns true must have passed an equal verdict on the type id and on a component for each such parameter. "
        "A path that returns false must have found a difference. Equality of the components themselves (strings, vectors, arrays, callables) is taken from their own operators.")
RULE = "on every path of T::operator== returning true, either both operands are the same object or the id and, for every constructor parameter, a component holding it were found equal; paths returning false found some difference"


def equal_cells(facts):
    out, ids, unknown, differs, same = set(), set(), False, False, False
    part, lost = set(), set()
    halves = {}
    for f in facts:  # a <= b and a >= b together are an equality
        if f[0] == "~":
            kind, _, what = f[1:].partition(" ")
            halves.setdefault((kind[:-3], what if what[:2] == "0:" else "|".join(reversed(what.split("|")))), set()).add(kind[-2:])
    facts = [f for f in facts if f[0] != "~"] + ["=%s %s" % k for k, v in halves.items() if len(v) == 2]
    counts = set()
    for f in facts:
        sign, rest = f[0], f[1:]
        kind, _, what = rest.partition(" ")
        if sign == "?" and "0:" in what and "1:" in what:
            unknown = True
        if (sign == "!" and kind in ("whole", "part")) or (kind == "const" and what.startswith("1:")):
            differs = True
        if kind == "same" and sign == "=":
            same = True
        if "|" in what and kind in ("whole", "part"):
            a, b = what.split("|")
            if a[:2] == "1:":
                a, b = b, a
            if a[:2] == "0:" and b[:2] == "1:" and "+" not in a + b and a[2:] == b[2:] and sign == "=":
                (out if kind == "whole" else part).add(int(a[2:]))
            if a[:2] == "0:" and b[:2] == "1:" and sign == "=" and kind == "part" and "+" in a and "+" in b:
                counts |= {int(c[2:]) for c in a.split("+")} & {int(c[2:]) for c in b.split("+")}
            if a[:2] == "0:" and b[:2] == "1:" and sign == "!" and kind == "part":
                lost |= {int(c[2:]) for c in (a + "+" + b).split("+")}
        if kind == "const" and sign == "=" and what.startswith("1:") and "+" not in what:
            ids.add(tuple(int(x) for x in what[2:].split("|")))
    return out - lost, part, ids, unknown, differs, same, lost, counts


def run():
    R = Report("T02")
    bcs = core.bitcode()
    recs = []
    for line in core.run_tool(["typeeq"], sorted(bcs.values())):
        recs.append(line)
    ctors, eqs, fns, backs = {}, {}, {}, {}
    for r in recs:
        if r["k"] == "ctor":
            if r["params"] == 0:
                continue
            d = ctors.setdefault(r["cls"], {}).setdefault(r["fn"], {})
            for c in r["copies"]:
                p, o = c.split(">")
                d.setdefault(int(p), set()).add(int(o))
        elif r["k"] == "eq":
            eqs.setdefault((r["cls"], r["fn"]), {})[json.dumps(r, sort_keys=True)] = r
        elif r["k"] == "eqfn":
            fns[(r["cls"], r["fn"])] = r
        elif r["k"] == "back":
            backs.setdefault((r["cls"], r["fn"], r["header"]), []).append(r["facts"])
    judged = 0
    for (cls, fn), f in sorted(fns.items()):
        if f["aborted"]:
            R.notes["not_judged"] = R.notes.get("not_judged", 0) + 1
            continue
        loopcov = {}
        for (c, n, h), fs in backs.items():
            if (c, n) != (cls, fn):
                continue
            cells = None
            for x in fs:
                o, p = equal_cells(x)[:2]
                cells = (o | p) if cells is None else cells & (o | p)
            loopcov[h] = cells or set()
        paths = list(eqs.get((cls, fn), {}).values())
        parsed = [(p, equal_cells(p["facts"])) for p in paths]
        negate = "operator!=" in fn
        yes = [(p, x) for p, x in parsed if p["ret"] == (0 if negate else 1)]
        no = [(p, x) for p, x in parsed if p["ret"] == (1 if negate else 0)]
        if cls == "type":
            need = {"handle": {0}}
        else:
            need = {}
            for c, ps in ctors.get(cls, {}).items():
                for p, cells in ps.items():
                    if p >= 2:
                        need["%s parameter %d" % (c.split("(")[0].split("::")[-1] + "/" + str(c.count(",")), p)] = cells
        bad = []
        vague = False
        for p, (whole, part, ids, unk, diff, same, lost, counts) in yes:
            if same:
                continue
            # contradictory paths (a component found both equal and different)
            have = set(whole)
            lengths = bool(have - {16, 40} - set().union(*need.values()))  # an element count held beside the elements
            for h in p["loops"]:
                have |= {c for c in loopcov.get(h, set()) - lost if lengths or c in counts or any(c in n and n & set(whole) - {c} for n in need.values())}
            if cls != "type" and not any(o == 16 for o, v in ids) and 16 not in have:
                bad.append("answers equal without checking the other type's id")
            for n, cells in need.items():
                if not cells & have:
                    vague |= unk
                    bad.append("answers equal without comparing the component at offset %s set from %s" % ("/".join(map(str, sorted(cells))), n))
        for p, (whole, part, ids, unk, diff, same, lost, counts) in no:
            if not diff:
                vague |= unk
                bad.append("answers different although nothing compared was different")
        if bad and vague:  # something is compared in a way the analysis cannot read
            R.notes["not_judged"] = R.notes.get("not_judged", 0) + 1
            continue
        judged += 1
        R.add("T02:%s" % fn.split("dynd::ndt::")[1].split("(")[0], not bad, f["where"], "; ".join(sorted(set(bad)))[:600])
    R.notes["paths"] = sum(len(v) for v in eqs.values())
    R.notes["operators"] = judged
    return R.finish(minimum=20, rule=RULE,
                    explanation="every path of every structural equality operator, against the components every constructor of the class stores",
                    units=len(bcs))
