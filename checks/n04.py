from checks._fold import *
from vlib.core import Report

TECHNIQUE = "partial evaluation of arithmetic type promotion for every ordered type pair"
LEVEL = "other"
NOTE = ("promote_types_arithmetic is folded to a constant type for every ordered pair of built-in numeric types; the full table is then checked for "
        "symmetry, kind order (bool < integer < real < complex) and width.")
RULE = "promote(a,b) == promote(b,a); kind(promote) >= kind(a),kind(b); same kind as an operand => at least as wide"
UNITS = ["src/dynd/type_promotion.cpp", "src/dynd/type.cpp", "src/dynd/type_registry.cpp"]
RANK = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3}


def run():
    r = Report("N04")
    t = HEAD
    for a in IDS:
        t += 'extern "C" int w_i__%s() { return %s_id; }\n' % (a, a)
        for b in IDS:
            t += 'extern "C" int w_p__%s__%s() { return promote_types_arithmetic(T(%s_id), T(%s_id)).get_id(); }\n' % (a, b, a, b)
    vals, rows = fold("n04", t, UNITS, ["w_i__"] + ["w_p__%s__" % a for a in IDS])
    num = {vals["w_i__" + a]["val"]: a for a in IDS}
    P = {}
    for a in IDS:
        for b in IDS:
            v = vals["w_p__%s__%s" % (a, b)]["val"]
            if v == "?":
                raise core.AnalysisBroken("promote_types_arithmetic(%s, %s) does not fold to a constant" % (a, b))
            P[a, b] = num.get(v, v)
    for a in IDS:
        for b in IDS:
            p, why = P[a, b], []
            if p not in IDS:
                why.append("gives %s" % p)
            else:
                if P[b, a] != p:
                    why.append("gives %s but the other order gives %s" % (p, P[b, a]))
                k, w = info(p)
                for x in (a, b):
                    kx, wx = info(x)
                    if RANK[k] < RANK[kx]:
                        why.append("result %s is of a lesser kind than %s" % (p, x))
                    if RANK[k] == RANK[kx] and w < wx:
                        why.append("result %s is narrower than %s" % (p, x))
            r.add("promote(%s, %s)" % (a, b), not why, "src/dynd/type_promotion.cpp", "; ".join(why) or p)
    r.notes = {"pairs": len(P), "registry rows": len(rows)}
    r.assumptions = ["the registry table is the one built by detail::infos()"]
    return r.finish(17 * 17, RULE, NOTE, units=UNITS, floors={"registry rows": 25})
