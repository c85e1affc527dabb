from checks._fold import *
from vlib.core import Report

TECHNIQUE = "partial evaluation of the losslessness predicate for every type pair, compared with value-set inclusion"
LEVEL = "other"
NOTE = ("is_lossless_assignment is folded to a constant by the compiler's constant folder for every ordered pair of built-in numeric types, with the "
        "type registry read from its initialiser; each 'true' must be a value-set inclusion computed independently from width, signedness, significand and exponent range.")
RULE = "is_lossless_assignment(D,S) == true => values(S) subset of values(D); is_lossless_assignment(T,T) == true"
UNITS = ["src/dynd/type.cpp", "src/dynd/type_registry.cpp"]
MAN = {16: 11, 32: 24, 64: 53, 128: 113}
EMAX = {16: 15, 32: 127, 64: 1023, 128: 16383}


def included(d, s):
    (kd, wd), (ks, ws) = info(d), info(s)
    if ks == "b":
        return True
    if kd == "b":
        return False
    if ks in "iu":
        bits = ws - (ks == "i")
        if kd == "i":
            return wd >= ws if ks == "i" else wd > ws
        if kd == "u":
            return ks == "u" and wd >= ws
        # -2^bits is a power of two, so only its exponent matters
        return bits <= MAN[wd] and (bits if ks == "i" else bits - 1) <= EMAX[wd]
    if ks == "f":
        return kd in "fc" and wd >= ws
    return kd == "c" and wd >= ws


def run():
    r = Report("N03")
    t = HEAD
    for d in IDS:
        for s in IDS:
            t += 'extern "C" int w_l__%s__%s() { return is_lossless_assignment(T(%s_id), T(%s_id)); }\n' % (d, s, d, s)
    vals, rows = fold("n03", t, UNITS, ["w_l__%s__" % d for d in IDS])
    for d in IDS:
        for s in IDS:
            key = "is_lossless_assignment(%s, %s)" % (d, s)
            v = vals["w_l__%s__%s" % (d, s)]["val"]
            if v not in ("0", "1", "throws"):
                raise core.AnalysisBroken("%s does not fold to a constant" % key)
            if v == "1":
                r.add(key, included(d, s), "src/dynd/type.cpp", "reports lossless, but some %s value is not a %s value" % (s, d) if not included(d, s) else "true, inclusion holds")
            elif d == s:
                r.add(key, False, "src/dynd/type.cpp", "a type is not lossless to itself (%s)" % v)
            else:
                r.add(key, True, "src/dynd/type.cpp", v)
    r.notes = {"pairs": len(vals), "reported lossless": sum(1 for v in vals.values() if v["val"] == "1"), "registry rows": len(rows)}
    r.assumptions = ["the registry table is the one built by detail::infos()", "128-bit floats have a 113-bit significand"]
    return r.finish(17 * 17, RULE, NOTE, units=UNITS, floors={"registry rows": 25})
