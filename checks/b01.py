import re
from checks._fold import *
from vlib.core import Report

TECHNIQUE = "partial evaluation of every built-in type table and id dispatch, compared with independent type facts"
LEVEL = "other"
NOTE = ("Size, default size, alignment, kind, id traits, registry rows, printed names and the value printer's memory accesses are folded per built-in id "
        "and compared with facts derived from the id's meaning (width, kind) and from the C++ type that stores it.")
RULE = "for each built-in id: size, default size == width/8; alignment == alignof(C++ type); base kind, printed name, registry name/singleton and make_type id agree; printing reads exactly the value with its signedness"
UNITS = ["src/dynd/type.cpp", "src/dynd/type_registry.cpp", "src/dynd/types/type_id.cpp"]
from checks import _fold


def info(n):
    k, w = _fold.info(n)
    return (k, 2 * w) if k == "c" else (k, w)


KIND = {"b": "bool_kind", "i": "int_kind", "u": "uint_kind", "f": "float_kind", "c": "complex_kind"}
ALIAS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long",
         "long long", "unsigned long long", "std::complex<float>", "std::complex<double>", "const int", "int &", "float", "double",
         "dynd::int8", "dynd::int16", "dynd::int32", "dynd::int64", "dynd::uint8", "dynd::uint16", "dynd::uint32", "dynd::uint64",
         "dynd::float32", "dynd::float64"]


def run():
    r = Report("B01")
    t = HEAD + "#include <ostream>\n#include <complex>\n"
    F = lambda n, e: 'extern "C" long w_%s() { return (long)(%s); }\n' % (n, e)
    for a in IDS:
        t += F("f_id__" + a, "%s_id" % a)
        t += F("f_kid__" + a, "%s_id" % KIND[info(a)[0]])
        t += F("f_size__" + a, "T(%s_id).get_data_size()" % a)
        t += F("f_dsize__" + a, "T(%s_id).get_default_data_size()" % a)
        t += F("f_align__" + a, "T(%s_id).get_data_alignment()" % a)
        t += F("f_base__" + a, "T(%s_id).get_base_id()" % a)
        t += F("f_bi__" + a, "T(%s_id).is_builtin()" % a)
        t += F("f_ami__" + a, "T(%s_id).get_arrmeta_size()" % a)
        t += F("f_sizeof__" + a, "sizeof(%s)" % CXX[a])
        t += F("f_alignof__" + a, "alignof(%s)" % CXX[a])
        t += F("f_mt__" + a, "ndt::make_type<%s>().get_id()" % CXX[a])
        t += F("f_idof__" + a, "ndt::id_of<%s>::value" % CXX[a])
    for i, a in enumerate(ALIAS):
        t += F("f_as__%d" % i, "sizeof(std::decay<%s>::type)" % a)
        t += F("f_ak__%d" % i, "std::is_same<std::decay<%s>::type, bool>::value ? 'b' : std::is_floating_point<std::decay<%s>::type>::value ? 'f' : "
               "std::is_integral<std::decay<%s>::type>::value ? (std::is_signed<std::decay<%s>::type>::value ? 'i' : 'u') : 'c'" % ((a,) * 4))
        t += F("f_am__%d" % i, "ndt::make_type<%s>().get_id()" % a)
    for a in IDS + ["void"]:
        t += 'extern "C" int w_p__%s(std::ostream &o, const char *d) { print_builtin_scalar(%s_id, o, d); return 0; }\n' % (a, a)
        t += 'extern "C" int w_t__%s(std::ostream &o) { o << T(%s_id); return 0; }\n' % (a, a)
        t += 'extern "C" int w_i__%s(std::ostream &o) { o << %s_id; return 0; }\n' % (a, a)
    vals, rows = fold("b01", t, UNITS, ["w_f_a", "w_f_b", "w_f_d", "w_f_i", "w_f_k", "w_f_m", "w_f_s", "w_p", "w_t", "w_i"])
    V = {}
    for k, x in vals.items():
        if k.startswith("w_f_"):
            if not re.match(r"-?\d+$", x["val"]):
                if x["val"] != "throws":
                    raise core.AnalysisBroken("%s does not fold to a constant" % k)
                V[k[4:]] = x["val"]
            else:
                V[k[4:]] = int(x["val"])

    def eq(key, got, want, where):
        r.add(key, got == want, where, "is %s, expected %s" % (got, want) if got != want else str(got))

    W = "src/dynd/type.cpp"
    ids = {}
    for a in IDS:
        k, w = info(a)
        g = lambda n: V["%s__%s" % (n, a)]
        ids[g("id")] = a
        eq("sizeof(C++ type of %s)" % a, g("sizeof"), w // 8, "include/dynd")
        eq("get_data_size(%s)" % a, g("size"), w // 8, W)
        eq("get_default_data_size(%s)" % a, g("dsize"), w // 8, W)
        eq("get_data_alignment(%s)" % a, g("align"), g("alignof"), W)
        eq("get_base_id(%s)" % a, g("base"), g("kid"), "src/dynd/type_registry.cpp")
        eq("is_builtin(%s)" % a, g("bi"), 1, "include/dynd/types/type_id.hpp")
        eq("get_arrmeta_size(%s)" % a, g("ami"), 0, "include/dynd/type.hpp")
        eq("make_type<C++ type of %s>" % a, g("mt"), g("id"), "include/dynd/type.hpp")
        eq("id_of<C++ type of %s>" % a, g("idof"), g("id"), "include/dynd/types/type_id.hpp")
    eq("distinct ids", len(ids), len(IDS), "include/dynd/types/type_id.hpp")
    for i, a in enumerate(ALIAS):
        got = ids.get(V["am__%d" % i])
        k = chr(V["ak__%d" % i])
        want = (k, 8 * V["as__%d" % i])
        eq("make_type<%s>" % a, info(got) if got else got, want, "include/dynd/type.hpp")
    # names and registry
    TN = {"complex_float32": "complex[float32]", "complex_float64": "complex[float64]"}

    def text(x):
        return "".join(c.split("| ? ", 1)[1] for c in x["calls"] if "operator<<" in c and "| ? " in c and "char const*" in c)

    for a in IDS + ["void"]:
        eq("printed type name of %s" % a, text(vals["w_t__" + a]), TN.get(a, a), W)
        eq("printed id name of %s" % a, text(vals["w_i__" + a]), a, "src/dynd/types/type_id.cpp")
    RN = {"complex_float32": ("complex32", "complex64"), "complex_float64": ("complex64", "complex128")}
    for a in IDS:
        i = V["id__" + a]
        row = rows.get(i)
        if row is None:
            raise core.AnalysisBroken("no registry row for %s" % a)
        r.add("registry name of %s" % a, row["name"] in RN.get(a, (a,)), "src/dynd/type_registry.cpp", row["name"])
        eq("registry singleton of %s" % a, ids.get(row["single"]), a, "src/dynd/type_registry.cpp")
    names = {}
    for i, row in rows.items():
        if row["name"] and row["name"] != "?":
            r.add("registry name %s unique" % row["name"], row["name"] not in names, "src/dynd/type_registry.cpp", "ids %s and %s" % (names.get(row["name"]), i))
            names[row["name"]] = i
    # what the value printer reads
    SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "float": 4, "double": 8}
    for a in IDS:
        k, w = info(a)
        x = vals["w_p__" + a]
        key = "printing a %s value" % a
        if x["val"] == "throws":
            r.add(key, False, W, "the id is not handled")
            continue
        calls = [c.split(" |")[0] for c in x["calls"]]
        ld = [l.split(":", 1) for l in x["loads"] if l.startswith("1+")]
        why = []
        cover = set()
        for o, ty in ld:
            off = int(o[2:])
            ty, ext = ty.split(":")
            if k in "iu" and ext and ext != ("s" if k == "i" else "z"):
                why.append("widens the value with the wrong signedness")
            if ty not in SZ:
                continue
            cover |= set(range(off, off + SZ[ty]))
            if (k in "fc") and w > 16 and ty not in ("float", "double"):
                why.append("reads a floating-point value as %s" % ty)
            if k in "biu" and ty in ("float", "double"):
                why.append("reads an integer as %s" % ty)
        memcpy = any(c.startswith("llvm.memcpy") for c in calls)
        if w == 128 and k in "iu":
            tn = "dynd::" + a
            if not any(("%s const&" % tn) in c or ("%s)" % tn) in c for c in calls):
                why.append("does not print a %s" % tn)
        elif w == 128 and k == "f":
            pass
        elif cover and not memcpy and cover != set(range(w // 8)):
            why.append("reads bytes %s of a %d-byte value" % (sorted(cover), w // 8))
        elif not cover and not memcpy:
            why.append("does not read the value")
        if k in "iu" and w < 128:
            uns = any("unsigned" in c for c in calls if "ostream" in c and "char" not in c)
            if any("_M_insert<" in c or "ostream::operator<<(" in c for c in calls) and uns != (k == "u"):
                why.append("prints with the wrong signedness")
        r.add(key, not why, W, "; ".join(why) or "reads %d bytes" % len(cover))
    r.notes = {"folded facts": len(V), "registry rows": len(rows)}
    r.assumptions = ["the target is x86-64 Linux (LP64), as built here"]
    return r.finish(250, RULE, NOTE, units=UNITS, floors={"registry rows": 25})
