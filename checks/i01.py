from vlib import core
from vlib.core import Report

TECHNIQUE = "witness functions over the public operators, judged by linear integer arithmetic over the two 64-bit limbs (wrap-arounds as unknown multiples of 2^64)"
LEVEL = "proof"
NOTE = ("For every operator of int128 and uint128 that is implemented without throwing: addition, subtraction, negation, complement, multiplication by a 32-bit number, in-place forms, conversion from and to every built-in integer and between the two classes, comparisons among themselves and with built-in integers, and the limits. "
        "Division, and conversion to and from floating point, are not judged. Operators that raise 'not implemented' are accepted.")
RULE = "result limbs = the limbs of the exact integer result modulo 2^128 for all operands; a comparison answers as the integers compare"
S = [("s8", "signed char"), ("s16", "short"), ("s32", "int"), ("s64", "long"), ("s64", "long long"), ("s8", "char")]
U = [("u8", "unsigned char"), ("u16", "unsigned short"), ("u32", "unsigned int"), ("u64", "unsigned long"), ("u64", "unsigned long long")]


def text():
    t = ["#include <dynd/config.hpp>", "#include <limits>", "#include <utility>", "using namespace dynd;",
         ]
    what = {}

    def w(name, ty, ret, args, body, desc):
        n = "w_" + name + ("_" + ty if ty else "")
        n += "_" + str(len(what))
        t.append('extern "C" %s %s(%s) { %s }' % (ret, n, args, body))
        what[n] = desc

    for p, C in (("i", "int128"), ("u", "uint128")):
        A = "const %s *a, " % C
        AB = "const %s *a, const %s *b" % (C, C)
        w(p + "_add", "", "void", AB + ", %s *r" % C, "*r = *a + *b;", C + " a + b")
        w(p + "_sub", "", "void", AB + ", %s *r" % C, "*r = *a - *b;", C + " a - b")
        w(p + "_neg", "", "void", A + "%s *r" % C, "*r = -*a;", C + " -a")
        w(p + "_same", "", "void", A + "%s *r" % C, "*r = +*a;", C + " +a")
        w(p + "_inv", "", "void", A + "%s *r" % C, "*r = ~*a;", C + " ~a")
        w(p + "_mul", "u32", "void", A + "uint32_t b, %s *r" % C, "*r = *a * b;", C + " a * uint32")
        for o, s in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
            w(p + "_" + o, "", "bool", AB, "return *a %s *b;" % s, "%s a %s b" % (C, s))
        w(p + "_lognot", "", "bool", "const %s *a" % C, "return !*a;", C + " !a")
        w(p + "_tobool", "", "bool", "const %s *a" % C, "return static_cast<bool>(*a);", C + " as bool")
        for k, T in S + U:
            w(p + "_from", k, "void", "%s a, %s *r" % (T, C), "*r = %s(a);" % C, "%s from %s" % (C, T))
            w(p + "_to", k, T, "const %s *a" % C, "return static_cast<%s>(*a);" % T, "%s to %s" % (C, T))
        for k, T in S[:3] + U[:3]:
            w(p + "_lt", k, "bool", "%s a, const %s *b" % (T, C), "return a < *b;", "%s < %s" % (T, C))
            if p == "i":
                w(p + "_gt", k, "bool", "%s a, const %s *b" % (T, C), "return a > *b;", "%s > %s" % (T, C))
        w(p + "_max", "", "void", "%s *r" % C, "*r = std::numeric_limits<%s>::max();" % C, C + " max")
        w(p + "_min", "", "void", "%s *r" % C, "*r = std::numeric_limits<%s>::min();" % C, C + " min")
    w("i_isneg", "", "bool", "const int128 *a", "return a->is_negative();", "int128::is_negative")
    w("i_neg", "", "void", "const int128 *a, int128 *r", "int128 t = *a; t.negate(); *r = t;", "int128::negate")
    w("i_add", "", "void", "const int128 *a, const int128 *b, int128 *r", "int128 t = *a; t += *b; *r = t;", "int128 a += b")
    w("i_same", "", "void", "const uint128 *a, int128 *r", "*r = int128(*a);", "int128 from uint128")
    w("u_same", "", "void", "const int128 *a, uint128 *r", "*r = uint128(*a);", "uint128 from int128")
    w("i_eq", "s32", "bool", "const int128 *a, int b", "return *a == b;", "int128 == int")
    w("i_ne", "s32", "bool", "const int128 *a, int b", "return *a != b;", "int128 != int")
    w("i_lt", "s32", "bool", "const int128 *a, int b", "return *a < b;", "int128 < int")
    w("i_gt", "s32", "bool", "const int128 *a, int b", "return *a > b;", "int128 > int")
    for k, T in (("s32", "int"), ("u32", "unsigned int"), ("u64", "uint64_t")):
        w("u_eq", k, "bool", "const uint128 *a, %s b" % T, "return *a == b;", "uint128 == " + T)
        w("u_ne", k, "bool", "const uint128 *a, %s b" % T, "return *a != b;", "uint128 != " + T)
    for k, T in (("u32", "uint32_t"), ("u64", "uint64_t")):
        w("u_add", k, "void", "const uint128 *a, %s b, uint128 *r" % T, "*r = *a + b;", "uint128 + " + T)
    w("u_sub", "u64", "void", "const uint128 *a, uint64_t b, uint128 *r", "*r = *a - b;", "uint128 - uint64")
    return "\n".join(t) + "\n", what


def run():
    R = Report("I01")
    src, what = text()
    w = core.compile_witness("wide128", src)
    rels = ["src/dynd/int128.cpp", "src/dynd/uint128.cpp"]
    bcs = core.bitcode(rels)
    for d in core.run_tool(["wide128"], [",".join([w] + [bcs[r] for r in rels])]):
        if not d["returns"]:
            R.notes["not implemented (raises)"] = R.notes.get("not implemented (raises)", 0) + 1
            continue
        if d["vague"] and not d["bad"]:
            R.notes["not judged"] = R.notes.get("not judged", 0) + 1
            R.notes.setdefault("not judged operators", []).append(what[d["fn"]])
            continue
        R.notes["paths judged"] = R.notes.get("paths judged", 0) + d["judged"]
        R.add("I01:" + what[d["fn"]], not d["bad"], "include/dynd/%s.hpp" % ("int128" if d["fn"][2] == "i" else "uint128"), d["why"])
    return R.finish(minimum=40, rule=RULE, explanation="every implemented operator, conversion and comparison of the two 128-bit integer classes", units=len(rels) + 1, floors={"paths judged": 60})
