"""Reference operations for the arithmetic checks: one small function per operation and operand types, written
directly from the C++ language's definition, compiled to LLVM IR."""
from vlib import core

REAL = [("b", "bool", "b"), ("i8", "signed char", "i"), ("i16", "short", "i"), ("i32", "int", "i"), ("i64", "long", "i"),
        ("u8", "unsigned char", "u"), ("u16", "unsigned short", "u"), ("u32", "unsigned int", "u"), ("u64", "unsigned long", "u"),
        ("f32", "float", "f"), ("f64", "double", "f")]
CPLX = [("c32", "float"), ("c64", "double")]
BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "mod": "%", "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^",
       "left_shift": "<<", "right_shift": ">>", "logical_and": "&&", "logical_or": "||", "logical_xor": None, "pow": None}
INTONLY = {"mod", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"}

HEAD = r"""
#include <cmath>
#include <limits>
#include <type_traits>
template <class T> struct tag;
#define TAG(T, N) template <> struct tag<T> { static constexpr const char value[] = N; };
template <class R, class A, class B> static bool nodiv(A a, B b) {
  if (b == 0) return true;
  return std::is_signed<R>::value && (R)a == std::numeric_limits<R>::min() && (R)b == (R)-1;
}
"""


def fn(op, tags, ret, body):
    key = "__".join([op] + tags)
    return 'extern "C" { extern const char rt__%s[] = "%s";\nbool ref__%s(char *dst, char *s0, char *s1) { %s return false; } }\n' % (key, ret, key, body)


def rank(a, b, expr):
    """Result tag of a real expression: left to the compiler (static_assert), given here by the usual arithmetic conversions."""
    w = {"b": 8, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}
    if "f64" in (a, b):
        return "f64"
    if "f32" in (a, b):
        return "f32"

    def pro(x):
        return "i32" if w[x] < 32 else x
    a, b = pro(a), pro(b)
    if a[0] == b[0]:
        return a if w[a] >= w[b] else b
    u, s = (a, b) if a[0] == "u" else (b, a)
    return u if w[u] >= w[s] else s


CT = {t: c for t, c, k in REAL}


def text():
    o = [HEAD]
    kinds = {t: k for t, c, k in REAL}
    for ta, ca, ka in REAL:
        for tb, cb, kb in REAL:
            ld = "%s a = *(%s *)s0; %s b = *(%s *)s1; " % (ca, ca, cb, cb)
            fl = "f" in (ka, kb)
            for op, sym in BIN.items():
                if fl and op in INTONLY:
                    continue
                if op == "logical_xor":
                    e, rt = "(bool)a ^ (bool)b", "i32"
                elif op == "pow":
                    if not (ka == kb == "f"):
                        continue
                    e, rt = "std::pow((double)a, (double)b)", "f64"
                else:
                    e = "a %s b" % sym
                    rt = "b" if op.startswith("logical") else rank(ta, ta, e) if op.endswith("shift") else rank(ta, tb, e)
                guard = "if (nodiv<decltype(a / b)>(a, b)) return true; " if op in ("divide", "mod") and not fl else ""
                o.append(fn(op, [ta, tb], rt, ld + 'static_assert(std::is_same<decltype(%s), %s>::value, "");' % (e, CT[rt]) + guard + "*(%s *)dst = %s;" % (CT[rt], e)))
            o.append(fn("all_equal", [ta, tb], "b", ld + "typedef std::common_type<%s, %s>::type T; *(bool *)dst = *(bool *)dst & ((T)a == (T)b);" % (ca, cb)))
            # compound: dst op= src
            ldc = "%s a = *(%s *)dst; %s b = *(%s *)s0; " % (ca, ca, cb, cb)
            for op, sym in (("compound_add", "+"), ("compound_div", "/")):
                guard = "if (nodiv<decltype(a / b)>(a, b)) return true; " if op == "compound_div" and not fl else ""
                o.append(fn(op, [ta, tb], ta, ldc + guard + "*(%s *)dst = (%s)(a %s b);" % (ca, ca, sym)))
        ld = "%s a = *(%s *)s0; " % (ca, ca)
        pt = rank(ta, ta, "")
        un = [("logical_not", "!a", "b")]
        if ka == "b":
            un.append(("bitwise_not", "!a", "b"))  # the library's boolean type inverts the truth value
        else:
            un += [("plus", "+a", pt), ("minus", "-a", pt)]
        if ka in "iu":
            un.append(("bitwise_not", "~a", pt))
        if ka == "f":
            un += [("sqrt", "std::sqrt(a)", ta), ("cbrt", "std::cbrt(a)", ta)]
        if ta == "f64":
            un += [(f, "::%s(a)" % f, ta) for f in ("cos", "sin", "tan", "exp")]
        for op, e, rt in un:
            o.append(fn(op, [ta], rt, ld + 'static_assert(std::is_same<decltype(%s), %s>::value, "");' % (e, CT[rt]) + "*(%s *)dst = %s;" % (CT[rt], e)))
        # folds and their starting values
        ldf = "%s a = *(%s *)dst; %s b = *(%s *)s0; " % (ca, ca, ca, ca)
        o.append(fn("sum", [ta], ta, ldf + "*(%s *)dst = (%s)(a + b);" % (ca, ca)))
        o.append(fn("min", [ta], ta, ldf + "if (b < a) *(%s *)dst = b;" % ca))
        o.append(fn("max", [ta], ta, ldf + "if (b > a) *(%s *)dst = b;" % ca))
        lim = "std::numeric_limits<%s>::" % ca
        o.append(fn("upper", [ta], ta, "*(%s *)dst = %s;" % (ca, lim + ("infinity()" if ka == "f" else "max()"))))
        o.append(fn("lower", [ta], ta, "*(%s *)dst = %s;" % (ca, ("-" + lim + "infinity()") if ka == "f" else lim + "lowest()")))
        o.append(fn("zero", [ta], ta, "*(%s *)dst = 0;" % ca))
        o.append(fn("limits_max", [ta], ta, "*(%s *)dst = %smax();" % (ca, lim)))
        o.append(fn("limits_min", [ta], ta, "*(%s *)dst = %slowest();" % (ca, lim)))
    # complex operands
    for ta, va in CPLX:
        ld = "%s a = ((%s *)s0)[0], ai = ((%s *)s0)[1]; " % (va, va, va)
        st = lambda v, re, im: "((%s *)dst)[0] = %s; ((%s *)dst)[1] = %s;" % (v, re, v, im)
        o.append(fn("plus", [ta], ta, ld + st(va, "a", "ai")))
        o.append(fn("minus", [ta], ta, ld + st(va, "-a", "-ai")))
        o.append(fn("conj", [ta], ta, ld + st(va, "a", "-ai")))
        o.append(fn("real", [ta], "f" + ta[1:], ld + "*(%s *)dst = a;" % va))
        o.append(fn("imag", [ta], "f" + ta[1:], ld + "*(%s *)dst = ai;" % va))
        o.append(fn("zero", [ta], ta, st(va, "0", "0")))
        ldf = "%s a = ((%s *)dst)[0], ai = ((%s *)dst)[1], b = ((%s *)s0)[0], bi = ((%s *)s0)[1]; " % (va, va, va, va, va)
        o.append(fn("sum", [ta], ta, ldf + st(va, "a + b", "ai + bi")))
        for tb, vb in CPLX:
            tc, vc = ("c64", "double") if "c64" in (ta, tb) else ("c32", "float")
            l2 = "%s a = ((%s *)s0)[0], ai = ((%s *)s0)[1]; %s b = ((%s *)s1)[0], bi = ((%s *)s1)[1]; " % (vc, va, va, vc, vb, vb)
            o.append(fn("add", [ta, tb], tc, l2 + st(vc, "a + b", "ai + bi")))
            o.append(fn("subtract", [ta, tb], tc, l2 + st(vc, "a - b", "ai - bi")))
            o.append(fn("multiply", [ta, tb], tc, l2 + st(vc, "a * b - ai * bi", "a * bi + b * ai")))
            o.append(fn("divide", [ta, tb], tc, l2 + "%s n = b * b + bi * bi; " % vc + st(vc, "(a * b + ai * bi) / n", "(b * ai - a * bi) / n")))
        for tb, cb, kb in REAL:
            if tb == "b":
                continue
            tc, vc = ("c64", "double") if ta == "c64" or tb == "f64" else ("c32", "float")
            l2 = "%s a = ((%s *)s0)[0], ai = ((%s *)s0)[1]; %s b = *(%s *)s1; " % (vc, va, va, vc, cb)
            o.append(fn("add", [ta, tb], tc, l2 + st(vc, "a + b", "ai")))
            o.append(fn("subtract", [ta, tb], tc, l2 + st(vc, "a - b", "ai")))
            o.append(fn("multiply", [ta, tb], tc, l2 + st(vc, "a * b", "ai * b")))
            o.append(fn("divide", [ta, tb], tc, l2 + st(vc, "a / b", "ai / b")))
            l2 = "%s a = *(%s *)s0; %s b = ((%s *)s1)[0], bi = ((%s *)s1)[1]; " % (vc, cb, vc, va, va)
            o.append(fn("add", [tb, ta], tc, l2 + st(vc, "a + b", "bi")))
            o.append(fn("subtract", [tb, ta], tc, l2 + st(vc, "a - b", "-bi")))
            o.append(fn("multiply", [tb, ta], tc, l2 + st(vc, "a * b", "a * bi")))
            o.append(fn("divide", [tb, ta], tc, l2 + "%s n = b * b + bi * bi; " % vc + st(vc, "a * b / n", "-a * bi / n")))
    return "".join(o)


def reference():
    return core.compile_witness("arith_ref", text(), opt=["-std=c++14", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fPIC", "-emit-llvm", "-c",
                                                          "-fno-strict-aliasing", "-ffp-contract=off"])
