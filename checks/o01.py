from checks._fold import *
from checks._fold import info as _info
from vlib.core import Report

TECHNIQUE = "partial evaluation of missing-value writers composed with missing-value tests, plus preimage of the test"
LEVEL = "other"
NOTE = ("For each built-in option value type every writer of a missing value (single kernel, strided kernel, builtin writer, text-to-number writer) is composed with "
        "every test (single kernel, strided kernel, builtin test) and folded to a constant; the exact set of values reported missing is computed by inverting the test's IR.")
RULE = "test(write_missing()) == missing for all writer/test pairs; test(0), test(1) == present; missing set == {sentinel} (int), {2..255} (bool), subset of NaN (float); type-id dispatch picks the same type's kernel"
TYPES = {"bool": ("bool", "unsigned char"), "int8": ("int8_t", "int8_t"), "int16": ("int16_t", "int16_t"), "int32": ("int32_t", "int32_t"),
         "int64": ("int64_t", "int64_t"), "int128": ("dynd::int128", None), "uint32": ("uint32_t", "uint32_t"), "float32": ("float", "float"), "float64": ("double", "double"),
         "complex_float32": ("dynd::complex<float>", None), "complex_float64": ("dynd::complex<double>", None)}
EXTRA = {"string": "dynd::string", "bytes": "dynd::bytes"}
UNITS = ["src/dynd/types/option_type.cpp", "src/dynd/parse_util.cpp"]
TEXT = """
#include <dynd/kernels/assign_na_kernel.hpp>
#include <dynd/kernels/is_na_kernel.hpp>
#include <dynd/callables/assign_na_callable.hpp>
#include <dynd/callables/is_na_callable.hpp>
#include <dynd/parse_util.hpp>
using namespace dynd;
static const char NA[3] = "NA";
template <class T> struct Wr {
  static void single(char *d) { nd::assign_na_kernel<T> k; k.single(d, nullptr); }
  static void strided(char *d, intptr_t s, size_t n) { nd::assign_na_kernel<T> k; k.strided(d, s, nullptr, nullptr, n); }
};
template <class T> struct Rd {
  static int single(char *d) { nd::is_na_kernel<T> k; char r = 55; char *s[1] = {d}; k.single(&r, s); return r; }
  static void strided(char *d, intptr_t st, char *o, intptr_t os, size_t n) { nd::is_na_kernel<T> k; char *s[1] = {d}; intptr_t ss[1] = {st}; k.strided(o, os, s, ss, n); }
};
"""


def body(n, t, raw):
    o = []
    S = {"bool": 1, "int128": 16, "complex_float32": 8, "complex_float64": 16}.get(n) or _info(n)[1] // 8
    f = lambda name, code, a="": o.append('extern "C" int w_o__%s__%s(%s) { alignas(16) char d[80]; memset(d, 1, 80); char r[8]; %s }\n' % (n, name, a, code))
    W = {"ws": "Wr<%s>::single(d);" % t, "wb": "assign_na_builtin(%s_id, d);" % n,
         "w1": "Wr<%s>::strided(d, %d, 3);" % (t, S), "w2": "Wr<%s>::strided(d, %d, 3);" % (t, S * 2 if n != "bool" else 3)}
    st = {"w1": S, "w2": S * 2 if n != "bool" else 3}
    for w, c in W.items():
        for i in range(3 if w in st else 1):
            off = st.get(w, 0) * i
            f("%s%d_rs" % (w, i), "%s return Rd<%s>::single(d + %d);" % (c, t, off))
            f("%s%d_rb" % (w, i), "%s return !is_avail_builtin(%s_id, d + %d);" % (c, n, off))
        if w in st:
            for i in range(3):
                f("%s%d_rt" % (w, i), "%s Rd<%s>::strided(d, %d, r, 2, 3); return r[%d];" % (c, t, st[w], 2 * i))
    if n not in ("bool", "uint32"):
        f("wn0_rs", 'string_to_number(d, %s_id, NA, NA + 2, assign_error_nocheck); return Rd<%s>::single(d);' % (n, t))
    for v in ("0", "1"):
        p = "%s x(%s); memcpy(d, &x, sizeof(x));" % (CXX[n], v)
        f("v%s_rs" % v, "%s return Rd<%s>::single(d);" % (p, t))
        f("v%s_rb" % v, "%s return !is_avail_builtin(%s_id, d);" % (p, n))
        f("v%s_rt" % v, "%s memcpy(d + %d, d, %d); Rd<%s>::strided(d, %d, r, 1, 2); return r[1];" % (p, S, S, t, S))
    if raw:
        p = "memcpy(d, &x, sizeof(x));"
        f("x_rs", "%s return Rd<%s>::single(d);" % (p, t), raw + " x")
        f("x_rb", "%s return !is_avail_builtin(%s_id, d);" % (p, n), raw + " x")
        f("x_rt", "memcpy(d + %d, &x, sizeof(x)); Rd<%s>::strided(d, %d, r, 1, 2); return r[1];" % (S, t, S), raw + " x")
        if n != "bool":
            f("tna", "%s y = ndt::traits<%s>::na(); memcpy(d, &y, sizeof(y)); return Rd<%s>::single(d);" % (raw, raw, t)) if n in ("int8", "int32", "int64", "uint32") else None
    return "".join(o)


def run():
    r = Report("O01")
    t = HEAD + TEXT
    for n, (c, raw) in TYPES.items():
        t += body(n, c, raw)
    for n, c in EXTRA.items():
        t += 'extern "C" int w_o__%s__ws_rs() { %s x; Wr<%s>::single((char *)&x); return Rd<%s>::single((char *)&x); }\n' % (n, c, c, c)
    vals, rows = fold("o01", t, UNITS, ["w_o__%s__" % n for n in list(TYPES) + list(EXTRA)])
    WH = "include/dynd/kernels/is_na_kernel.hpp"
    WB = "src/dynd/types/option_type.cpp"
    N = {"ws": "single assign_na", "wb": "assign_na_builtin", "wn": "text-to-number of NA", "w1": "contiguous strided assign_na", "w2": "strided assign_na",
         "rs": "single is_na", "rb": "is_avail_builtin", "rt": "strided is_na", "v0": "value 0", "v1": "value 1", "tna": "traits::na() and single is_na"}
    sent = {}
    for fn, x in sorted(vals.items()):
        n, what = fn[5:].split("__", 1)
        a, _, b = what.partition("_")
        where = WB if "b" in (a[1:2], b[1:2]) else WH
        v = x["val"]
        if a == "x":
            key = "%s: values %s reports missing" % (n, N[b])
            if not x["pre"] or "top" in x["one"] + x["zero"]:
                raise core.AnalysisBroken("cannot invert the missing-value test of %s (%s)" % (n, what))
            why = []
            k, w = _info(n)
            one = [o.split() for o in x["one"] if o != "bot"]
            zero = [o.split() for o in x["zero"] if o != "bot"]
            if k == "f":
                if any(set(o[1:]) - {"nan"} for o in one):
                    why.append("reports non-NaN values missing: %s" % x["one"])
                if not one:
                    why.append("reports no value missing")
            elif n == "bool":
                lo = min(int(o[2]) for o in one) if one else -1
                if lo != 2 or any(int(o[3]) > 1 for o in zero):
                    why.append("missing %s, present %s; expected 2..255 missing" % (x["one"], x["zero"]))
            else:
                m = 1 << w
                pts = {int(o[2]) % m for o in one} | {int(o[3]) % m for o in one}
                if len(pts) != 1 or any(o[2] != o[3] for o in one):
                    why.append("missing set is %s, expected one value" % x["one"])
                else:
                    p = pts.pop()
                    for o in zero:
                        lo, hi = int(o[2]), int(o[3])
                        inr = lo <= p <= hi if o[1] == "u" else (lo <= (p - m if p >= m // 2 else p) <= hi)
                        if inr and p not in {int(e) % m for e in o[4:]}:
                            why.append("value %d is reported both ways" % p)
                    sent.setdefault(n, set()).add(p)
            r.add(key, not why, where, "; ".join(why) or "%s / %s" % (x["one"], x["zero"]))
            continue
        if v not in ("0", "1", "throws"):
            raise core.AnalysisBroken("%s does not fold to a constant (%s)" % (fn, v))
        if a.startswith("v"):
            r.add("%s: %s is present for %s" % (n, N[a], N[b]), v == "0", where, "reported missing" if v != "0" else "present")
        else:
            r.add("%s: %s%s then %s" % (n, N[a[:2] if a != "tna" else a], " element " + a[2] if a[0] == "w" and a[1] in "12" else "", N.get(b, "")), v == "1", where,
                  "not reported missing" if v != "1" else "missing")
    for n, p in sent.items():
        r.add("%s: one sentinel" % n, len(p) == 1, WH, "different tests use different sentinels %s" % sorted(p))
    r.notes = {"compositions": len(vals)}
    r.assumptions = ["a strided run of three elements at two strides stands for all counts; the loops' stride discipline is K03's subject"]
    return r.finish(200, RULE, NOTE, units=UNITS)
