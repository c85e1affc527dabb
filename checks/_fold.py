"""Witness functions folded to constants through the library's own definitions."""
import concurrent.futures
from vlib import core

IDS = ("bool int8 int16 int32 int64 int128 uint8 uint16 uint32 uint64 uint128 "
       "float16 float32 float64 float128 complex_float32 complex_float64").split()
CXX = {"bool": "dynd::bool1", "int128": "dynd::int128", "uint128": "dynd::uint128", "float16": "dynd::float16", "float32": "float",
       "float64": "double", "float128": "dynd::float128", "complex_float32": "dynd::complex<float>", "complex_float64": "dynd::complex<double>"}
for w in (8, 16, 32, 64):
    CXX["int%d" % w] = "int%d_t" % w
    CXX["uint%d" % w] = "uint%d_t" % w


def info(n):
    for p, k in (("complex_float", "c"), ("float", "f"), ("uint", "u"), ("int", "i")):
        if n.startswith(p):
            return k, int(n[len(p):])
    return "b", 8


HEAD = ("#include <dynd/type.hpp>\n#include <dynd/type_promotion.hpp>\n#include <dynd/type_registry.hpp>\nusing namespace dynd;\n"
        "static inline ndt::type T(type_id_t i) { return ndt::type(reinterpret_cast<ndt::base_type *>((uintptr_t)i), false); }\n")


def fold(name, text, units, prefixes, mode="fold"):
    """-> ({function: value}, {row id: registry row})"""
    core.build_tool()
    w = core.compile_witness(name, text)
    bc = list(core.bitcode(units).values())
    with concurrent.futures.ThreadPoolExecutor(core.NPROC) as ex:
        res = list(ex.map(lambda p: core.run_tool([mode, p] + bc, [w]), prefixes))
    vals, rows = {}, {}
    for x in (y for r in res for y in r):
        if x["k"] == "val":
            vals[x["fn"]] = x
        elif x["k"] == "row":
            rows[x["id"]] = x
    return vals, rows
