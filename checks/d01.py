import re
from checks._fold import IDS, CXX, HEAD, fold
from vlib import core
from vlib.core import Report

TECHNIQUE = "control-dependence query over the compiler IR: functions reachable only from one type-id case"
LEVEL = "other"
NOTE = ("For every switch or equality test on a type id in the dispatching functions, the blocks dominated by one case are followed through all direct calls and "
        "address-taken functions; the value type of the template (or the helper) found there must be the one of that id. An id case whose helper is not recognised raises no alarm and is not counted.")
RULE = "code reached only when the type id is X handles the data as the C++ type stored under X"
NAMES = {"bool": ["bool", "dynd::bool1"], "int8": ["signed char"], "int16": ["short"], "int32": ["int"], "int64": ["long"], "int128": ["dynd::int128"],
         "uint8": ["unsigned char"], "uint16": ["unsigned short"], "uint32": ["unsigned int"], "uint64": ["unsigned long"], "uint128": ["dynd::uint128"],
         "float16": ["dynd::float16"], "float32": ["float"], "float64": ["double"], "float128": ["dynd::float128"], "complex_float32": ["dynd::complex<float>"],
         "complex_float64": ["dynd::complex<double>"], "type": ["dynd::ndt::type"], "string": ["std::__cxx11::basic_string", "dynd::string"], "bytes": ["dynd::bytes"],
         "fixed_dim": ["dynd::ndt::fixed_dim_type"], "var_dim": ["dynd::ndt::var_dim_type"]}
EXTRA = ["type", "string", "bytes", "fixed_string", "char", "struct", "tuple", "option", "fixed_dim", "var_dim", "void", "pointer", "array", "callable"]
# unit, dispatching function, what identifies the type handled
TYPED = [
    ("src/dynd/option.cpp", r"is_na_callable<.*fixed_dim_kind_type>::resolve", r"is_na_kernel<(.*?)(?:, void)?>::(?:single|strided)\("),
    ("src/dynd/option.cpp", r"assign_na_callable<.*fixed_dim_kind_type>::resolve", r"assign_na_kernel<(.*?)(?:, void)?>::(?:single|strided)\("),
    ("src/dynd/array.cpp", r"array::from_type_property", r"unpack<(.*)>\("),
    ("src/dynd/array_range.cpp", r"::old_range\(dynd::ndt::type", r"range_specialization<(.*?)(?:, void)?>::old_range"),
    ("src/dynd/array_range.cpp", r"::old_range\(dynd::ndt::type", r"range_counter<(.*?)(?:, void)?>::count"),
    ("src/dynd/array_range.cpp", r"::old_linspace\(dynd::ndt::type", r"old_linspace_specialization\(([^,]*), "),
    ("src/dynd/type.cpp", r"^dynd::print_builtin_scalar", r"print_as<(.*?), "),
    ("src/dynd/array.cpp", r"container_init<.*>::container_init\(", r"::init<(dynd::ndt::[a-z_]*)>"),
]
NUM = [i for i in IDS if i != "bool"]
HELPERS = [
    ("src/dynd/json_parser.cpp", r"^parse_json\(dynd::ndt::type", r"^(parse_\w+_json|parse_type)\(",
     dict({n: ["parse_number_json"] for n in NUM}, bool=["parse_bool_json"], string=["parse_string_json"], fixed_string=["parse_string_json"], struct=["parse_struct_json"],
          tuple=["parse_tuple_json"], option=["parse_option_json"], fixed_dim=["parse_dim_json"], var_dim=["parse_dim_json"], type=["parse_type"])),
    ("src/dynd/json_parser.cpp", r"^parse_dim_json\(", r"^(parse_(?:strided|var)_dim_json)\(", {"fixed_dim": ["parse_strided_dim_json"], "var_dim": ["parse_var_dim_json"]}),
    ("src/dynd/json_formatter.cpp", r"^format_json\(output_data", r"^(format_json_(?!encoded)\w+)\(",
     dict({n: ["format_json_number"] for n in NUM}, bool=["format_json_bool"], string=["format_json_string"], fixed_string=["format_json_string"], struct=["format_json_struct"],
          option=["format_json_option"], fixed_dim=["format_json_dim"], var_dim=["format_json_dim"], type=["format_json_type"])),
]


def run():
    r = Report("D01")
    ids = list(NAMES) + [e for e in EXTRA if e not in NAMES]
    vals, _ = fold("d01", HEAD + "".join('extern "C" int w_id__%s() { return %s; }\n' % (n, n + "_id" if n != "type" else "type_id") for n in ids), [], ["w_id__"])
    ident = {int(v["val"]): k[6:] for k, v in vals.items()}
    units = sorted({x[0] for x in TYPED + HELPERS})
    bc = core.bitcode(units)
    n = 0
    for unit, fn, pat, want in [x + (None,) for x in TYPED] + HELPERS:
        for c in core.run_tool(["dispatch", fn, pat], [bc[unit]]):
            t = ident.get(c["val"])
            hits = [h for h in c["hit"]]
            if t is None or not hits:
                continue
            f = re.sub(r"\(.*", "", c["fn"]).replace("dynd::", "")
            what = re.sub(r"\W+", " ", pat.split("<")[0].split("(")[0]).strip() or pat
            n += 1
            if want is None:
                exp = NAMES.get(t, [])
                bad = [h for h in hits if not any(h == e or h.startswith(e + "<") for e in exp)]
            else:
                exp = want.get(t, [])
                bad = [h for h in hits if h not in exp] if exp else hits
                # helpers called by the right helper are no misdispatch
                if any(h in exp for h in hits):
                    bad = []
            r.add("%s: %s case of %s" % (f, what, t), not bad, c["where"], "%s data handled as %s" % (t, ", ".join(bad)) if bad else "handled as " + ", ".join(hits))
    r.notes = {"cases": n}
    r.assumptions = ["a case block whose helper has another shape is not judged"]
    return r.finish(40, RULE, NOTE, units=units)
