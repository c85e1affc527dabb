from vlib import core
from vlib.core import Report

TECHNIQUE = "linear-inequality (polyhedral) abstract interpretation of the indexing members of the dimension, tuple and struct types and of the index-taking kernel, every path, loops by their guards"
LEVEL = "proof"
NOTE = ("at_single and both forms of apply_linear_index of the fixed, var, tuple and struct types are inlined and walked on every path. The element each path addresses is a linear form over index, size, start, stop and step; the inequalities of the path must imply that it is the one the index names and lies inside. "
        "Arithmetic that may overflow is not treated as exact, so steps and bounds near the integer limits are covered. Assumed: the stored sizes are the sizes of the tables and data they describe. Offsets coming from arithmetic the domain cannot express are counted as not judged.")
RULE = "every address = base + stride*x with x the element named by the index, 0 <= x < size; every slice (start, step, n) = exactly the elements of the range; in-range single indices are accepted; a looked-up field number is used only once known not to be -1"
UNITS = ["src/dynd/types/%s_type.cpp" % x for x in ("fixed_dim", "var_dim", "struct", "tuple")]


def run():
    R = Report("X01")
    bcs = core.bitcode()
    st = bcs["src/dynd/shape_tools.cpp"]
    fns, vague = 0, []
    for d in core.run_tool(["index", st], [bcs[u] for u in UNITS]):
        name = "%s_type::%s" % (d["cls"], {"at": "at_single", "type": "apply_linear_index/type", "data": "apply_linear_index/data"}[d["kind"]]) if "cls" in d else d["fn"]
        if d["k"] == "noextent":
            raise core.AnalysisBroken("X01: no size getter found for " + d["fn"])
        if d["k"] == "indexfn":
            fns += 1
            if d["aborted"]:
                R.notes["not walked"] = R.notes.get("not walked", 0) + 1
            else:
                R.notes["paths"] = R.notes.get("paths", 0) + d["paths"] + d["throws"]
            continue
        if not d["ok"] and d["vague"]:
            vague.append("%s: %s: %s" % (name, d["what"], d["why"]))
            continue
        R.notes["path obligations"] = R.notes.get("path obligations", 0) + d["n"]
        R.add("X01:%s:%s" % (name, d["what"]), d["ok"], d["where"], d["why"])
    looks = 0
    for d in core.run_tool(["fieldname", r"struct_type::get_field_index\(", r"::get_[a-z_]*\(|operator\[\]\(|::at\("], sorted(bcs.values())):
        looks += d["lookups"]
        if d["aborted"] or not d["uses"]:
            continue
        R.add("X01:%s:field-number" % d["fn"].split("(")[0], not d["bad"], d["where"], "a field number found by name is used although the name may not exist")
    tk = core.bitcode(["src/dynd/index.cpp"], debug="-g")
    for d in core.run_tool(["take", r"::indexed_take_ck::single\(", "m_src0_dim_size", "m_src0_stride", "indexed_take_ck"], list(tk.values())):
        if d["known"] and d["n"] and not d["vague"]:
            R.add("X01:%s" % d["fn"].split("(")[0], not d["bad"], d["where"], d["why"])
    R.notes.update({"functions": fns, "name lookups": looks, "not judged": len(vague)})
    if vague:
        R.notes["first not judged"] = vague[0][:300]
    return R.finish(minimum=20, rule=RULE, explanation="indexing members of the dimension, tuple and struct types on every path; users of field numbers looked up by name; the index-taking kernel",
                    units=len(bcs), floors={"functions": 10, "paths": 200})
