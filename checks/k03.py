import re
from vlib import core
from vlib.core import Report

TECHNIQUE = "dataflow over the inlined LLVM IR of every strided kernel: scalar-evolution of each operand pointer per loop, operand/stride pairing at every child call"
LEVEL = "other"
NOTE = ("Every function of the library with the strided-kernel signature (self, dst, dst_stride, src, src_stride, count) is flattened; pointer arithmetic may "
        "only move an operand by that operand's own stride, child kernels receive operand k with stride k, and in a loop over the elements every operand "
        "starts at its first element (or one stride further when one element was peeled), advances by exactly its stride and the loop runs count times. "
        "Chunked loops whose length is found at run time (runs of missing values) are held to the pairing rules only.")
RULE = "ptr(k) in element i == src[k] + i * src_stride[k] (dst likewise), i = 0..count-1, and child(dst, src[k]..., stride[k]...) pairs k with k"


def short(fn):
    fn = fn.split("::strided")[0] + "::strided" + fn.split("::strided")[1].split("(")[0]
    return fn.replace("dynd::nd::", "").replace("dynd::", "").replace("(assign_error_mode)", "")


def run():
    r = Report("K03")
    bc = core.bitcode(None)
    core.build_tool()
    res = core.run_tool(["strides", r"::strided(_first|_followup)?\("], list(bc.values()))
    seen = {}
    for x in res:
        k = x["fn"]
        if k not in seen or (x["bad"] and not seen[k]["bad"]):
            seen[k] = x
    loops = steps = ops = unj = 0
    direct = 0
    for k, x in sorted(seen.items()):
        loops += x["loops"]; steps += x["steps"]; ops += x["ops"]; unj += x["unjudged"]
        if "base_strided_kernel<" not in k.split("(")[0]:
            direct += 1
        if x["bad"]:
            m = re.search(r"\(([^()]*:\d+)\)$", x["bad"][0])
            r.add(short(k), False, m.group(1) if m else x["where"], "; ".join(re.sub(r" \([^()]*:\d+\)$", "", b) for b in x["bad"][:3]))
        else:
            r.add(short(k), True, x["where"], "%d loops, %d child calls, %d pairings" % (x["loops"], x["ops"], x["steps"]))
    r.notes.update({"strided kernels": len(seen), "element loops": loops, "child calls": ops, "operand/stride pairings": steps, "not judged": unj,
                    "kernels with a loop of their own": direct})
    r.assumptions = ["the element sizes a kernel reads and the values it computes are other properties' subject",
                     "loops whose length is computed from data are held to the pairing rules only"]
    return r.finish(1500, RULE, NOTE, units=sorted(bc), floors={"element loops": 1500, "operand/stride pairings": 3000, "kernels with a loop of their own": 40})
