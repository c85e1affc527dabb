import os, re
from vlib import core

# an encoding's functions are entered with at least one unit of text or room between position and end; widths in bytes
GAPS = ";".join([r"^[^<]*(next|append)_(utf16|ucs2)\(=2", r"^[^<]*(next|append)_utf32\(=4", r"^[^<]*(next|append)_(utf8|ascii)\(=1",
                 r"string_range_as_utf8_string_templ<.*(utf16|ucs2)=0/2", r"string_range_as_utf8_string_templ<.*utf32=0/4"])
ALSO = ["src/dynd/assignment.cpp", "src/dynd/parse.cpp", "src/dynd/types/cuda_device_type.cpp", "src/dynd/types/cuda_host_type.cpp", "src/dynd/types/categorical_type.cpp"]
PAIR = re.compile(r"char\s*\*\s*(?:const\s*)?&?\s*\w*end\w*\s*[,)]")


def records():
    """The whole text-handling part of the library as one module, analysed once per tree."""
    rels = []
    for r in sorted(core.compdb()):
        f = os.path.join(core.REPO, r)
        if r in ALSO or (os.path.exists(f) and PAIR.search(open(f, errors="replace").read())):
            rels.append(r)
    bcs = core.bitcode(rels, debug="-g")
    return rels, core.run_tool(["cursor", GAPS, ".", "."], [",".join(bcs[r] for r in rels)])


def short(fn):
    """A name that tells the function, not its line: up to the parameter list, template arguments kept."""
    fn = fn.replace("(anonymous namespace)::", "")
    d = 0
    for i, c in enumerate(fn):
        d += c in "<" 
        d -= c in ">"
        if c == "(" and d == 0:
            fn = fn[:i]
            break
    return re.sub(r"std::enable_if<.*>::type ", "", fn).replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string").split("[abi")[0]


def judge(R, mine):
    rels, recs = records()
    fns, aborted = 0, []
    for d in recs:
        if mine(d) is False:
            continue
        if d["k"] == "fn":
            fns += 1
            R.notes["range obligations"] = R.notes.get("range obligations", 0) + d["n"]
            R.notes["not judged"] = R.notes.get("not judged", 0) + d["vague"]
            if d["aborted"]:
                aborted.append(short(d["fn"]))
            continue
        R.add("%s:%s:%s" % (R.pid, short(d["fn"]), d["what"]), d["ok"], d["where"], d["why"])
    R.notes["functions"] = fns
    if aborted:
        R.notes["not walked"] = aborted
    return rels
