from vlib import core
from vlib.core import Report

TECHNIQUE = "points-to-constant and call-graph reachability queries over the compiler IR of the registry, the operators and the initialisers"
LEVEL = "other"
NOTE = ("Every (name, function) entry of the registry table is read from the arguments of the constructor calls that build it; every array operator is inlined until the callable it invokes and the order of the operands are visible; "
        "every published function object's initialiser is followed through all direct calls, virtual tables and address-taken functions to the kernel and callable classes it can instantiate. Initialisers reaching no class of the family are not judged.")
RULE = "registry name == name of the function object; operator calls the object of its own operation with operands in order; initialiser of an operation reaches that operation's kernels and no other's"
BIN = {"<": "less", "<=": "less_equal", "==": "equal", "!=": "not_equal", ">=": "greater_equal", ">": "greater", "+": "add", "-": "subtract", "*": "multiply", "/": "divide",
       "%": "mod", "&": "bitwise_and", "|": "bitwise_or", "^": "bitwise_xor", "<<": "left_shift", ">>": "right_shift", "&&": "logical_and", "||": "logical_or"}
UN = {"+": "plus", "-": "minus", "!": "logical_not", "~": "bitwise_not"}
CMP = {"+=": "compound_add", "/=": "compound_div"}
MIRROR = {"less": "greater", "greater": "less", "less_equal": "greater_equal", "greater_equal": "less_equal"}
SYM = ["equal", "not_equal", "add", "multiply", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_and", "logical_or"]
PAT = r"dynd::(?:nd::)?(?:functional::)?(?:\(anonymous namespace\)::)?(\w+?)_(?:kernel|ck|callable)\b"
# operations whose kernels are told apart by class name
FAMILY = set(BIN.values()) | set(UN.values()) | set(CMP.values()) | {
    "logical_xor", "pow", "sqrt", "cbrt", "min", "max", "sum", "mean", "all", "all_equal", "total_order", "real", "imag", "conj", "is_na", "assign_na", "sort", "unique", "binary_search",
    "string_concatenation", "string_count", "string_find", "string_rfind", "string_replace", "string_split", "string_startswith", "string_endswith", "string_contains",
    "byteswap", "pairwise_byteswap", "serialize", "dereference", "take", "index", "view", "range", "field_access"}
LIBM = {"sin", "cos", "tan", "exp"}
# operations implemented with others
USES = {"mean": {"sum", "divide", "compound_div"}, "limits::min": FAMILY, "limits::max": FAMILY, "random::uniform": FAMILY}


def run():
    r = Report("H01")
    bc = core.bitcode()
    rows = core.run_tool(["publish", PAT], list(bc.values()))
    n = {"names": 0, "operators": 0, "initialisers": 0}
    for x in rows:
        if x["k"] == "name":
            n["names"] += 1
            have = x["global"].split("::")[-1]
            r.add("published name '%s'" % x["name"], have == x["name"], x["where"], "denotes " + x["global"])
        elif x["k"] == "op":
            sym = x["fn"].split("operator")[1].split("(")[0]
            two = x["fn"].split("(", 1)[1].count("array const&") == 2
            calls = [c[len("dynd::nd::"):] for c in x["calls"]]
            if not calls:
                continue
            key = "operator%s (%s)" % (sym, "binary" if two else "compound" if sym in CMP else "unary")
            if sym in CMP:
                ok = all(c.split("(")[0] == CMP[sym] for c in calls)
                want = CMP[sym]
            elif two and sym in BIN:
                want = BIN[sym]
                good = {want + "(0,1,)"}
                if want in MIRROR:
                    good.add(MIRROR[want] + "(1,0,)")
                if want in SYM:
                    good.add(want + "(1,0,)")
                # an operand that is not an argument itself (a copy the analysis does not see through) is not judged
                judged = [c for c in calls if c.count(",") == 2]
                ok = all(c in good for c in judged) and all(c.split("(")[0] == want for c in calls if c not in judged)
            elif not two and sym in UN:
                want = UN[sym]
                ok = all(c.split("(")[0] == want for c in calls)
            else:
                continue
            n["operators"] += 1
            r.add(key, ok, x["where"], "calls %s, expected %s" % (", ".join(calls), want))
        elif x["k"] == "init":
            g = x["global"][len("dynd::nd::"):]
            hit = set(x["hit"])
            ops = hit & FAMILY
            lm = {h[7:].rstrip("f") if h[7:] not in LIBM else h[7:] for h in hit if h.startswith("extern:")} & LIBM
            short = g
            if short in LIBM:
                if not lm:
                    continue
                ok, why = lm == {short}, "reaches the C library's " + ", ".join(sorted(lm))
            elif short in FAMILY:
                if not ops:
                    continue
                other = ops - {short} - USES.get(short, set())
                ok, why = short in ops and not other, "reaches the kernels of " + ", ".join(sorted(ops))
            else:
                continue
            n["initialisers"] += 1
            r.add("initialiser of " + g, ok, "", why)
    r.notes = n
    r.assumptions = ["what the kernel of an operation computes is the subject of N06, N07 and the other kernel properties"]
    return r.finish(60, RULE, NOTE, units=sorted(bc))
