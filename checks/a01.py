import re
from vlib.core import Report
from vlib import core
from checks import _ktree as T

TECHNIQUE = "abstract interpretation of resolve functions and instantiation closures: symbolic places in the operands' metadata handed to each child computation"
LEVEL = "other"
NOTE = ("For every instantiation closure of element-wise calls, reductions and other callables with child computations, every path (constant-size loops unrolled, others once for an arbitrary iteration): the metadata handed on for each operand against the fields taken from it. "
        "Up to three operands are judged; the further operand counts are instances of the same template. Places the analysis cannot name are not judged. What the kernels do with strides and offsets once instantiated is covered by X01/X02/O01 only in part.")
RULE = ("a child computation is given, for operand k, operand k's metadata stepped over exactly the dimension the parent takes from it (16 bytes fixed, 24 bytes var, 0 when the operand is broadcast and nothing of it is read; an outer product steps over the operand it has chosen and over nothing else); the flags the parent branches on separate the operands whose element type was handed to the child from those handed on whole; no entry of the table handed on is left unset")
GIVEN = re.compile(r"(?<![\[\w])(src\d|dst)\+(\d+)")
# more operands than are judged
BEYOND = "|".join("traits, %dul>" % n for n in range(4, 10))
HEAD = {"39": 16, "40": 24}
FIELD = re.compile(r"\[src(\d)(?:\+(\d+))?\]")
DFIELD = re.compile(r"\[dst(?:\+(\d+))?\]")


def owner(fn):
    """Callable class, with its template arguments, whose resolution recorded this closure."""
    fn = re.sub(r"\(dynd::type_id_t\)", "", fn)
    i = fn.find("call_node::init<")
    m = re.search(r"::(sub)?resolve\(", fn[i:]) if i >= 0 else None
    if not m:
        return T.spec(fn)
    c = fn[i + len("call_node::init<"):i + m.start()]
    for a in ("dynd::nd::functional::", "dynd::nd::", "dynd::ndt::", "dynd::"):
        c = c.replace(a, "")
    c = re.sub(r"(\d)ul\b", r"\1", c)
    return c if len(c) < 90 and "(" not in c else T.generic(c)


def place(s, root):
    m = re.fullmatch(root + r"(?:\+(\d+))?", s)
    return int(m.group(1) or 0) if m else None


def entries(s):
    """(table known to be complete?, [entry])"""
    if s.startswith("="):
        return False, s.split(":", 1)[1].split(",")
    return True, s.split(",") if s else []


def facts_of(text):
    """The conditions of a path; a negated comparison is written as the opposite comparison."""
    out = set()
    for c in text.split(" && "):
        m = re.fullmatch(r"!\(([^()]*)(==|!=)([^()]*)\)", c)
        out.add("(%s%s%s)" % (m.group(1), "!=" if m.group(2) == "==" else "==", m.group(3)) if m else c)
    return out


def opposite(c):
    m = re.fullmatch(r"\(([^()]*)(==|!=)([^()]*)\)", c)
    return "(%s%s%s)" % (m.group(1), "!=" if m.group(2) == "==" else "==", m.group(3)) if m else "!" + c


def fits(step, read):
    """Is stepping over `step` bytes right for a dimension of which these fields were read?"""
    if step == 0:
        return not read
    if step == 16:
        return all(f < 16 for f in read)
    if step == 24:
        return 0 not in read and 16 in read
    return True  # a place inside the element's own metadata: not a dimension


def chosen_operand(R, own, v, es, dst, where):
    """a computation which goes through the dimension of one operand, or adds an operand of its own: the others are handed on whole, in order"""
    if v >= len(es) or any("?" in e for e in es):
        return
    step = place(es[v], "src%d" % v)
    added = es[v] == "0"
    if not added:
        key = "%s: operand %d, whose dimension it goes through" % (own, v)
        R.add(key + ", is stepped over that dimension", step in (16, 24), where, "handed on as %s" % es[v])
        to = place(dst, "dst")
        if to is not None:
            R.add(key + ", gives the result its dimension", to in (16, 24), where, "the result is handed on at +%d" % to)
    for k, e in enumerate(es):
        if k != v:
            j = k - (added and k > v)
            R.add("%s: the other operands are handed on whole, in order" % own, e == "src%d" % j, where, "entry %d is %s when operand %d is the one chosen" % (k, e, v))


def metadata(R, units):
    bcs = core.bitcode(sorted(core.compdb()), debug="-g")
    units += [b for b in sorted(bcs)]
    recs = core.run_tool(["kmeta", "", BEYOND], sorted(bcs.values()))
    seen = {}
    for d in recs:
        seen.setdefault((d["fn"], d.get("case", "")), d)
    tabs = {}
    for d in seen.values():
        if d["aborted"] or not d["out"]:
            R.notes["closures not followed"] = R.notes.get("closures not followed", 0) + bool(d["aborted"])
            continue
        own = owner(d["fn"])
        gen = T.generic(own)
        args = re.search(r"<(.*)>$", own)
        args = [a.strip() for a in args.group(1).split(",")] if args else []
        n = int(re.sub(r"\D", "", args[-1]) or 0) if args and gen in ("elwise_callable", "reduction_callable") else 0
        if n > 3:
            continue
        elwise, reduction = gen == "elwise_callable", gen == "reduction_callable"
        chosen = re.search(r"=(\d+)$", d.get("case", ""))
        chosen = int(chosen.group(1)) if chosen else None
        ids = args
        R.notes["closures"] = R.notes.get("closures", 0) + 1
        for path in d["out"]:
            lines = path.split("\n")
            facts = lines[0]
            fs = facts_of(facts)
            if any(opposite(f) in fs for f in fs):
                continue  # the captured flags and the metadata do not change under the closure
            kern = [l.split("\t", 1)[1] if "\t" in l else "" for l in lines[1:] if l.startswith("kernel")]
            text = facts + " " + " ".join(kern)
            read, dread = {}, set()
            for m in FIELD.finditer(text):
                read.setdefault(int(m.group(1)), set()).add(int(m.group(2) or 0))
            for m in DFIELD.finditer(text):
                dread.add(int(m.group(1) or 0))
            for m in GIVEN.finditer(" ".join(kern)):  # a field handed to the kernel's constructor by reference
                (dread if m.group(1) == "dst" else read.setdefault(int(m.group(1)[3:]), set())).add(int(m.group(2)))
            for ln in lines[1:]:
                if not ln.startswith("child "):
                    continue
                head, dst, _, srcs = (ln.split("\t") + ["", "", ""])[:4]
                where = head.split(" ", 1)[1]
                R.notes["children"] = R.notes.get("children", 0) + 1
                full, es = entries(srcs)
                if full and es:
                    bad = [k for k, e in enumerate(es) if e == "unset"]
                    R.add("%s: every operand's metadata is set before the child is given it" % own, not bad, where,
                          "entry %s of the table handed on is never set" % bad[0] if bad else "%d entries" % len(es))
                if chosen is not None and full:
                    chosen_operand(R, own, chosen, es, dst, where)
                if not (elwise or reduction):
                    continue
                for k, e in enumerate(es):
                    m = re.fullmatch(r"src(\d)(?:\+(\d+))?", e)
                    if not m or (not full and k >= n):
                        continue
                    j, step = int(m.group(1)), int(m.group(2) or 0)
                    key = "%s: operand %d" % (own, k)
                    R.add(key + " of the child is the call's", j == k, where, "entry %d is the metadata of operand %d" % (k, j))
                    if j != k:
                        continue
                    got = read.get(j, set())
                    if elwise:
                        ok = fits(step, got) and (step == 0 or bool(got))
                        R.add(key + " is stepped over what was taken from it", ok, where,
                              "handed on at +%d, fields read: %s%s" % (step, ", ".join("+%d" % f for f in sorted(got)) or "none", " when " + facts if facts else ""))
                    else:
                        ok = step == HEAD.get(ids[0], step)
                        R.add(key + " is stepped over the dimension being reduced", ok, where, "handed on at +%d" % step)
                        if step == 24:
                            R.add(key + " is read from where its elements begin", 16 in got, where, "fields read: %s" % (", ".join("+%d" % f for f in sorted(got)) or "none"))
                step = place(dst, "dst")
                if step is not None and elwise:
                    ok = fits(step, dread)
                    R.add("%s: the result is stepped over what was taken from it" % own, ok, where,
                          "handed on at +%d, fields read: %s%s" % (step, ", ".join("+%d" % f for f in sorted(dread)) or "none", " when " + facts if facts else ""))
            if elwise:  # stride, offset and size tables are indexed by operand
                steps = {}
                for ln in lines[1:]:
                    if ln.startswith("child "):
                        for k, e in enumerate(entries((ln.split("\t") + ["", "", ""])[3])[1]):
                            st = place(e, "src%d" % k)
                            if st is not None:
                                steps[k] = st
                for kl in kern:
                    for at, arg in enumerate(kl.split("\t", 1)[-1].split(";")):
                        m = re.search(r"\{\*([^{}]*)\}", arg)
                        if not m:
                            continue
                        for k, it in enumerate(m.group(1).split(",")):
                            tabs.setdefault((own, at), []).append((k, it, steps.get(k), "([src%d]==1)" % k in fs, d["where"], facts))
    for (own, at), rows in tabs.items():
        fields = set()
        for k, it, step, one, where, facts in rows:
            m = FIELD.fullmatch(it)
            if m:
                fields.add(int(m.group(2) or 0))
                R.add("%s: per-operand table %d, entry %d is operand %d's" % (own, at, k, k), int(m.group(1)) == k, where, "entry %d is %s" % (k, it))
        if not fields:
            continue
        R.add("%s: per-operand table %d holds one field" % (own, at), len(fields) == 1, where, "fields " + ", ".join("+%d" % f for f in sorted(fields)))
        if len(fields) != 1:
            continue
        f = fields.pop()
        for k, it, step, one, where, facts in rows:
            if step is None or it == "?" or "?" in it:
                continue
            want = None
            if step == 0:
                want = "1" if f == 0 else "0"
            elif f == 16:
                want = "[src%d+16]" % k if step == 24 else "0"
            elif f == 8:
                want = None if one else "[src%d+8]" % k
            elif f == 0 and step == 16:
                want = "[src%d]" % k
            if want is not None and it != "unset":
                R.add("%s: the %s of operand %d" % (own, {0: "size", 8: "stride", 16: "offset"}.get(f, "+%d" % f), k), it == want or (it == "1" and one), where, "%s%s" % (it, " when " + facts if facts else ""))


def resolution(R, units):
    """element-wise: a recorded flag tells apart whether the child computation sees operand k whole or element by element"""
    rels = sorted(core.compdb())
    bcs = core.bitcode(rels, debug="-g")
    recs = core.run_tool(["kres", "|".join("base_elwise_callable<%d" % n for n in (1, 2, 3))], sorted(bcs.values()))
    seen = {}
    for d in recs:
        seen.setdefault(d["fn"], d)
    for fn, d in sorted(seen.items()):
        m = re.search(r"base_elwise_callable<(\d+)u?l?>::resolve\(", fn)
        if not m or not 1 <= int(m.group(1)) <= 3 or d["aborted"]:
            continue
        n = int(m.group(1))
        cases = []  # (flags, [place of operand k], where)
        for p in d["out"]:
            flags, got = None, None
            for ln in p.split("\n"):
                if ln.startswith("record "):
                    flags = dict(x.split("=") for x in ln.split("\t")[1].split(",") if "=" in x)
                elif ln.startswith("resolve ") and got is None:
                    f = ln.split("\t")
                    got = (f[3].split(",")[:n], f[0].split(" ", 1)[1])
            if flags is not None and got is not None:
                cases.append((flags, got[0], got[1]))
        R.notes["resolution paths"] = R.notes.get("resolution paths", 0) + len(cases)
        for k in range(n):
            use = [(c[0], c[1][k], c[2]) for c in cases if k < len(c[1]) and (c[1][k] == "part" or c[1][k].startswith("whole"))]
            wrong = [u for u in use if u[1].startswith("whole") and u[1] != "whole%d" % k]
            R.add("%s<%d>: the child is resolved with operand %d's own type" % ("base_elwise_callable", n, k), not wrong, use[0][2] if use else d["where"],
                  "operand %d of the child has the type of operand %s" % (k, wrong[0][1][5:]) if wrong else "%d paths" % len(use))
            if {u[1] == "part" for u in use} != {True, False}:
                R.notes["not separated by type"] = R.notes.get("not separated by type", 0) + 1
                continue
            slots = set.intersection(*[set(u[0]) for u in use])
            best = None
            for s in sorted(slots, key=int):
                vals = {}
                for u in use:
                    vals.setdefault(u[0][s], {}).setdefault(u[1] == "part", u[2])
                if "?" in vals or len(vals) < 2:
                    continue
                mixed = {v: w for v, w in vals.items() if len(w) == 2}
                if best is None or len(mixed) < len(best[1]):
                    best = (s, mixed, vals)
                # the slot nearest to telling them apart is taken to be the one meant
            if best is None:
                continue
            for s in sorted(slots, key=int):
                if s == best[0]:
                    continue
                whole, part = {u[0][s] for u in use if u[1] != "part"}, {u[0][s] for u in use if u[1] == "part"}
                if whole != part:
                    ok = whole == {"0"} or part == {"0"}
                    R.add("base_elwise_callable<%d>: a flag about operand %d's dimension is only set when it has one, or only when it has none" % (n, k), ok, use[0][2],
                          "the flag at +%s is %s when the operand is handed on whole and %s when its elements are" % (s, "/".join(sorted(whole)), "/".join(sorted(part))))
            R.add("%s<%d>: a recorded flag tells whether operand %d is broadcast" % ("base_elwise_callable", n, k), not best[1],
                  next(iter(best[1].values()))[False] if best[1] else use[0][2],
                  "no recorded flag separates the paths handing the operand's own type to the child from those handing on its element type: the closure steps over the wrong metadata on one of them" if best[1] else "flag at +%s separates the %d paths" % (best[0], len(use)))


def lookup(parent, x):
    while parent.get(x, x) != x:
        x = parent[x]
    return x


def stretching(R, units):
    """kernels that run the child over a dimension: operands are repeated when they have one element, and otherwise have as many as there are"""
    bcs = core.bitcode(sorted(core.compdb()), debug="-g")
    seen = {}
    for d in core.run_tool(["bcast", "elwise_kernel<(dynd::type_id_t)", BEYOND], sorted(bcs.values())):
        seen.setdefault(d["fn"], d)
    for fn, d in sorted(seen.items()):
        m = re.search(r"elwise_kernel<\(dynd::type_id_t\)(\d+), \(dynd::type_id_t\)(\d+), dynd::nd::functional::(\w+), (\d+)ul>::single", fn)
        if not m or d["aborted"] or not 1 <= int(m.group(4)) <= 3:
            continue
        dstid, n = m.group(1), int(m.group(4))
        name = "elwise_kernel<%s, %s, %s, %s>" % m.groups()
        tables = {}  # what is read per operand -> {place of operand 0's entry}
        for path in d["out"]:
            lines = path.split("\n")
            facts = [f for f in lines[0].split(" && ") if f]
            par = {}
            for f in facts:
                if " == " in f:
                    x, y = f.split(" == ")
                    x, y = lookup(par, x), lookup(par, y)
                    if x != y:
                        par[x if not x.isdigit() else y] = y if not x.isdigit() else x
            same = lambda x, y: lookup(par, x) == lookup(par, y)
            stored = dict(l.split("\t")[1:3] for l in lines[1:] if l.startswith("store\t"))
            for ln in lines[1:]:
                if not ln.startswith("child "):
                    continue
                head, dst, dstride, count, bases, strides = ln.split("\t")
                where = head.split(" ", 1)[1]
                bases, strides = bases.split(","), strides.split(",")
                R.notes["child calls"] = R.notes.get("child calls", 0) + 1
                for k in range(n):
                    sk = "[src+%d]" % (8 * k) if k else "[src]"
                    b, st = bases[k], strides[k]
                    key = "%s: operand %d" % (name, k)
                    if "?" in b or "?" in st:
                        continue
                    R.add(key + " is set before the child runs", b != "unset" and st != "unset", where, "start %s, step %s" % (b, st))
                    var = re.fullmatch(re.escape("[" + sk + "]") + r"\+\[this\+(\d+)\]", b)
                    if not var and b != sk:
                        R.add(key + " starts where its own elements are", "src" not in b, where, "starts at %s" % b)
                        continue
                    sm = re.fullmatch(r"\[this\+(\d+)\]", st)
                    if sm:
                        tables.setdefault("step", {}).setdefault(int(sm.group(1)) - 8 * k, (k, where))
                    if var:
                        tables.setdefault("start", {}).setdefault(int(var.group(1)) - 8 * k, (k, where))
                        size = ["[" + sk + "+8]"]
                    elif dstid == "40":
                        size = sorted(set(x for f in facts for x in re.findall(r"(?<!\[)\[this\+\d+\]", f)))
                        z = [x for x in size or [] if (same(x, "1") if st == "0" else same(x, count))] or ([count] if st != "0" and count.startswith("[this+") else [])
                        R.add(key + " is repeated or has as many elements as the result", bool(z), where, "step %s, %s elements are computed when %s" % (st, count, lines[0]))
                        zm = [int(re.search(r"\d+", x).group(0)) - 8 * k for x in z]
                        if len(zm) == 1:
                            tables.setdefault("size", {}).setdefault(zm[0], (k, where))
                        continue
                    else:
                        continue
                    ok = same(size[0], "1") if st == "0" else same(size[0], count)
                    R.add(key + " is repeated or has as many elements as the result", ok, where, "step %s, it has %s elements, %s are computed when %s" % (st, size[0], count, lines[0]))
                if dstid == "40" and "?" in dst and "unset" not in dst:
                    R.add("%s: a fresh result records its elements and their number" % name, stored.get("dst") == dst and same(stored.get("dst+8", ""), count), where,
                          "begins at %s, size %s; the child writes %s elements at %s" % (stored.get("dst"), stored.get("dst+8"), count, dst))
                elif dstid == "40":
                    R.add("%s: an existing result keeps its size" % name, not stored and count == "[dst+8]" and bool(re.fullmatch(r"\[dst\]\+\[this\+\d+\]", dst)), where,
                          "%s elements at %s%s" % (count, dst, ", stores " + str(stored) if stored else ""))
                else:
                    R.add("%s: the result is filled" % name, bool(re.fullmatch(r"\[this\+\d+\]", count)) and dst == "dst", where, "%s elements at %s" % (count, dst))
        for what, at in tables.items():
            R.add("%s: the %s of every operand is read from its own entry of one table" % (name, what), len(at) == 1, next(iter(at.values()))[1],
                  "operands use tables at " + ", ".join("+%d" % a for a in sorted(at)))
        both = {}
        for what, at in tables.items():
            if len(at) == 1:
                both.setdefault(next(iter(at)), []).append(what)
        for at, ws in both.items():
            R.add("%s: %s tables are distinct" % (name, " and ".join(sorted(ws))), len(ws) == 1, d["where"], "at +%d" % at)


def run():
    R = Report("A01")
    units = []
    metadata(R, units)
    resolution(R, units)
    stretching(R, units)
    return R.finish(60, RULE, "Each closure that hands metadata on to a child is interpreted symbolically over the operands' metadata pointers; each resolve path over the operands' type objects.", units, {"closures": 40, "children": 60})
