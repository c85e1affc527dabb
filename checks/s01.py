from vlib import core
from vlib.core import Report

TECHNIQUE = "abstract interpretation of every member of the byte string classes: memory as segments with symbolic bounds, sizes and capacities as linear forms, from every form an object can have and with the operand outside or inside the object"
LEVEL = "proof"
NOTE = ("Constructors, assignments, append, +, +=, clear, reserve, resize, their growing forms, destructor, equality and the observers of dynd::string, dynd::bytes and their common base, each from an inline and from a heap object, with the operand elsewhere, being the object itself, or a part of it. "
        "Sizes below 2^60 are assumed; ordering (<) of strings and construction from std::string or C strings are not judged.")
RULE = "from a valid object: only live memory inside its bounds is read or written; buffers are released exactly once and never leaked; at the end (and where an allocation may fail) every object is in exactly one valid form; its text is what the operation says"

CLS = [("sbase", "dynd::sso_bytestring<1>", "sso_bytestring<1>"), ("bbase", "dynd::sso_bytestring<0>", "sso_bytestring<0>"), ("str", "dynd::string", "string"), ("bytes", "dynd::bytes", "bytes")]


def text():
    t = ["#include <new>", "#include <dynd/types/string_type.hpp>", "#include <dynd/bytes.hpp>"]
    for c, T, _ in CLS:
        ops = [("ctor", "void", "{T} *a", "new (a) {T}();"), ("ctorcopy", "void", "{T} *a, const {T} *b", "new (a) {T}(*b);"), ("ctormove", "void", "{T} *a, {T} *b", "new (a) {T}(std::move(*b));"),
               ("ctordata", "void", "{T} *a, const char *p, size_t n", "new (a) {T}(p, n);"), ("dtor", "void", "{T} *a", "typedef {T} X; a->~X();"),
               ("assign", "void", "{T} *a, const char *p, size_t n", "a->assign(p, n);"), ("copyassign", "void", "{T} *a, const {T} *b", "*a = *b;"), ("moveassign", "void", "{T} *a, {T} *b", "*a = std::move(*b);"),
               ("append", "void", "{T} *a, const char *p, size_t n", "a->append(p, n);"), ("clear", "void", "{T} *a", "a->clear();"),
               ("reserve", "void", "{T} *a, size_t n", "a->reserve(n);"), ("reservegrow", "void", "{T} *a, size_t n", "a->reserve_grow(n);"),
               ("resize", "void", "{T} *a, size_t n", "a->resize(n);"), ("resizegrow", "void", "{T} *a, size_t n", "a->resize_grow(n);"),
               ("size", "size_t", "const {T} *a", "return a->size();"), ("capacity", "size_t", "const {T} *a", "return a->capacity();"), ("empty", "bool", "const {T} *a", "return a->empty();"),
               ("data", "char *", "{T} *a", "return a->data();"), ("cdata", "const char *", "const {T} *a", "return a->data();"), ("begin", "char *", "{T} *a", "return a->begin();"),
               ("cbegin", "const char *", "const {T} *a", "return a->begin();"), ("end", "char *", "{T} *a", "return a->end();"), ("cend", "const char *", "const {T} *a", "return a->end();"),
               ("eq", "bool", "const {T} *a, const {T} *b", "return *a == *b;"), ("ne", "bool", "const {T} *a, const {T} *b", "return *a != *b;")]
        if not c.endswith("base"):
            ops += [("pluseq", "void", "{T} *a, const {T} *b", "*a += *b;"), ("plus", "void", "{T} *r, {T} *a, const {T} *b", "new (r) {T}(*a + *b);")]
        for o, ret, args, body in ops:
            t.append('extern "C" %s w_%s_%s(%s) { %s }' % (ret, c, o, args.replace("{T}", T), body.replace("{T}", T)))
    return "\n".join(t) + "\n"


NAMES = {"ctor": "default construction", "ctorcopy": "copy construction", "ctormove": "move construction", "ctordata": "construction from bytes", "dtor": "destruction", "copyassign": "copy assignment", "moveassign": "move assignment",
         "reservegrow": "reserve_grow", "resizegrow": "resize_grow", "cdata": "data() const", "cbegin": "begin() const", "cend": "end() const", "eq": "==", "ne": "!=", "pluseq": "+=", "plus": "+"}


def run():
    R = Report("S01")
    w = core.compile_witness("bytestr", text())
    cls = {c: n for c, _, n in CLS}
    for d in core.run_tool(["bytestr"], [w]):
        key = "S01:%s %s%s" % (cls[d["cls"]], NAMES.get(d["op"], d["op"]), " (%s)" % d["case"] if d["case"] else "")
        if not d["bad"] and (d["vague"] or not d["judged"]):
            R.notes["not judged"] = R.notes.get("not judged", 0) + 1
            R.notes.setdefault("not judged operations", []).append(key + ": " + d["unclear"])
            continue
        R.notes["cases judged"] = R.notes.get("cases judged", 0) + d["judged"]
        R.add(key, not d["bad"], core.relpath(d["where"]) if d["where"] else "include/dynd/types/sso_bytestring.hpp", d["why"])
    return R.finish(minimum=60, rule=RULE, explanation="every member of the small-string-optimised byte string classes, from every form of the objects involved", units=1, floors={"cases judged": 100})
