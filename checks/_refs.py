"""Witness unit shared by the reference-count checks."""
HEAD = """
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/memblock/base_memory_block.hpp>
#include <dynd/memblock/buffer_memory_block.hpp>
#include <dynd/callables/base_callable.hpp>
#include <dynd/abi/refcount.h>
#include <new>
using namespace dynd;
"""
OBJ = {"type": "const ndt::base_type", "memory_block": "nd::base_memory_block", "buffer_block": "const nd::buffer_memory_block", "callable": "nd::base_callable"}
HANDLES = {"ndt::type": ("ndt::type", "const ndt::base_type"), "memory_block": ("intrusive_ptr<nd::base_memory_block>", "nd::base_memory_block"),
           "nd::buffer": ("nd::buffer", None), "nd::array": ("nd::array", None), "nd::callable": ("nd::callable", "nd::base_callable"),
           "intrusive_ptr<buffer_memory_block>": ("intrusive_ptr<const nd::buffer_memory_block>", "const nd::buffer_memory_block"),
           "intrusive_ptr<base_type>": ("intrusive_ptr<const ndt::base_type>", "const ndt::base_type"),
           "intrusive_ptr<base_callable>": ("intrusive_ptr<nd::base_callable>", "nd::base_callable")}


def prims():
    t = HEAD
    for n, c in OBJ.items():
        t += 'extern "C" __attribute__((nonnull)) void w_rc__retain__%s(%s *p) { intrusive_ptr_retain(p); }\n' % (n, c)
        t += 'extern "C" __attribute__((nonnull)) void w_rc__release__%s(%s *p) { intrusive_ptr_release(p); }\n' % (n, c)
    t += 'extern "C" __attribute__((nonnull)) void w_rc__retain__abi(dynd_refcounted *p) { dynd_incref(p); }\n'
    t += 'extern "C" __attribute__((nonnull)) void w_rc__release__abi(dynd_refcounted *p) { dynd_decref(p); }\n'
    return t


def handles():
    t = HEAD
    names = {}
    for k, (n, (h, o)) in enumerate(HANDLES.items()):
        def w(op, sig, body, ret="void"):
            f = "w_h__%d__%s" % (k, op)
            names[f] = (n, op)
            return 'extern "C" %s %s(%s) { %s }\n' % (ret, f, sig.replace("H", h), body.replace("H_", h).replace("TH", "decltype(x)"))
        t += "namespace ns%d { typedef %s HT; }\n" % (k, h)
        T = "ns%d::HT" % k
        t += w("copy_ctor", "void *p, const H &b", "new (p) %s(b);" % T)
        t += w("move_ctor", "void *p, H &b", "new (p) %s(std::move(b));" % T)
        t += w("dtor", "H &a", "a.~HT();" if False else "typedef %s X; a.~X();" % T)
        t += w("copy_assign", "H &a, const H &b", "a = b;")
        t += w("move_assign", "H &a, H &b", "a = std::move(b);")
        t += w("swap", "H &a, H &b", "std::swap(a, b);")
        if n.startswith(("intrusive", "memory")):
            t += w("member_swap", "H &a, H &b", "a.swap(b);")
            t += w("eq", "H &a, H &b", "return a == b;", "bool")
            t += w("ne", "H &a, H &b", "return a != b;", "bool")
            t += w("default", "void *p", "new (p) %s();" % T)
        if o and n.startswith(("intrusive", "memory")):
            t += w("adopt", "void *p, %s *q" % o, "new (p) %s(q, false);" % T)
            t += w("share", "void *p, %s *q" % o, "new (p) %s(q, true);" % T)
            t += w("assign_raw", "H &a, %s *q" % o, "a = q;")
            t += w("give_away", "H &a", "return a.release();", "%s *" % o)
            t += w("get", "H &a", "return a.get();", "%s *" % o)
    return t, names
