#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

p("N01", "Checked numeric assignment never stores an out-of-range value",
  "When a built-in integer or floating-point value is assigned to a narrower or differently signed built-in numeric type in an overflow-, fractional- or inexact-checked error mode, a source value the destination cannot represent raises an error and is never wrapped, truncated or converted with undefined behaviour. A finite source value inside the destination's range is not rejected by the range test, and a complex source with a nonzero imaginary part is rejected when the destination is real. This covers bool, the 8- to 64-bit integers, float, double and the complex types of those two.",
  ["inputs", "configurations"], "every source value (including NaN, infinities, type limits) x every pair of built-in numeric types x every checked error mode",
  "There are about 600 type-pair/mode kernels and up to 2^64 source values each; tests sample a handful of values for a few pairs, and the dangerous values sit exactly on limits such as 2^31, 2^63 or NaN.",
  ["include/dynd/assignment.hpp", "include/dynd/kernels/assignment_kernels.hpp"],
  [("overflow_cast/fractional_cast/inexact_cast range tests", "include/dynd/assignment.hpp"), ("assignment_kernel<dst,src,mode>::single", "include/dynd/kernels/assignment_kernels.hpp")])
p("N02", "Assignment honours the requested error mode",
  "The conversion selected for an assignment between two built-in numeric types is the one for the error mode the caller asked for: overflow, fractional and inexact each get their own checked conversion, and only the unchecked (or default) mode may get the unchecked one. No error mode is mapped to a laxer one for any pair of types.",
  ["configurations"], "every (destination, source) built-in type pair x every error mode",
  "The mode is dispatched separately in every instantiation of the resolver; tests request a non-default mode for only a few pairs.",
  ["include/dynd/callables/assign_callable.hpp", "src/dynd/assignment.cpp"],
  [("assign_callable<Dst,Src>::resolve error-mode switch", "include/dynd/callables/assign_callable.hpp")])
p("N03", "Types reported as losslessly assignable really are",
  "If the library reports that one built-in type can be losslessly assigned to another, then every value of the source type is exactly representable in the destination type. Every built-in type is losslessly assignable to itself.",
  ["inputs", "configurations"], "all ordered pairs of built-in types, and all values of the source type",
  "Losslessness is a statement about all values of the source for each of some 400 type pairs; tests check a few pairs and the predicate's own truth table is not derived from the value sets.",
  ["src/dynd/type.cpp", "include/dynd/types/base_type.hpp", "src/dynd/assignment.cpp"],
  [("is_lossless_assignment for built-in ids", "src/dynd/type.cpp")])
p("N04", "Numeric type promotion is symmetric and never narrows",
  "Promoting two built-in numeric types gives the same type whichever operand comes first. The promoted type is of a kind at least as general as both operands' kinds (boolean, integer, real, complex), and within the same kind is at least as wide as the wider operand.",
  ["configurations"], "all ordered pairs of built-in numeric types",
  "There are several hundred ordered pairs, decided by hand-written nested case analysis; the repository's own promotion test file is not part of the test build.",
  ["src/dynd/type_promotion.cpp"],
  [("promote_types_arithmetic", "src/dynd/type_promotion.cpp")])
p("N05", "Integer division and modulo by zero is an error, never a crash",
  "Dividing, or taking the remainder of, any built-in boolean or integer value by a zero of any built-in boolean or integer type raises an error. The same holds for the compound form (dividing in place). No boolean or integer operand values make the processor trap or leave the quotient or remainder undefined.",
  ["inputs", "configurations"], "all operand values x all pairs of boolean/integer operand types, scalar and element-wise",
  "The zero check is selected by a compile-time predicate per operand-type pair, so a hole affects only some of the pairs; tests try one or two pairs and the failure is a process crash for one operand value.",
  ["include/dynd/kernels/arithmetic.hpp", "include/dynd/callables/divide_callable.hpp", "include/dynd/callables/mod_callable.hpp"],
  [("needs_zero_check / inline_divide / inline_mod", "include/dynd/kernels/arithmetic.hpp")])
p("N06", "Comparisons implement the ordering their name says",
  "For every pair of bool, 8- to 64-bit integer, float and double operand types, the six comparison functions (less, less-or-equal, equal, not-equal, greater-or-equal, greater) return exactly what that relation gives for the two operands, in argument order, after conversion to their common type, including when an operand is not-a-number. Hence less(a,b) equals greater(b,a), and not-equal is the negation of equal.",
  ["inputs", "configurations"], "all operand values x all comparable built-in type pairs x the six functions",
  "Each function has one instance per type pair (hundreds); a test calls a few of them on a few values and cannot cover each instance's behaviour on less, equal, greater and unordered operands.",
  ["include/dynd/kernels/less_kernel.hpp", "include/dynd/kernels/equal_kernel.hpp", "include/dynd/comparison_common.hpp"],
  [("less_kernel ... greater_kernel::single", "include/dynd/kernels"), ("make_comparison_callable", "include/dynd/comparison_common.hpp")])
p("N07", "Arithmetic operators compute their operation for every type pair",
  "For every registered combination of bool, 8- to 64-bit integer, float, double and complex operand types, each arithmetic, bitwise, shift and logical operator (and pow) computes exactly the C++ language's result of that operation on its operands in argument order (for complex numbers, the textbook formula), and stores it in that operation's result type, for every element of a strided run. The same holds for the unary operators, the elementary functions (sqrt, cbrt, sin, cos, tan, exp, real, imag, conj) and for the in-place add and divide.",
  ["inputs", "configurations"], "all operand values x all registered operand type pairs x all operators",
  "Each operator expands to over a hundred type-pair instances; tests exercise a few pairs per operator on a few values.",
  ["include/dynd/kernels/arithmetic.hpp", "include/dynd/binary_arithmetic.hpp", "include/dynd/unary_arithmetic.hpp"],
  [("inline_<op>::f", "include/dynd/kernels/arithmetic.hpp"), ("make_binary_arithmetic registration", "include/dynd/binary_arithmetic.hpp")])
p("N09", "Reductions fold with their operator from its identity",
  "For every element type, the step of sum, min, max and all_equal combines the running result with the next element by exactly that operator, for one element and for a strided run. The value a reduction starts from is of the element type and cannot change the result: zero for sum, a value no element is greater than for min (positive infinity for floats), and a value no element is less than for max. limits::min and limits::max give each type's lowest and greatest finite value.",
  ["inputs", "configurations"], "all element values x all built-in element types x sum, min, max, all_equal, limits",
  "Reductions have an instance per element type and two loop forms; a wrong starting value or step shows only for particular types or values (all elements infinite, 64-bit sums in reused memory) that tests do not sample.",
  ["include/dynd/kernels/sum_kernel.hpp", "include/dynd/kernels/min_kernel.hpp", "include/dynd/kernels/max_kernel.hpp", "src/dynd/sum.cpp", "src/dynd/statistics.cpp"],
  [("nd::sum, nd::min, nd::max", "src/dynd/statistics.cpp"), ("sum_kernel::single", "include/dynd/kernels/sum_kernel.hpp")])
p("B01", "Built-in type descriptions agree with the values they describe",
  "For every built-in type, the size, alignment and kind the library reports equal those of the C++ type whose values it stores under that type id. The type constructed from a C++ type carries that type's id.",
  ["configurations"], "all built-in type ids, through every table that describes them",
  "Several independent tables (sizes, alignments, kinds, traits) must agree for every id; a wrong entry only shows for the one type, and most ids (128-bit, half, complex) are hardly tested.",
  ["include/dynd/type.hpp", "src/dynd/types/base_type.cpp", "include/dynd/types/type_id.hpp", "src/dynd/type_registry.cpp"],
  [("builtin_data_sizes/builtin_data_alignments", "src/dynd/types"), ("id_of/base_id_of/type_of traits", "include/dynd/types/type_id.hpp")])
p("O01", "A value set to missing is detected as missing",
  "For every built-in option value type, the value stored by 'assign missing' is reported missing by the missing-value test, in both the single-element and the many-element forms. Ordinary values of the type, such as 0 and 1, are reported present, and for booleans and integers exactly one stored pattern or band is missing.",
  ["inputs", "configurations"], "all stored values x every built-in option value type x scalar and strided forms",
  "The writer and the reader of the sentinel are separate per-type kernels with separate scalar and strided bodies; tests cover a few types on few values.",
  ["include/dynd/kernels/assign_na_kernel.hpp", "include/dynd/kernels/is_na_kernel.hpp"],
  [("assign_na_kernel<T>", "include/dynd/kernels/assign_na_kernel.hpp"), ("is_na_kernel<T>", "include/dynd/kernels/is_na_kernel.hpp")])
p("O02", "Missing values are never computed with",
  "An operation on a value that is missing does not look at the value: its result is missing where it can be, and an error is raised where it cannot. Where every operand is there the operation is carried out and its result is not missing. This holds for arithmetic, comparison, assignment, printing and formatting, for single elements and for whole strides of them.",
  ["inputs"], "every pattern of missing and present operands, every operand position, every run length",
  "A stored missing value looks like an ordinary number, so using it by mistake gives a plausible result, only for the operand position, run of elements or type where the test is wrong.",
  ["include/dynd/kernels/forward_na_kernel.hpp", "include/dynd/kernels/assignment_kernels.hpp", "src/dynd/json_formatter.cpp", "src/dynd/types/option_type.cpp"],
  [("forward_na_kernel::single", "include/dynd/kernels/forward_na_kernel.hpp"), ("assignment_kernel<option, option>", "include/dynd/kernels/assignment_kernels.hpp"), ("option_to_value_ck", "include/dynd/kernels/assignment_kernels.hpp")])
p("K01", "Compiled kernels release every child kernel",
  "When a compiled computation is destroyed, every child computation created as part of it is destroyed as well, exactly once and on every path, so resources held by children are released exactly once; and a computation only ever evaluates children it was built with. This holds for each kind of kernel that contains children, at whatever place in the kernel a child was put (right behind it, at a stored offset, or in a table of offsets).",
  ["inputs", "configurations"], "every kernel class that instantiates children x every call",
  "A missed child is a silent leak and a double destroy needs a child owning resources; tests observe neither.",
  ["include/dynd/kernels", "include/dynd/callables"],
  [("kernel destructors", "include/dynd/kernels"), ("kernel instantiation closures", "include/dynd/callables")])
p("K02", "Building a kernel never uses memory the builder has moved",
  "While a kernel tree is being built, its buffer may be moved whenever a kernel is added; no code keeps using an address inside the buffer obtained before such an addition. So instantiating a computation of any depth never reads or writes freed memory.",
  ["inputs", "configurations"], "every instantiation path x every nesting depth",
  "The buffer starts with an inline area and only moves when enough kernels are nested, so a stale pointer is harmless in shallow tests and corrupts memory in deep ones.",
  ["include/dynd/storagebuf.hpp", "include/dynd/kernels/kernel_builder.hpp", "include/dynd/callables"],
  [("kernel_builder::emplace_back / operator()", "include/dynd/kernels/kernel_builder.hpp"), ("get_at", "include/dynd/storagebuf.hpp")])
p("K04", "What is planned for a computation is what gets built, in the same order",
  "Resolving a callable records the steps of the computation in a call graph, and instantiating consumes them front to back. Each callable records exactly one step of its own, before those of the callables it is made of (or none, when it only passes on to one other callable), and when built takes exactly that step and then builds as many children as it resolved. So every kernel is built from the step that was planned for it, however callables are nested; no computation runs with its neighbour's plan, and no callable that resolves successfully turns out to have nothing to build.",
  ["inputs", "configurations"], "every callable x every way of nesting callables x every path through its resolution",
  "The graph is one flat sequence, so a step recorded too much, too little or in the wrong order shifts all later ones; whether that is noticed depends on what happens to stand next, and the usual test has nothing behind it.",
  ["include/dynd/callables", "include/dynd/callables/call_graph.hpp", "include/dynd/kernels/kernel_builder.hpp"],
  [("resolve functions and their closures", "include/dynd/callables"), ("call_graph::emplace_back", "include/dynd/callables/call_graph.hpp"), ("kernel_builder::operator()", "include/dynd/kernels/kernel_builder.hpp")])
p("K05", "A recorded computation refers only to what it owns",
  "Resolving a callable records closures that are run later, after the resolving function and its caller's locals are gone, and builds kernels that outlive both. What a closure or a kernel keeps is its own copy, a handle that holds a reference, or an object that is guaranteed to live as long (the callable, a child callable, static data): it keeps no pointer or reference to a local, to an argument array such as the caller's table of source types, or to a temporary.",
  ["inputs", "configurations"], "every callable's recorded closure and every kernel class x every caller",
  "A dangling capture usually still reads the old bytes, because the caller's frame has not been reused yet; whether it fails depends on what the caller does between resolving and running.",
  ["include/dynd/callables", "include/dynd/kernels", "include/dynd/callables/call_graph.hpp"],
  [("closures passed to call_graph::emplace_back", "include/dynd/callables"), ("members of kernel classes", "include/dynd/kernels")])
p("A01", "Every computation over a dimension is given its own operands' data and metadata, and broadcasts correctly",
  "When an element-wise call, an outer product or a reduction goes through a dimension, the computation below it is given operand k's own metadata, stepped over exactly that dimension if operand k has it (for an outer product: if it is the operand whose dimension this is) and left alone if it has not, and no entry is left unset. An operand that lacks the dimension or has it with size one is repeated; one with as many elements as the result is stepped by its own stride from its own first element (including the offset of a var dimension); anything else is an error. A var dimension result that is allocated records its size and is filled through its own element stride.",
  ["inputs", "configurations"], "every operand kind (fixed, strided, var, missing) in each position x all sizes, strides and offsets",
  "The wrong metadata or stride is invisible when the operands have the same layout, or size and stride happen to coincide, which is what tests use; each combination of dimension kinds is separate code.",
  ["include/dynd/kernels/elwise_kernel.hpp", "include/dynd/callables/elwise_callable.hpp", "include/dynd/callables/base_elwise_callable.hpp", "include/dynd/kernels/reduction_kernel.hpp", "include/dynd/callables/reduction_callable.hpp", "include/dynd/callables/outer_callable.hpp"],
  [("elwise_kernel<...>::single", "include/dynd/kernels/elwise_kernel.hpp"), ("instantiation closures", "include/dynd/callables/elwise_callable.hpp"), ("reduction kernels", "include/dynd/kernels/reduction_kernel.hpp")])
p("K03", "Element-wise loops advance every operand by its own stride",
  "When a kernel is applied to many elements at once, element i is computed from operand data at base + i*stride for that operand's own base and stride and written at destination base + i*destination stride, for exactly the requested number of elements. This holds for any strides, including zero and negative.",
  ["inputs", "configurations"], "all counts and strides x every kernel with a many-element form",
  "Hundreds of kernel instances have their own loop or share one; tests mostly use contiguous, equally strided operands for which mixed-up strides are invisible.",
  ["include/dynd/kernels"],
  [("strided() members", "include/dynd/kernels"), ("base_strided_kernel", "include/dynd/kernels/base_strided_kernel.hpp")])
p("D01", "Dispatch on a type id treats the data as that type",
  "Where the library selects code by a type id (missing-value callables on arrays, type properties, ranges, printing of built-in scalars, container initialisation, JSON parsing and formatting), the code selected for an id handles the data as the value type stored under that id: same width, signedness and kind.",
  ["inputs"], "every type id a dispatch accepts x all data",
  "Ids and dispatch tables multiply; a crossed pair shows only for values where the two representations differ.",
  ["src/dynd/array.cpp", "src/dynd/array_range.cpp", "src/dynd/json_parser.cpp", "src/dynd/json_formatter.cpp", "include/dynd/callables/is_na_callable.hpp", "include/dynd/callables/assign_na_callable.hpp"],
  [("from_type_property", "src/dynd/array.cpp"), ("old_range", "src/dynd/array_range.cpp"), ("parse_json", "src/dynd/json_parser.cpp"), ("format_json", "src/dynd/json_formatter.cpp"), ("resolve", "include/dynd/callables/is_na_callable.hpp")])
p("R01", "Shared objects are freed exactly when the last reference goes",
  "Reference counts of types, memory blocks, array buffers and callables change only by atomic increments and decrements, and an object is destroyed exactly by the release that takes its count to zero. So concurrent sharing and dropping of the same object from several threads neither leaks nor frees it early.",
  ["schedules", "histories"], "all interleavings of retain and release from any number of threads",
  "A non-atomic update or an off-by-one in the zero test only fails under particular interleavings or long-lived sharing; tests are single-threaded.",
  ["include/dynd/types/base_type.hpp", "include/dynd/memblock/base_memory_block.hpp", "include/dynd/callables/base_callable.hpp", "include/dynd/abi/refcount.h"],
  [("intrusive_ptr_retain/intrusive_ptr_release overloads", "include/dynd"), ("dynd_incref/dynd_decref", "include/dynd/abi/refcount.h")])
p("R02", "Copying and assigning handles balances references",
  "Copying, moving, assigning, swapping and destroying a handle to a shared object leaves each object's count equal to the number of handles that refer to it. Assigning a handle to itself, or to one reachable only through it, does not free the object early.",
  ["histories"], "all sequences of handle operations, including self-assignment",
  "An imbalance is invisible until the last handle goes; self-assignment and assigning from a sub-object are not exercised by tests.",
  ["include/dynd/config.hpp", "include/dynd/type.hpp"],
  [("intrusive_ptr", "include/dynd/config.hpp"), ("ndt::type copy/move", "include/dynd/type.hpp")])
p("T01", "Per-array metadata of nested types is created and destroyed symmetrically",
  "For every composite type, the operations that construct, copy, reset and destroy per-array metadata reach every component's metadata, each at the same offset, and a reference that construction keeps in the type's own metadata is given up on destruction. When constructing a later component from defaults fails, exactly the components already constructed are destroyed, each at its own offset.",
  ["inputs", "configurations", "crash_points"], "every composite type, every nesting, every failing component",
  "A component skipped or visited at the wrong offset leaks or corrupts memory only for particular nestings, and the failure path needs a component whose construction throws.",
  ["src/dynd/types/tuple_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/option_type.cpp", "src/dynd/types/pointer_type.cpp"],
  [("arrmeta_default_construct/copy_construct/destruct/reset_buffers/finalize_buffers", "src/dynd/types")])
p("T02", "Equal types have equal structure",
  "Two types compare equal only if every structural parameter that distinguishes them agrees: element types, sizes, names, flags such as variadic, encodings, alignments and categories. Types of different kinds are never equal.",
  ["inputs"], "every pair of types of the same kind differing in any one parameter",
  "Each of over thirty type classes has its own comparison; tests compare a few pairs, rarely differing in just one parameter.",
  ["src/dynd/types", "include/dynd/types"],
  [("<type>::operator==", "src/dynd/types")])
p("T03", "Composite types inherit the requirements of their components",
  "A struct, tuple, fixed-size dimension, option, pointer or device-memory type containing a component that needs zero-initialisation or destruction, whose data lives in separate memory, or that is symbolic, itself reports that requirement; dimensions, options and pointers over a variadic component are variadic. The per-array metadata size and the dimension counts a type reports include those of its component.",
  ["inputs", "configurations"], "every nesting of composite types over every component type",
  "Only deep or unusual nestings expose a dropped flag, as uninitialised data or a leak rather than a wrong result.",
  ["include/dynd/types/base_type.hpp", "src/dynd/types"],
  [("type_flags_operand_inherited etc.", "include/dynd/types/type_id.hpp")])
p("P01", "Text parsers never read outside their input",
  "Parsing a type description, a JSON document or a scalar from a character range reads only characters inside that range, for any content, including truncated and malformed text and ranges that are not zero-terminated. The position reported back after parsing stays inside the range. Entry points are given a position at or before the end.",
  ["inputs"], "every byte sequence as input to every parsing entry point",
  "The over-reading input for a missing end check is a specific truncated prefix of a specific production; tests feed complete zero-terminated strings where one byte too far is a harmless zero.",
  ["src/dynd/parse_util.cpp", "src/dynd/types/datashape_parser.cpp", "src/dynd/json_parser.cpp", "include/dynd/parse_util.hpp"],
  [("begin/end cursor functions", "src/dynd")])
p("P02", "Text transcoding stays inside its source and destination buffers",
  "Decoding a code point from, or encoding one into, a buffer of any supported text encoding reads and writes only between the current position and the end of the buffer, and leaves the position inside it. Truncated or invalid sequences raise an error or yield a replacement without touching memory beyond the end, and decoding always moves forward, so reading a text ends. Callers decode and encode only while the position is before the end; text is a whole number of units of its encoding.",
  ["inputs"], "every byte sequence and every remaining buffer size x every supported encoding",
  "Over-reads need a multi-unit sequence cut at the end of its buffer; over-writes need a code point that does not fit the remaining space; tests use well-formed text with slack.",
  ["src/dynd/string_encodings.cpp"],
  [("next_<enc>/append_<enc> functions", "src/dynd/string_encodings.cpp")])
p("P03", "Parsed integers are exact or rejected",
  "Converting text to a built-in integer (8 to 64 bits, signed or unsigned) in a checked error mode, through the typed parsers, the string-to-integer assignment kernels or the dynamically typed parser used for options and JSON, yields exactly the number written (negative after '-'), or an error when it does not fit the type. No digit sequence is silently wrapped to another value, and no number that fits is rejected as an overflow.",
  ["inputs"], "every digit string x every built-in integer type",
  "Only particular lengths and leading digits wrap unnoticed; tests try a few numbers near the limits.",
  ["include/dynd/parse_util.hpp", "src/dynd/parse_util.cpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/kernels/parse_kernel.hpp"],
  [("parse<T> integer overloads", "include/dynd/parse_util.hpp"), ("string_to_number", "include/dynd/parse_util.hpp")])
p("I01", "128-bit integers behave as integers modulo 2^128",
  "Addition, subtraction, negation, complement, multiplication by a 32-bit number, in-place forms, comparisons, and conversion from and to the built-in integers on the 128-bit integer classes give the result of the same operation on integers reduced modulo 2^128 (two's complement for the signed class), for all operands, or raise 'not implemented'. In particular carries and signs cross between the two halves.",
  ["inputs"], "all pairs of 128-bit operands and all values of the built-in integers",
  "The failing operands are those with a carry, borrow or sign crossing the middle of 256 bits of input; tests use small numbers.",
  ["include/dynd/int128.hpp", "include/dynd/uint128.hpp", "src/dynd/int128.cpp", "src/dynd/uint128.cpp"],
  [("int128 / uint128 operators", "include/dynd/int128.hpp")])
p("S01", "Strings and byte strings hold exactly the bytes put into them",
  "After construction, assignment, append, +, +=, clear, reserve or resize, a dynd::string or dynd::bytes holds exactly the bytes and the size the operation says, whatever sizes are involved (text stored inside the object or on the heap, growing across the boundary or within spare capacity), and also when the given bytes are the object's own or a part of them. Unused inline bytes are zero and a string's text is followed by a zero byte; a moved-from object is empty or unchanged; two are equal exactly when their sizes and bytes are. Only live memory within its bounds is accessed, every heap buffer is released exactly once, and an allocation that fails leaves the objects valid.",
  ["inputs", "histories"], "every operation x every form (inline, heap) of the objects x all sizes, capacities and contents x operand apart, the object itself, or inside it",
  "Storage switches between two representations packed into the same 16 bytes; mistakes show only at the boundary sizes, after particular histories (heap text that shrank), or with overlapping operands.",
  ["include/dynd/types/sso_bytestring.hpp", "include/dynd/types/string_type.hpp", "include/dynd/bytes.hpp"],
  [("sso_bytestring", "include/dynd/types/sso_bytestring.hpp"), ("string", "include/dynd/types/string_type.hpp"), ("bytes", "include/dynd/bytes.hpp")])
p("X02", "Tables of fixed length are never overrun",
  "Wherever the library keeps a list in a table whose length is fixed when it is compiled (metadata offsets per field, one entry per argument, dispatch tables by number of arguments, per-encoding tables), every access is within the table, whatever the number of fields, arguments or dimensions of the types and arrays at hand: a computation over more of them than the table holds either works or raises an error.",
  ["inputs", "configurations"], "every fixed-length table x every number of fields, arguments, dimensions and every encoding",
  "Tests use few fields and arguments, which fit; the first larger tuple overwrites the stack without any test noticing.",
  ["include/dynd/callables", "include/dynd/kernels", "include/dynd/types", "src/dynd"],
  [("assign_callable<tuple_type, tuple_type>", "include/dynd/callables/assign_callable.hpp"), ("equal_callable<tuple_type, tuple_type>", "include/dynd/callables/equal_callable.hpp"), ("elwise_entry_callable", "include/dynd/callables/elwise_entry_callable.hpp"), ("reduction_dispatch_callable", "include/dynd/callables/reduction_callable.hpp")])
p("X01", "Indexing selects exactly the elements named, never outside the array",
  "Indexing or slicing a dimension (or the fields of a tuple or struct) with any integer or range either raises an error or selects exactly the elements it names, all of them inside the dimension: a single index counts from the front, or from the back when negative, and is accepted if and only if it is in range; a range selects start, start+step, ... as far as its stop allows, clipped to the dimension, in the size, stride and offset of the result. The same holds for elements taken by a stored index, and a field name that does not exist is reported. This covers negative indices, steps and extreme values.",
  ["inputs"], "all dimension sizes x all index and range values, including the integer limits",
  "The unsafe values are boundary combinations of size, start, stop and step; tests use a few small ones.",
  ["include/dynd/shape_tools.hpp", "src/dynd/shape_tools.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/var_dim_type.cpp"],
  [("apply_single_index / apply_single_linear_index", "include/dynd")])
p("V01", "Views keep the viewed memory alive and never gain write access",
  "An array over another array's memory (by indexing, slicing, permuting, adding axes, viewing or reinterpreting) keeps that memory alive: it holds the owner of the source's memory, or the source itself when that owns its memory, and the owner of the elements where it points behind a pointer or a var dimension. Its access flags are never wider than those of the source. The reference to element memory that pointer and var-dimension metadata carry is kept when metadata is copied or indexed, and becomes the source array where it was empty. A pointer for writing is handed out only when the array has write access.",
  ["histories", "inputs"], "every operation that yields an array over existing memory, in any chain",
  "A lost owner shows only when the original array is dropped first, and a widened permission only when someone then writes through the view.",
  ["src/dynd/array.cpp", "src/dynd/view.cpp", "src/dynd/buffer.cpp", "src/dynd/types/pointer_type.cpp", "src/dynd/types/var_dim_type.cpp", "include/dynd/buffer.hpp", "include/dynd/array.hpp"],
  [("make_array(tp, data, owner, flags) call sites", "src/dynd/array.cpp, src/dynd/view.cpp"), ("arrmeta_copy_construct, apply_linear_index", "src/dynd/types"), ("buffer::data(), buffer::get_data_memblock()", "include/dynd/buffer.hpp")])
p("M01", "Element storage blocks never hand out memory beyond their chunks",
  "Memory handed out for variable-sized elements always lies inside a chunk the block owns, is aligned and apart from what was handed out before, also after growing, shrinking and resetting; growing keeps the elements, and destroying the block frees every chunk once. Storage promised to be zeroed is zero when handed out, and elements with a destructor are destroyed exactly once, when dropped by shrinking, resetting or destroying the block.",
  ["histories", "inputs"], "all sequences of allocate, resize, finalize and reset calls with all sizes",
  "Growing past a chunk boundary after a specific history is needed; tests use small arrays that fit the first chunk.",
  ["include/dynd/memblock/pod_memory_block.hpp", "include/dynd/memblock/zeroinit_memory_block.hpp", "include/dynd/memblock/objectarray_memory_block.hpp"],
  [("alloc/resize/reset", "include/dynd/memblock")])
p("H01", "Each published function name denotes that function",
  "Looking up a function in the registry by its published name yields the function of that name, and each operator on arrays calls the function for that operator with its operands in order. No two names are crossed.",
  ["configurations"], "all published names and all array operators",
  "Tests call most functions directly and look up a few names; a crossed pair of similar functions can go unnoticed.",
  ["src/dynd/registry.cpp", "src/dynd/array.cpp", "include/dynd/array.hpp"],
  [("registered() table", "src/dynd/registry.cpp"), ("array operators", "include/dynd/array.hpp")])
# --- properties outside this family's reach -------------------------------
p("Z01", "Datashape text round-trips",
  "Printing a type and parsing the text gives back an equal type.",
  ["inputs"], "every constructible type", "Types nest without bound; tests round-trip a list of examples.",
  ["src/dynd/types/datashape_parser.cpp", "src/dynd/types"], [("print_type / datashape::parse", "src/dynd/types")])
p("Z02", "JSON parsing and formatting round-trip",
  "Formatting an array as JSON and parsing the result with the same type gives an equal array.",
  ["inputs"], "every type and every array value", "Values and nestings are unbounded; tests use examples.",
  ["src/dynd/json_parser.cpp", "src/dynd/json_formatter.cpp"], [("parse_json / format_json", "src/dynd")])
p("Z03", "Broadcasting element-wise results equal the per-element definition",
  "Applying a function element-wise to arrays of broadcast-compatible shapes gives, at every index, the scalar function of the operands' elements at the broadcast index, and incompatible shapes raise an error.",
  ["inputs", "configurations"], "all shapes, strides, dimension kinds and operand counts", "Shapes and dimension-kind combinations are unbounded; tests use a few.",
  ["include/dynd/callables/elwise_callable.hpp", "include/dynd/kernels/elwise_kernel.hpp"], [("elwise_callable / elwise_kernel", "include/dynd")])
p("Z04", "Reductions equal the fold of their operator",
  "Reducing an array over any subset of axes gives the fold of the operator over the reduced elements with the right identity.",
  ["inputs", "configurations"], "all shapes and axis subsets", "Shapes and axes are unbounded; tests use a few.",
  ["include/dynd/callables/reduction_callable.hpp", "include/dynd/kernels/reduction_kernel.hpp"], [("reduction_kernel", "include/dynd/kernels/reduction_kernel.hpp")])
p("Z05", "Half and quad precision conversions round correctly",
  "Converting between half/quad precision and native floating point yields the correctly rounded value.",
  ["inputs"], "all bit patterns", "2^16 to 2^128 patterns.",
  ["src/dynd/float16.cpp", "src/dynd/float128.cpp"], [("float16/float128 conversions", "src/dynd")])
p("Z06", "Sorting and unique produce ordered, duplicate-free permutations",
  "Sorting yields an ordered permutation of its input; unique keeps one of each run; binary search finds a present element.",
  ["inputs"], "all arrays", "Inputs are unbounded.",
  ["include/dynd/kernels/sort_kernel.hpp", "include/dynd/kernels/unique_kernel.hpp", "include/dynd/kernels/binary_search_kernel.hpp"], [("sort_kernel", "include/dynd/kernels/sort_kernel.hpp")])
p("Z07", "Transcoding preserves text",
  "Converting text between encodings and back yields the same code points.",
  ["inputs"], "all strings x encodings", "Strings are unbounded.",
  ["src/dynd/string_encodings.cpp"], [("next/append functions", "src/dynd/string_encodings.cpp")])
p("Z08", "Type patterns match exactly the types they describe",
  "A concrete type matches a symbolic pattern exactly when some substitution of the pattern's variables gives that type, and matching binds each variable consistently.",
  ["inputs"], "all patterns x all types", "Patterns and types nest without bound.",
  ["src/dynd/type.cpp", "src/dynd/types"], [("match", "src/dynd/types")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
