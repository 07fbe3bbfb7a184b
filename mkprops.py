#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Converting between representations preserves the value",
  "Converting any packet between its dynamic and finalized forms in either direction (finalize/lower, definalize/lift, conversion between heap, buffer, packet, view and other reference counters), and rebuilding a finalized packet from a copy of its bytes, yields a packet holding exactly the same value: same types, same integers and doubles bit for bit, same string bytes, same array order, same object keys with the same values, at every depth. The source of the conversion keeps its own value.",
  ["inputs"], "for every JSON-like tree: all integer widths and boundary values, decimals incl. those exactly representable as float, strings incl. empty, small-string boundary, embedded NUL, 65535/65536+ bytes, empty/large/deep aggregates, keys of every length from 0 up to the 65535 maximum",
  "The unit tests convert a dozen hand-written packets; width narrowing, alignment, padding and size-class boundaries depend on the values and on their position in the tree, so a sample of inputs says little about the others.",
  ["include/dart/heap/detail.tcc", "include/dart/buffer/api.tcc", "include/dart/buffer/detail.tcc", "include/dart/object.tcc", "include/dart/array.tcc", "include/dart/string.tcc", "include/dart/primitive.tcc", "include/dart/packet/api.tcc", "include/dart/common.tcc"],
  [("heap layout/upper_bound/sizeof computation", "include/dart/heap/detail.tcc"), ("finalized object/array/string/primitive constructors", "include/dart/object.tcc, array.tcc, string.tcc, primitive.tcc"), ("identify_integer/identify_decimal narrowing", "include/dart/common.tcc")],
  ["typed accessors", "iteration", "get_bytes/dup_bytes/share_bytes", "to_json"])

p("P02", "Every lookup finds exactly the keys and elements stored",
  "For an object in any representation, a lookup of a key (has_key, subscript, at, get, get_or, find, find_key, get_nested, and the multi-key or optional variants) succeeds exactly when that key was stored and then yields that key's value; for an array, lookup by index yields the element at that position and anything past the end is reported as missing. All representations of the same value (heap, buffer, packet, views, typed wrappers) give the same answer.",
  ["inputs"], "for every set of keys (any bytes incl. NUL and non-ASCII, any length 0..65535, shared prefixes, equal lengths) and every probed key present or absent, and every array and index",
  "The tests look up short ASCII keys in small objects; whether the binary search over the finalized key table is right depends on the order and the prefix cache for the particular key set.",
  ["include/dart/object.tcc", "include/dart/array.tcc", "include/dart/common.tcc", "include/dart/heap/object.tcc", "include/dart/heap/array.tcc", "include/dart/buffer/object.tcc", "include/dart/buffer/array.tcc", "include/dart/packet/object.tcc", "include/dart/packet/array.tcc"],
  [("binary search with prefix cache over sorted vtable", "include/dart/object.tcc get_it/get_value_impl; include/dart/common.tcc prefix_entry"), ("ordered map of dynamic objects", "include/dart/common.h dart_comparator")],
  ["has_key", "operator[]", "at", "get", "get_or", "find", "find_key", "get_nested"])

p("P03", "Validation makes untrusted bytes safe to read",
  "Validating arbitrary suitably aligned bytes as a finalized packet (nesting bounded by the stack) never reads outside the bytes given, never crashes and always terminates; if it accepts them, every read operation over the resulting packet stays inside those bytes and terminates. It accepts every buffer the library itself produced, at its full length, and rejects every proper truncation of one.",
  ["inputs"], "for every byte string: random, structured mutations (offset, length, type, count, terminator edits) and truncations of genuine buffers of every shape",
  "The repository's fuzz test checks one random mutation scheme against crashes without a memory oracle; out-of-bounds reads stay invisible without instrumentation and the accepted/rejected decision is not compared with anything.",
  ["include/dart/object.tcc", "include/dart/array.tcc", "include/dart/string.tcc", "include/dart/primitive.tcc", "include/dart/common.tcc", "include/dart/api.tcc", "include/dart/common.h"],
  [("is_valid recursive bounds checks", "object/array/string/primitive.tcc is_valid, common.tcc valid_buffer"), ("dart::is_valid / dart::validate entry points", "include/dart/api.tcc")],
  ["dart::is_valid", "traversal of accepted packets under AddressSanitizer with exact-size allocations"])

p("P04", "Finalized bytes are canonical",
  "Finalizing equal values yields identical bytes, whatever the order of insertion, the history of edits, the reference counter or the route taken (direct build, lift then lower, JSON or inject/project), and contains no uninitialised memory. The bytes are position independent: a copy at any suitably aligned address reads back as the same value and compares equal.",
  ["inputs", "histories"], "for every tree and every construction order/history that leads to it, over different contents of recycled memory",
  "Tests compare a few buffers built once; stray padding or leftovers from recycled allocations only show when memory is dirty and construction histories differ.",
  ["include/dart/heap/detail.tcc", "include/dart/object.tcc", "include/dart/array.tcc", "include/dart/string.tcc", "include/dart/buffer/detail.tcc", "include/dart/common.tcc", "include/dart/connector/json.tcc"],
  [("padding fill and alignment", "include/dart/common.tcc align_pointer/pad_bytes, object.tcc"), ("key ordering", "include/dart/common.h dart_comparator")],
  ["get_bytes", "operator==", "dup_bytes"])

p("P05", "Copies are isolated from each other's mutations",
  "A copy of a packet (or a child taken out of one, or one stored inside another) behaves as an independent value: no mutation through one handle is ever visible through another, whatever the mutator, the sharing pattern, the reference counter or the API used (heap, packet, typed wrappers).",
  ["histories"], "for every sequence of copies, moves, extractions, insertions and mutations over a pool of handles sharing storage",
  "The isolation is implemented by copy-on-write in each mutator separately; tests exercise it for a few mutators and a single pair of handles.",
  ["include/dart/heap/object.tcc", "include/dart/heap/array.tcc", "include/dart/heap/detail.tcc", "include/dart/heap/api.tcc", "include/dart/packet/object.tcc", "include/dart/packet/array.tcc", "include/dart/packet/detail.tcc"],
  [("copy_on_write before each mutation", "include/dart/heap/detail.tcc"), ("packet definalisation before mutation", "include/dart/packet/detail.tcc get_heap")],
  ["full value of every live handle after each step"])

p("P06", "Mutations of dynamic packets follow the documented model",
  "Any sequence of mutations (add/insert/set/erase fields and elements, push/pop at both ends, resize, reserve, clear, assignment) leaves an object equal to the corresponding ordered map and an array equal to the corresponding sequence, with matching size, emptiness, returned iterators and capacity growth. An operation that reports an error leaves the packet's value unchanged.",
  ["histories"], "for every finite sequence of operations with arbitrary keys, indices and values, on heap, packet and typed wrappers, including failing operations",
  "Tests run short scripted sequences; the property quantifies over all histories including failing ones.",
  ["include/dart/heap/object.tcc", "include/dart/heap/array.tcc", "include/dart/heap/api.tcc", "include/dart/packet/object.tcc", "include/dart/packet/array.tcc"],
  [("heap field/element mutators", "include/dart/heap/object.tcc, heap/array.tcc"), ("packet forwarding", "include/dart/packet/*.tcc")],
  ["value, size, iterators and exceptions after every step"])

p("P07", "Storage is freed exactly once and never used after free",
  "Every byte and object the library allocates is released exactly once when its last owner goes away, for every reference counter; reference counts reported equal the number of live owners, taking non-owning views never adds an owner, moves transfer ownership, and as long as one owner lives everything reachable from it stays readable.",
  ["histories"], "for every history of copy, move, swap, assignment (incl. self-assignment), conversion, extraction of children/iterators/views/bytes and destruction, over all supplied reference counters and user-defined ones",
  "Leaks, double frees and uses after free have no functional symptom in an assertion test, and depend on the order in which handles die.",
  ["include/dart/support/ptrs.h", "include/dart/support/ptrs.tcc", "include/dart/refcount_traits.h", "include/dart/common.h", "include/dart/common.tcc", "include/dart/iterator.tcc", "include/dart/buffer/api.tcc", "include/dart/heap/api.tcc", "include/dart/packet/api.tcc"],
  [("reference counters", "include/dart/support/ptrs.tcc, refcount_traits.h"), ("ownership-sharing child access", "include/dart/buffer/*.tcc, heap/*.tcc"), ("iterator ownership", "include/dart/iterator.tcc")],
  ["refcount()", "allocation balance", "AddressSanitizer/LeakSanitizer reports", "instrumented user-defined reference counter"])

p("P08", "Shared data can be used concurrently without races",
  "With the thread-safe reference counters, threads that each use their own handle to shared data, or only read a common one (copying, reading, looking up, iterating, serialising, finalizing, mutating their own copy, destroying), never race, and each observes exactly the value its handle had; error state of the C interface is per thread.",
  ["schedules"], "for every interleaving of any number of threads working on copies and views of the same packets, through the C++ and the C interface",
  "The tests are single threaded except for a refcount smoke test; a race needs a particular interleaving and a detector to be seen.",
  ["include/dart/support/ptrs.tcc", "include/dart/refcount_traits.h", "include/dart/heap/detail.tcc", "include/dart/heap/object.tcc", "include/dart/heap/array.tcc", "include/dart/common.tcc", "src/generic.cc", "src/helpers.h"],
  [("atomic reference counting", "include/dart/support/ptrs.tcc"), ("copy-on-write test", "include/dart/heap/detail.tcc"), ("thread-local error message", "src/helpers.h")],
  ["ThreadSanitizer reports", "per-thread value checks", "destructor counts"])

p("P09", "Parsing JSON yields exactly the document's value or an error",
  "Parsing any text as JSON, into any representation and from any input form, yields exactly the value the text denotes (strings with their escapes and embedded NULs, integers exactly, doubles to the parser's accuracy of a few units in the last place, order of arrays, all keys, the last of duplicate keys), identically for the dynamic and the finalized form, or throws a parse error if the text is not a JSON document that the library supports; it never crashes, leaks or reads out of bounds. Parse options for comments, trailing commas, NaN/Infinity and the like have exactly their documented effect.",
  ["inputs"], "for every byte string, valid or not, and every supported parse-flag combination",
  "Tests parse a couple of documents; number boundaries, escapes, sizes near buffer estimates and malformed text are unbounded.",
  ["include/dart/connector/json.tcc", "include/dart/object.tcc", "include/dart/array.tcc", "include/dart/api.tcc"],
  [("SAX handler building dynamic packets", "include/dart/connector/json.tcc"), ("DOM walk building finalized packets and its size estimate", "include/dart/connector/json.tcc, object.tcc, array.tcc")],
  ["from_json", "parse", "operator>>", "_dart literals"])

p("P10", "Serialised JSON is valid and denotes the packet's value",
  "Whatever packet is serialised, in whatever representation, the output (to_json, stream output) is a single well-formed JSON document denoting exactly its value, all representations print the same text, and parsing it back gives an equal packet up to the accuracy of parsing decimals; a value that JSON cannot represent (a non-finite number, unless writing those was asked for) is refused with an exception, never turned into a malformed document.",
  ["inputs"], "for every packet incl. strings with control characters, quotes, NUL, non-ASCII; all integers; all doubles incl. NaN and infinities; empty and nested aggregates; write flags",
  "Tests print a few packets; escaping, number formatting and non-finite numbers are value dependent.",
  ["include/dart/connector/json.tcc", "include/dart/object.tcc", "include/dart/array.tcc", "include/dart/operators.tcc"],
  [("json_serialize", "include/dart/connector/json.tcc, common.tcc"), ("typed wrapper forwarding", "include/dart/common.h")],
  ["to_json", "operator<<"])

p("P11", "Parsing YAML yields the document's value or an error",
  "Parsing any text as YAML never crashes, leaks or reads out of bounds, and either throws or yields the value the first document denotes: mappings, sequences, scalars typed as null, boolean, integer, decimal or string, with aliases/anchors either honoured or rejected, never silently misattributed. The dynamic and finalized results are equal, and YAML text that is also JSON gives the same value as the JSON parser.",
  ["inputs"], "for every byte string and every generated document in block and flow style with arbitrary nesting and scalars",
  "The tests parse one small file; structure errors, complex keys, scalar typing and malformed streams are unbounded.",
  ["include/dart/connector/yaml.tcc", "include/dart/heap/api.tcc", "include/dart/buffer/api.tcc"],
  [("libyaml event loop and parser state stack", "include/dart/connector/yaml.tcc")],
  ["from_yaml", "parse_yaml"])

p("P12", "Equality is a consistent equivalence on values",
  "Comparing packets is reflexive, symmetric and transitive, and two packets compare equal exactly when they denote the same value, in whatever combination of representations (heap, buffer, packet finalized or not, views, typed wrappers, different reference counters, native C++ values) they are compared; inequality is always its negation, and native numbers compare by numerical value. NaN and the sign of zero are treated differently by dynamic and finalized packets (recorded as findings).",
  ["inputs"], "for every pair and triple of values, in every pair of representations",
  "Tests compare a few equal packets; near-miss pairs across representations are combinatorial.",
  ["include/dart/common.tcc", "include/dart/operators.tcc", "include/dart/heap/detail.tcc", "include/dart/heap/api.tcc", "include/dart/buffer/api.tcc", "include/dart/packet/api.tcc", "include/dart/conversion_traits.h", "include/dart/support/string_view.tcc"],
  [("typed_compare / typeless_compare / generic_compare", "include/dart/common.tcc"), ("conversion_traits compare", "include/dart/conversion_traits.h")],
  ["operator==", "operator!="])

p("P13", "Type discipline: accessors never misinterpret a value",
  "Each packet has exactly one type, which all type queries agree on; a typed accessor or typed wrapper either yields the stored value (when the type matches, or a default where one is offered) or throws a type error, and never reinterprets another type's storage; conversion to bool is truthiness and works for every type. Finalized packets reject mutation and never change.",
  ["inputs", "histories"], "for every value, every accessor/mutator and every representation and typed wrapper",
  "The full accessor-by-type-by-representation matrix is not covered by the tests, and misreads on unions and raw bytes may go unnoticed.",
  ["include/dart/heap/primitive.tcc", "include/dart/heap/string.tcc", "include/dart/heap/api.tcc", "include/dart/buffer/primitive.tcc", "include/dart/buffer/string.tcc", "include/dart/buffer/api.tcc", "include/dart/packet/primitive.tcc", "include/dart/packet/string.tcc", "include/dart/packet/detail.tcc", "include/dart/common.h"],
  [("type checks in accessors", "include/dart/*/primitive.tcc, string.tcc"), ("wrapper constructor checks", "include/dart/common.h")],
  ["is_*", "get_type", "str/strv/integer/decimal/numeric/boolean and _or variants", "typed wrapper constructors", "exceptions"])

p("P14", "Iteration visits every member once, in order, paired",
  "Iterating an object visits each key exactly once in the key order (shorter first, then byte order) with its own value, keys and values iterators staying in step; iterating an array visits elements in order; forward and reverse traversal mirror each other, the number of steps equals size(), and this is the same for every representation and for keys()/values() listings. Iterators over finalized data stay valid after the handle they came from is gone.",
  ["inputs", "histories"], "for every aggregate in every representation, every iterator walk (forward, backward, mixed increments, copies, post-increments) including iterators outliving the handle they came from",
  "Tests walk a few small aggregates forward.",
  ["include/dart/iterator.tcc", "include/dart/heap/iterator.tcc", "include/dart/buffer/iterator.tcc", "include/dart/packet/iterator.tcc", "include/dart/common.h", "include/dart/object.tcc", "include/dart/array.tcc"],
  [("ll_iterator / dn_iterator and reference iterators", "include/dart/common.h, iterator.tcc")],
  ["begin/end", "rbegin/rend", "key_begin/key_end", "kvbegin/kvend", "rkvbegin", "keys", "values"])

p("P15", "Injection and projection compute exact set operations",
  "Injecting key/value pairs into an object yields an object equal to the base overlaid with the pairs, and projecting a list of keys yields exactly those base entries whose key is listed, for dynamic and finalized objects alike; the base is unchanged and finalized results are well-formed finalized packets. A key that is not a string or is too long, or (when building a finalized object) the same key twice in one list of pairs, is rejected with an exception.",
  ["inputs"], "for every base object, every list of pairs or keys (empty, duplicate, missing, overlapping, more than the base holds, unsorted) in any representation",
  "Tests inject and project a handful of keys; the in-place merge of finalized key tables depends on the key sets' interleaving and on size estimates.",
  ["include/dart/object.tcc", "include/dart/buffer/object.tcc", "include/dart/heap/object.tcc", "include/dart/packet/object.tcc"],
  [("finalized merge/project constructors", "include/dart/object.tcc"), ("buffer size computation", "include/dart/buffer/object.tcc")],
  ["inject", "project", "is_valid", "value of the result"])

p("P16", "STL conversions round-trip and compare faithfully",
  "Converting any supported native value (arithmetic, strings, vectors, arrays, lists, deques, sets, maps, multimaps, tuples, pairs, optionals, variants, time points and nestings of them) to a packet yields the packet denoting it, comparison with it is true exactly for that value, and converting back yields the original; a packet of the wrong shape is rejected with a type error rather than misread. Values are within the range of the target type, time points are kept to the second, and conversion to bool is truthiness.",
  ["inputs"], "for every value of every supported type (and nestings), copied or moved, into heap, buffer-backed and packet types",
  "Tests convert one value per type.",
  ["include/dart/conversions.h", "include/dart/conversion_traits.h"],
  [("conversion_traits specialisations", "include/dart/conversions.h, conversion_traits.h")],
  ["convert::cast", "packet constructors", "as<T>", "operator=="])

p("P17", "The C interface does exactly what the C++ interface does",
  "Every sequence of C calls (construction, insertion with copy or take semantics, assignment, removal, access, iteration, comparison, JSON, finalization, lifecycle) has exactly the effect the same sequence has through the C++ interface, for packets, heaps and buffers and for both reference counters; every object initialised is destroyed exactly once and no call leaks, and packets swap between the two interfaces without changing value.",
  ["histories"], "for every sequence of C API calls with arbitrary keys, values and handles",
  "The C tests script one scenario per function; the property is a differential one over all histories.",
  ["src/generic.cc", "src/heap.cc", "src/buffer.cc", "src/helpers.h", "include/dart/abi.h", "include/dart/api_swap.h"],
  [("runtime type dispatch", "src/helpers.h"), ("entry points", "src/heap.cc, buffer.cc, generic.cc")],
  ["return values", "to_json of every handle after each call", "refcounts", "leaks"])

p("P18", "The C interface reports every failure as an error code",
  "No C call ever lets an exception escape or crashes on a wrong type, missing key, bad index, unparsable text or mismatched reference counters: it returns an error (or the documented default value), leaves every argument with its previous value or, for an output, safely destroyable, and the calling thread's error message describes the last failure. Calls that succeed report success.",
  ["inputs", "histories"], "for every entry point applied to every packet type, reference counter and malformed argument",
  "Tests check a few error returns; the matrix of entry points, types and counters is large.",
  ["src/generic.cc", "src/heap.cc", "src/buffer.cc", "src/helpers.h"],
  [("err_handler", "src/helpers.h"), ("safe_call/safe_construct dispatch", "src/helpers.h")],
  ["dart_err_t results", "dart_get_error", "state of the arguments afterwards"])

p("P19", "Support types behave as their standard counterparts",
  "On toolchains without them, the library's own string view, optional and variant types behave observably like the C++17 standard types, its fixed-byte-order integers store exactly the documented byte order and act as the plain number, and its reference-counted pointers behave as shared pointers, including printing and pointers that hold null.",
  ["inputs", "histories"], "for every argument of every member function and every history of construction, assignment, swap, emplace and destruction, including throwing element types",
  "Tests cover only a few calls; wrong results for particular arguments (e.g. searches at the edges) stay unnoticed.",
  ["include/dart/support/string_view.h", "include/dart/support/string_view.tcc", "include/dart/support/optional.h", "include/dart/support/optional.tcc", "include/dart/support/variant.h", "include/dart/support/ordered.h", "include/dart/support/ordered.tcc", "include/dart/support/ptrs.h", "include/dart/support/ptrs.tcc"],
  [("shims", "include/dart/support/*")],
  ["results of each call compared with std::string_view/optional/variant/shared_ptr and plain integers", "construction/destruction balance"])

p("P20", "Operators on typed values match native arithmetic",
  "Comparison, concatenation, indexing and assignment operators on the number, flag, string, array and object wrappers give exactly the result of the same operation on the native values, and number arithmetic (including ++, -- and compound assignment) gives the double precision result, with operand order respected. Compound assignment, and assigning a native value or another packet to any handle, finalized or not, changes only the left operand. Wrapping a value of another type is rejected with a type error.",
  ["inputs"], "for every pair of operands (wrapper with native, wrapper with wrapper; integers, decimals, boundary values, strings) in every representation",
  "Tests check single sums; operand order, mixed integer/decimal cases and boundaries are many.",
  ["include/dart/operators.tcc", "include/dart/common.h"],
  [("operator overloads", "include/dart/operators.tcc")],
  ["operator results and types"])

p("P21", "A failed allocation never corrupts or leaks",
  "If a memory allocation the library makes fails at any point inside an operation, the operation either completes or throws std::bad_alloc (C interface: returns an error or the documented default, and never terminates the process); afterwards every packet involved is still usable and destroyable, packets that were only read keep their value, and nothing is leaked or freed twice.",
  ["fault_sequences"], "for every operation and every position of the failing allocation within it",
  "Tests never make an allocation fail.",
  ["include/dart/heap/object.tcc", "include/dart/heap/array.tcc", "include/dart/heap/detail.tcc", "include/dart/buffer/detail.tcc", "include/dart/support/ptrs.tcc", "include/dart/refcount_traits.h", "include/dart/connector/json.tcc", "include/dart/connector/yaml.tcc", "src/helpers.h"],
  [("RAII ownership", "all of include/dart"), ("err_handler", "src/helpers.h")],
  ["exceptions, values of all live packets, leak and double-free reports after each injected failure"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
print(len(P), "properties")
