"""Which harnesses, workloads and case counts decide each property."""
import os
CHECKS = {}
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")


def check(pid, bins, runs, rule, require=(), level="exploration", **kw):
    d = {"bins": bins, "runs": runs, "rule": rule, "require": list(require), "level": level}
    d.update(kw)
    CHECKS[pid] = d


def run(bin, name, quick, thorough, **kw):
    d = {"bin": bin, "name": name, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


check("P01", {"p01": {"src": ["p01.cc"]}},
      [run("p01", "trees", 4000, 60000), run("p01", "counters", 1200, 20000), run("p01", "shapes", 150, 2500),
       run("p01", "align", 4000, 60000), run("p01", "typed", 1200, 20000)],
      "random trees (boundary integers and doubles, strings around the small-string and 64K limits, keys of 0..65535 bytes, deep chains, wide aggregates), converted along every route and read back; distinct = distinct trees with at least two nodes",
      ["finalized", "transmogrified", "int16", "int32", "int64", "float", "double", "bigstr", "long-key", "deep", "wide", "embedded", "empty-array", "empty-object"])

check("P02", {"p02a": {"src": ["p02a.cc"]}, "p02b": {"src": ["p02b.cc"]}, "p02c": {"src": ["p02c.cc"]}},
      [run("p02a", "heap", 1500, 20000), run("p02a", "buffer", 4000, 60000), run("p02b", "packet", 3000, 40000), run("p02c", "wrappers", 2500, 40000)],
      "random objects with adversarial key sets (shared prefixes, equal lengths, tiny alphabets, non-ASCII, NUL, lengths around 255 and 65535), probed with every stored key and with near misses of it, through every lookup function of every representation; distinct = distinct (object, probed key) pairs and arrays",
      ["present", "absent", "present-long", "absent-long", "heap", "buffer", "packet-finalized", "packet-dynamic", "wrappers", "wrapper-array", "index-in", "index-out", "index-number", "nested-present", "nested-absent", "nested-deep", "probe-string", "probe-packet"])

check("P03", {"p03": {"src": ["p03.cc"]}},
      [run("p03", "genuine", 2000, 20000), run("p03", "mutated", 9000, 200000), run("p03", "drift", 6000, 120000), run("p03", "random", 5000, 100000), run("p03", "overlap", 8, 40)],
      "genuine buffers of random values and every truncation of them; field-aware and byte-level mutations, chains of accepted mutations, random bytes with plausible headers, overlapping children; accepted bytes are read through every accessor out of an allocation of exactly their length; distinct = distinct accepted byte strings",
      ["genuine", "made-by-inject", "made-by-project", "made-by-json", "truncated", "accepted", "rejected", "drifted", "random", "overlap"])

check("P04", {"p04": {"src": ["p04.cc"]}},
      [run("p04", "routes", 30000, 600000), run("p04", "json", 12000, 200000), run("p04", "merge", 16000, 300000), run("p04", "moved", 12000, 200000)],
      "random values finalized along different construction orders, histories, counters, JSON, inject and project, every allocation pre-filled with a byte that changes between routes; distinct = distinct values",
      ["routes", "unsafe", "json", "merged", "projected", "moved", "moved-offset", "finalized-members", "detour-object", "decimal", "integer"])

check("P05", {"p05": {"src": ["p05.cc"]}, "p05p": {"src": ["p05p.cc"]}, "p05u": {"src": ["p05u.cc"]}},
      [run("p05", "heap", 10000, 150000), run("p05", "uheap", 4000, 60000), run("p05p", "packet", 12000, 200000), run("p05u", "upacket", 5000, 80000)],
      "pools of up to nine handles sharing storage (copies, moves, extracted children, stored children, typed wrappers, finalized and lifted copies), 15-75 random operations, every handle's full value checked after each; distinct = distinct (value, how the handle was obtained) pairs",
      ["build", "copy", "assign", "move", "child", "insert-handle", "self-insert", "set-handle", "wrapper-object", "wrapper-array", "wrapper-string", "wrapper-number", "destroy", "swap", "resize-shared", "inject", "project", "mutate", "finalize", "lift", "finalized-copy", "finalized-refused", "heap", "packet", "unsafe-heap", "unsafe-packet"])

check("P06", {"p06": {"src": ["p06.cc"]}, "p06w": {"src": ["p06w.cc"]}},
      [run("p06", "heap", 10000, 150000), run("p06", "packet", 12000, 200000), run("p06", "unsafe", 4000, 60000), run("p06w", "wheap", 6000, 80000), run("p06w", "wpacket", 8000, 100000)],
      "random mutation histories (5-45 operations, valid and failing) in step with a reference map / vector, full value, size, returned iterators and exceptions compared after every operation; distinct = distinct (state before, state after) pairs",
      ["add_field", "insert", "set", "set-iterator", "erase", "erase-iterator", "remove_field", "clear", "chained", "nested", "failing", "push_back", "push_front", "pop_back", "pop_front", "pop-empty", "array-insert", "array-insert-iterator",
       "array-set", "array-erase", "array-erase-iterator", "resize", "reserve", "array-clear", "w-objects", "w-arrays", "heap", "packet", "unsafe", "w-array-insert", "w-resize"])

check("P07", {"p07a": {"src": ["p07a.cc"]}, "p07b": {"src": ["p07b.cc"]}, "p07c": {"src": ["p07c.cc"]}, "p07d": {"src": ["p07d.cc"]}},
      [run("p07a", "heap", 4000, 60000, leak=True), run("p07a", "uheap", 2000, 30000, leak=True), run("p07a", "buffer", 3000, 50000, leak=True),
       run("p07b", "packet", 5000, 80000, leak=True), run("p07b", "skinny", 3000, 50000, leak=True), run("p07c", "probe", 4000, 50000, leak=True), run("p07c", "obtuse", 2000, 30000, leak=True),
       run("p07d", "bytes", 3000, 50000, leak=True), run("p07d", "pool", 1500, 30000, leak=True), run("p07d", "errors", 1500, 20000, leak=True)],
      "ownership histories (copy, move, self-assignment, swap, extraction of members, iterators and bytes, insertion by copy and move, destruction) over every reference counter, refcount() of every handle, member and view compared with a model after each step; distinct = distinct (value, owners) pairs",
      ["heap", "unsafe-heap", "buffer", "unsafe-buffer", "packet", "skinny", "probe", "obtuse", "probe-blocks", "assign", "self-assign", "self-move", "move", "move-assign", "copy", "swap", "destroy", "extract", "own-member", "iterator", "insert-copy", "insert-move", "self-insert", "view", "wrap", "finalize", "lift", "member", "refused", "released", "share_bytes", "dup_bytes", "nested-bytes", "pool", "error", "parse-error"])

check("P08", {"p08": {"src": ["p08.cc"], "san": "tsan"}, "p08p": {"src": ["p08p.cc"], "san": "tsan"}, "p08s": {"src": ["p08s.cc"], "san": "tsan"},
              "p08c": {"src": ["p08c.cc"], "repo_src": ["heap.cc", "buffer.cc", "generic.cc"], "san": "tsan"}},
      [run("p08", "heap", 3000, 60000), run("p08", "last", 3000, 60000), run("p08p", "packet", 3000, 60000), run("p08s", "sheap", 1500, 30000),
       run("p08s", "spacket", 1500, 30000), run("p08s", "slast", 2000, 40000), run("p08c", "capi", 3000, 60000)],
      "2 to 5 threads started together on handles that share storage, random operations with random delays; distinct = distinct interleavings (order in which threads started their operations)",
      ["interleaved-cases", "switches", "heap", "packet", "skinny-heap", "skinny-packet", "last-shared", "last-skinny", "capi", "copy", "copy-shared", "read-shared", "child", "destroy", "mutate", "serialise", "finalize", "lift", "lower", "buffer-read", "buffer-lift", "view", "iterate", "compare", "error", "c-copy", "c-mutate", "c-finalize", "c-iterate"], parallel=2)

P09W = [("valid", 3000, 50000), ("mutated", 9000, 200000), ("soup", 9000, 200000), ("numbers", 6000, 100000), ("strings", 6000, 100000), ("dense", 2500, 40000), ("truncated", 250, 4000), ("huge", 80, 600), ("special", 60, 60)]
check("P09", {"p09a": {"src": ["p09.cc"], "flags": ["-DF0=0"]}, "p09b": {"src": ["p09.cc"], "flags": ["-DF0=1"]}, "p09c": {"src": ["p09.cc"], "flags": ["-DF0=2"]}},
      [run(b, w, int(q * k * 4), int(t * k * 4), leak=True) for b, k in (("p09a", 1), ("p09b", 0.6), ("p09c", 0.6)) for w, q, t in P09W],
      "valid texts in random spellings, mutations and truncations of them, token soup, number and string spellings, the densest documents, oversized keys and deep nesting; every text parsed under one of eight flag sets by heap, buffer and packet and judged by an independent reader; distinct = distinct (text, flags)",
      ["flags-default", "flags-comments", "flags-commas", "flags-nan", "flags-permissive", "flags-pair", "unsafe", "accepted", "rejected", "array-root", "scalar-root", "longkey", "truncated", "mutated", "soup", "numbers", "strings", "dense", "deep"])

check("P10", {"p10": {"src": ["p10.cc"]}, "p10u": {"src": ["p10.cc"], "flags": ["-DUNSAFE"]}},
      [run("p10", "trees", 5000, 80000), run("p10", "bytes", 2500, 40000), run("p10", "scalars", 6000, 100000), run("p10u", "unsafe", 2500, 40000), run("p10u", "wrappers", 5000, 80000)],
      "random values printed by heap, buffer, packet, views, wrappers and streams with both write modes; each text read by an independent reader, compared bit for bit with the value and textually across representations; distinct = distinct values",
      ["trees", "raw-bytes", "scalars", "unsafe", "wrapper", "streamed", "refused", "parsed-back", "parsed-back-nan"])

check("P11", {"p11": {"src": ["p11.cc"]}},
      [run("p11", w, q, t, leak=True) for w, q, t in (("known", 25000, 400000), ("mutated", 30000, 500000), ("soup", 45000, 800000), ("scalars", 30000, 500000), ("truncated", 1200, 20000), ("json", 15000, 200000), ("big", 200, 2000))],
      "generated documents in block and flow style with known values, JSON texts read as YAML, mutations and truncations of them, token soup and scalar spellings, judged by an independent builder over the event stream; distinct = distinct texts",
      ["known", "mutated", "soup", "scalars", "truncated", "json", "deep", "long-string", "accepted", "rejected", "array-root", "alias", "complex-key", "naked-scalar", "longkey", "unsafe"])

check("P12", {"p12": {"src": ["p12.cc"]}, "p12u": {"src": ["p12.cc"], "flags": ["-DOTHER=Unsafe"]}, "p12w": {"src": ["p12w.cc"]}},
      [run("p12", "pairs", 25000, 300000), run("p12", "shared", 8000, 90000), run("p12u", "pairs", 25000, 300000), run("p12u", "shared", 8000, 90000), run("p12w", "wrappers", 40000, 400000), run("p12w", "native", 60000, 600000), run("p12w", "special", 400, 4000)],
      "pairs of equal, minimally different and unrelated values in eight representations each, over two reference counters, compared in both orders with == and !=; wrappers and native values likewise; distinct = distinct pairs of values",
      ["pairs", "shared", "equal", "unequal", "wrapper", "wrapper-pair", "native", "special"])

check("P13", {**{"p13" + "abc"[i]: {"src": ["p13.cc"], "flags": ["-DPART=%d" % i]} for i in range(3)}, **{"p13" + "xyz"[i]: {"src": ["p13.cc"], "flags": ["-DPART=%d" % i, "-DUNSAFE"]} for i in (0, 2)}},
      [run("p13a", "heap", 6000, 200000), run("p13b", "buffer", 4000, 120000), run("p13c", "packet", 8000, 250000), run("p13c", "cross", 4000, 80000), run("p13x", "heap", 2000, 60000), run("p13z", "packet", 3000, 90000)],
      "values of each of the seven types in eight representations, every typed accessor, cast, wrapper and mutator applied to each; the outcome (value, default or which exception) compared with the type's table and the value re-read after each refusal; distinct = distinct (value, representation) pairs",
      ["null", "bool", "int", "dec", "str", "arr", "obj", "heap", "buffer", "packet", "finalized", "dynamic", "cross", "wrapped", "refused"])

check("P14", {**{"p14" + "abc"[i]: {"src": ["p14.cc"], "flags": ["-DPART=%d" % i]} for i in range(3)}, "p14z": {"src": ["p14.cc"], "flags": ["-DPART=2", "-DUNSAFE"]}},
      [run("p14a", "heap", 4000, 80000), run("p14b", "buffer", 3000, 60000), run("p14c", "packet", 4000, 80000), run("p14z", "packet", 1500, 30000)],
      "random aggregates (adversarial key sets, empty, wide) in eight representations and as wrappers, walked along every iteration route, randomly back and forth, from found positions, while copies change and after the handle is gone; the visited sequence compared with the reference order; distinct = distinct (value, representation) pairs",
      ["object", "array", "empty", "wide", "heap", "heap-view", "buffer", "buffer-view", "packet", "packet-view", "finalized", "finalized-view", "lifted", "wrapper", "walks", "steps", "disturbed", "orphaned"])

check("P15", {"p15a": {"src": ["p15.cc"], "flags": ["-DPART=0"]}, "p15b": {"src": ["p15.cc"], "flags": ["-DPART=1"]}, "p15u": {"src": ["p15.cc"], "flags": ["-DPART=0", "-DUNSAFE"]}},
      [run("p15a", "heap", 40000, 700000), run("p15a", "buffer", 60000, 1000000), run("p15a", "packet", 60000, 1000000), run("p15u", "buffer", 20000, 300000), run("p15u", "packet", 20000, 300000), run("p15b", "wrapper", 25000, 400000), run("p15b", "refused", 15000, 200000)],
      "random objects overlaid with and projected onto related key sets (stored, near and absent keys, replacements, repeats, empty lists, hundreds of pairs) in chains of up to four operations, through every overload; the value of result, operand and original and the validity of finalized results checked after each; distinct = distinct (start, end) pairs",
      ["heap", "buffer", "packet", "finalized", "embedded", "span-heap", "span-buffer", "span-packet", "variadic", "inject-replaces", "inject-adds", "inject-nothing", "project-strings", "project-views", "project-list", "project-all", "project-repeated", "project-missing", "project-empty", "duplicates", "well-formed", "wrapper", "refused"])

check("P16", {**{"p16" + "abcdefg"[i]: {"src": ["p16.cc"], "flags": ["-DPART=%d" % i]} for i in (0, 1, 2, 3, 4, 5, 6)}, **{"p16" + "xyz"[i - 3]: {"src": ["p16.cc"], "flags": ["-DPART=%d" % i], "std": "c++17"} for i in (3, 4, 5)}},
      [run("p16" + c, "trip", 3000, 60000) for c in "abcdefgxyz"],
      "random values of about fifty native types and nestings of them turned into packets in eight representations, compared with the packet and with related ones, and read back; distinct = distinct (native value, packet value) pairs",
      ["bool", "int8", "uint64", "float", "string", "vector<int>", "array<int,3>", "deque<double>", "forward_list<int64>", "set<int>", "unordered_set<string>", "multiset<int>", "unordered_multiset<int64>", "map<int>", "unordered_map<double>", "multimap<int>", "map<optional<int>>",
       "pair", "tuple", "optional<int>", "variant", "variant-order", "time", "integral_constant", "point", "wrapped", "span", "equal", "unequal", "cast", "refused"])

C_SRC = ["heap.cc", "buffer.cc", "generic.cc"]
C_PUTS = [h + c + v + k for h in ("", "heap_") for c in ("obj_", "arr_") for v in ("insert_", "set_") for k in ("int", "dcm", "bool", "null", "str") + (("heap", "take_heap") if h else ("dart", "take_dart"))]
C_GETS = ["int_get", "int_get_err", "dcm_get", "dcm_get_err", "bool_get", "bool_get_err", "str_get", "size", "obj_get", "arr_get", "obj_has_key", "to_json", "from_json", "heap_from_json", "buffer_from_json", "get_bytes", "dup_bytes", "obj_clear", "arr_clear", "obj_erase", "arr_erase", "arr_resize", "arr_reserve", "iterator_init", "iterator_init_key"]
check("P17", {"p17": {"src": ["p17.cc"], "repo_src": C_SRC, "opt": "-O0"}},
      [run("p17", "history", 4000, 90000, leak=True)],
      "random histories of C calls over a pool of heaps, buffers and packets with both counters, each call also made on a C++ object of the same kind; after each call the result, value, reference counts and error text are compared; distinct = distinct (value, kind, counter, last call)",
      C_PUTS + C_GETS + ["fail " + n for n in C_GETS] + ["dart_" + h + t + "init" for h in ("", "heap_") for t in ("", "obj_", "arr_", "int_", "dcm_", "bool_", "null_", "str_")] + ["dart_buffer_init", "obj_init_va", "arr_init_va",
       "copy-generic", "copy-typed", "move-generic", "move-typed", "destroy", "equal", "unequal", "types", "taken", "mixed counters refused", "lower", "lift", "to_heap", "to_buffer", "heap_lower", "buffer_lift", "from_bytes", "take_bytes", "from_bytes-buffer", "take_bytes-buffer",
       "iterator_get", "iterator_copy", "iterator_move", "iterator_next", "past the end", "for_each", "for_each_key", "for_each empty", "for_each items", "for_each refused", "swap to C", "swap to C++"])
check("P18", {"p18": {"src": ["p18.cc"], "repo_src": C_SRC, "opt": "-O0"}},
      [run("p18", "hostile", 3500, 80000, leak=True), run("p18", "threads", 250, 5000)],
      "the machine of P17 aimed at wrong types, keys, indices, texts, counters and handles, alone and on several threads",
      ["fail " + n for n in C_PUTS + C_GETS] + ["mixed counters refused", "bad format", "nonsense", "past the end", "for_each refused", "failed", "succeeded", "thread histories", "fail heap_lower", "fail to_buffer"])

check("P19", {"p19s": {"src": ["p19s.cc"], "std": "c++17"}, "p19p": {"src": ["p19p.cc"]}, "p19t": {"src": ["p19p.cc"], "san": "tsan"}},
      [run("p19s", "views", 1500, 30000), run("p19s", "optionals", 800, 20000), run("p19s", "variants", 800, 20000),
       run("p19p", "numbers", 800, 20000), run("p19p", "pointers", 2500, 60000), run("p19t", "shared", 60, 1500)],
      "the same random operations on the library's type and on its standard counterpart, results, contents, exceptions, element lifetimes and destruction order compared; distinct = distinct states",
      ["relational", "substr", "out_of_range", "starts/ends_with", "find_last_not_of", "print", "threw", "valueless", "variant swap", "variant visit two", "variant get", "move assign", "value of nothing",
       "ordered +=", "ordered -=", "ordered *=", "ordered /=", "ordered bitwise", "ordered basics", "counter taken out", "hierarchies", "arrays", "counter views", "pointer copy assign", "pointer order", "threads"])
check("P20", {"p20": {"src": ["p20.cc"]}, "p20u": {"src": ["p20.cc"], "flags": ["-DUNSAFE"]}},
      [run("p20", "numbers", 3000, 60000), run("p20", "strings", 2500, 50000), run("p20", "others", 2500, 50000), run("p20", "assigning", 5000, 90000), run("p20u", "assigning", 1500, 30000), run("p20u", "numbers", 800, 15000), run("p20u", "strings", 800, 15000), run("p20u", "others", 800, 15000)],
      "random values as typed wrappers in eight representations, every operator applied with operands of every native type and compared with the native operator, the operands, copies and enclosing packets read again afterwards; distinct = distinct values",
      ["number read", "number +=", "number -=", "number *=", "number /=", "number =", "++n", "--n", "n++", "n--", "arithmetic", "number compare", "number convert", "string read", "string +", "+= itself", "+= part of itself", "+= wrapper", "= part of itself",
       "flag read", "flag write", "null", "object []", "array []", "print", "wrapped", "refused", "assign int64", "assign string", "assign nullptr", "assign vector", "assign map", "assign heap", "assign buffer", "assign finalized", "assign flag"])
INJ = {"src": ["p21.cc", "p21_inject.cc"], "flags": ["-Dposix_memalign=vt_posix_memalign"]}
def inj(*flags, **kw):
    return {"src": ["p21.cc", "p21_inject.cc"], "flags": ["-Dposix_memalign=vt_posix_memalign"] + list(flags), **kw}
check("P21", {"p21a": inj("-DPART=0"), "p21u": inj("-DPART=0", "-DUNSAFE"), "p21b": inj("-DPART=1"),
               "p21c": {"src": ["p21c.cc", "p21_inject.cc"], "repo_src": C_SRC, "repo_flags": ["-include", os.path.join(HARNESS, "p21_malloc.h")], "flags": ["-Dposix_memalign=vt_posix_memalign"], "opt": "-O0"}},
      [run("p21b", "texts", 1500, 20000, leak=True), run("p21b", "natives", 1500, 20000, leak=True), run("p21b", "pointers", 1500, 20000, leak=True), run("p21c", "capi", 5000, 100000, leak=True)] +
      [run("p21" + x, n, q if x == "a" else q // 3, t, leak=True) for x in "au" for n, q, t in (("changing", 1500, 20000), ("reading", 1500, 20000), ("converting", 1500, 20000))],
      "every operation run once without a failure and then once for each of its allocations with that one (and sometimes every later one) failing: operator new, posix_memalign and the C sources' own malloc; at most 24 of them where there are more; distinct = distinct (operation, allocation, number of them)",
      ["injected", "aligned failure", "new failure", "malloc failure", "threw", "survived", "retried", "refused", "pointer threw", "add_field", "heap add_field", "insert", "set", "erase", "push_back", "array insert", "array set", "resize", "reserve", "assign string",
       "get", "get_or", "values", "keys", "iterators", "compare", "wrappers", "get_nested", "copies", "finalize", "definalize", "lower", "lift", "inject", "project", "buffer inject", "buffer project", "make_object", "make_array", "make_string", "dup_bytes", "from bytes", "packet take bytes",
       "heap from buffer", "buffer from heap", "heap from_json", "buffer from_json", "packet from_json finalized", "from_json refused", "to_json", "from_yaml", "from_yaml refused", "print", "from vector", "from map", "from tuple", "as vector", "as map", "compare native", "assign native",
       "shared_ptr", "shareable unsafe_ptr", "unsafe_ptr", "skinny_ptr", "heap_obj_insert_str", "obj_insert_take", "finalized refused", "wrong type refused", "obj_get_err", "copy_err", "to_heap", "obj_init_va", "va refused", "heap_from_json", "json refused", "heap_to_json", "from_bytes", "take_bytes",
       "iterate", "iterate copy", "iterator get", "for_each"], level="fault_enumeration")
