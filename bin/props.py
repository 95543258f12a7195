"""Configuration of every check: sources, build flavours, case counts, rules."""

GCC, CLANG = "/usr/bin/g++-14", "/usr/bin/clang++-18"
AVX = ["-mavx2", "-mfma"]

# salt: flavours explore different cases
FLAVORS = {
    # assertions on, AddressSanitizer, AVX2
    "asan": dict(cxx=CLANG, flags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"] + AVX,
                 asan=True, salt=1, cost=3),
    # assertions on, AddressSanitizer, no AVX2
    "asan_scalar": dict(cxx=CLANG, flags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
                        asan=True, salt=2, cost=3),
    # as released: optimised, no assertions, AVX2
    "rel": dict(cxx=GCC, flags=["-O3", "-DNDEBUG"] + AVX, salt=3, cost=3),
    # optimised, no assertions, no AVX2
    "rel_scalar": dict(cxx=GCC, flags=["-O2", "-DNDEBUG"], salt=4, cost=2),
    # assertions on, no sanitizer, no AVX2
    "dbg_scalar": dict(cxx=GCC, flags=["-O1", "-D_GLIBCXX_ASSERTIONS"], salt=5, cost=2),
    # as released, with the optional allocator statistics
    "rel_stats": dict(cxx=GCC, flags=["-O2", "-DNDEBUG", "-DALLOCATOR_STATS"] + AVX, salt=7, cost=3),
    # data races, AVX2
    "tsan": dict(cxx=CLANG, flags=["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"] + AVX, asan=True, salt=8, cost=3),
    # every basic block counted
    "steps": dict(cxx=CLANG, flags=["-O1", "-DNDEBUG", "-DSTEPS", "-fsanitize-coverage=trace-pc"] + AVX, salt=9, cost=3),
    # undefined-behaviour sanitizer, AVX2
    "ubsan": dict(cxx=CLANG, flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined",
                                    "-fno-sanitize=vptr,function"] + AVX, salt=6, cost=4),
}

TREE_RULE = ("A case is a generated list of tree operations (phases of growth and shrinkage, several key "
             "distributions, bulk runs, range and iterator erases) over one of the tree instantiations; oracle std::map. "
             "Non-trivial: the tree grew beyond one leaf and erases removed elements (with the counting allocator: an "
             "erase released a node, i.e. a merge happened, or elements were erased); distinct by behaviour hash of "
             "sizes and operations.")
ALL = [0, 1, 2, 3, 4, 5]
WRAP = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise"]
MULTI_RULE = ("A case is a generated history of creations (default, range, initializer list), copies, moves, assignments "
              "(self included), swaps, destructions, insertions and erasures over five trees; oracle one std::map per tree plus "
              "references and iterators that must follow their elements. Non-trivial: at least one transfer, one copy and a "
              "tree of more than one leaf; distinct by behaviour hash.")

POOL_RULE = ("A case is a generated history of allocations (sizes and alignments from a small generated palette), frees in various "
             "orders, allocate/free cycles, impossible requests, handle copies and re-creations over a pool or an allocator on top of "
             "it, on simulated memory with guard pages; every live block is filled with a pattern.")
POOL_CASES = dict(quick=dict(asan=50000, rel=300000), thorough=dict(asan=400000, rel=3000000, dbg_scalar=400000, ubsan=300000))

PROPS = {
    "C01": dict(src="tree.cpp", parts=ALL + [6], defs=["-DASPECTS=1"],
                cases=dict(quick=dict(asan=40000, rel=300000, dbg_scalar=100000),
                           thorough=dict(asan=1000000, rel=8000000, dbg_scalar=2000000, ubsan=500000, rel_scalar=2000000)),
                rule=TREE_RULE),
    "C02": dict(src="tree.cpp", parts=ALL + [6], defs=["-DASPECTS=2"],
                cases=dict(quick=dict(asan=30000, rel=200000, dbg_scalar=80000),
                           thorough=dict(asan=700000, rel=5000000, dbg_scalar=1500000, ubsan=400000)),
                rule=TREE_RULE),
    "C03": dict(src="tree.cpp", parts=ALL + [6], defs=["-DASPECTS=4"],
                cases=dict(quick=dict(asan=8000, rel=70000, dbg_scalar=25000),
                           thorough=dict(asan=700000, rel=5000000, dbg_scalar=1500000, ubsan=400000)),
                rule=TREE_RULE),
    "C04": dict(src="tree.cpp", parts=ALL + [6], defs=["-DASPECTS=8"],
                cases=dict(quick=dict(asan=30000, rel=200000, dbg_scalar=80000),
                           thorough=dict(asan=700000, rel=5000000, dbg_scalar=1500000, ubsan=400000)),
                rule=TREE_RULE),

    "C11": dict(src="dmap.cpp", parts=[0, 1, 2, 3],
                cases=dict(quick=dict(asan=60000, rel=400000, dbg_scalar=150000),
                           thorough=dict(asan=2000000, rel=12000000, dbg_scalar=4000000, ubsan=1000000)),
                rule="A case is a generated list of array-map operations (fill-ups to capacity, drains, mixed calls) over one of the "
                     "array-map instantiations; oracle std::map plus the capacity. Non-trivial: the map reached its capacity "
                     "and elements were erased; distinct by behaviour hash of sizes and operations."),
    "C12": dict(src="dsplit.cpp", parts=[0, 1, 2],
                cases=dict(quick=dict(asan=300000, rel=2500000, dbg_scalar=800000),
                           thorough=dict(asan=6000000, rel=45000000, dbg_scalar=12000000, ubsan=3000000)),
                rule="A case is a generated list of splits, prefix and suffix transfers (legal and illegal) between two array "
                     "maps of different capacities, mixed with insertions and erasures; oracle two plain vectors. Non-trivial: "
                     "at least one element was moved from one map to the other; distinct by behaviour hash of sizes and operations."),

    "C05": dict(src="flavour.cpp", parts=[0, 1, 2, 3],
                cases=dict(quick=dict(asan=60000, rel=400000, dbg_scalar=150000),
                           thorough=dict(asan=2000000, rel=12000000, dbg_scalar=4000000, ubsan=1000000)),
                rule="A case is a generated list of insertions of every flavour with fresh arguments, rvalue tokens and references into "
                     "the same container; values are instrumented objects. Non-trivial: at least one aliased call inserted a new "
                     "element and at least one call met a present key; distinct by behaviour hash of sizes and operations."),

    "C10": dict(src="search.cpp", parts=list(range(11)),
                cases=dict(quick=dict(asan=150000, rel=1500000, rel_scalar=400000),
                           thorough=dict(asan=3000000, rel=30000000, rel_scalar=8000000, ubsan=2000000)),
                technique="differential property-based testing: three search modes x two instruction sets against std::lower_bound on generated sorted runs",
                rule="A case is a set of keys, a set of left-over keys occupying the slots beyond the last element, and probes, drawn from "
                     "six distributions (small, raw bits, extremes, neighbours, single-bit differences, sign boundary / specials), for one of "
                     "162 (key type, order, capacity) instantiations; every key, its neighbours and the extremes are probed in all three "
                     "modes. Non-trivial: at least two distinct keys; distinct by the stored bit patterns."),
    "C13": dict(src="diter.cpp", parts=[0, 1, 2],
                cases=dict(quick=dict(asan=80000, rel=800000, dbg_scalar=200000),
                           thorough=dict(asan=1000000, rel=10000000, dbg_scalar=3000000, ubsan=500000)),
                technique="property-based testing of algebraic iterator laws over all pairs of positions of generated maps",
                rule="A case is a generated list of insertions, erasures, checks of all iterator laws over pairs of positions, writes "
                     "through iterators, and copies/moves between two maps; oracle plain vectors and index arithmetic. Non-trivial: at "
                     "least four pairs of positions checked and a value written through an iterator; distinct by behaviour hash."),
    "C20": dict(src="cmpid.cpp", parts=ALL, probes=["probe_noeq.cpp"],
                cases=dict(quick=dict(asan=25000, rel=140000, dbg_scalar=40000),
                           thorough=dict(asan=700000, rel=5000000, dbg_scalar=1500000, ubsan=400000)),
                rule="A case is a generated list of tree or array-map operations over a key type whose comparator has equivalence "
                     "classes of several members and whose operator== is erratic, constant, finer or unrelated; oracle std::map with "
                     "the same comparator, including which representative is kept. Non-trivial: several leaves and erased elements "
                     "(trees), capacity reached and elements erased (maps); distinct by behaviour hash."),
    "C09": dict(src="shape.cpp", parts=[0, 1, 2],
                cases=dict(quick=dict(asan=12000, rel=130000, dbg_scalar=30000, steps=25000),
                           thorough=dict(asan=300000, rel=4000000, dbg_scalar=800000, steps=1000000)),
                technique="stateful property-based testing with structural invariants and comparison-count bounds on adversarial erase histories",
                rule="A case is a generated history (bulk fills, periodic, draining and churning erases aimed at the observed leaf "
                     "boundaries, range erases) over one of the tree instantiations with a node-ledger allocator and a counting "
                     "comparator; oracle: fill and node-count arithmetic and comparison bounds. Non-trivial: more than two leaves' "
                     "worth of elements and some operation released a node; distinct by history of sizes and node counts."),
    "C06": dict(src="multi.cpp", parts=[0, 1, 2, 3], defs=["-DWHAT=6"], link=WRAP,
                cases=dict(quick=dict(asan=25000, rel=300000, dbg_scalar=60000),
                           thorough=dict(asan=300000, rel=2500000, dbg_scalar=800000, ubsan=200000)),
                rule=MULTI_RULE),
    "C07": dict(src="multi.cpp", parts=[0, 1, 2, 3, 4], defs=["-DWHAT=7"], link=WRAP,
                cases=dict(quick=dict(asan=25000, rel=300000, dbg_scalar=60000),
                           thorough=dict(asan=300000, rel=2500000, dbg_scalar=800000, ubsan=200000)),
                rule=MULTI_RULE + " For C07 keys and values are instrumented objects whose constructions and destructions are "
                     "matched in a ledger (also single-tree and array-map histories)."),
    "C08": dict(src="multi.cpp", parts=[0, 1, 2, 3, 4], defs=["-DWHAT=8"], link=WRAP,
                cases=dict(quick=dict(asan=25000, rel=300000, dbg_scalar=60000),
                           thorough=dict(asan=300000, rel=2500000, dbg_scalar=800000, ubsan=200000)),
                rule=MULTI_RULE + " For C08 allocators are arenas with every combination of propagation traits, ended while other "
                     "trees live on, and the library's pools on simulated memory with use-after-unmap detection."),

    "C14": dict(src="pools.cpp", as_gb=500, parts=[0, 1], defs=["-DWHAT=14"], link=WRAP, cases=POOL_CASES,
                rule=POOL_RULE + " Non-trivial: a freed block was handed out again and the pool grew; distinct by behaviour hash."),
    "C15": dict(src="pools.cpp", as_gb=500, parts=[0, 1], defs=["-DWHAT=15"], link=WRAP, cases=POOL_CASES,
                rule=POOL_RULE + " After every call all counters are compared with a model that counts calls and mappings. "
                     "Non-trivial: a freed block was handed out again and the pool grew; distinct by behaviour hash."),
    "C16": dict(src="pools.cpp", as_gb=500, parts=[0, 1], defs=["-DWHAT=16"], link=WRAP, cases=POOL_CASES,
                rule=POOL_RULE + " The size-class function is also evaluated on generated sizes and runs of sizes against an "
                     "independent statement of the documented rounding. Non-trivial: a freed block was handed out again and a "
                     "sub-pool grew (histories), at least two sizes (size-class cases); distinct by behaviour hash."),
    "C18": dict(src="pools.cpp", as_gb=500, parts=[0, 1], defs=["-DWHAT=18"], link=WRAP, cases=POOL_CASES,
                technique="stateful property-based testing with injected refusal patterns of mmap/madvise and of the heap, simulated memory and mapping ledger",
                rule=POOL_RULE + " A fault plan decides each hugepage and ordinary mapping. Non-trivial: a request was refused, or the "
                     "pool grew while hugepages were refused; distinct by behaviour hash."),

    "C17": dict(src="policy.cpp", parts=[0, 1, 2, 3], link=WRAP,
                cases=dict(quick=dict(asan=25000, rel=250000), thorough=dict(asan=500000, rel=5000000, dbg_scalar=800000, ubsan=300000)),
                rule="A case is a generated history over six trees of three types and directly allocated blocks, all drawing from three "
                     "pools through six overlapping policies; oracle: a twin of each tree with its own counting allocator predicts every "
                     "pool's counters, std::map predicts contents, and the mapping an address lies in identifies its pool. Non-trivial: "
                     "two trees of more than a leaf at once and a copy, move or swap; distinct by behaviour hash."),

    "C19": dict(src="fault.cpp", parts=[0, 1, 2, 3, 4], link=WRAP,
                cases=dict(quick=dict(asan=40000, rel=350000), thorough=dict(asan=500000, rel=5000000, dbg_scalar=800000, ubsan=300000)),
                technique="stateful property-based testing with exhaustive failure-point injection per operation",
                rule="A case is a generated history over two containers; every operation is attempted with its k-th failure point (node "
                     "memory, key/value copy, value construction, per the case's mask) throwing, k = 0, 1, 2, ... (or sampled, or "
                     "repeated), until it gets through; after each failure contents, lookups and the object ledger are compared with "
                     "the model. Non-trivial: failed insertions in a container of more than one leaf (map: nearly full); distinct by "
                     "behaviour hash."),

    "C21": dict(src="defaults.cpp", parts=[0, 1, 2, 3],
                cases=dict(quick=dict(asan=15000, rel=120000), thorough=dict(asan=300000, rel=3000000, ubsan=200000)),
                technique="property-based testing of the default node sizes over generated pairs of type sizes against an independent formula, and model-based histories on default trees",
                rule="A case is either a random sample of (key type, value type) pairs from a table of 7,960 instantiations and 180 key "
                     "types, compared with an independently written nearest-multiple rule and pairwise for monotonicity, or a generated "
                     "tree history (oracle std::map) on a tree with default sizes. Non-trivial: a sample with a size strictly inside its "
                     "bounds, or a tree of several leaves with erased elements; distinct by sampled pairs or behaviour hash."),
    "C22": dict(script=["python3-vt", "/verif/bin/script_check.py"], cases=dict(quick={}, thorough={}),
                technique="property-based testing (hypothesis) of the benchmark script on a stand-in benchmark with generated results and faults, against an independent recomputation",
                rule="A case is a generated set of configuration names, options and per-run benchmark outputs, with one failing, killed, "
                     "truncated, noisy or incomplete run in a quarter of the cases; oracle: statistics, rankings and exports recomputed from "
                     "the raw runs, and the log of invocations. Non-trivial: at least two configurations and runs were made; distinct by case."),
    "C27": dict(script=["python3-vt", "/verif/bin/hook_check.py"], cases=dict(quick={}, thorough={}),
                technique="property-based testing (hypothesis) of the commit hook in scratch repositories with stand-in tools, against a model of what the commit may contain",
                rule="A case is a set of files with contents in HEAD, in the index and in the working tree (added, changed, removed, renamed, partly "
                     "staged, oddly named), a way of committing and a subset of the tools; oracle: a model of the resulting commit, index and "
                     "working tree. Non-trivial: a C++ file is staged with contents of its own; distinct by case."),
    "C23": dict(src="stdc.cpp", parts=[0, 1, 2, 3, 4], link=WRAP,
                cases=dict(quick=dict(asan=60000, rel=500000), thorough=dict(asan=400000, rel=4000000, dbg_scalar=800000, ubsan=300000)),
                technique="differential property-based testing of standard containers: library allocators against std::allocator",
                rule="A case is a generated history over four containers of one type (maps, sets, multi-variants, lists, hash containers, "
                     "vectors, deques, strings) drawing from two pools: growth, removal, copy, move, swap (with and without explicit "
                     "allocators), splice, merge, extract; oracle: the same container with std::allocator. Non-trivial: at least two "
                     "transfers and more than eight elements; distinct by behaviour hash."),
    "C24": dict(src="stress.cpp", tool=True, link=["-Wl,--wrap=main"],
                cases=dict(quick=dict(asan=3000, rel=20000), thorough=dict(asan=100000, rel=800000, ubsan=100000)),
                technique="property-based testing with fault injection: the stress program run on generated options over a correct stand-in tree and over one broken in a generated way",
                rule="A case is a set of options of the stress program and a fault (lost insertion or removal, changed value, stray "
                     "removal or insertion, failing or misdirected lookup, repeated element) striking a stand-in tree at a generated "
                     "modification; oracle: the rounds the options ask for, the tree's intended contents kept beside its actual ones, and a "
                     "re-run from the announced seed. Non-trivial: a fault struck a run with batches; distinct by operations, fault and "
                     "moment."),
    "C25": dict(src="bench.cpp", tool=True, link=["-Wl,--wrap=main", "-Wl,--wrap=nanosleep"],
                cases=dict(quick=dict(asan=3000, rel_stats=20000), thorough=dict(asan=100000, rel_stats=800000, rel=300000, ubsan=100000)),
                technique="property-based testing: the benchmark program run on generated options over recording containers and a simulated cycle counter",
                rule="A case is a list of configuration names and options of the benchmark program; every container is a recording stand-in "
                     "that knows its own type and every operation advances a simulated cycle counter by a known amount; oracle: the "
                     "workload the options describe and totals and percentiles recomputed from the recorded costs. Non-trivial: at least "
                     "one batch on more than one key was run and reported; distinct by operations and output form."),
    "C26": dict(src="threads.cpp", parts=[0, 1, 2], link=["-pthread"], tries=8,
                cases=dict(quick=dict(tsan=6000, rel=20000), thorough=dict(tsan=150000, rel=600000, rel_scalar=200000)),
                technique="stateful property-based testing with concurrent phases under ThreadSanitizer and as released, against std::map",
                rule="A case is a generated history on one container with phases in which two to four threads read it, assign distinct "
                     "elements or copy it, or a history run by each thread on a container and pool of its own; oracle: std::map in "
                     "every thread, and no pair of unsynchronised conflicting accesses (happens-before race detection). Non-trivial: "
                     "the container was larger than a leaf; distinct by sizes and phases."),
    "C28": dict(src="algos.cpp", parts=[0, 1, 2, 3],
                cases=dict(quick=dict(asan=60000, rel=600000), thorough=dict(asan=500000, rel=8000000, rel_scalar=500000, ubsan=300000)),
                technique="differential property-based testing: standard algorithms over the containers against the same algorithms over a sorted vector",
                rule="A case is a history on two containers interleaved with groups of standard algorithms, adaptors and range constructors over "
                     "random subranges, const and not; oracle: the same algorithm over the sorted vector of pairs. Non-trivial: an "
                     "algorithm ran over more elements than two leaves hold (array maps: more than two); distinct by sizes and groups."),
}
