"""What each check builds and runs, and the MANIFEST generated from it."""
import json, os

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g", "-Wno-deprecated-declarations"]
CONFIGS = {
    # A: debug build (assertions on), gcc, libstdc++ assertions
    "A": dict(cxx="g++", flags=["-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"] + SAN),
    # B: release build, clang
    "B": dict(cxx="clang++", flags=["-std=c++17", "-O2", "-DNDEBUG"] + SAN),
    # thorough only: other language levels and optimisation levels
    "A14": dict(cxx="g++", flags=["-std=c++14", "-O2"] + SAN),
    "A20": dict(cxx="g++", flags=["-std=c++20", "-O3", "-DNDEBUG"] + SAN),
    "B20": dict(cxx="clang++", flags=["-std=c++20", "-O0", "-D_GLIBCXX_DEBUG"] + SAN),
    # data race detectors
    "T": dict(cxx="clang++", flags=["-std=c++17", "-O1", "-g", "-Wno-deprecated-declarations", "-fsanitize=thread"]),
    "TR": dict(cxx="g++", flags=["-std=c++17", "-O2", "-DNDEBUG", "-g", "-Wno-deprecated-declarations", "-fsanitize=thread", "-Wno-tsan"]),
    # S: clang's thread-sanitizer instrumentation over our own scheduler (harness/vmsched.cpp)
    "S": dict(cxx="clang++", flags=["-std=c++17", "-O1", "-g", "-Wno-deprecated-declarations", "-fsanitize=thread", "-DVM_SCHED"],
              extra_src=["vmsched.cpp"], extra_flags=["-std=c++17", "-O2", "-g"], linkflags=["-g", "-rdynamic"]),
    "SR": dict(cxx="clang++", flags=["-std=c++17", "-O2", "-DNDEBUG", "-g", "-Wno-deprecated-declarations", "-fsanitize=thread", "-DVM_SCHED"],
               extra_src=["vmsched.cpp"], extra_flags=["-std=c++17", "-O2", "-g"], linkflags=["-g", "-rdynamic"]),
    # plain, for valgrind: uses of values that were never set, which the sanitizers do not see
    "V": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g", "-DVM_MEMCHECK", "-Wno-deprecated-declarations"]),
}


VALGRIND = ["valgrind", "-q", "--leak-check=no", "--error-exitcode=9", "--num-callers=20", "--fair-sched=try"]


def jobs(src, names="AB", thorough=("A14", "A20", "B20"), mc=0, **kw):
    """mc: memcheck runs 8 of this many shards, that is, a sample of the cases"""
    out = [dict(name=n, config=n, src=src, **kw) for n in names]
    if mc:
        kv = {k: v for k, v in kw.items() if k != "flags"}
        kv["flags"] = [f for f in kw.get("flags", []) if not f.startswith("-f")]
        kv.update(cpu=400, wall=600)
        out.append(dict(name="V", config="V", src=src, prefix=VALGRIND, memcheck=True, shards=mc, run_shards=8, **kv))
    out += [dict(name=n, config=n, src=src, thorough_only=True, **kw) for n in thorough]
    return out


CHECKS = {}


def check(id, jobs, rule, floors=None, level="exploration", technique="", note="", assumptions=(), exhaustive=None):
    # A third of what a check of this kind is meant to see: seeds and dropped configurations vary it.
    if any(j.get("memcheck") for j in jobs):
        note += " A sample of the cases also runs under valgrind's memcheck (uses of unset values)."
    CHECKS[id] = dict(jobs=jobs, rule=rule, floors={k: max(1, v // 3) for k, v in (floors or {}).items()}, level=level, technique=technique, note=note,
                      assumptions=list(assumptions), exhaustive_note=exhaustive)


SAN_NOTE = "ASan/UBSan (gcc debug and clang release builds) and per-case heap balance watch every execution. "

check("C01", jobs("c01_hash_model.cpp", mc=240),
      "A case is one random or enumerated history on one container, compared with std::map after every step; it is non-trivial if the table changed capacity (or, in the enumerated and churn scenarios, always). Distinct: by operation/key signature.",
      floors={"lookups": 50000, "adds": 20000, "removes": 5000, "capacity_changes": 500, "full_iterations": 2000, "moves": 200, "iterator_erasures": 200, "churned_keys": 10000},
      technique="model-based online monitor (std::map) over randomized and enumerated histories under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories with nine hash distributions, adversarial ones included; not a proof. Trusts std::map and the harness.",
      assumptions=["init() is called once per container, with a power-of-two capacity, before use", "the caller's hash and match functions agree with each other", "results are not used past mutating operations, as the header demands"])


check("C02", jobs("c02_hash_lifetimes.cpp", mc=160),
      "A case is one history over lifetime-tracked payloads (copyable, move-only, 16-aligned, 200-byte, std types); after every step the number of live payload objects must equal entries x objects per entry. Non-trivial if the table changed capacity. Distinct: by operation/key signature.",
      floors={"adds": 20000, "removes": 4000, "capacity_changes": 500, "moves": 150, "moved_from_reused": 50, "grow_shrink_capacity_changes": 200},
      technique="object-lifetime monitor (tracked payloads, allocator ledger) over random histories under ASan+UBSan",
      note=SAN_NOTE + "Exploration; lifetimes are exact per executed step, histories are sampled.",
      assumptions=["payload constructors do not throw", "payload alignment is at most that of the allocator's blocks"])

check("C04", jobs("c04_hash_memory.cpp", mc=160),
      "A case is one history (random, churn, decline or tides) with memory compared to its bound after every step. Churn, decline and tide cases are non-trivial; random ones are if the table changed capacity. Distinct: by parameters and memory reached.",
      floors={"churned_keys": 100000, "churn_capacity_changes": 500, "declines": 60, "declines_that_shrank": 30, "floors_reached": 20, "tides": 300},
      technique="online memory-bound monitor (allocator ledger and estimateMemoryUse) over churn workloads",
      note=SAN_NOTE + "Exploration of long sampled churns; shrinking is checked for well-distributed hashes only, as stated.",
      assumptions=["as C01"])


check("C03", jobs("c03_alloc_failure.cpp", mc=160, cpu=60),
      "A case takes a recorded history and repeats it once per allocation it makes, failing that allocation (alone, then retried; or with all later ones), or requests one size between 2^4 and 2^64, or runs an aborting call in a child. All cases are non-trivial. Distinct: by parameters and allocation count.",
      floors={"faults_injected": 2000, "failed_adds": 1000, "retries": 300, "failed_inits": 300, "overflow_reports": 200, "array_alloc_failures": 500, "array_assign_failures": 300, "array_overflows": 500, "abort_children": 60, "huge_payload_cases": 8, "policy_identity_cases": 100},
      level="fault_enumeration",
      technique="fault injection through allocation policies (every allocation of a history in turn) with model and ledger monitors",
      note=SAN_NOTE + "Every allocation of each sampled history (the first 12, thorough 64) is failed in turn; the histories themselves are sampled.",
      assumptions=["after a failed init() or initialize() the caller does not use the container as if it were initialised"])

check("C08", jobs("c08_fixedarray.cpp", mc=160),
      "A case is a history of constructions, assignments, moves, comparisons and writes over four arrays of one element type, all compared with std::vector models after every step. All are non-trivial. Distinct: by operations, operands and sizes.",
      floors={"verifications": 50000, "self_assignments": 500, "self_moves": 300, "comparisons_equal": 500, "comparisons_unequal": 500, "default_policy_cases": 100, "element_equalities": 50000},
      technique="model-based online monitor with element-lifetime tracking under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories.",
      assumptions=["element constructors do not throw", "the state after self-move is only required to be consistent"])


check("C05", jobs("c05_hash_functions.cpp", mc=160),
      "A case hashes sequences (random, all of up to two bytes, long) or integers (random bit lengths, all a+-b of powers of two, 16-bit sweeps) and compares each result with an independent implementation; all are non-trivial. Distinct: by input hash.",
      floors={"sequences": 10000, "two_byte_sequences": 100000, "integers": 4000000},
      technique="differential monitor against independent reference implementations, exact-size heap buffers under ASan, UBSan for the arithmetic",
      note=SAN_NOTE + "Exhaustive for sequences of up to two bytes and (thorough) for HashInt32; sampled elsewhere.",
      exhaustive="all byte sequences of length 0..2; thorough tier: HashInt32 on all 2^32 inputs",
      assumptions=["characters are plain char (signed here), as in the published C code; HashInt32's right shifts propagate the sign"])

check("C06", jobs("c06_priority_queue.cpp", mc=160),
      "A case is a history of add/emplace/peek/pop/move over one queue, every popped and peeked item compared with a rank model, and every comparator call checked to see only live items. Random cases are non-trivial if at least four items were queued at once; enumerated ones always.",
      floors={"adds": 200000, "pops": 200000, "ties_popped": 20000, "moves": 500, "deep_items": 100000, "comparator_cases": 300},
      technique="model-based online monitor with instrumented comparators and item lifetimes under ASan+UBSan",
      note=SAN_NOTE + "Exploration; enumerates all add orders of up to 7 items (thorough 8) and all 3-level sequences of 8.",
      exhaustive="all orders of 7 distinct items (thorough 8), all 3^8 tie patterns, all 2^12 (thorough 2^16) add/pop patterns",
      assumptions=["the comparator is a strict weak order"])

check("C07", jobs("c07_inline_list.cpp", mc=160),
      "A case is a history over three lists and up to 14 nodes (node base at non-zero offset), every list walked in both directions after every step; or one enumerated removal order x means. All are non-trivial.",
      floors={"verifications": 200000, "appends": 50000, "removes": 5000, "parent_removals": 5000, "erasures": 20000, "erase_loops": 5000, "list_destructions": 1000},
      technique="model-based online monitor (both-direction walks) in assert and NDEBUG builds under ASan+UBSan",
      note=SAN_NOTE + "Exploration; removal orders of lists up to four nodes are enumerated by every means of removal.",
      exhaustive="all removal orders of lists of 1..4 nodes by all combinations of four means of removal",
      assumptions=["nodes live as long as the list they are in", "nodes of a destroyed list are not asked isInList() in release builds"])


check("C22", jobs("c22_overflow.cpp", mc=320),
      "A case checks one operand (boundary or small) against all boundary or small operands, or 400 random pairs, with 128-bit arithmetic as reference. All are non-trivial. Distinct: by operands.",
      floors={"add32": 1000000, "add64": 1000000, "mul32": 1000000, "mul64": 1000000, "add32_overflow": 100000, "add64_overflow": 100000, "mul32_overflow": 100000, "mul64_overflow": 100000, "byte_pairs": 65536},
      technique="differential runtime monitor against 128-bit arithmetic over boundary cross products and random operands, UBSan",
      note="UBSan in gcc and clang builds. All pairs of values within 2 of a power of two (or its negation) and the exact limits for each, plus random pairs; not a proof over all 2^128 pairs.",
      exhaustive="all pairs of 8-bit operands of the templates; all pairs of boundary values +-2^i+d, |d|<=2",
      assumptions=[])

# Its pointers point nowhere: arithmetic on them within one allocation or to null is no defect of the code.
check("C23", jobs("c23_bits.cpp", flags=["-fno-sanitize=pointer-overflow"]),
      "A case checks all helpers on one two-bit or run-of-ones pattern and its neighbours, 20 random numbers, a block of consecutive numbers, or one alignment; each number with all 64 alignments and all 64 bit counts. All are non-trivial. Distinct: by numbers.",
      floors={"blocks": 4000, "numbers": 400000, "numbers_over_32_bits": 100000, "aligned": 500000, "alignments": 1000000, "pointer_bits": 1000000},
      technique="differential runtime monitor against bit loops and 128-bit arithmetic, UBSan",
      note="UBSan in gcc and clang builds. All numbers of up to two set bits, their neighbours and complements, all 16-bit windows at byte offsets (thorough: all 32-bit numbers), random others.",
      exhaustive="all two-bit patterns and runs of ones +-1; thorough tier: all 2^32 32-bit numbers for the bit scans",
      assumptions=["alignments are powers of two, and Align is asked only for representable results"])


check("C24", jobs("c24_float.cpp"),
      "A case checks one special value against all special values, 300 random pairs, one exponent with chosen mantissas, or (thorough) 2^20 consecutive floats. All are non-trivial. Distinct: by bit patterns.",
      floors={"classified": 500000, "nans": 1500, "modulos": 1000000, "modulos_nan": 25000},
      technique="differential runtime monitor: bit-level classification and exact integer remainder as reference, UBSan",
      note="UBSan in gcc and clang builds. The remainder is compared bit for bit with exact integer arithmetic; values are sampled (classification is exhaustive for float in the thorough tier).",
      exhaustive="thorough tier: classification of all 2^32 floats",
      assumptions=["default floating-point environment, no -ffast-math"])

check("C25", jobs("c25_flags.cpp", mc=160) + [dict(name=n + "std", config=n, src="c25_flags.cpp", flags=["-DKE_ALLOW_STD_CXX"]) for n in "AB"],
      "A case checks every operator of Flags and of the macros on all pairs of one value with a set of others, over eleven underlying types. All are non-trivial. Distinct: by values.",
      floors={"enum_pairs": 1000000, "flag_pairs": 2000000, "comparisons": 500000},
      technique="differential runtime monitor against integer arithmetic on the underlying values, UBSan",
      note="UBSan in gcc and clang builds, with and without KE_ALLOW_STD_CXX. Exhaustive for 8-bit underlying types; sampled for wider ones.",
      exhaustive="all pairs of 8-bit values on every underlying type",
      assumptions=[])


check("C09", jobs("c09_function.cpp", mc=80),
      "A case is a random history over five Functions and twelve kinds of callables (each call compared with a model of which callable is held in which state), one pair of kinds with one operation, one chain of Functions, or the signatures. All are non-trivial. Distinct: by operations.",
      floors={"calls": 100000, "verifications": 100000, "self_assignments": 500, "empty_copies": 1000, "copies": 10000, "moves": 10000, "chain_assignments": 500},
      technique="model-based online monitor over random and pairwise-enumerated histories under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories; all pairs of callable kinds under eight operations are enumerated.",
      exhaustive="all pairs of 12 kinds of contents under 8 operations",
      assumptions=["self-move may leave the Function unchanged or empty", "callables are copy-constructible, with a const call operator, and do not throw"])

check("C10", jobs("c09_function.cpp", mc=80, flags=["-DOWNERSHIP"]),
      "As C09, with every construction, copy, move, destruction and allocation of callables counted. All are non-trivial. Distinct: by operations.",
      floors={"verifications": 100000, "copy_free_operations": 20000, "allocation_free_operations": 20000, "self_assignments": 500},
      technique="object-lifetime, copy and allocation monitor over random and pairwise-enumerated histories under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories; all pairs of callable kinds under eight operations are enumerated.",
      exhaustive="all pairs of 12 kinds of contents under 8 operations",
      assumptions=["callables of stricter alignment than a pointer may be stored on the heap", "callables aligned to more than 16 bytes are only used from C++17 on"])


check("C17", jobs("c17_maybe.cpp", mc=80),
      "A case is a random history over four Maybes of one of thirteen types, validity, values, accessors, alignment and the number of live objects verified after every step. All are non-trivial. Distinct: by operations and operands.",
      floors={"verifications": 100000, "self_assignments": 1000, "self_moves": 1000, "in_place_constructions": 1000},
      technique="model-based online monitor with object lifetimes and alignment checks under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories.",
      assumptions=["init() is not given a reference to the value it replaces", "self-move may keep or drop the value", "constructors do not throw"])


check("C18", jobs("c18_raii.cpp", mc=80, flags=["-fno-sanitize=vptr"]),
      "A case is a random tree of nested scopes with guards (moved, cancelled, or neither), saved values, linked objects and exceptions; callbacks are checked against a stack model when they run, values and chains at every scope exit. All are non-trivial. Distinct: by kinds and depths.",
      floors={"callbacks": 20000, "guards": 20000, "moved": 3000, "cancelled": 500, "saves": 3000, "chain_walks": 20000, "exceptions": 1000, "voids": 1000},
      technique="model-based online monitor (stack model) over random scope nestings with exceptions under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled nestings.",
      assumptions=["callbacks do not throw", "lifetimes are LIFO, as StackLinked asserts"])


check("C11", jobs("c11_refptr.cpp", mc=80),
      "A case is a random history of 34 operations on five references over an acyclic graph of counted objects (four ways of counting), checked after every step against a model graph: alive set, recorded counts, targets. All are non-trivial. Distinct: by operations and operands.",
      floors={"verifications": 100000, "destructions": 20000, "self_assignments": 500, "inner_assignments": 2000, "links": 2000, "conversions": 3000, "explicit_releases": 500, "chain_steps": 5000, "many_references": 1000000},
      technique="model-based online monitor of the reference graph under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories; objects form acyclic graphs.",
      assumptions=["self-move may keep or drop the reference", "no cycles of references"])


check("C19", jobs("c19_bounded_strings.cpp", mc=160),
      "A case runs the three functions for one combination of lengths and limits (all small ones are enumerated, with every n) on exact-size heap blocks with canaries, and compares content, termination and result with the definition. All are non-trivial. Distinct: by lengths and limits.",
      floors={"strcpy": 2000, "strcpy_truncated": 500, "strcpyn": 10000, "strcpyn_beyond_terminator": 2000, "strcpyn_unterminated_source": 1000, "strcpyn_zero": 300, "strcat": 2000, "strcat_truncated": 500, "strcat_full": 500},
      technique="reference-model monitor on exact-size buffers: ASan red zones plus canaries",
      note=SAN_NOTE + "All lengths and limits below 13 (and all n below 15) are enumerated with random bytes; larger ones sampled.",
      exhaustive="all (length, limit, n) below 13, 13, 15",
      assumptions=["source and destination do not overlap", "SafeStrcat's destination is terminated; if it is not shorter than the limit its content stays as it is"])

check("C20", jobs("c20_format.cpp", mc=240),
      "A case formats one random format with up to three arguments (or one length, or a failing format) through all eight functions and compares with snprintf, with nine buffer sizes around the result's length. All are non-trivial. Distinct: by format and length.",
      floors={"formats": 5000, "bounded": 80000, "bounded_truncated": 40000, "bounded_exact_fit": 8000, "long_results": 200, "embedded_nuls": 300, "failures": 60},
      technique="differential monitor against the C library's snprintf on exact-size buffers: ASan red zones plus canaries",
      note=SAN_NOTE + "Sampled formats and arguments; all result lengths below 600 with limits around them.",
      assumptions=["the C library's snprintf is right", "formats and arguments are valid for printf"])

check("C21", jobs("c21_strings.cpp", mc=160),
      "A case checks one string with many separators, prefixes, suffixes or case variants against reference definitions. All are non-trivial. Distinct: by strings.",
      floors={"splits": 10000, "splits_many": 3000, "joins": 1800, "case_checks": 50000, "fix_checks": 200000, "prefixes": 20000, "suffixes": 20000},
      technique="differential monitor against reference definitions, exact-size strings under ASan+UBSan",
      note=SAN_NOTE + "All strings over two letters up to length 7 (thorough 11) with all separators up to length 4, all character pairs; others sampled.",
      exhaustive="strings over {a,b} up to length 7 (thorough 11) x separators up to length 4; all pairs of characters",
      assumptions=["the C locale"])


AP = ["$REPO/amtl/experimental/am-argparser.cpp"]
check("C26", jobs("c26_argparser.cpp", mc=240, extra=AP),
      "A case builds one random parser and gives fresh copies of it 20 random command lines (or builds one option and gives all lists of tokens), and compares result, values, extra and passthrough arguments with an independent reference parser. All are non-trivial. Distinct: by parser and command lines.",
      floors={"parses": 300000, "accepted": 60000, "accepted_with_extra": 3000, "accepted_with_passthrough": 2000, "rejected": 60000, "rejected_help": 1000, "rejected_no_prefix": 1000, "rejected_unknown": 5000, "rejected_repeated": 1000, "rejected_missing_positional": 1000, "rejected_missing_value": 500, "rejected_bad_value": 5000, "rejected_extra": 1000, "rejected_flag_value": 1000, "integers": 10000, "enumerated_parsers": 288},
      technique="differential monitor against an independent reference parser, exact-size strings under ASan+UBSan",
      note=SAN_NOTE + "Sampled parsers and command lines; for each kind of option, all lists of up to two (thorough three) of 27 tokens in all combinations of modes.",
      exhaustive="for each kind of option x 16 mode combinations x positional or not: all lists of up to 2 (thorough 3) tokens out of 27",
      assumptions=["option names are distinct and contain neither '=' nor ':'", "integers are as strtol reads them (leading blanks and a sign allowed), in the range of int", "an argument that follows an option which needs a value is its value, whatever it looks like"])

check("C27", jobs("c27_reset.cpp", mc=160, extra=AP) + [dict(name=n + "static", config=n, src="c27_reset.cpp", flags=["-DSTATIC"], extra=AP) for n in "AB"],
      "A case is a history of parses and resets on one random parser (with and without statically registered options), each parse compared with a new parser and the reference parser: result, values, extra and passthrough arguments, and usage output. All are non-trivial. Distinct: by parser and command lines.",
      floors={"parses": 40000, "failed_parses": 10000, "successes_after_failures": 5000, "with_passthrough": 1000, "with_extra": 2000, "reset_states": 10000, "four_way_lists": 20000, "accumulation_rounds": 5000},
      technique="differential monitor (reset parser against new twin and reference parser) with heap accounting under ASan+UBSan",
      note=SAN_NOTE + "Exploration of sampled histories.",
      assumptions=["reset() is called between parses", "options outlive their parser's use"])


check("C28", jobs("c28_usage.cpp", mc=160, extra=AP),
      "A case builds one random parser (or one combination of name and word widths), and checks the text of usage() before and after parses, word for word, against the declared options. All are non-trivial. Distinct: by output.",
      floors={"full_usages": 20000, "entries": 50000, "lines": 100000, "long_lines": 500, "error_usages": 2000, "errors_with_help_request": 200, "help_request_without_help": 100, "usage_lines_set": 2000, "odd_vectors": 100},
      technique="output monitor: usage text re-parsed word by word against the declared options, under ASan+UBSan",
      note=SAN_NOTE + "Sampled parsers; all name widths up to 45 with words up to 60 columns.",
      exhaustive="name widths 1..45 in three forms x first word 1..60 (thorough: x second word 1..60)",
      assumptions=["help texts are given (not null) and separate their words by blanks", "lines are limited to 80 columns"])


check("C29", jobs("c29_vector.cpp", mc=160) + [dict(name="AV", config="A", src="c29_bools.cpp", optional=True)],
      "A case is a random history of helper calls on vectors or deques of one element type, each compared with a model and with copies counted, or all sizes x positions for one type. All are non-trivial. Distinct: by operations and positions.",
      floors={"verifications": 300000, "copy_free": 100000, "inserted": 20000, "removed": 10000, "popped": 10000, "emplaced": 10000, "erase_ifs": 10000, "extended": 10000, "deque_pops": 50000, "insert_own_element": 4000, "custom_allocators": 5000, "positions": 5000, "may_throw": 1500},
      technique="model-based online monitor with copy counters and element lifetimes under ASan+UBSan",
      note=SAN_NOTE + "Sampled histories; all sizes below 10 with all positions are enumerated.",
      exhaustive="vectors of up to 9 elements: every helper at every position, with and without spare capacity; every own element inserted at every position (up to 8)",
      assumptions=["elements have a noexcept move constructor (otherwise the standard vector copies when it grows)", "positions are valid"])

check("C31", jobs("c31_time.cpp", mc=80, thorough=("A20", "B20")),
      "A case checks 200 timespecs (boundary and random) on seven clocks, 100 epoch values on eleven time points, or one format. All are non-trivial. Distinct: by values.",
      floors={"durations": 300000, "negative_durations": 100000, "time_points": 2000000, "epoch_values": 500000, "formats": 5000, "long_formats": 500, "constants": 6},
      technique="differential monitor against 128-bit arithmetic and the C library's strftime, UBSan and ASan",
      note=SAN_NOTE + "Sampled values; all within 2000 ns of the limits and of zero.",
      exhaustive="all timespecs within 2000 ns of the least and greatest representable values, of zero and of one second",
      assumptions=["0 <= tv_nsec < 10^9", "the C locale", "formats are valid and in the global locale"])


check("C30", jobs("c30_system.cpp", mc=80),
      "A case is a random tree of all kinds of files whose every path (with odd spellings, relative, and as another user) is tested, a series of directory creations, a history of eight references to six libraries, or a range of error codes and sizes. All are non-trivial. Distinct: by paths and outcomes.",
      floors={"trees": 300, "paths": 30000, "files": 2000, "directories": 5000, "other_kinds": 1000, "missing": 5000, "created": 2000, "not_created": 3000, "opens": 5000, "failed_opens": 1000, "load_states": 100000, "lookups": 10000, "open_error_texts": 3000, "error_texts": 20000, "error_texts_cut": 3000, "unknown_errors": 2000},
      technique="monitor against the kernel's and the dynamic loader's own account (O_PATH+fstat, RTLD_NOLOAD, dlerror), under ASan+UBSan",
      note=SAN_NOTE + "Sampled trees and histories; every error code from -10 to 149 with every size below 80.",
      exhaustive="error codes -10..149 x sizes 0..79",
      assumptions=["the file system does not change during a call", "glibc's dynamic loader unloads a library when its last handle is closed"])

check("C32", jobs("c32_utility.cpp", extra=["$REPO/compat/stdcxx.cpp"], link=["-rdynamic"]),
      "A case checks assertions (false ones in a child process), all kinds of objects, 300 alignments and casts, or 300 argument pairs of the math functions. All are non-trivial. Distinct: by values.",
      floors={"held_assertions": 400, "failed_assertions": 70, "zeroed": 30, "array_lengths": 14, "alignments": 100000, "casts": 100000, "math": 200000, "linkages": 16, "platform_macros": 6},
      technique="differential runtime monitor (exit status of children, byte comparison, the C library's functions bit for bit) under ASan+UBSan",
      note=SAN_NOTE + "Sampled arguments.",
      assumptions=["default floating-point environment"])


WIN = ["-DVM_WIN", "-Wno-deprecated-declarations", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "win")]
MAC = ["-DVM_MAC", "-Wno-deprecated-declarations"]
C35_JOBS = ([dict(name="A-win-x64", config="A", src="c35_platforms.cpp", flags=WIN, optional=True),
             dict(name="B-win-x64", config="B", src="c35_platforms.cpp", flags=WIN, optional=True),
             dict(name="A-win-x86", config="A", src="c35_platforms.cpp", flags=WIN + ["-DVM_WIN_X86"], optional=True),
             dict(name="A-win-arm64", config="A", src="c35_platforms.cpp", flags=WIN + ["-DVM_WIN_ARM64"], optional=True),
             dict(name="T-win-x64", config="T", src="c35_platforms.cpp", flags=WIN, optional=True),
             dict(name="A-mac", config="A", src="c35_platforms.cpp", flags=MAC, optional=True),
             dict(name="B-mac", config="B", src="c35_platforms.cpp", flags=MAC, optional=True)])
check("C35", C35_JOBS,
      "A case drives the Windows (x64, x86, ARM64) or macOS branches of one part, on stand-ins for the system's calls, with random values, names, texts around the limit, files, libraries and refusals. All are non-trivial. Distinct: by values.",
      floors={"macro_sets": 7, "bit_scans": 1400000, "moduli": 560000, "formatted": 200000, "bounded": 200000, "error_texts": 35000, "threads": 2000, "names": 1300, "thread_local_sets": 100000, "refused_sets": 18, "paths": 55000, "directories": 13000, "opened": 10000, "open_errors": 3000},
      technique="runtime monitors over the other systems' branches, compiled here against a stand-in for their calls (documented behaviour, preconditions checked, resources ledgered), under ASan+UBSan and ThreadSanitizer",
      note=SAN_NOTE + "The stand-ins are ours: what they get wrong about Windows or macOS is not seen. Compiled with gcc and clang with the macros of MSVC, or of Apple, defined after the standard headers.",
      assumptions=["the system's calls behave as their vendors document", "32-bit Windows is tried for 32-bit values only"])


check("C36", jobs("c36_threads.cpp", names=("T", "TR"), thorough=("A",), extra=AP),
      "A case lets two to four threads do 30 random operations each (out of 25 kinds, with arguments from a shared pool) on things of their own, or read one shared object, all let go together; every result is compared with the one a thread gets alone. All are non-trivial. Distinct: by kinds and contents.",
      floors={"own_operations": 90000, "first_uses": 50, "handed_copies": 1200, "thread_groups": 1000, "reader_threads": 3900, "shared_maps": 300, "shared_sets": 200, "shared_sequences": 300, "shared_values": 400, "shared_parsers": 120},
      technique="ThreadSanitizer over concurrent use of distinct objects and concurrent reads of shared ones, results against the same operations alone",
      note="ThreadSanitizer judges every access by happens-before, so two threads need not collide for a race to be seen, only run the same code unordered. Sampled operations; the thorough tier also runs them under ASan+UBSan.",
      assumptions=["the process environment and locale are not changed meanwhile"])


SCHED_NOTE = ("Small programs of two to four threads run under our own scheduler (harness/vmsched.cpp: every instrumented access, atomic and pthread call is a switch point; "
              "random, lazy and PCT schedules; vector-clock race detection, poisoned deferred frees, deadlock detection), and as real threads under ThreadSanitizer. "
              "Interleavings are sequentially consistent; weaker orderings are judged by the happens-before detector only. ")

check("C12", jobs("c12_refcount_ts.cpp", names=("S", "SR", "T", "TR"), thorough=(), wall=40, cpu=20, mc=160),
      "A case is one random program of up to four threads taking, copying, moving and dropping references to one to three shared objects, run under many schedules (or as real threads). All are non-trivial. Distinct: by program; interleavings are counted separately by trace hash.",
      floors={"runs": 20000, "distinct_interleavings": 10000, "context_switches": 100000, "destructions": 20000, "last_drops": 500, "explicit_releases": 2000, "stress_operations": 10000, "many_references": 500000},
      technique="controlled-schedule concurrency monitor (own scheduler, happens-before race detector, object ledger) and ThreadSanitizer stress",
      note=SCHED_NOTE + "Sampled programs and schedules.",
      assumptions=["each thread only copies references it holds"])

check("C13", jobs("c13_atomicref.cpp", names=("S", "SR", "T", "TR"), thorough=(), wall=40, cpu=20, mc=160),
      "A case is one random program of gets and assignments by up to four threads on one or two AtomicRefs, run under many schedules; every history is checked for linearizability against a register, and every object for its references. All are non-trivial. Distinct: by program; interleavings are counted separately.",
      floors={"runs": 20000, "distinct_interleavings": 10000, "context_switches": 100000, "gets": 20000, "assignments": 20000, "histories_linearized": 10000, "history_events": 50000, "addresses_reused": 100},
      technique="linearizability checker over recorded histories, under controlled schedules with a happens-before race detector, and ThreadSanitizer stress",
      note=SCHED_NOTE + "Sampled programs and schedules; the linearizability checker is exact on each history.",
      assumptions=["the AtomicRef outlives the operations on it"])

check("C14", jobs("c14_mutex.cpp", names=("S", "SR", "T", "TR"), thorough=(), wall=40, cpu=20, mc=160),
      "A case is one random program of critical sections (lock, try_lock, waits, guards) by up to four threads, run under many schedules with exclusion and ownership checked at every step. All are non-trivial. Distinct: by program; interleavings are counted separately.",
      floors={"runs": 20000, "distinct_interleavings": 10000, "context_switches": 100000, "critical_sections": 50000, "refusals": 1000, "waits": 500, "answers": 1000, "owner_checks": 1000, "non_owner_checks": 1000, "release_checks": 1000},
      technique="mutual-exclusion and ownership monitor under controlled schedules with a happens-before race detector, and ThreadSanitizer stress",
      note=SCHED_NOTE + "Sampled programs and schedules.",
      assumptions=["the mutex is locked and unlocked through ke::Mutex itself (a std::unique_lock<std::mutex> on it bypasses the ownership record)"])

check("C15", jobs("c15_threadlocal.cpp", names=("S", "SR", "T", "TR", "A", "B"), thorough=(), wall=40, cpu=20, mc=160) +
      [dict(name=n + "single", config=n, src="c15_threadlocal.cpp", flags=["-DKE_SINGLE_THREADED"], link=[]) for n in "AB"],
      "A case is one random program of reads and writes of up to three ThreadLocals by up to four threads, run under many schedules; every read is compared with the thread's own last write, and every key call is kept in a ledger with injected failures. All are non-trivial. Distinct: by program; interleavings are counted separately.",
      floors={"runs": 10000, "distinct_interleavings": 5000, "context_switches": 50000, "reads": 50000, "variables": 5000, "generations": 500, "refused_allocations": 500, "slots_exhausted": 2, "variables_in_turn": 2000, "plain_variables": 100},
      technique="per-thread model monitor and key ledger with injected key exhaustion under controlled schedules with a happens-before race detector, ThreadSanitizer and ASan",
      note=SCHED_NOTE + "Sampled programs and schedules; the KE_SINGLE_THREADED variant is checked as a plain variable.",
      assumptions=["the ThreadLocal is constructed before and destroyed after all uses"])

check("C16", jobs("c16_thread.cpp", names=("S", "SR", "T", "TR", "A", "B"), thorough=(), wall=40, cpu=20, mc=160),
      "A case starts one to fifteen threads from twelve kinds of callables with random arguments and names, under many schedules, the caller destroying its originals at once. All are non-trivial. Distinct: by kinds and names; interleavings are counted separately.",
      floors={"runs": 10000, "distinct_interleavings": 8000, "context_switches": 50000, "threads": 10000, "calls": 20000, "names_checked": 15000, "long_names": 2000, "name_checks": 5000, "detached": 1000},
      technique="call and argument-lifetime monitor under controlled schedules with a happens-before race detector, ThreadSanitizer and ASan",
      note=SCHED_NOTE + "Sampled kinds, names and schedules.",
      assumptions=["names of up to 15 bytes (the kernel's limit; longer ones are ignored or cut)"])


def write_manifest(path):
    props = [json.loads(l) for l in open(os.path.join(os.path.dirname(path), "properties.jsonl"))]
    na = {
        "C33": "Whether a header compiles is decided by the compiler before anything runs; there is no execution for a monitor to observe. (The harnesses do compile every header with gcc and clang at several language levels, but that is a static check, not this technique.)",
        "C34": "tools/restyler needs the LLVM 6 LibTooling API, which is not installed; the tool cannot be built or run here.",
    }
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
             notes="Checks are C++ monitors in harness/, driven by run.py; checks.py holds the table. No hooks in /repo are needed: everything is observed through the public API, sanitizers, linker wraps and injected allocation policies.")
    for p in props:
        i = p["id"]
        if i in CHECKS:
            s = CHECKS[i]
            m["checks"].append(dict(property=i, quick_cmd="python3 run.py check %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py check %s" % i,
                                    evidence_file="evidence/%s.json" % i, technique=s["technique"], level=s["level"], level_note=s["note"]))
        else:
            m["not_applicable"].append(dict(property=i, reason=na.get(i, "No check has been built for it yet.")))
    with open(path, "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
