#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they stay readable)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=observe, hook_needed=hook)))

HT="amtl/am-hashtable.h"; HM="amtl/am-hashmap.h"; HS="amtl/am-hashset.h"
p("C01","Hash containers are an exact finite map/set under every history",
  "After a successful init, for every sequence of lookups, insertions, removals, clears, density checks and moves on HashTable, HashMap and HashSet, under any hash distribution (all keys colliding included), a lookup finds a key exactly when it was added and not since removed, and yields the value last stored for it (HashSet::add() of a key that is present leaves the element as it is). elements() equals the number of such keys and iteration visits each live entry exactly once, also while entries are erased through the iterator. Every operation terminates.",
  ["inputs","histories"],"all operation histories, key sets, hash functions and initial capacities",
  "test-hashmap.cpp runs two histories of at most two keys in one table of 16 slots; it never grows, shrinks, wraps around the end of the table, fills it with tombstones, or iterates over more than one entry.",
  [HT,HM,HS],[("open addressing, linear probing, tombstones",HT+": lookup, lookupForAdd, insertUnique"),("density-driven rehash",HT+": internalAdd, checkDensity, changeCapacity")],
  ["return values of find/findForAdd/add/has/elements and the iterator"],
  [("removed/free markers in the stored hash","a slot's tombstone or free state","HashTableEntry")])
p("C02","Hash containers construct and destroy each stored payload exactly once",
  "For every history of operations on HashTable, HashMap and HashSet, each stored payload is a properly constructed object that is destroyed exactly once, no later than its removal, and never used after that; growth, shrinking and moving a container preserve the payloads' values, and work for move-only types. When a container is destroyed, no payload and no block of its allocator is left over, and a moved-from container is empty and can be destroyed or initialised again.",
  ["histories","inputs"],"all operation histories over payload types with observable lifetimes",
  "The tests store std::string and int in a table that never resizes, and count no constructor or destructor.",
  [HT,HM,HS],[("placement construction and destruction of entries",HT+": HashTableEntry"),("rehash moves live entries",HT+": changeCapacity"),("move constructor, destructor",HT)],
  ["constructor/destructor/copy/move events of tracked payloads","am_malloc/am_free events of a tracking policy"])
p("C03","Allocation failure and size overflow are reported and leave containers intact",
  "With a fallible allocation policy, whichever allocation of HashTable, HashMap, HashSet or FixedArray fails, the operation reports failure (init() or add() returns false, initialize() returns false), the contents and counts of a hash container are unchanged, and the container can be used further (a hash container by retrying, an array by assigning to it) and destroyed without crash or leak; the policy object that is used is the one the caller supplied and the one allocPolicy() exposes. A requested size or growth beyond what can be represented is reported through reportAllocationOverflow() and never under-allocated. The default policy never returns a null block: it aborts.",
  ["fault_sequences","histories","inputs"],"every allocation that can fail in every history, and every requested size",
  "runner.h defines a FallibleMalloc policy that no remaining test uses: no allocation ever fails in the suite, and no size is large.",
  [HT,HM,HS,"amtl/am-fixedarray.h","amtl/am-allocator-policies.h"],[("failure paths of createTable/changeCapacity/internalAdd/init",HT),("allocate/destruct",  "amtl/am-fixedarray.h"),("abort on failure","amtl/am-allocator-policies.h")],
  ["return values, am_malloc/am_free/report* calls seen by the policy, contents before and after the fault"])
p("C04","Hash table memory stays proportional to its population and shrinks back",
  "Under any history of additions and removals, the memory a hash container holds (as estimateMemoryUse() reports it, and as it was asked of the allocator) is at most ten times what the larger of its initial capacity and the peak number of live entries needs, however many distinct keys pass through it, and never less than its initial capacity needs. After the population falls and insertions of new, well-distributed keys continue, memory returns to at most ten times what the larger of the initial capacity and the new population needs, and to exactly what the initial capacity needs when next to nothing is left.",
  ["histories"],"all histories, in particular long churn over a small live set",
  "No test resizes a table, removes more than one key, or looks at memory use.",
  [HT],[("deleted slots counted into the load, rebuilt on resize",HT+": overloaded, underloaded, changeCapacity"),("minimum capacity",HT+": shrink, init")],
  ["estimateMemoryUse()","blocks live in a tracking allocator"])
p("C05","Hash helpers are pure functions equal to their published algorithms",
  "HashCharSequence and CharacterStreamHasher compute Jenkins' one-at-a-time hash, FastHashCharSequence the sdbm hash, HashInt32, HashInt64 and HashInteger the cited Jenkins/Wang integer mixes (as the code states them: on signed values with sign-propagating right shifts, characters being plain char), HashPointer the integer hash of the address, and HashCombine its documented mixing formula, for every input and without undefined behaviour. The result depends only on the bytes given (embedded NULs included, nothing beyond the length is read), and adding a sequence in any split into chunks or single characters gives the same result as adding it whole.",
  ["inputs"],"all byte sequences and lengths, all splits, all 32-bit and 64-bit integers",
  "FastHashCharSequence is used on three keys through HashMap; no test looks at any hash value, and the other functions are never called.",
  [HT],[("hash functions",HT+": CharacterStreamHasher ... HashCombine")],["return values","sanitizer reports"])
PQ="amtl/am-priority-queue.h"
p("C06","PriorityQueue dequeues by priority and neither loses nor duplicates items",
  "For every sequence of add, emplace, peek, pop and move, and every strict weak order given as comparator (stateful ones, and orders with many ties, included), pop removes and returns, and peek shows, an item than which no queued item has higher priority, and each item added is popped exactly once, intact, also when the item type can only be moved. empty() is true exactly when as many items were popped as added, and a move-constructed queue holds all items and the comparator of its source.",
  ["histories","inputs"],"all operation histories, sizes and comparators",
  "One test adds six ints and pops them once; ties, interleaved add and pop, deep heaps, custom comparators and move-only types are never exercised.",
  [PQ],[("sift up / sift down",PQ+": propagateUp, propagateDown")],["popped and peeked values","comparator calls","item lifetimes"])
IL="amtl/am-inlinelist.h"
p("C07","InlineList keeps order, membership and links consistent",
  "For every sequence of append, remove, erase through forward and reverse iterators, and removeFromParentList over any number of lists and nodes, in debug and release builds, walking a list forwards yields exactly its members in append order and backwards the reverse, empty() is true exactly when it has no member, and length() is their number. isInList() is true exactly for nodes that are in a list (it is unspecified in release builds once their list is destroyed), a removed node can be appended to any list again, erase returns the iterator to the following element, and no node outside the list operated on and no memory is touched.",
  ["histories","configurations"],"all operation histories over any number of lists and nodes, with and without NDEBUG",
  "The one test uses five nodes in one fixed sequence in a debug build; reverse iteration, length(), isInList() and removeFromParentList() are never called.",
  [IL],[("circular list through a sentinel",IL),("length counter",IL+": length_")],["iterator walks, length(), empty(), isInList()"])
FA="amtl/am-fixedarray.h"
p("C08","FixedArray has value semantics and leaks or double-destroys nothing",
  "A FixedArray of size n holds exactly n constructed elements with the values given (value-initialised, copied or moved from another array or a std::vector), readable and writable through every accessor and iterator, for every n including 0. Copying yields an equal independent array, moving transfers the elements and leaves the source empty, assignment (self-assignment and arrays of different sizes included) first destroys the old elements, and == holds exactly for equal sizes and elements. Every element is destroyed exactly once and all memory is returned.",
  ["inputs","histories"],"all sizes, element types with observable lifetimes, and construction/assignment histories",
  "No test instantiates FixedArray at all.",
  [FA],[("constructors, assignment operators, destruct/deallocate",FA)],["element values, constructor/destructor events, allocator events"])
FN="amtl/am-function.h"
p("C09","Function calls exactly the callable it holds, through any copies and moves",
  "After every sequence of constructions, copy and move constructions and assignments (self-assignment included), null assignments and calls, a Function is non-empty exactly when it holds a callable, and calling it invokes that callable once with the given arguments (values, references and move-only arguments alike) and returns its result. A copy is deep: it stays independent of its source, and a copy of an empty Function is empty. A moved-from Function is empty, self-assignment changes nothing, and callables of every size and alignment behave the same.",
  ["histories","inputs"],"all operation histories over callables of all sizes, alignments and signatures",
  "Tests assign four callables once each and copy and move one of them once; empty sources, self-assignment, chains of copies and heap-stored copies are not covered.",
  [FN],[("type-erased holder with clone/move/invoke",FN+": FunctionHolder"),("inline or heap storage",FN+": assign, move, destroy")],["results of calls and of operator bool"])
p("C10","Function owns its callable: no leak, double destroy, needless copy or heap use",
  "Each callable object stored in a Function is destroyed exactly once, when the Function is destroyed, reassigned or nulled, and memory for it is released. Constructing or assigning from an rvalue callable, and moving a Function, never copies the callable. Callables of up to three machine words and of at most a pointer's alignment are stored inline and use no dynamic memory, and storage is suitably aligned for every callable.",
  ["histories","inputs"],"all operation histories over callables of all sizes and alignments",
  "Lifetimes are counted for one small and one large lambda in one fixed sequence; heap use is only looked at through usingInlineStorage() for two sizes.",
  [FN],[("destroy/zap, move of inline and heap holders",FN),("inline buffer size",FN+": kMinFunctionInlineBufferSize")],["constructor/destructor/copy/move events of callables","operator new/delete calls"])
RC="amtl/am-refcounting.h"; RT="amtl/am-refcounting-threadsafe.h"
p("C11","Smart references keep an object alive exactly as long as it is referenced",
  "For every sequence of operations on RefPtr, AlreadyRefed and AdoptRef over Refcounted, VirtualRefcounted and user-defined counted objects (self-assignment, assignment from a reference held inside the object being released, and conversion between related types included), the number of references recorded on an object equals the number of smart references (plus explicit AddRefs) that hold it. The object is destroyed exactly once, by the operation that removes the last reference, and is never touched afterwards; take() and forget() hand over the reference without changing the count, and moved-from or taken-from references are null.",
  ["histories"],"all operation histories over graphs of objects",
  "One test runs a handful of straight-line cases; it never assigns over a live RefPtr, self-assigns, moves by assignment, or walks a chain of objects.",
  [RC],[("RefPtr assignment operators",RC+": RefPtr"),("AlreadyRefed hand-over",RC+": AlreadyRefed, AdoptRef"),("count and delete",RC+": Refcounted, VirtualRefcounted")],["AddRef/Release/destructor events against a model of the reference graph"])
p("C12","Threadsafe refcounts destroy exactly once, after the last reference, race-free",
  "When any number of threads concurrently copy, hand over and drop references to the same objects based on RefcountedThreadsafe, VirtualRefcountedThreadsafe or KE_IMPL_REFCOUNTING_TS, every schedule destroys each object exactly once, when its last reference is dropped and never while one is held, and without a data race. RefcountedThreadsafe::Release() returns false for exactly the call that destroyed the object. Everything a thread wrote to the object before dropping its reference is visible to the destructor.",
  ["schedules","histories"],"all interleavings of reference operations of any number of threads",
  "No test creates a second thread that touches a refcount, and no test instantiates VirtualRefcountedThreadsafe.",
  [RT,RC],[("atomic increments and decrements, delete at zero",RT+": AddRef, Release")],["AddRef/Release/destructor events per schedule","race detector reports"])
p("C13","AtomicRef is a linearizable reference cell that never yields a dead object",
  "Under every interleaving of concurrent get() and assignment (null included) on an AtomicRef, the results are those of some sequential order of the operations consistent with real time, and get() returns an owned reference to an object that is alive. The cell holds exactly one reference to its current value: replaced values are released once, and when the cell and all references are gone each object has been destroyed exactly once. Operations terminate, and there is no data race.",
  ["schedules","histories"],"all interleavings of gets and assignments of any number of threads",
  "The tests use AtomicRef from a single thread and never call get().",
  [RT],[("tag-bit spin lock around read+AddRef and replace",RT+": AtomicRef::lock, unlock, get, operator=")],["call/return events of get and assignment, object lifetimes, race detector reports"])
p("C14","Mutex excludes, and AssertCurrentThreadOwns agrees with actual ownership",
  "At most one thread holds a ke::Mutex at a time, however it was acquired (lock, try_lock, lock_guard, unique_lock, multi-lock, condition_variable_any), and waiting threads obtain it once it is released. In builds with assertions, AssertCurrentThreadOwns() passes in the thread that holds the mutex and fails in every other thread and when it is free; with NDEBUG it never fails.",
  ["schedules","configurations"],"all schedules and ways to acquire, with and without NDEBUG",
  "am-mutex.h is not included by any test.",
  ["amtl/am-mutex.h"],[("owner id kept next to std::mutex","amtl/am-mutex.h")],["critical section overlap, outcome of AssertCurrentThreadOwns in owner, non-owner and free states"])
p("C15","ThreadLocal isolates threads, including during a concurrent first use",
  "Each thread reads from a ThreadLocal exactly the value it last set itself, or a zero value if it set none, for integers, enums, bools and pointers, whatever other threads do, including when several threads use the variable for the first time at once, and when many variables are created and destroyed (a new one never shows old values). If no storage slot can be had, allocate() returns false, a set aborts (as it does if the value cannot be stored), and no other variable's slot is touched; the slot is released on destruction. With KE_SINGLE_THREADED it behaves as a plain variable.",
  ["schedules","histories","fault_sequences","configurations"],"all interleavings of first and later uses, all creation/destruction histories, exhaustion of slots",
  "The test initialises the variable in one thread before starting a second; the allocation race, exhaustion and slot reuse never occur.",
  ["amtl/am-threadlocal.h"],[("lazy one-time key creation","amtl/am-threadlocal.h: allocate, set, get")],["values read per thread, pthread_key_create/delete calls, race detector reports"])
p("C16","NewThread runs its function once with the given arguments and name",
  "NewThread starts a thread that calls the given callable exactly once, with copies of the arguments that stay valid after the caller's originals are gone (references only through std::ref), after having set the thread's name to the given one for names of up to 15 bytes; the returned thread is joinable. SetThreadName changes the name of the calling or the given thread and no other, and a name that is too long neither crashes nor keeps the function from running.",
  ["inputs","schedules"],"all callables, argument lists, names and schedules",
  "One test starts one thread with one int argument and never reads the name.",
  ["amtl/am-thread.h"],[("bind + wrapper lambda","amtl/am-thread.h: NewThread")],["calls, arguments and thread name observed inside the thread"])
p("C17","Maybe is an exact optional: values, lifetimes and alignment",
  "A Maybe is valid exactly when it was given a value (init, Some, or copied or moved from a valid one) and not since assigned an empty one or moved from, and then yields that value through every accessor. For every history of init, copy, move, assignment (self-assignment included) and destruction, each contained object is constructed and destroyed exactly once, init() constructs in place from its arguments, copies are independent, and moving a Maybe (or giving Some a temporary) never copies the value. Storage is correctly aligned for every type.",
  ["histories","inputs"],"all operation histories over contained types of all sizes and alignments",
  "Maybe is only used inside the argument parser tests, with ints and short strings; no lifetime is observed and operator-> is never used.",
  ["amtl/am-maybe.h","amtl/am-storagebuffer.h"],[("initialized flag + storage buffer","amtl/am-maybe.h: init, copyFrom, moveFrom")],["isValid/get and lifetime events of contained objects"])
p("C18","Scope helpers act exactly once, at scope exit, and restore what they saved",
  "A ScopeGuard, however often it is moved, runs its callback exactly once when the last holder leaves scope, unless cancelled, and then never. SaveAndSet sets the value at once and restores the previous one at scope exit; StackLinked objects form a chain that always names the innermost live object; ReturnAndVoid returns the old value and resets the variable; all under any nesting and order of LIFO lifetimes.",
  ["histories","inputs"],"all nestings, move chains and cancellations",
  "Tests cover one nesting of two guards and one cancellation; moves, SaveAndSet, StackLinked and ReturnAndVoid are not tested.",
  ["amtl/am-raii.h"],[("cancelled flag transferred on move","amtl/am-raii.h: ScopeGuard"),("saved old value","amtl/am-raii.h: SaveAndSet, StackLinked")],["callback invocations, values during and after each scope"])
ST="amtl/am-string.h"
p("C19","Bounded string copies never overrun, always terminate and return the length",
  "For all sources, destinations, limits and lengths, SafeStrcpy, SafeStrcpyN and SafeStrcat write at most maxlength bytes to the destination, read no source byte past its terminator or past n characters, leave a NUL-terminated result that is the longest fitting prefix of what was asked (of source, of its first n characters, of destination followed by source), and return its length. A zero limit (or null destination, for the copies) writes nothing and changes no content, and SafeStrcat leaves a destination that is at or over the limit as it is and returns its length.",
  ["inputs"],"all strings, buffer sizes (including 0 and 1), offsets and lengths",
  "Tests use one 6-byte buffer and short literals, for which an overrun of a few bytes in either direction is invisible without instrumentation.",
  [ST],[("SafeStrcpy, SafeStrcpyN, SafeStrcat loops",ST)],["buffer contents against a reference, red zones around source and destination"])
p("C20","Formatted output equals printf's, bounded and terminated",
  "For every format and argument list that vsnprintf accepts, Sprintf, SprintfArgs, StringPrintf and StringPrintfVa return exactly the text it produces at any length (embedded NUL characters included for the std::string forms), and SafeSprintf, SafeVsprintf and path::Format write the longest prefix that fits, NUL-terminated, and return its length, never writing past the limit; path::Format additionally turns every backslash into a slash and changes nothing else. If formatting fails, the result is empty and the returned length matches it.",
  ["inputs"],"all formats, arguments, result lengths and buffer sizes",
  "Tests format three short strings into large buffers and one path; truncation, exact fit, long results, embedded NULs and failures are not exercised.",
  [ST,"amtl/os/am-path.h"],[("two-pass vsnprintf",ST+": SprintfArgsImpl"),("truncation handling",ST+": SafeVsprintf"),("slash rewriting","amtl/os/am-path.h: FormatVa")],["returned text, buffers and lengths against vsnprintf"])
p("C21","Split, Join, case and prefix/suffix helpers meet their definitions",
  "For every string and non-empty separator, Join(Split(str, sep), sep) == str, no piece contains the separator starting at an earlier position than it was split, and Split of an empty string is empty; Join concatenates all pieces (embedded NULs included) with the separator, which may be empty, between them. Uppercase and Lowercase change exactly the ASCII letters of the other case; StartsWith and EndsWith are true exactly for prefixes and suffixes; StrCaseCmp orders as a case-insensitive comparison.",
  ["inputs"],"all strings and separators, overlapping and repeated separators, and lists of pieces",
  "Tests check a dozen literals with one-character separators.",
  [ST],[("strstr loop",ST+": Split"),("precomputed buffer",ST+": Join")],["returned values against reference implementations"])
BI="amtl/am-bits.h"; AR="amtl/am-arithmetic.h"
p("C22","Overflow detectors are exact: no overflow called safe, no safe one rejected",
  "For all operands, TryUint32Add, TryUint64Add and TryUint64Multiply return true exactly when the mathematical result fits, and then store it, and otherwise leave the output unchanged. The IsUint*AddSafe and IsUint*MultiplySafe functions return true exactly when the mathematical sum or product fits the type. None has undefined behaviour on any operand.",
  ["inputs"],"all pairs of 32-bit and 64-bit operands",
  "Two operand pairs of one function are tested; am-arithmetic.h is not included by any test.",
  [BI,AR],[("wrap-around and log2-based tests",BI+", "+AR)],["results against 128-bit arithmetic"])
p("C23","Bit and alignment helpers equal their mathematical definitions",
  "For every non-zero number Log2 and FindLeftmostBit32/64 give the index of the highest set bit and FindRightmostBit of the lowest, IsPowerOfTwo is true exactly for powers of two, and Align gives the least multiple of the alignment not below the count whenever that is representable. IsAligned and AlignedBase agree with the address modulo the alignment, and Set/Get/ClearPointerBits set, read and clear exactly the low bits asked for, for any number of bits below the pointer width. kMallocAlignment is a power of two that suits every scalar type and that every sufficiently large block from malloc and new has.",
  ["inputs"],"all 32-bit and 64-bit numbers, alignments, pointers and bit counts",
  "Tests check about ten values; Log2, IsPowerOfTwo, Align, IsAligned and AlignedBase are not tested directly, and no value of 2^32 or more is passed to Log2.",
  [BI],[("count-leading/trailing-zeros intrinsics and masks",BI)],["results against loop-based references"])
p("C24","Float classification and modulo are exact for every float and double",
  "For every float and double, IsNaN is true exactly for NaNs and IsInfinite exactly for the two infinities, and float_bits gives the value's IEEE bit pattern. FloatModulo(x, y) returns r with x = I*y + r exactly for an integer I, |r| < |y| and r carrying the sign of x (x itself if y is infinite, signed zero for a zero x), and NaN if either is NaN, x is infinite or y is zero.",
  ["inputs"],"all float and double bit patterns and pairs of them",
  "am-float.h is not included by any test.",
  ["amtl/am-float.h"],[("bit-pattern unions and masks","amtl/am-float.h"),("fmod","amtl/am-float.h: FloatModulo")],["results against bit-level references, exact integer arithmetic and IEEE rules"])
p("C25","Flags and enum operators are exact bit-set algebra over every underlying type",
  "For every enum with any underlying integer type (signed and unsigned, 8 to 64 bits) and all values, the Flags operators +, |, -, &, ^, ==, !=, !, bool conversion, their assignment forms, bits() and get(), and the operators of KE_DEFINE_ENUM_OPERATORS (|, &, ^, ~, !, and assignment forms) and KE_DEFINE_ENUM_COMPARATORS, equal the corresponding bitwise operation on the underlying values. Operands other than the assigned one are unchanged, and enum_integral_type names the underlying type with and without KE_ALLOW_STD_CXX.",
  ["inputs","configurations"],"all underlying types, all pairs of values, with and without KE_ALLOW_STD_CXX",
  "One test runs eight operations on one uint32_t enum with four low bits.",
  ["amtl/am-flags.h","amtl/am-enum.h"],[("operators on the underlying type","amtl/am-flags.h, amtl/am-enum.h")],["results against integer arithmetic"])
AP="amtl/experimental/am-argparser.h"
p("C26","Argument parsing follows its grammar on every command line and never crashes",
  "For every set of declared options and positionals, every combination of parser modes (inline values, slashes, extra and passthrough arguments) and every argument list, parse() terminates without crash or undefined behaviour and returns true exactly when the list is a valid command line: known options, each non-repeatable one at most once, with values present where required, absent where forbidden and valid for their type (integers in range), --no- only where allowed, all positionals present unless a stop option halted parsing, and no help request. When it returns true, every option and positional has exactly the value the command line (or else its default) gives it, and extra and passthrough arguments are exactly those given, in order.",
  ["inputs","programs","configurations"],"all option declarations, parser modes and argument lists",
  "About thirty fixed command lines with one to three options are tested; combinations of modes, malformed options such as an unknown --no-x, out-of-range integers, optional boolean values and repeated '--' are not.",
  [AP,"amtl/experimental/am-argparser.cpp"],[("parse_impl and find_* lookups",AP),("value policies",AP+": ValuePolicy")],["return value, option values, extra and passthrough arguments against a reference parser","sanitizer reports"])
p("C27","A reset parser behaves like a new one, however it is called",
  "After reset(), whatever was parsed before (successfully or not), a parser and its options give for every argument list the same result, values, extra and passthrough arguments, and error text as a newly built one; the four ways to pass arguments (argc/argv, vector of C strings, vector of strings, variadic) are equivalent, and statically registered options behave like directly added ones. Any number of parses and resets leaks no memory and uses no freed memory.",
  ["histories","inputs"],"all sequences of parses and resets, and all entry points",
  "Tests reset between a few parses of independent options in one parser, never after passthrough or extra arguments, and never look at memory.",
  [AP],[("reset and option reset",AP+": Parser::reset, Option::reset"),("parse overloads",AP)],["outcome of each parse against a fresh parser, heap balance"])
p("C28","Usage output lists every option and all help text, once and in order",
  "For every set of options, help texts, usage lines and argument vectors, usage() writes the parser's help, the usage line (program name and positionals, or the line that was set), then each positional, option and added usage line once, under their headings and in declaration order, with all words of its help text in order in a column of their own, in lines of limited width unless a single word is longer, without crash or overrun. After a failed parse it writes the usage line and the error instead, naming the option or argument at fault, unless the arguments ask for help and help is available.",
  ["programs","inputs"],"all option declarations and help texts",
  "usage() is not called by any test.",
  [AP],[("two-column layout",AP+": Parser::usage, usage_line")],["captured output parsed back"])
p("C29","Vector and deque helpers edit exactly as specified, moving and never copying",
  "For every vector or deque, position and element type, PopBack and PopFront remove and return the last or first element, RemoveAt, InsertAt and EmplaceAt change exactly the given position (inserting an element of the vector itself included), EraseIf asks its predicate once about each element, removes exactly those that match and keeps the order of the rest, and MoveExtend appends the source's elements in order and leaves the source empty. Elements are neither lost, duplicated nor left moved-from, and every helper except InsertAt by const reference works without copying, also for move-only types.",
  ["inputs","histories"],"all containers, positions, predicates and element types",
  "Tests use up to nine elements in fixed positions; MoveExtend and EmplaceAt are never called.",
  ["amtl/am-vector.h","amtl/am-deque.h"],[("thin wrappers over std containers","amtl/am-vector.h, amtl/am-deque.h")],["contents against a model, copy/move/lifetime events"])
p("C30","File tests, shared libraries and system errors report the true OS state",
  "For every path, PathExists, IsFile and IsDirectory agree with the file the path resolves to (symlinks followed, missing or unreachable paths false), and CreateDirectory makes that one directory, with the given mode as restricted by the umask, or nothing, and returns true exactly when it did. SharedLib::Open yields a null reference and a terminated, size-limited error text for a library that cannot be loaded, and otherwise a library that stays loaded exactly as long as a reference exists and whose lookup finds exactly its symbols. FormatSystemErrorCode and FormatSystemError write the system's text for the code, truncated to fit and terminated, never past the given size.",
  ["inputs","histories"],"all paths, file types, modes, libraries, symbols, error codes and buffer sizes",
  "One test opens libc once; file tests, directory creation, failures, error texts and unloading are never exercised.",
  ["amtl/os/am-fsutil-posix.h","amtl/os/am-fsutil.h","amtl/os/am-shared-library.h","amtl/os/am-system-errors.h"],[("stat/mkdir","amtl/os/am-fsutil-posix.h"),("dlopen/dlclose tied to the reference count","amtl/os/am-shared-library.h"),("strerror_r","amtl/os/am-system-errors.h")],["return values, buffers, load and unload events"])
p("C31","Time conversions are exact and formatting is complete",
  "For every timespec whose value in nanoseconds is representable, TimespecToDuration is exactly tv_sec*10^9 + tv_nsec nanoseconds and TimespecToTimePoint is that time since the clock's epoch (for coarser clocks, cut to the clock's resolution), negative times included, also in constant expressions. EpochValueToTimePoint gives the time point with exactly that tick count in its own unit. FormatTime gives the text strftime gives, at any length.",
  ["inputs"],"all timespecs, clocks, tick counts, broken-down times and formats",
  "One positive timespec is tested; FormatTime and EpochValueToTimePoint are never called.",
  ["amtl/am-time.h"],[("chrono arithmetic","amtl/am-time.h"),("put_time","amtl/am-time.h: FormatTime")],["results against 128-bit arithmetic and strftime"])
p("C32","Assertion, utility and math-compatibility helpers do what they name",
  "KE_RELEASE_ASSERT evaluates its condition exactly once and aborts exactly when it is false, with and without NDEBUG. MemsetZero zeroes exactly the object, ARRAY_LENGTH and IS_ALIGNED and KE_CRITICAL_LIKELY have the value of what they name, and cast_to_pointer round-trips integers and pointers. The compatibility symbols __pow_finite, __atan2_finite, __log_finite, __acos_finite, __asin_finite and their float forms return exactly what the C functions of the same name return for the same arguments. KE_DLL_EXPORT makes a symbol visible to the dynamic loader and KE_DLL_PRIVATE hides it, whatever the default, KE_LINKONCE definitions may be repeated across translation units, and exactly the platform, architecture and compiler macros of the running system are defined.",
  ["inputs","configurations"],"all values and both build modes",
  "None of these is exercised by a test, except KE_RELEASE_ASSERT's definition being compiled.",
  ["amtl/am-assert.h","amtl/am-utility.h","amtl/am-linking.h","amtl/am-cxx.h","amtl/am-platform.h","compat/stdcxx.cpp"],[("macros and one-line wrappers","amtl/am-assert.h, amtl/am-utility.h, amtl/am-linking.h, amtl/am-cxx.h, amtl/am-platform.h, compat/stdcxx.cpp")],["results, exit status of assertion processes, the dynamic symbol table"])
p("C36","No hidden shared state: threads apart or only reading do not disturb one another",
  "Outside the types whose purpose is to be shared, the library has no hidden state: any number of threads can at the same time use objects of their own of every kind and call the formatting, splitting, case, bounded-copy, hashing, arithmetic, time, file-system, error-text and library-loading helpers, and each gets the results it would get alone. Reading is sharing-safe too: threads that use one object only through its const or read-only operations (lookups, element counts and walks of maps, sets, lists and arrays, peeking at a queue, calls and copies of a Function, access to and copies of a Maybe or FixedArray, dereferencing a RefPtr, reading flags, parsed option values and library symbols) get what they would get alone. None of this is a data race.",
  ["schedules","inputs","programs"],"any number of threads, any operations on distinct objects, any read-only operations on a shared one",
  "Every single-threaded test passes with a static scratch buffer or a cache written on lookup; the tests start no two threads that use the same helper.",
  ["amtl/am-string.h","amtl/am-hashtable.h","amtl/am-function.h","amtl/am-time.h","amtl/os","amtl/experimental/am-argparser.h"],[("no static or mutable state behind helpers and const operations","amtl/*.h, amtl/os/*.h, amtl/experimental/am-argparser.*")],["memory accesses of concurrent threads, results against the same operations alone"])
p("C33","Every public header stands alone in every supported build configuration",
  "Each public header, included first and twice in a translation unit, compiles without other includes, and all its templates and macros can be instantiated as documented, with GCC and Clang, in C++14 (am-time.h: C++17) and later, with and without NDEBUG, KE_ALLOW_STD_CXX and KE_SINGLE_THREADED.",
  ["configurations","programs"],"all supported compilers, language levels and macro settings",
  "The tests are one build configuration and include each header after others; templates that no test uses are never instantiated.",
  ["amtl"],[("include guards and self-sufficient includes","amtl/*.h")],["compiler diagnostics"])
p("C34","The restyler rewrites formatting only",
  "For every C++ input, the restyler tool changes only formatting, so that its output parses to the same program, and rewriting its own output changes nothing.",
  ["inputs","programs"],"all C++ inputs",
  "tools/restyler is not built or run by any test; it has one input/output pair that nothing runs.",
  ["tools/restyler/amstyler.cpp"],[("token edits on a clang AST","tools/restyler/amstyler.cpp")],["output text"])
p("C35","The Windows and macOS branches keep the guarantees of the others",
  "The code that is compiled only on Windows (x64, x86, ARM64) or macOS, given system calls that behave as their vendors document, keeps the guarantees stated for the rest: bit scans, float classification and modulo, formatted and bounded text, case-insensitive comparison and the compatibility macros give the same results (path::Format writes backslashes on Windows); thread-local values and their slots, file tests and directory creation, libraries and their symbols behave alike; error texts are the system's where they fit and always bounded and terminated. A thread gets its name wherever the system can give it one (macOS only to the calling thread), no other thread's name changes, and no name, whatever its bytes, crashes or loses a module reference.",
  ["configurations","inputs"],"all supported platforms, all inputs and outcomes of the system's calls",
  "Tests run on one platform; the other branches are not even compiled.",
  ["amtl/os/am-fsutil-windows.h","amtl/os/am-shared-library.h","amtl/os/am-system-errors.h","amtl/am-threadlocal.h","amtl/am-thread.h","amtl/am-bits.h","amtl/am-float.h","amtl/am-string.h"],[("#if defined(KE_WINDOWS), KE_MACOSX and _MSC_VER branches","amtl")],["results, and the calls made to stand-ins of the systems' functions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
print(len(P), "properties")
