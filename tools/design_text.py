HEAD = r'''# Solver-based checking of mathic

Generated by tools/gendesign.py (text in tools/design_text.py; bounds from specs.py). Defects found and repaired are in
known-findings.jsonl; there is no open finding.

## 1. Method

mathic is a header-heavy C++ template library plus a small command-line/formatting library. Every property below is decided in
the same way:

1. check.py compiles a harness (/verif/harness/*.cpp, which includes /repo's headers and uses the public interface only) and the
   /repo/src/mathic/*.cpp files it needs with clang 18 to LLVM bitcode, from the current working tree, on every run. The IR is
   only cleaned up (sroa, early-cse, simplifycfg, instsimplify: no inlining, no loop transformation); nothing of /repo is rewritten or stubbed.
2. engine/msym.cpp, a path-forking symbolic executor written for this task, executes that bitcode. Keys, exponents, characters,
   numbers, choices of operation, fault positions and clock values are bit-vector variables. Memory is byte-precise: heap, stack and
   globals are objects with bounds, liveness, and per-byte initialisation; pointers are (object, offset). A branch whose condition
   depends on symbolic data is put to Z3 in both directions; feasible sides are explored by forked processes (8 at a time).
3. The property is an assertion (`vs_assert`) in the harness over the model kept there. Each is decided under the path condition:
   `unsat` of its negation means that it holds for every input that takes the path; `sat` gives a concrete input. Besides the
   harness's own assertions the engine decides, on every instruction of the real code: out-of-bounds and use-after-free access, use of
   uninitialised values in branches or addresses, double or mismatched frees, null dereference, signed overflow (in functions of
   /repo), shifts by too much, division by zero, floating-point to integer conversions out of range, uncaught exceptions,
   unreachable code, and a step limit (3 million instructions) for loops that do not end.
4. Every counterexample is replayed: the same harness is built with g++ -fsanitize=address,undefined against the real sources and
   the real libstdc++/libc/memtailor, fed the solver's values, and only what fails there too is reported as a VIOLATION (exit 1,
   replay file in /verif/replays). Uninitialised reads are replayed under valgrind, endless loops under a timeout. What does not
   reproduce is only noted. The first reproduced violation ends the run.
5. In addition a sample of explored paths (24 per unit quick, 60 thorough) is solved for inputs, and the natively built code must
   produce the same observable trace (`vs_out`); a crash or failed assertion on such a path is a violation as well. This validates
   the encoding on every run ("traces_validated_against_impl" in the evidence).
6. When the paths are exhausted within the bounds the evidence says so; anything left (time, solver unknown, unsupported instruction) is
   counted there and printed. A vacuity guard (`vs_cover`) requires that each entry point reached its end on some path; missing
   witnesses of a completed exploration are an error exit.

Decision procedures: bit-vectors in Z3 (incremental, one solver per process); queries that are pure order constraints (comparisons of
whole variables, which is what the queues and finders consist of) are rendered in integer difference logic, where they take
microseconds; queries over number formatting and times (division by constants, decimal digits, doubles) are rendered in linear integer
and real arithmetic (engine/lin.h): machine wrap-around is exact through explicit quotient variables, every floating-point operation is its
exact real value plus an error of at most half an ulp of its range (exact when the result fits the mantissa), so `unsat` carries over to the
machine; a model is accepted only after evaluating the bit-vector formula on it with IEEE arithmetic.

Why this reaches what tests cannot: the unit tests of mathic hardly query the divisor structures, never mix operations, and never remove,
retire, fail or collide. Here one path stands for all inputs with the same outcome of comparisons; all interleavings of operations, tie
patterns, configuration switches and fault positions up to the stated bounds are covered, including machine-word boundaries.

### Trusted base, and what is modelled

* the engine, clang's front end, Z3; the harnesses and their reference models;
* rt/vsrt.cpp: libmemtailor's Arena/BufferPool/ArenaVector are header code plus a small model of the out-of-line parts (chunk sizes as in the
  library); libstdc++'s out-of-line parts (list hooks, red-black tree rebalancing, exceptions, std::string instantiation) are the same algorithms, compiled
  under the engine; allocation may be made to fail at any chosen call (`vs_fail_alloc`); exceptions unwind through the real landing pads;
  dynamic_cast walks the real type information;
* engine/shim/vs_streams: iostreams are a header-only stand-in (formatted output of integers, characters, strings with width/fill/side/base/
  precision; input of integers and words as num_get does in the "C" locale). Decimal digits of a symbolic number are auxiliary variables tied to it
  by a linear equation. operator<<(double) is not modelled: C25 keeps below the quotients that reach it;
* stdio is captured, clock() is a symbolic variable. isspace etc. are the "C" locale. Native replay uses the real ones for all of these.

### What the bounds mean

`name:K=3,OPS=2` is an entry point of a harness with bounds: K arbitrary insertions, OPS operations each of any enabled kind (KINDS is a mask), N/FILL a
concrete fill before the symbolic part (so that growth, splits and rebuilds happen in the symbolic part), PAT its pattern. Histories longer than
that are outside the claim, as are allocation sizes that would need more than the address space, more than one thread (mathic has no
concurrency), and other compilers. Quick entries take 1..150 s per property on 8 cores, thorough ones up to 25 minutes; specs.py lists both.

## 2. Properties
'''
P = {
'C01': 'Reference model: set of held ids with their keys. After every operation: top() holds a maximal held key, pop() returns it, size/empty/forAll (every element once) agree; at the end everything is removed in order. Entries carry ids so that a lost, doubled or mixed-up element is seen. Heap in its fast and slow index layouts (hole movement, deduplication off), move construction and assignment, growth of the storage at its boundaries.',
'C02': 'Same model on TourTree (no size()): push, pop, decreaseTop, range push, clear; reallocation is reached around concrete fills of 8, 16 and 32; both layouts.',
'C03': 'Same model on Geobucket for each of the 16 run-time-constant switch combinations and three bucket storages (plain, pointer, insertable). Growth across buckets is reached with concrete fills; after clear() the bucket is used again.',
'C04': 'Same model on StlSet; the red-black tree of libstdc++ is executed too.',
'C05': 'Entries carry a weight; deduplicate(a, b) sums weights. Model: per key the total weight pushed minus removed. At every pop the surfaced key is maximal and the weight drawn never exceeds what is held; when the queue is empty all weight has surfaced (nothing lost, nothing doubled); with deduplication on, the number of elements never exceeds the pushes, and merged elements are really merged where documented (equal neighbours in the heap path and in bucket merges).',
'C06': 'Model: the matrix of pairs still to come with an arbitrary 32-bit order key for each (ties allowed), pair data equal to what the configuration computed for this very pair. Every top is a minimal pair, each pair surfaces once, forAll/iteration agrees. Index widths beyond 16 bits (pairs_big) reach the 32-bit column type.',
'C07': 'As C06 with retirements between operations (isRetired answered by the configuration); no retired pair surfaces and no data is computed for a pair that is retired by then (except what is already in the tree).',
'C08': 'The configuration counts constructions/destructions per pair data cell (byte-precise liveness): each constructed exactly once, destroyed exactly once, never used outside its life, also when the queue is destroyed half-way.',
'C09': 'A symbolic fault position decides which data computation, comparison or allocation throws during addColPairs or pop; afterwards the queue must satisfy the C06 model (strong guarantee for add: nothing of the column; for pop: either still or no longer there) and C08 balance, and must be usable.',
'C10': 'Calculator trained on symbolic monomials; for arbitrary a | b the mask of a canDivide that of b; the same for lower bounds of several monomials, default and reset calculators. Signed and unsigned exponents up to full width (overflow of the bound computation is decided by the engine).',
'C11': 'Model: held monomials with ids and live counters. One arbitrary query: findDivisor finds iff a held one divides, and the found one is held and divides; findAllDivisors/findAllMultiples report exactly the divisors/multiples once each; forAll and iteration visit each once; const interface as well. The linked list checks order only at every 35th element, reached with concrete fills of 34/35.',
'C12': 'As C11 with removeMultiples, removeElement, moveToFront and inserts; contents, order (insertion order when unsorted, sorted otherwise) and size() compared after each operation; the output of removeMultiples is exact; every entry object is destroyed exactly once.',
'C13': 'As C11 on the binary tree in all compile-time configurations (masks none/entries/nodes, leaf sizes 1..3, sorted leaves or not, removals or not); splits happen in the symbolic part; clear and range insert (reset) included.',
'C14': 'As C13 on the packed tree.',
'C15': 'As C13/C14 with removals in the symbolic part around fills that give several levels.',
'C16': 'Cache on: queries between mutations, then the answer compared with the model (so with the cache off); a cached pointer into freed or reused memory is a liveness violation.',
'C17': 'Rebuild (explicit or when the automatic threshold, computed in doubles by the code, is reached) and then a full comparison and a query; the threshold itself is observed through calls to the configuration.',
'C18': 'Exactly LeafSize copies are accepted; the next throws std::logic_error and leaves contents, size and answers as they were; then further operations.',
'C19': 'Keys are 8-bit with a symbolic hash bit per distinct key and slot bit: every collision pattern. Model: association of keys to values; insert returns existing handle or makes one, lookup finds iff present, writes through handles are seen, remove removes one, memory of removed nodes may be reused only then.',
'C20': 'Array of writes against an array of bits; the bit read back is at a symbolic position; around word boundaries of the columns.',
'C21': 'parent/child/sibling identities for symbolic node numbers, no overlap of storage for two symbolic nodes, and container operations against an array.',
'C22': 'All tables of up to 4 names: expected result computed in the harness (exact match wins, unique extension, otherwise ambiguous or unknown exception, with the exception type checked); the product created is the one registered under that name. A concrete stem in front of the symbolic characters makes names longer than any inline buffer.',
'C23': 'A reference splitter in the harness decides what each word of the command line is; the parser must call the same parameters with the same arguments in the same order, or throw when the reference does; values are read back from the library parameters. Help output must mention exactly the registered names and leave actions unperformed.',
'C24': 'Language: digits without sign or blanks, without overflow of 32 bits, as documented by the code; accepted iff the reference accepts and then with the same value; a refused argument leaves the value; valueAsString/processArguments round trip for every value.',
'C25': 'The text is parsed back by the harness into an integer number of tenths and compared with the exact rational num*by/den by 128-bit cross multiplication; the slack is one rounding of doubles. Separators: removing them gives the decimal digits and they are every third. SI/byte prefixes: largest unit that gives at least 1.',
'C26': 'A reference layout computed cell by cell (width of a column = longest line; padding on the side of the justification; fill characters; prefixes) is compared with the printed bytes.',
'C27': 'The output is split into lines and words: words and their order are those of the message, no line exceeds the width unless it is a single word, explicit newlines and indentation are kept, the prefix comes first on every line as documented, every line ends.',
'C28': 'clock() is symbolic: milliseconds = elapsed ticks*1000/CLOCKS_PER_SEC rounded; hours, minutes, seconds, ms of the text recombine to it and each is in range; parts are omitted only as documented.',
'C29': 'The same symbolic history is run on list, binary and packed tree in one path; answers compared with each other.',
'C30': 'The output object asks to stop (or throws) at its k-th report: no report follows a stop, nothing is reported twice, and the following query is exact.',
'C31': 'The same symbolic history on all four queues; the surfaced keys are compared with each other.',
'C32': 'operator new and delete are counted by the engine (and by the replay); after every operation of a symbolic history the reported figure is compared with the bytes handed out since before construction, and after destruction nothing may be left. The set-backed queue documents an estimate and is left out; blocks of the allocation library get a slack of 32 bytes natively (none under the engine).'}
TAIL = r'''
## 3. What is outside

* `src/divsim`, `src/pqsim` (benchmark programs over the library: random inputs, timing output) carry no guarantee of their own; the
  structures they drive are what is checked. `StlSet::getMemoryUse` (documented as an estimate), `getName` (free text for benchmarks) and
  `print`/`operator<<` of the structures (debug output, no documented format) have no property.
* Interfaces that do not compile when instantiated, hence cannot be relied on by anyone: DivList::const_iterator::getInternal.
* Observations about documented or inherent limits, not defects of a property: HashTable never calls the destructors of handles (it is documented to
  hold plain data); a copied TourTree would share its tree (copying is implicit and used nowhere); a copied StlSet keeps its comparator's reference to
  the old configuration; pqsim computes a modulo of zero for a zero-span option; isspace on negative chars is used as libstdc++ tolerates.

## 4. False alarms met and removed

* A harness filled masks with `1u << 32` for 32-bit exponents: undefined behaviour of the harness, now avoided.
* C18's symbolic monomial could equal the concrete fill, so "one more copy" was already one too many: the count now includes the fill.
* An entry point named `dup` resolved to libc's `dup` in the native build: renamed.
* A harness relied on the order in which operands of `+` are evaluated (clang and g++ differ), so that engine and native run read the inputs in
  different order: such calls are now sequenced statements everywhere.
* C26/C27 first demanded more than the code documents (trailing blanks of filled lines; breaking of words longer than the line): statements weakened
  to what is documented, and one real deviation (an over-long first word) repaired in /repo.
* Order of equal elements, of reports within one query and of equal keys between queues is nowhere demanded.

## 5. How the machinery was tried besides the planted bugs

* Mutation: of 216 one-token mutants of src/mathic, 175 pass the stable tests and 110 of those make a demonstration program fail. 42 of the 110
  (taken at random) were run against the checks of their file: 41 were caught. The one that was missed (resetting a k-d tree that has become empty)
  led to the histories `kd_norem:K=0,OPS=..,KINDS=40/41` in C13, C14 and C17. The other 68 were not run.
* Refactorings: a copy of the repository with behaviour-preserving rewrites in 20 files (helpers extracted, loops rewritten, statements reordered,
  conditions inverted) leaves the checks C01 to C29 quiet (C30 to C32 were not run on it; C04 covers a file that
  was not rewritten).
'''
