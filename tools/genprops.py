#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="src/mathic/"
p("C01","Heap is a correct priority queue",
  "Whatever sequence of push, push-range, pop, decrease-top, clear and move is applied to a Heap, top() is never less than any held element, pop() removes and returns exactly that element, and the multiset of held elements, size() and empty() always equal what was pushed minus what was removed. Iterating over all elements visits each held element exactly once.",
  ["histories","inputs","configurations"],"all operation histories and all element values (arbitrary ties), with both array index layouts",
  "No unit test touches Heap at all; order bugs need specific relative orders of keys at particular sizes.",
  [M+"Heap.h",M+"ComTree.h"],[("moveHoleUp/moveHoleDown/moveHoleToBottom",M+"Heap.h"),("parent/child arithmetic",M+"ComTree.h")],["Heap::top","Heap::pop","Heap::forAll","Heap::size"])
p("C02","Tournament tree is a correct priority queue",
  "Whatever sequence of push, push-range, pop, decrease-top and clear is applied to a TourTree, top() is never less than any held element, pop() removes and returns exactly that element, and the multiset of held elements (as visited by forAll) and empty() always equal what was pushed minus what was removed. Growing the tree never changes what it holds or the order in which it surfaces.",
  ["histories","inputs","configurations"],"all operation histories and all element values (arbitrary ties), with both array index layouts, across capacity growth",
  "TourTree is only reached through PairQueue tests with one fixed key order; growth and ties are not exercised.",
  [M+"TourTree.h",M+"ComTree.h"],[("push/pop/reallocate/decreaseTop",M+"TourTree.h")],["TourTree::top","TourTree::pop","TourTree::empty","TourTree::forAll"])
p("C03","Geobucket is a correct priority queue in every configuration",
  "For every supported configuration of a Geobucket, and whatever sequence of single pushes, sorted-range pushes, pops, decrease-top and clear is applied, top() is never less than any held element, pop() removes and returns exactly that element, and held elements, size() and empty() always equal what was pushed minus what was removed.",
  ["histories","inputs","configurations"],"all operation histories, element values and configuration switches (front tracking, premerge, collect-max, storage kinds, binary search threshold, insertion factor, base, minimum bucket size)",
  "No unit test touches Geobucket; its behaviour depends on which bucket overflows when, in over a hundred configurations.",
  [M+"Geobucket.h",M+"GeoFront.h"],[("push/findMaxBucket/mergeToNonSmall",M+"Geobucket.h"),("front order keeping",M+"GeoFront.h")],["Geobucket::top","Geobucket::pop","Geobucket::size","Geobucket::forAll"])
p("C04","Set-backed queue is a correct priority queue",
  "Whatever sequence of push, push-range and pop is applied to the set-backed priority queue, top() is never less than any held element, pop() removes and returns exactly that element, and the held elements and empty() always equal what was pushed minus what was removed; equal elements are all kept.",
  ["histories","inputs"],"all operation histories and element values, including ties",
  "No unit test touches this queue.",[M+"StlSet.h"],[("multiset wrapper",M+"StlSet.h")],["StlSet::top","StlSet::pop","StlSet::empty"])
p("C05","Deduplicating queues merge equal elements without losing any",
  "When a priority queue is configured to merge equal elements, every pushed element is either surfaced on its own or merged into an equal element that is surfaced, so that the combined weight popped per key equals the combined weight pushed; nothing is merged with an unequal element and pops come out in non-increasing order. size() always equals the number of elements visited by forAll, and empty() is true exactly when nothing is left to pop.",
  ["histories","inputs","configurations"],"all histories of push/push-range/pop/decrease-top over all key values, for Heap and for every Geobucket configuration",
  "No unit test uses deduplication; loss happens only when a tie is found at a particular place in the structure.",
  [M+"Heap.h",M+"Geobucket.h",M+"GeoFront.h"],[("deduplicate while sifting",M+"Heap.h"),("deduplicate in merge/front",M+"Geobucket.h")],["pop","size"])
p("C06","Pair queue yields every pair once, in order, with its own data",
  "A pair queue surfaces each pushed pair exactly once with the data computed for that very pair, no pair that was never pushed, and at each moment no pending pair comes before the top pair in the configured order; empty() is true exactly when nothing is pending.",
  ["histories","inputs"],"all interleavings of adding columns (any sorted subset of rows) and popping, for all orders on pairs including ties, and both index layouts",
  "The unit tests use a handful of fixed orders and data functions with full columns.",
  [M+"PairQueue.h",M+"TourTree.h"],[("addColPairs/Column/pop",M+"PairQueue.h"),("tournament",M+"TourTree.h")],["PairQueue::topPair","PairQueue::topPairData","PairQueue::pop"])
p("C07","Retired indices never surface and cost no pair data",
  "After an index is declared retired, a pair queue surfaces no pair involving it and computes no pair data for such a pair, while every other pending pair still surfaces exactly once in order. Retirement takes effect whenever it happens between queue operations.",
  ["histories","inputs"],"all interleavings of adding columns, popping and retiring indices, all orders",
  "The unit tests retire no index while pairs are pending in more than one column.",
  [M+"PairQueue.h"],[("retirement filter in column advance",M+"PairQueue.h")],["PairQueue::topPair","conf computePairData calls"])
p("C08","Pair data lifetimes balance",
  "Every pair-data object a pair queue constructs is destructed exactly once, never used before construction or after destruction, and none is alive after the queue is destroyed, whatever mixture of additions, pops, retirements and early destruction happens.",
  ["histories","inputs"],"all histories of add/pop/retire/destroy",
  "One unit test counts constructions for one fixed history.",
  [M+"PairQueue.h"],[("construct/destruct hooks",M+"PairQueue.h")],["conf construct/destruct calls"])
p("C09","A failing add or pop leaves the pair queue sound",
  "If the user's data computation or comparison throws, or memory runs out, while a column of pairs is being added, or the computation throws while a pair is popped, the exception reaches the caller and no constructed pair data is leaked or destroyed twice. After a failed add the queue still surfaces exactly the pairs it held before, in order, and accepts further columns.",
  ["fault_sequences","histories"],"a throw at any data computation, comparison or allocation of an add, and at any data computation of a pop, in any history",
  "No unit test makes the computation throw.",[M+"PairQueue.h"],[("exception guards in addColPairs/Column",M+"PairQueue.h")],["addColPairs","pop"])
p("C10","Divisor masks never rule out a true divisor",
  "Whenever one monomial divides another, the mask of the first is accepted as possibly dividing the mask of the second, for masks computed by the same calculator, however the calculator was built or rebuilt from any set of monomials; the default mask a monomial is given never rules anything out, and a mask combined from several masks is accepted wherever one of them is.",
  ["inputs","configurations"],"all exponent vectors, all sets of monomials used to choose the mask bits, all variable counts within bounds",
  "No unit test computes a mask on interesting data.",[M+"DivMask.h",M+"DivMask.cpp"],[("Calculator::rebuild/compute, canDivide",M+"DivMask.h")],["DivMask::canDivide"])
p("C11","Divisor list answers divisor queries exactly",
  "For every configuration and history, the divisor list finds a divisor of a query monomial if and only if one is held, and enumerating all divisors (or all entries) calls back for exactly the held entries that qualify, each exactly once per occurrence.",
  ["histories","inputs","configurations"],"all histories of inserts, removals, rebuilds and queries over all exponents, for linked/array storage, with/without masks, sorting and automatic rebuild",
  "The only unit test for divisor finders instantiates and does nothing.",
  [M+"DivList.h",M+"DivMask.h"],[("findDivisor/findAllDivisors/insert",M+"DivList.h")],["findDivisor","findAllDivisors","forAll"])
p("C12","Divisor list removals and reordering conserve entries",
  "Removing multiples of a monomial from a divisor list removes exactly the held multiples and reports each once, removing an element removes exactly one occurrence and reports whether it was there, moving an entry to the front changes only the order, sorted lists stay sorted, and size() equals the number of entries iterated.",
  ["histories","inputs","configurations"],"all histories and configurations as for queries",
  "No unit test removes anything.",[M+"DivList.h"],[("removeMultiples/removeElement/moveToFront",M+"DivList.h")],["size","begin/end","removeMultiples"])
p("C13","k-d tree (binary) answers divisor queries exactly",
  "For every configuration of the binary k-d tree and every history of inserts, the tree finds a divisor of a query monomial if and only if one is held, enumeration calls back for exactly the held entries that divide it, each once per occurrence, and visiting all entries visits each exactly once.",
  ["histories","inputs","configurations"],"all insertion histories over all exponents, for all mask/sort/leaf-size/rebuild configurations, across leaf splits",
  "No unit test inserts into a k-d tree.",[M+"KDTree.h",M+"BinaryKDTree.h",M+"KDEntryArray.h"],[("insert/split/findDivisor",M+"BinaryKDTree.h"),("leaf scan and split",M+"KDEntryArray.h")],["findDivisor","findAllDivisors","forAll"])
p("C14","k-d tree (packed) answers divisor queries exactly",
  "For every configuration of the packed k-d tree and every history of inserts, the tree finds a divisor of a query monomial if and only if one is held, enumeration calls back for exactly the held entries that divide it, each once per occurrence, and visiting all entries visits each exactly once.",
  ["histories","inputs","configurations"],"all insertion histories over all exponents, for all mask/sort/leaf-size/rebuild configurations, across leaf splits",
  "No unit test inserts into a k-d tree.",[M+"KDTree.h",M+"PackedKDTree.h",M+"KDEntryArray.h"],[("insert/split/findDivisor",M+"PackedKDTree.h"),("leaf scan and split",M+"KDEntryArray.h")],["findDivisor","findAllDivisors","forAll"])
p("C15","k-d tree removals remove exactly the multiples",
  "Removing the multiples of a monomial from a k-d tree removes exactly the held multiples and reports each once, removing an element removes one occurrence and reports whether it was held, later queries see exactly what is left, and size() and empty() agree with it.",
  ["histories","inputs","configurations"],"all histories of inserts, removals and queries, binary and packed, all configurations allowing removals",
  "No unit test removes from a k-d tree.",[M+"KDTree.h",M+"BinaryKDTree.h",M+"PackedKDTree.h",M+"KDEntryArray.h"],[("removeMultiples/removeElement",M+"KDTree.h")],["removeMultiples","removeElement","size"])
p("C16","Divisor cache never changes an answer",
  "With the divisor cache on, every query of a k-d tree answers the same question as with it off: a divisor is found if and only if one is held, the answer divides the query, and it is an entry held at that moment, whatever inserts, removals, clears and rebuilds happened since the last query.",
  ["histories","inputs","configurations"],"all histories with repeated queries between mutations, cache on",
  "No unit test queries a k-d tree; a stale cache needs a query, a mutation and another query.",
  [M+"KDTree.h"],[("_divisorCache",M+"KDTree.h")],["findDivisor"])
p("C17","Rebuilding preserves contents and answers",
  "Explicit and automatic rebuilds of a divisor list or k-d tree change neither the entries held nor the answer of any query, and rebuilding an emptied, single-entry or duplicate-only structure works.",
  ["histories","inputs","configurations"],"rebuild at any point of any history; automatic rebuild thresholds of any ratio and minimum",
  "No unit test rebuilds.",[M+"DivList.h",M+"KDTree.h",M+"BinaryKDTree.h",M+"PackedKDTree.h"],[("rebuild/reset",M+"KDTree.h"),("rebuild",M+"DivList.h")],["rebuild","forAll","findDivisor"])
p("C18","Too many equal monomials are refused cleanly",
  "Inserting more copies of one monomial than a k-d tree leaf can hold is refused with a logic error and leaves the tree holding exactly what it held before, with later queries and inserts still exact; up to that many copies are accepted and all are held.",
  ["inputs","histories"],"all leaf sizes and histories with duplicates around the limit",
  "No unit test inserts duplicates.",[M+"KDEntryArray.h",M+"BinaryKDTree.h",M+"PackedKDTree.h"],[("split failure throw",M+"KDEntryArray.h")],["insert"])
p("C19","Hash table is a map",
  "A lookup in the hash table finds a key's value if and only if the key was inserted and not removed since, inserting a present key changes nothing and says so, handles stay valid and their values stay writable across growth, and a table from which everything was removed can be reset and used again, for any hash function consistent with key equality.",
  ["histories","inputs","configurations"],"all histories of insert/lookup/remove/reset over all keys and all hash values (arbitrary collisions), any initial size and load limit",
  "The unit tests insert a few fixed keys with one hash function and never remove or grow under collisions.",
  [M+"HashTable.h"],[("insert/lookup/grow/remove",M+"HashTable.h")],["insert","lookup"])
p("C20","Bit triangle stores exactly the bits set",
  "In a bit triangle every pair (column, row) with row below column reads back the value last written to it, or false, no write changes any other pair, and adding columns changes no stored bit.",
  ["histories","inputs"],"all column counts within bounds and all written positions, including word boundaries",
  "The unit tests write at fixed positions of small triangles.",
  [M+"BitTriangle.h",M+"BitTriangle.cpp"],[("bit/setBit/addColumn",M+"BitTriangle.h")],["bit","setBit"])
p("C21","Complete binary tree arithmetic is consistent",
  "In both index layouts, parent, left child, right child, sibling, left-right tests and previous/next are mutually consistent for every node, different nodes use different storage inside the allocated range, and copying, moving, growing, swapping and clearing a tree preserve or transfer its elements exactly.",
  ["inputs","histories","configurations"],"all node indices up to the machine bound and all tree sizes within bounds, both layouts",
  "No unit test touches the tree; the fast layout's arithmetic is byte-offset based.",
  [M+"ComTree.h"],[("Node",M+"ComTree.h"),("copy/move/increaseCapacity/swap",M+"ComTree.h")],["Node","operator[]"])
p("C22","Names resolve to the unique option with that prefix",
  "A registered name or any prefix that identifies exactly one registered name resolves to it, an exact name always wins over longer names that extend it, an ambiguous or unknown prefix is reported as an error, and prefix listing returns exactly the registered names with the prefix.",
  ["inputs","configurations"],"all sets of names and all query strings within length bounds",
  "No unit test covers name resolution.",[M+"NameFactory.h",M+"CliParser.cpp"],[("namesWithPrefix/uniqueNameWithPrefix/createWithPrefix",M+"NameFactory.h")],["createWithPrefix","uniqueNameWithPrefix"])
p("C23","Command lines are split into action, direct parameters and options",
  "For every command line, the parser selects the action named by the first word (or by an unambiguous prefix of its name), hands the words before the first option to it as direct parameters, and gives each option, in order, the one following word that does not start with a dash, if there is one. Unknown, ambiguous or superfluous words are reported as errors and no non-empty word of an accepted command line is dropped. The built-in help action shows every action, or the one that its single direct parameter names with all of its options.",
  ["inputs"],"all word lists within bounds",
  "No unit test covers parsing.",[M+"CliParser.cpp",M+"IntegerParameter.cpp",M+"BoolParameter.cpp",M+"StringParameter.cpp"],[("CliParser::parse",M+"CliParser.cpp")],["CliParser::parse"])
p("C24","Numeric and boolean parameters accept exactly their language",
  "An integer parameter accepts exactly the canonical decimal forms (no sign, no superfluous zero) of the integers from 0 to 2^32-1 and stores exactly their value, a boolean parameter accepts exactly its documented spellings, everything else is reported as an error and leaves the parameter's value unchanged; what a parameter prints as its value is accepted back as the same value.",
  ["inputs"],"all strings within a length bound",
  "No unit test covers parameters.",[M+"IntegerParameter.cpp",M+"BoolParameter.cpp",M+"StringParameter.cpp"],[("processArguments",M+"IntegerParameter.cpp")],["processArguments","valueAsString"])
p("C25","Number formatting is value-exact",
  "Formatting an unsigned integer with thousands separators yields its decimal digits grouped in threes, the unit-scaled forms choose a unit whose scaled value is at least one and below one step (or the largest unit) and are within rounding to one decimal of the true value, and percentages and ratios are rounded to one decimal from the true quotient (a negative one prints as a minus sign and its magnitude), for every 64-bit input and with no out-of-range access.",
  ["inputs"],"all 64-bit arguments",
  "No unit test covers formatting; the failures sit at the largest unit and at overflow.",
  [M+"ColumnPrinter.cpp"],[("commafy/withSIPrefix/bytesInUnit/percentInteger/ratioInteger",M+"ColumnPrinter.cpp")],["returned strings"])
p("C26","Column printing aligns and preserves cells",
  "Printed tables show every line of every column's text, left-justified columns are padded on the right and right-justified ones on the left to the width of the widest cell of the column, prefixes and suffixes surround each cell, a prefix of the table starts each line, and all lines have the same cells at the same offsets; a column with fewer lines is padded with blanks, and a line asked to be filled up is padded with the given character instead.",
  ["inputs","configurations"],"all cell texts within length bounds, justification and prefix/suffix choices",
  "No unit test covers printing.",[M+"ColumnPrinter.cpp"],[("ColumnPrinter::print",M+"ColumnPrinter.cpp")],["print output"])
p("C27","Text wrapping keeps words, order and width",
  "Displayed text contains exactly the words of the message in order, breaks lines at the message's own line breaks and otherwise only between words, just where the next word does not fit, exceeds the line width only for a word that does not fit on a line of its own, and starts each line with the given prefix and the indent of the message's line; blanks between words on one line are kept and those at the end of a line dropped; every line that shows a word ends in a line break.",
  ["inputs"],"all messages within length bounds, line width as configured in the code",
  "No unit test covers display; wrapping faults need words that land on the margin.",
  [M+"display.cpp"],[("display/printWithLineBreaks",M+"display.cpp")],["display output"])
p("C28","Timer decomposes elapsed time exactly",
  "A timer prints elapsed time as hours, minutes, seconds and milliseconds that add up to the elapsed time to the millisecond, with every lower field below its carry, for every pair of start and stop times.",
  ["inputs"],"all clock readings with stop not before start",
  "No unit test covers the timer; the clock cannot be controlled there.",
  [M+"Timer.cpp",M+"Timer.h"],[("Timer::print",M+"Timer.cpp")],["print output"])
p("C29","Divisor finders agree with one another",
  "A divisor list, a binary k-d tree and a packed k-d tree fed the same inserts, removals and rebuilds give the same yes/no answer to every divisor query, hold the same multiset of entries and remove the same multiples, whatever their configurations.",
  ["histories","inputs","configurations"],"all histories over all exponents; differential between the structures",
  "No unit test compares them.",[M+"DivList.h",M+"BinaryKDTree.h",M+"PackedKDTree.h"],[("common finder interface",M+"KDTree.h")],["findDivisor","forAll"])
p("C30","Queries stop when the caller says stop and leave no trace",
  "When a query's output callback asks to stop, no further entry is reported by that query, and when it asks to stop or throws, later queries on the same structure still give exact answers.",
  ["inputs","histories","fault_sequences"],"stop or throw at any callback of any query on all divisor finders",
  "No unit test passes a stopping or throwing callback.",
  [M+"DivList.h",M+"KDEntryArray.h",M+"BinaryKDTree.h",M+"PackedKDTree.h"],[("proceed() handling",M+"KDEntryArray.h"),("node stack reuse",M+"PackedKDTree.h")],["findAllDivisors","forAll"])
p("C31","Priority queues agree with one another",
  "Fed the same pushes and pops, every priority queue of the library surfaces the same sequence of keys, in every configuration.",
  ["histories","inputs","configurations"],"all histories over all keys; differential between Heap, TourTree, Geobucket and the set-backed queue",
  "No unit test compares them.",[M+"Heap.h",M+"TourTree.h",M+"Geobucket.h",M+"StlSet.h"],[("common queue interface",M+"Heap.h")],["pop"])
p("C32","Reported memory use is what is held, and all of it is returned",
  "After every sequence of operations, the memory use that a heap, tournament tree, geobucket, complete tree, bit triangle, pair queue, hash table, divisor list or k-d tree reports equals the number of bytes it has allocated for its entries, its structure and its spare capacity (excluding sizeof(*this) and the few bytes per block that the allocation library keeps for itself), and destroying or moving the container neither loses nor keeps any of it.",
  ["histories","inputs","configurations"],"all histories over all keys, monomials and configurations; every point of the history",
  "The documented figure depends on every growth, removal, rebuild and move before it; no test asks for it.",
  [M+"Geobucket.h",M+"GeoFront.h",M+"ComTree.h",M+"TourTree.h",M+"Heap.h",M+"BitTriangle.cpp",M+"PairQueue.h",M+"HashTable.h",M+"DivList.h",M+"BinaryKDTree.h",M+"PackedKDTree.h",M+"DivMask.h"],[("size accounting of the bucket storage",M+"Geobucket.h"),("arena and mask accounting",M+"KDTree.h")],["getMemoryUse","memoryUse"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
