#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

M='src/mathic/'
p('C01', 'Priority queues hand out every accepted entry exactly once, in order',
  'For every priority queue (heap, tournament tree, geobucket in all its configurations, STL set) and every history of single and range pushes, pops, decrease-tops, in-place decrease of the top followed by decrease-top or pop, clears, moves and iterations, top/pop return an entry that no remaining entry exceeds in the configured order, each accepted entry is handed out exactly once and nothing else ever is, and empty/size/iteration agree with that content. '
  'A push during which memory allocation fails throws and leaves the queue exactly as it was (a failing range push has accepted each entry of the range at most once), and the queue then keeps working. '
  'Configuration choices (index scheme, bucket storage, front tracking, premerge, max collection, bucket search, bucket sizes and growth) never change what is handed out.',
  ['histories','configurations','fault_sequences'],
  'all operation histories on one or several live queues, all compile-time and run-time configurations, an allocation failure at any allocation of any operation',
  'There is no unit test for heap, tournament tree, geobucket or STL set at all; the existing tests use a tournament tree indirectly through three small PairQueue scenarios and never fail an allocation.',
  [M+'Heap.h',M+'ComTree.h',M+'TourTree.h',M+'Geobucket.h',M+'GeoFront.h',M+'StlSet.h'],
  [('sift up/down in a packed complete tree',M+'Heap.h moveHoleDown/moveValueUp'),('tournament replay along leaf-to-root path',M+'TourTree.h push/pop/decreaseTop'),('geometric bucket merge and overflow cascade',M+'Geobucket.h insert/mergeTo*/addBucket'),('sorted list of bucket fronts / cached maximum bucket',M+'GeoFront.h')],
  [('entry count','number of entries the queue believes it holds',M+'Geobucket.h'),('last leaf / capacity','content boundary of the packed tree',M+'ComTree.h')],
  ['push','pop','top','decreaseTop','clear','empty','size','forAll'])
p('C02', 'Merging duplicate entries neither loses, repeats nor invents an entry',
  'When a heap or geobucket is configured to merge entries that compare equal, then over any history of pushes, range pushes, pops, decrease-tops and clears every accepted entry is represented in exactly one entry of the queue at any time, as the configured merge of exactly the entries combined into it, so that between them the popped entries account for every accepted entry exactly once and come out in non-increasing order. '
  'empty/size/iteration count the merged entries, and an allocation failure during a push leaves the represented content exactly as it was.',
  ['histories','configurations','fault_sequences'],
  'all histories with any density of equal entries, all configurations with deduplication on, an allocation failure at any allocation',
  'No existing test turns deduplication on for any queue.',
  [M+'Heap.h',M+'Geobucket.h',M+'GeoFront.h'],
  [('merge into the ancestor, move the last leaf into the gap',M+'Heap.h moveValueUp'),('merge while merging buckets, inserting into a bucket, comparing bucket maxima',M+'Geobucket.h merge/push, '+M+'GeoFront.h computeMax/keyDecreased')],
  [('entry count','must drop by one per merge',M+'Geobucket.h')],
  ['push','pop','top','forAll','size','deduplicate callback'])
p('C03', 'An interrupted queue operation is contained: clear makes the queue good as new',
  'If a user callback (compare, deduplicate, an entry copy, an iteration visitor) throws out of any operation of a priority queue, the exception reaches the caller, the queue can still be destroyed or cleared without touching freed or foreign memory, and after clear it is empty and behaves exactly like a new queue. '
  'Read-only operations that are interrupted or stopped early (iteration, top) leave the content as it was. '
  'Over the life of a queue, whatever was interrupted, every entry object and every byte it allocated is released exactly once.',
  ['histories','configurations','fault_sequences'],
  'all histories, all configurations, an exception at any callback invocation or entry copy of any operation, early stop of any iteration, allocation failures mixed in',
  'No existing test lets a callback throw or looks at memory ownership.',
  [M+'Heap.h',M+'ComTree.h',M+'TourTree.h',M+'Geobucket.h',M+'GeoFront.h',M+'StlSet.h'],
  [('clear resets every piece of bookkeeping',M+'Geobucket.h clear, '+M+'GeoFront.h clear, '+M+'TourTree.h clear, '+M+'ComTree.h clear'),('grow into a fresh buffer, then swap',M+'ComTree.h increaseCapacity, '+M+'Geobucket.h addBucket')],
  [], ['clear','forAll','destructor'])
p('C04', 'PairQueue yields exactly the unretired pairs, maximal first, whatever fails',
  'For every history of column additions (rows handed in weakly descending order), pops and index retirements, the top pair is a maximal pair among the pairs that were added, not popped and have no retired index, its pair data is the data computed for that pair, and the queue is empty exactly when there is no such pair; pairs are popped once each and retired pairs never surface. '
  'columnCount counts the successful additions and pairCount lies between the number of remaining unretired pairs and that number plus the pairs removed only by retirement. '
  'An addition that fails because memory ran out, or because pair-data construction, pair-data computation or a comparison threw, leaves the queue exactly as before so that it can be retried, a pop aborted by pair-data computation loses at most the pair it was to remove, and no pair data is ever computed for a retired index.',
  ['histories','configurations','fault_sequences'],
  'all histories of addColumnDescending/pop/retireIndex, with and without retirement support, small and large column indexes (past the 16-bit row storage limit), a failure at any allocation or user callback of any addition',
  'The three existing PairQueue tests run fixed small triangles; none exercises failure, the large-column representation or random retirement.',
  [M+'PairQueue.h',M+'TourTree.h'],
  [('one tournament entry per column, advanced in place',M+'PairQueue.h pop/incrementRowIndex'),('lazy skipping of retired rows and columns',M+'PairQueue.h pop/retireIndex'),('rollback of a failed addition',M+'PairQueue.h addColumnDescending')],
  [('retired flags','which indexes may not surface',M+'PairQueue.h'),('row range per column','remaining rows; 16 or 32 bit',M+'PairQueue.h Column')],
  ['topPair','topPairData','pop','empty','columnCount','pairCount','retired'])
p('C05', 'PairQueue constructs and destructs each pair data object exactly once',
  'Every pair data object a PairQueue constructs is destructed exactly once, through the configured destruct function with the pair whose data it then holds, and never read, recomputed or compared before construction or after destruction. '
  'This holds over every history of additions, pops, retirements and destruction of a partly consumed queue, and when an allocation, the construction, the computation of pair data or a comparison fails at any point of it; nothing allocated is leaked.',
  ['histories','configurations','fault_sequences'],
  'all histories and all failure points, default and customised construct/destruct functions',
  'One existing test counts constructions in a single fixed fault-free scenario; no existing test injects a failure.',
  [M+'PairQueue.h'],
  [('construct/destruct indirection',M+'PairQueue.h ConstructPairDataFunction/DestructPairDataFunction'),('destruct on exhaustion, on retirement, in the destructor and on rollback',M+'PairQueue.h Column::destruct, ColumnDestructor, addColumnDescending')],
  [], ['PairData constructor/destructor','computePairData','compare'])
p('C06', 'Divisor queries always agree with brute force, whatever the index state',
  'For every divisor-finding structure (lists and both k-d trees, in every configuration) and every history of insertions, removals, explicit and automatic rebuilds and queries, findDivisor returns a stored entry that divides the query exactly when one exists, findAllDivisors visits exactly the stored divisors and findAllMultiples exactly the stored multiples, each once, until the visitor asks to stop, after which nothing more is visited. '
  'Performance features — divisibility masks, their lazily triggered rebuilds, mask-in-tree, sorting, leaf size, tree packing, the divisor cache, moving hits to the front — and any amount of failing allocations or interrupted earlier operations never change an answer.',
  ['histories','configurations','fault_sequences'],
  'all histories over exponent vectors of any dimension and magnitude, all configurations, interleaved with rebuilds triggered at any point and with failed operations',
  'The only existing test of these structures (NoOp) checks almost nothing; masks, caches, splits, removals and rebuilds are only run by the divsim program, which is not a test.',
  [M+'DivList.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'KDEntryArray.h',M+'DivMask.h',M+'DivFinder.h'],
  [('mask pre-test, never the final say',M+'DivMask.h canDivide/Calculator'),('variable/exponent split nodes prune the search',M+'BinaryKDTree.h, '+M+'PackedKDTree.h'),('last found divisor is tried first',M+'KDTree.h findDivisor'),('change counter triggers rebuild',M+'DivList.h reportChanges, '+M+'KDTree.h reportChanges')],
  [('divisor cache','pointer to the last hit',M+'KDTree.h'),('mask parameters','shared by all stored masks',M+'DivMask.h'),('traversal stack','member reused by every query','BinaryKDTree.h/PackedKDTree.h _tmp')],
  ['findDivisor','findAllDivisors','findAllMultiples'])
p('C07', 'Divisor finders hold exactly the inserted and not removed entries',
  'Over every history of single and range insertion, removal of multiples (with and without collecting them), removal of an element, moving to front, clearing, rebuilding and iterating, each structure stores exactly the entries inserted and not yet removed: iteration visits each exactly once, size reports their number, removeMultiples removes exactly the stored multiples, hands each of them to the output exactly once and reports truthfully whether there were any. '
  'An insertion or removal of one element that fails because memory ran out has happened completely or not at all, a failed range insertion has inserted each entry of the range at most once and disturbed no other entry, and a failed or aborted rebuild changes nothing. '
  'A removal of multiples that is aborted by its callback or output has removed exactly the entries handed to the output by then.',
  ['histories','configurations','fault_sequences'],
  'all histories and configurations, any allocation failing, any callback or output throwing',
  'No existing test removes, rebuilds or fails anything in these structures.',
  [M+'DivList.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'KDEntryArray.h'],
  [('leaf split and tree rebuild move every entry',M+'BinaryKDTree.h, '+M+'PackedKDTree.h'),('in-place compaction on removal',M+'KDEntryArray.h removeMultiples, '+M+'DivList.h removeMultiples')],
  [('entry count',M+'size bookkeeping next to the tree',M+'KDTree.h')],
  ['forAll','size','begin/end','removeMultiples','removeElement'])
p('C08', 'An interrupted or failed divisor operation has no after-effects',
  'If a query or iteration of a divisor-finding structure is stopped early by its visitor or aborted by an exception from a divides/exponent/visitor callback or a failed allocation, the structure afterwards answers every query, and stores every entry, exactly as if that query had never been issued. '
  'The same holds when rebuilding the search structure is aborted by a failed allocation or a callback, and for an insertion or removal that runs out of memory: every later query is answered correctly for the stored entries, and a retried operation succeeds once the fault is gone. '
  'An insertion that a structure refuses (more equal entries than a leaf can hold) and a removal it refuses (it is configured without removals) are reported as exceptions and change nothing.',
  ['histories','configurations','fault_sequences'],
  'every abort point of every operation in every configuration, followed by any history',
  'No existing test aborts an operation.',
  [M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'DivList.h',M+'DivMask.h'],
  [('traversal state kept in a member between pushes and pops',M+'BinaryKDTree.h, '+M+'PackedKDTree.h'),('mask parameters replaced before masks are recomputed',M+'DivMask.h rebuild, '+M+'DivList.h rebuild, '+M+'KDTree.h rebuild')],
  [], ['findDivisor','findAllDivisors','findAllMultiples','forAll','rebuild'])
p('C09', 'Containers release every entry and byte exactly once, also when operations fail',
  'For every divisor-finding structure and every history, including operations aborted by failing allocations or throwing callbacks, entry copies or outputs, every entry object that was constructed is destructed exactly once, no entry is used after its destruction or before its construction, no memory outside the container\'s own is touched, and destroying the structure returns all memory it took.',
  ['histories','configurations','fault_sequences'],
  'all histories, configurations and failure points; entry types that own resources',
  'Existing tests only store plain integers and never look at object lifetimes.',
  [M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'KDEntryArray.h',M+'DivList.h'],
  [('placement-constructed nodes and entries in arenas',M+'BinaryKDTree.h, '+M+'PackedKDTree.h, '+M+'KDEntryArray.h'),('explicit destruction before the arena is released','clear() of the trees')],
  [], ['entry constructors/destructors','allocator'])
p('C10', 'HashTable is a map from key to value through growth, removal and failures',
  'Over every history of inserts, lookups, value changes, removals, resets and growth, with any initial size and any hash quality, inserting a key returns a handle to its single entry together with whether it was newly created, lookup finds exactly the keys that are in the table with the key and value first stored or since set through a handle, and a removed or reset key is absent until inserted again. '
  'Handles stay valid and keep their key and value across later inserts, growth and removals of other keys. '
  'An insert, lookup or removal during which memory allocation, copying a key or value, hashing or comparing keys fails has no effect, also in the middle of growth, and the table stays fully usable; every key and value the table stores is destructed exactly once and all its memory is returned.',
  ['histories','configurations','fault_sequences'],
  'all histories and initial sizes, hash functions from perfect to constant, an allocation, copy or callback failing at any point including inside growth',
  'The three existing tests insert a handful of keys without failures and check a few lookups; none removes, grows under failure, or stores anything that owns memory.',
  [M+'HashTable.h'],
  [('relink nodes into the grown table',M+'HashTable.h grow'),('node pool',M+'HashTable.h makeNode')],
  [('table size and mask','must always match the bucket array',M+'HashTable.h'),('node count','drives growth',M+'HashTable.h')],
  ['insert','lookup','remove','reset','hardReset','Handle::key/value'])
p('C11', 'BitTriangle is a triangular bit matrix through growth and failed growth',
  'Over every history of column additions and bit writes, a bit reads as the value last written to exactly that (column,row) position or false if never written, and the column count equals the number of successful additions. '
  'A column addition that fails because memory ran out changes nothing: the count, every bit and the ability to add the column later are unaffected.',
  ['histories','fault_sequences'],
  'all histories, an allocation failure at any allocation of any addition',
  'The existing tests grow a small triangle without failures.',
  [M+'BitTriangle.h',M+'BitTriangle.cpp'],
  [('one bit vector per column',M+'BitTriangle.h addColumn')],
  [], ['bit','bitUnordered','setBit','setBitUnordered','columnCount'])
p('C12', 'Operations nest and interleave on one thread without disturbing each other',
  'Operations on separate containers, interleaved in any order and nested inside each other\'s callbacks to any depth on one thread, behave exactly as if each container were used alone. '
  'Every operation, whether it succeeds or is aborted by an exception, leaves the shared scratch arena holding exactly the objects that were there before, so memory a caller holds in it keeps its content and position.',
  ['schedules','histories','configurations','fault_sequences'],
  'all interleavings and nestings of operations of several simulated callers on several containers, all failure points, arbitrary caller allocations held in the scratch arena',
  'No existing test uses two containers at once, nests calls, or holds anything in the scratch arena.',
  [M+'DivList.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'KDEntryArray.h',M+'PairQueue.h'],
  [('rebuild and split use the process-wide scratch arena in stack order',M+'DivList.h rebuild, '+M+'KDTree.h rebuild, insert'),('guards restore the arena position on exceptions','memt::Arena::Guard users')],
  [('scratch arena','process-wide, stack discipline','memtailor Arena::getArena')],
  ['all container operations','memt::Arena::getArena()'])
p('C13', 'Timer reports exactly the simulated time since its last reset',
  'For every schedule of clock advances, resets, reads and prints, a timer reports the processor time elapsed since its construction or last reset, rounded to the nearest millisecond, independently of other timers and of how often it is read; reads never go backwards while the clock does not. '
  'Both print forms show that same duration as hours, minutes, seconds and zero-padded milliseconds, and print the same digits.',
  ['schedules','histories'],
  'all schedules of clock jumps from less than a millisecond to hundreds of hours, any number of timers',
  'No existing test touches Timer; real tests cannot control the clock.',
  [M+'Timer.h',M+'Timer.cpp'],
  [('difference of two clock readings',M+'Timer.cpp getMilliseconds'),('field split',M+'Timer.cpp print')],
  [], ['getMilliseconds','print'])
p('C14', 'Command line parsing resolves, applies or rejects, and survives failures',
  'Over every history of registrations and parses, an action or parameter name resolves to the entry with exactly that name, else to the single entry it is a prefix of, else the parse throws an error naming it as unknown or ambiguous; on success the parsed action owns exactly the parameter values and direct parameters given, defaults elsewhere. '
  'An argument a parameter rejects throws and leaves that parameter at its previous value, and a parse or registration aborted by a rejected argument or a failed allocation leaves the parser able to perform every later parse as if it had not happened. '
  'Help output, when the output accepts it, names every registered action or every parameter of the action asked about. A lack of memory is reported as such, never as a wrong argument, an error in the command line or a truncated help text.',
  ['histories','fault_sequences','inputs'],
  'all sets of registered names, all command lines, rejected arguments and allocation failures at any point',
  'No existing test covers the command line classes.',
  [M+'CliParser.cpp',M+'CliParser.h',M+'NameFactory.h',M+'Action.cpp',M+'IntegerParameter.cpp',M+'BoolParameter.cpp',M+'StringParameter.cpp',M+'HelpAction.cpp'],
  [('exact match wins, else unique prefix',M+'NameFactory.h'),('validate then assign',M+'IntegerParameter.cpp')],
  [], ['CliParser::parse','createWithPrefix','parameter values'])
p('C15', 'Printed tables are complete or a clean prefix, and printing has no side effects',
  'For every table built from columns with any alignment, prefix, suffix, repeat-fill and cell contents including multi-line and ragged columns, printing renders every cell on its row within its column, padded and aligned to the widest cell. '
  'When the output stream accepts only part of the data, throws, or memory runs out during building or printing, what reached the stream is a prefix of the complete rendering, and printing again later to a healthy stream gives the complete rendering of exactly the content added so far.',
  ['histories','configurations','fault_sequences'],
  'all build histories and layouts; streams that fail or throw after any number of characters; allocation failures at any point',
  'No existing test covers ColumnPrinter.',
  [M+'ColumnPrinter.h',M+'ColumnPrinter.cpp'],
  [('row-by-row rendering of per-column streams',M+'ColumnPrinter.cpp print')],
  [], ['ColumnPrinter::print','operator<<'])
p('C16', 'Formatted numbers are exact and correctly rounded, or not given at all',
  'Over every history of calls in which memory may run out at any point, digit grouping shows exactly the digits of the number, and percentages, ratios, one-decimal values, SI prefixes and byte units show the mathematically correct value rounded to the nearest tenth (a half is rounded up), with the unit that keeps it at least 1 and below the next unit, for all 64-bit integers and all non-negative doubles whose tenths fit 64 bits. '
  'A zero denominator shows as ?/0, or 0/0 if the numerator is zero too. A call that runs out of memory throws and never returns truncated text.',
  ['inputs','histories','fault_sequences'],
  'all 64-bit inputs, all pairs of numerator and denominator, a failure at any allocation',
  'No existing test covers them.',
  [M+'ColumnPrinter.cpp'],[('round by adding half a tenth and truncating',M+'ColumnPrinter.cpp oneDecimal'),('divide until below the next unit',M+'ColumnPrinter.cpp withSIPrefix, bytesInUnit')],[],['returned text'])
p('C17', 'A divisibility mask never denies a true divisor',
  'For any history of setting, copying and rebuilding mask parameters, and any masks computed since the parameters were last changed, if one monomial divides another then its mask allows that division, and so does every lower bound that covers its mask; divisibility with the mask as pre-test is exactly divisibility without; two masks compare equal exactly when each allows the other. '
  'A rebuild of the parameters that fails because memory ran out or an exponent callback threw changes nothing: masks computed before and after it agree.',
  ['inputs','histories','fault_sequences'],
  'all exponent types, dimensions and vectors, all parameter histories, a failure at any allocation or exponent access',
  'No existing test computes a mask.',
  [M+'DivMask.h'],[('threshold bits per variable',M+'DivMask.h compute'),('parameters replaced at the end of a rebuild',M+'DivMask.h rebuild')],
  [('mask parameters','give the bits their meaning',M+'DivMask.h')],['DivMask::canDivide','Extender::divides','HasDivMask::updateToLowerBound'])
p('C18', 'Displayed messages are wrapped completely, or cut off cleanly',
  'A displayed message contains every word of the text once and in order, spaced as in the text, behind the prefix and indented as asked for, on lines that are broken only where the next word would exceed the line width and that exceed it only for a single word that is too long by itself. '
  'When standard error stops accepting output or memory runs out, what was written is a prefix of that rendering, and later messages to a healthy standard error are complete again. '
  'The message of an exception is always shown in full, even without memory. An error report throws an exception of its kind that carries the whole message, or reports that there is no memory for it.',
  ['inputs','histories','fault_sequences'],
  'all texts, prefixes and indentations, standard error failing after any number of characters, a failure at any allocation',
  'No existing test covers display.',
  [M+'display.cpp',M+'error.h',M+'error.cpp'],[('greedy word wrap',M+'display.cpp')],[],['standard error stream'])
p('C19', 'Copies, moves, assignments and swaps carry all over and share nothing',
  'Over every history, a copy of a TourTree, StlSet, ComTree, BitTriangle or NameFactory, the target of an assignment (StlSet, BitTriangle), the target of a move (also Heap, ColumnPrinter) and both sides of a swap (ComTree) hold exactly the content and configuration of what they were made from, and from then on the objects are independent: each behaves by its own configuration, none changes when another is changed, and they can be destroyed in any order. '
  'A copy that fails because memory ran out or copying an entry threw leaves its source unchanged and leaks nothing.',
  ['histories','fault_sequences'],
  'all histories of changes, copies, moves, assignments, swaps and destructions over several objects, all failure points',
  'No existing test copies, moves, assigns or swaps any of these objects.',
  [M+'TourTree.h',M+'StlSet.h',M+'Heap.h',M+'ComTree.h',M+'BitTriangle.h',M+'ColumnPrinter.h',M+'NameFactory.h'],
  [('nodes refer to the entries of their own tree',M+'TourTree.h copy constructor'),('comparator refers to the own configuration',M+'StlSet.h copy constructor, operator='),('array handed over or copied',M+'ComTree.h constructors, swap')],
  [],['top, pop, forAll, entries, configuration'])
p('C20', 'A complete tree keeps every entry at its node through growth and failures',
  'Over every history of additions, removals, writes, growth, copies, moves and swaps, the n-th node of a ComTree in breadth first order holds exactly the entry last written to it, size, emptiness, last leaf and capacity agree with that content, and parent, children, sibling, next and previous node of the n-th node are the nodes n/2, 2n, 2n+1, n with the last bit flipped, n+1 and n-1, with both kinds of index. '
  'Growing keeps all entries and gives the announced capacity; an addition or growth that fails because memory ran out or copying an entry threw changes nothing.',
  ['histories','fault_sequences'],
  'all histories of operations, both index forms, all capacities, all failure points',
  'The existing tests use it through queues of ints only; no growth ever fails there.',
  [M+'ComTree.h'],[('index arithmetic scaled by the entry size or not',M+'ComTree.h Node'),('assign before counting',M+'ComTree.h pushBack'),('grow into a new array, then swap',M+'ComTree.h increaseCapacity')],
  [],['operator[]','size, capacity, lastLeaf','Node'])
p('C21', 'A name factory makes the product of that name, or says why not',
  'Over every history of registrations, copies and requests, a name gives a product made by exactly the function registered for it, and a prefix gives the product of exactly that name if there is one, else of the single name it is a prefix of, else an error saying that the prefix is unknown, or ambiguous with all the candidates; listing names gives exactly those with the prefix, sorted. This also holds while the constructor of a product asks the factory for other products. '
  'A registration or request that fails because memory ran out, or because the constructor of the product threw, leaks nothing and leaves the factory as it was.',
  ['inputs','histories','fault_sequences'],
  'all sets of names, all requests, all histories; a failure at any allocation and in any product constructor',
  'No existing test covers name factories.',
  [M+'NameFactory.h',M+'error.h'],[('exact match wins, else unique prefix',M+'NameFactory.h uniqueNameWithPrefix'),('a name and its function are stored together',M+'NameFactory.h registerProduct')],
  [],['create, createNullOnUnknown','createWithPrefix, uniqueNameWithPrefix','namesWithPrefix'])
p('C22', 'Containers that are emptied again and again do not hold ever more memory',
  'If a history of bounded content that leaves a divisor-finding structure, priority queue or hash table empty (by removing, popping, clearing or resetting) is repeated any number of times, the memory it and the shared scratch memory hold does not keep growing with the number of repetitions. '
  'The same holds if in every repetition operations (for pair queues: additions of columns) fail because memory ran out or a callback or entry copy threw.',
  ['histories','configurations','fault_sequences'],
  'all rounds of operations in all configurations, all failure points, any number of repetitions',
  'Existing tests never look at memory and never reuse a container for long.',
  [M+'HashTable.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'DivList.h',M+'Geobucket.h',M+'Heap.h',M+'TourTree.h',M+'PairQueue.h'],
  [('nodes go back to the pool',M+'HashTable.h destroyNode, reset, hardReset'),('arena emptied or replaced',M+'BinaryKDTree.h, '+M+'PackedKDTree.h clear, reset'),('node count decides when to grow',M+'HashTable.h')],
  [],['heap memory held after each operation'])
p('C23', 'Containers report the memory they hold',
  'After every operation of any history, the memory that a divisor-finding structure, heap, tournament tree, geobucket, pair queue, hash table or bit triangle reports is the heap memory it holds at that time, including excess capacity, up to a small constant and the headers of arena blocks; for a set it is within a small factor of it. '
  'This also holds after operations that failed because memory ran out or a callback or entry copy threw.',
  ['histories','configurations','fault_sequences'],
  'all histories of operations in all configurations, all failure points',
  'No existing test looks at the reported memory use or at the memory in use.',
  [M+'DivList.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'Heap.h',M+'ComTree.h',M+'TourTree.h',M+'Geobucket.h',M+'GeoFront.h',M+'PairQueue.h',M+'HashTable.h',M+'BitTriangle.cpp'],
  [('sum of the capacities and arenas held',M+'*.h getMemoryUse, memoryUse')],
  [],['getMemoryUse, memoryUse'])
Q='src/pqsim/'
p('C24', 'The queue simulator generates valid simulations and judges queue models right',
  'Over all kinds of simulation, parameters and random numbers, a generated simulation has the requested number of pushes, span sizes and share of duplicates, pushes only non-empty strictly descending spans, expects exactly the maximum at each pop, and leaves the queue empty. '
  'Running it accepts every queue that is right, rejects one that is wrong in a single pop, and the printed summary, events and outcome table (sorted by time) say what was generated and run. '
  'Every queue model (tournament tree, heap, set, geobucket; on elements and on spans; in all configurations) pops exactly the distinct values that were pushed, in descending order, whichever pushes were made. Failing allocations lead to an error, never to a wrong answer, and leak nothing.',
  ['inputs','histories','configurations','fault_sequences'],
  'all simulation parameters and random numbers, all histories of span pushes and pops, all model configurations, a failure at any allocation',
  'No existing test builds or runs the simulator programs.',
  [Q+'Simulator.cpp',Q+'Simulator.h',Q+'Model.h',Q+'Item.h',Q+'Item.cpp'],
  [('sorted model of what is in the queue while generating',Q+'Simulator.cpp'),('compare each popped element with the expected one',Q+'Simulator.h run'),('spans are popped until the value differs',Q+'Model.h')],
  [],['dupSpans, orderSpans, randomSpans, run','printEventSummary, printEvents, printData','models push, pop'])
Q='src/divsim/'
p('C25', 'The divisor simulator generates valid simulations and judges finder models right',
  'Over all parameters and random numbers, a generated simulation consists of exactly the requested insertions followed by exactly the requested queries, of the requested kind and number of variables. Running it (once per finder) accepts every finder that is right, rejects one that answers a single query wrongly, and the outcome table lists every accepted run with its name, time and number of exponent look-ups, sorted by time. '
  'Every finder model (divisor lists and kd-trees in all configurations) holds exactly the entries inserted or, if it minimizes, exactly those of them that no other one divides; an insertion reports exactly the entries it removes, also when it fails because memory ran out; findDivisor, findAllDivisors and forAll answer for exactly those entries.',
  ['inputs','histories','configurations','fault_sequences'],
  'all simulation parameters and random numbers, all histories of insertions and queries, all model configurations, a failure at any allocation',
  'No existing test builds or runs the simulator programs; no existing test combines minimizing insertions with moving to front, sorting or the divisor cache.',
  [Q+'Simulation.cpp',Q+'Simulation.h',Q+'DivListModel.h',Q+'KDTreeModel.h',Q+'Monomial.h',M+'DivList.h',M+'KDTree.h'],
  [('first finder to run decides the expected answers',Q+'Simulation.h run'),('find a divisor, else remove multiples, then insert',Q+'DivListModel.h, '+Q+'KDTreeModel.h insert')],
  [],['makeStandard, run, printData','models insert, findDivisor, findAllDivisors, forAll, size'])
p('C26', 'No assertion fails and nothing else changes in a build with assertions',
  'A program compiled with MATHIC_DEBUG (and MATHIC_SLOW_DEBUG) runs every history that keeps to the documented contract to its end: no assertion, validity check or other debugging code of the library fails, also after operations that ran out of memory or were aborted by callbacks and the recovery that is promised after them (clearing, destroying, retrying), and every property stated for builds without assertions holds there too. In particular the debugging code itself creates and destroys pair data, entries and memory in matching pairs.',
  ['inputs','histories','configurations','fault_sequences'],
  'all histories that keep to the contract, all configurations, all faults outside the evaluation of an assertion',
  'The test suite is built without assertions in the stable configuration, and no test aborts an operation.',
  [M+'stdinc.h',M+'PairQueue.h',M+'GeoFront.h',M+'Geobucket.h',M+'Heap.h',M+'TourTree.h',M+'KDEntryArray.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'DivList.h',M+'HashTable.h'],
  [('debug checks of a column build and destroy pair data',M+'PairQueue.h Column::create'),('isValid() of every structure',M+'Heap.h, TourTree.h, Geobucket.h, KDTree parts')],
  [],['all operations'])
p('C27', 'Queues, hash tables and pair queues stay within the work their design promises',
  'Over all histories and configurations, with n entries stored: push, pop and decreaseTop of a heap, tournament tree or set cost O(log n) comparisons (plus O(log n) for each deduplication) and top and forAll cost none; a geobucket costs O(log n) comparisons amortized per push (with the factors geoBase, insertFactor and minBucketSize) and O(number of buckets) per pop or top; a hash table whose hash function spreads the keys compares O(1) keys per operation and hashes O(1) keys amortized, however much is inserted, because it grows; a pair queue costs O(log columns) comparisons per operation, computes the data of a pair only when the pair comes to the front of its column, and keeps the data of at most one pair per column. '
  'These bounds hold again after operations that failed because memory ran out or a callback threw, and the recovery that is promised after them.',
  ['inputs','histories','configurations','fault_sequences'],
  'all histories of operations in all configurations, all failure points, any number of entries',
  'The existing tests use a handful of entries and do not count comparisons; a structure that has become a linear list still passes them.',
  [M+'Heap.h',M+'TourTree.h',M+'StlSet.h',M+'Geobucket.h',M+'GeoFront.h',M+'HashTable.h',M+'PairQueue.h'],
  [('sift to a leaf and up again',M+'Heap.h pop'),('capacity of a bucket is geoBase times that of the one before',M+'Geobucket.h'),('mMaxCountBeforeRebuild and grow',M+'HashTable.h'),('pair data is computed by incrementRowIndex',M+'PairQueue.h')],
  [],['push, pop, top, decreaseTop, forAll','insert, remove, lookup','addColumnDescending, pop, topPair'])
p('C28', 'Divisor finders rebuild themselves when documented, and queries are pruned',
  'With automatic rebuilds, a divisor finder rebuilds itself after max(size() * ratio, min) insertions and removals of entries since it was last built or rebuilt, neither earlier nor later, and without automatic rebuilds never; when a rebuild fails for lack of memory or because a callback threw, it is made up for within the same number of further changes. '
  'A query tests each entry at most once, and never rebuilds anything. Once masks or tree have been built from entries of the kind that is stored (by a rebuild, by an automatic rebuild or by filling an empty finder), queries of random monomials test only a small part of the entries that are not answers: whatever the number and the scale of the variables, with div masks at least two bits wide per variable a few percent, with a tree alone less than half. With the divisor cache, a monomial of which a divisor has just been found costs one test.',
  ['inputs','histories','configurations','fault_sequences'],
  'all histories of insertions, removals, rebuilds and queries, all rebuild settings and configurations, all failure points',
  'Masks, trees, the cache and rebuilds never change an answer, so no test of answers notices when they stop working.',
  [M+'DivFinder.h',M+'DivList.h',M+'KDTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h',M+'KDEntryArray.h',M+'DivMask.h'],
  [('count down the changes till a rebuild',M+'KDTree.h, DivList.h reportChanges'),('the bits of a variable divide the range of its exponents',M+'DivMask.h Calculator::rebuild'),('skip the half of the tree that cannot hold answers',M+'BinaryKDTree.h, PackedKDTree.h'),('try the last answer first',M+'KDTree.h findDivisor')],
  [],['insert, removeElement, removeMultiples, rebuild, clear','findDivisor, findAllDivisors, findAllMultiples'])
p('C29', 'Printing a container shows what it holds, whatever the stream does, and changes nothing',
  'At every point of every history, printing a Heap, StlSet, ComTree, BinaryKDTree or PackedKDTree shows each entry that is held exactly once and no other, a ComTree in breadth first order; printing a Geobucket shows the size and capacity of each of its buckets, adding up to the entries held, all entries of buckets of at most four and the first two and last two of larger ones; queues start with their name, and the name of a container does not depend on its content or history. Printing the same container twice gives the same text, and nothing that is held, found or printed afterwards is changed by printing. '
  'When the stream refuses output, memory runs out while printing or printing an entry throws, then what has been written is the start of the complete text, an exception or the state of the stream tells if something is missing, and the container is as it was and can be used and printed again.',
  ['inputs','histories','fault_sequences'],
  'all histories, configurations and contents; a refusal at any character, a failure at any allocation and at any entry while printing',
  'No existing test prints a container.',
  [M+'Heap.h',M+'TourTree.h',M+'StlSet.h',M+'Geobucket.h',M+'ComTree.h',M+'BinaryKDTree.h',M+'PackedKDTree.h'],
  [('nodes still to print are kept in the scratch vector of queries, which is cleared on the way out',M+'BinaryKDTree.h, PackedKDTree.h print'),('buckets are shown in part',M+'Geobucket.h print')],
  [],['print','operator<< of ComTree','getName'])
p('C30', 'No operation leaves what the language defines',
  'No history of operations that keeps to the documented contract makes the library do what C++ leaves undefined, whatever values are stored, also while memory runs out or callbacks throw and in the recovery that is promised afterwards: no arithmetic on a signed type overflows (in particular not with exponents up to the largest that their type can represent), no shift is by more than the width of its operand, no number is converted to a type that cannot represent it, nothing is read or written through a null pointer, at an address that is not aligned for its type (entries of structures need at most the alignment of a pointer) or outside an array of known bounds, no bool or enumeration has a value that it cannot have, no function that returns a value ends without one, and no member is used of an object that is not of its type. What an optimizing compiler makes of the library is therefore what its source says.',
  ['inputs','histories','configurations','fault_sequences'],
  'all histories that keep to the contract, all stored values, all configurations, all faults',
  'The test suite is built without such checks, stores small values, and undefined behaviour passes tests until a compiler, an optimization level or a processor takes advantage of it.',
  [M+'DivMask.h',M+'KDEntryArray.h',M+'BitTriangle.h',M+'Geobucket.h',M+'HashTable.h',M+'Timer.cpp',M+'ColumnPrinter.cpp',M+'BinaryKDTree.h',M+'PackedKDTree.h'],
  [('points of the mask bits grow up to the largest exponent',M+'DivMask.h rebuild, rebuildDefault'),('entries are constructed in raw memory',M+'KDEntryArray.h, PairQueue.h, HashTable.h, PackedKDTree.h')],
  [],['all operations'])
p('C31', 'Div mask statistics count what happens and change nothing',
  'A program compiled with MATHIC_TRACK_DIV_MASK_HIT_RATIO=x prints a table of statistics to std::cerr after each 2^x mask checks and at no other time. Its numbers are what has happened since the start of the program: masks computed, mask checks and those that ruled out divisibility, tests of divisibility that started with a mask and those of them that the mask decided or that turned out to divide, so that every call of divides() of the configuration by a finder with masks (apart from trying the divisor cache) is a test that no mask decided, and percentages are right to a tenth of a percent, also of nothing. '
  'All answers, contents, effects and costs of finders are as without statistics, in every history, also when memory runs out while a table is printed or callbacks throw in the middle of a test.',
  ['inputs','histories','configurations','fault_sequences'],
  'all histories, all configurations with masks, all faults (a table during whose operation an allocation failed may lack text, as the streams of a ColumnPrinter do)',
  'No test is built with the statistics; on the original tree they did not even compile.',
  [M+'DivMask.h',M+'DivMask.cpp',M+'ColumnPrinter.cpp'],
  [('counters are updated where masks are computed and checked',M+'DivMask.h canDivide, compute, Extender::divides'),('the table is printed in the middle of a query',M+'DivMask.h canDivide')],
  [],['insert, removals, rebuild and all queries of divisor finders','DivMask::canDivide'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
