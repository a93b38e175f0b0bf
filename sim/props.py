PQ_REAL = 'Heap, ComTree, TourTree, Geobucket (192 instantiations), GeoFront and StlSet, compiled unmodified from /repo/src/mathic'
PQ_STUB = 'operator new/delete of the process (counting, tracking, failing on command); the user-supplied compare/deduplicate/visitor callbacks and the entry type'
DIV_REAL = 'KDTree, BinaryKDTree, PackedKDTree, KDEntryArray, DivList, DivMask, Comparer (52 instantiations) and libmemtailor arenas, compiled unmodified from /repo/src/mathic'
DIV_STUB = 'operator new/delete of the process; the user-supplied entry, monomial, exponent, divides, order, visitor and output callbacks'
COMMON = ['sampling, not proof: a clean campaign is evidence only',
          'compiled with g++ -O1 -fsanitize=address; memory errors are judged by AddressSanitizer',
          'callbacks obey the documented contract (strict weak order, ranges sorted) except where a fault is injected']
PROPS = {
 'C01': dict(binary='pq', runs=dict(quick=240000, thorough=1200000),
   rule='Each run draws a queue type and configuration, 1-3 queues, a key distribution and 3-160 (thorough 400) operations; half of the runs inject allocation failures at a drawn allocation of drawn operations.',
   state='estimated distinct (configuration, operation, fault seen, content size, multiplicity of the maximum) tuples, linear counting',
   real=PQ_REAL, stubs=PQ_STUB, assumptions=COMMON),
 'C02': dict(binary='pq', runs=dict(quick=240000, thorough=1200000),
   rule='As C01 with merging configurations only and 1-40 distinct keys.',
   state='as C01', real=PQ_REAL, stubs=PQ_STUB, assumptions=COMMON),
 'C03': dict(binary='pq', runs=dict(quick=240000, thorough=1200000),
   rule='As C01 over all configurations; 85% of the runs inject exceptions from compare, deduplicate, entry copies or visitors, and allocation failures.',
   state='as C01', real=PQ_REAL, stubs=PQ_STUB, assumptions=COMMON),

 'C04': dict(binary='pairq', runs=dict(quick=120000, thorough=800000),
   rule='Each run draws a PairQueue configuration (retirement, construct/destruct customisation), a key function and 3-120 (thorough 300) operations on one or two queues; 3% of the runs start past 65520 columns; about half inject failures into additions and pops.',
   state='estimated distinct (configuration, column count, live pairs, retired pairs) tuples',
   real='PairQueue, TourTree, ComTree and libmemtailor arenas, unmodified', stubs=PQ_STUB, assumptions=COMMON),
 'C05': dict(binary='pairq', runs=dict(quick=120000, thorough=800000),
   rule='As C04 with 80% of the runs injecting failures and most queues destroyed partly consumed.',
   state='as C04', real='PairQueue, TourTree, ComTree and libmemtailor arenas, unmodified', stubs=PQ_STUB, assumptions=COMMON),
 'C06': dict(binary='div', runs=dict(quick=120000, thorough=1000000),
   rule='Each run draws one of 52 divisor finder configurations (KDTree binary/packed, leaf size 1/2/4/11, masks, tree masks, removals; DivList array/linked with/without masks) and run-time settings, 1-40 variables, one of five exponent distributions, and 2-90 (thorough 200) operations on one or two finders; a third of the runs inject faults.',
   state='estimated distinct (configuration, settings, content size, variables, faults so far) tuples, linear counting',
   real=DIV_REAL, stubs=DIV_STUB, assumptions=COMMON),
 'C07': dict(binary='div', runs=dict(quick=100000, thorough=1000000),
   rule='As C06 with 60% of the runs injecting faults.',
   state='as C06', real=DIV_REAL, stubs=DIV_STUB, assumptions=COMMON),
 'C08': dict(binary='div', runs=dict(quick=80000, thorough=1000000),
   rule='As C06 with queries and rebuilds more frequent and 85% of the runs aborting operations.',
   state='as C06', real=DIV_REAL, stubs=DIV_STUB, assumptions=COMMON),
 'C09': dict(binary='div', runs=dict(quick=80000, thorough=1000000),
   rule='As C06 with 85% of the runs aborting operations, including by failing entry copies.',
   state='as C06', real=DIV_REAL, stubs=DIV_STUB, assumptions=COMMON),
 'C10': dict(binary='hash', runs=dict(quick=300000, thorough=1500000),
   rule='Each run draws one of 3 HashTable instantiations, 1-2 tables, a hash quality (perfect to constant), an initial size and a history of inserts, repeated inserts, lookups, value changes, removals, resets and hardResets; about 65% inject failing allocations, key/value copies, hash or equality callbacks.',
   state='estimated distinct (table kind, hash quality, size, faults so far) tuples, linear counting',
   real='HashTable and libmemtailor pools, unmodified', stubs='operator new/delete of the process; the user-supplied key, value, hash and equality', assumptions=COMMON),
 'C11': dict(binary='bits', runs=dict(quick=240000, thorough=1500000),
   rule='Each run draws 1-3 BitTriangles, a maximal column count (up to 300, thorough 700) and a history of column additions, bit writes near machine word and triangle edges, copies and recreations; 70% of the runs inject failing allocations.',
   state='estimated distinct (bit pattern, faults so far) of triangles up to 24 columns, else column counts',
   real='BitTriangle, unmodified', stubs='operator new/delete of the process', assumptions=COMMON),
 'C12': dict(binary='nest', runs=dict(quick=30000, thorough=400000),
   rule='Each run draws 2-6 containers of any kind (lists and trees weighted highest) and a tree of 6-120 (thorough 260) calls in which a call may be made from inside the n-th callback of another one, up to 8 deep; callers hold patterned blocks of the shared scratch arena around and between calls; 65% of the runs inject callback, copy and allocation failures into individual calls at any depth, 15% fail only the growth of the scratch arena. Every actor is then run alone on the same calls and all results compared.',
   state='estimated distinct (depth, outcome, called container and action, calling container and action) tuples',
   real='KDTree, DivList, Heap, TourTree, Geobucket (48 instantiations), PairQueue, HashTable and libmemtailor arenas, unmodified',
   stubs='operator new/delete of the process; all user-supplied callbacks; the callers', assumptions=COMMON),
 'C13': dict(binary='timer', runs=dict(quick=300000, thorough=1500000),
   rule='Each run draws a start time and a history of clock advances (below a tick to hundreds of hours), resets, reads and both prints on several timers; the clock also moves while it is read and while a slow stream is written; printing streams may fail.',
   state='estimated distinct (hours, minutes, seconds, millisecond class) tuples shown',
   real='Timer, unmodified', stubs='clock() of the C library (simulated processor clock); the stream buffer; operator new/delete', assumptions=COMMON),
 'C14': dict(binary='cli', runs=dict(quick=120000, thorough=1000000),
   rule='Each run draws a set of registered actions and parameters with overlapping prefixes and a history of registrations, parses (valid, ambiguous, unknown, rejected arguments, missing arguments, direct parameters, nested parses) and help requests; 65% of the runs inject failing allocations, parameters or streams.',
   state='estimated distinct (operation, outcome, registered names, faults so far) tuples',
   real='CliParser, NameFactory, Action, all CliParameter classes, HelpAction, unmodified', stubs='operator new/delete of the process; user-defined actions and parameters; standard error', assumptions=COMMON),
 'C15': dict(binary='text', runs=dict(quick=120000, thorough=1000000),
   rule='Each run draws tables with 0-6 columns of any alignment, prefix, suffix and repeat-fill, ragged and nested contents, and prints them to streams that accept any number of characters, then refuse or throw, with allocation failures while building and printing.',
   state='estimated distinct (columns, rows, widths, outcome, accepted length class) tuples',
   real='ColumnPrinter, unmodified', stubs='operator new/delete of the process; the stream buffers and FILE objects', assumptions=COMMON),
 'C16': dict(binary='fmt', runs=dict(quick=300000, thorough=2000000),
   rule='Each run is a history of calls to the ten formatting helpers with numbers at powers of ten and two, rounding limits, overflow limits and at random; 65% of the runs fail allocations inside the helpers.',
   state='estimated distinct (helper, magnitude of the arguments, outcome, length of the text) tuples',
   real='the formatting helpers of ColumnPrinter, unmodified', stubs='operator new/delete of the process', assumptions=COMMON),
 'C17': dict(binary='mask', runs=dict(quick=120000, thorough=1000000),
   rule='Each run draws an exponent type (int, unsigned, short, unsigned char, unsigned long), 0-70 variables, an exponent distribution and a history of rebuilding mask parameters, computing, recomputing and comparing masks and lower bounds, copying parameters; 65% of the runs abort rebuilds and computations by failing allocations and exponent callbacks.',
   state='estimated distinct (masks held, variables, monomials, distribution, type, faults so far) tuples',
   real='DivMask, its Calculator, Extender and HasDivMask, unmodified', stubs='operator new/delete of the process; the exponent and divides callbacks', assumptions=COMMON),
 'C18': dict(binary='text', runs=dict(quick=80000, thorough=1000000),
   rule='Each run displays a history of messages (words of 1-200 characters, any spacing, prefixes and indentation) on a standard error that accepts any number of characters and then refuses, with allocation failures at any point.',
   state='estimated distinct (words, width class, outcome, accepted length class) tuples',
   real='display.cpp and error.h, unmodified', stubs='operator new/delete of the process; the FILE behind standard error', assumptions=COMMON),
 'C23': dict(binary='bound', runs=dict(quick=200000, thorough=2000000),
   rule='Each run draws one container (52 finders, 56 queues, HashTable, PairQueue, BitTriangle) and a round of 1-25 (thorough 60) operations, done three times over; after each operation the memory the container reports is compared with the heap memory it holds. 60% of the runs fail allocations, callbacks or entry copies.',
   state='estimated distinct (container, bytes reported) tuples',
   real='KDTree, DivList, Heap, TourTree, StlSet, Geobucket (48 instantiations), PairQueue, HashTable, BitTriangle and libmemtailor arenas, unmodified',
   stubs='operator new/delete of the process; all user-supplied callbacks', assumptions=COMMON),
 'C24': dict(binary='qsim', runs=dict(quick=60000, thorough=600000),
   rule='Each run either draws 1-3 of 46 model instantiations (tournament tree, heap, set and geobucket, on elements or spans, with or without deduplication) and a history of span pushes and pops, or generates simulations of any kind with drawn parameters and random numbers, lets a recorder and drawn models run them and checks everything printed; half of the runs inject failing allocations.',
   state='estimated distinct (model, values held, faults so far) tuples',
   real='src/pqsim (Simulator, Model, Item, all models) and Heap, TourTree, StlSet, Geobucket, ColumnPrinter, unmodified', stubs='operator new/delete, rand, clock and exit of the process; standard error', assumptions=COMMON),
 'C25': dict(binary='dsim', runs=dict(quick=60000, thorough=600000),
   rule='Each run either draws 1-3 of 20 model instantiations (divisor lists and kd-trees of every kind, minimizing or not, with the cache or sorting or moving to front) and a history of insertions and queries compared with a plain list of vectors, or generates simulations with drawn parameters and random numbers, lets a recorder, drawn models and finders that are wrong once run them and checks the outcome table; half of the runs inject failing allocations.',
   state='estimated distinct (model, values held, settings, faults so far) tuples',
   real='src/divsim (Simulation, Monomial, DivListModel, KDTreeModel) and DivList, KDTree, DivMask, ColumnPrinter, Timer, unmodified', stubs='operator new/delete, rand, clock and exit of the process; standard output and error', assumptions=COMMON),
 'C19': dict(binary='own', runs=dict(quick=240000, thorough=1500000),
   rule='Each run draws one of TourTree, StlSet, Heap, ComTree (both index forms), BitTriangle, ColumnPrinter and NameFactory, 2-5 objects of it and a history of changes, copies, moves, assignments, swaps and destructions in any order; 60% of the runs inject failing allocations, entry copies and comparisons.',
   state='estimated distinct (type, content size, capacity, faults so far) tuples',
   real='TourTree, StlSet, Heap, ComTree, BitTriangle, ColumnPrinter, NameFactory, unmodified', stubs='operator new/delete of the process; the user-supplied entry, configuration and products', assumptions=COMMON),
 'C20': dict(binary='own', runs=dict(quick=240000, thorough=1500000),
   rule='Each run draws an index form, 1-3 trees with or without an initial capacity and a history of additions with and without growth, removals, writes through nodes, growth, copies, moves, swaps and walks; 65% of the runs inject failing allocations and entry copies.',
   state='as C19', real='ComTree, unmodified', stubs='operator new/delete of the process; the user-supplied entry', assumptions=COMMON),
 'C21': dict(binary='names', runs=dict(quick=100000, thorough=1000000),
   rule='Each run draws 1-3 factories, names that are often prefixes of each other, and a history of registrations, requests by name and by prefix, listings, copies and recreations; in 40% of the runs product constructors make requests themselves; 70% inject failing allocations and product constructors.',
   state='estimated distinct (names registered, names with a drawn prefix, faults so far) tuples',
   real='NameFactory and error.h, unmodified', stubs='operator new/delete of the process; the products', assumptions=COMMON),
 'C22': dict(binary='bound', runs=dict(quick=100000, thorough=400000),
   rule='Each run draws one container (52 finders, 56 queues, HashTable, PairQueue) and a round of 1-25 (thorough 60) operations that ends with it empty; 60% of the runs fail allocations, callbacks or entry copies at the same points of every round. The round is repeated 32 times, and 1000 times if what is held has grown.',
   state='estimated distinct (container, bytes held at the peak of a round) tuples',
   real='KDTree, DivList, Heap, TourTree, StlSet, Geobucket (48 instantiations), PairQueue, HashTable and libmemtailor arenas, unmodified',
   stubs='operator new/delete of the process; all user-supplied callbacks', assumptions=COMMON),
 'C27': dict(binary='cost', runs=dict(quick=60000, thorough=600000),
   rule='Each run draws one queue (Heap, TourTree, StlSet, Geobucket; 56 instantiations), a HashTable or a PairQueue and a history of 2-10 bulk operations of up to 400 (thorough 1000) elements each, with ascending, descending or random keys of any spread; 60% of the runs fail allocations, callbacks or entry copies. Every simulated callback is counted and compared with a bound on the work.',
   state='estimated distinct (container, size class, faults so far) tuples',
   real='Heap, TourTree, StlSet, Geobucket (48 instantiations), HashTable, PairQueue, unmodified',
   stubs='operator new/delete of the process; all user-supplied callbacks', assumptions=COMMON + ['the hash function of the simulated user spreads keys evenly; work is measured in calls of user callbacks, not in time']),
 'C28': dict(binary='cost', runs=dict(quick=60000, thorough=600000),
   rule='Each run draws one of 52 finders with drawn rebuild settings, 2-35 variables whose magnitudes are equal or differ by up to 500 times, and a history of 2-14 operations on up to 2500 entries: insertions, ranges, removals, rebuilds, clears and batteries of 20 queries; 60% of the runs fail allocations, callbacks or entry copies. Automatic rebuilds are recognised by the exponents they read.',
   state='estimated distinct (instantiation, size class, faults so far, automatic rebuilds so far) tuples',
   real='KDTree (48 instantiations), DivList (4), DivMask and libmemtailor arenas, unmodified',
   stubs='operator new/delete of the process; all user-supplied callbacks', assumptions=COMMON + ['entries are drawn uniformly, and all are different; work is measured in calls of user callbacks, not in time']),
 'C29': dict(binary='show', runs=dict(quick=120000, thorough=1000000),
   rule='Each run draws one of 82 containers (Heap, TourTree, StlSet, 48 Geobuckets, ComTree, 9 BinaryKDTrees, 9 PackedKDTrees), up to 60, rarely 300 (thorough 700) entries and a history of 2-20 (thorough 40) additions, removals, rebuilds, clears and prints; 75% of the runs refuse a character of the output, fail an allocation while printing, or throw from the operator<< of an entry.',
   state='estimated distinct (container, entries held, operation, faults so far) tuples',
   real='Heap, TourTree, StlSet, Geobucket, ComTree, BinaryKDTree and PackedKDTree, unmodified', stubs='operator new/delete of the process; the stream buffer printed to; all user-supplied callbacks, including operator<< of entries', assumptions=COMMON),
 'C26': dict(
   parts=[('dbg/' + b, n, dict(quick=q, thorough=t)) for b, n, q, t in [
     ('pq', 'C01', 12000, 200000), ('pq', 'C02', 8000, 150000), ('pq', 'C03', 8000, 150000),
     ('div', 'C06', 12000, 200000), ('div', 'C07', 6000, 100000), ('div', 'C08', 8000, 150000), ('div', 'C09', 6000, 100000),
     ('pairq', 'C04', 12000, 150000), ('pairq', 'C05', 12000, 150000), ('hash', 'C10', 16000, 200000),
     ('bits', 'C11', 8000, 100000), ('nest', 'C12', 5000, 80000), ('own', 'C19', 8000, 100000), ('own', 'C20', 8000, 100000),
     ('mask', 'C17', 8000, 100000), ('names', 'C21', 4000, 50000), ('cli', 'C14', 4000, 50000),
     ('text', 'C15', 6000, 80000), ('text', 'C18', 4000, 50000), ('fmt', 'C16', 8000, 100000),
     ('qsim', 'C24', 3000, 40000), ('dsim', 'C25', 3000, 40000), ('show', 'C29', 6000, 60000),
     ('bound', 'C22', 1000, 10000), ('bound', 'C23', 4000, 40000)]],
   rule='The histories and faults of C01-C12, C14-C25 and C29 over again in programs built with MATHIC_DEBUG and MATHIC_SLOW_DEBUG, each judged as its own property judges it; no fault is injected while an assertion is evaluated. Histories whose refusal by an assertion is documented (removals from a structure without removals, more equal entries than a leaf holds) are left out.',
   state='as the properties whose histories are run, added up',
   real='all of src/mathic but Timer, and src/pqsim and src/divsim, unmodified, with all their assertions', stubs='as the properties whose histories are run, and the reporting of failed assertions (assert)', assumptions=COMMON),
 'C30': dict(
   parts=[('ub/' + b, n, dict(quick=q, thorough=t)) for b, n, q, t in [
     ('pq', 'C01', 20000, 300000), ('pq', 'C02', 16000, 200000), ('pq', 'C03', 16000, 200000),
     ('div', 'C06', 24000, 400000), ('div', 'C07', 12000, 200000), ('div', 'C08', 16000, 200000), ('div', 'C09', 12000, 200000),
     ('pairq', 'C04', 16000, 200000), ('pairq', 'C05', 16000, 200000), ('hash', 'C10', 24000, 300000),
     ('bits', 'C11', 12000, 150000), ('nest', 'C12', 8000, 100000), ('own', 'C19', 12000, 150000), ('own', 'C20', 12000, 150000),
     ('mask', 'C17', 16000, 200000), ('names', 'C21', 6000, 80000), ('timer', 'C13', 6000, 80000), ('cli', 'C14', 6000, 80000),
     ('text', 'C15', 8000, 100000), ('text', 'C18', 6000, 80000), ('fmt', 'C16', 12000, 150000),
     ('bound', 'C22', 1500, 20000), ('bound', 'C23', 6000, 80000), ('cost', 'C27', 4000, 50000), ('cost', 'C28', 4000, 50000),
     ('qsim', 'C24', 4000, 50000), ('dsim', 'C25', 4000, 50000), ('show', 'C29', 8000, 80000)]],
   rule='The histories and faults of C01-C25 and C27-C29 over again in programs built with -fsanitize=undefined,float-cast-overflow, in which the first operation that the language leaves undefined ends the run; each run is also judged as its own property judges it.',
   state='as the properties whose histories are run, added up',
   time='only the parts of C13 have a clock; it is simulated',
   real='all of src/mathic, and src/pqsim and src/divsim, unmodified', stubs='as the properties whose histories are run', assumptions=COMMON),
 'C31': dict(
   parts=[('stat/' + b, n, dict(quick=q, thorough=t)) for b, n, q, t in [
     ('div', 'C06', 16000, 250000), ('div', 'C07', 8000, 120000), ('div', 'C08', 10000, 150000), ('div', 'C09', 8000, 120000),
     ('mask', 'C17', 8000, 80000), ('cost', 'C28', 6000, 60000),
     ('show', 'C29', 6000, 60000)]],
   rule='The histories and faults of C06-C09, C17, C28 and C29 over again in programs built with MATHIC_TRACK_DIV_MASK_HIT_RATIO=5, each judged as its own property judges it, with std::cerr captured and each table of statistics judged when it is complete.',
   state='as the properties whose histories are run, added up',
   real='KDTree, DivList, BinaryKDTree, PackedKDTree, DivMask with its statistics, and ColumnPrinter, unmodified', stubs='as the properties whose histories are run, and the buffer of std::cerr', assumptions=COMMON),
}
NOT_APPLICABLE = {}
