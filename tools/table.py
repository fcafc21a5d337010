t('C01', 'A case is a random pool of values, a Vector, Deque or ImmutableSequence built from a random kind of iterable, and about 18 random operations, each compared with a list model. '
  'Non-trivial: at least one operation ran on a non-empty list. Distinct: hash of the choice sequence.')
t('C02', 'As C01 for LowMemoryVector, IntVector and BitVector, with pools on representation boundaries and values of the wrong type. '
  'Non-trivial: at least one operation ran on a non-empty list.')
t('C03', 'A case is a random pool of keys of all types, a StrictHashMap or StrictHashSet built from a random source, and about 18 random operations (including bulk inserts, removals and churn) compared with an insertion-ordered model. '
  'Non-trivial: at least one operation ran with two or more entries present.')
t('C04', 'As C03 for StrictTreeMap/Set and StrictSortedVectorMap/Set against a model sorted by an independent implementation of the documented order. '
  'Non-trivial: at least one operation ran with two or more entries present.')
t('C05', 'A case is a random pool, a min or max heap built from a random source, and about 20 random adds/extracts/iteration steps/bulk operations, compared after each step with a sorted multiset. '
  'Non-trivial: an operation ran with three or more elements.')
t('C06', 'A case is a random multiset of ints (strings) on width and length boundaries, one of the three sorted sets built from a random kind of iterable, and about 18 random queries/updates compared with a sorted list of distinct members. '
  'Non-trivial: an operation ran with two or more members.')
PAIRS = 'property-based testing: generated related values against an independent reference implementation and algebraic laws, shrinking, sanitizer build'
t('C07', 'A case is a set of 3-12 values of all types, most of them neighbours of others in it (next int, equal float, next float, string prefixes, reordered arrays); all pairs are compared with an independent implementation, all pairs and triples with the order axioms, and the sorted sets with the resulting order. '
  'Non-trivial: two different slots hold values of the same rank.', tech=PAIRS, quick={'asan': [5, 120000], 'plain': [3, 240000]})
t('C08', 'A case is a set of 3-10 values, most of them other representations of earlier ones (hash instead of packed, tombstones, references, other NAN bits, signed zero, separate strings) or near misses; all pairs are checked against identity; some cases hash self-containing arrays or families of simple values. '
  'Non-trivial: two slots hold equal non-object values, or a special case.', tech=PAIRS, quick={'asan': [5, 120000], 'plain': [3, 240000]})
t('C09', 'A case is a collection of any of the 20 classes built from a random source and up to 4 changes, sent through one serialized form (serialize, var_export + eval, __set_state, the class\'s own codec, binary string, nested twice in another collection, with shared objects, containing itself), compared with the original, and then changed in lockstep with it. '
  'Non-trivial: two or more entries.')
t('C10', 'A case is one hostile input for one of the 20 classes: a valid serialized form with byte damage, damage only inside the binary payload, an object with arbitrary members (string keys, holes, PHP references, references to itself, helper objects that use the collection before it is complete), an arbitrary array for __set_state, a second __unserialize call, or random bytes for the class\'s own decoder. The result, and every collection user code got hold of, is checked against the class invariants, re-serialized and changed further. '
  'Non-trivial: every case that reached a decoder.', tech='structure-aware fuzzing of the decoders with generated and mutated inputs against class-invariant oracles, shrinking, sanitizer build', quick={'asan': [5, 100000], 'plain': [3, 200000]})
t('C11', 'A case is a collection of one of 16 classes and about 24 interleaved steps: starting, advancing, rewinding, dropping up to four foreach loops and explicit iterators, and changing the collection (single and bulk insertions, removals, overwrites, clear, resize, clones), against a model in which every iterator sits on an entry. At the end every iterator is run to its end. '
  'Non-trivial: an iterator whose entry was removed was advanced.', tech='stateful property-based testing of interleaved iterators and changes against a reference model, shrinking, sanitizer build', quick={'asan': [5, 60000], 'plain': [3, 120000]})
t('C12', 'A case is a collection of any class holding objects whose destructors, __serialize, jsonSerialize, __debugInfo run user code, and about 12 operations (changes, callbacks of map/filter and of the Teds functions, re-entrant sources, error handlers, foreach bodies, unfinished objects under construction); the user code changes, clears, clones, dumps, iterates, replaces or releases the same collection, up to three levels deep, and sometimes throws. After every operation the class invariants are checked; memory errors are seen by the sanitizer build. '
  'Non-trivial: user code ran inside an operation.', tech='stateful fuzzing of re-entrant user code against class invariants, shrinking, AddressSanitizer build', quick={'asan': [5, 20000], 'plain': [3, 40000]})
t('C21', 'A case is a collection of any of the 20 classes and about 12 steps, two thirds of them calls that cannot be carried out (bad offsets, offset types and element types, empty collections, missing keys, refused mutators, second construction or unserialization, throwing callbacks, sources that throw at a random point of a random iterator method, bad pairs). Each has to throw an acceptable exception (the user\'s own one unchanged), and contents, invariants and any iterator in progress have to be as before. '
  'Non-trivial: a failing call ran on a non-empty collection.', tech='stateful property-based testing with injected failures against a snapshot of the collection, shrinking, sanitizer build', quick={'asan': [5, 20000], 'plain': [3, 40000]})
t('C13', 'Three kinds of case. Reference counts: up to three collections of one class hold values shared with a pool and objects nobody else holds; after each of about 14 operations (changes, clones, reads of every kind, iterators, map/filter, failing calls and constructions, throwing callbacks) every shared value\'s reference count and the set of living objects must be exactly what the contents demand. Repetition (ordinary allocator only): a random history of any of the 20 classes, including hostile unserialization, is run again and again; memory must not grow every time. Cycles: a random object graph through up to six collections; the garbage collector must reclaim exactly the unreachable nodes and leave the others unchanged. '
  'Non-trivial: more than two operations were checked, a history was repeated, or the graph has an edge.', tech='stateful property-based testing against an exact ownership model (reference counts, living objects, memory use, reachability), shrinking, sanitizer build', quick={'asan': [5, 60000], 'plain': [3, 120000]})
t('C20', 'A case is a world of up to five collections of one of the 20 classes (built from random sources, from arrays of references to variables, by reference generators, __set_state and fromPairs of references, clones, copies, unserialized), arrays taken from or given to them, referenced variables and live iterators, and about 14 steps, each of which changes one of them (or attempts an indirect write below an element); everything else must be exactly as before, and untouched collections\' iterators go on as planned. '
  'Non-trivial: at least two things existed when a step ran.', tech='stateful property-based testing with a frame-condition oracle (all but the changed object stays identical), shrinking, sanitizer build', quick={'asan': [5, 12000], 'plain': [3, 24000]})
t('C14', 'A case is an immutable collection (or an Empty* instance) and about 14 calls of any of its methods with random arguments, array-access writes and unsets, writes through references and below elements, re-construction, re-unserialization, vandalised results and callbacks; contents read in every way must stay those at construction, and a call that asks for a change must throw. One case in three runs the independence check of C20 on the immutable classes. '
  'Non-trivial: a call on a non-empty collection or an Empty* instance.', tech='stateful property-based testing (random method calls) against the snapshot at construction, shrinking, sanitizer build', quick={'asan': [5, 18000], 'plain': [3, 36000]})
t('C15', 'A case is an ImmutableIterable or MutableIterable built from a random kind of source (or fromPairs, __set_state, unserialize) with keys of every type, repeated, and about 18 queries and changes compared with a list of pairs. '
  'Non-trivial: an operation ran with at least one pair present.', quick={'asan': [5, 25000], 'plain': [3, 50000]})
t('C16', 'A case is a source of up to 60 pairs (generator, iterator, aggregate, nested CachedIterable, array, collection) that ends, throws or must never be read to its end, counting every element it hands out and every call it gets, and about 20 accesses: offsets, searches, sizes, listings and up to four interleaved iterators. Results are compared with the pair list; the number of elements produced must never exceed what the accesses so far need; nothing is fetched twice. '
  'Non-trivial: the source has an element and is accessed.', tech='stateful property-based testing with an instrumented source against a reference model of laziness, shrinking, sanitizer build')
t('C17', 'A case is one of the seven iterable functions, a list of up to 50 values presented by a random kind of iterable (arrays of every shape, generators, iterators and aggregates that record what they are asked and may throw in any method, collections), and a callback in one of eleven callable forms with a table of results of all types, which may throw or change the iterated collection. The same call of the README code is made on an equal source; result, exception, callback arguments, what the source was asked, diagnostics and what is left of the source must agree. One case in eight runs array_value_first/last and is_same_array_handle on variables that share or do not share storage. '
  'Non-trivial: the source has an element.', tech='property-based differential testing against the documented PHP implementation, shrinking, sanitizer build', quick={'asan': [5, 120000], 'plain': [3, 240000]})
t('C18', 'A case is an array of up to 3000 ints, floats, strings, arrays or objects sorted by value or key with one of nine comparisons (default, reversed, by length, with ties...), stored packed, with holes in one stretch or spread out, as a hash, as references or immutable, and up to four targets in and between the entries. A linear scan with the same comparison gives the expected answer; targets for which the array is not sorted are skipped. Comparers return results of all magnitudes and types, count their calls, and sometimes throw. '
  'Non-trivial: the array has two or more entries.', tech='property-based testing against a linear-scan oracle with an instrumented comparer, shrinking, sanitizer build', quick={'asan': [5, 120000], 'plain': [3, 240000]})
t('C19', 'A case is a BitVector of up to 400 random bits made in four ways and about 16 steps: reading and writing words of all sizes at valid offsets, at the last partial word and at offsets whose product overflows, byte strings, and changes of the bits and the length by every other operation, compared with a list of booleans after every step. '
  'Non-trivial: a step ran with at least one whole byte present.', tech='stateful property-based testing against a bit-list model, shrinking, sanitizer build', quick={'asan': [5, 75000], 'plain': [3, 150000]})
t('C25', 'A case is one of the three singletons and about 20 calls: every method, operator, iterator, function and view with arguments of every type. Queries must give exactly the result or exception that the empty ImmutableSequence, StrictHashSet or StrictHashMap gives; calls that need or add an element must be refused; calls that remove nothing must succeed. '
  'Non-trivial: every case with a call.', tech='property-based differential testing against empty collections, shrinking, sanitizer build', quick={'asan': [5, 24000], 'plain': [3, 48000]})
t('C26', 'A case is a sequence or map of one of 9 classes, a twin of it, and about 20 uses of the array-access operators (read, isset, empty, ??, write, append, unset, compound assignment, ??=, destructuring, nested reads) with offsets of every type and every boundary, held in variables, references, temporaries, constants or not defined at all; the twin gets the corresponding offset* call. Both results and both contents must equal those of a model in which PHP\'s own arrays convert the offset. '
  'Non-trivial: an operator ran with two or more entries present.', tech='stateful property-based differential testing (operators against methods against a model), shrinking, sanitizer build', quick={'asan': [5, 60000], 'plain': [3, 120000]})
t('C24', 'A case is a collection of any of the 20 classes and about 20 steps, each a random change (every kind of change of the class) or one of 27 ways of reading it (sizes, listings, foreach, nested foreach, iterators, searches for members and near misses, offsets, ends, var_export, var_dump, print_r, (array), json_encode with various flags, serialize, ...). Each view must describe the contents that a listing of a clone taken after the last change gives, in the same order; reading must not change the contents; arrays read earlier must stay as they were. At the end all views are read once. '
  'Non-trivial: a view was read with two or more entries present.', tech='stateful property-based testing: every view against every other (metamorphic), shrinking, sanitizer build', quick={'asan': [5, 20000], 'plain': [3, 40000]})
t('C23', 'A case is one of the 20 classes, a list of up to 130 pairs, and four constructions from random iterables that yield them: arrays of every shape, recording Iterators and aggregates, aggregates of aggregates, iterators with a false count() or that reuse the references they return, generators of six kinds, SPL iterators and containers, other Teds collections; by new, fromPairs (with pairs stored in several ways) or __set_state. All must equal the contents computed by the model and serialize alike; recorders must have been read exactly once from start to end; arrays, positions, references and collections given as a source must be unchanged; a source that throws in any method at any element must make the construction throw that very exception and must not be read further; an unacceptable element must be refused from every kind of source. '
  'Non-trivial: two or more pairs.', tech='property-based differential testing over kinds of sources with recording and failing iterators, shrinking, sanitizer build', quick={'asan': [5, 80000], 'plain': [3, 160000]})
t('C22', 'A case is one long history: thousands of operations at the ends of a large vector or deque, pushed back and forth across its growth and shrink boundaries; growth from empty by single or small additions; add/remove churn on a hash map or set (queue, stack, same key, rotating keys, work list inside foreach, with a held iterator); up to four rounds of sorted, reversed, zigzag or random insertions and removals in a tree; lookups and heap operations on thousands of elements; compact vectors of one width built in seven ways. A build that counts basic blocks and bytes moved by the extension gives the exact cost of the history, which must stay below a bound that a degenerate structure exceeds many times; capacities, tree depth, bytes held and bytes serialized are checked as well. '
  'Non-trivial: every case.', tech='property-based testing of generated long histories against cost bounds, with instrumentation-based exact cost counting, shrinking', quick={'work': [8, 10000]}, mult=20)
