import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
SEQ="tests/Vector, tests/Deque: a few dozen fixed call sequences, each with a handful of elements"
p("C01","Vector and Deque are faithful mutable lists",
 "After any sequence of operations (construction from any iterable, push/pop at both ends, insert, set, unset, clear, resize, reserve, shrink, map, filter, clone), a Vector or Deque holds exactly the list of values those operations describe, in order, at offsets 0..n-1. Every accessor, search and iteration returns the value that list would give, and out-of-range or empty access throws the documented exception instead of returning a value. ImmutableSequence reads, searches, maps and filters as the fixed list it was built from.",
 ["histories","inputs"],"all operation histories, all value mixes, all sizes and ring-buffer positions",
 "The list must be right for every history (growth/shrink points, wrap-around positions, insert at every offset); the tests run "+SEQ+".",
 ["teds_vector.c","teds_deque.c","teds_immutablesequence.c","teds_vector.h","teds_util.h"],
 [("growth, shrink and element moves of the vector","teds_vector.c: teds_vector_push*, teds_vector_entries_raise_capacity, insert, offsetUnset, setSize"),("circular buffer with power-of-two mask","teds_deque.c: teds_deque_raise_capacity, teds_deque_push_front, insert, offsetUnset")])
p("C02","LowMemoryVector, IntVector, BitVector are lossless typed lists",
 "LowMemoryVector, IntVector and BitVector hold exactly the list of values given to them, with value and type preserved (an int never becomes a float, -0.0 and NAN survive, no wrap-around at any width), whatever compact representation is in use and whenever it changes. IntVector and BitVector refuse every value that is not an int or bool with TypeError and store nothing of it.",
 ["histories","inputs"],"all operation histories and all values, in particular those crossing 8/16/32/64-bit, float/int, bool/null and bit-word boundaries",
 "Each representation change must preserve every element at every position for every history; tests use a few boundary values once each.",
 ["teds_lowmemoryvector.c","teds_intvector.c","teds_bitvector.c","teds_intvector.h"],
 [("type-tag promotion of the packed representation","teds_lowmemoryvector.c: teds_lowmemoryvector_entries_update_type_tag, promote"),("int width promotion","teds_intvector.c: teds_intvector_entries_update_type_tag, teds_intvector_entries_promote_type_tag"),("bit packing","teds_bitvector.c: teds_bitvector_entries_set_value / insert / shift")])
p("C03","Strict hash map and set: unique keys by strict identity, insertion order",
 "StrictHashMap and StrictHashSet behave as a map/set whose keys are any PHP values, two keys being the same exactly when they are identical (===) with NAN equal to itself and 0.0 equal to -0.0. Every history of insert, overwrite, remove, clear, clone and lookup gives the answers of that abstract map, iteration and all listings are in insertion order, and an overwrite keeps the entry's position.",
 ["histories","inputs"],"all operation histories over keys of all types, including colliding hashes and near-equal keys",
 "Needs all histories of inserts and deletes across table growth, tombstone compaction and hash collisions; tests insert a few fixed keys.",
 ["teds_stricthashmap.c","teds_stricthashset.c","teds_stricthashmap.h","teds_stricthashset.h","teds.c"],
 [("open hash with collision chains, packed entries and tombstones","teds_stricthashmap.c: teds_stricthashmap_entries_insert, remove_key, repack"),("strict hashing and equality","teds.c: teds_strict_hash; teds_util.h: teds_is_identical_or_both_nan")])
p("C04","Tree and sorted-vector maps/sets stay sorted and unique by stable order",
 "StrictTreeMap, StrictTreeSet, StrictSortedVectorMap and StrictSortedVectorSet hold exactly the keys/values that any history of inserts, overwrites, removals, pops at either end, clears and clones describes, with keys unique and always enumerated in ascending stable_compare order. First/last/pop/shift return the smallest/largest entry, and the tree and vector variants give the same answers to the same history.",
 ["histories","inputs"],"all operation histories over keys of all types and orders of insertion/removal",
 "Rebalancing and binary insertion must be right for every insert/delete order; tests use short fixed sequences.",
 ["teds_stricttreemap.c","teds_stricttreeset.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_stricttreemap.h","teds_stricttreeset.h"],
 [("red-black insert/remove rebalancing and threaded prev/next links","teds_stricttreemap.c, teds_stricttreeset.c: *_tree_insert, *_tree_remove_node, rebalance"),("binary search insertion into the sorted vector","teds_strictsortedvectorset.c/teds_strictsortedvectormap.c: *_sorted_search, *_insert")])
p("C05","Min/max heaps yield every element in stable_compare order",
 "A StrictMinHeap (StrictMaxHeap) built by any history of adds, extracts, iteration steps, clears, clones and unserialization always has as its top the least (greatest) remaining element under stable_compare, and extracting everything yields each element added and not yet removed exactly as often as it was added, in order. Membership tests and listings agree with that multiset without changing it.",
 ["histories","inputs"],"all interleavings of add/extract/iterate over values of all types with duplicates",
 "Sift-up/down must preserve the heap for every history; tests check a handful of insert-then-drain runs.",
 ["teds_strictheap.c"],
 [("sift up / sift down over an array","teds_strictheap.c: teds_strictheap_insert, extract"),("heapify on construction","teds_strictheap.c: teds_strictheap_entries_init_from_array")])
p("C06","Sorted int/string sets hold exactly their distinct members in order",
 "SortedIntVectorSet, ImmutableSortedIntSet and ImmutableSortedStringSet hold exactly the distinct ints (strings) they were given, whatever the order and multiplicity of the input, in ascending numeric (bytewise) order. contains, indexOf, get, first, last, pop, add, remove and iteration answer as that sorted set would, values of other types are never reported as members, and adding a non-member type throws TypeError.",
 ["histories","inputs"],"all multisets of ints/strings (all widths, lengths and embedded NULs) and all add/remove histories",
 "Must hold for every multiset and width combination; tests use a few small constant lists.",
 ["teds_intvector.c","teds_immutablesortedstringset.c","teds_intvector.h"],
 [("sort + dedupe on construction, binary search on lookup","teds_intvector.c: teds_sortedintvectorset_*; teds_immutablesortedstringset.c: build, binary search over packed offsets")])
p("C07","stable_compare is the documented total order",
 "Teds\\stable_compare is a total order on all PHP values: antisymmetric, transitive, and 0 exactly for values that are indistinguishable (same type and value; NAN compares equal to itself, 0.0 to -0.0). It ranks null < false < true < int/float < string < array < object < resource, compares numbers by exact numeric value with an int before the equal float, strings bytewise, arrays by size and then entry by entry, objects by class name then identity, and resources by id.",
 ["inputs"],"all pairs and triples of PHP values, in particular ints against floats beyond 2^53 and nested arrays",
 "Antisymmetry and transitivity quantify over all pairs/triples, and int/float comparison fails only near precision boundaries; tests compare a few constants.",
 ["teds.c","teds.h"],
 [("type ranking and per-type comparison","teds.c: teds_stable_compare"),("exact int/float comparison","teds.c: teds_stable_compare IS_LONG/IS_DOUBLE cases")])
p("C08","strict_hash is coherent with strict_equals",
 "strict_equals holds exactly for identical values, treating NAN as equal to itself, at any nesting depth and through references. Values that are strict_equals always have equal strict_hash, strict_hash is stable for the lifetime of the values, and distinct simple values (small ints, distinct objects, distinct short strings) do not systematically collide.",
 ["inputs"],"all pairs of values: equal values built in different ways (packed/hash arrays, references, signed zeros, NANs, interned or not) and near-equal ones",
 "Agreement must hold for every pair of representations of equal values; tests hash a few constants.",
 ["teds.c","teds_util.h","teds_util.c"],
 [("recursive hash","teds.c: teds_strict_hash_inner, teds_strict_hash_array"),("identity with NAN","teds_util.h: teds_is_identical_or_both_nan")])
p("C09","Serialized forms round-trip every collection",
 "For every collection instance reachable by any history, unserialize(serialize(x)), re-creating it through its exported __set_state form, and (where offered) the class's own serialize/unserialize or binary-string pair yield a collection of the same class that compares equal in every observable way: same keys, values, types, order, count. Serializing never changes the original. (LowMemoryVector deliberately hides its contents from var_export and var_dump.)",
 ["inputs","histories"],"all contents of all serializable collection classes",
 "Must hold for all contents, widths and lengths, where encodings change at particular boundaries; tests round-trip a few small constants.",
 ["teds_serialize_util.h","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_immutablesortedstringset.c","teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricttreemap.c","teds_strictheap.c","teds_cachediterable.c","teds_immutableiterable.c","teds_mutableiterable.c"],
 [("__serialize/__unserialize/__set_state of each class","teds_*.c: PHP_METHOD(..., __serialize / __unserialize / __set_state)"),("packed int, float, bit and string encodings","teds_intvector.c, teds_lowmemoryvector.c, teds_bitvector.c, teds_immutablesortedstringset.c")])
p("C10","Corrupt or hostile serialized data is rejected cleanly",
 "Feeding arbitrary bytes or structurally arbitrary arrays to unserialize, __unserialize, __set_state or a class's own decoders either throws an exception/returns false, or yields a collection that satisfies all of its class's invariants (counts, order, uniqueness, element types). It never crashes, reads or writes out of bounds, or leaves a collection that misbehaves later.",
 ["inputs"],"all byte strings and array structures offered as serialized form, in particular mutations and truncations of valid ones",
 "Quantifies over all malformed inputs; tests try a few hand-written ones without memory checking.",
 ["teds_serialize_util.h","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_immutablesortedstringset.c","teds_stricthashmap.c","teds_strictsortedvectorset.c","teds_strictsortedvectormap.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_cachediterable.c"],
 [("validation in the decoders","PHP_METHOD(..., __unserialize), *_unserialize_from_string, teds_serialize_read_*")])
p("C11","Iterators stay consistent while the collection is modified",
 "While foreach loops or explicit iterators over a collection are in progress, any other changes to it leave each iterator in a well-defined position: removing the entry an iterator is on moves it to the entry before, removals and insertions elsewhere shift it with its entry, so that no surviving entry is skipped or visited twice and no removed entry is visited. After clear() or a shrinking setSize() an iterator only ever yields entries the collection holds at that time. Several iterators over one collection are independent of each other.",
 ["histories","schedules"],"all interleavings of iterator steps (any number of iterators) and modifications of any iterable collection",
 "Quantifies over all interleavings of iteration and mutation with several iterators; tests exercise one or two scripted interleavings per class.",
 ["teds_internaliterator.h","teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_intvector.c","teds_bitvector.c","teds_lowmemoryvector.c","teds_mutableiterable.c"],
 [("intrusive list of active iterators adjusted on each change","teds_internaliterator.h; *_adjust_iterators_before_remove, *_after_insert, repack")])
p("C12","Re-entrant user code can never corrupt a collection",
 "User code that runs in the middle of an operation (callbacks, destructors of removed values, generators and iterators used as sources, error handlers) may itself read, modify, clear, clone, serialize or release the same collection. Whatever it does, the process never crashes, touches freed memory or loops forever, and the collection afterwards is a valid collection that keeps working.",
 ["programs","histories"],"all programs in which user callbacks, destructors or iterators run inside a collection operation and use that collection",
 "Needs every combination of outer operation and nested operation; tests cover a few scripted ones and run without memory checking.",
 ["teds.c","teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_strictheap.c","teds_mutableiterable.c","teds_cachediterable.c","teds_immutablesequence.c","teds_lowmemoryvector.c"],
 [("detach old storage before destroying values","teds_*.c: clear, set, offsetUnset, setSize, pop"),("hold references during callbacks","teds.c: any/all/find/fold; map/filter")])
p("C13","Collections own their elements exactly: no leaks, no early release",
 "A value stored in a collection stays alive exactly as long as some collection or variable holds it: it is released (destructors run) as soon as the last holder drops it by overwrite, removal, clear, resize or destruction, never earlier and never twice, including when an operation fails or throws midway. Repeating any history does not grow memory, and cycles through collections are reclaimed by the garbage collector.",
 ["histories","fault_sequences"],"all operation histories with refcounted values and exceptions thrown by callbacks or sources at any point",
 "Leaks and double releases show only in particular histories and failure points and never in printed output; tests compare output only.",
 ["teds.c","teds_vector.c","teds_deque.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_mutableiterable.c","teds_cachediterable.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_lowmemoryvector.c"],
 [("reference counting on every copy/removal","teds_*.c: ZVAL_COPY*/zval_ptr_dtor in each operation"),("get_gc handlers","teds_*.c: *_get_gc"),("cleanup on exceptions from sources and callbacks","teds_*.c: *_init_from_traversable, map, filter")])
p("C14","Immutable collections never change",
 "ImmutableSequence, ImmutableIterable, ImmutableSortedIntSet, ImmutableSortedStringSet and the Empty* collections never change observable contents after construction: every mutator (method, array-access write or unset, re-construction, re-unserialization) throws UnsupportedOperationException or another exception, or does nothing when there is nothing to do, and contents read at any later time equal those at construction. Changing the source, the arrays they return, or clones has no effect on them.",
 ["histories","inputs"],"all contents and all attempted operation sequences",
 "Must hold for every attempted mutation in every state; tests call each mutator once on one instance.",
 ["teds_immutablesequence.c","teds_immutableiterable.c","teds_immutablesortedstringset.c","teds_intvector.c","teds_emptycollection.c"],
 [("mutators throw","teds_immutablesequence.c, teds_intvector.c, teds_immutablesortedstringset.c, teds_emptycollection.c"),("constructor/unserialize may run once","teds_immutable*.c: __construct, __unserialize")])
p("C15","Immutable/MutableIterable keep exact key/value pair sequences",
 "ImmutableIterable and MutableIterable store exactly the sequence of key/value pairs produced by their source, with arbitrary and repeated keys, and any history of pair operations (push, pop, set key/value at an offset, resize, clear) gives the pair list it describes. keyAt, valueAt, keys, values, toPairs, indexOf*, contains* and iteration all read that same pair list; out-of-range offsets throw.",
 ["histories","inputs"],"all pair sequences and operation histories",
 "All histories and key types; tests use a few short pair lists.",
 ["teds_immutableiterable.c","teds_mutableiterable.c","teds_mutableiterable.h","teds_zval_pair.h"],
 [("pair array storage and growth","teds_mutableiterable.c: push, pop, setSize, setKeyAt, setValueAt; teds_immutableiterable.c: *_init_from_*")])
p("C16","CachedIterable is lazy, exact and evaluates its source once",
 "A CachedIterable presents exactly the key/value pairs of its source through every accessor and through any number of interleaved iterators, pulling each element from the source at most once, in order, and only as far as the accesses made so far require. If the source throws, the exception surfaces at the access that needed the element and the elements already obtained remain available.",
 ["schedules","histories","fault_sequences"],"all sources (arrays, generators, iterators, throwing at any element) and all interleavings of accesses and iterators",
 "Quantifies over interleavings of partial iterations and accesses with failures at any element; tests script a few.",
 ["teds_cachediterable.c"],
 [("fetch-on-demand up to an offset","teds_cachediterable.c: teds_cachediterable_entries_fetch_next / teds_cachediterable_fetch_*"),("lazy iterator release","teds_cachediterable.c: teds_cachediterable_entries_dtor_lazy_iterator")])
p("C17","Iterable functions equal their documented polyfills",
 "any, all, none, find, fold, includes_value, unique_values, array_value_first and array_value_last return what the PHP code given in the README returns for every iterable kind and callback: same result, same callback arguments in the same order, same short-circuiting and the same propagation of exceptions. is_same_array_handle is true exactly when both arguments share one array storage.",
 ["inputs","programs"],"all iterables, callbacks and values",
 "Quantifies over all iterables and callbacks; tests call each with a few constants.",
 ["teds.c"],
 [("array and Traversable paths of each function","teds.c: teds_array_func_until, teds_traversable_func_until, teds_array_find, teds_traversable_find_elem, teds_fold_*, teds_array_value_in_list, unique_values")])
p("C18","binary_search locates the target in any sorted array",
 "On an array sorted according to the comparison used (values or keys; default comparison or a user comparer), binary_search reports found exactly when an entry comparing equal exists and returns one such entry; otherwise it returns the last entry that is less than the target, or null/null when there is none. It gives the same answer for packed arrays, arrays with holes and hash arrays, makes only logarithmically many comparisons, and does not modify the array.",
 ["inputs","programs"],"all sorted arrays in all storage shapes, all targets, all consistent comparers",
 "Search must be right for every size, hole pattern and target; tests use a few arrays.",
 ["teds.c"],
 [("binary search over buckets skipping holes","teds.c: PHP_FUNCTION(binary_search), teds_binary_search_*")])
p("C19","BitVector word access and binary strings see the same bits",
 "getInt8/16/32/64 and getUInt8/16/32 at any valid word offset return exactly the little-endian two's complement value of the bits a bit-by-bit read would give, and setIntN changes exactly those bits; toBinaryString/fromBinaryString map bits to bytes the same way. Offsets whose word does not lie fully inside the vector throw OutOfBoundsException and change nothing.",
 ["inputs","histories"],"all bit contents, lengths, word sizes, offsets and values, after any history",
 "All offsets/lengths/values; tests use a few words on one or two vectors.",
 ["teds_bitvector.c","teds_bswap.h"],
 [("word accessors over packed bits","teds_bitvector.c: getInt8..setInt64, toBinaryString, fromBinaryString"),("byte order helpers","teds_bswap.h")])
p("C20","Clones, copies and returned arrays are independent",
 "A clone of a collection and its original share no state: any later change to one (including through live iterators) is invisible in the other, and both keep working. Arrays returned by toArray/values/keys/toPairs, arrays and iterables used to build a collection, and PHP references to variables passed in are likewise decoupled: changing them later never changes the collection, and changing the collection never changes them.",
 ["histories"],"all histories of a collection before and after copying, with copies then diverging arbitrarily",
 "Sharing shows only when a specific later write hits shared storage; tests rarely mutate both sides.",
 ["teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_lowmemoryvector.c","teds_intvector.c","teds_bitvector.c","teds_mutableiterable.c","teds_cachediterable.c"],
 [("copy constructors","teds_*.c: *_copy_ctor, *_new_ex(clone_orig)"),("dereferencing on store","ZVAL_COPY_DEREF on each input path")])
p("C21","Failed operations throw and leave the collection unchanged",
 "An operation that cannot be carried out (bad offset or type, empty collection, missing key, unsupported operation, second constructor call, source that throws) reports it by throwing and leaves the collection exactly as it was before the call, still usable; only a multi-value push may keep the valid values given before the refused one. Exceptions thrown by user callbacks and sources propagate unchanged to the caller.",
 ["fault_sequences","histories"],"all states of all collections and all failing calls on them",
 "Atomicity must hold in every state for every failing argument position; tests check messages, seldom the state afterwards.",
 ["teds_vector.c","teds_deque.c","teds_intvector.c","teds_bitvector.c","teds_lowmemoryvector.c","teds_stricthashmap.c","teds_stricttreemap.c","teds_strictsortedvectormap.c","teds_strictheap.c","teds_mutableiterable.c","teds_exceptions.c","teds.h"],
 [("validate before modify","teds_*.c: push/insert/set argument checks"),("exception helpers","teds_exceptions.c")])
p("C22","Operations stay structurally efficient",
 "Whatever the history: trees remain balanced (logarithmic depth), a hash map or set that repeatedly adds and removes entries does not keep growing, vectors, deques and MutableIterable grow geometrically, give memory back as elements are removed, and report a capacity of at least their count, and compact vectors use no more bytes per element, in memory and serialized, than the widest element requires. Tail operations on vectors and operations at both ends of deques stay amortized constant time, hash lookups constant, lookups in trees and sorted vectors and heap operations logarithmic, and work on a whole collection (building, copying, iterating - also while removing -, serializing, converting) is proportional to its size, times a logarithm where elements are put in order.",
 ["histories"],"all operation histories, in particular sorted insertions, alternating add/remove and grow/shrink at a boundary",
 "Degradation appears only for particular long histories; tests have short ones and never measure.",
 ["teds_stricttreemap.c","teds_stricttreeset.c","teds_stricthashmap.c","teds_stricthashset.c","teds_vector.c","teds_deque.c","teds_lowmemoryvector.c","teds_intvector.c","teds_bitvector.c"],
 [("red-black rebalancing","teds_stricttreemap.c, teds_stricttreeset.c"),("compaction of deleted entries","teds_stricthashmap.c: repack / raise_capacity"),("geometric growth and shrink hysteresis","teds_vector.c, teds_deque.c: raise_capacity / shrink")])
p("C23","Construction is the same from every kind of iterable",
 "Building a collection from an array (packed, with holes, associative, with references), Generator, Iterator, IteratorAggregate or another collection that yields the same keys and values gives the same collection. The source is traversed exactly once and fully, is not modified, and if it throws, the constructor throws that exception.",
 ["inputs","fault_sequences"],"all sources of all kinds for all collection classes, including ones that throw at any element",
 "Every class has separate array and Traversable paths that must agree on all inputs; tests use one small array and one small generator each.",
 ["teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_lowmemoryvector.c","teds_intvector.c","teds_bitvector.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_mutableiterable.c","teds_immutablesortedstringset.c"],
 [("array and Traversable initialisers","teds_*.c: *_init_from_array*, *_init_from_traversable")])
p("C24","All views of a collection agree",
 "At any time, count, isEmpty, toArray, values, keys, toPairs, foreach, explicit iterators, iterator_to_array, contains/containsKey/containsValue/indexOf, var_export, var_dump, json_encode and array casts all describe the same contents in the same order. Reading through any of them never changes the collection (heaps' consuming iteration excepted; LowMemoryVector deliberately hides its contents from var_export and var_dump).",
 ["histories","inputs"],"all reachable states of all collection classes and all orders of reading",
 "Views have separate code (some cached or built lazily) that must agree in all states and read orders; tests print one view of one state.",
 ["teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_lowmemoryvector.c","teds_intvector.c","teds_bitvector.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_mutableiterable.c","teds_cachediterable.c","teds_immutablesortedstringset.c"],
 [("get_properties / get_properties_for handlers and their invalidation","teds_*.c: *_get_properties*, should_rebuild_properties"),("toArray/values/keys/jsonSerialize","teds_*.c")])
p("C25","Empty* singletons act as the empty sequence, set and map",
 "EmptySequence, EmptySet and EmptyMap have one instance that answers every query as an empty collection of that kind does, iterates zero times, and refuses every call that would need an element or add one, while calls that would remove nothing succeed. For every argument they answer queries exactly as an empty ImmutableSequence, StrictHashSet or StrictHashMap would.",
 ["inputs","histories"],"all method calls with all arguments in any order",
 "All arguments to all methods; tests call each once.",
 ["teds_emptycollection.c"],
 [("enum case methods","teds_emptycollection.c")])
p("C26","Array-access operators agree with the methods on every offset type",
 "For every collection supporting array access and every offset of any type, $c[k], isset, empty, ??, $c[k]=v, $c[]=v and unset($c[k]) have the same effect as the corresponding offset* methods; on sequences, offsets that PHP lists coerce (integral strings, bools, floats) address the same element, and all others throw TypeError and address nothing. On maps the offset is used as a key unchanged, isset is false for null values and containsKey is true.",
 ["inputs","histories"],"all offsets of all types, all states, both operator and method forms",
 "The operator handlers and the methods are separate code paths; tests use int offsets almost exclusively.",
 ["teds.h","teds_vector.c","teds_deque.c","teds_intvector.c","teds_bitvector.c","teds_lowmemoryvector.c","teds_immutablesequence.c","teds_stricthashmap.c","teds_stricttreemap.c","teds_strictsortedvectormap.c","teds_emptycollection.c"],
 [("offset conversion","teds.h: teds_get_offset, CONVERT_OFFSET_TO_LONG_OR_THROW"),("read/write/has/unset_dimension handlers","teds_*.c")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
