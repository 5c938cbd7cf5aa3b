#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below, for the properties that have checks in props.py."""
import json, os
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def P(id, title, statement, text, why, files, mech, over=('inputs', 'histories'), observe='return values, exceptions and contents seen through the public PHP API'):
    T[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                 anchors=dict(files=files.split(), mechanism=mech, observe_at=observe))
SEQ = 'teds_vector.c teds_deque.c teds_immutablesequence.c'
P('C01', 'Vector, Deque and ImmutableSequence behave as lists',
  'After any sequence of public operations, a Vector or Deque holds exactly the list that the same operations (push, pushFront/unshift, insert, pop, popFront/shift, set, offset writes and unsets, setSize, reserve, shrinkToFit, clear, map, filter) produce on an abstract list, and each call returns or throws what the list semantics say, with the very same values it was given. An ImmutableSequence holds the values it was built from for ever. This holds whatever the size, the internal capacity or the position of the data in its buffer.',
  'every sequence of operations, every value, every size and internal layout', 'the tests run a few scripted sequences of up to some dozen operations; reallocation, wrap-around and in-place shifting depend on the history',
  SEQ, 'the list operations, their growth, wrap-around and element moving')
P('C02', 'IntVector and LowMemoryVector keep every value across width changes',
  'After any sequence of public operations, an IntVector or LowMemoryVector holds exactly the list that the same operations produce on an abstract list: no stored value ever changes, whatever mix of null, bool, int of any magnitude, float or other values was stored before or is stored next. A value an IntVector cannot hold is refused with a TypeError.',
  'every sequence of operations and every sequence of value types and magnitudes', 'the storage format is promoted depending on the history of values; tests try a few promotions',
  'teds_intvector.c teds_lowmemoryvector.c', 'storage width promotion, typed element moves')
P('C03', 'BitVector is a list of bools whose integer views agree with its bits',
  'After any sequence of operations a BitVector holds exactly the list of bools that the same operations produce on an abstract list. The 8/16/32/64-bit integer getters and setters and the binary string read and write exactly those bits, little-endian, with the first element as the least significant bit, and refuse with an OutOfBoundsException any offset whose word is not completely inside the vector.',
  'every sequence of bit, word and list operations on vectors of every length', 'bit-level shifting and partial last words depend on length and offset; tests sample a few lengths',
  'teds_bitvector.c', 'bit insertion, removal and shifting, word views')
P('C04', 'StrictHashMap and StrictHashSet are exact dictionaries in insertion order',
  'After any sequence of operations a StrictHashMap (StrictHashSet) holds exactly the keys (values) that were added and not removed, each once, in the order of first insertion, with the last value assigned to each key; keys are told apart exactly as strict_equals tells them apart. Lookups find precisely those entries, whatever the hash collisions and whatever was removed before.',
  'every history of insertions and removals and every set of keys, colliding or not', 'collision chains, tombstones and table growth depend on the whole history; tests use few keys',
  'teds_stricthashmap.c teds_stricthashset.c', 'open hash chains, deletion marks, rehash and growth')
P('C05', 'Sorted maps and sets keep their entries in stable_compare order',
  'After any sequence of operations StrictTreeMap, StrictTreeSet, StrictSortedVectorMap and StrictSortedVectorSet hold exactly the entries that were added and not removed, each once, in ascending stable_compare order, and lookups, first/last and pop/popFront give precisely those entries. A key that compares equal to a present one replaces its value and keeps the present key.',
  'every history of insertions and removals over every mix of key types', 'tree shape and array position depend on the history; tests use short histories of few keys',
  'teds_stricttreemap.c teds_stricttreeset.c teds_strictsortedvectormap.c teds_strictsortedvectorset.c', 'tree descent, rebalancing and removal; binary search and in-place insertion')
P('C06', 'Integer and string sets are exact sorted sets of their type',
  'SortedIntVectorSet, ImmutableSortedIntSet and ImmutableSortedStringSet hold exactly the distinct ints (strings) that they were built from and, for the mutable one, that were added and not removed, in ascending order; contains, indexOf, get, first and last agree with that order. Values of another type are refused (add, remove) or not found (contains), never converted.',
  'every history and every set of ints of any width or strings of any length', 'the storage width and encoded size classes depend on all the values',
  'teds_immutablesortedstringset.c teds_intvector.c', 'binary search over packed storage, width promotion, length-prefixed strings')
P('C07', 'Sorted trees stay balanced red-black search trees',
  'After any sequence of insertions, removals, pops, clones, unserializations or clears, the tree inside a StrictTreeMap or StrictTreeSet is a valid red-black tree: keys ascend from left to right, no red node has a red child and every path from the root has the same number of black nodes. Its height, and so the cost of every operation, stays logarithmic in the number of entries.',
  'every history of insertions and removals', 'a wrong rotation or colour shows only for particular shapes and often leaves the contents right',
  'teds_stricttreemap.c teds_stricttreeset.c', 'rotations, recolouring on insertion and removal, building from sorted entries', observe='debugGetTreeRepresentation(), debugIsBalanced()')
P('C08', 'Heaps always extract the smallest (largest) value and lose nothing',
  'A StrictMinHeap (StrictMaxHeap) holds exactly the values that were added and not extracted, repetitions included; top, current, extract and next always concern a value that no other held value precedes in stable_compare order. Extracting everything yields all values in order.',
  'every interleaving of add and extract over every mix of values', 'sift paths depend on the history; tests extract a few small heaps',
  'teds_strictheap.c', 'sift up and sift down')
P('C09', 'stable_compare is a total order that refines the documented ranking',
  'stable_compare orders any two PHP values: it is antisymmetric and transitive, ranks null < false < true < numbers < strings < arrays < objects < resources, compares ints and floats by their exact mathematical value (an int just before the equal float, NAN after every other number), strings by bytes, arrays by size and then entry by entry, and objects and resources by class name and handle. Every sorted container follows the same order.',
  'every pair and triple of values', 'tests compare a few dozen pairs; int/float boundaries and nested arrays have infinitely many cases',
  'teds.c teds_stricttreemap.c', 'teds_stable_compare')
P('C10', 'strict_equals, strict_hash and unique_values agree',
  'strict_equals is an equivalence that coincides with === except that NAN equals NAN (also inside arrays); values that are strict_equals always have the same strict_hash. unique_values and the hash containers keep exactly the first of each class of equal values, in order, so 0.0 and -0.0, or equal arrays, are one value, while 1, 1.0, "1" and true are four.',
  'every pair of values, nested to any depth', 'the hash has a case per type and array layout (packed or hash, holes, references)',
  'teds.c teds_stricthashset.c', 'strict hashing and equality per type')
P('C11', 'Iterators stay exact while their collection changes',
  'An iterator over a collection that is modified during the iteration goes on from the element it was at: insertions and removals at other places neither make it skip or repeat an element nor return a removed one, elements inserted ahead of it are visited and elements inserted behind it are not, and removing the element it is at makes the next step deliver that element\'s successor. Any number of iterators on one collection do so independently.',
  'every interleaving of iterator steps and modifications, any number of iterators', 'needs interleavings of several iterators with mutations that move or free the entry under them',
  'teds_vector.c teds_deque.c teds_intvector.c teds_bitvector.c teds_lowmemoryvector.c teds_stricthashmap.c teds_stricthashset.c teds_stricttreemap.c teds_stricttreeset.c teds_strictsortedvectormap.c teds_strictsortedvectorset.c teds_mutableiterable.c', 'active-iterator lists and their adjustment on insertion and removal')
P('C12', 'Copies and serialized forms are equal to, and independent of, the original',
  'Cloning, serialize/unserialize, __serialize/__unserialize and var_export/__set_state of any collection (but the exported form of a LowMemoryVector, which deliberately has no elements) give a collection of the same class with the same contents in the same order (bit-exact for floats), and leave the original as it was. Afterwards modifying either one never changes the other, and operations and iterators work on the copy as on a freshly built collection.',
  'every collection reachable by any history, then any modifications of either copy', 'sharing, offsets and formats depend on the history before and the operations after the copy',
  'teds_vector.c teds_deque.c teds_intvector.c teds_bitvector.c teds_lowmemoryvector.c teds_stricthashmap.c teds_stricttreemap.c teds_immutablesortedstringset.c', 'clone handlers, serialization formats')
P('C13', 'Unserializing hostile data never yields a broken collection',
  'Whatever array or byte string is given to unserialize(), __unserialize(), __set_state() or the string-based unserialize methods, the result is either an exception or a collection that satisfies the invariants of its class (types of values, order, distinctness, consistent count) and keeps behaving as one; nothing is read or written outside the data. Valid encodings are always accepted with exactly the contents they describe.',
  'every input array or byte string', 'the space of malformed encodings is unbounded; tests list a handful',
  'teds_bitvector.c teds_intvector.c teds_lowmemoryvector.c teds_immutablesortedstringset.c teds_stricthashmap.c', 'decoders and their validation')
P('C14', 'Collections own their elements exactly as long as they hold them',
  'An object stored in a collection lives at least as long as it is held, is released at once when its last holder drops it (by overwrite, removal, clear, shrinking or destruction of the collection), and is never released twice. Repeating any operation, including failing ones and unserialization of bad data, does not grow memory, and cycles through a collection are collected.',
  'every history of operations, over every class', 'a missing or surplus reference count shows only when the right path frees at the right time',
  'teds_vector.c teds_deque.c teds_stricthashmap.c teds_stricttreemap.c teds_strictheap.c teds_mutableiterable.c teds_cachediterable.c', 'reference counting of stored values, get_gc handlers, free_storage', observe='destructors of stored objects, memory_get_usage(), AddressSanitizer')
P('C15', 'Destructors and callbacks may use the collection that triggered them',
  'User code that runs inside an operation on a collection (a destructor of a value being released, a map or filter callback, a source a CachedIterable reads from) may call any operation on the same collection. The collection is consistent at that point, the outer operation has already taken effect on it, and the final contents are those of performing the outer operation and then the inner ones in order. A destructor that throws does not undo or cut short the operation that released its object.',
  'every outer operation, every inner operation and every number of values released', 'needs user code inside each operation at each release point',
  'teds_vector.c teds_deque.c teds_mutableiterable.c teds_stricthashmap.c teds_stricttreemap.c teds_strictheap.c teds_strictsortedvectormap.c', 'order of structure update and value release')
P('C16', 'CachedIterable reads each element once, lazily, and remembers it',
  'A CachedIterable pulls elements from its source only when an operation needs them, each at most once and in order, and every later read or iteration, by any number of interleaved iterators, sees the same elements with the same keys. When the source throws, the exception reaches the caller, elements read before it stay readable, and operations that need the rest report an error.',
  'every interleaving of reads and iterators over every source, ending or throwing anywhere', 'laziness and error memory depend on which reads came first',
  'teds_cachediterable.c', 'lazy fetching, stored prefix, remembered end or exception')
P('C17', 'Key-value iterables keep every pair in order',
  'ImmutableIterable and CachedIterable hold exactly the sequence of key-value pairs they were built from, with keys of any type and repetitions, and MutableIterable additionally follows push, pop, setKeyAt, setValueAt, setSize and clear exactly. keyAt, valueAt, keys, values, toPairs, indexOfKey, indexOfValue, contains and foreach all read that sequence.',
  'every sequence of pairs and operations', 'capacity changes and repeated keys depend on the history',
  'teds_mutableiterable.c teds_immutableiterable.c teds_cachediterable.c', 'pair storage and growth')
P('C18', 'Iterable functions call the callback as documented and stop early',
  'any, all, none, find, fold and the other functions over iterables call the callback exactly once per element in order, stop at the first element that decides the result, return what the definition says (with the very values involved), pass on exceptions, and read no element beyond the one they stop at. They give the same answer for arrays and for any Traversable with the same elements.',
  'every iterable, every callback behaviour, exception at any element', 'the number and order of calls and reads is not visible in the results tests compare',
  'teds.c', 'traversal helpers with early exit')
P('C19', 'binary_search and the array helpers agree with their definitions',
  'On an array sorted by the given comparison, binary_search calls the comparer with (target, entry), finds an equal entry if and only if there is one, and otherwise reports the largest smaller entry (or nulls if there is none); array_value_first, array_value_last and is_same_array_handle return what their definition says for packed arrays, hash arrays and arrays with holes or references.',
  'every array, layout and target', 'array layout (packed, hash, holes, references) multiplies the cases',
  'teds.c', 'array access by position and binary search')
P('C20', 'A failed operation changes nothing and throws the documented exception',
  'When an operation throws (bad offset, wrong type, empty collection, unsupported operation, an exception from the iterable it reads), the exception class is the documented one and the collection is exactly as before, except that appending or inserting several values into an IntVector or BitVector may keep the valid values that precede the offending one. The collection goes on working afterwards.',
  'every operation, every way it can fail, in every state', 'tests check the message of a failure, rarely the state after it',
  'teds_vector.c teds_deque.c teds_intvector.c teds_bitvector.c teds_lowmemoryvector.c teds_stricthashmap.c teds_stricttreemap.c teds_strictheap.c teds_mutableiterable.c teds_exceptions.c', 'argument checks before modification', over=('inputs', 'histories', 'fault_sequences'))
P('C21', 'Immutable and empty collections cannot be changed',
  'Every attempt to modify an ImmutableSequence, ImmutableIterable, CachedIterable, ImmutableSortedIntSet, ImmutableSortedStringSet, EmptySequence, EmptyMap or EmptySet, by method, by array access, by writing or unsetting properties, by reference or by calling the constructor or __unserialize again, throws or has no effect. Their contents, order and count stay the same for ever.',
  'every attempted modification, in any order, on any contents', 'each class has its own list of ways in',
  'teds_immutablesequence.c teds_immutableiterable.c teds_cachediterable.c teds_immutablesortedstringset.c teds_emptycollection.c', 'unsupported mutators, property handlers')
P('C22', 'Sizes and capacities are consistent',
  'count() is always the number of elements an iteration yields and isEmpty() is count() == 0; capacity(), where it exists, is never below count(), reserve(n) never changes the contents and makes room for at least n elements, shrinkToFit never changes the contents, and setSize(n) gives exactly n elements, keeping the first ones and padding with the default.',
  'every history of growing and shrinking operations', 'the relation must hold after every operation of every history',
  'teds_vector.c teds_deque.c teds_intvector.c teds_bitvector.c teds_mutableiterable.c teds_strictheap.c', 'growth and shrink policy')
P('C23', 'All ways of reading a collection agree',
  'At any moment foreach, getIterator, toArray, values, keys, toPairs, count, get/offsetGet, isset, contains, indexOf, first/last, jsonSerialize and json_encode, (array) casts, var_export, var_dump and serialize of a collection (save var_export and var_dump of a LowMemoryVector, which list no elements) describe the same contents in the same order. Reading never changes the collection or what later reads return.',
  'every reachable state of every class and every order of reads', 'cached property tables and lazy views go stale only after particular histories',
  'teds_vector.c teds_deque.c teds_intvector.c teds_stricthashmap.c teds_stricttreemap.c teds_immutablesequence.c teds_util.c', 'property tables, iterators and conversion functions')
P('C24', 'Offsets are converted the same way by every sequence',
  'In $seq[$offset] reads, writes, isset, empty, ?? and unset, an int, bool, integral-string, float or resource offset means the same element in every sequence class, anything else is refused with a TypeError, and an offset below 0 or not below count() is never an element: reads and writes there throw OutOfBoundsException (RuntimeException for a Deque write) and isset/empty/?? treat it as absent. 64-bit offsets are never truncated.',
  'every offset value of every type on every sequence', 'tests try a few offsets per class; truncation needs offsets beyond 32 bits',
  'teds_util.h teds_vector.c teds_deque.c teds_intvector.c teds_bitvector.c teds_lowmemoryvector.c teds_immutablesequence.c', 'offset conversion and bounds checks')
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for i in sorted(T):
            if i in props.PROPS: f.write(json.dumps(T[i]) + '\n')
    checks = [dict(property=i, quick_cmd=f'python3 bin/run.py {i} quick', thorough_cmd=f'python3 bin/run.py {i} thorough', technique=props.PROPS[i].get('technique', 'TLA+ specification checked with TLC; trace validation of recorded executions, and replay of specification histories'),
                   level=props.PROPS[i].get('level', 'model_checking'), level_note=props.PROPS[i].get('note', 'bounded: randomly generated executions of the real extension (ASAN build) validated event by event against the specification; see DESIGN.md')) for i in sorted(props.PROPS)]
    json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=props.NOT_APPLICABLE), open(V + '/MANIFEST.json', 'w'), indent=1)
    bad = [(i, len(T[i]['title']), T[i]['statement'].count('. ')) for i in T if len(T[i]['title']) > 80 or T[i]['statement'].count('. ') > 2]
    if bad: print('too long', bad)
main()
