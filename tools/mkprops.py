import json
CB="src/circular_buffer/circular.rs"; CI="src/circular_buffer/iter.rs"
DS="src/disjoint_set/disjoint_set.rs"; CN="src/counter/counter.rs"
IB="src/interval/bounds.rs"; IV="src/interval/interval.rs"; IC="src/interval/interval_cmp.rs"; IM="src/interval/interval_math.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or ["public API"]
    d["anchors"]["hook_needed"]=None
    P.append(d)
ring=[("buffer","capacity+1 slots, one always unused",CB),("start","slot of the first element",CB),("end","slot after the last element",CB)]
p("C01","Circular buffer behaves as a bounded double-ended queue",
 "For every sequence of public operations, a circular buffer of capacity N is indistinguishable from a double-ended queue limited to N elements: pushing at one end of a full buffer discards exactly one element from the opposite end, pushing into a buffer of capacity 0 discards the pushed element, popping an empty buffer gives None. Length, capacity, is_empty and is_full always describe that queue.",
 ["histories","inputs","configurations"],"all operation sequences (push/pop at both ends, clear, bulk, resize, rearrange, clone), all capacities including 0 and 1, all element types, with and without debug assertions",
 "The tests run a handful of fixed sequences on capacities 2 to 7; wrap-around, eviction from both ends, refilling after emptying and operation combinations are sampled once or not at all.",
 [CB],[("push_back/push_front evict when full",CB+": push_back, push_front"),("wrapping index arithmetic",CB+": incr_/decr_ start/end, len, internal_index")],ring)
p("C02","All views of a circular buffer show the same sequence",
 "At every reachable internal layout, indexing, iter, iter_mut (forwards and backwards), slices, slices_mut, first/last (and mutable forms), by-reference and consuming iteration, drain and linearize expose the same elements in front-to-back order, and a write through any mutable view changes exactly the addressed element. Indexing outside 0..len panics and changes nothing.",
 ["inputs","histories"],"every (capacity, rotation, length) layout, every index, every view",
 "Tests check each view on one or two layouts; wrapped layouts with an end exactly on the seam, full and single-element wrapped buffers are not covered.",
 [CB,CI],[("two-slice split at the seam",CB+": slices, slices_mut"),("index mapping",CB+": internal_index")],ring)
p("C03","Circular buffer bulk operations and resize keep the right elements in order",
 "Building from a Vec or an iterator gives a full buffer whose capacity is the number of elements; extend equals pushing each element at the back; append moves every element of the other buffer and leaves it empty with its capacity; drain yields elements front first and leaves those not yet taken in the buffer; resize(c) sets capacity c and keeps the last min(len, c) elements in order.",
 ["inputs","histories"],"all pairs of layouts, all lengths and capacities including 0, partially consumed drains, owned and by-reference sources",
 "Tests use a single example for each operation, mostly on unwrapped buffers and without the eviction cases.",
 [CB,CI],[("resize copies through drain",CB+": resize"),("extend/append push one by one",CB+": extend, append"),("lazy drain",CI+": Drain")],ring)
p("C04","swap, reverse and linearize permute exactly as specified at any rotation",
 "swap exchanges exactly the two addressed elements and panics without any change when an index is out of range; reverse inverts the order; linearize returns all elements in order as one slice without changing the sequence, after which the whole content is one contiguous slice. None of them changes length or capacity.",
 ["inputs","histories"],"every layout (capacity, rotation, length), every index pair, followed by any further operations",
 "One example per operation; the effect on later operations is never tested.",
 [CB],[("rotation of the backing storage",CB+": linearize"),("pairwise swaps",CB+": reverse, swap")],ring)
p("C05","Circular buffer drops every element exactly once",
 "Whatever sequence of operations is applied, each element handed to a circular buffer is either given back to the caller or dropped by the buffer, never both, never twice, and none is left undropped once the buffer, its iterators and its drains are gone. Discarded elements (eviction, capacity 0, clear, shrinking resize, abandoned consuming iterator) are dropped, not leaked.",
 ["histories","inputs"],"all operation histories including partial drains and abandoned iterators, all layouts, element types with destructors",
 "test_drops covers one push/pop sequence; it never covers resize, drain, append, clone, into_iter, capacity 0 or wrapped buffers.",
 [CB,CI],[("slots hold possibly uninitialized values",CB+": pop_at, push_at"),("Drop clears",CB+": impl Drop")],ring)
p("C06","Circular buffer is memory safe for every element type",
 "Safe code using a circular buffer never causes undefined behaviour, whatever the element type (types with invalid bit patterns, references, owning pointers, zero-sized, large or over-aligned types): no unused storage is ever read, cloned, compared or dropped as an element and no access leaves the storage.",
 ["histories","inputs","configurations"],"all operation histories over all element types, in optimised and unoptimised builds",
 "Undefined behaviour usually stays invisible in passing tests (they passed while the buffer relied on it), and only three element types are used.",
 [CB],[("slots as possibly uninitialized memory",CB),("slice casts over initialized part only",CB+": slices, slices_mut, linearize")],ring,["Miri","instrumented allocator","element ledger"])
p("C07","A circular buffer in use allocates no memory",
 "After construction, no operation other than resize and clone allocates heap memory: pushing, popping, indexing, iterating, draining, extending, appending, swapping, reversing, linearizing, clearing and comparing work within the storage obtained at construction.",
 ["histories","inputs"],"all histories of those operations, all layouts and element types",
 "No test observes allocation at all.",
 [CB,"src/circular_buffer/mod.rs"],[("fixed boxed storage",CB+": buffer")],ring,["counting global allocator"])
p("C08","Circular buffer equality, ordering and clone depend only on contents",
 "Two circular buffers, or a buffer and a slice, compare equal exactly when their front-to-back sequences are equal, and order lexicographically (partially, for partially ordered elements), regardless of capacity and internal rotation. A clone has the same sequence and capacity and is afterwards independent of the original.",
 ["inputs","histories"],"all pairs of layouts and contents including incomparable elements (NaN); any operations applied to a clone or its original",
 "test_cmp compares three fixed buffers; clone is not tested.",
 [CB],[("iterator based comparison",CB+": PartialEq, PartialOrd, Ord"),("Clone",CB+": impl Clone")],ring)
p("C09","A panic in user code never corrupts a circular buffer",
 "If an element's clone, comparison or destructor, or a supplied iterator, panics during an operation, the buffer stays usable with a length not above its capacity and only live elements visible, no element is dropped twice, and later operations follow the queue model from the visible content. An extend interrupted by its iterator or by a clone keeps what was there and the elements supplied so far, as pushes would have left them.",
 ["fault_sequences","histories"],"every operation that runs user code, every position at which that code panics",
 "No test injects a panic.",
 [CB,CI],[("state updated element by element",CB+": pop_front, pop_back, extend, clear, resize")],ring)
p("C10","Disjoint set relation is exactly the equivalence closure of the unions made",
 "After every history, two elements are reported in the same subset exactly when both were added and a chain of unions made since the last clear connects them; an element never added is in union with nothing, not even itself. union adds its missing arguments first; queries and iteration never change the relation.",
 ["histories","inputs","configurations"],"all histories of make_set, union, in_union, iteration, extend, clear, clone, any key type and hasher",
 "The single union test makes three unions; deep trees, equal ranks, path compression side effects and interleaved queries are not reached.",
 [DS],[("union by rank",DS+": union"),("path compression",DS+": find_with_path_compression")],[("data_by_id","parent and rank by element id",DS),("ids","element to id",DS)])
p("C11","Iterating a disjoint set yields the exact partition",
 "Iterating over a disjoint set yields each added element exactly once, grouped into non-empty groups that are exactly the equivalence classes, and leaves the structure's answers unchanged. The partition is the same for every hasher.",
 ["histories","inputs","configurations"],"all histories, any key type and hasher",
 "Iteration is only run in a documentation example that prints and asserts nothing.",
 [DS],[("grouping by root",DS+": build_sets, SetIter")],[("data_by_id","parent and rank by element id",DS)])
p("C12","Disjoint set membership: adding, duplicates, length, clear and bulk building",
 "contains, len and is_empty always describe the set of distinct elements added since the last clear; adding an element that is already present changes nothing and keeps the stored element; building from an iterator, extending (owned or by reference) and repeated make_set are equivalent. clear forgets all elements and relations, and reserve or initial capacity has no visible effect.",
 ["histories","inputs"],"all histories, with duplicates and equal-but-distinguishable elements",
 "Tests add two or three distinct integers; clear, extend, reserve and duplicates within unions are not tested.",
 [DS],[("insert only when vacant",DS+": make_or_get_set"),("parallel containers kept in step",DS+": clear")],[("ids","element to id",DS),("data_by_id","indexed by id",DS)])
p("C13","Disjoint set stays shallow: no operation needs deep recursion",
 "For every order of unions over large sets, membership queries, unions and iteration complete within a small fixed stack, because the internal trees stay logarithmically shallow; no union order makes an operation overflow the stack or the total work of n operations grow quadratically.",
 ["histories","inputs"],"adversarial union orders (chains in both argument orders, stars, tournaments, random) over up to hundreds of thousands of elements",
 "Tests use at most seven elements.",
 [DS,"src/disjoint_set/mod.rs"],[("union by rank bounds depth",DS+": union"),("path compression",DS+": find_with_path_compression")],[("rank","upper bound of tree height",DS)],["thread with a small stack"])
p("C14","Circular buffer iterators keep the iterator contract",
 "Every iterator of a circular buffer (shared, mutable, consuming, drain), driven by any mix of calls from the ends it supports, yields each element exactly once in order, reports size hints that bracket what is still to come, and keeps returning None once it has ended. Mutable references yielded by one iterator are all distinct and may be held together.",
 ["histories","inputs"],"all programs of next, next_back, nth, nth_back, size_hint and closing adaptors, on every layout",
 "Tests collect or loop forwards only; nothing mixes the ends, asks for size hints or polls after the end.",
 [CI,CB],[("two slice iterators chained",CI+": Iter, IterMut"),("owning iterators pop",CI+": IntoIter, Drain")],ring)
p("C15","A circular buffer holds storage for its capacity and no more",
 "However it was built, cloned, filled or resized, the heap a circular buffer of heap-free elements holds is that of its capacity plus one slot (up to rounding): the spare room of a source vector and the storage from before a resize are given back at once, and dropping or consuming the buffer gives back everything.",
 ["histories","inputs"],"all ways of building from exact, loose and spare-room sources, histories with clones and resizes, element types of all sizes",
 "No test observes memory.",
 [CB],[("boxed slice of slots",CB+": new, resize, From"),("one fixed buffer",CB)],ring,["instrumented allocator"])
p("C16","Circular buffer end and index operations take constant time",
 "Pushing or popping at either end, indexing, first, last and the size queries take time independent of the capacity, length and rotation of the buffer, also when each push evicts an element.",
 ["inputs","histories"],"each operation and mixes of them on buffers of up to a million slots at any rotation",
 "The largest buffer in the tests has ten slots.",
 [CB,"src/circular_buffer/mod.rs"],[("index arithmetic instead of moves",CB+": push_at, pop_at, internal_index")],ring,["thread CPU time"])
p("C17","Disjoint set keeps within reserved room and linear memory",
 "A set made with capacity n, or after reserving n more, takes n new elements by any means without allocating (extend: from an iterator announcing no more elements than there is room for), and one of capacity 0 does not allocate at all. make_set and union of present elements and queries allocate nothing; the heap held stays linear in the number of elements whatever unions, clears and refills are made, and is given back when the set is dropped.",
 ["histories","inputs"],"all capacities, ways of reserving and filling, repeated unions, clears and extends, several key types and hashers",
 "No test uses a capacity or observes memory.",
 [DS,"src/disjoint_set/mod.rs"],[("both containers reserved",DS+": with_capacity, with_capacity_and_hasher, reserve"),("no growth for present elements",DS+": make_or_get_set")],[("data_by_id","parent and rank by element id",DS)],["instrumented allocator"])
p("C18","A panic in element code never corrupts a disjoint set",
 "If hashing, comparing, cloning or dropping an element, or a supplied iterator, panics during an operation, the set afterwards holds the elements from before plus at most those passed in (after a clear: at most those from before), its relation is the one from before or the one the operation makes, and later operations follow the ordinary rules from there; in particular new elements are alone.",
 ["fault_sequences","histories"],"every operation, every position at which element or iterator code panics, followed by any history",
 "No test injects a panic.",
 [DS],[("two containers changed one after the other",DS+": make_or_get_set, clear")],[("ids","element to id",DS),("data_by_id","indexed by id",DS)])
p("C19","Disjoint set hashes with the hash builder it was given",
 "A disjoint set made with a hash builder uses exactly that builder (a clone of the set uses its clone) for every element throughout all operations, clearing and reserving included, and never makes one of its own.",
 ["histories","configurations"],"keyed hash builders other than their default, both ways of construction, all operations",
 "Tests only use default hash builders.",
 [DS],[("builder passed on",DS+": with_hasher, with_capacity_and_hasher, Clone"),("builder kept",DS+": clear, reserve")],[("ids","element to id",DS)],["recording hash builder"])
p("C20","Counter counts every occurrence of every element",
 "After any mix of push, extend and construction from iterators (owned or by reference), the count of each element is exactly the number of times it was supplied, elements never supplied are absent, and the number of entries is the number of distinct elements, for every hasher, element type and initial capacity.",
 ["inputs","histories","configurations"],"all sequences of elements and of counting operations, any hasher including degenerate ones",
 "Tests count two short inputs with the default hasher.",
 [CN],[("entry-or-insert increment",CN+": push"),("bulk counting",CN+": FromIterator, Extend")],[("counter","element to count map",CN)])
p("C21","Counter addition is the element-wise sum in every form",
 "Adding counters gives, for every element present in either operand, the sum of its two counts; the owned, by-reference and assigning forms agree, also between counters with different hashers. A by-reference operand is not changed.",
 ["inputs","configurations"],"all pairs of counters (empty, disjoint, overlapping, identical, large counts), all four operator forms, all hasher pairs",
 "One documentation example adds one pair in one form.",
 [CN],[("four separate implementations",CN+": AddAssign x2, Add x2")],[("counter","element to count map",CN)])
p("C22","Counter subtraction is the saturating multiset difference in every form",
 "Subtracting counters reduces each left-hand count by the right-hand count, removes an entry whose count is not larger than the count subtracted from it, keeps entries absent from the right-hand side unchanged, and never adds entries. The owned, by-reference and assigning forms agree, also between different hashers, and a by-reference operand is not changed.",
 ["inputs","configurations"],"all pairs of counters including equal counts, smaller and larger subtrahends, zero and very large counts, all four forms and hasher pairs",
 "Subtraction has no test at all.",
 [CN],[("four separate implementations",CN+": SubAssign x2, Sub x2")],[("counter","element to count map",CN)])
p("C23","most_common lists every entry once, by non-increasing count",
 "most_common and into_most_common return every entry of the counter exactly once with its exact count, ordered from the largest count to the smallest over the full range of counts; most_common leaves the counter unchanged.",
 ["inputs"],"all counters: empty, ties, zero counts, counts up to the maximum of the count type, many entries",
 "One example looks at the first entry only.",
 [CN],[("sort by descending count",CN+": most_common, into_most_common")],[("counter","element to count map",CN)])
p("C24","Counter conversions and map view preserve contents",
 "Converting from a hash map (same hasher, other hasher, by reference), cloning, iterating (owned, shared, mutable) and the map-like view all expose exactly the same element-to-count entries; writes through the map view or mutable iteration are what later reads and operations see. Two counters are equal exactly when their entries are equal.",
 ["inputs","histories","configurations"],"all contents and hashers, any interleaving of map-style writes and counter operations",
 "Conversions, equality, clone and mutable iteration have at most one example.",
 [CN],[("Deref to the map",CN+": Deref, DerefMut"),("conversions",CN+": from_hashmap, From x2, IntoIterator x3")],[("counter","element to count map",CN)])
p("C25","Counter keeps within the room it was made for",
 "A counter made with capacity n counts any number of occurrences of up to n distinct elements, pushed, added, or extended from an iterator announcing no more elements than there is room for, without allocating, and reports at least that capacity; a counter of capacity 0 does not allocate until it is used.",
 ["histories","inputs","configurations"],"all capacities, ways of filling with repetitions, several key types and hashers",
 "Tests with a capacity check nothing but the reported number.",
 [CN],[("map with capacity",CN+": with_capacity, with_capacity_and_hasher"),("in-place increment",CN+": push")],[("counter","element to count map",CN)],["counting global allocator"])
p("C26","A panic in element code never corrupts a counter",
 "If hashing, comparing, cloning or dropping an element, or a supplied iterator, panics while elements are counted, added or subtracted, each entry has its count from before or its count after (for counting: after some of the supplied elements), and later operations follow the ordinary rules from there. Entries may be lost only as the standard hash map itself loses them.",
 ["fault_sequences","histories"],"push, extend, += and -= in both forms, clone, listing; every position at which element or iterator code panics, followed by any history",
 "No test injects a panic.",
 [CN],[("entry by entry updates",CN+": push, AddAssign x2, SubAssign x2")],[("counter","element to count map",CN)])
p("C27","Counter hashes with the hash builder it was given",
 "A counter made with a hash builder, or from a hash map, uses exactly that builder (clones use its clone) for every element throughout all operations and reports it; arithmetic keeps the builder of the left operand, whatever the other operand uses.",
 ["histories","configurations"],"keyed hash builders other than their default, all operations, operands with other builders of the same type",
 "Tests only use default hash builders.",
 [CN],[("left operand is kept",CN+": Add, Sub, AddAssign, SubAssign"),("builder passed on",CN+": with_hasher, from_hashmap")],[("counter","element to count map",CN)],["recording hash builder"])
p("C28","Counter work is linear in its input and memory in its distinct elements",
 "Counting n elements, or adding or subtracting counters, takes time proportional to the elements or entries involved, listing takes at most k log k for k entries, and the heap held after counting a stream of unknown length is linear in the number of distinct elements, however often they recur or are added and taken away.",
 ["inputs","histories"],"long streams over few or many distinct elements, every operator form on large counters",
 "Tests use a handful of elements.",
 [CN,"src/counter/mod.rs"],[("constant work per element",CN+": push, Extend, AddAssign, SubAssign"),("sort for the listing",CN+": most_common")],[("counter","element to count map",CN)],["thread CPU time","instrumented allocator"])
p("C30","Interval constructors accept exactly the valid intervals and report them back",
 "Constructing an interval from two values and two closedness flags, from bounds or through a shortcut succeeds exactly when lower < upper, or lower = upper with both ends closed, and panics otherwise; the accessors, emptiness and single-value tests and the conversions to tuple or bounds then return exactly what was given, and None for the empty interval.",
 ["inputs"],"all values of any ordered type, all closedness combinations, all constructors",
 "Tests use a few integer pairs and three of the invalid combinations.",
 [IV,IB],[("validation",IV+": create_checked"),("accessors",IV)],[("imp","None for the empty interval",IV)])
p("C31","Interval membership of a value is exactly its bounds",
 "A value belongs to an interval exactly when it is above the lower bound (or equal to it and that end is closed) and below the upper bound (or equal and closed); no value belongs to the empty interval.",
 ["inputs"],"all intervals and values of any ordered type, values at, between and outside the bounds",
 "One half-open integer interval is probed at five values; the empty interval was never probed.",
 [IV,IC],[("contains_val",IV+": contains_val"),("comparison with a value",IC)])
p("C32","Interval containment is set inclusion",
 "An interval contains another exactly when every point of the second, over a dense order, is a point of the first; the empty interval is contained in every interval and contains only itself. Hence containment is reflexive, transitive and antisymmetric.",
 ["inputs"],"all pairs and triples of intervals including empty, single-value and shared-endpoint ones",
 "Ten integer examples around one interval.",
 [IV,IB],[("bound comparison",IV+": contains_interval; "+IB+": Ord")])
p("C33","Interval intersection is set intersection",
 "The intersection of two intervals contains exactly the points common to both over a dense order (empty when there are none), whichever form computes it and in either operand order; intersects is true exactly when that intersection is not empty, in particular never for an empty interval.",
 ["inputs"],"all pairs of intervals including empty, touching, nested, equal, single-value; both forms",
 "A few overlapping integer examples; touching and disjoint pairs and empty operands of intersects were not tested.",
 [IV,IC],[("intersects",IV),("intersection, into_intersection implemented separately",IV)])
p("C34","Interval merge is set union, or is refused leaving both operands intact",
 "Two intervals can be merged exactly when their union is itself an interval over a dense order (always when one is empty), and merging then gives exactly that union in both forms and either operand order; otherwise both operands come back unchanged.",
 ["inputs"],"all pairs of intervals including empty, touching open/closed ends, gap, nested, equal",
 "Around fifteen integer examples.",
 [IV,IB],[("separation test",IB+": are_separated"),("merge, into_merged implemented separately",IV)])
p("C35","Interval span is the smallest interval covering both operands",
 "The span of two intervals is the smallest interval containing both, in both forms and either operand order; the empty interval is neutral, and the span equals the merge whenever a merge is possible.",
 ["inputs"],"all pairs of intervals including empty, disjoint, nested, shared endpoints with different closedness",
 "Eight integer examples.",
 [IV],[("span, into_span implemented separately",IV)])
p("C36","Interval comparisons mean that all points of one precede those of the other",
 "One interval is less than another exactly when both are non-empty and every point of it is less than every point of the other (less-or-equal: not greater than any), over a dense order; greater and greater-or-equal mirror this, comparison with a value treats the value as a single point, and equality with a value holds only for that single-value interval. partial_cmp agrees with these: Less, Greater, Equal or None for overlapping unequal intervals.",
 ["inputs"],"all pairs of intervals and interval-value pairs of any ordered type, all six operators and partial_cmp",
 "Fixed examples around (3,5) and [3,5]; empty, single-value intervals and partial_cmp are not tested.",
 [IC,IB],[("bound to bound comparison",IB),("interval comparison operators",IC)])
p("C37","Interval arithmetic maps both bounds and renormalises",
 "Adding, subtracting, multiplying or dividing an interval by a value applies the operation to both bound values, each keeping its closedness, exchanges the bounds when the order is reversed, and yields the empty interval when they coincide without both being closed; negation mirrors the interval. Assigning and non-assigning forms agree and the empty interval stays empty.",
 ["inputs"],"all intervals and operands (negative, zero, rounding division, extreme values) of any type supporting the operation, including operand types different from the value type",
 "About fifteen integer examples; negation, single-value and empty intervals are not tested.",
 [IM,IV,IB],[("map bounds then fix",IM+"; "+IV+": fix_after_modification"),("negation",IM+": Neg")])
p("C38","Bounds of one kind are totally ordered as endpoints of intervals",
 "Lower bounds order by value with a closed bound before an open one at the same value, upper bounds by value with an open one before a closed one; all comparison operators, cmp, min and max agree with that total order, equality holds exactly when value and closedness agree, and equal bounds hash equally. Comparing a bound with a value places an open lower bound just above and an open upper bound just below its value.",
 ["inputs"],"all pairs of bounds and bound-value pairs of any ordered type, all operators",
 "A few examples at the value 5; one test labelled for upper bounds partly checks lower ones.",
 [IB],[("Ord, PartialOrd, PartialEq, Hash of bounds",IB)])
p("C39","Lower and upper bounds compare coherently with each other",
 "A lower and an upper bound are never equal and always different. A bound of one kind is less or greater than one of the other kind when its value is; at equal values an upper bound is less than a lower one, and the lower greater, exactly when at least one of them is open, while less-or-equal and greater-or-equal compare the values alone. Swapping the operands mirrors every answer, no pair is both strictly less and strictly greater, and two bounds are separated exactly when the lower value is above the upper, or equal to it with both open.",
 ["inputs"],"all lower/upper pairs, all closedness combinations, both operand orders, all operators",
 "A few examples each way; inequality (!=), less-or-equal, partial_cmp and open-open pairs are not tested.",
 [IB],[("cross-kind PartialOrd and PartialEq",IB),("are_separated",IB)])
p("C40","Interval display, equality, hash and clone are faithful",
 "An interval displays as its two values separated by a comma within [ or ( and ] or ) according to closedness, and the empty interval as Ø; two intervals are equal exactly when both are empty or all values and closedness flags agree, equal intervals hash equally, and clones and copies are equal.",
 ["inputs"],"all intervals of any displayable/hashable ordered type",
 "One display example; hash and clone are not tested.",
 [IV],[("Display",IV),("derived Eq, Hash, Clone",IV)])
p("C41","Every interval reachable by operations is valid and in normal form",
 "After any history of construction, merging, intersecting, spanning, arithmetic and negation, an interval is either empty or has lower < upper, or lower = upper with both ends closed, so that rebuilding it from its own tuple or bounds succeeds and gives an equal interval; no operation panics on valid intervals unless the value type's arithmetic does.",
 ["histories","inputs"],"all histories of interval operations over a pool of intervals",
 "Tests apply at most four operations in a row, on one interval.",
 [IV,IM],[("fix_after_modification",IV),("checked construction in into_* operations",IV)])
p("C42","Bound arithmetic applies to the value and keeps closedness",
 "Adding, subtracting, multiplying or dividing a lower or upper bound by a value applies the operation to its value and keeps its closedness, in assigning and non-assigning forms alike, and a bound's accessors and tuple conversion return exactly its value and closedness.",
 ["inputs"],"all bounds and operands of any type supporting the operation",
 "Sixteen examples, all on open bounds at the value 6.",
 [IB],[("operators on bounds",IB)])
p("C43","A panic in value code leaves an interval valid",
 "If the bound type's arithmetic panics (overflow, division by zero, its own code) in an assigning operation, the interval is left exactly as it was; if a comparison panics during intersection, merge or span in place, the interval is left a valid one, empty or with each bound taken from one of the operands. Operations by reference never change their operands.",
 ["fault_sequences","inputs"],"all assigning operators on integers, durations and a bound type that panics at any comparison, clone or arithmetic step; all operations in place",
 "No test catches a panic and looks at the interval afterwards.",
 [IM,IV],[("both bounds are computed before the interval changes",IM+": AddAssign, SubAssign, MulAssign, DivAssign"),("bounds swapped one by one",IV+": merge, intersection, span")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
