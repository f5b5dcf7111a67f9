import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["include/stdx/"+f for f in files],mechanism=[dict(name=a,where="include/stdx/"+b) for a,b in mech],
        state=[dict(name=a,meaning=b,where="include/stdx/"+c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
p("C01","bitset mutators change exactly the bits they name",
 "A bitset of N bits behaves as a subset of {0..N-1}: after any sequence of constructions (empty, from an integer, from listed places, all bits, from a string) and set/reset/clear/flip calls on a single position, on an inclusive bit range, on a start+length range or on the whole set, each position reads exactly the value that sequence gives it. Positions not named by an operation keep their value, and no operation touches memory outside the object.",
 ["inputs","histories","configurations"],"every reachable bitset state, every valid position/range/value argument, several (N, storage element) combinations including N that does not fill its last element",
 "The unit tests set a handful of fixed positions in a few sizes; ranges crossing element boundaries, and states with bits above N left over by earlier operations, are reached only for single examples.",
 ["bitset.hpp"],[("set/reset/flip overloads, constructors","bitset.hpp"),("indices(): element/offset split","bitset.hpp"),("range masks","bitset.hpp")],["operator[]","to<T>()"],
 [("storage","array of unsigned elements holding the bits; bits above N are don't-care","bitset.hpp")])
p("C02","bitset operators, shifts, comparisons and conversions match N-bit sets",
 "For any two N-bit bitsets, |, &, ^, ~, binary minus and their compound forms give the bitwise result; shifting by any amount (including N or more) moves bits by that amount and fills with zeros; equality, count/size, all, any, none, empty, lowest_unset (N when every bit is set) and conversion to an unsigned integer depend only on the N bits. The result never depends on how the value was built.",
 ["inputs","histories","configurations"],"all pairs of values, all shift amounts, all ways of having built the operands, several sizes and storage elements",
 "Tests use fixed operands and shift amounts; a wrong carry across storage elements, a stale bit above N or a large shift amount needs a specific combination of size, value and amount.",
 ["bitset.hpp"],[("operator<<= / operator>>=","bitset.hpp"),("highbits()/lastmask","bitset.hpp"),("lowest_unset, count, to","bitset.hpp")],["operator[]","operator==","to<T>()"])
p("C03","bitset iteration visits exactly the right bits in ascending order",
 "for_each over a bitset calls the function exactly once per set bit (or per unset bit, or for every bit with its value, as selected), with ascending indices all below N, and returns the function; transform_reduce folds exactly the set bits in ascending order into the initial value. The bitset is not changed by iterating over it.",
 ["inputs","histories","configurations"],"all bitset values however built, all three selections, several sizes and storage elements",
 "Tests iterate over a few fixed values; missing, repeated or out-of-range visits depend on the value and on the last partially used element.",
 ["bitset.hpp"],[("set_bit/unset_bit/bit ::fn","bitset.hpp"),("for_each, transform_reduce","bitset.hpp")],["arguments and order of callback calls"])
p("C04","type_bitset addresses each type's own bit consistently",
 "In a type_bitset every distinct type owns one bit at its position among the distinct types; set, reset, flip, construction from a type list, indexing, whole-set operations, the operators, comparison, counts, integer conversion and for_each all use that same bit, whatever state the set is in. Repeating a type in the template arguments does not change which bit any type owns.",
 ["inputs","histories","programs"],"all values of the set for several type lists (with and without repeats), every member type",
 "The tests instantiate lists without repetitions and check fixed states.",
 ["bitset.hpp"],[("type_bitset set/reset/flip/operator[]","bitset.hpp"),("detail::index_of","bitset.hpp")],["operator[]","to<T>()","for_each callbacks"])
p("C05","bit packing, unpacking, destructuring and endian conversion are lossless",
 "bit_pack places its arguments most significant first; bit_unpack yields the parts most significant first, so unpacking a packed value returns the parts and packing an unpacked value returns the value; bit_destructure splits a value at the given offsets, least significant field first, so that the fields shifted back to their offsets rebuild it. byteswap reverses byte order, and to_be/from_be and to_le/from_le are mutually inverse and give the big/little endian byte image.",
 ["inputs"],"all values of every supported width combination; several offset lists",
 "Tests check one or two constants per overload; a swapped shift or wrong mask for another byte lane survives them.",
 ["bit.hpp"],[("bit_pack overloads","bit.hpp"),("bit_unpack","bit.hpp"),("bit_destructure","bit.hpp"),("byteswap/to_be/from_be/to_le/from_le","bit.hpp")])
p("C06","bit masks and bit counting are exact for every width and position",
 "bit_mask for a range [lsb, msb] has exactly the bits lsb..msb set, for unsigned integers and for arrays of them, whether the range is a template argument or a run-time argument. countl/countr zero/one, popcount, has_single_bit, bit_width, bit_ceil, bit_floor, rotl and rotr agree with their mathematical definitions on all values.",
 ["inputs","configurations"],"all values and all positions for 8/16/32/64-bit types",
 "Tests sample a few values per function.",
 ["bit.hpp"],[("detail::mask_bits_t, bitmask_subtract, bit_mask","bit.hpp"),("bit operations","bit.hpp")])
p("C07","cx_vector behaves as a bounded sequence",
 "A cx_vector holds the sequence given by its history: construction lists elements in order, push_back appends and returns a reference to the appended element, pop_back removes and returns the last element, clear empties, resize_and_overwrite takes the size the callback returns; size, empty, full, capacity, front, back, indexing, get, forward and reverse iteration and equality reflect exactly that sequence. Elements not named by an operation keep value and position, and equality ignores anything beyond the current size.",
 ["inputs","histories","configurations"],"every reachable state (including leftovers from earlier, longer contents), every operation, several capacities",
 "Tests run single short scenarios; stale contents beyond the size and boundary fills are barely reached.",
 ["cx_vector.hpp"],[("push_back/pop_back/clear/resize_and_overwrite","cx_vector.hpp"),("operator==","cx_vector.hpp")],None,
 [("current_size","number of live elements","cx_vector.hpp"),("storage","elements; tail beyond current_size is dead","cx_vector.hpp")])
p("C08","cx_queue is first-in first-out within its capacity",
 "A cx_queue returns elements in the order they were pushed; front and back name the oldest and newest live element, size/empty/full/capacity reflect the number of live elements, clear empties it, for any interleaving of pushes and pops including wrap-around. With the default policy pushing to a full queue or reading/popping an empty one panics; a policy is consulted exactly once per such operation with the queue's current size (and capacity).",
 ["inputs","histories","configurations"],"every reachable rotation and fill level, every operation, several capacities and policies",
 "Tests push and pop a few elements in one or two rotations; a wrap-around error at another index is not reached.",
 ["cx_queue.hpp"],[("push_index/pop_index arithmetic","cx_queue.hpp"),("safe_overflow_policy","cx_queue.hpp")],None,
 [("push_index, current_size","ring position and fill","cx_queue.hpp")])
p("C09","cx_set holds each key at most once and erases only that key",
 "A cx_set behaves as a mathematical set of its keys: insert adds the key only if absent and says whether it did, erase removes exactly the given key and returns how many were removed, merge adds all keys of the other set, contains/size/empty/iteration report exactly the members, pop_back removes and returns one member. clear empties it. No other member appears, disappears or changes.",
 ["inputs","histories","configurations"],"every reachable set state within capacity, every key",
 "Tests run a few fixed insert/erase scenarios; errors in the swap-with-last removal or lookup bounds depend on state and key.",
 ["cx_set.hpp"],[("insert/erase/merge/contains","cx_set.hpp")],None,[("storage/current_size","unordered unique keys","cx_set.hpp")])
p("C10","cx_map keeps one value per key and erases only that key",
 "A cx_map behaves as a finite map: insert_or_assign (and put) sets the value of that key and reports whether the key was new, erase removes exactly that key and returns how many were removed, get returns a reference to the value of that key, contains/size/empty/full/iteration report exactly the current key-value pairs, pop_back removes and returns one of them, clear empties. No other pair is added, lost or changed.",
 ["inputs","histories","configurations"],"every reachable map state within capacity, every key and value",
 "Tests run a few fixed scenarios with two or three keys.",
 ["cx_map.hpp"],[("insert_or_assign/erase/get/contains","cx_map.hpp")],None,[("storage/current_size","unordered entries with unique keys","cx_map.hpp")])
p("C11","cx_multimap keeps a set of values per key",
 "A cx_multimap behaves as a finite map from key to a set of values: insert(k,v) adds v to k's set, insert(k) ensures the key exists, erase(k) drops the key with all values, erase(k,v) removes just that pair and drops the key when its last value goes, each returning the number removed; contains, get, size, empty and clear reflect exactly that relation. An operation that removes nothing changes nothing, and other keys' values are never affected.",
 ["inputs","histories","configurations"],"every reachable relation within capacity, every key and value",
 "Tests run a few fixed scenarios with one or two keys.",
 ["cx_multimap.hpp","cx_map.hpp","cx_set.hpp"],[("insert/erase/get","cx_multimap.hpp")])
p("C12","intrusive_list is a faithful doubly linked sequence",
 "An intrusive_list always represents the sequence given by its history of push_front, push_back, pop_front, pop_back, insert, remove and clear: forward traversal yields exactly that sequence, every neighbour's back link mirrors the forward link, front/back/empty/begin/end agree with it. Each operation changes only the links of the affected nodes and their neighbours, never a node's payload, and never follows or leaves a dangling link.",
 ["inputs","histories"],"lists of any length, every operation at every position, nodes in any valid prior state",
 "Tests use lists of up to four nodes and fresh nodes; stale links in a re-used node or a particular position are not reached.",
 ["intrusive_list.hpp","detail/list_common.hpp"],[("unchecked_push/pop/insert/remove","intrusive_list.hpp"),("list_iterator","detail/list_common.hpp")],["iteration","node links"],
 [("head, tail, node.prev, node.next","doubly linked chain","intrusive_list.hpp")])
p("C13","intrusive_forward_list is a faithful singly linked sequence",
 "An intrusive_forward_list always represents the sequence given by its history of push_front, push_back, pop_front and clear: forward traversal yields exactly that sequence, front/back/empty/begin/end agree with it and the last element ends the chain. No operation changes unrelated links or payloads.",
 ["inputs","histories"],"lists of any length, every operation at every position, nodes in any valid prior state",
 "Tests use lists of up to four nodes.",
 ["intrusive_forward_list.hpp","detail/list_common.hpp"],[("push/pop/clear","intrusive_forward_list.hpp")],["iteration","node links"],
 [("head, tail, node.next","singly linked chain","intrusive_forward_list.hpp")])
p("C14","checked lists panic on linked nodes and unlink what they release",
 "With the default (checked) policy, pushing or inserting a node whose links are not all null panics and otherwise never panics; popping or removing a node resets that node's links to null, and clear resets the links of every node, so a released node can be inserted again. With the unchecked policy no panic occurs whatever the links hold, and the resulting list is still correct.",
 ["inputs","histories"],"any list, any operation, any link contents of the node",
 "Tests try one bad node per operation.",
 ["intrusive_list.hpp","intrusive_forward_list.hpp","detail/list_common.hpp"],[("node_policy::checked / unchecked","detail/list_common.hpp")],["panic handler calls","node links after release"])
p("C15","rollover_t arithmetic is exact modulo 2^n and cmp_less is half-range order",
 "For every unsigned width n, rollover_t +, -, *, unary minus, increment and decrement give the mathematical result modulo 2^n, / and % the unsigned quotient and remainder, conversions and equality preserve the value, with no undefined behaviour for any operands. cmp_less(a, b) holds exactly when b is reached from a by going forward between 1 and 2^(n-1) steps modulo 2^n.",
 ["inputs","configurations"],"all pairs of values of 8/16/32/64-bit types",
 "Tests use a few values of two widths; promotion and wrap errors are value dependent.",
 ["rollover.hpp"],[("compound operators","rollover.hpp"),("cmp_less","rollover.hpp")])
p("C16","saturate_cast clamps every value into the target range",
 "saturate_cast from any integral type to any other returns the value unchanged when the target type can represent it, otherwise the target's minimum for values below its range and the target's maximum for values above it.",
 ["inputs","configurations"],"all values for every pair of 8/16/32/64-bit signed and unsigned source and target types",
 "Tests sample same-size and signed-narrowing conversions with a few values.",
 ["numeric.hpp"],[("saturate_cast","numeric.hpp")])
p("C17","span views exactly the elements it was made from",
 "A span made from a pointer and count, iterator pair, array, range or other span refers to exactly those elements: data, size, size_bytes, empty, iteration forwards and backwards, front, back, indexing and get agree with the underlying sequence. first, last and subspan (static or run-time arguments) give exactly the requested contiguous part (clipped at the end where the count is defaulted or too large), and as_bytes/as_writable_bytes cover exactly the object bytes.",
 ["inputs","configurations"],"all extents, offsets and counts within the view, fixed and dynamic extents",
 "Tests use one small array with constant offsets.",
 ["span.hpp"],[("constructors, first/last/subspan, as_bytes","span.hpp")])
p("C18","byterator reads, writes and moves over exactly the intended bytes",
 "A byterator over an object sequence addresses its bytes in order: peek/read return the value whose object representation lies at the current position, write stores exactly sizeof(value) bytes there and nothing else, read/write/advance move by exactly the size of the type (peek does not move), and arithmetic, comparison, difference and indexing behave as pointer operations on bytes. advance_to_alignment moves forward to the nearest address aligned for the type (not at all if already aligned), then by the given number of objects.",
 ["inputs","histories"],"all positions within the sequence, all byte contents, value types of 1/2/4/8 bytes",
 "Tests read fixed data at a few positions.",
 ["byterator.hpp"],[("peek/read/write/advance/advance_to_alignment","byterator.hpp")])
p("C19","optional is empty exactly when it holds the tombstone",
 "An optional has a value exactly when the stored value differs from its tombstone; construction, assignment, emplace and reset make it hold precisely the given value (or the tombstone), value/operator*/operator-> give access to it, value_or substitutes the default only when empty. transform, and_then, or_else, operator| and multi-argument transform call their function exactly once with the held value(s) when all are present and never otherwise; an empty optional equals only an empty one and orders before any value, otherwise values decide.",
 ["inputs","histories","configurations"],"all held values and tombstones, all pairs for comparisons, several value types and value categories",
 "Tests use a few constants per operation.",
 ["optional.hpp"],[("has_value, comparison, monadic operations","optional.hpp")])
p("C20","tuple stores, returns and compares its elements faithfully",
 "A tuple returns through get (by index, by type, by indexing operator) exactly the element stored there, as the same object with the tuple's constness; writing through the reference changes only that element. make_tuple, forward_as_tuple, copies, moves, assignment, tail, structured bindings and lookup by key in indexed tuples preserve elements in order; == is elementwise equality, <=> and < are lexicographic, and one_of is equal to exactly its values.",
 ["inputs","configurations"],"all element values and all pairs of tuples, several arities and element types including repeated and empty types",
 "Tests use constants in one or two shapes.",
 ["tuple.hpp"],[("get/ugly_iGet, operator==, operator<=>","tuple.hpp")])
p("C21","tuple traversals call the function on every element in order",
 "apply, transform, for_each, enumerate, fold_left, fold_right and join on tuples call the function with the elements at each position, in order, each exactly once (zipping several tuples position by position up to the shortest), and return the results in the same positions or the correctly associated fold. all_of, any_of and none_of give the logical result over all elements; the unrolled_ versions do the same over arrays.",
 ["inputs","configurations"],"all element values, several arities including empty, one to three tuples",
 "Tests use constants with commutative operations, which hide ordering and association errors.",
 ["tuple.hpp","tuple_algorithms.hpp"],[("fold/join members","tuple.hpp"),("transform, for_each, enumerate, all_of...","tuple_algorithms.hpp")])
p("C22","tuple rearrangements keep every element with its own value",
 "tuple_cat, tuple_cons/tuple_push_front, tuple_snoc/tuple_push_back, filter, sort, chunk(_by), gather(_by), unique, to_sorted_set, to_unsorted_set, cartesian_product and cartesian_product_copy produce tuples whose elements are exactly the documented selection and arrangement of the input elements, each value travelling with its type. No value is lost, duplicated, swapped between elements or changed, also when the input is a temporary that is moved from.",
 ["inputs","configurations"],"all element values, several type arrangements",
 "Tests mostly check types with a few constant values; a value/type mismatch between equal-typed elements can hide.",
 ["tuple_algorithms.hpp","tuple_destructure.hpp"],[("tuple_cat, filter, sort, unique, chunk, gather, cartesian_product_copy","tuple_algorithms.hpp")])
p("C23","range algorithms visit every element once, in order, for any length",
 "transform, transform_n, for_each, for_each_n, for_each_butlast(n) and initial_medial_final over one or several input ranges call the operation on corresponding elements exactly once per position, in order, for exactly the positions they cover (all; the first n; all but the last n; first / middle / last), writing outputs in order, and return the function(s) and the final iterators. They touch nothing outside those positions whatever the length, including empty ranges and n larger than the range.",
 ["inputs"],"ranges of every length, every n, any element values and operations, one to three ranges",
 "Tests use arrays of a few elements.",
 ["algorithm.hpp"],[("loops of transform/for_each families","algorithm.hpp")])
p("C24","transform_reduce folds left in order over any length",
 "transform_reduce and transform_reduce_n combine, strictly left to right starting from the initial value, the transformed elements of the first range (all, or the first n) with the corresponding elements of the further ranges, each position exactly once. An empty range returns the initial value.",
 ["inputs"],"ranges of every length, any n >= 0, any non-commutative, non-associative operations, one to three ranges",
 "Tests use sums over a few elements, which hide order errors.",
 ["numeric.hpp"],[("transform_reduce, transform_reduce_n","numeric.hpp")])
p("C25","latched and cached values are computed once and only when needed",
 "A latched or cached value never calls its function until first accessed, calls it exactly once however often and in whatever way it is accessed, and keeps returning that first result; has_value tells whether that has happened. For cached, reset forgets the value so that the next access computes it afresh, and refresh computes a fresh value immediately, once.",
 ["inputs","histories"],"all sequences of accesses, queries, resets and refreshes, all function results",
 "Tests run one or two sequences.",
 ["latched.hpp","cached.hpp"],[("populate/reset/refresh","latched.hpp")])
p("C26","bound calls and function wrappers pass arguments through unchanged and in order",
 "bind_front calls the function with the bound arguments first (in order) followed by the call arguments; bind_back with the call arguments first followed by the bound ones; bound values are copies made at bind time, and each call invokes the function exactly once and returns its result. with_result_of calls its function once per conversion, overload picks the matching callable, unary_plus, safe_identity and dereference return the corresponding result, for_each_n_args calls the function on consecutive groups of arguments in order.",
 ["inputs","configurations"],"all argument values, several arities, lvalue/const/rvalue calls, run-time and template-argument functions",
 "Tests use constants and mostly commutative functions.",
 ["functional.hpp","for_each_n_args.hpp","utility.hpp"],[("bind_front_t/bind_back_t","functional.hpp")])
p("C27","call_by_need routes each argument to the right function",
 "call_by_need calls each given function exactly once with a consecutive run of the supplied arguments that it can be called with: the first such run, and of those starting there the longest. The functions see the arguments themselves, in their original order (functions may share arguments). It returns the results of the functions in the order of the functions (functions returning nothing are still called), followed by the arguments that no function took, in order. No argument is lost, reordered or given in place of another of the same type.",
 ["inputs","programs"],"all argument values, several mixes of functions and argument types",
 "Tests use a few constant calls.",
 ["call_by_need.hpp"],[("argument matching","call_by_need.hpp")])
p("C28","compile-time strings keep their characters",
 "A ct_string holds exactly the characters it was built from: size, empty, iteration, view and null-terminated value agree; equality is character equality with length; concatenation is the left string followed by the right; split at a character gives the part before its first occurrence and the part after it (all and nothing if absent).",
 ["inputs","configurations"],"all character contents for several lengths",
 "Tests use a few literals.",
 ["ct_string.hpp"],[("operator+, operator==, split","ct_string.hpp")])
p("C29","ct_format produces the format text with arguments spliced in order",
 "The fields of a format string are exactly its unescaped braces ('{{' is not a field), and cutting it there loses no character. ct_format keeps every character between the fields, replaces each field of a compile-time argument by its text, keeps each field of a run-time argument (without its name) for later formatting, and collects the run-time arguments in order, one per remaining field, whatever their type, also through nested format results; named arguments report the position of their text or their index. The freestanding formatter renders every integer exactly, sign and digits in base 10 and 16, and strings and characters unchanged, and always writes exactly as many characters as it reserved.",
 ["inputs","programs"],"all integers of 8 to 64 bits; strings and format strings of a few characters with any content; several format shapes with run-time arguments of any value",
 "Tests use a few literals and numbers.",
 ["ct_format.hpp","detail/fmt.hpp","ct_conversions.hpp"],[("integer and character formatting","detail/fmt.hpp"),("split_specifiers, format1, operator+ of format_result","ct_format.hpp")])
p("C30","atomic performs one indivisible operation with the right effect",
 "Each operation of atomic<T> performs exactly one indivisible access to the stored value with the memory order requested (sequentially consistent by default): load returns the value, store/exchange/fetch_*/compound assignments/increments leave exactly the documented new value and return the documented old or new value. Nothing is read or written outside that single access, so concurrent updates are never lost.",
 ["inputs","schedules","configurations"],"all stored values and operands, all memory orders, any interleaving with other threads' atomic accesses",
 "The atomic tests are not part of the stable test build here (their dependency is absent), and interleavings between a load and a store cannot be forced by unit tests.",
 ["atomic.hpp"],[("single call of the platform atomic primitive per operation","atomic.hpp")])
p("C31","atomic_bitset updates its bits in one indivisible step",
 "An atomic_bitset of N bits behaves as a subset of {0..N-1}: each set/reset/flip on a position, range or the whole set performs exactly one indivisible access with the requested memory order, changes exactly the named bits and returns the previous value; load, conversions, indexing, count, all, any, none and construction reflect exactly the N bits. Concurrent updates of different bits are never lost.",
 ["inputs","schedules","histories","configurations"],"all values, positions and ranges, several sizes and storage types, any interleaving with other threads",
 "Not part of the stable test build here; lost updates need particular interleavings.",
 ["atomic_bitset.hpp"],[("fetch_or/fetch_and/fetch_xor with masks","atomic_bitset.hpp")])
p("C32","size conversion, alignment tests and counting iterators are exact",
 "sized<T>{k}.in<U>() is the smallest number of Us (integral types) that holds k Ts, is_aligned_with tells exactly whether an address or integer is a multiple of the type's alignment, as_signed/as_unsigned keep the bit pattern. counting_iterator moves, compares, subtracts and dereferences exactly as the integer it holds, and make_array keeps its arguments in order.",
 ["inputs"],"all sizes up to overflow, all addresses and integers, all element values",
 "Tests use a few constants.",
 ["utility.hpp","iterator.hpp","array.hpp"],[("size_conversion, is_aligned_with","utility.hpp"),("counting_iterator","iterator.hpp")])
p("C33","type-level results are the documented types and constants",
 "The type-level results of the library (function traits, type maps and lookups, environment queries, concepts, forward_like, integer and string literals, compile-time value wrappers) are the documented types and constants for every program that uses them.",
 ["programs"],"all programs instantiating the templates",
 "Tests instantiate a few types.",
 ["type_traits.hpp","function_traits.hpp","env.hpp","concepts.hpp","udls.hpp","priority.hpp","ranges.hpp","static_assert.hpp"],[("template metaprogramming","type_traits.hpp")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["id"]
print(len(P))
