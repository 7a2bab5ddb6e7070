import json
VF=["enum_vec/src/vec_u8/mod.rs","enum_vec/src/vec_u16/mod.rs","enum_vec/src/vec_u32/mod.rs","enum_vec/src/vec_u64/mod.rs","enum_vec/src/vec_u128/mod.rs","enum_vec/src/smallvec_u32/mod.rs"]
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files[:1])+(" and its copies" if len(files)>1 else "")}]}
    if state: a["state"]=state
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
ST=[{"name":"storage","meaning":"packed blocks; everything outside the live elements (spare high bits, slots past the length, extra blocks) is undefined"},
    {"name":"num_elements","meaning":"the length; the storage must always cover it"}]
p("C01","Single-element operations behave exactly like a plain Vec",
 "For every packed vector and every value, push appends exactly that value, pop returns and drops exactly the last one (or None when empty), get returns the value stored at an index, set and swap change exactly the addressed elements, and truncate/clear keep exactly the requested prefix. No other element and no length changes, whatever the element width, the storage block type and the previous contents of unused storage bits.",
 ["inputs","histories","configurations"],"every storage contents, length, index and value, for all six storage backends and element widths that do and do not divide the block",
 "Tests push a handful of 2- and 4-bit values; they never vary the neighbours, the unused bits, the position in the block or the odd widths, where packing mistakes show.",
 VF,"block_index plus mask/shift read-modify-write in get_raw_unchecked/set_raw_unchecked, grow_if_needed before push",ST)
p("C02","insert, remove and swap_remove keep every other element intact",
 "insert(i, x) with i <= len yields the old sequence with x at i and everything from i on moved up by one; remove(i) returns the i-th element and yields the old sequence without it; swap_remove(i) returns the i-th element and puts the old last element in its place. This holds across block boundaries, for full-width elements and whatever the unused bits contained.",
 ["inputs","histories","configurations"],"every storage contents, length, in-range index and value, for all six backends and widths including those that leave spare bits or fill a block",
 "Tests insert and remove equal values in runs at a few indices; carries between blocks and leftover spare bits only matter for particular values, widths and positions.",
 VF,"slow in-block shift followed by whole-block shifts with carry in insert/remove",ST)
p("C03","append and split_off move whole runs without loss or duplication",
 "After a.append(b), a is the old a followed by the old b and b is empty and fully usable; after split_off(at), the receiver keeps exactly the first `at` elements and the returned vector holds exactly the rest and is fully usable. Both hold for block-aligned and unaligned lengths.",
 ["inputs","histories","configurations"],"every pair of contents and lengths (aligned or not, empty included), every split point, all six backends",
 "The only append test uses an unaligned receiver and split_off has no test at all.",
 VF,"aligned fast path moves raw blocks, unaligned path copies elements; split_off copies into fresh storage",ST)
p("C04","Bulk construction, extension and resize produce exactly the given elements",
 "from_elem, from_slice, collect, From<Vec>, the vector macro, extend and resize give exactly the sequence a plain Vec would have: existing elements first and unchanged, then the new ones in order, with the exact length. extend does so whatever lower size hint the iterator gives up to its true length, and a hint above it neither makes up elements nor loses any.",
 ["inputs","histories","configurations"],"every prior contents, length, fill value, count (on both sides of the block-fill fast path), element sequence and size hint, all six backends",
 "Tests fill with one constant at a few sizes; the fast path's head/middle/tail split and inexact size hints are never varied.",
 VF,"extend_with_value fills head, whole blocks (replicated pattern) and tail; Extend reserves by size_hint then pushes the remainder",ST)
p("C05","retain and for_each visit each element once, in order, and apply its verdict",
 "retain calls the predicate once per element in order and keeps exactly the accepted ones in their order; for_each calls the function once per element in order and stores exactly the value it leaves. Elements outside the length are never visited.",
 ["inputs","configurations"],"every contents and length and every predicate/function (modelled as an arbitrary accept mask and arbitrary replacement values), all six backends",
 "One doc example each with fixed booleans.",
 VF,"read index / write index compaction in retain, get-call-set loop in for_each",ST)
p("C06","any and all answer exactly whether the value occurs / is the only one",
 "any(x) is true exactly when some element equals x, and all(x) exactly when every element equals x (true for the empty vector), for every element width and every storage block type. Spare bits, slots past the length and stale blocks never influence the answer.",
 ["inputs","configurations"],"every storage contents (including garbage in unused bits), length and value, for every element width of every backend within the bounds",
 "The bit tricks are tested on all-equal vectors and on a few constants; borrows between lanes and garbage in unused bits need specific bit patterns.",
 VF,"lane-wise has-zero bit trick with one/high/last-block masks",ST)
p("C07","Equality, hashing and cloning depend only on the elements",
 "Two packed vectors compare equal exactly when they have the same length and the same elements, and equal vectors feed identical data to any hasher, regardless of how they were built or what their unused storage holds. A clone is equal to its source, and later changes to one never show in the other.",
 ["inputs","histories","configurations"],"every pair of storage contents and lengths, different storage lengths and different garbage, all six backends",
 "No test compares two vectors with different garbage or storage lengths; none hashes.",
 VF,"element-wise PartialEq and Hash, derived Clone",ST)
p("C08","Iterators yield exactly the elements from both ends with exact size hints",
 "iter(), by-reference and by-value iteration yield each element exactly once in order; next, next_back, nth, count, len, last and size_hint stay mutually consistent after any mix of calls, exactly as for a slice iterator over the same elements, including huge nth arguments and calls after exhaustion. to_vec and conversion into Vec give the same sequence.",
 ["inputs","histories","configurations"],"every contents and length and every interleaving of front/back/nth steps with arbitrary arguments, all six backends",
 "Tests only run the forward iterator to the end; no test uses next_back, nth or the size hints.",
 VF,"index Range driving get in EnumVecIter/EnumVecIntoIter",ST)
p("C09","Capacity promises hold and memory stays proportional to the packed size",
 "with_capacity, reserve and shrink_to_fit never change the elements; afterwards capacity() is at least what was asked for, and pushing that many elements neither reallocates nor changes capacity. A vector of n elements built in any way keeps its storage within a constant factor of the ceil(n / elements-per-block) blocks it needs, and shrink_to_fit brings it down to exactly that.",
 ["inputs","histories","configurations"],"every contents, length, requested capacity or additional count (including values near the maximum, which may panic but never misbehave), all six backends",
 "Tests check one lower bound on capacity; nothing bounds memory from above or goes near the maximum.",
 VF,"reserve resizes storage to cover the request, blocks_for_elements, fix_storage, whole-block fill",ST)
p("C10","Out-of-range indices and positions are never accepted",
 "For every index at or past the length (up to the maximum integer), get returns None, and set, swap, remove and swap_remove panic instead of returning; insert and split_off panic for every position beyond the length. None of these calls reads or writes outside the vector's storage.",
 ["inputs","configurations"],"every length and every out-of-range index up to usize::MAX, all six backends",
 "No test passes an out-of-range index to any of these.",
 VF,"bounds checks in get_raw/set_raw/insert/split_off/remove in front of the unchecked accessors",ST)
p("C11","Every operation leaves a memory-safe vector holding only valid values",
 "Starting from any well-formed packed vector, every safe operation leaves all vectors involved with storage that covers their length and with every stored discriminant below the number of variants, and performs no out-of-bounds, misaligned or uninitialised memory access. So no sequence of safe calls can reach undefined behaviour or materialise an invalid value.",
 ["inputs","histories","configurations"],"one arbitrary operation with arbitrary arguments from an arbitrary well-formed state (inductive, so histories of any length), all six backends, element types whose variant count is not a power of two",
 "Memory errors in unchecked accesses do not fail a test unless they happen to crash; only specific prior states expose them.",
 VF,"unchecked block accesses guarded by the invariant storage.len() >= blocks needed for len",ST)
p("C12","All six storage backends show the same behaviour over any history",
 "Any sequence of operations started from an empty vector gives the same results, lengths and contents on the u8, u16, u32, u64, u128 and inline-storage vectors, and the same as on a plain Vec. The choice of storage is observable only through capacity and storage accessors.",
 ["histories","configurations","inputs"],"every sequence of up to the stated number of operations (push, pop, insert, remove, swap_remove, truncate, resize, append, split_off, retain, extend, ...) with arbitrary arguments from the empty vector, for every backend",
 "Each backend's tests run the same few fixed histories; no test compares backends or mixes operations that leave stale storage behind.",
 VF,"six copies of the same module generated from one",ST)
p("C13","Elements are packed at the minimum bit width, and unsupported types are rejected",
 "For every number of variants a type can declare, elements use exactly the smallest number of bits that distinguishes all of them and a block of N bits holds floor(N / bits) of them. A type with fewer than two variants, or with more variants than a block (or the supported maximum) can represent, is rejected at compile time rather than silently truncated.",
 ["configurations","inputs"],"every variant count from 0 to the maximum integer, for all six storage types",
 "Tests instantiate four or five element types; the width formula is a sum of 32 comparisons and a mistake at one boundary shows for one power of two only.",
 VF,"BITS_PER_ELEM / ELEMS_PER_BLOCK / ELEMENT_MASK associated constants and ERROR_* underflow checks",
 [{"name":"NUM_VARIANTS","meaning":"number of variants of the element type"}])
p("C14","Built-in variant mappings are bijections onto 0..NUM_VARIANTS",
 "For unit, bool, Option, Result, tuples up to 32 fields and arrays up to 32 elements of any mapped types, the number of variants is the sum/product the type's shape dictates, every value maps to a discriminant below it, and mapping to a discriminant and back (in either direction) is the identity. Mapping never panics or touches uninitialised data for any valid element type.",
 ["inputs","configurations"],"every value and every discriminant of types built from arbitrary components, all tuple arities 1-32 and array lengths 0-32",
 "Tests enumerate small bool-only types (arrays above 12 only at the ends, tuples only up to 4) whose components all have the same size, so wrong multipliers go unnoticed.",
 ["enum_like/src/lib.rs"],"recursive tuple/array macros on top of the pair product, Option/Result sums")
p("C15","Built-in discriminant numbering is the documented one",
 "false/true are 0/1; Option puts the payload first and None last, Result puts Ok before Err; tuples and arrays are mixed-radix with the first field varying fastest, and a nested or array form has the same numbering as the equivalent tuple. So stored data and set/iteration order do not change between equivalent types.",
 ["inputs","configurations"],"every value of types built from components of different sizes, all tuple arities and array lengths",
 "Order is asserted for bool arrays, one nested option and one 4-tuple; with equal-sized components several wrong numberings coincide.",
 ["enum_like/src/lib.rs"],"to_discr/from_discr of Option, Result, (T, S) and the macros that reduce to them")
p("C16","The derive macro yields a bijective mapping with documented numbering",
 "For every struct or enum it accepts (unit, tuple, named, generic, nested, C-like with explicit discriminants, with zero- or one-variant fields), the derived mapping counts every distinct value exactly once and is a bijection onto 0..count. C-like variants are numbered in declaration order ignoring explicit discriminants; in mixed enums the unit variants come first in order, then the data variants in order, each a mixed-radix product of its fields with the first field varying fastest.",
 ["programs","inputs"],"every value and discriminant of a family of type shapes covering each code path of the macro, with components of different sizes",
 "The macro's tests only enumerate tiny bool/unit shapes and run against the published crates, so a change in the repository's derive code alters no test result.",
 ["enum_like_derive/src/lib.rs"],"offset/range_high accumulation per variant and product/wrapping_div/wrapping_rem code generation")
p("C17","Iterating over a type's values yields each value once, in discriminant order",
 "values() yields the value of discriminant 0, 1, ... up to the number of variants and then None for ever; nth, last, count, size_hint and len agree with repeated next from any point reached, for any argument including huge ones.",
 ["inputs","histories"],"every position reached by arbitrary nth/next steps and every argument, for arbitrary variant counts",
 "Tests call next to the end, one nth on a fresh iterator, and count; nth after next or with a large argument is never tried.",
 ["enum_like/src/lib.rs"],"Values { current, max } cursor arithmetic")
p("C18","PackedU8 and PackedU16 are lossless, and comparable like their discriminants",
 "Packing a value of any type with at most 256 (65536) variants and unpacking it returns the same value. Two packed values compare equal, order and hash exactly as their discriminants do.",
 ["inputs","configurations"],"every value of types with variant counts up to and including the limit",
 "One value of each is round-tripped; the limits 256 and 65536 are not tried.",
 ["enum_like/src/lib.rs"],"discr as u8/u16 with a compile-time limit check")
p("C19","EnumSet single-element operations implement a mathematical set",
 "From any set, insert(x) makes exactly x a member and returns whether it was absent; remove(x) makes exactly x a non-member and returns whether it was present; contains reports membership; len, is_empty, clear, shrink_to_fit, extend and collect agree with that membership. No other value's membership changes.",
 ["inputs","histories","configurations"],"every set over universes spanning one and several internal words, with any internal capacity, and every value",
 "One test inserts and removes one variant; one game uses fixed 52-card sets.",
 ["enum_set/src/lib.rs"],"delegation to BitSet through to_discr")
p("C20","EnumSet algebra matches set theory",
 "union, intersection, difference and symmetric_difference (iterators) and their in-place forms contain exactly the values set theory says, leave the other operand untouched, and is_subset, is_superset and is_disjoint answer exactly. This holds for operands with different internal capacities.",
 ["inputs","configurations"],"every pair of sets over universes spanning one and several internal words, with equal and different internal capacities",
 "Only union_with, symmetric_difference_with and len are used, on one fixed history.",
 ["enum_set/src/lib.rs"],"delegation to BitSet word-wise operations")
p("C21","EnumSet equality, hash, order and iteration depend only on the members",
 "Iteration yields each member exactly once in increasing discriminant order; two sets with the same members are equal, hash alike and order as equal however they were built, and sets with different members are unequal. A clone is equal and independent.",
 ["inputs","histories"],"every set and pair of sets with any internal capacities left behind by earlier operations",
 "One equality between two fixed sets; no hash or order test, no test with leftover capacity.",
 ["enum_set/src/lib.rs"],"derived Eq/Hash/Ord over BitSet, WrapIter mapping indices to values")
p("C22","Raw accessors address exactly one slot, and reserved room is writable",
 "Setting the raw discriminant of a slot that storage covers makes a raw read of that slot return it and changes no other slot; get and the raw read agree on every live element. After reserve(n) the next n slots can be written raw and become the elements once the length is set, as the crate's examples rely on.",
 ["inputs","histories","configurations"],"every storage contents, slot within the storage, discriminant and reserve count, all six backends",
 "Two fixed doc/unit examples with one bool each.",
 VF,"get_raw_unchecked/set_raw_unchecked/reserve/set_len/storage_mut",ST)
p("C23","Debug output lists exactly the elements",
 "The debug rendering of a packed vector or an enum set is the same as that of the plain list or ordered set of its elements.",
 ["inputs"],"every contents up to the stated number of elements",
 "No test looks at the rendered text.",
 VF+["enum_set/src/lib.rs"],"debug_list/debug_set over the iterator")
p("C24","A panicking callback leaves the vector valid and usable",
 "If a closure given to retain or for_each, or an iterator given to extend, panics and the panic is caught, the vector is still well-formed: memory-safe to use and drop, and holding only valid values: after retain only elements that were there before, after for_each the old length with old or assigned values, after extend the old elements followed by some of those the iterator had given, in order.",
 ["fault_sequences","inputs"],"every contents and every call at which the callback panics",
 "No test unwinds out of a callback.",
 VF,"length updated as elements arrive (extend) or after the callbacks have run (retain)",ST)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
