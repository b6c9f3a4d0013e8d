#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept here because long JSON lines are hard to edit by hand)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["succinct_neo/src/"+f if not f.startswith("xtask") else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A bit vector is a fixed-length array of independent bits",
 "A new bit vector of n bits has length n and holds only zeros; after any sequence of in-range set and flip operations every bit reads as the last value written to it (or flipped into it), no other bit changes, and the length never changes. This holds identically for the named accessors, the trait accessors and the unchecked accessors used in range, and a clone is an independent copy of the contents at that moment.",
 ["histories","inputs"],"every length, every sequence of in-range reads, sets, flips and clones, through every accessor",
 "The tests use lengths 20, 80 and 160 with periodic patterns written once in ascending order; they never interleave sets and flips, never reach word-boundary lengths or large indices, and never re-read neighbours.",
 ["bit_vec/mod.rs","bit_vec/backing.rs","bit_vec/slice/mod.rs","bit_vec/slice/trait_impls.rs"],
 [("BitVec::new, BitVec accessors","bit_vec/mod.rs"),("word/bit addressing","bit_vec/backing.rs impl BitGet/BitModify for [usize]")],
 [("BitVec::data","slice 0..len over boxed words","bit_vec/mod.rs")],["BitVec::{get,set,flip,get_bit,set_bit,flip_bit,*_unchecked,len,is_empty,clone}"])
p("C02","Out-of-range bit access is rejected and changes nothing",
 "Reading, setting or flipping a bit at an index at or beyond the length of a bit vector, a bit slice (at any nesting depth), an unsigned integer or a word array panics, in debug and in release builds alike, for every such index up to the largest representable one. After the panic every bit of the underlying storage, including bits outside a slice's window, is what it was before.",
 ["inputs","histories"],"every container, length, window, nesting and every index >= length, in both build profiles",
 "The should_panic tests try one index just past the end for one length, only in debug builds, and cannot look at the contents afterwards.",
 ["bit_vec/mod.rs","bit_vec/backing.rs","bit_vec/slice/trait_impls.rs"],
 [("index checks before the unchecked accessors","bit_vec/mod.rs, bit_vec/slice/trait_impls.rs, bit_vec/backing.rs")],None,["panics of get/set/flip", "contents after the caught panic"])
p("C03","A bit slice is an exact window of what it was taken from",
 "For every range form (half-open, inclusive, from, to, full, exclusive start) and every chain of slices of slices, a slice has exactly the length of its range, and bit i of the slice is bit start+i of its parent. Reads through it return the parent's bits, sets and flips through it change exactly that parent bit and no other, and the checked, unchecked, shared and mutable ways of slicing agree.",
 ["inputs","histories"],"every vector length, contents, chain of in-range ranges in every form, and every write through the resulting slice",
 "Tests slice one 80-bit vector at 20..40 or 10..70, one level deep, with a handful of range forms.",
 ["bit_vec/slice/slicing.rs","bit_vec/slice/mod.rs","bit_vec/slice/trait_impls.rs"],
 [("bound normalisation and start offset arithmetic","bit_vec/slice/slicing.rs")],
 [("BitSlice::{start,end}","window in the backing","bit_vec/slice/mod.rs")],["BitSlice::{slice,slice_mut,slice_unchecked,slice_unchecked_mut,len,is_empty,get,set,flip}"])
p("C04","Invalid slice ranges are always rejected",
 "Taking a checked slice (shared or mutable, of a vector or of a slice) with a start or an end beyond the length, or with a start after the end, panics; constructing a slice directly with its start after its end panics too. This holds for every range form and for bounds up to the largest integer, in debug and in release builds, and the contents are unchanged afterwards.",
 ["inputs"],"every length, every range form, every pair of bounds (including those whose normalisation would overflow), in both build profiles",
 "Six should_panic tests try 5.., ..5 and one inverted range on a 4-bit vector in debug builds only; overflowing bounds and release builds are never exercised.",
 ["bit_vec/slice/slicing.rs","bit_vec/slice/mod.rs"],
 [("bound checks in slice/slice_mut","bit_vec/slice/slicing.rs"),("start <= end assertion in BitSlice::new","bit_vec/slice/mod.rs")])
p("C05","Splitting yields two disjoint halves that cover the slice",
 "Splitting a slice or bit vector of length n at an index k < n yields a left part that is exactly bits 0..k and a right part that is exactly bits k..n, both for shared and for mutable splits, and an index k >= n is rejected by a panic. Any interleaving of writes through the two mutable halves changes only the addressed bits, each half sees only its own writes, and after the split ends the original shows all of them.",
 ["inputs","histories"],"every length, window offset, split index, nesting of splits and every interleaving of writes through both halves",
 "The test splits one window of one vector at one index and only compares contents; it never writes through both halves.",
 ["bit_vec/slice/mod.rs"],[("split_at, split_at_mut","bit_vec/slice/mod.rs")])
p("C06","Bit iteration is complete, ordered and exactly sized",
 "Iterating a bit vector or slice, by reference or by value, yields exactly its bits in index order and then only end-of-iteration, however the steps are taken. At every point the reported remaining length and the iterator's size hint both equal the number of bits still to come, so length-aware adaptors work.",
 ["inputs","histories"],"every vector, window, way of obtaining the iterator, and every number and kind of steps taken (next, nth, skip, zip, collect, ...)",
 "Tests walk three vectors of 80-160 bits once from start to end and query the remaining length once, before the first step.",
 ["bit_vec/slice/trait_impls.rs","bit_vec/slice/mod.rs","bit_vec/mod.rs"],
 [("Iter::next, Iter::len","bit_vec/slice/trait_impls.rs")],[("Iter::{current,end}","position and end in the backing","bit_vec/slice/mod.rs")])
p("C07","Slice equality is exactly content equality",
 "Two bit slices or bit vectors compare equal if and only if they have the same length and the same bits in the same order. The answer does not depend on where the windows lie, on the kind of storage behind them, on whether they are shared or mutable, or on bits outside the windows, and it is symmetric.",
 ["inputs"],"every pair of windows (any offset, length, contents, kind of storage)",
 "One test compares periodic windows of the same 80-bit pattern; no pair differs in exactly one bit.",
 ["bit_vec/slice/trait_impls.rs"],[("PartialEq for BitSlice","bit_vec/slice/trait_impls.rs")])
p("C08","Integers, word arrays and smart pointers give exact per-bit access",
 "For every unsigned integer type offered and every value, bit i is the bit of weight 2^i; setting or flipping bit i changes that bit only; in an array of words bit i is bit i mod 64 of word i div 64. Access through a reference, mutable reference, box or reference-counted pointer behaves exactly like access to the value itself, for reads, writes and out-of-range indices.",
 ["inputs"],"every integer type, value, index, array length and (nested) wrapper",
 "Tests write one alternating pattern into a zero of each type, look at one single-word array at index 0 only, and never touch the wrappers directly.",
 ["bit_vec/backing.rs","bit_vec/traits.rs"],[("primitive_bit_ops macro, [usize] impls","bit_vec/backing.rs"),("blanket impls for &, &mut, Box, Rc","bit_vec/traits.rs")])
p("C09","A packed integer vector returns exactly what was stored",
 "For every bit width from 1 to 64, every initial capacity and every sequence of pushes and in-range sets of values that fit the width, each position of a packed integer vector reads as the value last stored there, in push order, and storing at one position never changes any other. Emptiness reflects whether anything has been pushed.",
 ["histories","inputs"],"every width 1..=64, capacity, length, value and sequence of push/set/get (checked and unchecked)",
 "Tests cover widths 4, 7, 8, 12 and 23 with a few ascending values below 64 elements; values straddling two words, all-ones values, overwriting, and widths near the word size are not covered.",
 ["int_vec/mod.rs"],[("push, get_unchecked, set_unchecked","int_vec/mod.rs")],[("IntVec::{data,width,size}","packed words, width, element count","int_vec/mod.rs")],["IntVec::{new,with_capacity,push,is_empty,iter}","IntAccess::{get,set,get_unchecked,set_unchecked}"])
p("C10","A packed integer vector rejects what it cannot store or find",
 "Pushing or setting a value that needs more bits than the width, reading or setting at an index at or beyond the number of pushed elements, and creating a vector of width 0 or of a width above 64 all panic, in debug and release builds alike. A rejected operation leaves the length and every stored value unchanged, and later operations work as if it had never been attempted.",
 ["inputs","histories"],"every width, length, out-of-range index, oversized value, in both build profiles, at every point of a history",
 "Four should_panic tests use one width (7) and one far-out argument each, in debug builds only, and cannot check the state afterwards.",
 ["int_vec/mod.rs"],[("range and value checks in push/get/set","int_vec/mod.rs")])
p("C11","Packed integer iteration is complete, ordered and exactly sized",
 "Iterating a packed integer vector, by reference or by value, yields exactly the stored values in order and then only end-of-iteration, however the steps are taken. At every point the reported remaining length and the size hint equal the number of values still to come.",
 ["inputs","histories"],"every width, length, contents, kind of iterator and number of steps taken",
 "Tests iterate one 20-element and one 10-element vector and query the length once, before the first step.",
 ["int_vec/mod.rs"],[("Iter, IntoIter","int_vec/mod.rs")])
p("C12","Storage is packed: exact bit layout, no more words than needed",
 "The raw words of a bit vector of n bits are exactly ceil(n/64) words with bit i at bit i mod 64 of word i div 64 and all spare bits zero. The raw words of a packed integer vector of width w hold value i in bits i*w .. i*w+w, least significant first, running across word boundaries, and use at most one word beyond the ceil(n*w/64) that n values need.",
 ["histories","inputs"],"every length, width, contents and every history of writes that produced them",
 "One test looks at the first raw word of one 4-element vector of width 4; the tests never look at spare bits or at the number of words.",
 ["bit_vec/mod.rs","int_vec/mod.rs"],[("BitVec::new allocation","bit_vec/mod.rs"),("push growth and packing","int_vec/mod.rs")],None,["BitVec::raw","IntVec::raw_data"])
p("C13","Rank counts exactly the ones (or zeros) before an index",
 "For every bit vector of length n and every index i with 0 <= i <= n, rank of ones is the number of ones among bits 0..i and rank of zeros is the number of zeros among them, in the const-generic and in the dynamic form, whatever the length, density and position of the bits. The structure reports the length and emptiness of the vector it was built from.",
 ["inputs"],"every bit vector and every index up to and including its length",
 "One test ranks one periodic vector of 10000 bits; block boundaries with uneven densities, full blocks, empty vectors, index = length, and large vectors are not covered.",
 ["rank_select/flat_popcount/mod.rs","rank_select/traits.rs"],[("build_indices, rough_rank_1, rank","rank_select/flat_popcount/mod.rs")],
 [("l1_index","44-bit L1 count plus seven 12-bit cumulative L2 counts per 4096-bit block","rank_select/flat_popcount/mod.rs")],["RankSupport::{rank,rank_dyn}","FlatPopcount::{len,is_empty}"])
p("C14","Select finds exactly the k-th one, or nothing",
 "For every bit vector with m ones and every k, select of k (counting from zero) returns the index of the one that has exactly k ones before it when k < m, and nothing when k >= m, with every search strategy. Select is available to users of the library and is the inverse of rank.",
 ["inputs","configurations"],"every bit vector, every k (including m-1, m, m+1 and the largest integer) and every search strategy",
 "The only positive test checks one periodic vector with one strategy and aborts at the pinned commit; sampling boundaries, long runs of empty blocks, partially filled last blocks and k = m are not covered.",
 ["rank_select/flat_popcount/mod.rs","rank_select/flat_popcount/strats.rs","rank_select/mod.rs"],
 [("sample_ones, select","rank_select/flat_popcount/mod.rs"),("find_l2 of each strategy","rank_select/flat_popcount/strats.rs")],
 [("sampled_ones","coarse block of every 8192nd one","rank_select/flat_popcount/mod.rs")],["SelectSupport::select"])
p("C15","All block search strategies agree with the plain definition",
 "For every index entry whose seven 12-bit cumulative counts are non-decreasing, every value of the entry's upper field and every rank below 4096, each search strategy (linear, binary, and SIMD where the target supports it) returns the number of counts that are not greater than the rank, together with the last such count, or zero if there is none.",
 ["inputs","configurations"],"every non-decreasing entry, every upper field, every rank below 4096, every strategy and target feature set",
 "Three hand-made entries are tried, and the SIMD strategy is not even compiled for the default target.",
 ["rank_select/flat_popcount/strats.rs"],[("LinearSearch, BinarySearch, SimdSearch","rank_select/flat_popcount/strats.rs")],None,["SelectStrategy::find_l2"])
p("C16","Rank and select queries are pure and never leave the vector",
 "The answer to a rank or select query depends only on the bit vector and the query: no sequence of earlier queries, on this or on another structure, changes it, and no query changes the vector. A rank query beyond the length of the vector, including on an empty vector, panics in debug and release builds instead of returning a made-up number, and the structure stays usable afterwards.",
 ["histories","inputs"],"every sequence of rank/select queries on one or several structures, in range or not, in both build profiles",
 "Tests issue queries in ascending order on one structure and never out of range.",
 ["rank_select/flat_popcount/mod.rs"],[("rank bounds check","rank_select/flat_popcount/mod.rs"),("queries take &self, structure borrows the vector","rank_select/flat_popcount/mod.rs")])
p("C17","The rank/select index costs less than four percent extra memory",
 "For every bit vector of at least 65536 bits, the heap memory that a rank/select structure keeps on top of the bit vector is less than 4% of the bit vector's own size, whatever its contents. Dropping the structure gives all of it back.",
 ["inputs"],"every bit vector of at least 65536 bits, at every density",
 "No test measures memory.",
 ["rank_select/flat_popcount/mod.rs","int_vec/mod.rs"],[("one 128-bit entry per 4096 bits, one packed sample per 8192 ones","rank_select/flat_popcount/mod.rs")],None,["heap bytes retained after construction"])
p("C18","Safe calls never cause undefined behaviour",
 "No program that uses only the library's safe functions, and its unsafe functions within their documented contracts, reads or writes outside live initialised memory or breaks aliasing rules, whatever it does with windows, iterators, integer vectors and rank/select structures; a misuse ends in a panic. This includes slices and iterators constructed directly over storage shorter than the window they were given.",
 ["programs","inputs"],"every bounded single-threaded program over the safe API, run under an interpreter that flags undefined behaviour",
 "Tests run natively, where an out-of-bounds or uninitialised read usually goes unnoticed.",
 ["bit_vec/slice/mod.rs","bit_vec/slice/trait_impls.rs","bit_vec/backing.rs","int_vec/mod.rs","rank_select/flat_popcount/mod.rs","rank_select/flat_popcount/strats.rs"],
 [("bounds checks before unchecked accesses","all files listed")])
p("C19","Shared structures can be queried from several threads at once",
 "When several threads query the same bit vector, slice, packed integer vector or rank/select structure at the same time, every query returns what it would return if it ran alone, in every interleaving of the threads. Queries need no external synchronisation.",
 ["schedules"],"every interleaving (at machine-instruction granularity, up to a preemption bound) of two threads issuing queries on one shared structure",
 "All tests are single-threaded.",
 ["rank_select/flat_popcount/mod.rs","bit_vec/mod.rs","int_vec/mod.rs","rank_select/flat_popcount/strats.rs"],[("no interior mutability, no global state","whole crate")])
p("C20","Mutable halves of a split can be used from two threads",
 "When two threads write through the two mutable halves of a split bit vector at the same time, no write is lost and no bit outside the addressed ones changes, in every interleaving of the threads.",
 ["schedules"],"every split index, pair of operations and interleaving of two threads (machine-instruction granularity, up to a preemption bound)",
 "All tests are single-threaded.",
 ["bit_vec/slice/mod.rs","bit_vec/backing.rs"],[("halves are Send and address disjoint bits","bit_vec/slice/mod.rs split_at_mut")])
p("C21","Distinct objects never influence each other",
 "Operations on one bit vector, packed integer vector or rank/select structure never change what another object of any kind contains or answers, whether the operations are interleaved in one thread, run in different threads in any interleaving, or one object is a clone of the other or was created from memory the other has released.",
 ["histories","schedules"],"every interleaving of operation sequences on two objects, in one thread and (instruction granularity, up to a preemption bound) in two",
 "Tests use one object at a time, one per process.",
 ["bit_vec/mod.rs","int_vec/mod.rs","rank_select/flat_popcount/mod.rs"],[("every object owns its storage; no global state","whole crate")])
p("C22","Printing a bit vector shows every bit in order",
 "The debug text of a bit vector is an opening brace, the bits in index order as 0 or 1 separated by a comma and a space, and a closing brace, for every length including zero and for every contents.",
 ["inputs"],"every length and contents",
 "Tests print one vector and ignore the output.",
 ["bit_vec/mod.rs"],[("Debug for BitVec","bit_vec/mod.rs")])
p("C23","Coverage tasks run the right steps and delete only profile data",
 "The coverage task runs the instrumented tests, then the report, then the cleanup, stops with a failure exit at the first step that fails without running later ones, and each single task runs only its own step; no task or an unknown task does nothing and succeeds. The report format follows the format argument regardless of case (xml, cobertura, lcov, json, covdir), falls back to cobertura otherwise and decides the output file's extension; cleanup deletes exactly the files ending in .profraw below the current directory.",
 ["inputs","fault_sequences","configurations"],"every task, format argument, failing step and file tree",
 "The task runner has no tests.",
 ["xtask/src/main.rs"],[("main dispatch, cover, cover_only, clean","xtask/src/main.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
