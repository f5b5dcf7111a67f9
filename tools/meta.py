"""What is said about each check in MANIFEST.json and in its evidence."""

BASE = "every input of the instantiated types, not of all template arguments: one proof per listed instantiation"
UNROLL = ("loops end at a bound given by the type and are unrolled to it; that the bound is enough is itself an "
          "obligation (unwinding assertion)")
COMMON = [
    "clang++-18's translation of the headers (C++23, x86-64, -O0) is that of the compiler a user has",
    "exceptions are off (-fignore-exceptions); code reached only by unwinding is dropped by the extraction",
    "the standard library is libstdc++ 13 as compiled; its own headers are verified as part of the callers, not trusted",
]
GCC = "the branch of the header for gcc (no pack indexing builtin) is proved in a second unit, by a define"
NOTE, ASSUME, TECH = {}, {}, {}

T = ("contract-based deductive verification: pre/postconditions and frames on the real functions, extracted from "
     "clang's IR on every run; obligations discharged by CBMC (SAT)")


def meta(p, note, *assume, tech=T):
    NOTE[p], ASSUME[p], TECH[p] = note, COMMON + list(assume), tech


meta("C01", "bitsets of 1,5,8,13,24 (u8), 16,37 (u16), 12,32,33 (u32), 40,64,65,130 (u64) bits and 0 bits: every prior "
     "value, every position and range, an arbitrary observed position. " + UNROLL + ". Strings up to 11 characters (bounded)",
     "bounded: string constructors are proved for strings up to 11 characters",
     "precondition: positions below N, ranges not empty")
meta("C02", "same widths as C01, two arbitrary values, arbitrary shift amounts, arbitrary values in the unused bits. " + UNROLL)
meta("C03", "bitsets of up to 17 bits in 1 or 2 storage elements: every value; 70 bits: the first, last and "
     "boundary bits only (bounded). " + UNROLL,
     "bounded: 70-bit sets with at most a few bits near element boundaries")
meta("C04", "type lists of 1, 4 and 9 distinct types and lists with repeated types, every value of the set. " + UNROLL)
meta("C05", "all argument values for every documented combination of 8/16/32/64-bit types; builtin and fallback branches")
meta("C06", "all values and all positions of 8/16/32/64-bit types and arrays of them; the fallback branches for compilers "
     "without the builtins as separate units. " + UNROLL)
meta("C07", "capacities 1, 2, 4 and 7, any contents, any fill, any leftovers; per-operation contracts that compose to all "
     "histories because the pre-state covers every state. " + UNROLL)
meta("C08", "capacities 1 to 5, any rotation, fill, contents and leftovers; index invariant proved inductive for 1, 3, 8 "
     "(a change of representation turns that part into a note). " + UNROLL)
meta("C09", "capacities 1 to 4, any keys (8 bit), any storage order; membership through an arbitrary witness key. " + UNROLL)
meta("C10", "capacities 1 to 4, any keys and values, any storage order and leftovers; arbitrary witness key. " + UNROLL)
meta("C11", "1 or 2 keys with 1 or 2 values each in capacity, any contents. " + UNROLL)
LIST = ("a list longer than six nodes is represented by its two ends and the neighbourhood of the place with a gap of "
        "poisoned links between: an operation that reads or writes no node in the gap acts the same at any length")
meta("C12", "every operation except clear on lists of any length by the gap argument (obligations: nothing in the gap "
     "is touched); complete lists up to 7 nodes as well; clear: up to 7 nodes (bounded)", LIST,
     "bounded: clear() on lists of at most 7 nodes",
     "precondition: remove and insert get a node or place of this list")
meta("C13", "as C12 for the singly linked list; clear: up to 7 nodes (bounded)", LIST,
     "bounded: clear() on lists of at most 7 nodes")
meta("C14", "as C12, with arbitrary links in the node to be added; clear: up to 7 nodes (bounded)", LIST,
     "bounded: clear() on lists of at most 7 nodes", "panic handler: the one the harness installs")
meta("C15", "all operands of 8/16/32/64 bits. Products and quotients are uninterpreted functions first (the same on both "
     "sides), the real operations decide where that is not enough", "precondition: divisors are not 0")
meta("C16", "all values of all pairs of the eleven integral types")
meta("C17", "spans over up to 6 elements by case, all static and run-time arguments, any contents. " + UNROLL,
     "preconditions of first/last/subspan as documented")
meta("C18", "all contents and positions in a byte buffer, all integral sizes and a struct; alignment for any start")
meta("C19", "all values of integral, pointer, floating point and struct instances; one to three optionals")
meta("C20", "tuples of 0 to 5 elements of different kinds, all values; " + GCC)
meta("C21", "tuples of 0 to 5 elements, arrays, one to three tuples; all values; calls recorded in order; " + GCC)
meta("C22", "chosen tuples with several types per operation, all values; the type-level selection is of those instances; " + GCC)
L = ("loops of any length: each is cut at its head; the invariants are inferred from the current code and proved "
     "inductive, then initiation, preservation, use and a decreasing measure are obligations")
LA = ("iterators, functions and elements are arbitrary uninterpreted ones (function of position), so the proof is for any "
      "operation that does not change the ranges")
TL = T + "; loops cut with inferred and proved invariants"
meta("C23", L + ". A bounded unit (up to 4 elements) serves to give counterexamples and is not counted on", LA,
     "precondition: n is not negative, fits the iterators' difference type and is not more than the range has where the "
     "interface demands it", tech=TL)
meta("C24", L + ". A bounded unit (up to 4 elements) serves to give counterexamples and is not counted on", LA,
     "precondition: n is not negative", tech=TL)
meta("C25", "any sequence of accesses by kind, all values; all results of the function")
meta("C26", "one to four arguments, all values; recorded calls")
meta("C27", "nine shapes of functions and arguments (the matching is done by the compiler for each), all argument values",
     "the set of shapes is a sample of all programs")
meta("C28", "all contents of strings of lengths 0 to 5 in joins and comparisons. split takes its string as template "
     "argument: lengths 0 to 4 with every pattern of separators (bounded)",
     "consteval is compiled as constexpr so that the functions exist in the extracted program",
     "bounded: split for strings of at most 4 characters")
meta("C29", "integers: every value of 8 to 64 bits signed and unsigned in base 10 and 16 (quotients abstracted, exact "
     "operations where that is not enough). Field search: every string up to 4, 6, 7 characters (bounded). ct_format "
     "itself: chosen formats, all run-time values",
     "consteval is compiled as constexpr so that the functions exist in the extracted program",
     "freestanding formatter (the installed fmt library is too old for the hosted one)",
     "bounded: count, find and split of fields for strings of at most 4, 7 and 6 characters",
     "the formats of ct_format are template arguments: instances")
AT = ("harness/stub/conc/atomic.hpp stands for the platform's atomic primitives (a package that is not installed "
      "here): each call is one indivisible step, before which the stored value may have been changed arbitrarily by "
      "other threads; any other access to the object is an obligation that fails")
meta("C30", "all values, any interference by other threads before each access (rely: arbitrary change), 1 access per "
     "operation with the memory order asked for", AT, "memory orders themselves are the platform's")
meta("C31", "sets of 1, 3, 5, 8, 11, 32, 37, 64 bits; all values, any interference before each access; "
     "single, range and whole-set operations", AT, "memory orders themselves are the platform's")
meta("C32", "all values of the 8/16/32/64-bit types; sizes whose product fits std::size_t")
meta("C34", "scales and positions: every value. One digit or separator in every base: every partial sum of 8 to 64 bits. Whole "
     "literals take their text as template arguments: every pair of digits with and without separator, and chosen long "
     "literals (bounded)",
     "consteval is compiled as constexpr so that the functions exist in the extracted program",
     "bounded: whole literals other than digit pairs and the chosen long ones follow from the step contract by induction "
     "over the text, which is not machine-checked")
