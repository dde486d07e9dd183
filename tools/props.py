#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))

p("C01", "Non-modifying sequence algorithms return what the C++ standard specifies",
  "For every input sequence, length, value, predicate and iterator category (input, forward, bidirectional, random access), each non-modifying algorithm (all_of/any_of/none_of/one_of and their _equal forms, find family, adjacent_find, find_end, find_first_of, count, mismatch, equal, is_permutation, search, search_n, min/max/minmax and _element forms, clamp, lexicographical_compare, tristate_lexicographical_compare, is_sorted/is_increasing families, is_partitioned, is_heap(_until)) returns the position, count or truth value the standard (or, for extensions, the documented definition) prescribes. It dereferences only positions inside the given ranges and never applies the predicate outside them.",
  ["inputs"], "all sequences of any length, element values, predicates/comparators and iterator categories",
  "The tests use a few fixed constexpr arrays of about ten elements with random-access iterators; off-by-one errors in the halving/doubling recursions depend on length, position and iterator category.",
  ["sprout/algorithm/*.hpp", "sprout/iterator/distance.hpp", "sprout/iterator/next.hpp"],
  [("divide-and-conquer recursion per iterator category", "sprout/algorithm/find.hpp, equal.hpp, search.hpp, ...")],
  "differential run-time monitor against reference implementations under ASan+UBSan, exact-bounds guarded buffers and bounds-checking iterators",
  "Held on the generated executions only; exhaustive on short sequences over a tiny alphabet, random above; libstdc++ and 5-line reference loops trusted.")

p("C02", "Ordered-range algorithms: binary search, merge and set operations",
  "On every pair of ranges sorted by the comparator used, lower_bound, upper_bound, equal_range, binary_search, partition_point, includes, merge, inplace_merge, set_union, set_intersection, set_difference, set_symmetric_difference and the find_/next_ intersection/difference/union step functions give exactly the standard's result, including multiplicities of duplicates and taking equivalent elements from the range the standard says, for iterator outputs as well as for container-valued results (exact elements, exact fit length).",
  ["inputs"], "all sorted inputs (with duplicates, equivalent-but-distinguishable elements, empty ranges), comparators and iterator categories",
  "The tests use one or two fixed sorted arrays; duplicate multiplicity, stability between equivalent elements and empty/one-sided ranges are not exercised.",
  ["sprout/algorithm/lower_bound.hpp", "sprout/algorithm/fixed/merge.hpp", "sprout/algorithm/fixed/set_union.hpp", "sprout/algorithm/cxx14/set_union.hpp", "sprout/algorithm/next_union.hpp", "sprout/iterator/set_union_iterator.hpp"],
  [("merge loops and step functions", "sprout/algorithm/fixed, fit, cxx14, next_*.hpp, iterator/set_*_iterator.hpp")],
  "differential run-time monitor with tagged (identity-carrying) elements against libstdc++ under ASan+UBSan",
  "Held on the executions generated (exhaustive on small multisets plus random); libstdc++ trusted as oracle.")

p("C03", "Sorting, heap, partition, selection and permutation algorithms",
  "For every input and strict weak ordering, the in-place and the value-returning forms of sort, stable_sort, partial_sort(_copy), nth_element, make_heap/push_heap/pop_heap/sort_heap/make_partial_heap, partition, stable_partition, partition_copy, next_permutation and prev_permutation produce a rearrangement of exactly the input elements satisfying the standard's postcondition (order, stability where promised, heap property, partition point, lexicographic successor and return flag). Nothing outside the given range is touched.",
  ["inputs"], "all inputs, orderings with ties, nth/middle positions, sizes from empty upward",
  "Each test sorts one fixed 10-element array; ties, already sorted, reversed, one-element and empty inputs, every nth/middle position and exhaustive permutation cycles are not covered.",
  ["sprout/algorithm/cxx14/sort.hpp", "sprout/algorithm/fixed/stable_sort.hpp", "sprout/algorithm/cxx14/stable_sort.hpp", "sprout/algorithm/cxx14/make_heap.hpp", "sprout/algorithm/fixed/nth_element.hpp", "sprout/algorithm/fixed/next_permutation.hpp"],
  [("heap sort / merge sort / quickselect on containers and iterators", "sprout/algorithm/{cxx14,fixed,fit}")],
  "run-time postcondition monitor (multiset conservation, order, stability by identity tags, heap property) under ASan+UBSan",
  "Held on exhaustive small inputs and random larger ones; no claim about complexity.")

p("C04", "In-place rewriting algorithms match the standard and stay inside their range",
  "For every input, the iterator (C++14) forms of copy, copy_backward, copy_if, copy_n, copy_until, copy_while, move, move_backward, fill(_n), generate(_n), transform, replace family, remove family, unique family, reverse(_copy), rotate(_copy), swap_ranges, iter_swap, for_each(_n), clamp_range and gather leave exactly the element sequence and return exactly the iterator the standard (or documented extension) prescribes. They write nothing outside the destination range and call user functions exactly as often, in the order, the standard requires.",
  ["inputs"], "all ranges, split points, values, predicates, overlapping source/destination where the standard permits, iterator categories",
  "The tests run each algorithm on one fixed array; split points, overlaps, empty ranges and non-random-access iterators are not exercised.",
  ["sprout/algorithm/cxx14/*.hpp"],
  [("C++14 loops", "sprout/algorithm/cxx14")],
  "differential run-time monitor with guarded exact-size buffers and call-trace comparison against libstdc++ under ASan+UBSan",
  "Held on the generated executions; libstdc++ trusted as oracle.")

p("C05", "Value-returning algorithms leave the source alone and return the exact result",
  "For every input container (array, sub_array view, string, builtin array), each value-returning algorithm of the fixed form returns a container of the result's full size whose produced elements equal the standard algorithm's output and whose remaining elements are the result container's own (or default) values, and the fit form returns a view of exactly the produced elements; the argument containers are not modified. This holds for copy, fill, transform, generate, unfold, recurrence, replace, remove, unique, reverse, rotate, swap_element, clamp_range and all _copy/_if/_n/_until/_while/_backward variants.",
  ["inputs"], "all element values, predicates, split points, result offsets and container kinds",
  "Tests check one fixed input per algorithm and one sub-array offset; lengths that over- or under-fill the result and nested views are not explored.",
  ["sprout/algorithm/fixed/*.hpp", "sprout/algorithm/fit/*.hpp", "sprout/sub_array/sub_array.hpp", "sprout/container/remake.hpp"],
  [("remake / container_complate / sub_copy offset arithmetic", "sprout/algorithm/fixed, sprout/algorithm/fit, sprout/detail/container_complate.hpp")],
  "differential run-time monitor over fixed/fit results against a std::vector model under ASan+UBSan",
  "Held on the generated executions for result capacities 0..12.")

p("C06", "Random-driven algorithms permute, sample and replay exactly",
  "For every input and every uniform random bit generator, shuffle, random_shuffle, random_swap, bogo_sort, bozo_sort and their _result forms return a rearrangement of exactly the input elements, sample returns min(n, size) distinct positions of the population (in population order where promised), the sort forms end sorted, and the same generator state always yields the same result. No permutation or sample is systematically unreachable.",
  ["inputs", "histories"], "all inputs, generator types and generator states",
  "The tests only check that a fixed seed gives a permutation of one array.",
  ["sprout/algorithm/fixed/shuffle.hpp", "sprout/algorithm/cxx14/shuffle.hpp", "sprout/algorithm/cxx14/sample.hpp", "sprout/algorithm/fixed/random_swap.hpp", "sprout/algorithm/fixed/bogo_sort.hpp"],
  [("Fisher-Yates over uniform_int_distribution / uniform_smallint", "sprout/algorithm/fixed/shuffle.hpp")],
  "run-time conservation and determinism monitor over many engine states, with reachability counting of outcomes",
  "Held on the seeds run; statistical statements only as reachability with overwhelming sample sizes (false-alarm probability < 1e-12).")

p("C07", "Numeric folds, scans and differences equal sequential evaluation",
  "For every input, operation and iterator category, accumulate, reduce, inner_product, transform_reduce, partial_sum, adjacent_difference, inclusive/exclusive_scan, transform_inclusive/exclusive_scan and iota return exactly what sequential left-to-right evaluation gives (for the order-insensitive reduce forms: for every associative-commutative operation), in iterator, container-valued and fit forms and through their range overloads. The accumulation happens in the type of the initial value. (As documented by the code in all forms, an inclusive scan given an initial value emits that value first; scans of an empty range without it, and exclusive scans of an empty range, produce nothing.)",
  ["inputs"], "all sequences, initial values, non-commutative operations where order is specified, iterator categories",
  "There is no test directory for numeric at all.",
  ["sprout/numeric/*.hpp", "sprout/numeric/fixed/*.hpp", "sprout/numeric/fit/*.hpp", "sprout/numeric/cxx14/*.hpp", "sprout/range/numeric/*.hpp"],
  [("divide-and-conquer folds", "sprout/numeric/accumulate.hpp, inner_product.hpp, transform_reduce.hpp")],
  "differential run-time monitor with an order-revealing (string-concatenation / affine) operation under ASan+UBSan",
  "Held on the generated executions.")

p("C08", "Fourier transforms agree with the defining sum and invert each other",
  "For every complex sequence of a supported length, dft, fft and the element/iterator forms give the discrete Fourier sum, and idft/ifft applied to the transform returns the original sequence, within rounding error; amplitude spectra are the moduli of the transform's elements and phase spectra their arguments (taken, as the library defines it, after rounding both parts to integers); the periodic wave generators give the defining function at every sample; containers keep the elements outside the part written.",
  ["inputs"], "all sequences and all lengths (powers of two for fft)",
  "There is no test for numeric/dft or numeric/fft.",
  ["sprout/numeric/dft/*.hpp", "sprout/numeric/fft/*.hpp", "sprout/iterator/dft_iterator.hpp", "sprout/range/numeric/dft", "sprout/range/adaptor/dft.hpp"],
  [("radix butterflies and direct summation", "sprout/numeric/fft/cxx14/fft.hpp, sprout/numeric/dft")],
  "differential run-time monitor against a long-double direct summation and round-trip oracle",
  "Held on lengths and inputs run; tolerance scales with n and magnitude.")

p("C09", "Fixed-size containers and views: element access, iteration and bounds",
  "For array, sub_array, pit, sized_pit, index/indirect views and the sprout container functions, every in-range access through operator[], at, front, back, nth, index_of, data, begin/end, rbegin/rend and their const forms reaches the one element at that position, at() (and other checked access) throws std::out_of_range for every out-of-range index, and comparison, swap, fill, assign and hashing behave element-wise. No operation reads or writes outside the container's own storage.",
  ["inputs"], "all sizes (including 0), indices, offsets of views and element values",
  "Tests access a handful of fixed indices of one 10-element array.",
  ["sprout/array/array.hpp", "sprout/sub_array/sub_array.hpp", "sprout/sub_array/sub.hpp", "sprout/container/*.hpp", "sprout/pit/pit.hpp", "sprout/sized_pit/sized_pit.hpp", "sprout/iterator/index_iterator.hpp", "sprout/iterator/ptr_index_iterator.hpp"],
  [("offset arithmetic in views; range_index_check", "sprout/sub_array/sub_array.hpp, sprout/container/range_index_check.hpp")],
  "differential run-time monitor against std::vector model with exhaustive indices under ASan+UBSan",
  "Held on sizes 0..16 exhaustively over indices and view offsets.")

p("C10", "Container operations (append, insert, erase, push, pop, resize, realign, set)",
  "For every container, position, count and inserted values, push_back/front(_n), pop_back/front(_n), append(_back/_front), insert(_n), erase(_n), resize, resize_backward, realign(_to) and set return a container with exactly the elements the operation's name prescribes, in order and of the right size, leaving the argument unchanged. The fit forms return a view of exactly those elements, also when the argument is itself a view.",
  ["inputs"], "all positions, counts, values and views",
  "No tests exist for sprout/operation.",
  ["sprout/operation/fixed/*.hpp", "sprout/operation/fit/*.hpp"],
  [("index remapping", "sprout/operation/fixed/insert.hpp, erase.hpp, append.hpp")],
  "differential run-time monitor against std::vector model under ASan+UBSan",
  "Held on all positions for sizes up to 10.")

p("C11", "basic_string behaves as std::basic_string of bounded capacity",
  "For every string and argument, construction, assignment, concatenation, substr, compare, all find-family members (every overload and start position), copy, resize/clear, comparison operators, iteration, stream output/input and hashing give the result std::basic_string gives, size() always equals the number of characters before the terminator position and c_str() is null-terminated (construction from a pointer and a count n takes at most n characters, stopping at a terminator). Out-of-range positions throw std::out_of_range, growth beyond the capacity throws std::length_error leaving the string unchanged, and no operation accesses outside the capacity.",
  ["inputs", "histories"], "all string contents, positions, counts, char types and operation sequences",
  "The test covers a couple of literal strings; find overload corner cases (empty needles, npos, start past end), resize growth and compare sub-ranges are untested.",
  ["sprout/string/string.hpp", "sprout/string/concat.hpp", "sprout/string/char_traits.hpp", "sprout/string/io.hpp", "sprout/string/comparison.hpp", "sprout/string/detail"],
  [("string_impl find loops, capacity-typed construction", "sprout/string/string.hpp, sprout/string/char_traits.hpp")],
  "differential model-based run-time monitor against std::basic_string under ASan+UBSan",
  "Held on exhaustive short strings over a 2-3 letter alphabet and random longer ones.")

p("C12", "string_view/string_ref behave as std::string_view",
  "For every viewed range and argument, basic_string_view and its string_ref alias construct, slice (substr, remove_prefix/suffix), compare, search (every find/rfind/find_*_of overload, starts_with/ends_with) and convert exactly like std::basic_string_view, never reading outside the viewed characters.",
  ["inputs"], "all contents (embedded NULs), positions, counts and char types",
  "One fixed literal is tested.",
  ["sprout/utility/string_view/string_view.hpp", "sprout/utility/string_view/comparison.hpp", "sprout/string/detail"],
  [("find loops shared with string", "sprout/utility/string_view/string_view.hpp")],
  "differential run-time monitor against std::string_view (C++17) with exact-size heap buffers under ASan+UBSan",
  "Held on exhaustive short views and random longer ones.")

p("C13", "bitset behaves as std::bitset at every width",
  "For every width N (including 0, and non-multiples of the word size) and every value, all bitset operations (construction from integers and strings, set/reset/flip/test, shifts by any amount, &, |, ^, ~, count, any/all/none, find_first/find_next, to_ulong/to_ullong with overflow errors, to_string, comparison, hash, stream I/O) give what std::bitset<N> gives, and bits beyond N are never observable.",
  ["inputs", "histories"], "all widths, bit patterns, shift amounts, positions and operation sequences",
  "The test uses two small widths and fixed values, so word boundaries and unused high bits are hardly touched.",
  ["sprout/bitset/bitset.hpp", "sprout/bitset/bitwise.hpp", "sprout/bitset/hash.hpp", "sprout/bitset/io.hpp"],
  [("word array with sanitised top word", "sprout/bitset/bitset.hpp")],
  "differential model-based run-time monitor against std::bitset under ASan+UBSan",
  "Held on widths 0,1,5,31,32,33,63,64,65,127,128,129,200 with random histories.")

p("C14", "valarray and its slice/mask/indirect views behave as std::valarray",
  "For every valarray value, element-wise and scalar arithmetic, bitwise, comparison, logical and cmath functions, shift/cshift, sum/min/max, apply, resize and subsetting through slice, gslice, mask and index arrays (reading and, where supported, assigning) give what std::valarray gives, touching exactly the selected elements.",
  ["inputs"], "all contents, lengths, shift amounts, slices and index sets",
  "There is no test for valarray.",
  ["sprout/valarray/*.hpp"],
  [("element-wise index expansion", "sprout/valarray/valarray.hpp, sprout/valarray/slice_array.hpp")],
  "differential run-time monitor against std::valarray under ASan+UBSan",
  "Held on generated executions with capacity up to 12.")

p("C15", "optional holds its state and value exactly",
  "For every history of constructions, assignments, swaps, resets and conversions, an optional is engaged exactly when its last transition engaged it, yields exactly the value last stored, compares (with optionals and nullopt) as std::optional/boost::optional do, throws on checked access (get, value, at) and trips the library assertion on unchecked access (*, ->) when disengaged, iterates over exactly its zero or one values, reads back from a stream what it wrote, and value_or / get_value_or return the stored value or the fallback. For reference optionals the referred object's identity is preserved.",
  ["histories", "inputs"], "all operation histories over engaged/disengaged states and values",
  "The test checks a few fixed transitions.",
  ["sprout/optional/optional.hpp", "sprout/optional/comparison.hpp", "sprout/optional/get.hpp"],
  [("init flag plus holder", "sprout/optional/optional.hpp")],
  "model-based run-time monitor (random histories against a flag+value model) under ASan+UBSan",
  "Held on the histories run; also compared with std::optional in C++17.")

p("C16", "variant holds exactly one alternative and dispatches to it",
  "For every history of constructions and assignments, a variant reports the index of the alternative last stored, get<I>/get<T> return that value and trip the library assertion for any other alternative, visitors are applied to exactly the active alternative exactly once, and comparison orders by index and then by value, with equal variants hashing equally.",
  ["histories", "inputs"], "all alternative types, values and histories",
  "The test uses one three-type variant with fixed values.",
  ["sprout/variant/variant.hpp", "sprout/variant/get.hpp", "sprout/variant/apply_visitor.hpp", "sprout/variant/hash.hpp"],
  [("which index over a tuple holder; recursive visitor dispatch", "sprout/variant/variant.hpp, sprout/variant/apply_visitor.hpp")],
  "model-based run-time monitor against a tagged-value model (std::variant in C++17) under ASan+UBSan",
  "Held on the histories run.")

p("C17", "tuple, pair and compressed_pair keep every element in its place",
  "For every list of element values, tuple/pair/compressed_pair construction, conversion, assignment, swap, get, make/tie/tuple_cat-like operations (push/pop/append front/back), apply/fused/make_from_tuple, comparison (lexicographic) and hashing preserve each element's value and position, and references stay references to the original objects.",
  ["inputs", "histories"], "all values and arities, including empty and duplicate element types",
  "Tests cover a three-element tuple of literals.",
  ["sprout/tuple/**/*.hpp", "sprout/utility/pair/*.hpp", "sprout/compressed_pair.hpp"],
  [("recursive inheritance storage and index expansion", "sprout/tuple/tuple/tuple.hpp")],
  "differential run-time monitor against std::tuple/std::pair under ASan+UBSan",
  "Held on arities 0..10 of the listed types.")

p("C18", "Iterator adaptors produce the specified sequence and obey iterator laws",
  "For every base range, each iterator adaptor (transform, filter, remove(_if), replace(_if), unique, adjacent_filter, reverse, step, joint, alternate, clamp, counting, value, valued, indexed, size_enum, merge, set_*, to_lower/upper, while, bytes, move, const casts, index and ptr_index) yields exactly the sequence its definition gives. Wherever the adaptor offers them, ++/--, +=/-=, +, -, [], distance, next/prev and the relational operators are mutually consistent on every pair of positions, and traversal never touches the base outside its range.",
  ["inputs"], "all base contents and lengths, adaptor parameters and pairs of positions",
  "No tests exist for iterators; algorithm tests touch few adaptors at few positions.",
  ["sprout/iterator/*.hpp"],
  [("position arithmetic per adaptor", "sprout/iterator/step_iterator.hpp, joint_iterator.hpp, ...")],
  "run-time law monitor over all position pairs plus reference sequences under ASan+UBSan",
  "Held for base lengths 0..9 exhaustively over positions.")

p("C19", "Range adaptors, range algorithms and their compositions are faithful",
  "For every base range and parameters, each range adaptor pipeline (transformed, filtered, taken, dropped, window, offset, reversed, jointed, merged, stepped, replaced, removed, uniqued, indexed, ... and copied/deep_copied) yields exactly the sequence of the corresponding composition of list functions, and each algorithm called with a range returns the same as with its begin/end iterators.",
  ["inputs", "programs"], "all bases, parameters and compositions of adaptors",
  "No tests exist for ranges.",
  ["sprout/range/adaptor/*.hpp", "sprout/range/algorithm/*.hpp", "sprout/range/numeric/*.hpp"],
  [("adaptor range objects holding iterators", "sprout/range/adaptor/*.hpp")],
  "differential run-time monitor: adaptor compositions against list-function models under ASan+UBSan",
  "Held on the compositions generated.")

p("C20", "cmath functions agree with the C library in the default configuration",
  "In the default configuration every <cmath>-style function (exponential, logarithmic, power, trigonometric, hyperbolic, error/gamma, min/max/fdim/fma, integer overloads and mixed-type promotions) returns the C library's value for every float, double and long double argument to within a few ulp, with the IEC 60559 results for NaN, infinities, signed zeros, domain and overflow cases.",
  ["inputs"], "all float/double/long double arguments (and pairs), integers and mixed argument types",
  "There are no math tests at all.",
  ["sprout/math/*.hpp", "sprout/cmath.hpp"],
  [("special-value guards around compiler builtins", "sprout/math/sin.hpp, pow.hpp, ...")],
  "differential run-time monitor against glibc over bit-pattern-stratified arguments under UBSan",
  "Sampled inputs incl. all special values and boundary bit patterns; glibc trusted.")

p("C21", "The compiler-independent math implementations are accurate too",
  "With the compiler builtins switched off (the configuration other compilers get) the same functions keep their special-value results and stay within a documented relative error of the true value over the main range of each function, for float, double and long double.",
  ["inputs", "configurations"], "all arguments in each function's stated main range and all special values",
  "No test uses this configuration.",
  ["sprout/math/*.hpp", "sprout/math/detail/*.hpp", "sprout/detail/pow.hpp", "sprout/math/factorial.hpp"],
  [("series and argument reduction", "sprout/math/exp.hpp, log.hpp, cos.hpp, atan.hpp, tgamma.hpp, ...")],
  "differential run-time monitor against glibc long double with per-function error budgets under UBSan",
  "Error budgets are set per function from the published algorithm with head-room; values outside the main range are not claimed.")

p("C22", "Rounding, remainder, classification and decomposition are exact",
  "For every argument, in the builtin and in the compiler-independent configuration, floor, ceil, trunc, round, nearest and their integer forms, fmod, remainder, remquo/rem_quo, quotient, frexp-like, ldexp/scalbn/scalbln, ilogb/logb and the radix-2 forms, integer/fractional part, copysign, signbit, fabs, fpclassify/is* predicates and unordered-aware comparisons return the exact mathematical (C library) result.",
  ["inputs", "configurations"], "all float/double/long double values incl. subnormals, halfway cases, NaN, infinities, signed zeros",
  "There are no math tests.",
  ["sprout/math/floor.hpp", "sprout/math/round.hpp", "sprout/math/fmod.hpp", "sprout/math/remainder.hpp", "sprout/math/ilogb.hpp", "sprout/math/float2_exponent.hpp", "sprout/math/fpclassify.hpp"],
  [("conversion through uintmax_t, exponent search", "sprout/math/floor.hpp, sprout/math/logb.hpp")],
  "exact differential run-time monitor against glibc over stratified bit patterns under UBSan in both configurations",
  "Integer results of values out of the range of the integer type are not claimed.")

p("C23", "Integer mathematics is exact",
  "For all integer arguments, gcd, lcm, is_even/is_odd, factorial (up to factorial_limit), Bernoulli numbers (up to their limit, to the accuracy of the type), digit counting and digit extraction, static_pow/static_pow2/static_pow2m1, carry_to_exp2 (with its documented boundary results), div/ldiv/lldiv/imaxdiv and abs give the exact mathematical value whenever it is representable, without undefined behaviour.",
  ["inputs"], "all integers incl. negative, zero and type limits",
  "No tests exist.",
  ["sprout/math/gcd.hpp", "sprout/math/lcm.hpp", "sprout/math/factorial.hpp", "sprout/math/bernoulli.hpp", "sprout/integer/*.hpp", "sprout/detail/math/int.hpp", "sprout/cstdlib/div.hpp"],
  [("Euclid recursion, tables", "sprout/math/gcd.hpp, sprout/math/factorial.hpp")],
  "differential run-time monitor against 128-bit / rational reference arithmetic under UBSan",
  "Exhaustive on small ranges, random and boundary beyond.")

p("C24", "Bit operations match their definition on every value and width",
  "For every integral type and value, popcount, parity, clz, ctz, clrsb, bit_length, bit_reverse, rotations, shifts (logical and arithmetic, any in-range amount), set/reset/flip/test of single bits and bit ranges, trailing/leading masks and lowest-bit operations return what their bit-level definition says, with and without compiler builtins.",
  ["inputs", "configurations"], "all values of all widths (exhaustive for 8 and 16 bits)",
  "No tests exist for sprout/bit.",
  ["sprout/bit/*.hpp"],
  [("builtins or table/mask arithmetic", "sprout/bit/*.hpp")],
  "run-time monitor against bit-loop definitions, exhaustive for 8/16-bit types, under UBSan in both configurations",
  "Exhaustive for 8- and 16-bit types; boundary plus random for 32/64-bit.")

p("C25", "complex arithmetic and functions agree with std::complex",
  "For every complex value, arithmetic (including mixed real/complex and compound assignment), comparison, real/imag/conj/norm/abs/arg/polar/proj, elementary functions (exp, log, pow, sqrt, trigonometric, hyperbolic and inverses) and stream I/O return the same as std::complex up to rounding, with the same branch cuts.",
  ["inputs"], "all finite complex values of moderate magnitude, both sides of branch cuts, zero and axes, and special values where specified",
  "No tests exist.",
  ["sprout/complex/*.hpp"],
  [("formulae over sprout math", "sprout/complex/*.hpp")],
  "differential run-time monitor against std::complex under UBSan",
  "Relative tolerance; exact for arithmetic on small integers.")

p("C26", "rational arithmetic is exact and always normalised",
  "For all operands whose results (and, for + and -, the cross products after dividing by the gcd of the denominators) are representable, rational +,-,*,/ (with rationals and integers), increments, comparison, abs, conversion and stream I/O give the exact value in lowest terms with a positive denominator; a zero denominator throws bad_rational. Comparison never overflows into a wrong answer for any representable operands.",
  ["inputs", "histories"], "all numerator/denominator pairs and operation histories",
  "No tests exist.",
  ["sprout/rational/*.hpp"],
  [("gcd pre-reduction; continued-fraction comparison", "sprout/rational/rational.hpp, sprout/rational/comparison.hpp")],
  "differential run-time monitor against 128-bit exact fractions under UBSan",
  "Exhaustive on small fractions, random with limits.")

p("C27", "Checksums: digests equal the published algorithms for any message and split",
  "For every byte string and every way of splitting it into successive process_block/process_bytes/process_byte/process_range calls, md5, sha1, sum and xor checksums equal the published algorithm's value, and reset returns the generator to its initial state.",
  ["inputs", "histories"], "all messages (lengths around the 56/64-byte padding boundaries) and all splits",
  "No tests exist.",
  ["sprout/checksum/*.hpp"],
  [("64-byte block buffer and padding", "sprout/checksum/md5.hpp, sprout/checksum/sha1.hpp")],
  "differential run-time monitor against independent digest implementations over all lengths 0..~300 and random splits under ASan+UBSan",
  "Reference digests re-implemented from the RFCs and cross-checked with md5sum/sha1sum test vectors.")

p("C28", "uuid parsing, printing and generation follow RFC 4122",
  "For every uuid, text conversion round-trips and rejects malformed text, variant and version bits report the RFC fields, name-based generators equal the RFC v3/v5 construction for every namespace and name, random generators always set version 4 and the RFC variant and use every other bit from the engine, and comparison/hash/swap act on the 16 bytes.",
  ["inputs"], "all uuids, names, namespaces, textual forms (case, braces, hyphens) and engine states",
  "No tests exist.",
  ["sprout/uuid/*.hpp"],
  [("byte tables and digest truncation", "sprout/uuid/string_generator.hpp, sprout/uuid/name_generator.hpp")],
  "differential run-time monitor against an independent RFC 4122 implementation under ASan+UBSan",
  "Held on the generated inputs.")

p("C29", "Random engines reproduce the published sequences from any seed",
  "For every seed, each engine (linear congruential, inversive congruential, additive combine, shuffle order, mersenne twister, taus88/linear feedback shift, xor combine, and the named presets) produces exactly the sequence of the std/Boost engine of the same parameters, every value lies in [min, max], equal states give equal futures, and saving/restoring a state through streams or copies continues the sequence.",
  ["inputs", "histories"], "all seeds and sequence lengths",
  "Tests check one or a few values from fixed seeds.",
  ["sprout/random/linear_congruential.hpp", "sprout/random/mersenne_twister.hpp", "sprout/random/shuffle_order.hpp", "sprout/random/taus88.hpp", "sprout/random/inversive_congruential.hpp", "sprout/random/xor_combine.hpp", "sprout/random/detail/const_mod.hpp"],
  [("purely functional state transition", "sprout/random/*.hpp")],
  "differential sequence monitor against Boost.Random / std engines under UBSan",
  "Held on the seeds and prefix lengths run.")

p("C30", "Distributions stay in range and transform the engine deterministically",
  "For every parameter set and engine state, uniform_int/uniform_smallint/uniform_real/uniform_01/bernoulli/binomial/geometric/poisson/normal distributions and generate_canonical return values inside the documented range, equal the reference (Boost) transformation of the same engine stream where one exists, have the documented mean/variance in the long run, and expose, compare and stream their parameters faithfully; invalid parameters are rejected.",
  ["inputs", "histories"], "all valid parameters (full-range integers included), engines and states",
  "Tests draw a few values from one parameter set.",
  ["sprout/random/*_distribution.hpp", "sprout/random/uniform_01.hpp", "sprout/random/uniform_smallint.hpp", "sprout/random/generate_canonical.hpp", "sprout/random/variate_generator.hpp"],
  [("range reduction, rejection, inversion", "sprout/random/uniform_int_distribution.hpp, binomial_distribution.hpp, poisson_distribution.hpp")],
  "differential and range run-time monitor against Boost.Random, with wide statistical bounds, under UBSan",
  "Statistical bounds have false-alarm probability < 1e-9 and are deterministic for a given seed.")

p("C31", "C string and wide/memory functions match the C library without over-reading",
  "For every null-terminated string or buffer, strlen, strcmp, strncmp, strcoll, strchr, strrchr, strstr, strspn, strcspn, strpbrk, memchr, memcmp, the copying functions (strcpy, strncpy, strcat, strncat, memcpy, memmove, memset) and the wide-character family return the C library's result and read no byte past the terminator or the given count.",
  ["inputs"], "all byte contents (including bytes above 127), positions and counts",
  "Tests use one literal string each.",
  ["sprout/cstring/*.hpp", "sprout/cwchar/*.hpp"],
  [("recursion/iteration to the terminator", "sprout/cstring/*.hpp")],
  "differential run-time monitor against glibc with exact-size heap buffers under ASan+UBSan",
  "Exhaustive on short strings over a small alphabet with high bytes; random beyond.")

p("C32", "Text-to-number conversion matches the C library",
  "For every text, base and target type, atoi/atol/atoll, strtol/strtoul/strtoll/strtoull/strtoimax/strtoumax, atof/strtof/strtod/strtold and the string/string_view sto* functions (which never look past the string's or view's own length) accept exactly the numerals the C library accepts (floating: decimal numerals whose digits alone do not overflow the type; hexadecimal, inf and nan only with an end pointer), return its value (clamped to the target type on overflow; floating values to within rounding) and report the same end position, with and without an end pointer.",
  ["inputs"], "all texts, bases 0 and 2..36, target types",
  "No test covers these conversions.",
  ["sprout/cstdlib/*.hpp", "sprout/cinttypes/*.hpp", "sprout/string/string_to_int.hpp", "sprout/string/string_to_float.hpp", "sprout/utility/string_view/string_to_int.hpp", "sprout/detail/char_conversion.hpp"],
  [("digit accumulation with pre-checked overflow", "sprout/cstdlib/str_to_int.hpp, ascii_to_int.hpp, str_to_float.hpp")],
  "differential run-time monitor against glibc over grammar-generated and boundary numerals under ASan+UBSan",
  "Held on generated texts.")

p("C33", "Number-to-text conversion round-trips",
  "For every integer of every type and base 2..16, to_string/int_to_string (all character types) produces exactly the canonical numeral, minimum included, and for every float and double value to_string / float_to_string / float_to_string_exp produce the fixed and exponent forms with six decimals, correctly signed (inf and nan spelled out), within half a unit of the last printed decimal plus the rounding of the type, inside the string's capacity; parsing the text back gives the number to that precision.",
  ["inputs"], "all integers incl. type minima/maxima, all bases, floating values incl. near powers of ten and rounding carries",
  "No tests exist.",
  ["sprout/string/int_to_string.hpp", "sprout/string/float_to_string.hpp", "sprout/string/to_string.hpp", "sprout/detail/math/int.hpp", "sprout/detail/math/float.hpp"],
  [("digit extraction", "sprout/detail/math/int.hpp, sprout/detail/math/float.hpp")],
  "differential run-time monitor against printf and std::to_string under UBSan",
  "Held on generated values; digits beyond double precision not claimed.")

p("C34", "Character classification, case mapping and byte-order conversion",
  "For every code unit, the ascii and wide classification predicates and case mappings equal the C locale's <cctype>/<cwctype> for ASCII and reject everything else, and the network/endian conversions (hton/ntoh, reverse bytes, big/little traits) are exact byte permutations that invert each other for every value of every width.",
  ["inputs"], "all char, wchar_t, char16_t, char32_t values; all integers",
  "One test checks four endian literals.",
  ["sprout/ctype/*.hpp", "sprout/net/endian.hpp", "sprout/endian_traits.hpp"],
  [("mask table; byte shuffles", "sprout/ctype/ascii.hpp, sprout/net/endian.hpp")],
  "exhaustive run-time comparison with the C locale and byte-swap builtins under UBSan",
  "Exhaustive over 0..0x10FFFF code units and 16-bit integers; random for 32/64-bit.")

p("C35", "weed parsers accept exactly their grammar and yield its attributes",
  "For every input text and every grammar built from weed primitives (chars, classes, strings, literals, int/uint/hex/oct/bin, eps/eol/eoi, lim) and combinators (sequence, alternative, kleene, plus, optional, list, difference, negative/positive lookahead, repeat, omit, as_array/as_tuple, replace), parse succeeds exactly when a PEG with those operators does, stops at the same position and returns the attribute values the grammar describes.",
  ["inputs", "programs"], "all texts and all grammars composed of the supported operators",
  "No weed test exists, only examples.",
  ["sprout/weed/**/*.hpp"],
  [("PEG evaluation over parse_context", "sprout/weed/context/parse_context/**")],
  "differential run-time monitor against an independent PEG interpreter over generated texts for a family of composed grammars under ASan+UBSan",
  "Held on the grammar family and texts run; limit 1 with stopover, character sets with '-' at an end, and values that do not fit the number type are excluded.")

p("C36", "brainfuck interpreters execute programs correctly within their buffers",
  "For every well-formed program and input, the brainfuck (and ook, misa) evaluators produce exactly the output of the language's reference semantics, report running off the tape, the input or the output buffer by std::out_of_range (a value read into a cell off the tape may instead be dropped), and never access memory outside the tape, the program or the output buffer.",
  ["programs", "inputs"], "all programs (nested and empty loops), inputs and buffer sizes",
  "No test exists.",
  ["sprout/brainfuck/*.hpp"],
  [("recursive interpreter with bracket matching", "sprout/brainfuck/brainfuck.hpp")],
  "differential run-time monitor against a reference interpreter on random programs under ASan+UBSan",
  "Held on the generated terminating programs.")

p("C37", "Audio synthesis: waveforms, effects, filters and PCM formatting",
  "For every parameter set, waveform generators (sinusoidal, square, sawtooth, triangle, noise, blank; bounded by a range or unbounded) give the defining function at every sample and their iterators are consistent random-access iterators; effects (volume, clipping, distortion, fuzz, overdrive, gate, compression, tremolo, auto pan, reverberation, pseudo stereo, vibrato, chorus, superposition, vocal cancelling) compute their per-sample formula without reading outside the signal; stereo interleaving and the left/right/each channel adaptors address the right channel; the IIR designs have the frequency response of their analogue prototype and apply_iir computes the difference equation; PCM formatting saturates, is monotonic and truncates the scaled sample; loaded sources are normalised to [-1, 1).",
  ["inputs"], "all frequencies, phases, amplitudes, sample values (out-of-range and infinite included for PCM), delays longer than the signal, positions and cut-off frequencies",
  "No test exists.",
  ["sprout/compost/**/*.hpp", "sprout/range/adaptor/sinusoidal.hpp", "sprout/iterator/square_iterator.hpp", "sprout/iterator/sawtooth_iterator.hpp", "sprout/iterator/triangle_iterator.hpp"],
  [("wave iterators; effect adaptors; filter design", "sprout/iterator/*_iterator.hpp, sprout/compost/effects/*.hpp, sprout/compost/utility/iir_filter.hpp")],
  "differential run-time monitor against closed-form reference waveforms, effects and analogue transfer functions under ASan+UBSan, signals in exact-size heap buffers",
  "Held on the generated parameters; positions between -1 and 0 of interpolating effects and jump points of discontinuous waves excluded.")

p("C38", "Ray tracing geometry and shading are consistent",
  "For every ray and scene, vector algebra follows its defining identities, object intersection reports a hit exactly when the ray meets the object in front of its origin, with the nearest distance, position on the surface and unit normal, lights and materials compute their documented shading, and pixels are generated in order with colours clamped to the output range.",
  ["inputs"], "all rays, objects, lights and colours (hits from outside and inside, misses, parallel rays)",
  "No test exists.",
  ["sprout/darkroom/**/*.hpp"],
  [("quadratic and plane intersections", "sprout/darkroom/objects/sphere.hpp, aa_plane.hpp, polygon/triangle.hpp")],
  "differential run-time monitor against analytic geometry in long double under UBSan",
  "Held on generated scenes; grazing configurations excluded by a margin.")

p("C39", "Compile-time and run-time evaluation agree",
  "Every constexpr-usable function gives the same result when evaluated by the compiler in a constant expression as when executed at run time on the same arguments, in C++11, C++14 and C++17, and evaluation in a constant expression is possible (hence free of undefined behaviour) for all arguments of its domain; transcendental functions evaluated through compiler built-ins agree to a few ulps, everything else exactly.",
  ["inputs", "programs", "configurations"], "all functions offered as constexpr, arguments of their domain, language modes",
  "The tests evaluate a few fixed arguments; consistency for arbitrary arguments and between the two modes is not compared.",
  ["sprout/**/*.hpp", "sprout/config/suffix.hpp"],
  [("single-expression C++11 constexpr and relaxed C++14 forms", "sprout/config")],
  "generated programs: compiler's constant evaluator as UB interpreter, compared at run time with the executed function on laundered arguments",
  "Arguments are drawn from the seed; the g++ and clang++ constant evaluators are trusted.")

p("C40", "Function objects, binders and hashing honour their contracts",
  "For all arguments, the arithmetic/comparison/logical/bitwise function objects (typed and transparent), negators, composition, bind/bind1st/bind2nd with placeholders, mem_fn, invoke and reference wrappers perform exactly the operator or call they denote with arguments in the right places, and hash values are equal for equal objects across all hashable types and independent of how the value was produced, range hashes depending on every element and its order.",
  ["inputs"], "all argument values and types, binder argument permutations, equal-but-differently-built values",
  "No tests exist.",
  ["sprout/functional/**/*.hpp"],
  [("forwarding call operators; hash_combine", "sprout/functional/bind/bind.hpp, sprout/functional/hash")],
  "differential run-time monitor against built-in operators and std::bind under ASan+UBSan, hash-consistency observation over equal pairs",
  "Held on the generated arguments.")

p("C41", "tribool implements three-valued Kleene logic",
  "For all combinations of true, false and indeterminate (and bools), !, &&, ||, ==, !=, conversion, indeterminate() and stream I/O give the Kleene truth tables.",
  ["inputs"], "all operand combinations (finite), and I/O texts",
  "No tests exist.",
  ["sprout/logic/**/*.hpp"],
  [("three-state enum", "sprout/logic/tribool/tribool.hpp")],
  "exhaustive run-time enumeration against the truth tables",
  "Exhaustive.")

p("C42", "Type-level computations: index tuples, type sequences and traits",
  "For every length, bounds and type list, make_index_tuple/index_range/index_n/integer_* generate exactly the stated sequences, type-list operations (push, pop, append, joint, tuple_cat, rebind, find, count, all/any/none/one of, bounds, fold, accumulate, map, transform, partial_sum, iteration before the end) give what the same operation gives on a run-time list and keep the kind of list, type traits that have a standard counterpart agree with it on every type kind (the is_trivially_* family, approximated on GCC, excepted), and the operator-detecting and promotion traits agree with the language.",
  ["programs"], "all lengths, ranges with steps, type lists and type categories",
  "No tests exist for type, tpp, index_tuple or type_traits.",
  ["sprout/index_tuple/*.hpp", "sprout/type/**/*.hpp", "sprout/tpp/**/*.hpp", "sprout/type_traits/*.hpp"],
  [("template recursion by halving", "sprout/index_tuple/make_index_tuple.hpp, index_range.hpp")],
  "generated programs whose metafunction results are recorded at run time and compared with run-time list models / std traits",
  "Held on the generated type lists and lengths.")

p("C43", "Quaternion algebra and parametric curves",
  "For every component and scalar type, quaternion construction, conversion, access, comparison, hashing and the arithmetic operators with quaternions, complex numbers and reals on either side follow Hamilton's rules (exactly where the components are exactly representable, to rounding otherwise, in-place and aliased forms included); conj, norm, abs, sup, l1, integer powers, the coordinate creations and the text forms give the textbook values; division and abs do not overflow or underflow on the way; and bezier and catmull_rom_spline return the point of the curve their control points define for every parameter.",
  ["inputs"], "all component values, operand kinds, scalar types, control points and parameters",
  "The test suite has no test of quaternions or curves.",
  ["sprout/math/quaternion/*.hpp", "sprout/math/quaternion.hpp", "sprout/math/curve/*.hpp"],
  [("scaled division by cases on the operand kind", "sprout/math/quaternion/quaternion.hpp operator/"), ("binary powering", "sprout/math/quaternion/pow.hpp"), ("de Casteljau recursion", "sprout/math/curve/bezier.hpp")],
  "run-time monitors comparing each operation with Hamilton's unit table, Boost.Math's quaternion and de Casteljau / Hermite evaluation in long double, under ASan/UBSan",
  "Held on the sampled quaternions and curves; sup and l1 are claimed for floating component types.")

p("C44", "Uniform access to containers and pointers",
  "For every container kind the library adapts (its own arrays, strings, views, valarrays, complex numbers and quaternions, sub-containers, pits, ranges and holders; C arrays; std and boost containers; user containers with members or ADL functions) the free functions begin, end, size, empty, front, back, at, subscript_at, nth, index_of, data and their c-forms denote the same elements as the container's own iteration, const or not; writing through any of them changes exactly that element; at throws std::out_of_range exactly outside the container; make, remake, rebind and the internal/offset functions of sub-containers are consistent with it; and exempt_ptr and the pointer casts behave as the raw pointer.",
  ["inputs"], "all container kinds, sizes, contents and positions",
  "The test suite uses the free functions on array only, with one content.",
  ["sprout/container/*.hpp", "sprout/container/detail/*.hpp", "sprout/container/std/*.hpp", "sprout/container/boost/array.hpp", "sprout/pit/*.hpp", "sprout/sized_pit/*.hpp", "sprout/sub_array/*.hpp", "sprout/range/range_container.hpp", "sprout/memory/*.hpp"],
  [("dispatch on what the container offers", "sprout/container/detail/range_back.hpp"), ("const and non-const overloads share one implementation", "sprout/container/detail/range_at.hpp"), ("offsets into the internal container", "sprout/sub_array/sub_array.hpp")],
  "run-time monitors comparing every access path with plain iteration over the same container and with raw pointers, under ASan/UBSan",
  "Held on the sampled containers; user containers of forward iterators only and proxies other than std::complex's are not sampled.")

p("C45", "Intrusive forward list",
  "For every sequence of operations on one or two forward_clist objects over items the user owns (push_front, pop_front, insert_after, erase_after, unlink, clear, assign, swap, move construction and assignment, in their single-item and range forms), each list holds exactly the items linked to it in order, every item not in a list is unlinked, the returned positions and const iteration agree with the contents, assigning to an item changes its value and not its links, and items are never touched after they left or before they joined.",
  ["inputs", "histories"], "all operation histories over up to two lists",
  "The test suite has no test of forward_clist.",
  ["sprout/forward_clist.hpp", "sprout/utility/value_holder/*.hpp"],
  [("links held by reference holders inside the items", "sprout/forward_clist.hpp"), ("unlinking walks with the next position", "sprout/forward_clist.hpp erase_after, unlink")],
  "run-time monitors replaying random histories against a list of item numbers, checking every link after every operation, under ASan/UBSan",
  "Held on the sampled histories of 30 operations over up to 10 items; items that are linked into two lists at once are outside the contract.")

p("C46", "Chained comparisons, calendar time and predicates over type lists",
  "For all operands, a chain sprout::comp % a < b <= c ... (ascending, descending or equal, with the operators of the type or a given comparator) is true exactly when every adjacent pair satisfies its comparison, and compares nothing after the first pair that fails; to_time_t of a date and time (as numbers, std::tm or __DATE__/__TIME__-like texts) is the number of seconds of the proleptic Gregorian UTC calendar, consecutive days being 86400 s apart; difftime is the difference; tpp::all_of, any_of, none_of, one_of, min_element and max_element (and the _c forms) give what a loop over the values gives.",
  ["inputs"], "all operand tuples; all dates; all type lists",
  "The test suite has no test of these headers.",
  ["sprout/utility/comparison.hpp", "sprout/ctime/*.hpp", "sprout/tpp/algorithm/*.hpp"],
  [("references kept by a chain, null after a failed comparison", "sprout/utility/comparison.hpp"), ("leap days by integer division", "sprout/ctime/to_time_t.hpp"), ("halving recursion over type lists", "sprout/tpp/algorithm/*.hpp")],
  "run-time monitors against pairwise comparisons and counted comparator calls, timegm/gmtime_r, and loops, under ASan/UBSan",
  "Every day of the years 1..2800 is enumerated and dates to year 5000000 sampled; chains of up to four operands, exhaustive over small values; type lists exhaustive to 7 booleans.")

p("C47", "Utility: loops, saturating arithmetic, observer pointers and holders",
  "For all values, while_loop and until_loop (and flat_ forms) apply the operation exactly as often as the plain loop and return its result; limited::plus and multiplies return the exact result clamped to the range of the promoted type without overflowing; every operation history on exempt_ptr/observer_ptr acts as on the raw pointer (null included: comparison, hash, output, arithmetic); pointer casts agree with the language casts; value_holder holds its value or refers to its object through copy, move, swap and assignment; comparisons of pointees order null before every value; exchange returns the old value.",
  ["inputs", "histories"], "all values and operation histories",
  "The test suite has no test of these headers.",
  ["sprout/utility/{while_loop,until_loop,limited,compare_pointees,exchange,dyn_cast,reinter_cast,rel_ops}.hpp", "sprout/utility/value_holder/*.hpp", "sprout/memory/*.hpp"],
  [("doubling recursion with an early stop flag", "sprout/utility/while_loop.hpp"), ("overflow conditions by division", "sprout/utility/limited.hpp"), ("reference holders keep a pointer", "sprout/utility/value_holder/value_holder.hpp")],
  "run-time monitors against plain loops, 128-bit arithmetic, raw pointers and language casts over random histories, under ASan/UBSan",
  "Held on the sampled values; operands of mixed signedness in limited:: are not claimed; conversion of a non-const arithmetic value_holder to bool is not claimed (it converts through the value).")

NOT_APPLICABLE = []

def claimed():
    """Only properties whose check exists are claimed."""
    return [q for q in P if os.path.exists(os.path.join(V, "checks", q["id"], "suite.json"))]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            o = dict(id=q["id"], title=q["title"], statement=q["statement"],
                     quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
                     anchors=dict(files=q["files"],
                                  mechanism=[dict(name=n, where=w) for n, w in q["mech"]],
                                  observe_at=q["observe"] or ["return values, output ranges and exceptions at the public API"],
                                  hook_needed=None))
            f.write(json.dumps(o) + "\n")
    cl = claimed()
    ids = {q["id"] for q in cl}
    man = dict(version=1, setup_cmd="bash tools/setup.sh",
               checks=[dict(property=q["id"], quick_cmd=f"python3 tools/run.py {q['id']}",
                            thorough_cmd=f"python3 tools/run.py {q['id']} --tier thorough",
                            evidence_file=f"evidence/{q['id']}.json", technique=q["technique"],
                            level="exploration", level_note=q["note"]) for q in cl],
               not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE] +
                              [dict(property=q["id"], reason="check under construction; not claimed yet")
                               for q in P if q["id"] not in ids and q["id"] not in [i for i, _ in NOT_APPLICABLE]],
               notes="No hooks in /repo: the library is header-only and its public API exposes everything the monitors observe. Checks compile harnesses in checks/<id>/ against /repo's working tree.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
