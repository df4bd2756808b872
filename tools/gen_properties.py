#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
SB = "p1788/flavor/infsup/setbased/"
FL = SB + "mpfr_bin_ieee754_flavor"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("P01", "Arithmetic operations enclose every exact pointwise result",
 "For the arithmetic, integer-rounding and sign-like interval operations (pos, neg, add, sub, mul, div, recip, sqr, sqrt, fma, abs, min, max, sign, ceil, floor, trunc, round-to-nearest ties-even/ties-away), the returned interval contains the exact real result for every combination of real points taken from the input intervals at which the operation is defined; a point at which it is undefined contributes nothing. The result is empty only if no input points are in the domain (in particular if an input is empty). This holds for every bound type and equally through the free functions, the static members, the operators and the decorated versions.",
 ["inputs"], "all pairs/triples of valid intervals (empty, point, bounded, half-bounded, entire, signed-zero bounds, subnormal and huge bounds) over float, double and long double, and all points in them",
 "The tests check some hundreds of hand-picked (mostly double) intervals against literal bounds; containment is a universal statement over all bounds and all points, including directed-rounding, subnormal, overflow and sign-case combinations the tests never form.",
 [FL+"_elem_func_impl.hpp", "p1788/infsup/base_interval_elem_func_impl.hpp", "p1788/util/mpfr_var_impl.hpp"],
 [("sign-case split with downward/upward rounded bounds", FL+"_elem_func_impl.hpp: add, sub, mul, div, fma"),
  ("subnormalize() after each directed rounding", "p1788/util/mpfr_var_impl.hpp")],
 ["returned bounds of p1788::infsup::interval / decorated_interval operations"])

prop("P02", "Elementary functions enclose every exact function value",
 "For pown, pow, exp, exp2, exp10, log, log2, log10, sin, cos, tan, asin, acos, atan, atan2, sinh, cosh, tanh, asinh, acosh and atanh, the returned interval contains the exact value of the function at every point of the input that lies in the function's domain, including all interior extrema, poles and branch cuts (an input that contains a pole of tan yields the entire line). The result is empty only if the input contains no point of the domain.",
 ["inputs"], "all valid input intervals and all points in them, over float, double and long double, including arguments near multiples of pi/2, near overflow/underflow thresholds, near domain ends and of huge magnitude",
 "The tests probe a few values per function in double; the case analysis (which extremum, which quadrant, which monotone branch) depends on exact positions of irrational critical points, which only rare inputs expose.",
 [FL+"_elem_func_impl.hpp", "p1788/infsup/base_interval_elem_func_impl.hpp"],
 [("quadrant/extremum detection for periodic functions", FL+"_elem_func_impl.hpp: sin, cos, tan"),
  ("branch-cut handling", FL+"_elem_func_impl.hpp: atan2"),
  ("parity and sign cases", FL+"_elem_func_impl.hpp: pown, pow")],
 ["returned bounds of the interval functions"])

prop("P03", "Forward operations return the tightest enclosure",
 "Every forward operation (all operations of P01 and P02) returns exactly the hull of the range: the lower bound is the greatest number of the bound type that is not above the infimum of the range and the upper bound the smallest number not below its supremum, using infinite bounds only where the range is unbounded or exceeds the largest finite number. No widening is added on top of correct outward rounding, and exactly representable bounds are returned unchanged.",
 ["inputs"], "all valid input intervals over float, double and long double",
 "Tests compare literal results for a few inputs; a wrongly rounded last bit, double rounding in the subnormal range or an over-wide case of a sign split only shows for specific bounds.",
 [FL+"_elem_func_impl.hpp", "p1788/util/mpfr_var_impl.hpp", FL+".hpp"],
 [("MPFR correct rounding in the format's exponent range", "p1788/util/mpfr_var.hpp (PREC, EMIN, EMAX, subnormalize)"),
  ("exact case analysis of the range", FL+"_elem_func_impl.hpp")],
 ["returned bounds"])

prop("P04", "Mixed-precision operations lose no accuracy and no enclosure",
 "An operation whose inputs and/or result have different bound types (float, double, long double in any combination) returns the tightest interval of the result type that encloses the exact range over the original inputs; the inputs are never rounded before the operation is evaluated. A decorated result carries the decoration of the exact operation, reduced from com to dac only if the bounds overflow to infinity in the result type; mixed-type comparisons and overlap decide on the exact values of both operands.",
 ["inputs", "configurations"], "all combinations of input and result bound types for all operations, all valid inputs",
 "The tests only exercise selected type combinations with a few values each; a conversion through the wrong intermediate type shows only where the value is not representable in the smaller type.",
 [FL+"_elem_func_impl.hpp", FL+"_class_impl.hpp", FL+"_set_op_impl.hpp", FL+"_cancel_func_impl.hpp", "p1788/util/mixed_type_traits.hpp"],
 [("computation in the maximum precision of all types, then outward conversion", "p1788/util/mixed_type_traits.hpp: max_precision_type; "+FL+"_util_func_impl.hpp: convert_hull")],
 ["results of interval<R>::op(interval<T1>, interval<T2>, ...)"])

prop("P05", "Decorations are sound, strongest and propagate through operations",
 "The decoration of a decorated forward operation is the minimum of the input decorations and of what holds for the function on the input box: com if the box is nonempty and bounded, the function is defined and continuous at every point of it and the returned interval is bounded; dac if it is defined on the nonempty box and its restriction to the box is continuous (so a step function that is constant on a box that touches a jump gets dac, not com); def if it is only defined everywhere on the nonempty box; trv otherwise. Any NaI input gives NaI, and set operations, cancellation and reverse operations never return more than trv, except for the first component of the two-output division, which is undecorated-exact division when zero is not in the denominator.",
 ["inputs"], "all decorated inputs with all valid decorations, all forward, set, cancel and reverse operations, same-type and mixed-type",
 "A wrong decoration needs one specific relation between box, domain edge, discontinuity and overflow; the tests list some such boxes per function but cannot cover all relations and all decoration combinations.",
 [FL+"_elem_func_impl.hpp", FL+"_set_op_impl.hpp", FL+"_rev_func_impl.hpp", FL+"_cancel_func_impl.hpp", FL+"_mul_rev_to_pair_func_impl.hpp"],
 [("local decoration computed next to the bounds and minimised with the inputs", FL+"_elem_func_impl.hpp"),
  ("NaI short cut", FL+"_elem_func_impl.hpp: is_nai checks")],
 ["decoration() of decorated results"])

prop("P06", "Results are always well formed and invalid operands are rejected",
 "Every operation on well-formed operands returns a well-formed interval: empty, or lower <= upper with lower < +inf and upper > -inf and no NaN bound; a decorated result is NaI, or empty with trv, or unbounded with at most dac, or bounded with any of trv/def/dac/com, and never ill on a non-NaI value. An operand that is not a well-formed representation is answered with the neutral error value of the result kind (empty interval, NaI, NaN or false) together with the invalid-operand flag, and a well-formed operand never raises that flag.",
 ["inputs", "histories"], "all operations on valid operands, arbitrarily composed, and on every kind of malformed representation (NaN in one bound, reversed bounds, both bounds at the same infinity, decoration inconsistent with the bounds, out-of-range decoration byte) in every operand position",
 "Malformed operands and long compositions are only sampled by the tests; a missing validity check in one operand position of one overload is invisible unless exactly that position is malformed.",
 [FL+"_validation_func_impl.hpp", FL+"_elem_func_impl.hpp", FL+"_bool_func_impl.hpp", FL+"_cancel_func_impl.hpp", FL+"_rev_func_impl.hpp", FL+"_num_func_impl.hpp"],
 [("is_valid guards at the entry of each operation", FL+"_validation_func_impl.hpp")],
 ["flavor representation values, exception state"])

prop("P07", "Comparison relations equal their set-theoretic definitions",
 "is_empty, is_entire, is_nai, equal (==, !=), subset/superset, less/greater, precedes/succeeds, interior/contains_interior, strictly_less/strictly_greater, strictly_precedes/strictly_succeeds and disjoint decide exactly the quantified definition of IEEE 1788 over the sets of real numbers (with the topological reading at infinite bounds and the defined values for empty operands), independent of the sign of zero bounds. Comparisons involving NaI are false (so != is true), and mirrored relations agree with their counterparts with swapped operands.",
 ["inputs"], "all pairs of valid intervals, same and different bound types, bare and decorated",
 "Each relation has about 20 qualitatively different configurations per operand pair (shared bounds, infinities, empties) times nine type combinations; the tests enumerate only part of them and no property (antisymmetry, transitivity, mirror, De Morgan) at all.",
 [FL+"_bool_func_impl.hpp", "p1788/infsup/base_interval_bool_func_impl.hpp"],
 [("bound comparisons in the maximum precision with infinity special cases", FL+"_bool_func_impl.hpp")],
 ["boolean results"])

prop("P08", "Overlap state and point predicates describe the operands exactly",
 "overlap returns the one state of the sixteen that describes the relative position of the two intervals; swapping the operands returns the mirrored state, and the state is consistent with equal, subset, interior, precedes and disjoint. is_member, is_singleton and is_common_interval are true exactly for a finite number inside the interval, a one-point interval, and a nonempty bounded interval, for every number type, and are false (overlap: undefined) for NaI.",
 ["inputs"], "all pairs of valid intervals over all type combinations; all numbers including NaN and infinities",
 "The tests give one or two examples per state; exactly-one-state and the symmetry laws are relations over all pairs.",
 [FL+"_rec_overlap_impl.hpp", FL+"_rec_bool_func_impl.hpp", "p1788/overlapping/overlapping.hpp"],
 [("ordered decision cascade on the four bounds", FL+"_rec_overlap_impl.hpp")],
 ["overlapping_state and boolean results"])

prop("P09", "Intersection and convex hull are exact set operations",
 "intersection returns exactly the common points of the operands (empty if there are none) and convex_hull the smallest interval containing both, with bounds taken unchanged from the operands (outward rounded only when the result type is narrower). They are commutative, idempotent and absorbing with respect to each other, empty is neutral for the hull and absorbing for the intersection, decorated results carry trv, and NaI in either operand gives NaI.",
 ["inputs"], "all pairs of valid intervals over all type combinations, bare and decorated",
 "Algebraic laws and exactness over all bound configurations are not expressible as the sampled literal comparisons the tests make.",
 [FL+"_set_op_impl.hpp", "p1788/infsup/base_interval_set_op_impl.hpp"],
 [("min/max of bounds", FL+"_set_op_impl.hpp")],
 ["returned bounds and decorations"])

prop("P10", "Numeric functions of an interval are correctly rounded and consistent",
 "inf and sup return the bounds (-0 and +0 for zero bounds, +inf/-inf for the empty set), rounded outward for a narrower result type; wid and mag are rounded upward and mig downward, mid is the nearest number to the midpoint (0 for the entire line, the extreme finite number for half-lines, +0 for a zero result). rad is the smallest number for which [mid - rad, mid + rad] encloses the interval and mid_rad returns exactly the pair (mid, rad); all of them are NaN on the empty set where no value is defined, and NaN on NaI.",
 ["inputs"], "all valid intervals, all input/result type combinations, bare and decorated",
 "The midpoint near overflow and in the subnormal range, double rounding between types, and the enclosure law mid +- rad hold or fail for specific bounds that a handful of examples cannot reach.",
 [FL+"_num_func_impl.hpp", "p1788/infsup/base_interval_num_func_impl.hpp"],
 [("extended exponent range for the halved bounds", FL+"_num_func_impl.hpp: mid"),
  ("maximum distance from the midpoint, rounded upward", FL+"_num_func_impl.hpp: mid_rad")],
 ["returned numbers"])

prop("P11", "Reverse operations lose no solution and stay accurate",
 "For sqr, abs, pown, sin, cos, tan and cosh, the reverse operation f_rev(c, x) contains every real point of x whose function value lies in c, and the one-argument form every such real point at all; the result is a subset of x, is empty if c does not meet the range of f, and is decorated trv (NaI if an operand is NaI). For sqr, abs, pown and cosh each bound is the tightest possible for the preimage or a bound of x; for sin, cos and tan no more than a few units in the last place are added for arguments of moderate size.",
 ["inputs"], "all pairs of valid intervals c, x (all integers p for pown), same-type and mixed-type, over float, double and long double",
 "A lost solution needs a c/x pair whose boundary falls between two neighbouring preimage branches or a sign/parity/infinity combination; the tests use a few dozen literal pairs.",
 [FL+"_rev_func_impl.hpp", "p1788/infsup/base_interval_rev_func_impl.hpp"],
 [("branch selection by period counting", FL+"_rev_func_impl.hpp: sin_rev, cos_rev, tan_rev"),
  ("outward rounded inverse functions and intersection with x", FL+"_rev_func_impl.hpp: sqr_rev, abs_rev, pown_rev, cosh_rev")],
 ["returned bounds and decorations"])

prop("P12", "Reverse multiplication encloses all solutions, tightly, in one or two parts",
 "mul_rev_to_pair(b, c) returns the set of all x for which b*x meets c for some b, as one interval or as two ordered intervals on either side of the gap around zero, each the tightest enclosure of its part and an absent part being empty. mul_rev(b, c, x) and mul_rev(b, c) return the hull of that set intersected with x (or of all of it), losing no solution and adding at most one outward rounding per bound; the decorated pair carries the division decoration in the first part when zero is not in b and trv otherwise.",
 ["inputs"], "all triples of valid intervals, same-type and mixed-type, bare and decorated",
 "Zero-, sign- and infinity-combinations of two intervals plus the clipping by x give hundreds of configurations; the tests fix literal results for some of them.",
 [FL+"_mul_rev_to_pair_func_impl.hpp", FL+"_rev_func_impl.hpp", "p1788/infsup/base_interval_mul_rev_to_pair_func_impl.hpp"],
 [("extended division by sign cases with rounding indicators", FL+"_mul_rev_to_pair_func_impl.hpp"),
  ("reuse of the pair for the clipped reverse multiplication", FL+"_rev_func_impl.hpp: mul_rev")],
 ["returned bounds and decorations"])

prop("P13", "Cancellation inverts interval addition and subtraction",
 "cancel_minus(a, b) returns the tightest interval z with b + z containing a (cancel_plus(a, b) the same for -b) whenever a and b are bounded and a is at least as wide as b in exact arithmetic, in particular recovering z up to outward rounding from a = b + z; it returns empty if a is empty and b is bounded, and the entire line in every other case. The width comparison is exact even where both widths round to the same number, and decorated results carry trv (NaI for NaI operands).",
 ["inputs"], "all pairs of valid intervals (especially with nearly equal widths), same-type and mixed-type, bare and decorated",
 "The decisive comparison of widths differs from the rounded one only for operands with widely different exponents; random or hand-picked values do not reach it.",
 [FL+"_cancel_func_impl.hpp", "p1788/infsup/base_interval_cancel_func_impl.hpp", "p1788/util/mpfr_util.hpp"],
 [("error-free transformation for the width comparison", FL+"_cancel_func_impl.hpp; p1788/util/mpfr_util.hpp: two_sum")],
 ["returned bounds and decorations"])

prop("P14", "Construction and conversion preserve the denoted set or reject the input",
 "An interval built from two numbers of any supported types denotes exactly the tightest hull of the real interval between them; bounds that do not denote an interval (reversed, NaN, both at the same infinity) or a decoration that is impossible for them give the empty interval or NaI and raise the undefined-operation flag, and nothing else does. Converting between bound types rounds outward, copies are exact, decorating an interval gives com/dac/trv for bounded/unbounded/empty, dropping the decoration keeps the set (and reports NaI), and a com decoration becomes dac when the conversion overflows. The public conversion utilities round one number down, to nearest and up exactly as named, and hull a representation outward.",
 ["inputs", "configurations"], "all numbers (including NaN, infinities, values unrepresentable in the target type) as bounds in all type combinations, all decorations, all conversions between bare, decorated and differently typed intervals",
 "The tests use a few constants; conversions between formats are only wrong for values that fall between two target numbers, or straddle the overflow or subnormal threshold.",
 [FL+"_class_impl.hpp", FL+"_util_func_impl.hpp", "p1788/infsup/interval.hpp", "p1788/infsup/decorated_interval.hpp"],
 [("outward directed conversion", FL+"_util_func_impl.hpp: convert_rndd, convert_rndu, convert_hull"),
  ("validity checks in constructors", FL+"_class_impl.hpp: nums_to_interval, set_dec, new_dec")],
 ["bounds, decoration, exception state of constructed intervals"])

prop("P15", "Exception flags are exact and sticky, and traps raise the right exception",
 "A signalled condition (undefined operation, possibly undefined operation, interval part of NaI, invalid operand) sets exactly its own flag, keeps flags that are already set, and leaves a flag set until it is cleared; an operation that signals nothing leaves the state unchanged. If trapping is enabled for a condition the matching exception type is thrown at the signalling operation with the flag already set, and a condition whose trap is not enabled never throws.",
 ["histories", "inputs"], "all sequences of operations, clears and trap-mask changes, all 16 masks",
 "The unit tests toggle single bits once; stickiness and exactness are statements about whole histories mixing operations, masks and clears.",
 ["p1788/exception/exception.hpp", FL+"_class_impl.hpp", FL+"_validation_func_impl.hpp"],
 [("bit-set state and control word", "p1788/exception/exception.hpp: state, cwd, signal_*")],
 ["p1788::exception state, control word and thrown exceptions"],
 [("exception state", "sticky condition flags", "p1788/exception/exception.hpp"), ("cwd", "enabled traps", "p1788/exception/exception.hpp")])

prop("P16", "Threads are isolated: no data race, no cross-thread flags or results",
 "Interval operations running concurrently in several threads (on separate objects or on shared read-only intervals) are free of data races and each returns exactly what it returns when run alone. Exception flags and trap masks belong to the thread that set them: no thread observes a flag signalled, cleared or trapped by another.",
 ["schedules"], "all interleavings of any mix of operations, text I/O, trap-mask changes and flag queries over any number of threads",
 "No existing test starts a thread; races and cross-thread leakage are invisible to any sequential run.",
 ["p1788/exception/exception.hpp", "p1788/util/mpfr_var_impl.hpp", FL+"_io_impl.hpp", FL+"_setup_func_impl.hpp"],
 [("documented thread-local state", "p1788/exception/exception.hpp: cwd, state"), ("per-thread MPFR exponent range", "p1788/util/mpfr_var_impl.hpp: setup")],
 ["ThreadSanitizer reports, per-thread result digests and flags"],
 [("exception state and control word", "documented as thread local", "p1788/exception/exception.hpp")])

prop("P17", "Text output always encloses the interval it prints",
 "Whatever stream formatting is selected (inf-sup, uncertain, uncertain-up, uncertain-down; decimal, scientific, automatic, hexadecimal; any width, precision, letter case, punctuation and special-value style) and whatever locale is in effect, writing an interval succeeds and the written text denotes a set that contains the interval, with inf-sup bounds rounded outward to exactly the printed number of digits (no further widening). A decorated interval is written with its own decoration, NaI, empty and entire with their reserved texts, and the minimum widths are honoured.",
 ["inputs", "configurations"], "all intervals of all three bound types times all combinations of output manipulators with widths and precisions from 0 to several hundred",
 "The tests print a few values under a few formats; the product of formats, precisions and magnitudes (and carries such as 9.99 to 10.0) is unbounded.",
 [FL+"_io_impl.hpp", "p1788/util/mpfr_var_impl.hpp", "p1788/io/io_manip.hpp", "p1788/infsup/base_interval_io_impl.hpp"],
 [("directed rounding in the decimal conversion", "p1788/util/mpfr_var_impl.hpp: get_str"), ("ulp radius computation", FL+"_io_impl.hpp: operator_interval_to_text")],
 ["text written to an ostream"])

prop("P18", "Text input yields the tightest enclosure of the literal or a clean rejection",
 "Reading a valid interval literal (inf-sup with decimal, hexadecimal or rational numbers, one- or two-number form, empty/entire/nai names, uncertain form with radius, direction and exponent, optional decoration, any case and inner white space) yields the tightest interval enclosing the exact value of the literal with the stated or default decoration. Any other string is rejected: the constructor yields the empty interval or NaI and raises the undefined-operation flag, the stream operator sets failbit, no other exception escapes, and the outcome for a bare and a decorated interval agree up to the decoration.",
 ["inputs"], "all strings, in particular all sentences of the literal grammar with numbers of any length and exponents of any size, and mutations of them",
 "The grammar is infinite and its numbers unbounded; the tests list literals one by one and sample neither exponent extremes nor arbitrary malformed strings.",
 [FL+"_io_impl.hpp", FL+"_class_impl.hpp", "p1788/util/io.hpp"],
 [("regular-expression recogniser and exact rational evaluation", FL+"_io_impl.hpp: operator_text_to_interval")],
 ["interval(std::string), decorated_interval(std::string), operator>>"])

prop("P19", "Stream state and value I/O round-trip",
 "An interval written in inf-sup form and read back yields an interval that contains the original, and exactly the original when enough digits or the hexadecimal form are used; decorations written in alphabetic or numeric form read back to the same value, and overlap states are written as the name or number of their state, both independent of the stream's standard settings (number base, field width, flags) and locale. A manipulator affects only the stream and the aspect it names and stays in effect until changed, input consumes exactly the text of the value (leaving what follows readable), and a failed read sets failbit and leaves the target unchanged.",
 ["inputs", "histories"], "all values, all manipulator histories on several streams, all positions of a value within a longer stream",
 "Round-trip and frame conditions quantify over all values and histories of manipulators; tests write and read single constants.",
 [FL+"_io_impl.hpp", "p1788/io/io_manip.hpp", "p1788/decoration/decoration.hpp", "p1788/overlapping/overlapping.hpp"],
 [("per-stream format words", "p1788/io/io_manip.hpp"), ("look-ahead handling in extraction", FL+"_io_impl.hpp; p1788/decoration/decoration.hpp; p1788/overlapping/overlapping.hpp")],
 ["stream contents, positions and states"])

prop("P20", "Reductions are correctly rounded and order independent",
 "sum, sum_abs, sum_sqr and dot return the exact real value of the reduction rounded once in the requested direction, whatever the order, length, cancellation or magnitude of the terms, including terms and intermediate products outside the range of the number format; the result overflows or underflows only if the exact value does. NaN and infinite terms give the IEEE 754 result (NaN, or the infinity, NaN for conflicting infinities or zero times infinity), and an exact zero is -0 only for downward rounding.",
 ["inputs"], "all finite sequences of numbers of each type and all four rounding modes",
 "Correct rounding under catastrophic cancellation and extreme exponents is a statement over all sequences; the tests use a few short vectors.",
 ["p1788/reduction/reduction.hpp"],
 [("exact products and correctly rounded MPFR summation", "p1788/reduction/reduction.hpp: reduction_sum_op")],
 ["returned numbers"])

prop("P21", "No memory error, leak or undefined behaviour on any input",
 "No operation of the library (constructors, all interval operations, numeric functions, reductions, text input and output) reads or writes out of bounds, uses freed or uninitialised memory, leaks memory, or executes undefined behaviour such as signed overflow, for any operands, strings, formats, integer exponents or sequence lengths, whether it returns normally or throws.",
 ["inputs", "histories"], "all calls of the public API, including extreme integers, extreme format widths and precisions, very long or empty sequences and strings, and calls ended by an enabled trap",
 "The test suite runs without sanitizers and on benign inputs; a heap overflow of a few bytes or a leak per call passes every assertion.",
 ["p1788/util/mpfr_var.hpp", "p1788/util/mpfr_var_impl.hpp", FL+"_io_impl.hpp", "p1788/reduction/reduction.hpp", FL+"_rev_func_impl.hpp"],
 [("RAII wrapper for MPFR variables", "p1788/util/mpfr_var.hpp"), ("buffer sizing for number output", "p1788/util/mpfr_var_impl.hpp: get_str"), ("RAII holder for reduction terms", "p1788/reduction/reduction.hpp")],
 ["AddressSanitizer, LeakSanitizer and UBSan reports"])

prop("P22", "Results do not depend on earlier calls or on ambient numeric state",
 "Each operation is a function of its operands: its result bits, decoration and signalled flags are the same whatever operations on whatever bound types ran before it in the thread, and whatever MPFR exponent range, default precision, default rounding mode and flags, processor rounding mode, C locale (decimal point) and C++ global locale are in effect when it is called (only the sign of a zero bound may follow the processor's rounding mode). Operands and the processor's rounding mode are never modified.",
 ["histories"], "all sequences of operations mixing bound types and operation kinds, and all ambient MPFR, floating-point and locale settings",
 "Every test calls operations from a fixed, mostly single-type history; an operation that forgets to establish its exponent range still passes when the previous call happened to set the same range.",
 ["p1788/util/mpfr_var_impl.hpp", FL+"_elem_func_impl.hpp", FL+"_num_func_impl.hpp", FL+"_util_func_impl.hpp", "p1788/util/mpfr_util.hpp", "p1788/reduction/reduction.hpp"],
 [("mpfr_var::setup() at the start of each computation", "p1788/util/mpfr_var_impl.hpp: setup")],
 ["bitwise results under perturbed histories"],
 [("MPFR emin/emax", "thread-global exponent range used by every operation", "p1788/util/mpfr_var_impl.hpp")])

prop("P23", "Operations are inclusion isotonic",
 "If every input interval is enlarged to a superset, the result of every forward, reverse and set operation (not cancellation, which is not isotonic) is a superset of the original result, and the decoration cannot improve; in particular splitting an input and taking the hull of the partial results never yields more than the result for the whole input. This holds across case boundaries (zero crossing, domain edges, extrema, period boundaries, becoming unbounded); for the reverse trigonometric functions it holds up to the few units in the last place by which their bounds may be off.",
 ["inputs"], "all chains x subset x' of valid input intervals for all operations, same- and mixed-type",
 "It relates results of different inputs to each other; no test compares two calls, and case boundaries are where independent literals miss contradictions.",
 [FL+"_elem_func_impl.hpp", FL+"_rev_func_impl.hpp", FL+"_mul_rev_to_pair_func_impl.hpp", FL+"_set_op_impl.hpp"],
 [("case analysis consistent across neighbouring cases", FL+"_elem_func_impl.hpp; "+FL+"_rev_func_impl.hpp")],
 ["pairs of results for nested inputs"])

prop("P24", "The library is usable from several files and in every phase of a program",
 "A program may include the library in any number of its source files: it links, and the files share one library state, so that a format manipulator applied to a stream in one file governs output performed in another, a flag or trap set in one file is seen in another, and every operation gives the same result wherever it is called from, also when the file belongs to a shared library, during static initialisation, in threads, in destructors of thread-local and static objects and in exit handlers. Results do not depend on the optimisation level, the language standard or the compiler the files were built with.",
 ["configurations"], "all partitions of a program using the library into translation units of the program and of shared libraries; all phases of the life of the program; any optimisation level, language standard and compiler that accepts the library",
 "Each existing test is a single translation unit, so duplicate symbols, per-unit copies of library state, state that is used before its initialisation or after its destruction, and unspecified orders of evaluation cannot show.",
 ["p1788/decoration/decoration.hpp", "p1788/io/io_manip.hpp", "p1788/exception/exception.hpp", "p1788/p1788.hpp", "p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp"],
 [("inline/template definitions only in headers", "p1788/**/*.hpp"), ("format word identifiers", "p1788/io/io_manip.hpp"), ("function-local static recognisers", "p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp: operator_text_to_interval")],
 ["link result and behaviour of a multi-file program"])

prop("P25", "Error-free sum yields the rounded sum and its exact error",
 "The two-sum utility returns the correctly rounded (to nearest) sum of its two arguments together with a number that is exactly the rounding error, so that the two results always add up to the exact sum of the arguments, as long as the sum does not overflow.",
 ["inputs"], "all pairs of finite numbers of each type whose sum does not overflow",
 "Exactness is a statement over all exponent differences, cancellations and subnormal cases; the tests evaluate a few pairs.",
 ["p1788/util/mpfr_util.hpp"],
 [("branch-free two-sum with rounding to nearest", "p1788/util/mpfr_util.hpp: two_sum")],
 ["returned pair"])

prop("P26", "Whole computations enclose every exact value and lose no solution",
 "When a program is built from forward operations in any order, with shared subexpressions, through any mix of entry points and bound types, and run on a box of intervals, every intermediate result and the final result contain the exact value that the same program has at every point of the box at which it is defined; an empty or NaI input makes everything that depends on it empty or NaI. A decorated result of at least def proves that the program up to there is defined at every point of the box, one of at least dac also that it is continuous on it, and com also that it and everything before it is bounded; a decoration never exceeds those of the results it was computed from. Running the program on a part of the box gives results inside those for the box, with decorations no worse. When constraints on the result are propagated back with the reverse operations, inverse operations, intersection and hull, no point of the box that satisfies the constraints is ever removed.",
 ["inputs", "histories"], "all programs of forward operations over shared variables and constants, all boxes including unbounded and point ones, all points in them and all parts of them, bare and decorated, of one or of mixed bound types; all orders of propagation",
 "The tests call single operations on literal operands; what users rely on is the composition, where one result is the next operand with all its signed zeros, infinite bounds, subnormal widths and decorations.",
 [FL+"_elem_func_impl.hpp", FL+"_rev_func_impl.hpp", FL+"_set_op_impl.hpp", FL+"_mul_rev_to_pair_func_impl.hpp", "p1788/infsup/base_interval_elem_func_impl.hpp"],
 [("enclosure by every operation on the enclosures before it", FL+"_elem_func_impl.hpp"),
  ("minimum of the decorations of the operands and of the operation", FL+"_elem_func_impl.hpp: decorated overloads"),
  ("reverse operations intersected with what is known", FL+"_rev_func_impl.hpp; "+FL+"_mul_rev_to_pair_func_impl.hpp")],
 ["intermediate and final results of chains of interval operations"])

prop("P27", "The cost of every action is bounded, however extreme the operands",
 "An operation on intervals or numbers needs memory and processor time bounded by a small constant, whatever the magnitudes, widths and integer arguments: nothing grows with the exponent, with the value of n in pown or rootn, or with the number of periods in the operand of a periodic function. Writing or reading a literal needs memory at most proportional to the characters written or read, apart from a constant, whatever numbers and exponents they denote: an exponent of any number of digits is decided without building a number of that size. A reduction needs memory and time proportional to the number of terms, independent of their magnitudes and cancellation. The same action repeated does not become more expensive.",
 ["inputs", "histories"], "all operations with all operands, including the largest, smallest and integer limit arguments; all texts with numbers and exponents of any length; all output formats; all sequences of terms",
 "A cost that explodes needs an operand that reaches it, as an exponent of ten digits or the largest finite bound; the tests use small ones, and a test that passes says nothing about what it cost.",
 [FL+"_elem_func_impl.hpp", FL+"_io_impl.hpp", "p1788/util/io.hpp", "p1788/util/mpfr_util.hpp", "p1788/reduction/reduction.hpp"],
 [("decision about exponents before conversion of the number", FL+"_io_impl.hpp: text input"),
  ("precision chosen independently of the operands", FL+"_elem_func_impl.hpp"),
  ("exact products and one correctly rounded sum", "p1788/reduction/reduction.hpp: sum, dot"), ("exponents of any number of digits reduced to an int before use", "p1788/util/io.hpp: exponent_to_int")],
 ["heap allocated during a call, number of allocations, processor time of the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P), "properties")
