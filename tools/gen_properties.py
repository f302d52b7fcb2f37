#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os, re
H = "include/dsga.hxx"
P = []
def prop(id, title, statement, over, qtext, why, mech, observe, files=(H,), state=None, hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "A swizzle reads exactly the named components, in the written order",
 "For every vector, view and owning view of length 1 to 4, every swizzle name of one to four letters over its components yields a value whose i-th component is the component named by the i-th letter, whatever the component type, the constness of the object, or the way the swizzle is read (index, iterator, conversion, copy into a vector, operand of an operation). Reading a swizzle never changes the object, and a swizzle read after the object has changed shows the new values.",
 ["inputs", "programs"], "all 4+30+120+340 swizzle names x object kinds (vector, mutable/const view, owning view, const object) x distinguishable component values x ways of reading",
 "Tests read a few dozen of the 494 swizzle names per object kind; a transposed index list in any one of the hand-written names goes unseen.",
 [("union of swizzle members", H+" basic_vector<T,1..4>, basic_view<T,1..4>"), ("index mapping", H+" indexed_vector, indexed_view operator[]/offsets")],
 ["components read through every access path of each swizzle"])

prop("P02", "Writing a swizzle sets exactly the named components and nothing else",
 "Assigning to a (non-bool) swizzle with distinct letters, from any vector-like value of the same length or a scalar, and likewise setting, indexing, iterating over, compound-assigning or incrementing it, stores the i-th source component in the component named by the i-th letter and leaves every other component unchanged. When the source overlaps the destination, the result is as if the whole source had been read before anything was written.",
 ["inputs", "programs", "histories"], "all writable swizzle names x write paths x source kinds, including sources that alias the destination in every permutation",
 "Tests write through some swizzles with constants; aliased sources and untouched neighbours are sampled, not enumerated.",
 [("swizzle assignment and set()", H+" indexed_vector/indexed_view operator=, set"), ("modify machinery", H+" machinery::apply_*_modify")],
 ["all components of the owner after each write"])

prop("P03", "Only what may be written can be written",
 "A swizzle can be assigned or modified through any operation exactly when its letters are pairwise distinct and the object it belongs to is mutable; swizzles with a repeated letter, const objects and views of const data offer no way to modify the data, and programs that try do not compile. Conversely every swizzle with distinct letters of a mutable object accepts indexing, iteration and set, and for component types other than bool also assignment, compound assignment and increments.",
 ["programs", "configurations"], "all swizzle names x object kinds (mutable/const vector, mutable view, const-data view, const view object) x modifying expressions",
 "Tests static_assert a handful of swizzles; the ill-formed programs are not enumerated.",
 [("writable_swizzle", H+" detail::unique_indexes, writable_swizzle"), ("Mutable/Writable requirements", H+" indexed_vector, indexed_view, basic_view members")],
 ["well-formedness of each modifying expression", "types and constness of the references handed out"])

prop("P04", "A view is the external memory it was pointed at, for every history of operations",
 "Through any sequence of constructing, copying, resetting, writing and reading views and their swizzles, interleaved with direct writes to the underlying memory, a view of length N shows and changes exactly the N consecutive elements at the address it was last pointed at, all views of the same memory agree, and no element outside is touched. Copying a view aliases the same memory, while assigning to a view copies values into its memory; re-pointing a view never changes data.",
 ["histories"], "all operation sequences up to a depth over two or three overlapping views and their swizzles on one small buffer, all reachable (buffer, pointers) states",
 "Tests check single operations on one view over an array; overlapping views and re-pointing histories are not explored.",
 [("view storage", H+" view_wrapper, basic_view, indexed_view")],
 ["the whole buffer including guard elements", "components of every live view"],
 state=[("view pointer", "address the view shows", H+" view_wrapper::store")])

prop("P05", "Swap exchanges contents completely, or refuses and changes nothing",
 "Swapping two vectors, matrices or views exchanges all their components and nothing else, swapping an object with itself or a view with another view of the same address changes nothing, and swapping views whose memory partially overlaps is reported with an exception that reaches the caller and leaves all memory unchanged.",
 ["inputs", "histories"], "all lengths, types and member/free swaps x every relative placement of two views in one buffer",
 "Tests swap disjoint views once per length; placements and error propagation through the free function are not enumerated.",
 [("swap", H+" view_wrapper::swap, swap(basic_view&,basic_view&), basic_vector::swap, basic_matrix::swap")],
 ["the buffer after the call", "whether an exception arrived"])

prop("P06", "Vectors, owning views and matrices are independent values under any history",
 "Vectors, owning views and matrices own their data: after any sequence of copies, moves, assignments (including self-assignment, assignment from their own swizzles and converting assignment), sets, swaps and element writes, each object holds exactly what a plain array given the same sequence would hold, and changing one object never changes another.",
 ["histories"], "all operation sequences up to a depth over two or three objects, values in a small domain, all reachable states",
 "Tests exercise single assignments; chains of aliasing assignments across objects are not explored.",
 [("assignment operators", H+" basic_vector, view_vector, basic_matrix operator=, set")],
 ["components of every object after every step"])

prop("P07", "Iterators obey the random-access laws and visit components in logical order",
 "For vectors, swizzles, views, view swizzles, owning views and matrices, forward, const and reverse iterators visit exactly the components in logical order, all random-access identities hold for every pair of positions from begin to end inclusive, and writes through mutable iterators land in the component visited. Standard algorithms applied to these ranges give the same results as on a plain array of the components.",
 ["inputs", "programs"], "all object kinds and swizzle shapes x all pairs of iterator positions x all iterator operations and a set of standard algorithms",
 "Tests loop over a few swizzles; moves to the end position, differences and reverse iterators of every kind are not covered.",
 [("swizzle iterators", H+" indexed_vector_iterator, indexed_view_iterator and const versions"), ("begin/end", H+" begin()/rbegin() families")],
 ["values, positions and comparisons of iterators"])

prop("P08", "Arithmetic and bitwise operators are component-wise with promotion, broadcasting",
 "For operands of any vector-like kind and length and any permitted pair of component types, each of + - * / % << >> & | ^ and unary + - ~ gives a new vector whose i-th component is the C++ scalar result of that operator on the i-th components converted to their common type (shifts keep the type of the left operand), a scalar or length-1 operand being used for every component. Operations whose operands all have length 1 give a scalar, operands are never modified, and combinations of types or lengths the rules do not permit do not compile.",
 ["inputs", "programs"], "operators x operand kinds x lengths x type pairs x values from a boundary alphabet (all tuples)",
 "Tests use one or two constant vectors per operator and mostly matching types.",
 [("operators", H+" binary/unary operators on vector_base"), ("machinery", H+" machinery::apply_make, apply_unitype_make, apply_multitype_make")],
 ["component values and type of the result", "operands afterwards"])

prop("P09", "Compound assignment and increments equal assigning the binary result",
 "For every writable vector-like object, x op= y leaves in x what x = x op y would (converted to x's component type) for every component, for y any permitted vector, scalar or length-1 value including parts of x itself, and returns x; ++ and -- add or subtract one from every component, the prefix forms returning the object and the postfix forms the previous values. No other component of the underlying object changes.",
 ["inputs", "programs", "histories"], "compound operators x writable kinds x right operand kinds including every aliasing swizzle x boundary values",
 "Tests apply each operator once to disjoint operands.",
 [("compound operators", H+" operator +=, -=, *=, /=, %=, <<=, >>=, &=, |=, ^=, ++, --")],
 ["all components of the owner", "identity of the returned reference"])

prop("P10", "Constructors lay out their arguments in order and convert each component",
 "Constructing a vector or owning view from any sequence of scalars, vectors, swizzles, views and matrices fills the components with the arguments' components in order, converted to the component type, surplus components of the last argument being ignored; one scalar fills every component, and an exact-length vector-like value is copied. Argument lists that are too short, that leave a whole argument unused, or whose types are not convertible do not compile.",
 ["inputs", "programs"], "all argument shapes (sequences of scalar/length-1..4 pieces/matrices) x lengths x component types x argument kinds",
 "Tests construct several dozen combinations out of hundreds of argument shapes.",
 [("variadic constructors", H+" basic_vector/view_vector constructors, detail::flatten_args_to_tuple, component_count, component_match")],
 ["components after construction", "constructibility traits"])

prop("P11", "shift, cshift, apply, query, min, max and sum match the plain-array meaning",
 "For every vector-like object and every int amount, shift moves components left for positive and right for negative amounts filling with zero, cshift rotates by the amount modulo the length, apply and query give f of each component in order, and min, max and sum fold all components. None of them modifies the object or depends on its kind.",
 ["inputs"], "all kinds and lengths x all shift amounts around the boundaries and the int extremes x all small component tuples",
 "Tests use a few amounts; the extremes of the amount and every kind of object are not covered.",
 [("valarray-like members", H+" vector_base::apply, query, shift, cshift, min, max, sum")],
 ["returned vectors and scalars", "object afterwards"])

prop("P12", "Comparisons are exact per component; any, all, none, == combine them correctly",
 "lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual give, per component, the mathematical comparison of the two values of the given type (any comparison with NaN being false except notEqual), for every component type including all 64-bit integers. any, all, none, compNot, compAnd and compOr compute the boolean combination of all components, and == between vectors or matrices is true exactly when every pair of components compares equal after the C++ conversion to the common type, so never when one is NaN.",
 ["inputs"], "comparison functions x component types x boundary-value pairs (all pairs) and all boolean vectors of length 1 to 4 x operand kinds",
 "Tests compare small constants; large 64-bit values, NaN positions and every operand kind are not enumerated.",
 [("relational functions", H+" lessThan ... compOr, none"), ("operator ==", H+" operator == on vector_base and basic_matrix")],
 ["boolean results"])

prop("P13", "Rounding functions give the exact mathematical rounding for every input",
 "For every finite float and double x, trunc, floor, ceil, round (halves away from zero), roundEven (halves to even) return exactly that rounding of x, and fract returns x minus its floor; infinities and NaN are returned by the rounding functions as they are. This holds for scalars and for every component of vectors, at run time and in the algorithm used at compile time.",
 ["inputs"], "all 2^32 floats (thorough) and a structured lattice of doubles, both algorithms, scalar and vector forms",
 "Tests round a dozen constants; the failing inputs are isolated bit patterns such as the largest value below one half.",
 [("rounding", H+" cxcm relaxed::/strict:: trunc, floor, ceil, round, fract, round_even"), ("vector forms", H+" functions::trunc ... fract")],
 ["returned value"])

prop("P14", "Results at compile time equal results at run time",
 "Every function and operator that can be used in a constant expression gives the same numerical result there as at run time for the same arguments, including the functions that use a different algorithm at compile time (trunc, floor, ceil, round, fmod, sqrt and everything built on them).",
 ["inputs", "programs"], "all floats and a double lattice for the functions with two algorithms, a large argument grid for fmod, and a catalogue of constant expressions covering the rest of the interface",
 "Tests evaluate some constexpr examples whose results are never compared with run-time evaluation over the input space.",
 [("is_constant_evaluated branches", H+" cxcm::strict trunc, floor, ceil, round, fmod, sqrt")],
 ["result at compile time vs run time"])

prop("P15", "sqrt is correctly rounded; inversesqrt is accurate and handles special values",
 "For every non-negative float and double, sqrt returns the correctly rounded square root, at run time and by the compile-time algorithm; inversesqrt (for every positive value) and fast_inversesqrt (for every positive normal value) return 1/sqrt(x) to within a few units in the last place, infinity for zero, zero for infinity and NaN for negative or NaN arguments.",
 ["inputs"], "all non-negative floats (thorough), a lattice of doubles, both algorithms, scalar and vector forms",
 "Tests check a handful of values against constants.",
 [("sqrt/rsqrt", H+" cxcm converging_sqrt, inverse_sqrt, fast_rsqrt; strict wrappers"), ("vector forms", H+" sqrt, inversesqrt, fast_inversesqrt")],
 ["returned value compared with exact integer/extended arithmetic"])

prop("P16", "Classification, sign and absolute value are right for every bit pattern",
 "For every float and double bit pattern isnan and isinf (and the compile-time classification helpers behind them: finite, normal, zero, subnormal, sign bit, copysign) report the IEEE class, abs returns the magnitude and sign returns -1, 0 or 1 by comparison with zero; for integers abs and sign are exact for every value whose magnitude is representable. The vector forms do the same for every component of every operand kind.",
 ["inputs"], "all 2^32 float patterns, lattice of doubles plus all class boundaries, integer boundaries, operand kinds",
 "Tests check a few specials; negative infinity, subnormals and payload NaNs are not enumerated.",
 [("classification", H+" cxcm::isnan, isinf, fpclassify, isnormal, isfinite, signbit, copysign, abs"), ("vector forms", H+" isnan, isinf, abs, sign")],
 ["returned class/value"])

prop("P17", "mod, modf, frexp and ldexp decompose and recompose values correctly",
 "mod(x,y) is x - y*floor(x/y) in the working precision, modf splits x into a whole part (x truncated) and a fraction of the same sign whose sum is x, frexp returns a fraction in [1/2,1) and exponent that reconstruct x through ldexp, and the output arguments may be any writable vector-like object including the argument itself. Every component is handled independently and matches the scalar function.",
 ["inputs"], "all pairs from a special-value alphabet, all floats for the one-argument functions (thorough), operand kinds and aliasing outputs",
 "Tests check a few positive values with separate outputs.",
 [("decomposition functions", H+" mod, modf, frexp, ldexp")],
 ["returned values and output arguments"])

prop("P18", "min, max, clamp, mix, step and smoothstep follow their GLSL definitions",
 "For all arguments in their domain, min and max return the smaller or larger component, clamp returns min(max(x,lo),hi), step is 0 below the edge and 1 otherwise, smoothstep is the cubic Hermite value between its edges (0 and 1 outside), mix with a numeric weight is the linear blend (exact at weights 0 and 1) and mix with a boolean weight selects components; scalar arguments apply to every component.",
 ["inputs"], "all tuples from a special-value alphabet x types x lengths x scalar/vector argument forms x operand kinds",
 "Tests use two or three constant argument tuples per function.",
 [("common functions", H+" min, max, clamp, mix, step, smoothstep")],
 ["returned components"])

prop("P19", "Bit reinterpretation and byte swapping are lossless inverses",
 "floatBitsToInt/Uint, intBitsToFloat, uintBitsToFloat and their 64-bit counterparts preserve every bit pattern in both directions, byteswap reverses the byte order of every integer type and is its own inverse, and the vector forms act on each component independently.",
 ["inputs"], "all 2^32 bit patterns for 32-bit types, every byte value at every position and bit patterns lattice for 64-bit types",
 "Tests round-trip a few values.",
 [("bit functions", H+" floatBitsToInt ... ulongLongBitsToDouble, byteswap")],
 ["bit patterns"])

prop("P20", "Angle, trigonometric and exponential functions compute their named function",
 "radians, degrees, sin, cos, tan, asin, acos, atan (one and two arguments), the hyperbolic functions and their inverses, pow, exp, log, exp2 and log2 return, for every component, the value of the named mathematical function to within a few units in the last place, with the argument order of GLSL, an infinity of the right sign at a pole, and NaN where the function has no real value or an argument is NaN (pow only within its precondition of a positive base, or base zero with a positive exponent); fma is a*b+c with one rounding.",
 ["inputs"], "a dense grid of floats and doubles over each function's domain, pairs for the two-argument functions, scalar and all operand kinds",
 "Tests evaluate each function at one or two points.",
 [("wrappers", H+" functions 8.1 and 8.2, fma")],
 ["returned components against an extended-precision reference"])

prop("P21", "Geometric functions compute their GLSL formulas for all operand kinds",
 "dot, innerProduct, cross, length, distance, normalize, faceforward, reflect and refract give the values of their defining formulas for every vector length they accept, for any mix of operand kinds and permitted component types; on small integer inputs dot, innerProduct, cross, faceforward and reflect are exact. normalize of a non-zero vector (whose squared length neither overflows nor underflows) has length one and the same direction, the cross product is orthogonal to both operands, and refract returns zero under total reflection.",
 ["inputs"], "all pairs of small-integer vectors of length 1 to 4 (3 for cross), operand kinds, types; unit-vector grids for refract",
 "Tests evaluate each function on one or two vectors.",
 [("geometric functions", H+" innerProduct, dot, cross, length, distance, normalize, faceforward, reflect, refract")],
 ["returned values"])

prop("P22", "Matrix construction, resizing and element access share one column-major layout",
 "A matrix built from scalars, vectors, swizzles, views, matrices or a pointer stores the components in column-major order; columns, rows, element indexing, iteration, raw data access and element writes all refer to that one layout. A matrix built from another matrix keeps the common part and extends it like the identity when it is square and with zeros otherwise, one scalar gives that multiple of the identity (square matrices), and conversions and copies preserve every element.",
 ["inputs", "programs"], "all 9 shapes x argument shapes (sequences of pieces) x all 81 source/target shapes x float/double",
 "Tests construct a few shapes; most of the 81 conversions and the argument shapes are not covered.",
 [("basic_matrix", H+" basic_matrix constructors, operator[], row(), data(), iterators")],
 ["every element through every access path"])

prop("P23", "Matrix operators are component-wise, and products are linear-algebra products",
 "Matrix addition, subtraction, division, negation, increments, scalar operations and matrixCompMult act on every element; matrix*matrix, matrix*vector and vector*matrix are the linear-algebra products for every compatible shape and every vector kind; no operand is changed. On small integers all results are exact, products associate, distribute and respect transposition.",
 ["inputs", "programs"], "all 9 shapes (all 27 compatible products) x small-integer entries (exhaustive alphabets and basis pairs) x float/double x vector kinds",
 "Tests multiply one pair per shape; a wrong index in one shape's product or operator is caught only for the sampled values.",
 [("matrix operators", H+" basic_matrix operators + - * / ++ --, matrixCompMult")],
 ["every element of the result"])

prop("P24", "transpose, determinant and inverse agree with the exact algebra",
 "For every matrix shape transpose exchanges rows and columns and is an involution; determinant of every 2x2, 3x3 and 4x4 matrix equals the Leibniz sum (exactly for small integers), so it is multiplicative and changes sign on exchanging columns; inverse of every invertible matrix times the matrix is the identity to working precision, and equals the exact adjugate over determinant.",
 ["inputs"], "all 2x2 and 3x3 matrices over a small integer alphabet, all 4x4 over {0,1} plus signed permutation and graded families, float and double",
 "Tests invert one matrix per size; a wrong cofactor sign can vanish on sparse or symmetric examples.",
 [("matrix functions", H+" transpose, determinant, inverse")],
 ["every element against exact rational arithmetic"])

prop("P25", "outerProduct, cross_matrix and diagonal_matrix build the defined matrices",
 "outerProduct(c,r) has as many columns as r and rows as c with element (column j,row i) = c_i*r_j, cross_matrix(u) satisfies cross(u,v) = cross_matrix(u)*v = u*cross_matrix(v) for all v, and diagonal_matrix(v) has v on the diagonal and zero elsewhere, for vectors of every kind and permitted type.",
 ["inputs"], "all vector length pairs x small-integer components x operand kinds x float/double",
 "Tests build one or two of each.",
 [("matrix builders", H+" outerProduct, cross_matrix, diagonal_matrix")],
 ["every element"])

prop("P26", "Conversions to and from arrays and tuples round-trip every component",
 "Converting vectors, swizzles, views and matrices to arrays, from C and std arrays, and between vectors and matrices preserves every component in order, and get, structured bindings and tuple traits name exactly the component (or matrix column) with that index, by reference where the object is an lvalue.",
 ["inputs", "programs"], "all object kinds, lengths, shapes and indices x distinguishable values",
 "Tests convert one object per kind.",
 [("conversions", H+" to_array, to_vector, to_matrix"), ("tuple protocol", H+" get<>, std::tuple_size, std::tuple_element")],
 ["components and addresses"])

prop("P27", "Invalid indexes and null pointers are rejected, never dereferenced out of bounds",
 "With run-time checking enabled, indexing a vector, swizzle, view or matrix outside its range, dereferencing or moving an iterator of a swizzle outside its range, using the components of a view of the null pointer, building a matrix from a null pointer, or asking the run-time swizzle for an index outside the vector is rejected by assertion or exception; every valid index is accepted and run-time swizzles return the indexed components in order. With checking disabled the run-time swizzle and the pointer constructor still report the error as an exception.",
 ["inputs", "configurations"], "all index values around the valid range and the integer extremes x index types x object kinds x 1 to 4 index arguments, checks enabled and disabled",
 "Tests exercise valid indices and one or two invalid ones; out-of-range accesses are silent when they happen to hit mapped memory.",
 [("bounds checks", H+" dsga_constexpr_assert in operator[], swizzle(), view_wrapper, basic_matrix")],
 ["outcome of the call (value, assertion, exception)", "address sanitizer"])

prop("P28", "Vectors and matrices have the memory layout of plain arrays",
 "A vector of N components, all its swizzle members included, occupies exactly N consecutive elements with component i at position i, a matrix is its columns one after another with no padding, both stay trivially copyable and standard-layout, the named types (ivec3, cdview2, dmat2x4, ...) denote the vector, view or matrix of the named component type, constness and shape, and the data pointer and index sequence of every vector-like object together describe its logical order: component i is found at the i-th index of the sequence in the data.",
 ["programs", "configurations"], "all component types x lengths x shapes x all swizzle names x all named types x every component holding every boundary value",
 "Tests check size and a few members.",
 [("layout", H+" basic_vector anonymous union, storage_wrapper, basic_matrix columns, data(), sequence()")],
 ["sizes, offsets, bytes, data()/sequence()"])

prop("P29", "Results do not depend on what kind of vector the operands are",
 "Every operator and function gives the same result for the same component values whether an operand is a vector, a swizzle, a view, a swizzle of a view, an owning view, or const versions of these, and for length 1 the same as the scalar overload; no operation changes an operand it does not name as output.",
 ["inputs", "programs"], "all functions x all tuples of operand kinds x component values that distinguish positions",
 "Tests call nearly all functions with plain vectors only.",
 [("overloads per kind", H+" functions:: overloads for basic_vector, basic_view, indexed_*, vector_base")],
 ["result per kind tuple"])

prop("P30", "A scalar-like conversion of length-1 vectors behaves as the component itself",
 "A length-1 vector, swizzle or view converts implicitly to its component, compares, assigns and combines with scalars as that component would, and expressions made of length-1 operands and scalars only have scalar results with the usual arithmetic value; explicit conversion of any vector-like value to bool, integer or floating types follows the C++ conversion of its component.",
 ["inputs", "programs"], "all length-1 kinds x component types x scalar types x operators x boundary values",
 "Tests use a few length-1 expressions.",
 [("conversion operator", H+" explicit(false) operator T, operator == with scalars, apply_make C == 1 branches")],
 ["values and types"])

X = "examples/"
prop("P31", "Vector and matrix ordering is a lexicographic order consistent with equality",
 "The example three-way comparison orders vectors by their first differing component (priority x, y, z, w), or by the sign of the weighted sum of the component-wise orderings when weights are given, and matrices by their first differing column, for all component types, mixed types (integers by mathematical value, otherwise in the common type) and the whole value range; it is antisymmetric, agrees with < > <= >=, is equivalent exactly when the values are equal, and is unordered exactly when a component compared is NaN.",
 ["inputs"], "all pairs of vectors over a boundary alphabet, lengths 1 to 4, type pairs, kinds, weights, matrix shapes",
 "No test covers the example headers.",
 [("weighted_compare, <=>", X+"compare.hxx")], ["ordering result"], files=(X+"compare.hxx",))
prop("P32", "A slice is exactly the requested sub-range, or is refused",
 "slice of a vector, view or owning view at an offset gives a view of exactly the requested consecutive components, aliasing the original and read-only when the original is, and every offset for which the sub-range would leave the object is refused by assertion or exception.",
 ["inputs"], "all sizes x lengths x offsets including the extremes of the offset type x object kinds",
 "No test covers the example headers.",
 [("slice", X+"slice.hxx")], ["aliasing of the slice", "outcome"], files=(X+"slice.hxx",))
prop("P33", "Hash, format, tolerance and span helpers agree with component-wise meaning",
 "Objects that compare equal hash equally whatever their kind; streamed and formatted text lists the components in logical order; tolerance, distance and box checks (signed and floating types) are true exactly when the component differences satisfy them, boundary included, and refuse negative tolerances; copies between vectors and spans or valarrays transfer the common prefix only.",
 ["inputs"], "all small-integer vectors and tolerances, all kinds and lengths, all source/destination sizes",
 "No test covers the example headers.",
 [("helpers", X+"hash.hxx, tolerance.hxx, ostream_output.hxx, format_output.hxx, span_convert.hxx, valarray_convert.hxx")],
 ["returned values and text"], files=(X+"hash.hxx", X+"tolerance.hxx", X+"ostream_output.hxx", X+"format_output.hxx", X+"span_convert.hxx", X+"valarray_convert.hxx"))

prop("P34", "The geometry examples compute the quantity they are named after",
 "The example Bezier evaluators equal the Bernstein form of their control points at every parameter, the angle between two non-zero vectors is the angle, and the centres, radii, projections and distances of the basic examples satisfy their geometric definitions, for operands of every kind and without changing them.",
 ["inputs"], "all tuples of points of small grids, lengths 1 to 4, mixes of kinds",
 "No test covers the example headers.",
 [("evaluators and geometry", X+"basic.hxx, bezier.hxx, angle.hxx")], ["returned points, lengths and angles"], files=(X+"basic.hxx", X+"bezier.hxx", X+"angle.hxx"))

prop("P41", "The STL converter converts exactly the good facets, or refuses",
 "The example STL converter accepts a file exactly when its length is that of a binary STL with the number of facets it states; it then writes, in order, every facet whose coordinates are finite and which has a computable normal, with its vertices and the right-handed unit normal of them in enough digits to read back the same floats, and nothing else. Any other source, a wrong number of arguments, a refused overwrite, a destination that is the source or that cannot be written, or a file without a good facet ends with a failing exit code, and except for the named destination of an accepted conversion no file changes; success is reported only when the whole output has been written.",
 ["inputs", "histories", "fault_sequences"], "all facet sequences up to a length, all file lengths and stated counts, all directory states x arguments x answers, write failures at every offset",
 "No test runs the converter; truncated and padded files, aliases of the source and full disks are exactly what is not tried by hand.",
 [("converter", X+"stl.cxx stl_main, maybe_binary_stl, convert_binary_stl_to_ascii, read_binary_facet_write_ascii_facet, right_handed_normal")], ["exit code, files before and after"], files=(X+"stl.cxx",))

prop("P35", "Index sequences, type concepts and metadata say what they are named for",
 "make_index_range and make_closed_index_range give the indexes from start to end in the right direction, make_sequence_array, make_array_sequence (also from vectors) and make_reverse_sequence keep or reverse the order; indexable and writable_swizzle hold exactly for indexes in range and, for the latter, pairwise distinct; the scalar and conversion concepts hold exactly for the documented types; every published type alias (vec3, dmat4x3, cview2 ...) names the type its name spells; and the lengths, sizes, writability, element types and offsets every vector, view, swizzle, storage and matrix reports are its actual ones.",
 ["programs", "configurations"], "all ranges and index words up to a bound, all scalar types, all objects and swizzles",
 "Tests static_assert a few instances; a wrong direction, end point or trait of an untested combination compiles quietly.",
 [("index sequences", H+" detail::index_range, closed_index_range, indexable_to_sequence, make_sequence_array, make_reverse_sequence"), ("concepts", H+" scalar concepts, promotes_to, implicitly_convertible_to, indexable, writable_swizzle")],
 ["element lists, truth of concepts, reported metadata"])

prop("P36", "storage_wrapper and view_wrapper behave as the array or memory they wrap",
 "A storage_wrapper holds its own elements and a view_wrapper shows the memory it was pointed at: every way of reading (index, pointer, iterators in both directions, get) shows element i at position i, every way of writing, set included, changes exactly the elements written, copies of storage are independent and copies of views alias, swap exchanges all elements or, for partially overlapping views, throws and changes nothing, and == is true exactly when all elements are equal in their common type.",
 ["inputs", "histories"], "all words over boundary alphabets x access paths x pairs of placements, for every type and length",
 "Tests hold one or two wrappers with constants; pairs of types, overlapping placements and const wrappers are not enumerated.",
 [("storage", H+" storage_wrapper"), ("view", H+" view_wrapper"), ("comparison", H+" operator ==(storage_wrapper), operator ==(view_wrapper)")],
 ["the elements and the memory around them"])

prop("P37", "Functions and operators accept exactly the documented operands",
 "Every operator, compound assignment, vector function, scalar function and matrix function accepts exactly the component types, type pairs and lengths its documented signature allows, gives the documented result type and is noexcept; anything else (a bool where a number is meant, integers for floating-point functions, unrelated types, unequal lengths or shapes, temporaries and const objects as results) is refused by the compiler instead of being converted silently.",
 ["programs"], "all operators and functions x all tuples of component types x all lengths and shapes",
 "A test that compiles cannot show that something does not; a loosened or tightened constraint passes every existing test.",
 [("constraints", H+" requires clauses of the free operators and functions"), ("documented signatures", "docs/API.md Vector Operators, Vector Free Functions, Matrix Operators, Matrix Free Functions")],
 ["well-formedness, result type and noexcept of each call"], files=(H, "docs/API.md"))

prop("P38", "The cxcm mathematics layer agrees with <cmath>",
 "Every function of the cxcm layer called directly (classification, abs, fabs, rounding, fract, fmod, sqrt, rsqrt; strict and relaxed; floating-point and integral overloads; the named constants) gives the value of its <cmath> namesake, or the exact mathematical value, for every argument of its domain (for the relaxed rounding functions: values whose integer part fits the integer type they convert to; relaxed fmod is not claimed), and double-double + - * / and their error-free building blocks give normalised pairs that are exact or within 2^-98 relative, equally at compile time and at run time.",
 ["inputs", "programs"], "every float (thorough) and a structured lattice of doubles; all integers of the narrow types; all pairs of double-double numbers of a grid",
 "The relaxed functions and the double-double arithmetic are reached by the vector functions on few inputs only, and an error of one lost partial product is far below any test tolerance.",
 [("rounding", H+" cxcm::relaxed and cxcm::strict"), ("double-double", H+" cxcm::dd_real operators, two_sum, two_prod, split"), ("constants", H+" cxcm::negative_zero, limits::largest_fractional_value"), ("documentation", "docs/API.md Library cxcm")],
 ["values returned by cxcm functions"], files=(H, "docs/API.md"))

prop("P39", "Threads using disjoint components, or only reading, never interfere",
 "Every operation (assignment, compound assignment, increment, element access, iteration, every function and operator; through vectors, swizzles, views, owning views, matrix columns, rows and elements) reads only the components its operands name, writes only those of its target, and keeps no shared state between calls; so two threads that write disjoint components of one vector, viewed memory or matrix, or that only read it, obtain under every interleaving of their memory accesses what they obtain one after the other.",
 ["schedules"], "all interleavings of the memory accesses of two operations, all pairs of operations on disjoint components within bounds; the access footprint of every call",
 "A write that also stores a neighbouring component back unchanged, or a cached intermediate result, is invisible to every sequential test.",
 [("component writes", H+" set, operator =, apply_binary_modify, apply_unitype_modify, operator [], iterators"), ("component reads", H+" vector_base operator [], swizzles indexed_vector, indexed_view"), ("matrix access", H+" basic_matrix operator [], row, get")],
 ["memory accesses of each operation, final memory and results of each schedule"])

prop("P40", "Every build configuration gives the same results",
 "A valid program means the same in every supported build: with g++ and clang++, at any optimisation level, with run-time assertions enabled or disabled and in C++20 or C++23, every history of operations on vectors, views, owning views and matrices ends in the same state, every function and operator that is exactly defined returns the same bits (up to NaN payloads), refusals by exception are the same, and the same operations, sizes and type traits are available.",
 ["configurations", "histories", "inputs"], "all combinations of compiler, optimisation level, assertions and language standard; all operation sequences and inputs within bounds",
 "The test suite is run in one configuration; an assertion with a side effect, a branch for one compiler only, or undefined behaviour that one optimiser exploits passes there.",
 [("assertion macros", H+" dsga_constexpr_assert, cxcm_constexpr_assert, DSGA_DISABLE_ASSERTS"), ("compiler-specific code", H+" cxcm #if defined(_MSC_VER) || defined(__clang__)"), ("union storage", H+" basic_vector, indexed_vector")],
 ["digest of results and final states in each configuration"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
