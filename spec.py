"""What every check consists of: the explorer programs ("parts") of each property and what they assume.

part(source, defines=(), args=(), flags=()): /verif/mc/<source> compiled against <repo>/include and <repo>/examples.
The part name (source + defines) is what replay files refer to.
"""

class Part:
    def __init__(self, src, defs=(), flags=(), opt="-O1", std="-std=c++20", tiers=("quick", "thorough"), san=False, cxx="g++", kind="run", tag=""):
        self.src, self.defs, self.flags, self.opt, self.std, self.tiers, self.cxx, self.kind = src, tuple(defs), tuple(flags), opt, std, tiers, cxx, kind
        if san:
            self.flags += ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer")
        self.name = src + "".join(" -D" + d for d in self.defs) + (" [san]" if san else "") + ("" if cxx == "g++" else " [" + cxx + "]") + tag
        self.group = self.src + "".join(" -D" + d for d in self.defs) if tag else None     # parts of one group must print the same digests

    def cmd(self, repo, verif, out, cxx=None):
        return [cxx or self.cxx, self.std, self.opt, "-ffp-contract=off", "-w", "-pthread", "-I" + repo + "/include", "-I" + repo + "/examples",
                "-I" + verif + "/mc", *["-D" + d for d in self.defs], *self.flags, verif + "/mc/" + self.src, "-o", out]

CE = "MC_CONTROL_CE"
BASE = ["g++ 13 / x86-64, IEEE-754 float and double, round-to-nearest, -ffp-contract=off",
        "values outside the enumerated alphabets are not covered"]

CHECKS = {
    "P13": dict(
        parts=[Part("rounding.cpp", [CE], opt="-O2")] + [Part("funcs.cpp", ["MC_G=13", "MC_T=%d" % t], opt="-O0", cxx="clang++") for t in (5, 6)],
        technique="exhaustive enumeration of float bit patterns against a bit-level rounding oracle",
        note="every float prefix (quick: 2^28 patterns, thorough: all 2^32) and a lattice of doubles over all exponents, run-time and compile-time "
             "algorithm, scalar and vector form; oracle works on bit patterns only",
        assume=["the compile-time algorithm is reached by taking over std::is_constant_evaluated()"]),
}

CHECKS["P08"] = dict(
    parts=[Part("ops.cpp", ["MC_KINDS=%d" % k], opt="-O0", cxx="clang++") for k in range(8)] + [Part("ops.cpp", ["MC_TYPES=%d" % t], opt="-O1", cxx="clang++") for t in range(8)],
    technique="exhaustive enumeration of operator x operand kinds x lengths x type pairs x boundary value pairs against the C++ scalar operators",
    note="all 10 binary and 3 unary operators, all 64 kind pairs, all 64 type pairs, every length and broadcast shape, every pair of boundary values in every lane; "
         "ill-formed combinations checked by requires-expressions",
    assume=["values limited to a boundary alphabet of up to 15 per type", "undefined scalar operations (overflow, division by zero, bad shift counts) excluded"])

CLANG = dict(opt="-O0", cxx="clang++")

CHECKS["P01"] = dict(
    parts=[Part("swizzle_rw.cpp", ["MC_READ=%d" % k, "MC_TYPE=int"], **CLANG) for k in range(7)]
        + [Part("swizzle_rw.cpp", ["MC_READ=0", "MC_TYPE=bool"], **CLANG), Part("swizzle_rw.cpp", ["MC_READ=1", "MC_TYPE=double"], **CLANG)],
    technique="exhaustive enumeration of all 494 swizzle names x object kinds x ways of reading against an index-list model",
    note="every swizzle name of every length, 7 object kinds, 12 ways of reading, values that distinguish all positions; every other element checked for change",
    assume=["component types int, bool and double; reading is otherwise type-independent template code"])
CHECKS["P02"] = dict(
    parts=[Part("swizzle_rw.cpp", ["MC_WRITE=%d" % k, "MC_TYPE=" + t], **CLANG) for k in range(3) for t in ("int", "double")]
        + [Part("swizzle_rw.cpp", ["MC_ALIAS=%d" % k, "MC_LSTEP=%d" % s], tiers=("quick", "thorough") if s == 2 else ("thorough",), **CLANG) for k in range(3) for s in (2, 3, 4, 5)],
    technique="exhaustive enumeration of writable swizzles x write paths x sources, and of all overlapping swizzle-to-swizzle assignments",
    note="every writable swizzle name, 3 owner kinds, 16 write paths; all assignments between two swizzles of one object of up to 3 letters "
         "(4 letters: quick a quarter, thorough all 24x256)",
    assume=["known finding: assignment between same-named swizzles of two vectors (see known_findings.jsonl)"])
CHECKS["P03"] = dict(
    parts=[Part("writable.cpp", ["MC_OWN=%d" % k, "MC_TYPE=int"], **CLANG) for k in range(8)] + [Part("writable.cpp", ["MC_OWN=%d" % k, "MC_TYPE=double"], **CLANG) for k in (0, 1)]
        + [Part("writable.cpp", ["MC_OWN=%d" % k, "MC_TYPE=" + t], tiers=("thorough",), **CLANG) for k in range(8) for t in ("bool", "float", "unsigned")],
    technique="exhaustive enumeration of swizzle names x owner kinds x constness x modifying expressions, each decided by the compiler against the distinct-letters rule",
    note="494 swizzle names on 8 owner kinds (vector, view, owning view, view of const; each const or not), 35 modifying expressions each, whole objects and matrices likewise",
    assume=["known finding: implicit copy assignment of repeated-letter vector swizzles (see known_findings.jsonl)"])
CHECKS["P04"] = dict(
    parts=[Part("view_history.cpp", ["MC_N=%d" % n], opt="-O1", cxx="clang++") for n in (1, 2, 3, 4)]
        + [Part("view_history.cpp", ["MC_N=%d" % n], opt="-O2", tiers=("thorough",)) for n in (1, 2, 3, 4)]
        + [Part("view_history.cpp", ["MC_N=%d" % n], opt="-O1", cxx="clang++", san=True, tiers=("thorough",)) for n in (2, 3)],
    technique="closed breadth-first search over all states (memory contents x view addresses) with about 100 operations, every transition executed on the real views; "
              "plus all operation sequences of bounded depth on live objects",
    note="two views, a view of const and a held view swizzle over one memory with guards, lengths 1 to 4, every placement from identical to disjoint",
    assume=["memory of 3 to 8 elements, 2 to 4 (thorough 6) distinct values per element", "component type int"])
CHECKS["P05"] = dict(
    parts=[Part("swap.cpp", **CLANG), Part("swap.cpp", opt="-O2", tiers=("thorough",)), Part("swap.cpp", opt="-O1", cxx="clang++", san=True, tiers=("thorough",))],
    technique="exhaustive enumeration of swap forms x object kinds x lengths x types x contents, and of every relative placement of two views, against an array model",
    note="member, unqualified, std and ranges swap; every pair of offsets of two views in 3n+1 elements; the exception must reach the caller and all memory stay as it was",
    assume=["contents: 4 patterns per type, all patterns for bool"])
CHECKS["P06"] = dict(
    parts=[Part("value_history.cpp", ["MC_N=%d" % n], opt="-O1", cxx="clang++") for n in (1, 2, 3, 4)]
        + [Part("value_history.cpp", ["MC_C=%d" % c, "MC_R=%d" % r], opt="-O1", cxx="clang++") for c in (2, 3, 4) for r in (2, 3, 4)]
        + [Part("value_history.cpp", ["MC_N=%d" % n], opt="-O1", cxx="clang++", san=True, tiers=("thorough",)) for n in (2, 3)]
        + [Part("value_history.cpp", ["MC_C=3", "MC_R=2"], opt="-O2", tiers=("thorough",))],
    technique="closed breadth-first search over all contents of two vectors and two owning views (and of two matrices) with 100 to 300 operations, each transition executed on the real "
              "objects; plus all operation sequences of length 3 (thorough 4) on live objects",
    note="copies, moves, constructions, self-assignment, assignment from own and foreign swizzles, converting assignment, containers, swaps, element writes; array model; guards around every object",
    assume=["2 to 4 distinct values per element (thorough more)", "4x4 and larger matrices: bounded sequences only",
            "an assignment between two swizzles of the same type is P02's known finding and not part of the alphabet"])
CHECKS["P09"] = dict(
    parts=[Part("compound.cpp", ["MC_KINDS=%d" % k], **CLANG) for k in range(6)] + [Part("compound.cpp", ["MC_TYPES=%d" % t], **CLANG) for t in range(8)]
        + [Part("compound.cpp", ["MC_ALIAS=%d" % k], tiers=("quick",), **CLANG) for k in range(3)]
        + [Part("compound.cpp", ["MC_ALIAS=%d" % k, "MC_DEEP"], tiers=("thorough",), **CLANG) for k in range(3)],
    technique="exhaustive enumeration of compound operators x writable kinds x right operands, including every aliasing swizzle, against a memory model",
    note="10 compound operators and 4 increments on all 6 writable kinds and lengths, all right kinds, all type pairs, boundary value pairs in every lane; "
         "right operands that alias the left through every swizzle",
    assume=["undefined scalar operations excluded", "values limited to a boundary alphabet"])

CHECKS["P07"] = dict(
    parts=[Part("iterators.cpp", ["MC_K=%d" % k], **CLANG) for k in range(8)] + [Part("iterators.cpp", ["MC_MAT"], **CLANG)]
        + [Part("iterators.cpp", ["MC_REP=%d" % k], **CLANG) for k in range(4)],
    technique="exhaustive enumeration of iterator kinds x objects x positions x steps (and all move sequences to a depth) against an index model",
    note="every iterator kind of every object kind, length and matrix shape, and of the read-only swizzles that repeat a letter (from every kind of owner); all positions, pairs of positions and steps; all sequences of iterator moves up to a depth",
    assume=["component type int; iterators are otherwise type-independent template code"])
CHECKS["P10"] = dict(
    parts=[Part("construct.cpp", ["MC_N=%d" % n, "MC_OWN=%d" % o], **CLANG) for n in (1, 2, 3, 4) for o in (0, 1)]
        + [Part("construct.cpp", ["MC_TYPES=%d" % t], **CLANG) for t in range(8)] + [Part("construct.cpp", ["MC_MIX=%d" % t], **CLANG) for t in range(8)],
    technique="exhaustive enumeration of constructor argument sequences x argument kinds x types against a concatenation model, the ill-formed ones decided by the compiler",
    note="all sequences of up to 4 pieces (scalars and vector-likes of every kind and length), both too many and too few components; all type pairs with boundary values; argument lists mixing component types, through 8 ways of storing them",
    assume=["values limited to a boundary alphabet"])

CHECKS["P11"] = dict(
    parts=[Part("valarray.cpp", ["MC_T=%d" % t], **CLANG) for t in range(8)],
    technique="exhaustive enumeration of objects x component tuples x shift amounts against a plain-array model",
    note="all 8 kinds (const or not), lengths and component types; shift and cshift by every amount from -40 to 40 (thorough -3000 to 3000) and around the int extremes; "
         "stateful functions for apply and query reveal the order and number of calls",
    assume=["6 or 7 values per component", "sums that overflow or depend on the order of rounding excluded"])
CHECKS["P12"] = dict(
    parts=[Part("compare.cpp", ["MC_T=%d" % t], tiers=("quick",), **CLANG) for t in range(8)] + [Part("compare.cpp", ["MC_T=%d" % t, "MC_FULL"], tiers=("thorough",), **CLANG) for t in range(8)]
        + [Part("compare.cpp", ["MC_T=%d" % t, "MC_MIXED"], **CLANG) for t in range(8)],
    technique="exhaustive enumeration of all pairs of boundary values in every lane x operand kinds x types against bit-level ordering",
    note="6 relational functions, 4 boolean functions, any/all/none and ==/!=, for all kinds of operands, all types including both 64-bit ones around 2^53 and the extremes; objects compared with themselves, their swizzles and views of them; matrices of every shape: "
         "every element and every set of differing elements",
    assume=["up to 24 boundary values per type"])


def sweep(n, ts=(5, 6)):
    return [Part("sweep.cpp", [CE, "MC_S=%d" % n, "MC_T=%d" % t], opt="-O2", cxx="clang++") for t in ts]
def funcs(n, ts=(5, 6)):
    return [Part("funcs.cpp", ["MC_G=%d" % n, "MC_T=%d" % t], **CLANG) for t in ts]

CHECKS["P14"] = dict(
    parts=sweep(14) + [Part("catalogue.cpp", ["MC_T=%d" % t], opt="-O0") for t in range(8)],
    technique="exhaustive enumeration of float bit patterns and argument grids through both algorithms; a catalogue of constant expressions evaluated by the compiler and again at run time",
    note="quick 2^26 float patterns, thorough all 2^32; fmod and mod over all pairs of a grid over all exponents; about 50 groups of expressions x 16 argument tuples x 8 component types",
    assume=["the compile-time algorithm is reached by taking over std::is_constant_evaluated(), and by real constant expressions for the catalogue",
            "swizzle members cannot be read in constant expressions (inactive union members) and are not part of the catalogue"])
CHECKS["P15"] = dict(
    parts=sweep(15) + funcs(15),
    technique="exhaustive enumeration of float bit patterns (and a lattice of doubles) against exact integer arithmetic",
    note="quick 2^26 float patterns, thorough all 2^32; doubles: every exponent with structured mantissas; run-time and compile-time algorithm; all operand kinds and lengths on a grid of values",
    assume=["doubles: lattice only", "the compile-time algorithm is reached by taking over std::is_constant_evaluated()"])
CHECKS["P16"] = dict(
    parts=sweep(16) + funcs(16, (0, 2, 5, 6)),
    technique="exhaustive enumeration of float bit patterns (and a lattice of doubles, integer ranges and boundaries) against bit-field classification",
    note="quick 2^26 float patterns, thorough all 2^32; both algorithms; the vector forms for all operand kinds and lengths",
    assume=["doubles and 64-bit integers: lattice and boundaries only"])
CHECKS["P17"] = dict(
    parts=sweep(17) + funcs(17) + [Part("outargs.cpp", ["MC_T=%d" % t] + o, **CLANG) for t in (5, 6) for o in ([], ["MC_OVERLAP"])],
    technique="exhaustive enumeration of bit patterns, of value pairs, of argument x output kinds and of all overlapping outputs against exact decomposition",
    note="one-argument functions: 2^26 (thorough 2^32) floats and the double lattice; output arguments of all 6 writable kinds and every swizzle of the argument itself",
    assume=["two-argument functions: special-value alphabet and grid"])
CHECKS["P18"] = dict(
    parts=funcs(18, range(7)),
    technique="exhaustive enumeration of all tuples over a special-value alphabet x operand kinds x lengths x types against the scalar definitions",
    note="all argument kinds pairwise in every pair of positions, scalar forms, 7 component types",
    assume=["up to 30 values per argument", "arguments outside the documented domain (edges or limits in the wrong order, NaN for min and max) excluded"])
CHECKS["P19"] = dict(
    parts=sweep(19) + funcs(19, range(7)),
    technique="exhaustive enumeration of 32-bit patterns (and a lattice of 64-bit patterns) against bit-level reference",
    note="quick 2^28 patterns, thorough all 2^32; every byte value at every position for vectors of every kind and length",
    assume=["64-bit patterns: lattice only"])
CHECKS["P20"] = dict(
    parts=sweep(20) + funcs(20),
    technique="exhaustive enumeration of a grid over all exponents against extended-precision references",
    note="every float and double exponent with 2^13/2^10 (thorough 2^18/2^15) mantissas; pairs for two-argument functions; all operand kinds and lengths",
    assume=["reference: the C library's long double functions", "tolerance of a few units in the last place", "pow within its precondition (base > 0, or base 0 with a positive exponent); atan(0, 0) and pow(1, NaN) are left open"])

CHECKS["P21"] = dict(
    parts=[Part("geometric.cpp", d, **CLANG) for d in (["MC_T=5"], ["MC_T=6"], ["MC_T=5", "MC_U=6"], ["MC_T=6", "MC_U=5"], ["MC_T=0"], ["MC_T=3"], ["MC_T=0", "MC_U=2"], ["MC_T=3", "MC_U=0"], ["MC_T=0", "MC_U=6"], ["MC_T=6", "MC_U=0"], ["MC_T=6", "MC_U=1"])]
        + [Part("geometric.cpp", ["MC_DEEP", "MC_T=%d" % t], opt="-O2", cxx="clang++") for t in (5, 6)],
    technique="exhaustive enumeration of all pairs of small-integer vectors x operand kinds x types against the defining formulas in extended precision",
    note="dot, innerProduct, cross, length, distance, normalize, faceforward, reflect, refract: all 64 kind pairs, lengths 1-4, exact on integers; plain vectors: all pairs over 7 (thorough 9) integers, "
         "refraction over all pairs of normalized directions, lengths at every power-of-two scale",
    assume=["fractional operands: a fixed set, within a few rounding errors of the terms", "refract near the critical angle (1e-3) and faceforward near perpendicular skipped for fractional operands"])

CHECKS["P23"] = dict(
    parts=[Part("matops.cpp", ["MC_T=%d" % t, "MC_U=%d" % u] + e, **CLANG) for t in (5, 6) for u in (5, 6) for e in ([], ["MC_PROD"])]
        + [Part("matops.cpp", ["MC_T=%d" % t, "MC_VEC=%d" % v], **CLANG) for t in (5, 6) for v in (0, 1, 2, 3, 5, 6)],
    technique="exhaustive enumeration of shapes x operators x operand families (all basis pairs, small alphabets, boundary-value pairs) against component-wise and linear-algebra definitions",
    note="+ - / matrixCompMult, unary and increment operators, scalars of 6 types on both sides for the 9 shapes; all 27 products; matrix*vector and vector*matrix for 8 vector kinds and 6 component types; "
         "distributivity, associativity, transposition and scalar factors on integers",
    assume=["fractional products: fixed families, within 6 rounding errors of the sum of the magnitudes of the terms"])

CHECKS["P22"] = dict(
    parts=[Part("matrix.cpp", ["MC_T=%d" % t, "MC_C=%d" % c], **CLANG) for c in (4, 3, 2) for t in (0, 1)]
        + [Part("matrix.cpp", ["MC_RESIZE=%d" % t], opt="-O0", cxx="clang++", san=True) for t in range(4)] + [Part("matrix.cpp", ["MC_ACCESS=%d" % t], **CLANG) for t in (0, 1)]
        + [Part("matrix.cpp", ["MC_T=%d" % t, "MC_C=%d" % c, "MC_SEED=%d" % s], tiers=("thorough",), **CLANG) for c in (4, 3, 2) for t in (0, 1) for s in (1, 2, 3)],
    technique="exhaustive enumeration of argument lists (ill-formed ones decided by the compiler), of all 81 shape conversions and of all pairs of writes through every access path, against a column-major array model",
    note="every sequence of up to 4 pieces of 1 to 4 components (4x4: selected splits), kinds and component types rotating; columns of every kind; pointers to exactly C*R elements under the address sanitizer; "
         "12 ways of writing x every element, all pairs of writes, 16 ways of reading after each",
    assume=["piece kinds rotate instead of forming the full product", "conversions of doubles beyond the range of float excluded"])

CHECKS["P24"] = dict(
    parts=[Part("matfuncs.cpp", ["MC_T=%d" % t], opt="-O2", cxx="clang++") for t in (5, 6)],
    technique="exhaustive enumeration of all matrices over small integer alphabets (and scaled, permuted and perturbed families) against exact Leibniz and adjugate arithmetic",
    note="all 2x2 over 10 values, all 3x3 over 4 (thorough 7), all 4x4 over three (thorough five, 3^16 matrices each for two) alphabets; products, column exchanges, rows and columns scaled by powers of two; "
         "transpose of the 9 shapes for every bit pattern of a boundary alphabet",
    assume=["inverse within 8 rounding errors of the largest element (integers), fractional families with looser bounds"])
CHECKS["P25"] = dict(
    parts=[Part("builders.cpp", ["MC_T=%d" % t, "MC_U=%d" % u], **CLANG) for t, u in ((5, 5), (6, 6), (5, 6), (6, 5), (0, 5), (5, 0), (3, 6), (6, 2), (1, 5))]
        + [Part("builders.cpp", ["MC_T=%d" % t, "MC_U=%d" % t, "MC_ONE"], **CLANG) for t in (5, 6)],
    technique="exhaustive enumeration of operand kinds x lengths x component types x value tuples against the defining formulas",
    note="outerProduct for all 64 pairs of kinds and 9 pairs of lengths (const and not), 9 pairs of component types; diagonal_matrix and cross_matrix of all kinds over boundary values; "
         "cross(u,v) = cross_matrix(u)*v = u*cross_matrix(v) for all pairs of vectors over 5 (thorough 7) integers",
    assume=["value tuples: basis, dense integer and a few fractional ones"])

CHECKS["P26"] = dict(
    parts=[Part("convert.cpp", ["MC_T=%d" % t], **CLANG) for t in range(8)],
    technique="exhaustive enumeration of object kinds x lengths x types x ways of taking apart (value and address of every component), ill-formed indexes decided by the compiler",
    note="get<> in four value categories, five forms of structured bindings, tuple traits, to_array, to_vector, to_matrix, deduction, matrix-vector round trips; every kind, its abstract base, swizzles with "
         "repeated letters, the storage classes, all 9 matrix shapes; writes through get<> and bindings",
    assume=["about 45 value tuples of boundary values per type"])

CHECKS["P27"] = dict(
    parts=[Part("bounds.cpp", ["MC_INDEX=%d" % k], **CLANG) for k in range(9)] + [Part("bounds.cpp", ["MC_ITER=%d" % k], **CLANG) for k in range(4)]
        + [Part("bounds.cpp", [d], **CLANG) for d in ("MC_NULL", "MC_SWZ")] + [Part("bounds.cpp", ["MC_SWZ", "DSGA_DISABLE_ASSERTS"], **CLANG)],
    technique="exhaustive enumeration of index values, iterator positions x steps, uses of null views and run-time swizzle index tuples, each either accepted with the right element or rejected",
    note="about 1600 indexes (-300..300, around every power of two, extremes) of 10 integer types, an enumeration, a class and double on every kind, its abstract base, storage classes and matrices (columns and rows); "
         "every iterator of every kind of swizzle, every position x operation x about 200 steps; about 60 uses of null views and of their swizzles; swizzle() with 1 to 4 indexes of every type, assertions on and off",
    assume=["floating-point indexes of moderate size only", "plain pointers (iterators of vectors and views) are not checked by the library"])

CHECKS["P28"] = dict(
    parts=[Part("layout.cpp", ["MC_SEQ=0", "MC_K=%d" % k], **CLANG) for k in range(4)] + [Part("layout.cpp", ["MC_SEQ=%d" % t, "MC_K=%d" % k], tiers=("thorough",), **CLANG) for k in range(4) for t in (1, 2, 3)]
        + [Part("layout.cpp", ["MC_T=%d" % t], **CLANG) for t in range(8)] + [Part("layout.cpp", [d], **CLANG) for d in ("MC_MAT", "MC_NAMES")],
    technique="exhaustive enumeration of component types x lengths x shapes x swizzle names, with every component holding every boundary value, against the bytes of a plain array",
    note="bytes after every single-component write, of copies, arrays and bit casts; addresses; size, alignment and address of each of the 494 swizzle members; data() and sequence() of every swizzle of vectors, views, "
         "owning views and views of const data, of their const forms and abstract bases; all 120 named types",
    assume=["this compiler's ABI"])

def kindinv(a, t, n, *more, tiers=("quick", "thorough")): return Part("kindinv.cpp", ["MC_ARITY=%d" % a, "MC_T=%d" % t, "MC_N=%d" % n, *more], tiers=tiers, **CLANG)
KQ = [(1, 5, 1), (1, 5, 2), (1, 5, 3), (1, 5, 4), (1, 0, 1), (1, 0, 2), (1, 7, 3), (2, 5, 1), (2, 5, 3), (2, 0, 1), (2, 0, 2), (2, 6, 4), (2, 7, 4), (3, 5, 3), (3, 5, 1), (3, 0, 2), (3, 7, 4), (4, 0, 3), (4, 5, 4), (4, 0, 1), (4, 6, 2)]
KR = [(1, 5, 4), (1, 0, 3), (1, 6, 2), (2, 5, 3), (2, 0, 2), (2, 7, 3), (3, 5, 4), (3, 0, 3), (4, 0, 3), (4, 5, 2)]   # swizzles with a repeated letter
CHECKS["P29"] = dict(
    parts=[kindinv(*q) for q in KQ] + [kindinv(a, t, n, tiers=("thorough",)) for a in (1, 2, 3, 4) for t in range(8) for n in (1, 2, 3, 4) if (a, t, n) not in KQ]
        + [kindinv(3, t, n, "MC_FULL", "MC_CST=%d" % c, tiers=("thorough",)) for t, n, c in ((5, 3, 0), (5, 1, 1), (5, 4, 2), (0, 2, 3), (6, 2, 4), (7, 4, 5))]
        + [kindinv(2, t, n, "MC_CST=%d" % c, tiers=("thorough",)) for t, n in ((5, 3), (0, 2), (7, 4)) for c in (1, 2, 3)]
        + [kindinv(*q, "MC_TWICE") for q in KR] + [kindinv(a, t, n, "MC_TWICE", tiers=("thorough",)) for a in (1, 2, 3, 4) for t in range(8) for n in (2, 3, 4) if (a, t, n) not in KR],
    technique="exhaustive enumeration of functions and operators x tuples of operand kinds (const in a rotating pattern) x distinguishing values, each against the same call with plain vectors and with scalars",
    note="about 120 unary, 35 binary, 7 ternary and 10 assignment expressions, all pairs of kinds (three operands: all pairs in the quick tier, all 512 triples in the thorough tier); again with swizzles that repeat a letter; operands unchanged; same shape and component type",
    assume=["16 value cases per call", "results that may be associated differently compared within 1e-5 (float) or 1e-12 (double)"])

CHECKS["P30"] = dict(
    parts=[Part("scalar1.cpp", ["MC_T=%d" % t], **CLANG) for t in range(8)] + [Part("scalar1.cpp", ["MC_T=%d" % t, "MC_PAIR"], tiers=("quick", "thorough") if t in (0, 3, 5) else ("thorough",), **CLANG) for t in range(8)],
    technique="exhaustive enumeration of length-1 kinds x component types x scalar types x operators (both orders) x all pairs of boundary values, against the scalar expression",
    note="8 kinds, const and not: conversion to 14 scalar types in 7 ways, conditions, indexes, switch; 18 operators with scalars of 7 types and with other length-1 kinds: value and type; assignment from scalars; lengths 2 to 4 do not convert",
    assume=["conversions and operations whose scalar counterpart is undefined are excluded"])

OQ = [(0, 0), (0, 2), (1, 0), (2, 3), (5, 5), (5, 6), (5, 0), (3, 6), (6, 2), (6, 6)]
CHECKS["P31"] = dict(
    parts=[Part("ordering.cpp", ["MC_T=%d" % t, "MC_U=%d" % u], tiers=("quick", "thorough") if (t, u) in OQ else ("thorough",), **CLANG) for t in range(7) for u in range(7)]
        + [Part("ordering.cpp", ["MC_KINDS=%d" % t], tiers=("quick", "thorough") if t in (0, 5) else ("thorough",), **CLANG) for t in range(7)] + [Part("ordering.cpp", ["MC_WEIGHTS=%d" % t], tiers=("quick", "thorough") if t in (0, 3, 5) else ("thorough",), **CLANG) for t in range(7)]
        + [Part("ordering.cpp", ["MC_MAT"], **CLANG)],
    technique="exhaustive enumeration of pairs of vectors and matrices over boundary alphabets x types x kinds x weights, against lexicographic and weighted reference orders",
    note="<=> both ways round and < > <= >= of every pair of words of length 1 to 4; 64 pairs of kinds; weights of either sign, zero and beyond 32 bits; every pair of single-element changes of two matrices of 9 shapes",
    assume=["alphabets of 4 to 17 boundary values per type depending on the length"])

CHECKS["P32"] = dict(
    parts=[Part("slice.cpp", ["MC_T=%d" % t], tiers=("quick", "thorough") if t in (0, 5, 7) else ("thorough",), **CLANG) for t in range(8)] + [Part("slice.cpp", ["MC_T=5", "DSGA_DISABLE_ASSERTS"], **CLANG)],
    technique="exhaustive enumeration of object kinds x sizes x slice lengths x about 2000 offsets, also slices of slices, each either refused or aliasing exactly the sub-range",
    note="vectors, views, views of const data, owning views, each const and not; address, value and data() of every component, writes through the slice; assertions on and off; lengths and temporaries the compiler must refuse",
    assume=["offsets 0 to 300 and around every power of two and the maximum"])

CHECKS["P33"] = dict(
    parts=[Part("helpers.cpp", ["MC_%s=%d" % (k, t)], tiers=("quick", "thorough") if t in q else ("thorough",), **CLANG) for k, q, r in (("HASH", (0, 5, 7), range(8)), ("TEXT", (0, 5, 7), range(8)), ("TOL", (0, 2, 5, 6), (0, 2, 5, 6))) for t in r] + [Part("helpers.cpp", ["MC_BOX1"], **CLANG), Part("helpers.cpp", ["MC_COPY"], **CLANG)],
    technique="exhaustive enumeration of words over small alphabets x kinds x helpers (hash, text, tolerance, copies), against component-wise references",
    note="8 kinds, abstract bases, storage; streaming and 11 format specifications, truncated output; tolerances of every length and kind incl. boundary, negative, infinite; spans and valarrays of 0 to 6 elements, every index sequence",
    assume=["hash values are only compared for equality and, on small sets, for distinctness"])

CHECKS["P34"] = dict(
    parts=[Part("examples.cpp", ["MC_T=%d" % t, "MC_" + k], opt="-O1", cxx="clang++") for t in (0, 1) for k in ("BASIC", "BEZIER", "ANGLE")],
    technique="exhaustive enumeration of tuples of grid points x parameters x mixes of kinds, against independent extended-precision geometry",
    note="13 functions on every triple of a 3x3x3 grid (4x4x4 thorough); Bezier curves of every tuple of control points of lengths 1 to 4 at 8 parameters; angles of every pair of vectors over 7 coordinates",
    assume=["results compared within 4e-5 (float) or 1e-12 (double); angles within 2e-3 and 1e-7 (the formula loses half the digits near 0 and pi)"])

CHECKS["P41"] = dict(
    parts=[Part("stl.cpp", [d], opt="-O1", cxx="clang++") for d in ("MC_SEQ", "MC_SIZE", "MC_ARGS", "MC_FAULT", "MC_VALUES")],
    technique="the converter run on real files: exhaustive enumeration of facet sequences, file lengths and stated counts, directory states x arguments x answers, and write failures at every byte offset, against an independent reader of both formats",
    note="every sequence of up to 3 (thorough 4) of 14 facets; files of 0-3 facets cut or extended to every length x 14 stated counts; non-finite values in every pair of coordinates; 11 sources x 15 destinations x 12 answers; "
         "destinations that stop accepting bytes at every offset (RLIMIT_FSIZE); coordinates of every small exponent, normals in 2000 directions read back digit for digit",
    assume=["little-endian host", "facets at the limit of a computable float normal (overflow or underflow of the squared length) are not among the good or bad ones, except clear cases",
            "files change only through the converter while it runs"])

CHECKS["P35"] = dict(
    parts=[Part("meta.cpp", ["MC_SEQ"], **CLANG), Part("meta.cpp", ["MC_CONCEPT"], **CLANG), Part("meta.cpp", ["MC_ALIAS"], **CLANG)] + [Part("meta.cpp", ["MC_META=%d" % t], tiers=("quick", "thorough") if t in (0, 1, 6) else ("thorough",), **CLANG) for t in range(8)],
    technique="exhaustive enumeration of index words, ranges, scalar types and objects x every trait, against definitions recomputed at run time",
    note="ranges between all pairs of 0 to 15 and at the ends of size_t; every word of length 0 to 4 over 5 (length 4: 4) indexes as array, sequence, reversed; 780 words x 30 (size, count) pairs; 22 types x 9 decorations x 8 concepts, all pairs of component types; the 120 type aliases; every object and each of its swizzles: lengths, sizes, writability, element type, offsets",
    assume=["index words of at most 29 elements"])

CHECKS["P36"] = dict(
    parts=[Part("storage.cpp", ["MC_T=%d" % t], **CLANG) for t in range(8)] + [Part("storage.cpp", ["MC_EQ=%d" % t], **CLANG) for t in range(7)] + [Part("storage.cpp", ["MC_SET=%d" % t], **CLANG) for t in range(8)],
    technique="exhaustive enumeration of words over boundary alphabets x ways of reading, writing, copying and swapping, against a plain array",
    note="storage and views of length 1 to 4, mutable and const: 14 ways of reading, 7 of writing, copies, swaps of all pairs of words and all pairs of places in one buffer; equality of all pairs of words of every pair of comparable types, of an object with itself and of overlapping views; set() with argument lists mixing types; guard elements",
    assume=["alphabets of 2 to 5 boundary values per type"])

CHECKS["P37"] = dict(
    parts=[Part("signatures.cpp", ["MC_%s=%d" % (k, n)], **CLANG) for n in range(10) for k in ("OP", "ASG")] + [Part("signatures.cpp", ["MC_BIN=%d" % b, "MC_HALF=%d" % h], **CLANG) for b in range(4) for h in (0, 1)] + [Part("signatures.cpp", [k], **CLANG) for k in ("MC_UN", "MC_TER", "MC_MAT", "MC_SCALAR")],
    technique="exhaustive enumeration of programs: every operator and function x tuples of component types x lengths, each accepted or refused by the compiler as the documented signature says",
    note="10 binary operators, their assignments, 55 unary and 30 binary functions, 8 of three operands, 12 matrix operators and functions, scalar versions; all 64 pairs (512 triples) of component types, all lengths, five scalar types that are no component type, const and temporary operands; result types and noexcept of what is accepted",
    assume=["operands are vectors, matrices and scalars (other kinds: P29)", "whether operators on length-1 vectors fall back to the built-in ones is left open"])

CHECKS["P38"] = dict(
    parts=[Part("cxcm.cpp", [d], opt="-O2") for d in ("MC_DD", "MC_RELAXED=5", "MC_RELAXED=6")] + [Part("cxcm.cpp", ["MC_INT", CE], opt="-O2")],
    technique="exhaustive enumeration of the argument space of the real functions within stated bounds (every float in the thorough tier, lattices of doubles and double-double numbers, all narrow integers), each result judged by an exact oracle",
    note="relaxed functions: 2^26 floats (quick), 2^32 (thorough), a lattice of doubles; double-double: all pairs of a grid of numbers (mantissa splits x exponents x low parts) under every operator with doubles on either side, against binary128; error-free sum, product and split; integral overloads: all values of the 8- and 16-bit types, the neighbourhoods of powers of two of the others; fmod: all pairs over alphabets and exponents; the same double-double table by compiler and program",
    assume=["__float128 of the compiler is IEEE binary128", "std::fmod and std::nextafter of the C library are exact", "relaxed rounding only where the integer part fits the intermediate integer type"])

TSAN = ("-Xclang", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-atomics=0", "-mllvm", "-tsan-instrument-func-entry-exit=0")
def threads(k, t, s, *more, tiers=("quick", "thorough")): return Part("threads.cpp", ["MC_K=%d" % k, "MC_T=%d" % t, "MC_S=%d" % s, *more], flags=TSAN, tiers=tiers, **CLANG)
THQ = [(0, 6, 4), (0, 0, 3), (0, 5, 2), (1, 0, 4), (1, 6, 3), (2, 5, 4), (3, 6, 4), (4, 6, 4, "MC_COLS=4"), (4, 5, 3), (4, 6, 2, "MC_COLS=2")]
TRQ = [(1, 5, 3), (1, 5, 1), (1, 0, 2), (1, 7, 3), (2, 5, 3), (2, 0, 2), (3, 5, 3), (4, 0, 3), (4, 5, 4)]
def traced(a, t, n, tiers=("quick", "thorough")): return Part("kindinv.cpp", ["MC_ARITY=%d" % a, "MC_T=%d" % t, "MC_N=%d" % n, "MC_TRACE"], flags=TSAN, tiers=tiers, **CLANG)
CHECKS["P39"] = dict(
    parts=[threads(*q) for q in THQ] + [threads(k, t, s, tiers=("thorough",)) for k in range(5) for t in (0, 2, 5, 6) for s in (2, 3, 4) if (k, t, s) not in [q[:3] for q in THQ] and (k < 3 or t > 3)]
        + [traced(*q) for q in TRQ] + [traced(*q, tiers=("thorough",)) for q in KQ if q not in TRQ],
    technique="stateless model checking of the real code under a controlled scheduler: every memory access of the compiled code is a scheduling point (compiler instrumentation with callbacks of our own), all interleavings of two operations are executed; exhaustive enumeration of operations for the access footprints that make them independent",
    note="writing operations: 15 ways x every swizzle with distinct letters; reading ones: 19 ways x every swizzle; through vectors, views, owning views, matrix columns; whole matrices: 13 x 19 ways per column, row or element; quick tier: all interleavings of some 12000 pairs per object (up to 12870 schedules a pair), thorough: about 40 times as many pairs; footprints of the 160 functions and operators of P29 over kinds of operands",
    assume=["memory accesses are atomic and sequentially consistent between scheduling points (sound because the footprints are disjoint: no data race)", "accesses inside the C library's mathematical functions are not seen", "code as compiled by clang -O0"])

NOT_CLAIMED = {}

def config(g, cxx, opt, asserts, std, tiers):
    return Part("config.cpp", ["MC_G=%d" % g], flags=() if asserts else ("-DDSGA_DISABLE_ASSERTS",), opt=opt, cxx=cxx, std=std, tiers=tiers,
                tag=" {%s %s %s}" % (opt, std, "assertions" if asserts else "no assertions"))
QUICK_CONFIGS = {("g++", "-O0", True, "-std=c++20"), ("g++", "-O2", False, "-std=c++20"), ("g++", "-O3", True, "-std=c++23"),
                 ("clang++", "-O0", False, "-std=c++23"), ("clang++", "-O2", True, "-std=c++20"), ("clang++", "-O3", False, "-std=c++20")}
CHECKS["P40"] = dict(
    parts=[config(g, c, o, a, s, ("quick", "thorough") if (c, o, a, s) in QUICK_CONFIGS else ("thorough",))
           for g in range(6) for c in ("g++", "clang++") for o in ("-O0", "-O1", "-O2", "-O3", "-Os") for a in (True, False) for s in ("-std=c++20", "-std=c++23")],
    technique="exhaustive enumeration of build configurations x one fixed exploration of histories and calls; the digests of all configurations are compared",
    note="quick: 6 configurations that contain every pair of compiler, optimisation class, assertions and language standard; thorough: all 40 (2 compilers, 5 optimisation levels, assertions on and off, "
         "C++20 and C++23). In each the same exploration: about 130 expressions on every component type, length and operand kind over a value alphabet, scalar functions over a lattice of bit patterns, "
         "all sequences of 4 (thorough 5) of 26 operations on vectors, views, owning view and matrix, matrix expressions of all sizes, layout and type facts",
    assume=["x86-64, -ffp-contract=off, no -ffast-math", "functions the C library computes with unspecified rounding (sin, exp, pow ...) are left out", "MSVC is not available here"])
