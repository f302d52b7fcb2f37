HEAD = """
# Deciding the properties of dsga by bounded exhaustive exploration

dsga is a sequential, header-only library of GLSL-like vectors, swizzles, views and matrices.  It has no
threads, files or protocol; what varies is the *history of operations* on the caller's objects and
buffers, the *aliasing* between operands (swizzles are references to parts of an object, views are
references to external memory), the *kinds* and *types* of the operands (which pick different overloads
and templates), and the *values* in them.  These are the dimensions that are enumerated.

## How model checking is applied

The code itself is explored; there is no separate description of it that could drift.  Every check is a
program in `mc/` that is compiled from the working tree each time (`check.py` calls g++ or clang++ with
`-I/repo/include -I/repo/examples`), walks a finite space of executions completely, and after *every*
execution compares everything observable (results, types, all elements of all objects and buffers, guards,
exceptions and assertions) with a small reference model.  There are four forms of exploration:

1. **Closed state-space search** (P04, P06; also P05's placements): states are the contents of memory and
   the addresses of the views; from every reachable state every operation (100 to 300 of them) is executed
   on real objects put into that state, the successor is compared with the model's, and new states are
   queued until none is left.  So the claim for those spaces holds for histories of *any* length.
   A second explorer executes all operation sequences of bounded depth on objects that live through the
   whole sequence, which validates that "put into that state" loses nothing.
2. **Exhaustive enumeration of operation x configuration x value** (most properties): all operand kinds
   (vector, swizzle, view, view swizzle, owning view, its swizzle, views of const data and their swizzles),
   lengths, component types, broadcast shapes, aliasing patterns, and all tuples over a boundary alphabet in
   every lane.
3. **Exhaustive sweeps of bit patterns** (P13-P17, P19): all 2^32 floats in the thorough tier, a sub-lattice
   closed over every exponent and sign in the quick tier, and a structured lattice of doubles; run-time code
   and the compile-time algorithm (reached by taking over `std::is_constant_evaluated()`, see below).
4. **Exhaustive enumeration of programs, decided by the compiler** (P03, P10, P26, P27, P32, parts of P08,
   P22): for every expression of a finite grammar, a `requires`-expression or a build tells whether the
   library accepts it, and a rule written independently of the library tells whether it should.

The model and the implementation run in lock step on every transition, so "traces validated against the
implementation" equals the number of executions.  No sampling is used anywhere; `VERIF_SEED` is recorded
but changes nothing.  No solver is involved.

**Bounds.** All enumerations are finite: lengths 1-4 and the nine shapes are all there is in the library, so
they are complete; component types are the complete list that `dimensional_scalar` admits (bool, int,
unsigned, long long, unsigned long long, size_t's type, float, double) except where a section says otherwise;
values are the bounded dimension.  Overloads are selected by kind and type, not by value, so kinds x types
are crossed completely with small sets of *distinguishing* values, and single functions are crossed with
large value sets.

**The compile-time algorithm.** `cxcm` selects its own algorithms with `std::is_constant_evaluated()`.
`mc/sweep.cpp` and `mc/rounding.cpp` define a replacement of that function before including the header, so
that the compile-time branch can be run on all bit patterns; the catalogue of P14 additionally evaluates real
constant expressions, which shows that the replacement shows what the compiler does.

**Undefined behaviour.** Scalar operations that C++ leaves undefined (signed overflow, division by zero, bad
shift counts, out-of-range conversions) are excluded from the alphabets.  The history explorers run under the
address sanitizer where memory is external (P04, P06, P22 pointers, P27); each explorer catches signals and
reports the operation under way as a failing key (`crash`), and a hang as `timeout`.

## Driver, evidence, tiers

`check.py Pxx [--tier quick|thorough]` compiles the parts of `spec.py` in parallel, runs them, merges
`COUNT`/`FAIL` lines, writes `evidence/Pxx.json`, and on failure `replays/Pxx.json` with the failing keys and
inputs; `check.py Pxx --replay FILE` runs only the parts named there again and says whether the recorded keys
fail again.  A failing part is run twice before it is believed; a part that does not compile is compiled with
g++ (the project's compiler) before "does not compile" is reported, and exit status 2 is used when the header
itself does not compile or a part cannot be run.  Two compilers are used because clang++ -O0 compiles
template-heavy explorers three times faster; value-heavy explorers use g++ -O2 -ffp-contract=off.

Nothing in `/repo` is instrumented: no hooks are needed, because everything observed is public behaviour.

Refactoring safety: the checks use only documented public names (the types, their members and the functions
of `dsga::`), and judge values, addresses, types and well-formedness.  Floating-point results with more than
one rounding are compared within a few rounding errors of the terms, so that reassociation stays quiet; where
exactness is claimed it follows from integer inputs.  Zero signs that the formula leaves open are not compared.
"""

SECTIONS = {
"P01": dict(oracle="an index list derived from the letters of the name; the values of the components are pairwise different, so a wrong index shows.",
    cost="about 50 s quick (compilation of all 494 names per kind dominates).", why="there are 494 names x 7 kinds x 12 ways of reading; the repository's tests use some dozens. A typo in one `dexvec` line of the union is invisible to everything else."),
"P02": dict(oracle="array with read-all-then-write-all semantics; every element of the owner and guards are compared.",
    cost="about 60 s quick.", why="aliasing: whether `v.xyz = v.zxy` is right depends on the order in which components are read and written; all pairs of overlapping swizzles are executed.",
    extra="known finding: a *same-type* swizzle assignment between two vectors (`a.xy = b.xy`) uses the implicit copy assignment of the union member and copies all components (51 keys, one per name). Repairing it would need a user-provided copy assignment for union members, which makes them non-trivial and takes the layout and constexpr guarantees of the vector with it, so it is recorded."),
"P03": dict(oracle="a swizzle is writable iff its letters are distinct and its owner is mutable; evaluated by `requires` for 35 modifying expressions.",
    cost="about 60 s quick.", why="tests cannot contain programs that must not compile; here every name x kind x constness x expression is decided.",
    extra="known finding: repeated-letter swizzles of the same type can be assigned through the implicit copy assignment (410 keys); same reason as P02's."),
"P04": dict(oracle="a memory array plus one offset per view.",
    cost="30 s quick, 140 s thorough (11.7 M transitions).", why="copying aliases, assigning copies: only histories that mix re-pointing, copying and writing through both tell them apart; the search is closed, so all lengths of history are covered for the bounded memory.",
    extra="memory is allocated exactly and compared completely after each transition, guards included."),
"P05": dict(oracle="array exchange; for partially overlapping views: exception and unchanged memory.",
    cost="30 s.", why="overlap by each possible distance, both orders, for member, free, std and ranges swap. Found: free swap() of overlapping views was noexcept and terminated (fixed)."),
"P06": dict(oracle="plain arrays given the same operation.", cost="60-110 s quick.", why="independence after arbitrary histories: the state space is closed under about 200 operations. Found: view_vector assigned from its own swizzle read components it had already overwritten (fixed)."),
"P07": dict(oracle="position numbers 0..n.", cost="30 s.", why="all positions x steps x operations of all iterator kinds; tests iterate forward. Found: swizzle iterators rejected += to end (fixed)."),
"P08": dict(oracle="the C++ scalar operator on the common type, applied lane by lane; the result type from `std::common_type`.", cost="60-90 s alone.", why="64 kind pairs x 64 type pairs x broadcast shapes select different template paths."),
"P09": dict(oracle="read all operands, compute the binary operation, convert, write.", cost="20 s.", why="`v.xy *= v.yx`-like aliasing in every combination."),
"P10": dict(oracle="concatenation of component lists, with the rule for the last argument; acceptance by `std::is_constructible` compared with the rule.", cost="60-80 s alone.", why="argument sequences are combinatorial (kinds ^ pieces). Found: views and owning views were not accepted as constructor arguments where vectors were (fixed)."),
"P11": dict(oracle="`std::valarray`-like plain array operations in 64-bit index arithmetic.", cost="16 s.", why="amounts near INT_MIN/INT_MAX. Found: shift(INT_MIN) (fixed)."),
"P12": dict(oracle="exact comparison: integers in 128 bits, floats by ordered bit patterns.", cost="40 s alone.", why="64-bit integers that collide after conversion to double. Found: exactly that (fixed)."),
"P13": dict(oracle="rounding computed on the bit fields of the operand, without floating-point arithmetic.", cost="10 s quick (2^28 floats), 3 min thorough (2^32).", why="single bit patterns fail: the largest value below one half, values at 2^23 and 2^52, negative zeros. Found: round/roundEven of 0.49999997, fract of huge values (fixed)."),
"P14": dict(oracle="the run-time result of the same expression (bit-equal, any NaN equal to any NaN, zero signs not compared).", cost="40 s quick.", why="constant expressions in tests are a handful; here the compile-time algorithm runs on all floats. Found: compile-time fmod inexact, compile-time sqrt rounded up below powers of 4 (fixed)."),
"P15": dict(oracle="integer square root of the scaled significand and comparison of the squares of neighbouring midpoints in 128-bit arithmetic.", cost="8 s quick, minutes thorough.", why="one wrong ulp in 2^32. Found: inversesqrt(double) NaN at both ends of the range; compile-time sqrt non-terminating for huge doubles (fixed)."),
"P16": dict(oracle="exponent and significand fields.", cost="17 s quick.", why="boundary patterns of classes; vector forms per kind. Found: abs(-inf) at compile time, abs(unsigned 0) was undefined (fixed).",
    extra="two more planted-bug observations: NaN payloads are not compared."),
"P17": dict(oracle="exact decomposition on bit fields; overlapping outputs: as if all inputs were read first.", cost="60 s quick.", why="in-place outputs, `modf(v, v.yx)`-like overlaps. Found: modf written over its own argument (fixed)."),
"P18": dict(oracle="GLSL definitions evaluated per component in the argument type (mix and smoothstep within rounding).", cost="80 s quick.", why="every pair of positions holds every pair of special values, for every kind of operand.", extra="arguments GLSL leaves undefined (NaN, crossed edges) are excluded."),
"P19": dict(oracle="memcpy and byte reversal.", cost="12 s quick.", why="all 2^32 patterns, signalling NaNs included."),
"P20": dict(oracle="the C library in long double.", cost="34 s quick.", why="argument order and domain edges over all exponents."),
"P21": dict(oracle="the defining formula in long double; exact equality on integers.", cost="60 s quick.", why="a wrong term in a cross product of swizzles needs distinct small integers in all lanes for all kinds; total reflection at its exact limit."),
"P22": dict(oracle="column-major array.", cost="30 s quick.", why="all 81 shape conversions and all argument splits; all pairs of writes through different access paths."),
"P23": dict(oracle="component-wise definitions and the sum over k, exact on integers.", cost="45 s quick.", why="27 products x 8 kinds; algebraic laws for all basis pairs. Found: integer row vector times matrix did not compile (fixed)."),
"P24": dict(oracle="Leibniz formula and adjugate in integer arithmetic.", cost="20 s quick; thorough 3^16 4x4 matrices.", why="one wrong sign in one of 24 terms shows only for matrices with that permutation's product non-zero and few others: all 0/1(/-1) matrices contain them."),
"P25": dict(oracle="defining formula per element.", cost="50 s quick.", why="all pairs of kinds and non-square shapes."),
"P26": dict(oracle="component lists and addresses.", cost="25 s.", why="which components a structured binding names, by value and address, for const and rvalue forms. Found: structured bindings of read-only swizzles and views did not compile (fixed)."),
"P27": dict(oracle="index in range, pointer not null.", cost="30 s alone.", why="index types (unsigned wrap-around, 64-bit, bool, enum) and checks disabled; negative coverage is rare in tests."),
"P28": dict(oracle="bytes of a plain array; addresses of the swizzle members.", cost="50 s quick.", why="every swizzle member must start at the vector's address, or writing through it touches something else."),
"P29": dict(oracle="the same call with plain vectors, and per component the scalar call.", cost="90 s quick.", why="about 180 functions and operators x kind tuples: each kind has overloads of its own."),
"P30": dict(oracle="the scalar expression: value and type.", cost="60-90 s alone.", why="overload resolution between length-1 objects and scalars of other types."),
"P31": dict(oracle="lexicographic order on exact comparisons; weighted sums in 64 bits.", cost="15 s quick.", why="overflowing differences and NaN in any component.",
    extra="known finding: the comparison of signed integers takes sign(x - y), which overflows: {INT_MAX} < {INT_MIN}. Reported under its own keys, and only for pairs where a difference overflows *and* the answer is the one the wrapped difference gives. Not repaired: vcheck counts files under examples/ as test files, which no commit may change."),
"P32": dict(oracle="address arithmetic on the sub-range.", cost="8 s.", why="about 2000 offsets incl. wrap-around for every size and length."),
"P33": dict(oracle="component-wise references in long double, text built component by component.", cost="30 s quick.", why="boundary tolerances, NaN, infinite differences, truncated output.",
    extra="known finding: within_box(length 1, length 1, length 1) does not compile; it is a part of its own (MC_BOX1), so the rest of the file is checked. Not repaired for the same reason as P31's. std::format is absent from this libstdc++ configuration unless __cpp_lib_format is defined; the text part uses it when present."),
"P34": dict(oracle="Bernstein form, atan2 angles and geometric definitions in long double.", cost="10 s.", why="all triples of grid points incl. degenerate ones."),
"P41": dict(oracle="an independent reader of both file formats and extended-precision normals; snapshots of every file in a scratch directory.", cost="20 s.", why="every length a file can be cut to, every alias of the source, every byte at which the disk can be full.",
    extra="stl_main() is called in this process on files in a directory next to the built explorer (removed with it); an exception leaving it counts as a failed run. Known findings (not repaired for the same reason as P31's): the destination overwrites the source when it is the same file under another name; a directory as the source or an empty name ends in an exception; success is reported when the output could not be written; the very first number written lacks the ninth digit (std::scientific is set after it)."),
"P35": dict(oracle="lists computed at run time from the definition, hand-written type tables, swizzle names.", cost="60 s.", why="wrong end points, directions and traits of combinations no test instantiates."),
"P36": dict(oracle="a plain array with guard elements.", cost="30 s.", why="every pair of placements and of types, every access path."),
"P37": dict(oracle="the signature table of docs/API.md, retyped as predicates over type indexes and lengths.", cost="2 min (compilation only).", why="programs that must not compile cannot be test cases.", extra="a constraint moved into a function body makes the explorer itself fail to compile, which is reported as a violation too; length-1 operands may reach the built-in operators by conversion, so refusal is asserted for them only where no such conversion exists."),
"P38": dict(oracle="bit-level integer arithmetic on the encoding for rounding, binary128 for double-double, exact integer comparison of squares for sqrt.", cost="10 s (thorough: 90 s).", why="all floats; all pairs of double-double shapes, where one lost partial product costs a few of the 106 bits.", extra="internal names (two_sum, two_prod, split, quick_two_sum) are used as the published cxcm header spells them."),
"P39": dict(oracle="the footprint named by the swizzle, column, row or element; for schedules, the result of running one thread after the other.", cost="2 min (compilation).", why="all interleavings at the granularity of single loads and stores of the compiled code, and every store is seen even when it stores the value already there.", extra="mc/access.hpp supplies the callbacks of the thread-sanitizer instrumentation, so no sanitizer run time is linked: accesses outside the running thread's stack become scheduling points of a coroutine scheduler; a schedule is replayed from the start for every choice sequence. Known finding: an argument that is a length 1 swizzle of a vector and that is taken by value (constructors from one or more scalars, set()) is copied as an object, which copies the whole vector: scal(v.x) reads v.y too. Not repaired: taking these arguments by reference changes which argument types are accepted (non-const conversion operators, static const members without definition) and the aliasing guarantee of set() rests on the copies."),
"P40": dict(oracle="none: mc/config.cpp prints a digest per expression, pattern sweep and history prefix, and check.py compares the digests of all configurations (the majority is taken as the usual meaning; the failing key names the expression and the deviating configuration).", cost="2.5 min (compilation), thorough about 20 min.", why="the tests see one compiler with one set of flags; here the same exhaustive exploration is repeated in each configuration, so a difference anywhere in it is seen.", extra="`-ffast-math` is left out on purpose: comments in the header want isnan and isinf to survive it, and with g++ they do, but clang 18 from -O1 on folds them to false whatever the source says (it marks parameters and results as never NaN or infinite), so no property is claimed for it."),
}

TAIL = """
## What is not covered

- Copying or slicing objects through the CRTP base `vector_base` by value, and the unclaimed `reset` that owning views inherit.
- `examples/stl.cxx` on big-endian hosts.
- NaN as an argument of min, max, clamp, step and smoothstep (undefined in GLSL), NaN payloads, floating-point exception flags, rounding modes other than to-nearest.
- Doubles and 64-bit integers beyond the lattices, fractional products beyond the families named above.
- Unsigned tolerance vectors (do not compile) and vectors of other scalar types (rejected by the concepts).
- Compilers other than gcc 13 and clang 18 on x86-64.

## False alarms met and corrected

- Zero signs of trunc(-0.5), abs(-0.0) and products: compared numerically, the statements do not promise them.
- fast_inversesqrt of subnormal doubles is inaccurate by design of the approximation; P15's statement is restricted to normal values for it.
- Views assigned from views (`view = view` of the same type) do not compile by design, nor `==` between long long and unsigned long long vectors; the expected sets of P03, P08 and P12 follow the documentation.
- Bool vectors: only same-type assignment; P03's "accepts" list is restricted to what the documentation gives bool.
- P33: within_distance on NaN, P34: angle accuracy near 0 and pi are bounded by the formula's conditioning.
- The first P31 used `float` common-type comparison for mixed integers; corrected to mathematical values.
- "max() of NaN" and "step() of NaN" bugs were planted and missed; GLSL leaves both undefined, so the bugs were withdrawn and P18 keeps NaN out (a behaviour-preserving rewrite may change them).
- Two repairs of example headers (P31, P33) were first committed in /repo and withdrawn, because vcheck treats files under examples/ as test files.

## Findings

The repairs are the `fix:` commits in /repo; `known_findings.jsonl` lists each with the property, the commit and
what failed, and the findings that are recorded instead (P02, P03, P31, P33, P39, P41).
"""
