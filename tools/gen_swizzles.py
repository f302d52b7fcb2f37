#!/usr/bin/env python3
"""Writes mc/swizzles.hpp: an accessor for every swizzle name of one to four letters."""
import itertools, os
L = "xyzw"
out = ["// generated by tools/gen_swizzles.py: every swizzle name, what it should select, and lists of them",
       "#pragma once", '#include "kinds.hpp"', "namespace mc", "{",
       "#define MC_A(nm, k, a, b, c, d) struct A_##nm { static constexpr const char *name = #nm; static constexpr int n = k; static constexpr int idx[4] = { a, b, c, d }; \\",
       "	template <class V> static auto &get(V &v) { return v.nm; } template <class V> static constexpr bool exists = requires (V &v) { v.nm; }; };"]
names = {}
for k in range(1, 5):
    for t in itertools.product(range(4), repeat=k):
        nm = "".join(L[i] for i in t)
        names[t] = nm
        p = list(t) + [0] * (4 - k)
        out.append("	MC_A(%s, %d, %d, %d, %d, %d)" % (nm, k, *p))
out.append("#undef MC_A")
out.append("	// Swz<S, k>: all names of k letters over S components; USwz: those with distinct letters")
out.append("	template <int S, int K> struct Swz_; template <int S, int K> struct USwz_ { using type = types<>; };")
for S in range(1, 5):
    for k in range(1, 5):
        al = ["A_" + names[t] for t in itertools.product(range(S), repeat=k)]
        un = ["A_" + names[t] for t in itertools.permutations(range(S), k)]
        out.append("	template <> struct Swz_<%d, %d> { using type = types<%s>; };" % (S, k, ", ".join(al)))
        if un:
            out.append("	template <> struct USwz_<%d, %d> { using type = types<%s>; };" % (S, k, ", ".join(un)))
out.append("	template <int S, int K> using Swz = typename Swz_<S, K>::type; template <int S, int K> using USwz = typename USwz_<S, K>::type;")
out.append("}")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/swizzles.hpp"), "w").write("\n".join(out) + "\n")
