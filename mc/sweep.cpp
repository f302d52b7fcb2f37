// Scalar functions over whole value spaces: -DMC_S=14|15|16|17|19|20
//   (with -DMC_CONTROL_CE the compile-time algorithms are reachable at run time)
#include "oracles.hpp"
using namespace mc;

static u64 nfloats() { return thorough ? 1ull << 32 : 1ull << 26; }
// quick: all 2^20 prefixes (sign, exponent, 11 mantissa bits) x 64 low parts, including the runs of ones and zeros
static float nthfloat(u64 i)
{
	if (thorough) return f32((u32)i);
	u32 low = u32(i & 63), pre = u32(i >> 6);
	low = low < 16 ? low : low < 32 ? 4095 - (low - 16) : low < 48 ? 2048 - 8 + (low - 32) : u32((low - 48) * 0x9e3779b1u >> 20);
	return f32(pre << 12 | low);
}
template <class T, class B> void each(const char *what, B body)
{
	static DoubleLattice L(thorough ? 12 : 6);
	const u64 n = sizeof(T) == 4 ? nfloats() : L.size();
	ctx.what = what;
	parallel(n, [&](Counters &c, u64 lo, u64 hi) {
		ctx.what = what;
		for (u64 i = lo; i < hi; ++i)
		{
			T x; if constexpr (sizeof(T) == 4) x = nthfloat(i); else x = L.at(i);
			ctx.a[0] = (long long)i; ++c.states; ++c.traces; body(c, x);
		}
	});
}
template <class T> void bad(const char *f, const char *alg, T x, const std::string &detail) { fail(strf("%s/%s/%s", f, tname<T>(), alg), strf("%s(%s): %s", f, str(x).c_str(), detail.c_str())); }
struct Force { Force(bool b) {
#ifdef MC_CONTROL_CE
	std::mc_force_ce = b;
#endif
	} ~Force() {
#ifdef MC_CONTROL_CE
	std::mc_force_ce = false;
#endif
	} };

template <class T> void roots()
{
	each<T>("sqrt, inversesqrt", [](Counters &c, T x) {
		for (int ce = 0; ce < 2; ++ce)
		{
			const char *alg = ce ? "compile-time" : "run-time"; Force f(ce);
			{
				T s = dsga::sqrt(x); ++c.transitions;
				if (nanb(x) || x < 0 ? !nanb(s) : x == 0 || infb(x) ? s != x : !sqrt_exact(x, s)) bad("sqrt", alg, x, str(s));
			}
			T r = dsga::inversesqrt(x); ++c.transitions;
			if (!rsqrt_ok(r, x)) bad("inversesqrt", alg, x, str(r));
			if (F_fast_inversesqrt::ok(x))
			{
				T q = dsga::fast_inversesqrt(x); ++c.transitions;
				if (!rsqrt_ok(q, x)) bad("fast_inversesqrt", alg, x, str(q));
			}
		}
	});
}
template <class T> void classes()
{
	namespace cx = dsga::cxcm;
	each<T>("classification", [](Counters &c, T x) {
		using U = bits_t<T>; U b = std::bit_cast<U>(x); constexpr int M = fpbits<T>::M; const U mag = b & ~(U(1) << (sizeof(T) * 8 - 1)), e = mag >> M, m = mag & ((U(1) << M) - 1), emax = (U(1) << (sizeof(T) * 8 - 1 - M)) - 1;
		const bool neg = b >> (sizeof(T) * 8 - 1);
		const int cls = e == emax ? (m ? FP_NAN : FP_INFINITE) : e ? FP_NORMAL : m ? FP_SUBNORMAL : FP_ZERO;
		for (int ce = 0; ce < 2; ++ce)
		{
			const char *alg = ce ? "compile-time" : "run-time"; Force f(ce);
			auto is = [&](const char *fn, long long got, long long want) { ++c.transitions; if (got != want) bad(fn, alg, x, strf("%lld, expected %lld", got, want)); };
			is("isnan", dsga::isnan(x), cls == FP_NAN); is("isinf", dsga::isinf(x), cls == FP_INFINITE);
			is("cxcm::isnan", cx::isnan(x), cls == FP_NAN); is("cxcm::isinf", cx::isinf(x), cls == FP_INFINITE);
			is("cxcm::fpclassify", cx::fpclassify(x), cls); is("cxcm::isnormal", cx::isnormal(x), cls == FP_NORMAL); is("cxcm::isfinite", cx::isfinite(x), cls != FP_NAN && cls != FP_INFINITE);
			is("cxcm::signbit", cx::signbit(x), neg);
			for (T y : { T(1), T(-1), -T(0), std::numeric_limits<T>::infinity() })
			{
				T r = cx::copysign(x, y); U want = mag | (std::bit_cast<U>(y) & (U(1) << (sizeof(T) * 8 - 1)));
				++c.transitions; if (std::bit_cast<U>(r) != want && !(cls == FP_NAN && nanb(r) && std::signbit(r) == std::signbit(y))) bad("cxcm::copysign", alg, x, str(r));
			}
			T a = dsga::abs(x), a2 = cx::fabs(x), want = std::bit_cast<T>(mag); c.transitions += 3;
			if (!same(a, want)) bad("abs", alg, x, str(a));
			if (!same(a2, want)) bad("cxcm::fabs", alg, x, str(a2));
			T s = dsga::sign(x); T ws = cls == FP_NAN || cls == FP_ZERO ? T(0) : neg ? T(-1) : T(1); if (s != ws) bad("sign", alg, x, str(s));
			// relaxed helpers used by the library itself
			if (std::abs(x) < T(1e9)) { T t = cx::relaxed::abs(x); ++c.transitions; if (!same(t, want)) bad("cxcm::relaxed::abs", alg, x, str(t)); }
		}
	});
}
template <class I> void int_classes()
{
	using L = std::numeric_limits<I>; u64 n = thorough && sizeof(I) == 4 ? 1ull << 32 : 1ull << 20;
	std::set<I> edge; for (int b = 0; b < (int)sizeof(I) * 8; ++b) for (int d = -2; d <= 2; ++d) { auto v = (std::make_unsigned_t<I>(1) << b) + d; edge.insert((I)v); edge.insert((I)(0 - v)); }
	std::vector<I> ed(edge.begin(), edge.end());
	parallel(n + ed.size(), [&](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		I x = i < n ? I(thorough && sizeof(I) == 4 ? i : i - n / 2) : ed[i - n]; ++c.states; ++c.traces; ++c.transitions;
		if (dsga::sign(x) != (x > 0 ? I(1) : x < 0 ? I(-1) : I(0))) bad("sign", "", x, str(dsga::sign(x)));
		if (x != L::min()) { I a = dsga::abs(x); if (a < 0 || (a != x && a != -x)) bad("abs", "", x, str(a)); if (a != dsga::cxcm::abs(x)) bad("cxcm::abs", "", x, str(dsga::cxcm::abs(x))); } } });
}
template <class T> void decompose()
{
	each<T>("modf, frexp, ldexp", [](Counters &c, T x) {
		T whole = T(77), frac = dsga::modf(x, whole), t = oracle_round(x, Rnd::trunc); ++c.transitions;
		if (!same(whole, t)) bad("modf", "whole part", x, str(whole));
		if (finite(x) && (!same(frac, T(x - t)) || (frac != 0 && std::signbit(frac) != std::signbit(x)) || T(whole + frac) != x || !(std::abs(frac) < 1))) bad("modf", "fraction", x, str(frac));
		T self = x, fr = dsga::modf(self, self); if (finite(x) && (!same(self, t) || !same(fr, T(x - t)))) bad("modf", "in place", x, str(fr));
		if (!finite(x)) return;
		int e = 12345; T m = dsga::frexp(x, e); c.transitions += 3;
		if (x == 0 ? m != 0 || e != 0 : !(std::abs(m) >= T(0.5) && std::abs(m) < 1 && std::signbit(m) == std::signbit(x))) bad("frexp", "fraction", x, strf("%s exponent %d", str(m).c_str(), e));
		T back = dsga::ldexp(m, e); if (back != x) bad("ldexp", "inverse of frexp", x, str(back));
		// the exponent is right if scaling by it in extended precision gives x
		if (x != 0 && std::scalbn((long double)m, e) != (long double)x) bad("frexp", "exponent", x, strf("%d", e));
		if (thorough || (std::bit_cast<bits_t<T>>(x) >> (sizeof(T) == 4 ? 12 : 40) & 15) == 5 || sizeof(T) == 8) for (int k : { 1, -1, 5, -30, 200, -200, 1100, -1100 })
		{
			T l = dsga::ldexp(x, k); long double r = std::scalbn((long double)x, k); ++c.transitions;
			if (!near_ulps(l, r, 0.5)) bad("ldexp", "scale", x, strf("k=%d: %s", k, str(l).c_str()));
		}
	});
	// mod over pairs
	auto g = unary_grid<T>(); std::vector<T> h = g; for (int i = 1; i <= (thorough ? 400 : 60); ++i) { h.push_back(T(i)); h.push_back(-T(i) / 8); h.push_back(T(i) * T(0.7)); }
	parallel(h.size() * h.size(), [&](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		T x = h[i % h.size()], y = h[i / h.size()], got = dsga::mod(x, y), want = F_mod::w(x, y); ++c.states; ++c.traces; ++c.transitions;
		if (!same(got, want)) bad("mod", "", x, strf("y=%s: %s, expected %s", str(y).c_str(), str(got).c_str(), str(want).c_str())); } });
}
template <class T> void bits()
{
	if constexpr (sizeof(T) == 4) parallel(1ull << (thorough ? 32 : 28), [](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		u32 b = thorough ? (u32)i : (u32)((i >> 14) << 18 | (i >> 13 & 1 ? 0x3ffff - (i & 0x1fff) : (i & 0x1fff))); ++c.states; ++c.traces; c.transitions += 6;
		float f = f32(b);
		if (dsga::floatBitsToUint(f) != b) bad("floatBitsToUint", "", f, strf("%x", dsga::floatBitsToUint(f)));
		if ((u32)dsga::floatBitsToInt(f) != b) bad("floatBitsToInt", "", f, strf("%x", dsga::floatBitsToInt(f)));
		if (std::bit_cast<u32>(dsga::uintBitsToFloat(b)) != b) bad("uintBitsToFloat", "", f, strf("%x", b));
		if (std::bit_cast<u32>(dsga::intBitsToFloat((int)b)) != b) bad("intBitsToFloat", "", f, strf("%x", b));
		u32 sw = b >> 24 | (b >> 8 & 0xff00) | (b << 8 & 0xff0000) | b << 24;
		if (dsga::byteswap(b) != sw || (u32)dsga::byteswap((int)b) != sw) bad("byteswap", "", b, strf("%x", dsga::byteswap(b))); } });
	else each<double>("64-bit patterns", [](Counters &c, double x) {
		u64 b = std::bit_cast<u64>(x); c.transitions += 7;
		if (dsga::doubleBitsToUlongLong(x) != b || (u64)dsga::doubleBitsToLongLong(x) != b) bad("doubleBits", "", x, "");
		if (std::bit_cast<u64>(dsga::ulongLongBitsToDouble(b)) != b || std::bit_cast<u64>(dsga::longLongBitsToDouble((long long)b)) != b) bad("BitsToDouble", "", x, "");
		u64 sw = 0; for (int i = 0; i < 8; ++i) sw |= (b >> (8 * i) & 255) << (56 - 8 * i);
		if (dsga::byteswap(b) != sw || (u64)dsga::byteswap((long long)b) != sw || dsga::byteswap((std::size_t)b) != sw) bad("byteswap", "", b, strf("%llx", dsga::byteswap(b))); });
}
template <class T> void transcendental()
{
	// dense grid: every exponent, 2^k mantissas, both signs
	const int k = thorough ? (sizeof(T) == 4 ? 18 : 15) : (sizeof(T) == 4 ? 13 : 10); constexpr int M = fpbits<T>::M; using U = bits_t<T>;
	const u64 n = u64(1) << (sizeof(T) * 8 - M + k);
	parallel(n, [&](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		T x = std::bit_cast<T>(U(U(i) << (M - k) | (i % 3 == 1 ? (U(1) << (M - k)) - 1 : i % 3 == 2 ? U(0x2AAAAAAAAAAAAAull) >> (k + 2) & ((U(1) << (M - k)) - 1) : 0)));
		++c.states; ++c.traces;
		auto one = [&](auto f) { using F = decltype(f); if (!F::ok(x)) return; ++c.transitions; T g = F::call(x); if (!F::eq(g, g, x)) bad(F::name, "", x, strf("%s, expected %s", str(g).c_str(), str((T)F::w(x)).c_str())); };
		one(F_radians{}); one(F_degrees{}); one(F_sin{}); one(F_cos{}); one(F_tan{}); one(F_asin{}); one(F_acos{}); one(F_atan{}); one(F_sinh{}); one(F_cosh{}); one(F_tanh{}); one(F_asinh{}); one(F_acosh{}); one(F_atanh{}); one(F_exp{}); one(F_log{}); one(F_exp2{}); one(F_log2{});
	} });
	std::vector<T> v = unary_grid<T>(); for (int i = -60; i <= 60; ++i) v.push_back(T(i) * T(0.37));
	parallel(v.size() * v.size(), [&](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		T x = v[i % v.size()], y = v[i / v.size()]; ++c.states; ++c.traces;
		if (F_atan2::ok(x, y)) { ++c.transitions; T g = dsga::atan(x, y); if (!F_atan2::eq(g, g, x, y)) bad("atan", "two arguments", x, strf("x=%s: %s", str(y).c_str(), str(g).c_str())); }
		if (F_pow::ok(x, y)) { ++c.transitions; T g = dsga::pow(x, y); if (!F_pow::eq(g, g, x, y)) bad("pow", "", x, strf("%s: %s", str(y).c_str(), str(g).c_str())); }
	} });
}
#ifdef MC_CONTROL_CE
// the functions with two algorithms: compile-time against run-time
template <class T> void two_algorithms()
{
	namespace cx = dsga::cxcm;
	each<T>("compile-time and run-time algorithm", [](Counters &c, T x) {
		auto both = [&](const char *fn, auto f) { T r = f(); T k; { Force on(true); k = f(); } ++c.transitions; if (!same(r, k)) bad(fn, "compile-time vs run-time", x, strf("%s at compile time, %s at run time", str(k).c_str(), str(r).c_str())); };
		both("trunc", [&] { return dsga::trunc(x); }); both("floor", [&] { return dsga::floor(x); }); both("ceil", [&] { return dsga::ceil(x); });
		both("round", [&] { return dsga::round(x); }); both("roundEven", [&] { return dsga::roundEven(x); }); both("fract", [&] { return dsga::fract(x); });
		{ both("sqrt", [&] { return dsga::sqrt(x); }); both("inversesqrt", [&] { return dsga::inversesqrt(x); }); if (finite(x)) both("length", [&] { return dsga::length(dsga::basic_vector<T, 2>(x, T(0))); }); }
		both("abs", [&] { return dsga::abs(x); }); both("sign", [&] { return dsga::sign(x); });
		both("mod", [&] { return dsga::mod(x, T(0.7)); }); both("modf", [&] { T w; T f = dsga::modf(x, w); return T(f + w); });
		both("smoothstep", [&] { return finite(x) ? dsga::smoothstep(T(-3), T(11), x) : T(0); }); both("step", [&] { return dsga::step(T(0.5), x); });
		both("min", [&] { return dsga::min(x, T(3)); }); both("max", [&] { return dsga::max(x, T(3)); }); both("clamp", [&] { return dsga::clamp(x, T(-1), T(5)); }); both("mix", [&] { return finite(x) ? dsga::mix(x, T(2), T(0.3)) : T(0); });
		both("degrees", [&] { return dsga::degrees(x); }); both("radians", [&] { return dsga::radians(x); });
		both("isnan/isinf", [&] { return T(dsga::isnan(x) + 2 * dsga::isinf(x)); });
		both("normalize", [&] { return finite(x) && std::abs(x) < T(1e15) && std::abs(x) > T(1e-15) ? dsga::normalize(dsga::basic_vector<T, 3>(x, T(2), T(-1)))[0] : T(0); });
		both("refract", [&] { return finite(x) ? dsga::refract(dsga::basic_vector<T, 2>(T(0.6), T(-0.8)), dsga::basic_vector<T, 2>(T(0), T(1)), std::abs(x) < 1 ? x : T(0.5))[0] : T(0); });
	});
	// fmod: dividend and divisor from a grid with all exponents; the quotient may be huge
	auto g = unary_grid<T>(); for (int e = -20; e <= 20; ++e) { g.push_back(std::ldexp(T(1.3), e)); g.push_back(-std::ldexp(T(1.9), e)); }
	for (int e = std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits; e < std::numeric_limits<T>::max_exponent; e += std::is_same_v<T, float> ? 3 : thorough ? 11 : 41) g.push_back(std::ldexp(T(1.1), e));
	parallel(g.size() * g.size(), [&](Counters &c, u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) {
		T x = g[i % g.size()], y = g[i / g.size()]; ++c.states; ++c.traces; c.transitions += 2;
		T r = cx::fmod(x, y), k, want = std::fmod(x, y); { Force on(true); k = cx::fmod(x, y); }
		if (!same(r, want) || !same(k, want)) bad("fmod", "compile-time vs run-time", x, strf("y=%s: %s at compile time, %s at run time, C library %s", str(y).c_str(), str(k).c_str(), str(r).c_str(), str(want).c_str()));
		T m1 = dsga::mod(x, y), m2; { Force on(true); m2 = dsga::mod(x, y); } if (!same(m1, m2)) bad("mod", "compile-time vs run-time", x, strf("y=%s: %s at compile time, %s at run time", str(y).c_str(), str(m2).c_str(), str(m1).c_str()));
	} });
}
#endif

int main(int argc, char **argv)
{
	init(argc, argv);
	using T = std::conditional_t<MC_T == 5, float, double>;
#if MC_S == 14
	two_algorithms<T>();
#elif MC_S == 15
	roots<T>();
#elif MC_S == 16
	classes<T>(); if constexpr (MC_T == 5) { int_classes<int>(); int_classes<long long>(); }
#elif MC_S == 17
	decompose<T>();
#elif MC_S == 19
	bits<T>();
#else
	transcendental<T>();
#endif
	sample(strf("%s: %s", tname<T>(), sizeof(T) == 4 ? (thorough ? "all 2^32 bit patterns" : "2^26 or more bit patterns: every sign, exponent and leading mantissa bits") : "lattice over every sign and exponent with structured mantissas"));
	return finish();
}
