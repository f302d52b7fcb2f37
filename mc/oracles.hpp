// Scalar oracles of the function families and the argument alphabets they are explored on.
#pragma once
#include "lift.hpp"

namespace mc
{
	template <class T> using bits_t = std::conditional_t<sizeof(T) == 4, u32, u64>;
	template <class T> bool nanb(T x) { if constexpr (std::is_floating_point_v<T>) { auto b = bits_t<T>(std::bit_cast<bits_t<T>>(x) << 1); return b > bits_t<T>(std::bit_cast<bits_t<T>>(std::numeric_limits<T>::infinity()) << 1); } else return false; }
	template <class T> bool infb(T x) { if constexpr (std::is_floating_point_v<T>) { auto b = bits_t<T>(std::bit_cast<bits_t<T>>(x) << 1); return b == bits_t<T>(std::bit_cast<bits_t<T>>(std::numeric_limits<T>::infinity()) << 1); } else return false; }
	template <class T> bool finite(T x) { return !nanb(x) && !infb(x); }
	template <class T> bool normal(T x) { return finite(x) && (x >= std::numeric_limits<T>::min() || x <= -std::numeric_limits<T>::min()); }
	// |got - want| within `ulps` units in the last place of want (type T), want given in extended precision
	template <class T> bool near_ulps(T got, long double want, double ulps)
	{
		if (want != want) return got != got;
		T w = (T)want;
		if (infb(w) || infb(got)) return w == got || (infb(got) != infb(w) && std::abs(infb(got) ? want : (long double)got) >= (long double)std::numeric_limits<T>::max() * (1 - 4 * std::numeric_limits<T>::epsilon()) && std::signbit(got) == std::signbit(want));
		int e; std::frexp(want, &e);
		long double ulp = std::ldexp(1.0L, std::max(e - std::numeric_limits<T>::digits, std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits));
		return std::abs((long double)got - want) <= ulps * ulp;
	}
	// is r the correctly rounded square root of x?  (x > 0 finite, exact integer arithmetic)
	template <class T> bool sqrt_exact(T x, T r)
	{
		if (!(r > 0) || !finite(r)) return false;
		constexpr int D = std::numeric_limits<T>::digits;
		int ex, er; auto m = [](T v, int &e) { T f = std::frexp(v, &e); e -= D; return (unsigned __int128)(u64)std::ldexp(f, D); };
		unsigned __int128 mx = m(x, ex), mr = m(r, er);
		// (2mr-1)^2 2^(2er-2) <= x <= (2mr+1)^2 2^(2er-2)   (ties cannot occur)
		int sh = ex - (2 * er - 2);
		if (sh < 0 || sh > 126 - D) return false;
		unsigned __int128 X = mx << sh, lo = 2 * mr - 1, hi = 2 * mr + 1;
		// just above a power of two the lower neighbour is half as far; a correctly rounded root still satisfies the wider test except by less than that
		if (mr == ((unsigned __int128)1 << (D - 1))) { if (sh > 124 - D) return false; return (X << 2) >= (4 * mr - 1) * (4 * mr - 1) && X <= hi * hi; }
		return X >= lo * lo && X <= hi * hi;
	}
	template <class T> std::vector<T> unary_grid()
	{
		auto v = fp_specials<T>(true);
		for (int i = -40; i <= 40; ++i) { v.push_back(T(i) * T(0.25) + T(0.01)); }
		for (int e = std::numeric_limits<T>::min_exponent; e < std::numeric_limits<T>::max_exponent; e += std::is_same_v<T, float> ? 7 : 53) { v.push_back(std::ldexp(T(1.25), e)); v.push_back(-std::ldexp(T(1.75), e)); }
		return v;
	}
	template <class T> std::vector<T> small_fp(bool nan)
	{
		std::vector<T> v { T(0), T(1), T(-1), T(0.25), T(2), T(-2.5), T(3), T(0.1), T(1e10), T(-0.75), -T(0), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity() };
		if (nan) v.push_back(std::numeric_limits<T>::quiet_NaN());
		return v;
	}

#define MC_F1(id) struct F_##id : F1<F_##id> { static constexpr const char *name = #id; template <class A> static auto call(A &&a) { return dsga::id(a); } template <class T> static auto w(T x)
#define MC_F2(id) struct F_##id : F2<F_##id> { static constexpr const char *name = #id; template <class A, class B> static auto call(A &&a, B &&b) { return dsga::id(a, b); } template <class T, class U> static auto w(T x, U y)
#define MC_F3(id) struct F_##id : F3<F_##id> { static constexpr const char *name = #id; template <class A, class B, class C> static auto call(A &&a, B &&b, C &&c) { return dsga::id(a, b, c); } template <class T, class U, class V> static auto w(T x, U y, V z)
	// defaults: exact agreement, whole domain
	template <class S> struct F1 { template <class T> static auto want(T x) { return S::w(x); } template <class T> static bool ok(T) { return true; } template <class R, class T> static bool eq(R g, R w, T) { return same(g, w); } };
	template <class S> struct F2 { template <class T, class U> static auto want(T x, U y) { return S::w(x, y); } template <class T, class U> static bool ok(T, U) { return true; } template <class R, class T, class U> static bool eq(R g, R w, T, U) { return same(g, w); } };
	template <class S> struct F3 { template <class T, class U, class V> static auto want(T x, U y, V z) { return S::w(x, y, z); } template <class T, class U, class V> static bool ok(T, U, V) { return true; } template <class R, class T, class U, class V> static bool eq(R g, R w, T, U, V) { return same(g, w); } };

	// ---- rounding ------------------------------------------------------------------------------------------
	MC_F1(trunc) { return oracle_round(x, Rnd::trunc); } };
	MC_F1(floor) { return oracle_round(x, Rnd::floor); } };
	MC_F1(ceil) { return oracle_round(x, Rnd::ceil); } };
	MC_F1(round) { return oracle_round(x, Rnd::away); } };
	MC_F1(roundEven) { return oracle_round(x, Rnd::even); } };
	MC_F1(fract) { return oracle_fract(x); } template <class T> static bool ok(T x) { return finite(x); } };
	// ---- classification ---------------------------------------------------------------------------------------
	MC_F1(isnan) { return nanb(x); } };
	MC_F1(isinf) { return infb(x); } };
	MC_F1(abs) { if constexpr (std::is_floating_point_v<T>) return std::bit_cast<T>(bits_t<T>(std::bit_cast<bits_t<T>>(x) & (bits_t<T>(-1) >> 1))); else return x < 0 ? T(-x) : x; }
		template <class T> static bool ok(T x) { return std::is_floating_point_v<T> || x != std::numeric_limits<T>::min(); } };
	MC_F1(sign) { return x > 0 ? T(1) : x < 0 ? T(-1) : T(0); } };
	// ---- roots ------------------------------------------------------------------------------------------------
	MC_F1(sqrt) { if (x < 0 || nanb(x)) return std::numeric_limits<T>::quiet_NaN(); return x; }
		template <class R, class T> static bool eq(R g, R w, T x) { if (nanb(w)) return nanb(g); if (x == 0 || infb(x)) return g == x; return sqrt_exact(x, g); } };
	template <class T> bool rsqrt_ok(T g, T x)
	{
		if (nanb(x) || x < 0) return nanb(g);
		if (x == 0) return infb(g);
		if (infb(x)) return g == 0;
		return near_ulps(g, 1.0L / std::sqrt((long double)x), 3);
	}
	MC_F1(inversesqrt) { return x; } template <class R, class T> static bool eq(R g, R, T x) { return rsqrt_ok(g, x); } };
	MC_F1(fast_inversesqrt) { return x; } template <class T> static bool ok(T x) { return nanb(x) || infb(x) || x == 0 || normal(x); } template <class R, class T> static bool eq(R g, R, T x) { return rsqrt_ok(g, x); } };
	// ---- trigonometry and exponentials: extended precision reference, a few ulps; NaN outside the domain, poles infinite -----------------------------------
	template <class T> constexpr double ULPS = 4;
#define MC_L1(id, ref, dom) struct F_##id : F1<F_##id> { static constexpr const char *name = #id; template <class A> static auto call(A &&a) { return dsga::id(a); } \
		template <class T> static T w(T x_) { long double x = x_; return (T)(ref); } template <class T> static bool ok(T x) { return dom; } \
		template <class R, class T> static bool eq(R g, R, T x_) { long double x = x_; return near_ulps<R>(g, ref, ULPS<R>); } };
	constexpr long double PI = 3.14159265358979323846264338327950288L;
	MC_L1(radians, x *(PI / 180), true) MC_L1(degrees, x *(180 / PI), true)
	MC_L1(sin, std::sin(x), true) MC_L1(cos, std::cos(x), true) MC_L1(tan, std::tan(x), true)
	MC_L1(asin, std::asin(x), true) MC_L1(acos, std::acos(x), true)
	MC_L1(sinh, std::sinh(x), true) MC_L1(cosh, std::cosh(x), true) MC_L1(tanh, std::tanh(x), true) MC_L1(asinh, std::asinh(x), true) MC_L1(acosh, std::acosh(x), true) MC_L1(atanh, std::atanh(x), true)
	MC_L1(exp, std::exp(x), true) MC_L1(log, std::log(x), true) MC_L1(exp2, std::exp2(x), true) MC_L1(log2, std::log2(x), true)
	struct F_atan : F1<F_atan> { static constexpr const char *name = "atan"; template <class A> static auto call(A &&a) { return dsga::atan(a); } template <class T> static T w(T x) { return (T)std::atan((long double)x); } template <class R, class T> static bool eq(R g, R, T x) { return near_ulps<R>(g, std::atan((long double)x), ULPS<R>); } };
	struct F_atan2 : F2<F_atan2> { static constexpr const char *name = "atan"; template <class A, class B> static auto call(A &&a, B &&b) { return dsga::atan(a, b); } template <class T, class U> static T w(T y, U x) { return (T)std::atan2((long double)y, (long double)x); }
		template <class T, class U> static bool ok(T y, U x) { return !(y == 0 && x == 0); }
		template <class R, class T, class U> static bool eq(R g, R, T y, U x) { return near_ulps<R>(g, std::atan2((long double)y, (long double)x), ULPS<R>); } };
	struct F_pow : F2<F_pow> { static constexpr const char *name = "pow"; template <class A, class B> static auto call(A &&a, B &&b) { return dsga::pow(a, b); } template <class T, class U> static T w(T x, U y) { return (T)std::pow((long double)x, (long double)y); }
		template <class T, class U> static bool ok(T x, U y) { return x >= 0 && !(x == 0 && y <= 0) && !(x == 1 && nanb(y)); }
		template <class R, class T, class U> static bool eq(R g, R, T x, U y) { return near_ulps<R>(g, std::pow((long double)x, (long double)y), ULPS<R>); } };
	MC_F3(fma) { return std::fma(x, y, z); } };
	// ---- decomposition ------------------------------------------------------------------------------------------
	MC_F2(mod) { volatile T q = x / y; volatile T f = oracle_round((T)q, Rnd::floor); volatile T p = y * f; volatile T r = x - p; return (T)r; } };
	MC_F2(ldexp) { return (T)std::scalbn(x, (int)std::clamp<long long>(y, -10000, 10000)); } };
	// ---- common -------------------------------------------------------------------------------------------------
	MC_F2(min) { return y < x ? y : x; } template <class T, class U> static bool ok(T x, U y) { return !nanb(x) && !nanb(y); } };
	MC_F2(max) { return x < y ? y : x; } template <class T, class U> static bool ok(T x, U y) { return !nanb(x) && !nanb(y); } };
	MC_F3(clamp) { T m = x < y ? y : x; return m > z ? z : m; } template <class T> static bool ok(T x, T y, T z) { return !nanb(x) && y <= z; } };
	MC_F2(step) { return y < x ? T(0) : T(1); } template <class T, class U> static bool ok(T x, U y) { return !nanb(x) && !nanb(y); } };
	struct F_smoothstep : F3<F_smoothstep> { static constexpr const char *name = "smoothstep"; template <class A, class B, class C> static auto call(A &&a, B &&b, C &&c) { return dsga::smoothstep(a, b, c); }
		template <class T> static bool ok(T a, T b, T x) { return finite(a) && finite(b) && finite(x) && a < b && finite(b - a) && finite(x - a) && b - a >= std::numeric_limits<T>::min(); }
		static long double ref(long double a, long double b, long double x) { long double t = (x - a) / (b - a); t = t < 0 ? 0 : t > 1 ? 1 : t; return t * t * (3 - 2 * t); }
		template <class T> static T w(T a, T b, T x) { return (T)ref(a, b, x); }
		template <class T> static bool eq(T g, T, T a, T b, T x)
		{
			if (x <= a) return g == 0;
			if (x >= b) return g == 1;
			long double r = ref(a, b, x); return std::abs(g - r) <= 24 * std::numeric_limits<T>::epsilon() * r + 4 * (long double)std::numeric_limits<T>::min();
		} };
	struct F_mix : F3<F_mix> { static constexpr const char *name = "mix"; template <class A, class B, class C> static auto call(A &&a, B &&b, C &&c) { return dsga::mix(a, b, c); }
		template <class T> static bool ok(T x, T y, T a) { return finite(x) && finite(y) && finite(a) && std::abs((long double)x) < std::numeric_limits<T>::max() / 4 && std::abs((long double)y) < std::numeric_limits<T>::max() / 4 && (std::abs(a) + 1) * (std::abs((long double)x) + std::abs((long double)y)) < std::numeric_limits<T>::max() / 4; }
		template <class T> static T w(T x, T y, T a) { return (T)((long double)x * (1 - (long double)a) + (long double)y * a); }
		template <class T> static bool eq(T g, T, T x, T y, T a)
		{
			if (a == 0) return g == x;
			if (a == 1) return g == y;
			long double r = (long double)x * (1 - (long double)a) + (long double)y * a, scale = (std::abs((long double)a) + 1) * (std::abs((long double)x) + std::abs((long double)y));
			return std::abs(g - r) <= 8 * std::numeric_limits<T>::epsilon() * scale + 4 * (long double)std::numeric_limits<T>::min();
		} };
	struct F_mixb : F3<F_mixb> { static constexpr const char *name = "mix"; template <class A, class B, class C> static auto call(A &&a, B &&b, C &&c) { return dsga::mix(a, b, c); }
		template <class T> static T w(T x, T y, bool a) { return a ? y : x; } template <class T> static bool eq(T g, T w_, T, T, bool) { return same_bits(g, w_); } };
	// ---- bits -------------------------------------------------------------------------------------------------------
	template <class To, class From> To rebits(From x) { static_assert(sizeof(To) == sizeof(From)); To r; unsigned char b[sizeof(To)]; memcpy(b, &x, sizeof b); memcpy(&r, b, sizeof b); return r; }
	template <class T> bool bits_eq(T a, T b) { return !memcmp(&a, &b, sizeof a); }
#define MC_B1(id, From, To) struct F_##id : F1<F_##id> { static constexpr const char *name = #id; template <class A> static auto call(A &&a) { return dsga::id(a); } static To w(From x) { return rebits<To>(x); } static bool eq(To g, To w_, From) { return bits_eq(g, w_); } };
	MC_B1(floatBitsToInt, float, int) MC_B1(floatBitsToUint, float, unsigned) MC_B1(doubleBitsToLongLong, double, long long) MC_B1(doubleBitsToUlongLong, double, unsigned long long)
	MC_B1(intBitsToFloat, int, float) MC_B1(uintBitsToFloat, unsigned, float) MC_B1(longLongBitsToDouble, long long, double) MC_B1(ulongLongBitsToDouble, unsigned long long, double)
	MC_F1(byteswap) { T r; unsigned char a[sizeof(T)], b[sizeof(T)]; memcpy(a, &x, sizeof a); for (unsigned i = 0; i < sizeof a; ++i) b[i] = a[sizeof a - 1 - i]; memcpy(&r, b, sizeof b); return r; } };
}
