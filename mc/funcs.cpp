// The lifted functions of one family (-DMC_G=13,15,...) for every operand kind; component type -DMC_T
#include "oracles.hpp"
using namespace mc;
using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
constexpr int G = MC_G;

template <class F, class A> void unary(const std::vector<std::tuple<A>> &t)
{
	static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F, false, K>(types<A>{}, t); lift<F, true, K>(types<A>{}, t); });
	lift<F, false, K_SCALAR>(types<A>{}, t);
}
template <class F, class A> void unary(const std::vector<A> &a) { unary<F, A>(product<F, A>(a)); }
// all pairs of kinds, the const ones for a diagonal
template <class F, class A, class B> void binary(const std::vector<std::tuple<A, B>> &t)
{
	static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { lift<F, (K + 3 * K2) % 8 == 5, K, K2>(types<A, B>{}, t); }); });
	lift<F, false, K_SCALAR, K_SCALAR>(types<A, B>{}, t);
}
template <class F, class A, class B> void binary_vs(const std::vector<std::tuple<A, B>> &t) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F, K % 2 == 1, K, K_SCALAR>(types<A, B>{}, t); }); }
template <class F, class A, class B> void binary_sv(const std::vector<std::tuple<A, B>> &t) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F, K % 2 == 1, K_SCALAR, K>(types<A, B>{}, t); }); }
// three arguments: every pair of kinds in every pair of positions
template <class F, class A, class B, class C> void ternary(const std::vector<std::tuple<A, B, C>> &t)
{
	static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { lift<F, (K + 3 * K2) % 8 == 5, K, K2, (K + K2) % NKINDS>(types<A, B, C>{}, t); }); });
	lift<F, false, K_SCALAR, K_SCALAR, K_SCALAR>(types<A, B, C>{}, t);
}
template <class X> void run()
{
	constexpr bool fp = std::is_floating_point_v<X>;
	if constexpr (G == 13) { auto g = unary_grid<X>(); unary<F_trunc>(g); unary<F_floor>(g); unary<F_ceil>(g); unary<F_round>(g); unary<F_roundEven>(g); unary<F_fract>(g); }
	if constexpr (G == 15) { auto g = unary_grid<X>(); unary<F_sqrt>(g); unary<F_inversesqrt>(g); unary<F_fast_inversesqrt>(g); }
	if constexpr (G == 16)
	{
		if constexpr (fp) { auto g = unary_grid<X>(); g.push_back(std::numeric_limits<X>::signaling_NaN()); g.push_back(-std::numeric_limits<X>::quiet_NaN()); unary<F_isnan>(g); unary<F_isinf>(g); unary<F_abs>(g); unary<F_sign>(g); }
		else { auto a = alphabet<X>(); a.push_back(std::numeric_limits<X>::min() + 1); a.push_back(std::numeric_limits<X>::min() + 2); a.push_back(X(-16777217)); unary<F_abs>(a); unary<F_sign>(a); }
	}
	if constexpr (G == 17)
	{
		auto g = fp_specials<X>(true); auto t = product<F_mod, X, X>(g, g);
		binary<F_mod, X, X>(t); binary_vs<F_mod, X, X>(t);
		std::vector<int> ex { 0, 1, -1, 2, -2, 10, -10, 52, -53, 100, -100, 127, 128, -126, -149, 1000, -1000, 1023, 1024, -1074, 2000, -2000, 100000, -100000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() };
		auto t2 = product<F_ldexp, X, int>(unary_grid<X>(), ex); if (!thorough) { decltype(t2) h; for (std::size_t i = 0; i < t2.size(); i += 3) h.push_back(t2[i]); t2 = h; }
		binary<F_ldexp, X, int>(t2);
	}
	if constexpr (G == 18)
	{
		std::vector<X> a = [] { if constexpr (fp) { auto v = fp_specials<X>(true); v.resize(v.size()); return v; } else return alphabet<X>(); }();
		std::vector<X> s = [] { if constexpr (fp) return small_fp<X>(false); else { auto v = alphabet<X>(); v.resize(13); return v; } }();
		auto t2 = product<F_min, X, X>(a, a);
		binary<F_min, X, X>(t2); binary_vs<F_min, X, X>(t2); binary<F_max, X, X>(t2); binary_vs<F_max, X, X>(t2);
		auto t3 = product<F_clamp, X, X, X>(s, s, s);
		ternary<F_clamp, X, X, X>(t3); static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F_clamp, K % 2 == 0, K, K_SCALAR, K_SCALAR>(types<X, X, X>{}, t3); });
		auto mb = product<F_mixb, X, X, bool>(s, s, std::vector<bool>{ false, true });
		ternary<F_mixb, X, X, bool>(mb);
		if constexpr (fp)
		{
			binary<F_step, X, X>(t2); binary_sv<F_step, X, X>(t2);
			std::vector<X> e { X(0), X(1), X(-1), X(2), X(0.25), X(-2.5), X(1e5), X(-3e4), X(0.1), X(7), X(0.50001), X(1e-3), X(-0.75), X(3.5) };
			auto ss = product<F_smoothstep, X, X, X>(e, e, e);
			ternary<F_smoothstep, X, X, X>(ss); static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F_smoothstep, K % 2 == 0, K_SCALAR, K_SCALAR, K>(types<X, X, X>{}, ss); });
			auto e2 = e; e2.push_back(X(1e20)); e2.push_back(-X(1e20)); e2.push_back(std::numeric_limits<X>::min());
			auto mx = product<F_mix, X, X, X>(e2, e2, e);
			ternary<F_mix, X, X, X>(mx); static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { lift<F_mix, K % 2 == 0, K, (K * 3 + 1) % NKINDS, K_SCALAR>(types<X, X, X>{}, mx); });
		}
	}
	if constexpr (G == 19)
	{
		auto all_bytes = []<class I>(I) { std::vector<I> v; using U = std::make_unsigned_t<I>; for (unsigned b = 0; b < sizeof(I); ++b) for (int x = 0; x < 256; x += thorough ? 1 : 5) { v.push_back(I(U(x) << (8 * b))); v.push_back(I(U(0x0123456789abcdefull) ^ (U(x) << (8 * b)))); } return v; };
		if constexpr (fp)
		{
			using I = bits_t<X>; std::vector<X> v; for (I b : all_bytes(I{})) v.push_back(std::bit_cast<X>(b)); for (X x : fp_specials<X>(true)) v.push_back(x); v.push_back(std::numeric_limits<X>::signaling_NaN());
			if constexpr (sizeof(X) == 4) { unary<F_floatBitsToInt>(v); unary<F_floatBitsToUint>(v); } else { unary<F_doubleBitsToLongLong>(v); unary<F_doubleBitsToUlongLong>(v); }
		}
		else
		{
			auto v = all_bytes(X{}); for (X x : alphabet<X>()) v.push_back(x);
			unary<F_byteswap>(v);
			if constexpr (std::is_same_v<X, int>) unary<F_intBitsToFloat>(v);
			if constexpr (std::is_same_v<X, unsigned>) unary<F_uintBitsToFloat>(v);
			if constexpr (std::is_same_v<X, long long>) unary<F_longLongBitsToDouble>(v);
			if constexpr (std::is_same_v<X, unsigned long long>) unary<F_ulongLongBitsToDouble>(v);
		}
	}
	if constexpr (G == 20)
	{
		auto g = unary_grid<X>();
		unary<F_radians>(g); unary<F_degrees>(g); unary<F_sin>(g); unary<F_cos>(g); unary<F_tan>(g); unary<F_asin>(g); unary<F_acos>(g); unary<F_atan>(g); unary<F_sinh>(g); unary<F_cosh>(g); unary<F_tanh>(g);
		unary<F_asinh>(g); unary<F_acosh>(g); unary<F_atanh>(g); unary<F_exp>(g); unary<F_log>(g); unary<F_exp2>(g); unary<F_log2>(g);
		auto s = small_fp<X>(false); for (X x : { X(0.5), X(7), X(-7), X(1.5), X(33), X(-33), X(100.25) }) s.push_back(x);
		binary<F_atan2, X, X>(product<F_atan2, X, X>(s, s)); binary<F_pow, X, X>(product<F_pow, X, X>(s, s));
		auto s3 = small_fp<X>(true); for (X x : { X(1) + std::numeric_limits<X>::epsilon(), X(1) - std::numeric_limits<X>::epsilon(), X(16777215) }) s3.push_back(x);
		ternary<F_fma, X, X, X>(product<F_fma, X, X, X>(s3, s3, s3));
	}
	sample(strf("family %d, type %s: all kinds of every argument, lengths 1-4, every tuple of the alphabet in every lane", G, tname<X>()));
}

int main(int argc, char **argv)
{
	init(argc, argv);
	run<T>();
	return finish();
}
