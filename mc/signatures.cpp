// P37: which operands each operator and function accepts, against the signatures of docs/API.md.  -DMC_OP=0..9 binary operators, -DMC_ASG=0..9 compound assignment, -DMC_UN, -DMC_BIN=0..3 with -DMC_HALF=0 and 1, -DMC_TER, -DMC_MAT, -DMC_SCALAR
#include "kinds.hpp"
using namespace mc;
static Counters C_;
static void step(u64 n = 1) { C_.states += n; C_.transitions += n; C_.traces += n; }
using T8 = std::tuple<bool, int, unsigned, long long, unsigned long long, std::size_t, float, double>; template <int I> using T_ = std::tuple_element_t<I, T8>;
enum { b_, i_, u_, ll_, ull_, z_, f_, d_ };
static const char *tn[] = { "bool", "int", "unsigned", "long long", "unsigned long long", "size_t", "float", "double" };
template <int I, int C> using V = dsga::basic_vector<T_<I>, C>;
template <int I, int C> using VR = std::conditional_t<C == 1, T_<I>, V<I, C>>;   // results of length 1 are scalars
template <int I> using Extra = std::tuple_element_t<I, std::tuple<char, short, unsigned short, long, long double>>;
static bool integral(int t) { return t >= i_ && t <= z_; }
static bool floating(int t) { return t >= f_; }
static bool nonbool(int t) { return t != b_; }
static bool signed_(int t) { return t == i_ || t == ll_ || floating(t); }
static int bits(int t) { return t == i_ || t == u_ || t == f_ ? 32 : 64; }
static int common(int a, int b)   // the usual arithmetic conversions of types other than bool
{
	if (a == b) return a; if (a == d_ || b == d_) return d_; if (a == f_ || b == f_) return f_;
	auto sgn = [](int t) { return t == i_ || t == ll_; }; auto rank = [](int t) { return t == ll_ || t == ull_ ? 3 : t == z_ ? 2 : 1; };
	if (sgn(a) == sgn(b)) return rank(a) > rank(b) ? a : b;
	const int s = sgn(a) ? a : b, q = sgn(a) ? b : a; if (rank(q) >= rank(s)) return q; if (bits(s) > bits(q)) return s; return s == ll_ ? ull_ : u_;
}
static bool conv(int from, int to) { return nonbool(from) && nonbool(to) && common(from, to) == to; }
static bool either(int a, int b) { return conv(a, b) || conv(b, a); }
static std::string vn(int t, int c) { return strf("vector%d<%s>", c, tn[t]); }
enum { NO, YES, THROWS, OTHER };   // not accepted, accepted, accepted but may throw, accepted with another result type
static void want(bool ok, int got, const std::string &what)
{
	step(); if (ok && got == NO) fail(what, "is not accepted"); else if (!ok && got != NO) fail(what, "is accepted"); else if (ok && got == THROWS) fail(what, "is not noexcept"); else if (ok && got == OTHER) fail(what, "has another result type");
}
struct any_result {}; template <class A, class R> constexpr bool is_length1 = false; template <class R> constexpr bool is_length1<dsga::basic_vector<R, 1>, R> = true;   // frexp of length 1
template <class R, class L, class... A> constexpr char ask()
{
	if constexpr (!std::is_invocable_v<L, A...>) return NO;
	else if constexpr (!std::is_same_v<R, any_result> && !std::is_same_v<std::invoke_result_t<L, A...>, R> && !is_length1<std::invoke_result_t<L, A...>, R>) return OTHER;
	else if constexpr (!std::is_nothrow_invocable_v<L, A...>) return THROWS; else return YES;
}
#define FN(...) noexcept(noexcept(__VA_ARGS__)) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }

#if defined(MC_OP) || defined(MC_ASG)
#define LIST(X) X(+, 0) X(-, 0) X(*, 0) X(/, 0) X(%, 1) X(<<, 1) X(>>, 1) X(&, 2) X(|, 2) X(^, 2)
static bool pair_ok(int k, int a, int b) { return k == 0 ? nonbool(a) && nonbool(b) : k == 1 ? integral(a) && integral(b) : integral(a) && integral(b) && bits(a) == bits(b); }
template <class L> void binary(L, const char *op, int k)
{
	static_for<16>([&](auto cc) {
		enum : int { C1 = decltype(cc)::value / 4 + 1, C2 = decltype(cc)::value % 4 + 1 };
		static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, const V<Q / 8, C1> &, const V<Q % 8, C2> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const int a = q / 8, b = q % 8; const bool ok = pair_ok(k, a, b) && either(a, b) && (C1 == C2 || C1 == 1 || C2 == 1); if (ok || C1 > 1 || C2 > 1) want(ok, t[q], vn(a, C1) + " " + op + " " + vn(b, C2)); }
	});
	static_for<4>([&](auto c_) {
		enum : int { C = decltype(c_)::value + 1 };
		static constexpr auto r = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, const V<Q / 8, C> &, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{}); static constexpr auto l = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, T_<Q % 8>, const V<Q / 8, C> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const int a = q / 8, b = q % 8; const bool ok = pair_ok(k, a, b) && either(a, b); if (ok || C > 1) { want(ok, r[q], vn(a, C) + " " + op + " " + tn[b]); want(ok, l[q], std::string(tn[b]) + " " + op + " " + vn(a, C)); } }
		if constexpr (C > 1)
		{
			static constexpr auto e = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 80>{ (Q < 40 ? ask<any_result, L, const V<Q % 8, C> &, Extra<Q / 8 % 5>>() : ask<any_result, L, Extra<Q / 8 % 5>, const V<Q % 8, C> &>())... }; }(std::make_index_sequence<80>{});
			for (int q = 0; q < 80; ++q) want(false, e[q], vn(q % 8, C) + " " + op + strf(" scalar of no component type (%d)", q / 8));
		}
	});
}
template <class L> void assign(L, const char *op, int k)
{
	static_for<16>([&](auto cc) {
		enum : int { C1 = decltype(cc)::value / 4 + 1, C2 = decltype(cc)::value % 4 + 1 };
		static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, V<Q / 8, C1> &, const V<Q % 8, C2> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const int a = q / 8, b = q % 8; want(pair_ok(k, a, b) && conv(b, a) && (C1 == C2 || C2 == 1), t[q], vn(a, C1) + " " + op + "= " + vn(b, C2)); }
		if constexpr (C1 == C2)
		{
			static constexpr auto n = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 16>{ (Q < 8 ? ask<any_result, L, const V<Q % 8, C1> &, const V<Q % 8, C2> &>() : ask<any_result, L, V<Q % 8, C1>, const V<Q % 8, C2> &>())... }; }(std::make_index_sequence<16>{});
			for (int q = 0; q < 16; ++q) want(false, n[q], (q < 8 ? "const " : "temporary ") + vn(q % 8, C1) + " " + op + "=");
		}
	});
	static_for<4>([&](auto c_) {
		enum : int { C = decltype(c_)::value + 1 };
		static constexpr auto r = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, V<Q / 8, C> &, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{}); static constexpr auto e = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 40>{ ask<any_result, L, V<Q % 8, C> &, Extra<Q / 8>>()... }; }(std::make_index_sequence<40>{});
		for (int q = 0; q < 64; ++q) { const int a = q / 8, b = q % 8; want(pair_ok(k, a, b) && conv(b, a), r[q], vn(a, C) + " " + op + "= " + tn[b]); } for (int q = 0; q < 40; ++q) want(false, e[q], vn(q % 8, C) + " " + op + strf("= scalar of no component type (%d)", q / 8));
	});
}
static void run()
{
	int n = 0;
#ifdef MC_OP
#define X(op, k) if constexpr (MC_OP == __COUNTER__ - BASE) binary([](auto &&a, auto &&b) FN(std::forward<decltype(a)>(a) op std::forward<decltype(b)>(b)), #op, k);
#else
#define X(op, k) if constexpr (MC_ASG == __COUNTER__ - BASE) assign([](auto &&a, auto &&b) FN(std::forward<decltype(a)>(a) op##= std::forward<decltype(b)>(b)), #op, k);
#endif
	constexpr int BASE = __COUNTER__ + 1; (void)n;
	auto go = [&](auto) { LIST(X) }; go(0);
	sample("all 64 pairs of component types x 16 pairs of lengths, scalars on either side, types that are no component type, const and temporary left sides");
}
#endif

#ifdef MC_UN
template <class R> struct same_;   // result: a function (component index, length) -> type
template <int I, int C> struct R_same { using type = VR<I, C>; };
template <int I, int C> struct R_comp { using type = T_<I>; };
template <int I, int C> struct R_bool { using type = bool; };
template <int I, int C> struct R_bvec { using type = VR<b_, C>; };
template <int Q> struct R_to { template <int I, int C> struct R { using type = VR<Q, C>; }; };
template <template <int, int> class R, class L, class P> void unary(L, const char *name, P ok, bool len1 = true)
{
	static_for<4>([&](auto c_) {
		enum : int { C = decltype(c_)::value + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 16>{ ask<typename R<Q % 8, C>::type, L, std::conditional_t<Q < 8, const V<Q % 8, C> &, V<Q % 8, C>>>()... }; }(std::make_index_sequence<16>{});
		for (int q = 0; q < 16; ++q) if (ok(q % 8, C) || C > 1 || len1) want(ok(q % 8, C), t[q], std::string(name) + "(" + vn(q % 8, C) + ")");
	});
}
static void run()
{
#define U(name, R, ok, ...) unary<R>([](auto &&a) FN(dsga::name(std::forward<decltype(a)>(a))), #name, [](int t, int c) { (void)c; return ok; }, ##__VA_ARGS__);
	U(radians, R_same, floating(t)) U(degrees, R_same, floating(t)) U(sin, R_same, floating(t)) U(cos, R_same, floating(t)) U(tan, R_same, floating(t)) U(asin, R_same, floating(t)) U(acos, R_same, floating(t)) U(atan, R_same, floating(t)) U(sinh, R_same, floating(t)) U(cosh, R_same, floating(t)) U(tanh, R_same, floating(t)) U(asinh, R_same, floating(t)) U(acosh, R_same, floating(t)) U(atanh, R_same, floating(t))
	U(exp, R_same, floating(t)) U(log, R_same, floating(t)) U(exp2, R_same, floating(t)) U(log2, R_same, floating(t)) U(sqrt, R_same, floating(t)) U(inversesqrt, R_same, floating(t)) U(fast_inversesqrt, R_same, floating(t))
	U(abs, R_same, signed_(t)) U(sign, R_same, signed_(t)) U(floor, R_same, floating(t)) U(trunc, R_same, floating(t)) U(round, R_same, floating(t)) U(roundEven, R_same, floating(t)) U(ceil, R_same, floating(t)) U(fract, R_same, floating(t)) U(isnan, R_bvec, floating(t)) U(isinf, R_bvec, floating(t))
	U(floatBitsToInt, R_to<i_>::R, t == f_, false) U(floatBitsToUint, R_to<u_>::R, t == f_, false) U(doubleBitsToLongLong, R_to<ll_>::R, t == d_, false) U(doubleBitsToUlongLong, R_to<ull_>::R, t == d_, false) U(intBitsToFloat, R_to<f_>::R, t == i_, false) U(uintBitsToFloat, R_to<f_>::R, t == u_, false) U(longLongBitsToDouble, R_to<d_>::R, t == ll_, false) U(ulongLongBitsToDouble, R_to<d_>::R, t == ull_, false) U(byteswap, R_same, integral(t))
	U(length, R_comp, floating(t)) U(normalize, R_same, floating(t) && c > 1)
	U(any, R_bool, t == b_, false) U(all, R_bool, t == b_, false) U(none, R_bool, t == b_, false) U(compNot, R_bvec, t == b_, false)
	unary<R_same>([](auto &&a) FN(+a), "+", [](int t, int) { return nonbool(t); }, false); unary<R_same>([](auto &&a) FN(-a), "-", [](int t, int) { return nonbool(t); }, false); unary<R_same>([](auto &&a) FN(~a), "~", [](int t, int) { return integral(t); }, false);
	// increments: lvalues only
	auto inc = [](auto l, const char *name) {
		static_for<4>([&](auto c_) { enum : int { C = decltype(c_)::value + 1 }; using L = decltype(l); static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 24>{ (Q < 8 ? ask<any_result, L, V<Q % 8, C> &>() : Q < 16 ? ask<any_result, L, const V<Q % 8, C> &>() : ask<any_result, L, V<Q % 8, C>>())... }; }(std::make_index_sequence<24>{});
			for (int q = 0; q < 24; ++q) want(q < 8 && nonbool(q), t[q], std::string(name) + " " + (q < 8 ? "" : q < 16 ? "const " : "temporary ") + vn(q % 8, C)); });
	};
	inc([](auto &&a) FN(++std::forward<decltype(a)>(a)), "++x"); inc([](auto &&a) FN(std::forward<decltype(a)>(a)++), "x++"); inc([](auto &&a) FN(--std::forward<decltype(a)>(a)), "--x"); inc([](auto &&a) FN(std::forward<decltype(a)>(a)--), "x--");
	// matrices are made of the functions' results: cross_matrix, diagonal_matrix
	static_for<4>([](auto c_) { enum : int { C = decltype(c_)::value + 1 }; auto cm = [](auto &&a) FN(dsga::cross_matrix(a)); auto dm = [](auto &&a) FN(dsga::diagonal_matrix(a)); static_for<8>([&](auto t_) {
		constexpr int t = t_; if constexpr (t >= f_) { want(C == 3, ask<dsga::basic_matrix<T_<t>, 3, 3>, decltype(cm), const V<t, C> &>(), "cross_matrix(" + vn(t, C) + ")"); if constexpr (C > 1) want(true, ask<dsga::basic_matrix<T_<t>, C, C>, decltype(dm), const V<t, C> &>(), "diagonal_matrix(" + vn(t, C) + ")"); else want(false, ask<any_result, decltype(dm), const V<t, C> &>(), "diagonal_matrix(" + vn(t, C) + ")"); }
		else { want(false, ask<any_result, decltype(cm), const V<t, C> &>(), "cross_matrix(" + vn(t, C) + ")"); want(false, ask<any_result, decltype(dm), const V<t, C> &>(), "diagonal_matrix(" + vn(t, C) + ")"); } }); });
	sample("55 functions and operators x 8 component types x lengths 1 to 4, lvalue and temporary");
}
#endif

#ifdef MC_BIN
// vectors of every pair of types (first and second), lengths C1 and C2; R: -1 result not checked, else 8: first's type, 9: bool vector, 10: common component, 11 bool, 12: common vector
template <int R, int I, int J, int C> struct Res { using type = any_result; }; template <int I, int J, int C> struct Res<8, I, J, C> { using type = VR<I, C>; }; template <int I, int J, int C> struct Res<9, I, J, C> { using type = VR<b_, C>; }; template <int I, int J, int C> struct Res<10, I, J, C> { using type = std::common_type_t<T_<I>, T_<J>>; }; template <int I, int J, int C> struct Res<11, I, J, C> { using type = bool; }; template <int I, int J, int C> struct Res<12, I, J, C> { using type = dsga::basic_vector<std::common_type_t<T_<I>, T_<J>>, C>; };
template <int R, bool Out = false, class L, class P> void vv(L, const char *name, P ok, bool len1 = true)
{
	static_for<16>([&](auto cc) {
		enum : int { C1 = decltype(cc)::value / 4 + 1, C2 = decltype(cc)::value % 4 + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<typename Res<R, Q / 8, Q % 8, C1>::type, L, const V<Q / 8, C1> &, std::conditional_t<Out, V<Q % 8, C2>, const V<Q % 8, C2>> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const bool o = C1 == C2 && ok(q / 8, q % 8, C1); if (o || C1 > 1 || C2 > 1 || len1) want(o, t[q], std::string(name) + "(" + vn(q / 8, C1) + ", " + vn(q % 8, C2) + ")"); }
		if constexpr (Out && C1 == C2) { static constexpr auto n = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 128>{ (Q < 64 ? ask<any_result, L, const V<Q / 8 % 8, C1> &, const V<Q % 8, C2> &>() : ask<any_result, L, const V<Q / 8 % 8, C1> &, V<Q % 8, C2>>())... }; }(std::make_index_sequence<128>{}); for (int q = 0; q < 128; ++q) want(false, n[q], std::string(name) + "(" + vn(q / 8 % 8, C1) + (q < 64 ? ", const " : ", temporary ") + vn(q % 8, C2) + ")"); }
	});
}
// a vector and a scalar
template <int R, class L, class P> void vs(L, const char *name, P ok)
{
	static_for<4>([&](auto c_) { enum : int { C = decltype(c_)::value + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<typename Res<R, Q / 8, Q % 8, C>::type, L, const V<Q / 8, C> &, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{});
		static constexpr auto e = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 40>{ ask<any_result, L, const V<Q % 8, C> &, Extra<Q / 8>>()... }; }(std::make_index_sequence<40>{});
		for (int q = 0; q < 64; ++q) if (ok(q / 8) && q / 8 == q % 8) want(true, t[q], std::string(name) + " of " + vn(q / 8, C) + " and " + tn[q % 8]); else if (C > 1) want(false, t[q], std::string(name) + " of " + vn(q / 8, C) + " and " + tn[q % 8]); if (C > 1) for (int q = 0; q < 40; ++q) want(false, e[q], std::string(name) + " of " + vn(q % 8, C) + strf(" and a scalar of no component type (%d)", q / 8)); });
}
static void run()
{
	auto ff = [](int a, int b, int) { return a == b && floating(a); }; auto nn = [](int a, int b, int) { return a == b && nonbool(a); }; auto same = [](int a, int b, int) { return a == b; }; auto bb = [](int a, int b, int) { return a == b_ && b == b_; }; auto f2 = [](int a, int b, int) { return floating(a) && floating(b); }; (void)ff; (void)nn; (void)same; (void)bb; (void)f2;
#define B(name, R, ok, ...) if constexpr (__COUNTER__ % 2 == MC_HALF) vv<R>([](auto &&a, auto &&b) FN(dsga::name(a, b)), #name, ok, ##__VA_ARGS__);
#define S(name, R, ok) if constexpr (__COUNTER__ % 2 == MC_HALF) vs<R>([](auto &&a, auto &&b) FN(dsga::name(a, b)), #name, ok);
#define SL(name, R, ok) if constexpr (__COUNTER__ % 2 == MC_HALF) vs<R>([](auto &&a, auto &&b) FN(dsga::name(b, a)), #name, ok);
	if constexpr (MC_BIN == 0) { auto go = [&](auto) { B(atan, 8, ff) B(pow, 8, ff) B(mod, 8, ff) B(step, 8, ff) B(min, 8, nn) B(max, 8, nn) S(mod, 8, floating) S(min, 8, nonbool) S(max, 8, nonbool) SL(step, 8, floating) }; go(0); }
	if constexpr (MC_BIN == 1) { auto go = [&](auto) { B(lessThan, 9, nn) B(lessThanEqual, 9, nn) B(greaterThan, 9, nn) B(greaterThanEqual, 9, nn) B(equal, 9, same) B(notEqual, 9, same) B(compAnd, 9, bb, false) B(compOr, 9, bb, false) }; go(0); }
	if constexpr (MC_BIN == 2) { auto go = [&](auto) { B(distance, 10, f2) B(dot, 10, f2) B(cross, 12, ([](int a, int b, int c) { return floating(a) && floating(b) && c == 3; })) B(reflect, 8, ([](int a, int b, int c) { return a == b && floating(a) && c > 1; })) B(ldexp, 8, ([](int a, int b, int) { return floating(a) && b == i_; }))
		if constexpr (MC_HALF == 0) vv<8, true>([](auto &&a, auto &&b) FN(dsga::modf(a, std::forward<decltype(b)>(b))), "modf", ff, false); if constexpr (MC_HALF == 1) vv<8, true>([](auto &&a, auto &&b) FN(dsga::frexp(a, std::forward<decltype(b)>(b))), "frexp", ([](int a, int b, int) { return floating(a) && b == i_; }), false); }; go(0); }
	if constexpr (MC_BIN == 3) { auto go = [&](auto) { if constexpr (MC_HALF == 0) vv<-1>([](auto &&a, auto &&b) FN(dsga::innerProduct(a, b)), "innerProduct", [](int a, int b, int) { return nonbool(a) && nonbool(b); });
		if constexpr (MC_HALF == 1) { auto eq = [&](int a, int b, int) { return a == b || either(a, b); }; vv<11>([](auto &&a, auto &&b) FN(a == b), "==", eq, false); vv<11>([](auto &&a, auto &&b) FN(a != b), "!=", eq, false); vv<11>([](auto &&a, auto &&b) FN(b == a), "== reversed", eq, false); } }; go(0); }
	sample("every function of two vectors x 64 pairs of types x 16 pairs of lengths; scalars of 13 types; const and temporary results");
}
#endif

#ifdef MC_TER
template <class L, class P> void vvv(L, const char *name, P ok)
{
	static_for<8>([&](auto a_) { enum : int { A = decltype(a_)::value }; static_for<4>([&](auto c_) { enum : int { C = decltype(c_)::value + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<VR<A, C>, L, const V<A, C> &, const V<Q / 8, C> &, const V<Q % 8, C> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) want(ok(A, q / 8, q % 8, C), t[q], std::string(name) + "(" + vn(A, C) + ", " + vn(q / 8, C) + ", " + vn(q % 8, C) + ")"); }); });
	static_for<3>([&](auto t_) { enum : int { I = decltype(t_)::value == 0 ? i_ : decltype(t_)::value == 1 ? f_ : d_ }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, const V<I, Q / 16 + 1> &, const V<I, Q / 4 % 4 + 1> &, const V<I, Q % 4 + 1> &>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const int a = q / 16 + 1, b = q / 4 % 4 + 1, c = q % 4 + 1; want(a == b && b == c && ok(I, I, I, a), t[q], std::string(name) + "(" + vn(I, a) + ", " + vn(I, b) + ", " + vn(I, c) + ")"); } });
}
// vector(s) of one type and scalars of types q/8, q%8 (or one scalar)
template <class L, class P> void vss(L, const char *name, P ok)
{
	static_for<8>([&](auto a_) { enum : int { A = decltype(a_)::value }; static_for<4>([&](auto c_) { enum : int { C = decltype(c_)::value + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<VR<A, C>, L, const V<A, C> &, T_<Q / 8>, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const bool o = ok(A) && q / 8 == A && q % 8 == A; if (o || C > 1) want(o, t[q], std::string(name) + " of " + vn(A, C) + ", " + tn[q / 8] + " and " + tn[q % 8]); } }); });
}
template <class L, class P> void vvs(L, const char *name, P ok)
{
	static_for<8>([&](auto a_) { enum : int { A = decltype(a_)::value }; static_for<4>([&](auto c_) { enum : int { C = decltype(c_)::value + 1 }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<VR<A, C>, L, const V<A, C> &, const V<Q / 8, C> &, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{});
		for (int q = 0; q < 64; ++q) { const bool o = ok(A, C) && q / 8 == A && q % 8 == A; if (o || C > 1) want(o, t[q], std::string(name) + "(" + vn(A, C) + ", " + vn(q / 8, C) + ", " + tn[q % 8] + ")"); } }); });
}
static void run()
{
	auto fff = [](int a, int b, int c, int) { return a == b && b == c && floating(a); };
#define F3 [](auto &&a, auto &&b, auto &&c)
	vvv(F3 FN(dsga::clamp(a, b, c)), "clamp", [](int a, int b, int c, int) { return a == b && b == c && nonbool(a); }); vvv(F3 FN(dsga::mix(a, b, c)), "mix", [](int a, int b, int c, int) { return a == b && ((b == c && floating(a)) || c == b_); }); vvv(F3 FN(dsga::smoothstep(a, b, c)), "smoothstep", fff); vvv(F3 FN(dsga::fma(a, b, c)), "fma", fff); vvv(F3 FN(dsga::faceforward(a, b, c)), "faceforward", [&](int a, int b, int c, int n) { return fff(a, b, c, n) && n > 1; });
	vss(F3 FN(dsga::clamp(a, b, c)), "clamp", nonbool); vss(F3 FN(dsga::smoothstep(b, c, a)), "smoothstep", floating);
	vvs(F3 FN(dsga::mix(a, b, c)), "mix", [](int t, int) { return floating(t); }); vvs(F3 FN(dsga::refract(a, b, c)), "refract", [](int t, int c) { return floating(t) && c > 1; });
	sample("every function of three operands x 512 triples of types x lengths, 64 triples of lengths, scalar forms");
}
#endif

#ifdef MC_MAT
template <class T, int C, int R> using M = dsga::basic_matrix<T, C, R>;
template <int T> using FT = std::conditional_t<T == 0, float, double>;
static std::string mn(int t, int c, int r) { return strf("mat%dx%d<%s>", c, r, t ? "double" : "float"); }
static void run()
{
#define F1 [](auto &&a)
#define F2 [](auto &&a, auto &&b)
	auto add = F2 FN(a + b); auto sub = F2 FN(a - b); auto mul = F2 FN(a * b); auto div = F2 FN(a / b); auto comp = F2 FN(dsga::matrixCompMult(a, b)); auto eq = F2 FN(a == b); auto ne = F2 FN(a != b); auto mod = F2 FN(a % b); auto outer = F2 FN(dsga::outerProduct(a, b)); auto tr = F1 FN(dsga::transpose(a)); auto det = F1 FN(dsga::determinant(a)); auto inv = F1 FN(dsga::inverse(a)); auto pos = F1 FN(+a); auto neg = F1 FN(-a); auto pp = F1 FN(++std::forward<decltype(a)>(a)); auto qq = F1 FN(std::forward<decltype(a)>(a)++); auto mm = F1 FN(--std::forward<decltype(a)>(a)); auto nn = F1 FN(std::forward<decltype(a)>(a)--);
	static_for<18>([&](auto p_) {
		constexpr int TA = p_ / 9, C1 = p_ % 9 / 3 + 2, R1 = p_ % 3 + 2; using T = FT<TA>; using A = M<T, C1, R1>; const std::string a = mn(TA, C1, R1);
		static_for<18>([&](auto q_) {
			constexpr int TB = q_ / 9, C2 = q_ % 9 / 3 + 2, R2 = q_ % 3 + 2; using U = FT<TB>; using B = M<U, C2, R2>; using W = std::common_type_t<T, U>; const std::string b = mn(TB, C2, R2); constexpr bool same = C1 == C2 && R1 == R2;
			using RS = M<W, C1, R1>; want(same, ask<RS, decltype(add), const A &, const B &>(), a + " + " + b); want(same, ask<RS, decltype(sub), const A &, const B &>(), a + " - " + b); want(same, ask<RS, decltype(div), const A &, const B &>(), a + " / " + b); want(same, ask<RS, decltype(comp), const A &, const B &>(), "matrixCompMult(" + a + ", " + b + ")");
			want(same, ask<bool, decltype(eq), const A &, const B &>(), a + " == " + b); want(same, ask<bool, decltype(ne), const A &, const B &>(), a + " != " + b); want(false, ask<any_result, decltype(mod), const A &, const B &>(), a + " % " + b);
			using RM = M<W, C2, R1>; want(C1 == R2, ask<RM, decltype(mul), const A &, const B &>(), a + " * " + b);
		});
		static_for<32>([&](auto q_) {
			constexpr int I = q_ / 4, N = q_ % 4 + 1; using W = V<I, N>; constexpr bool nb = I != b_; const std::string v = vn(I, N); using P = std::common_type_t<T, T_<I>>;
			want(nb && N == C1, ask<dsga::basic_vector<P, R1>, decltype(mul), const A &, const W &>(), a + " * " + v); want(nb && N == R1, ask<dsga::basic_vector<P, C1>, decltype(mul), const W &, const A &>(), v + " * " + a);
			want(false, ask<any_result, decltype(add), const A &, const W &>(), a + " + " + v); want(false, ask<any_result, decltype(sub), const W &, const A &>(), v + " - " + a); want(false, ask<any_result, decltype(div), const A &, const W &>(), a + " / " + v);
		});
		static_for<13>([&](auto q_) {
			constexpr int Q = q_; using S = typename std::conditional_t<(Q < 8), std::tuple_element<(Q < 8 ? Q : 0), T8>, std::tuple_element<(Q < 8 ? 0 : Q - 8), std::tuple<char, short, unsigned short, long, long double>>>::type; constexpr bool ok = Q > 0 && Q < 8; using RR = std::conditional_t<ok, M<std::common_type_t<T, std::conditional_t<ok, S, T>>, C1, R1>, any_result>; const std::string s = Q < 8 ? tn[Q] : strf("scalar of no component type (%d)", Q);
			auto one = [&]<class L>(L, const char *op) { want(ok, ask<RR, L, const A &, S>(), a + " " + op + " " + s); want(ok, ask<RR, L, S, const A &>(), s + " " + op + " " + a); }; one(add, "+"); one(sub, "-"); one(mul, "*"); one(div, "/");
		});
		want(true, ask<M<T, R1, C1>, decltype(tr), const A &>(), "transpose(" + a + ")"); want(C1 == R1, ask<T, decltype(det), const A &>(), "determinant(" + a + ")"); want(C1 == R1, ask<A, decltype(inv), const A &>(), "inverse(" + a + ")"); want(true, ask<A, decltype(pos), const A &>(), "+" + a); want(true, ask<A, decltype(neg), const A &>(), "-" + a);
		auto inc = [&]<class L, class R>(L, tag<R>, const char *op) { want(true, ask<R, L, A &>(), op + a); want(false, ask<any_result, L, const A &>(), std::string("const ") + op + a); want(false, ask<any_result, L, A>(), std::string("temporary ") + op + a); }; inc(pp, tag<A &>{}, "++"); inc(qq, tag<A>{}, "post++"); inc(mm, tag<A &>{}, "--"); inc(nn, tag<A>{}, "post--");
	});
	static_for<16>([&](auto cc) { enum : int { C1 = decltype(cc)::value / 4 + 1, C2 = decltype(cc)::value % 4 + 1 }; static_for<64>([&](auto q_) { constexpr int I = q_ / 8, J = q_ % 8; using L = decltype(outer); const bool ok = I && J && (I >= f_ || J >= f_) && C1 > 1 && C2 > 1; const std::string k = "outerProduct(" + vn(I, C1) + ", " + vn(J, C2) + ")"; if constexpr (I && J && (I >= f_ || J >= f_) && C1 > 1 && C2 > 1) want(ok, ask<M<std::common_type_t<T_<I>, T_<J>>, C2, C1>, L, const V<I, C1> &, const V<J, C2> &>(), k); else want(false, ask<any_result, L, const V<I, C1> &, const V<J, C2> &>(), k); }); });
	sample("all pairs of matrix types and shapes, matrices with vectors of all types and lengths, scalars of 13 types; outerProduct of all pairs");
}
#endif
#ifdef MC_SCALAR
// scalar versions: operands of one and the same type, never converted
template <class L, class P> void one(L, const char *name, P ok)
{
	static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 8>{ ask<any_result, L, T_<Q>>()... }; }(std::make_index_sequence<8>{}); static constexpr auto e = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 5>{ ask<any_result, L, Extra<Q>>()... }; }(std::make_index_sequence<5>{});
	for (int q = 0; q < 8; ++q) want(ok(q), t[q], std::string(name) + "(" + tn[q] + ")"); for (int q = 0; q < 5; ++q) want(false, e[q], std::string(name) + strf("(scalar of no component type, %d)", q));
}
template <class L, class P> void two(L, const char *name, P ok)
{
	static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, T_<Q / 8>, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{}); static constexpr auto e = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 80>{ (Q < 40 ? ask<any_result, L, T_<Q % 8>, Extra<Q / 8 % 5>>() : ask<any_result, L, Extra<Q / 8 % 5>, T_<Q % 8>>())... }; }(std::make_index_sequence<80>{});
	for (int q = 0; q < 64; ++q) want(q / 8 == q % 8 && ok(q / 8), t[q], std::string(name) + "(" + tn[q / 8] + ", " + tn[q % 8] + ")"); for (int q = 0; q < 80; ++q) want(false, e[q], std::string(name) + "(" + tn[q % 8] + strf(", scalar of no component type, %d)", q / 8));
	// a vector of length 1 of another type is not converted either
	static constexpr auto v = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 128>{ (Q < 64 ? ask<any_result, L, const V<Q / 8 % 8, 1> &, T_<Q % 8>>() : ask<any_result, L, T_<Q % 8>, const V<Q / 8 % 8, 1> &>())... }; }(std::make_index_sequence<128>{}); for (int q = 0; q < 128; ++q) if (q / 8 % 8 != q % 8) want(false, v[q], std::string(name) + " of " + vn(q / 8 % 8, 1) + " and " + tn[q % 8] + (q < 64 ? "" : ", reversed"));
}
template <class L, class P> void three(L, const char *name, P ok)
{
	static_for<8>([&](auto a_) { enum : int { A = decltype(a_)::value }; static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<char, 64>{ ask<any_result, L, T_<A>, T_<Q / 8>, T_<Q % 8>>()... }; }(std::make_index_sequence<64>{}); for (int q = 0; q < 64; ++q) want(ok(A, q / 8, q % 8), t[q], std::string(name) + "(" + tn[A] + ", " + tn[q / 8] + ", " + tn[q % 8] + ")"); });
}
static void run()
{
#define O1(name, ok) one([](auto &&a) FN(dsga::name(a)), #name, ok);
#define O2(name, ok) two([](auto &&a, auto &&b) FN(dsga::name(a, b)), #name, ok);
	O1(radians, floating) O1(degrees, floating) O1(sin, floating) O1(cos, floating) O1(tan, floating) O1(asin, floating) O1(acos, floating) O1(atan, floating) O1(sinh, floating) O1(cosh, floating) O1(tanh, floating) O1(asinh, floating) O1(acosh, floating) O1(atanh, floating) O1(exp, floating) O1(log, floating) O1(exp2, floating) O1(log2, floating) O1(sqrt, floating) O1(inversesqrt, floating) O1(fast_inversesqrt, floating)
	O1(abs, signed_) O1(sign, signed_) O1(floor, floating) O1(trunc, floating) O1(round, floating) O1(roundEven, floating) O1(ceil, floating) O1(fract, floating) O1(isnan, floating) O1(isinf, floating) O1(byteswap, integral)
	O2(atan, floating) O2(pow, floating) O2(mod, floating) O2(step, floating) O2(min, nonbool) O2(max, nonbool) O2(lessThan, nonbool) O2(lessThanEqual, nonbool) O2(greaterThan, nonbool) O2(greaterThanEqual, nonbool) O2(equal, [](int) { return true; }) O2(notEqual, [](int) { return true; })
#define F3 [](auto &&a, auto &&b, auto &&c)
	auto fff = [](int a, int b, int c) { return a == b && b == c && floating(a); }; three(F3 FN(dsga::clamp(a, b, c)), "clamp", [](int a, int b, int c) { return a == b && b == c && nonbool(a); }); three(F3 FN(dsga::mix(a, b, c)), "mix", [](int a, int b, int c) { return a == b && ((b == c && floating(a)) || c == b_); }); three(F3 FN(dsga::smoothstep(a, b, c)), "smoothstep", fff); three(F3 FN(dsga::fma(a, b, c)), "fma", fff);
	sample("scalar versions of 47 functions x 13 scalar types, pairs and triples of types, vectors of length 1 with scalars of another type");
}
#endif
int main(int argc, char **argv) { init(argc, argv); run(); total = C_; return finish(); }
