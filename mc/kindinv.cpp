// P29: the kind of the operands does not matter.  Every function and operator, every tuple of kinds (const or not), against the same call with
// plain vectors, and for length 1 against the scalar call.  -DMC_T=<0..7> component type; -DMC_ARITY=1|2|3|4 (4: assignments); -DMC_N=1..4; -DMC_FULL all 512 kinds of three operands; -DMC_TRACE P39: every memory access of the call (see access.hpp); -DMC_CST rotates the const pattern; -DMC_TWICE swizzles with a repeated letter
#ifdef MC_TRACE
#include "access.hpp"
#include <pthread.h>
#endif
#include "lift.hpp"
#include <typeinfo>
using namespace mc;
using namespace dsga;
static Counters C_;
using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
using IT = std::conditional_t<std::is_integral_v<T>, T, int>;
constexpr int N = MC_N;
#ifdef MC_TWICE
constexpr bool LEFT_(int k) { return k % 2 == 0; }   // a swizzle with a repeated letter cannot be assigned
#else
constexpr bool LEFT_(int) { return true; }
#endif
#ifdef MC_FULL
constexpr int THIRD = NKINDS;
#else
constexpr int THIRD = 1;   // the third operand's kind is determined by the others
#endif
#ifndef MC_CST
#define MC_CST 0
#endif
#ifdef MC_TRACE
// the operands' memory while one call runs: which bytes are components, which may be written
struct Region { char *p; std::size_t n; unsigned named; std::size_t size; bool writable; };
static Region regions[4]; static int nregions; static unsigned bad; static u64 accesses; static const char *const wrong[] = { "reads components that are not named", "writes an operand", "writes components that are not named", "writes memory that is no operand" };
static void on_access(char *p, std::size_t n, bool w)
{
	++accesses; bool inside = false;
	for (int k = 0; k < nregions; ++k) { const Region &g = regions[k]; for (std::size_t b = 0; b < n; ++b) if (p + b >= g.p && p + b < g.p + g.n) { inside = true; const unsigned bit = 1u << std::size_t(p + b - g.p) / g.size; if (!(g.named & bit)) bad |= w ? 4u : 1u; else if (w && !g.writable) bad |= 2u; } }
	if (!inside && w) bad |= 8u;
}
template <class A> void watch(const Mem<A> &m, bool writable) { Region &g = regions[nregions++]; g = { reinterpret_cast<char *>(m.raw), m.n * sizeof(A), 0, sizeof(A), writable }; for (int i = 0; i < m.comps; ++i) g.named |= 1u << m.slot[i]; }
static void trace_init() { pthread_attr_t a; void *lo; std::size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); mc::access::lo = static_cast<char *>(lo); mc::access::hi = mc::access::lo + n; mc::access::event = on_access; }
#endif
struct Res { long double v[24] = {}; int n = 0; bool vec = false; const std::type_info *t = nullptr; bool exact = true; };
template <class R> __attribute__((noinline)) void put_(Res &r, const R &x)
{
	if constexpr (std::is_arithmetic_v<R>) { r.v[r.n++] = (long double)x; r.t = &typeid(R); r.exact = std::is_integral_v<R>; }
	else { r.vec = true; for (const auto &e : x) { if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(e)>>) { r.v[r.n++] = (long double)e; r.t = &typeid(e); r.exact = std::is_integral_v<std::remove_cvref_t<decltype(e)>>; } else put_(r, e); } }
}
static bool agree(const Res &a, const Res &b)
{
	if (a.n != b.n) return false;
	for (int i = 0; i < a.n; ++i) { if (std::isnan(a.v[i]) || std::isnan(b.v[i])) { if (std::isnan(a.v[i]) != std::isnan(b.v[i])) return false; continue; } if (a.v[i] == b.v[i]) continue; if (a.exact || b.exact) return false; if (!(std::fabs(a.v[i] - b.v[i]) <= (sizeof(T) == 8 ? 1e-12L : 1e-5L) * std::max(std::fabs(a.v[i]), std::fabs(b.v[i])))) return false; }
	return true;
}
static std::string show(const Res &r) { std::string s = r.vec ? "vector {" : "{"; for (int i = 0; i < r.n; ++i) s += strf(i ? ", %.9Lg" : "%.9Lg", r.v[i]); return s + "}"; }
#define E1(id, ...) struct id { static constexpr const char *name = #__VA_ARGS__; template <class X> static auto f(X &x) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
#define E2(id, ...) struct id { static constexpr const char *name = #__VA_ARGS__; template <class X, class Y> static auto f(X &x, Y &y) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
#define E3(id, ...) struct id { static constexpr const char *name = #__VA_ARGS__; template <class X, class Y, class Z> static auto f(X &x, Y &y, Z &z) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
template <class X> X fx(X x) { return x; }
static const T s_ = T(3);
static const auto twice_ = [](T c) { return T(c + c); };
static const auto big_ = [](T c) { return c > T(4); };
static const auto cols_ = [] { basic_matrix<float, 4, 4> m; for (int i = 0; i < 16; ++i) m[i / 4][i % 4] = float(i * i % 17 + 1); return m; }();
template <int C, int R> basic_matrix<float, C, R> m_() { return basic_matrix<float, C, R>(cols_); }
#if MC_ARITY == 1
E1(e_abs, abs(x)) E1(e_sign, sign(x)) E1(e_radians, radians(x)) E1(e_degrees, degrees(x)) E1(e_sin, sin(x)) E1(e_cos, cos(x)) E1(e_tan, tan(x)) E1(e_asin, asin(x)) E1(e_acos, acos(x)) E1(e_atan, atan(x)) E1(e_sinh, sinh(x)) E1(e_cosh, cosh(x)) E1(e_tanh, tanh(x)) E1(e_asinh, asinh(x)) E1(e_acosh, acosh(x)) E1(e_atanh, atanh(x))
E1(e_exp, exp(x)) E1(e_log, log(x)) E1(e_exp2, exp2(x)) E1(e_log2, log2(x)) E1(e_sqrt, sqrt(x)) E1(e_isqrt, inversesqrt(x)) E1(e_fisqrt, fast_inversesqrt(x)) E1(e_floor, floor(x)) E1(e_ceil, ceil(x)) E1(e_trunc, trunc(x)) E1(e_round, round(x)) E1(e_roundEven, roundEven(x)) E1(e_fract, fract(x)) E1(e_isnan, isnan(x)) E1(e_isinf, isinf(x))
E1(e_f2i, floatBitsToInt(x)) E1(e_f2u, floatBitsToUint(x)) E1(e_i2f, intBitsToFloat(x)) E1(e_u2f, uintBitsToFloat(x)) E1(e_d2l, doubleBitsToLongLong(x)) E1(e_d2u, doubleBitsToUlongLong(x)) E1(e_l2d, longLongBitsToDouble(x)) E1(e_ul2d, ulongLongBitsToDouble(x)) E1(e_bswap, byteswap(x))
E1(e_length, dsga::length(x)) E1(e_normalize, normalize(x)) E1(e_any, any(x)) E1(e_all, all(x)) E1(e_none, none(x)) E1(e_not, compNot(x)) E1(e_plus, +x) E1(e_minus, -x) E1(e_compl, ~x)
E1(e_addr, x + s_) E1(e_addl, s_ + x) E1(e_subr, x - s_) E1(e_subl, s_ - x) E1(e_mulr, x * s_) E1(e_mull, s_ * x) E1(e_divr, x / s_) E1(e_divl, T(100) / x) E1(e_modr, x % s_) E1(e_modl, T(100) % x) E1(e_shlr, x << s_) E1(e_shll, s_ << x) E1(e_shrr, x >> s_) E1(e_shrl, T(1000) >> x) E1(e_andr, x & s_) E1(e_orr, x | s_) E1(e_xorl, s_ ^ x) E1(e_eqs, x == s_)
E1(e_mins, dsga::min(x, s_)) E1(e_maxs, dsga::max(x, s_)) E1(e_clamps, dsga::clamp(x, T(2), T(5))) E1(e_mods, mod(x, s_)) E1(e_steps, step(s_, x)) E1(e_smooths, smoothstep(T(1), T(9), x)) E1(e_mixs, mix(x, x, s_)) E1(e_dmat, diagonal_matrix(x)) E1(e_cmat, cross_matrix(x)) E1(e_vec, to_vector(x)) E1(e_arr, to_array(x))
E1(e_msum, x.sum()) E1(e_mmin, x.min()) E1(e_mmax, x.max()) E1(e_mshl, x.shift(1)) E1(e_mshr, x.shift(-2)) E1(e_mcsh, x.cshift(1)) E1(e_mcshr, x.cshift(-3)) E1(e_mapply, x.apply(twice_)) E1(e_mquery, x.query(big_)) E1(e_mlen, x.length()) E1(e_msize, x.size())
E1(e_mul44, m_<4, 4>() * x) E1(e_mul43, m_<4, 3>() * x) E1(e_mul32, m_<3, 2>() * x) E1(e_mul33, m_<3, 3>() * x) E1(e_mul24, m_<2, 4>() * x) E1(e_mul22, m_<2, 2>() * x) E1(e_mulr44, x * m_<4, 4>()) E1(e_mulr34, x * m_<3, 4>()) E1(e_mulr23, x * m_<2, 3>()) E1(e_mulr42, x * m_<4, 2>()) E1(e_mulr33, x * m_<3, 3>()) E1(e_mulr22, x * m_<2, 2>())
using entries = types<e_abs, e_sign, e_radians, e_degrees, e_sin, e_cos, e_tan, e_asin, e_acos, e_atan, e_sinh, e_cosh, e_tanh, e_asinh, e_acosh, e_atanh, e_exp, e_log, e_exp2, e_log2, e_sqrt, e_isqrt, e_fisqrt, e_floor, e_ceil, e_trunc, e_round, e_roundEven, e_fract, e_isnan, e_isinf, e_f2i, e_f2u, e_i2f, e_u2f, e_d2l, e_d2u, e_l2d, e_ul2d, e_bswap,
	e_length, e_normalize, e_any, e_all, e_none, e_not, e_plus, e_minus, e_compl, e_addr, e_addl, e_subr, e_subl, e_mulr, e_mull, e_divr, e_divl, e_modr, e_modl, e_shlr, e_shll, e_shrr, e_shrl, e_andr, e_orr, e_xorl, e_eqs, e_mins, e_maxs, e_clamps, e_mods, e_steps, e_smooths, e_mixs, e_dmat, e_cmat, e_arr, e_msum, e_mmin, e_mmax, e_mshl, e_mshr, e_mcsh, e_mcshr, e_mapply, e_mquery, e_mlen, e_msize,
	e_mul44, e_mul43, e_mul32, e_mul33, e_mul24, e_mul22, e_mulr44, e_mulr34, e_mulr23, e_mulr42, e_mulr33, e_mulr22>;
#elif MC_ARITY == 2
E2(b_add, x + y) E2(b_sub, x - y) E2(b_mul, x * y) E2(b_div, x / y) E2(b_mod, x % y) E2(b_and, x & y) E2(b_or, x | y) E2(b_xor, x ^ y) E2(b_shl, x << (y & T(7))) E2(b_shr, (x * T(100)) >> y) E2(b_shl2, x << y) E2(b_eq, x == y) E2(b_ne, x != y) E2(b_min, dsga::min(x, y)) E2(b_max, dsga::max(x, y)) E2(b_fmod, mod(x, y)) E2(b_step, step(x, y)) E2(b_pow, pow(x, y)) E2(b_atan, atan(x, y))
E2(b_dot, dot(x, y)) E2(b_inner, innerProduct(x, y)) E2(b_cross, cross(x, y)) E2(b_dist, dsga::distance(x, y)) E2(b_reflect, reflect(x, y)) E2(b_refract, refract(x, y, T(0.01))) E2(b_outer, outerProduct(x, y)) E2(b_lt, lessThan(x, y)) E2(b_le, lessThanEqual(x, y)) E2(b_gt, greaterThan(x, y)) E2(b_ge, greaterThanEqual(x, y)) E2(b_equal, equal(x, y)) E2(b_nequal, notEqual(x, y)) E2(b_cand, compAnd(x, y)) E2(b_cor, compOr(x, y)) E2(b_mixs, mix(x, y, T(0.25)))
using entries = types<b_add, b_sub, b_mul, b_div, b_mod, b_and, b_or, b_xor, b_shl, b_shr, b_shl2, b_eq, b_ne, b_min, b_max, b_fmod, b_step, b_pow, b_atan, b_dot, b_inner, b_cross, b_dist, b_reflect, b_refract, b_outer, b_lt, b_le, b_gt, b_ge, b_equal, b_nequal, b_cand, b_cor, b_mixs>;
#elif MC_ARITY == 3
E3(t_clamp1, dsga::clamp(x, y, z)) E3(t_clamp2, dsga::clamp(y, x, z)) E3(t_clamp3, dsga::clamp(z, x, y)) E3(t_mix, mix(x, y, z)) E3(t_smooth, smoothstep(x, z, y)) E3(t_fma, fma(x, y, z)) E3(t_face, faceforward(x, y, z))
using entries = types<t_clamp1, t_clamp2, t_clamp3, t_mix, t_smooth, t_fma, t_face>;
E3(tb_mix, mix(x, y, z))
#else
#define A2(id, op) struct id { static constexpr const char *name = "x " #op " y"; template <class X, class Y> static auto f(X &x, Y &y) -> basic_vector<T, N> requires requires { x op y; } { (void)(x op y); basic_vector<T, N> r; for (int i = 0; i < N; ++i) r[i] = x[i]; return r; } };
A2(a_add, +=) A2(a_sub, -=) A2(a_mul, *=) A2(a_div, /=) A2(a_mod, %=) A2(a_and, &=) A2(a_or, |=) A2(a_xor, ^=) A2(a_shl, <<=) A2(a_shr, >>=)
using entries = types<a_add, a_sub, a_mul, a_div, a_mod, a_and, a_or, a_xor, a_shl, a_shr>;
#endif

// distinguishable values: operand p in position i of case c.  Operands ascend (so that clamp and smoothstep are defined); case 1 of two operands descends
static std::vector<std::array<std::array<T, 4>, 3>> cases()
{
	std::vector<std::array<std::array<T, 4>, 3>> r;
	const int perms[][4] = { { 0, 1, 2, 3 }, { 3, 0, 2, 1 }, { 2, 3, 0, 1 }, { 1, 3, 2, 0 } };
	for (int c = 0; c < 16; ++c)
	{
		std::array<std::array<T, 4>, 3> o;
		for (int p = 0; p < 3; ++p) for (int i = 0; i < 4; ++i)
		{
			const int q = perms[(c + p) % 4][i], rank = c % 2 && MC_ARITY != 3 ? 2 - p : p;
			if constexpr (std::is_same_v<T, bool>) o[p][i] = (c * 37 + p * 11 + i * 5 + (c >> i)) & 1;
			else if constexpr (std::is_floating_point_v<T>) o[p][i] = c < 8 || MC_ARITY == 3 ? T(0.11 + 0.21 * q + 1.1 * rank + 0.013 * c) : T((q - 1.6) * (1 + 0.4 * c) + rank);
			else o[p][i] = std::is_signed_v<T> && c >= 12 && MC_ARITY == 1 ? T(-1 - q - 4 * c) : T(1 + 2 * q + 10 * rank + c % 3);
		}
#ifdef MC_TWICE
		for (int p = 0; p < 3; ++p) o[p][N - 1] = o[p][0];
#endif
		r.push_back(o);
	}
	return r;
}
struct Job { const char *fname; const char *kinds[3]; int cst; void (*run)(Res &, const T (*)[4]); bool (*kept)(const T (*)[4]); const void *ref; };
using Runs = std::vector<Res>;
static Runs explore(void (*run)(Res &, const T (*)[4]), bool (*kept)(const T (*)[4]), const std::string &key)
{
	Runs out; snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
	for (auto &c : cases())
	{
		T v[3][4]; for (int p = 0; p < 3; ++p) for (int i = 0; i < 4; ++i) v[p][i] = c[p][i];
		Res r; Out o = attempt([&] { run(r, v); }); if (o != Out::ok) { r = Res{}; r.n = -1; } out.push_back(r); ++C_.states; ++C_.traces; C_.transitions += std::max(r.n, 1);
		if (kept && !kept(v)) fail(key, "an operand changed");
	}
	return out;
}
static __attribute__((noinline)) void compare(const Runs &a, const Runs &want, const std::string &key, bool scalar)
{
	for (std::size_t c = 0; c < a.size(); ++c)
	{
		if (!agree(a[c], want[c])) fail(key, strf("case %d: %s, but %s with %s", (int)c, show(a[c]).c_str(), show(want[c]).c_str(), scalar ? "scalars" : "plain vectors"));
		else if (a[c].t && want[c].t && *a[c].t != *want[c].t) fail(key, "another component type");
		else if (!scalar && a[c].vec != want[c].vec) fail(key, "vector or scalar");
	}
}
template <class V> std::conditional_t<false, V, const std::remove_reference_t<V>> &cst_(V &v) { return v; }
// the operands: component types A (T, T, T or T, T, bool)
template <bool CST, std::size_t Q, class A, int K> auto &operand() { auto &v = lget<A, N, K, (int)Q>(); if constexpr (CST) return cst_(v); else return v; }
template <class U> void values_(U *u, const T *v) { for (int i = 0; i < 4; ++i) u[i] = std::is_same_v<U, bool> && !std::is_same_v<T, bool> ? U((int)v[i] & 1) : U(v[i]); }
template <std::size_t Q, class A, int K> void fill_(const T *v) { A u[4]; values_(u, v); lmem<A, N, K, (int)Q>().put(u); }
template <std::size_t Q, class A, int K> bool kept_(const T *v) { A u[4]; values_(u, v); return lmem<A, N, K, (int)Q>().holds(u); }
template <class E, int CST, class Ks, class Ps, class... A> struct One;
template <class E, int CST, int... K, std::size_t... P, class... A> struct One<E, CST, std::integer_sequence<int, K...>, std::index_sequence<P...>, A...>
{
	static constexpr bool there = requires { E::f(operand<((CST >> P) & 1) != 0, P, A, K>()...); };
#ifdef MC_TRACE
	static void run(Res &r, const T (*v)[4])
	{
		mc::access::end(); (fill_<P, A, K>(v[P]), ...); (operand<((CST >> P) & 1) != 0, P, A, K>(), ...); nregions = 0; bad = 0; (watch(lmem<A, N, K, (int)P>(), MC_ARITY == 4 && P == 0), ...); const u64 before = accesses;
		mc::access::begin(); auto x = E::f(operand<((CST >> P) & 1) != 0, P, A, K>()...); mc::access::end(); put_(r, x);
		for (int i = 0; i < 4; ++i) if (bad >> i & 1) fail(std::string(wrong[i]) + ": " + key(), "");
		C_.transitions += accesses - before;
	}
#else
	static void run(Res &r, const T (*v)[4]) { (fill_<P, A, K>(v[P]), ...); put_(r, E::f(operand<((CST >> P) & 1) != 0, P, A, K>()...)); }
#endif
	static bool kept(const T (*v)[4]) { return ((P == 0 && MC_ARITY == 4 ? true : kept_<P, A, K>(v[P])) && ...); }
	static std::string key() { std::string key = std::string(E::name) + " of"; ((key += std::string((CST >> P) & 1 ? " const " : " ") + (K == K_SCALAR ? "scalar" : kname(K))), ...); return key + strf(" n=%d %s", N, tname<T>()); }
};
template <class E, class... A> struct Calls
{
	template <int CST, int... K> static void go(std::integer_sequence<int, K...>, const Runs &want, const Runs *scal, bool is_ref, Runs *out)
	{
		using O = One<E, CST, std::integer_sequence<int, K...>, std::index_sequence_for<A...>, A...>;
		const std::string key = O::key();
		if constexpr (!O::there) { if (!is_ref) fail(key, "not available for these kinds"); }
		else
		{
			Runs r = explore(O::run, O::kept, key); if (is_ref) *out = r; else compare(r, want, key, false);
			if (scal) compare(r, *scal, key + " and scalars", true);
		}
	}
};
template <class E, class... A, class F> void entry(F each)
{
	constexpr int n = sizeof...(A); using Cl = Calls<E, A...>;
	auto ks = []<int... P>(std::integer_sequence<int, P...>) { return std::integer_sequence<int, (P * 0 + K_VEC)...>{}; }(std::make_integer_sequence<int, n>{});
	auto ss = []<int... P>(std::integer_sequence<int, P...>) { return std::integer_sequence<int, (P * 0 + K_SCALAR)...>{}; }(std::make_integer_sequence<int, n>{});
	Runs want, scal; Cl::template go<0>(ks, want, nullptr, true, &want);
	if (want.empty()) return;
	if constexpr (N == 1 && MC_ARITY != 4) Cl::template go<0>(ss, scal, nullptr, true, &scal);
	each(want, scal.empty() ? nullptr : &scal);
}
template <class> struct Runner
{
	template <class... E> static void all(types<E...>) { (one<E>(), ...); }
	template <class E> static void one()
	{
#if MC_ARITY == 1
		entry<E, T>([](const Runs &w, const Runs *s) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { Calls<E, T>::template go<0>(std::integer_sequence<int, K>{}, w, s, false, nullptr); Calls<E, T>::template go<1>(std::integer_sequence<int, K>{}, w, s, false, nullptr); }); });
#elif MC_ARITY == 2
		entry<E, T, T>([](const Runs &w, const Runs *s) { static_for<NKINDS * NKINDS>([&]<int Q>(std::integral_constant<int, Q>) { constexpr int K = Q / NKINDS, L = Q % NKINDS, X = (K + 3 * L + MC_CST) % 4; Calls<E, T, T>::template go<X>(std::integer_sequence<int, K, L>{}, w, s, false, nullptr); }); });
#elif MC_ARITY == 3
		entry<E, T, T, T>([](const Runs &w, const Runs *s) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { static_for<NKINDS * THIRD>([&]<int Q>(std::integral_constant<int, Q>) { constexpr int L = Q / THIRD, M = THIRD == 1 ? (K + 3 * L + MC_N) % NKINDS : Q % THIRD, X = (K + 3 * L + 5 * M + MC_CST) % 8; Calls<E, T, T, T>::template go<X>(std::integer_sequence<int, K, L, M>{}, w, s, false, nullptr); }); }); });
#else
		entry<E, T, T>([](const Runs &w, const Runs *s) { static_for<6 * NKINDS>([&]<int Q>(std::integral_constant<int, Q>) { constexpr int K = Q / NKINDS, L = Q % NKINDS, X = (K + L) % 2 * 2; if constexpr (LEFT_(K)) if constexpr (std::is_same_v<T, bool>) { if constexpr (K == K_VEC && L == K_VEC) Calls<E, T, T>::template go<X>(std::integer_sequence<int, K, L>{}, w, s, false, nullptr); } else Calls<E, T, T>::template go<X>(std::integer_sequence<int, K, L>{}, w, s, false, nullptr); }); });
#endif
	}
	static void run()
	{
		all(entries{});
#if MC_ARITY == 3
		entry<tb_mix, T, T, bool>([](const Runs &w, const Runs *s) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { static_for<NKINDS * THIRD>([&]<int Q>(std::integral_constant<int, Q>) { constexpr int L = Q / THIRD, M = THIRD == 1 ? (K + 3 * L + MC_N) % NKINDS : Q % THIRD, X = (K + 3 * L + 5 * M + MC_CST) % 8; Calls<tb_mix, T, T, bool>::template go<X>(std::integer_sequence<int, K, L, M>{}, w, s, false, nullptr); }); }); });
#elif MC_ARITY == 4
#endif
		sample(strf("%d operands of type %s, length %d: every tuple of kinds, const in a rotating pattern, 16 value cases", MC_ARITY, tname<T>(), N));
	}
};
int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_TRACE
	trace_init();
#endif
	Runner<void>::run(); total = C_; return finish();
}
