// P40: one exploration whose digests must be the same in every build configuration (check.py compares the DIGEST lines of all parts).
// -DMC_G=0 functions and operators on int | 1 unsigned, bool | 2 long long | 4 double | 5 float | 3 histories and matrices.  No oracle in here.
#include "swizzles.hpp"
using namespace mc;
using namespace dsga;
static Counters C_;
struct Hash { u64 h = 1469598103934665603ull; void add(u64 x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } };
template <class X> __attribute__((noinline)) void put(Hash &h, const X &x)
{
	if constexpr (std::is_floating_point_v<X>) { if (x != x) h.add(0x7ff8dead); else if constexpr (sizeof(X) == 4) h.add(std::bit_cast<unsigned>(x)); else h.add(std::bit_cast<u64>(double(x))); }
	else if constexpr (std::is_arithmetic_v<X>) h.add((u64)(long long)x);
	else { h.add(77); for (const auto &e : x) put(h, e); }
}
static __attribute__((noinline)) void emit(const std::string &key, const Hash &h) { printf("DIGEST\t%s\t%016llx\n", key.c_str(), h.h); }
template <class T> T opaque(T x) { asm volatile("" : "+m"(x)); return x; }
template <class T> const char *tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, long long> ? "long long" : std::is_same_v<T, float> ? "float" : "double"; }
template <class T> std::vector<T> small()
{
	std::vector<T> r;
	if constexpr (std::is_same_v<T, bool>) r = { false, true };
	else if constexpr (std::is_floating_point_v<T>) for (double d : { -1000.25, -37.5, -3.0, -1.0, -0.3, -0.0, 0.0, 0.1, 0.5, 0.999, 1.0, 2.5, 7.0, 1e6, 0x1p-140, 0x1p100, HUGE_VAL, -HUGE_VAL, double(NAN) }) r.push_back(opaque(T(d)));
	else if constexpr (std::is_signed_v<T>) for (int d : { -1000, -37, -8, -1, 0, 1, 2, 3, 5, 7, 31, 1000 }) r.push_back(opaque(T(d)));
	else for (unsigned d : { 0u, 1u, 2u, 3u, 5u, 7u, 31u, 1000u, 65535u, 0x80000000u, 0xfffffffeu, 0xffffffffu }) r.push_back(opaque(T(d)));
	return r;
}
// values for the special operands: divisors, shift counts, non-negative numbers
template <class T> std::vector<T> positive() { std::vector<T> r; if constexpr (std::is_same_v<T, bool>) r = { true, true }; else for (int d : { 1, 2, 3, 5, 7, 13, 30 }) r.push_back(opaque(T(d))); if constexpr (std::is_floating_point_v<T>) { r.push_back(opaque(T(0.37))); r.push_back(opaque(T(1e-3))); } return r; }
// what holds N components: 0 a vector, 1 a view, 2 the reversed swizzle of a vector of four, 3 a view swizzle
template <class T, int N, int K, int SLOT> struct Operand
{
	T mem[6]; basic_vector<T, 4> four;
	static Operand &it() { static Operand o; return o; }
	auto set(const T *v)
	{
		if constexpr (K == 0) { basic_vector<T, N> r; for (int i = 0; i < N; ++i) r[i] = v[i]; return r; }
		else if constexpr (K == 1) { for (int i = 0; i < N; ++i) mem[1 + i] = v[i]; return basic_view<true, T, N>(mem + 1); }
		else if constexpr (K == 2) { for (int i = 0; i < N; ++i) four[N - 1 - i] = v[i]; if constexpr (N == 1) return four.x; else if constexpr (N == 2) return four.yx; else if constexpr (N == 3) return four.zyx; else return four.wzyx; }
		else { for (int i = 0; i < N; ++i) mem[1 + N - 1 - i] = v[i]; basic_view<true, T, 4> w(mem + 1); if constexpr (N == 1) return w.x; else if constexpr (N == 2) return w.yx; else if constexpr (N == 3) return w.zyx; else return w.wzyx; }
	}
};
static const char *const kn[] = { "vector", "view", "swizzle", "view swizzle" };
// the catalogue: T the component type, N the length, s a scalar
static const auto inc = [](auto c) { return decltype(c)(c + decltype(c)(1)); };
static const auto big = [](auto c) { return c > decltype(c)(2); };
template <int> struct Un; template <int> struct Bi; template <int> struct Tri;
#define UE(pos, ...) template <> struct Un<__COUNTER__ - U0> { static constexpr const char *name = #__VA_ARGS__; static constexpr bool positive = pos; template <class T, int N, class X> static auto f(X &x, T s) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
#define UV(...) UE(false, __VA_ARGS__)
#define UP(...) UE(true, __VA_ARGS__)
#define BE(pos, ...) template <> struct Bi<__COUNTER__ - B0> { static constexpr const char *name = #__VA_ARGS__; static constexpr bool positive = pos; template <class T, int N, class X, class Y> static auto f(X &x, Y &y) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
#define B(...) BE(false, __VA_ARGS__)
#define BP(...) BE(true, __VA_ARGS__)
#define T3(...) template <> struct Tri<__COUNTER__ - T0> { static constexpr const char *name = #__VA_ARGS__; template <class T, class X> static auto f(X &x, X &y, X &z) -> std::remove_cvref_t<decltype(__VA_ARGS__)> { return __VA_ARGS__; } };
constexpr int U0 = __COUNTER__ + 1;
UV(abs(x)) UV(sign(x)) UV(radians(x)) UV(degrees(x)) UV(floor(x)) UV(ceil(x)) UV(trunc(x)) UV(round(x)) UV(roundEven(x)) UV(fract(x)) UV(isnan(x)) UV(isinf(x)) UV(byteswap(x)) UV(floatBitsToInt(x)) UV(floatBitsToUint(x)) UV(doubleBitsToLongLong(x)) UV(doubleBitsToUlongLong(x)) UV(intBitsToFloat(x)) UV(uintBitsToFloat(x)) UV(longLongBitsToDouble(x))
UV(sqrt(abs(x))) UP(inversesqrt(x)) UP(fast_inversesqrt(x)) UV(dsga::length(x)) UP(normalize(x)) UV(any(x)) UV(all(x)) UV(none(x)) UV(compNot(x)) UV(+x) UV(-x) UV(~x) UV(x + s) UV(s - x) UV(x * s) UV(x / s) UV(x % s) UV(x << 3) UV(x >> 2) UV(x & s) UV(s | x) UV(x ^ s) UV(x == s) UP(s / x) UP(s % x) UV(dsga::min(x, s)) UV(dsga::max(x, s)) UV(dsga::clamp(x, T(2), T(5))) UV(mod(x, s)) UV(step(s, x)) UV(smoothstep(T(1), T(9), x))
UV(diagonal_matrix(x)) UV(cross_matrix(x)) UV(to_vector(x)) UV(to_array(x)) UV(x.sum()) UV(x.min()) UV(x.max()) UV(x.shift(1)) UV(x.shift(-2)) UV(x.shift(9)) UV(x.cshift(1)) UV(x.cshift(-3)) UV(x.cshift(11)) UV(x.apply(inc)) UV(x.query(big)) UV(x.length()) UV(x.size())
UV(basic_vector<double, N>(x)) UV(basic_vector<bool, N>(x)) UV(basic_vector<long long, N>(sign(x))) UV(basic_vector<unsigned, N>(x ^ s)) UV(basic_vector<T, 4>(x, x, x, x, x)) UV(swizzle(x, 0, N - 1, 0)) UV(swizzle(x, N - 1)) UV(std::vector<T>(x.begin(), x.end())) UV(std::vector<T>(x.rbegin(), x.rend())) UV(x.begin() + 1 <= x.end()) UV(int(x.end() - x.begin())) UV(*(x.begin() + N / 2)) UV(int(x.sequence().size())) UV(++x) UV(--x) UV(x++) UV(x--)
constexpr int U1 = __COUNTER__, B0 = U1 + 1;
B(x + y) B(x - y) B(x * y) BP(x / y) BP(x % y) B(x & y) B(x | y) B(x ^ y) BP(x << y) BP(x >> y) B(x == y) B(x != y) B(dsga::min(x, y)) B(dsga::max(x, y)) BP(mod(x, y)) B(step(x, y)) B(dot(x, y)) B(innerProduct(x, y)) B(cross(x, y)) B(dsga::distance(x, y)) B(reflect(x, y)) B(refract(x, y, T(0.01))) B(faceforward(x, y, y)) B(outerProduct(x, y)) B(lessThan(x, y)) B(lessThanEqual(x, y)) B(greaterThan(x, y)) B(greaterThanEqual(x, y)) B(equal(x, y)) B(notEqual(x, y)) B(compAnd(x, y)) B(compOr(x, y)) B(mix(x, y, T(0.25)))
B(x += y) B(x -= y) B(x *= y) BP(x /= y) BP(x %= y) B(x &= y) B(x |= y) B(x ^= y) BP(x <<= y) BP(x >>= y) B(x = y) B(x += y[0])
constexpr int B1 = __COUNTER__, T0 = B1 + 1;
T3(dsga::clamp(x, y, z)) T3(mix(x, y, z)) T3(smoothstep(y, z, x)) T3(fma(x, y, z)) T3(mix(x, y, lessThan(z, x)))
constexpr int T1 = __COUNTER__;
template <class T, int N> struct Fun
{
	template <int K> using O = std::remove_cvref_t<decltype(std::declval<Operand<T, N, K, 0> &>().set((const T *)nullptr))>;
	static void begin(const char *name) { snprintf(ctxbuf, sizeof ctxbuf, "%s %s %d", name, tn<T>(), N); }
	static void value(T *v, const std::vector<T> &l, int i, int step) { for (int c = 0; c < N; ++c) v[c] = l[(i + c * step) % l.size()]; }
	using L = std::vector<T>;
	// the loops are shared by all entries
	static __attribute__((noinline)) void loop1(const char *name, const char *kind, bool pos, void (*f)(Hash &, const T *, T))
	{
		begin(name); const L l = pos ? positive<T>() : small<T>(); const T s = positive<T>()[1]; Hash h; T v[4];
		for (int i = 0; i < (int)l.size(); ++i) for (int q = 0; q < (int)l.size(); ++q) { value(v, l, i, q); f(h, v, s); ++C_.states; ++C_.transitions; }
		emit(strf("%s of %s %s %d", name, kind, tn<T>(), N), h); ++C_.traces;
	}
	static __attribute__((noinline)) void loop2(const char *name, const char *k1, const char *k2, bool pos, void (*f)(Hash &, const T *, const T *))
	{
		begin(name); const L l = small<T>(), m = pos ? positive<T>() : l; Hash h; T v[4], w[4];
		for (int i = 0; i < (int)l.size(); ++i) for (int j = 0; j < (int)m.size(); ++j) for (int s = 0; s < 3; ++s) { value(v, l, i, s); value(w, m, j, 2 - s); f(h, v, w); ++C_.states; ++C_.transitions; }
		emit(strf("%s of %s, %s %s %d", name, k1, k2, tn<T>(), N), h); ++C_.traces;
	}
	template <class E, int K> static void un1()
	{
		if constexpr (requires (O<K> &x) { E::template f<T, N>(x, T()); })
			loop1(E::name, kn[K], E::positive, [](Hash &h, const T *v, T s) { auto x = Operand<T, N, K, 0>::it().set(v); put(h, E::template f<T, N>(x, s)); });
	}
	template <class E> static void un() { un1<E, 0>(); if constexpr (N == 3) { un1<E, 1>(); un1<E, 2>(); un1<E, 3>(); } }
	template <class E, int K, int M> static void bi1()
	{
		if constexpr (requires (O<K> &x, O<M> &y) { E::template f<T, N>(x, y); })
			loop2(E::name, kn[K], kn[M], E::positive, [](Hash &h, const T *v, const T *w) { auto x = Operand<T, N, K, 0>::it().set(v); auto y = Operand<T, N, M, 1>::it().set(w); put(h, E::template f<T, N>(x, y)); });
	}
	template <class E> static void bi() { bi1<E, 0, 0>(); if constexpr (N == 3) { bi1<E, 1, 2>(); bi1<E, 2, 3>(); bi1<E, 3, 1>(); } }
	// an operand and an ascending pair
	template <class E> static void tri()
	{
		using V = basic_vector<T, N>;
		if constexpr (requires (V &x) { E::template f<T>(x, x, x); })
		{
			begin(E::name); Hash h; L l = positive<T>(); std::sort(l.begin(), l.end());
			for (T a : small<T>()) for (std::size_t j = 0; j < l.size(); ++j) for (std::size_t k = j + 1; k < l.size(); ++k) { V x, y, z; for (int c = 0; c < N; ++c) { x[c] = c % 2 ? T(a / T(2)) : a; y[c] = l[j]; z[c] = T(l[k] + T(c)); } put(h, E::template f<T>(x, y, z)); ++C_.states; ++C_.transitions; }
			emit(strf("%s of vectors %s %d", E::name, tn<T>(), N), h); ++C_.traces;
		}
	}
	static void all()
	{
		static_for<U1 - U0>([]<int I>(std::integral_constant<int, I>) { un<Un<I>>(); });
		static_for<B1 - B0>([]<int I>(std::integral_constant<int, I>) { bi<Bi<I>>(); });
		static_for<T1 - T0>([]<int I>(std::integral_constant<int, I>) { tri<Tri<I>>(); });
	}
};
template <class T> void functions_of() { static_for<4>([]<int I>(std::integral_constant<int, I>) { Fun<T, I + 1>::all(); }); }
// scalar functions over a lattice of bit patterns: every sign, exponent and 256 (quick) or 16384 mantissas
template <class T, class F> void sweep(const char *name, F f)
{
	using W = std::conditional_t<sizeof(T) == 4, unsigned, u64>; constexpr int E = sizeof(T) == 4 ? 8 : 11, M = sizeof(T) * 8 - 1 - E, H = 8; const int m = thorough ? 14 : H;
	Hash h; snprintf(ctxbuf, sizeof ctxbuf, "%s", name);
	for (W sgn = 0; sgn < 2; ++sgn) for (W e = 0; e < (W(1) << E); ++e) for (W k = 0; k < (W(1) << m); ++k)
	{
		W hi = k >> (m / 2), lo = k & ((W(1) << (m / 2)) - 1); const T x = std::bit_cast<T>(W((sgn << (sizeof(T) * 8 - 1)) | (e << M) | (hi << (M - m / 2)) | lo)); put(h, f(x)); ++C_.states; ++C_.transitions;
	}
	emit(strf("%s over %s patterns", name, tn<T>()), h); ++C_.traces;
}
template <class T> void scalars()
{
#define S(...) sweep<T>(#__VA_ARGS__, [](T x) { return __VA_ARGS__; });
	S(floor(x)) S(ceil(x)) S(trunc(x)) S(round(x)) S(roundEven(x)) S(fract(x)) S(isnan(x)) S(isinf(x)) S(abs(x)) S(sign(x)) S(sqrt(x)) S(mod(x, T(3.7))) S(dsga::min(x, T(1))) S(dsga::max(x, T(1))) S(step(T(0.5), x)) S(smoothstep(T(-1), T(1), x)) S(dsga::clamp(x, T(-2), T(7))) S(dsga::cxcm::fpclassify(x)) S(dsga::cxcm::isnormal(x)) S(dsga::cxcm::isfinite(x)) S(dsga::cxcm::signbit(x)) S(dsga::cxcm::copysign(T(1), x))
	S(basic_vector<T, 2>(x, x) == basic_vector<T, 2>(x, x)) S(basic_vector<T, 2>(x, T(1)).min()) S(T(0) == x)
	sweep<T>("inversesqrt", [](T x) { return x > std::numeric_limits<T>::min() && x < std::numeric_limits<T>::infinity() ? inversesqrt(x) : T(0); });
	sweep<T>("modf", [](T x) { T w; T f = modf(x, w); return std::array<T, 2>{ f, w }; });
	sweep<T>("frexp", [](T x) { int e = 0; if (!(std::fabs(x) <= std::numeric_limits<T>::max())) return std::array<T, 2>{}; T f = frexp(x, e); return std::array<T, 2>{ f, T(e) }; });
}
// compile-time facts
template <class T, int N> void facts()
{
	using V = basic_vector<T, N>; Hash h; using W = basic_view<true, T, N>; using O = view_vector<T, N>;
	for (u64 x : { (u64)sizeof(V), (u64)alignof(V), (u64)sizeof(W), (u64)sizeof(O), (u64)std::is_trivially_copyable_v<V>, (u64)std::is_standard_layout_v<V>, (u64)std::is_trivially_copyable_v<W>, (u64)std::is_aggregate_v<V>, (u64)std::is_trivially_default_constructible_v<V>, (u64)std::is_convertible_v<T, V>, (u64)std::is_convertible_v<V, T>, (u64)std::is_constructible_v<V, T>,
		(u64)std::is_constructible_v<W, T *>, (u64)std::is_assignable_v<W &, V>, (u64)std::is_assignable_v<const W &, V>, (u64)std::is_assignable_v<V, V>, (u64)std::is_assignable_v<V &, basic_vector<double, N>>, (u64)std::is_nothrow_copy_constructible_v<V>, (u64)std::is_swappable_v<V>, (u64)std::is_swappable_v<W>, (u64)std::ranges::contiguous_range<V>, (u64)std::ranges::random_access_range<W>, (u64)std::tuple_size<V>::value }) h.add(x);
	emit(strf("facts about %s %d", tn<T>(), N), h);
}
#if MC_G == 3
// histories: every sequence of LEN operations on one world, from two start states; the whole world is digested after each sequence
template <class T> struct World
{
	T mem[8]; basic_vector<T, 4> a, b; basic_vector<T, 3> c; basic_view<true, T, 4> w{ mem }; basic_view<true, T, 3> u{ mem + 4 }; view_vector<T, 3> o; basic_matrix<float, 3, 3> m{ 1.0f };
	explicit World(int k) : a(T(1), T(2), T(3), T(k)), b(T(5 + k), T(6), T(7), T(8)), c(T(9), T(k), T(11)), o(T(3), T(1), T(2)) { for (int i = 0; i < 8; ++i) mem[i] = T(20 + i * (k + 1)); }
	void digest(Hash &h) const { put(h, a); put(h, b); put(h, c); put(h, o); for (T x : mem) put(h, x); put(h, m); }
};
template <class T> void histories(int len)
{
	using W = World<T>; struct Op { const char *name; void (*f)(W &); };
#define OP(...) { #__VA_ARGS__, [](W &s) { using std::swap; __VA_ARGS__; } },
	static const Op ops[] = { OP(s.a.xy = s.a.yx) OP(s.a.wzyx = s.b) OP(s.b.yzw = s.c) OP(s.c = s.a.wxw) OP(s.w = s.a) OP(s.w.zyx = s.u) OP(s.a.xz += s.b.yw) OP(s.w -= s.b) OP(++s.c) OP(s.u.zx++) OP(s.a = s.a.cshift(1)) OP(s.b = s.w) OP(s.o = s.u) OP(s.u = s.o.zxy) OP(s.a.swap(s.b)) OP(s.w.reset(s.mem + 1)) OP(s.w.reset(s.mem)) OP(s.c.set(s.c.z, s.c.x, s.c.y)) OP(s.m[1] = basic_vector<float, 3>(s.c)) OP(s.m = transpose(s.m) * s.m; for (int i = 0; i < 9; ++i) s.m[i / 3][i % 3] = float(int(s.m[i / 3][i % 3]) % 97))
		OP(for (auto &x : s.a.yw) x = T(x + T(1))) OP(std::ranges::sort(s.o)) OP(std::reverse(s.b.xyz.begin(), s.b.xyz.end())) OP(try { basic_view<true, T, 4> v(s.mem + 2); s.w.swap(v); } catch (const std::range_error &) { ++s.mem[0]; }) OP(s.a = s.b * T(2) - s.a) OP(s.c[1] = s.a[2]) };
	constexpr int n = sizeof ops / sizeof *ops; std::vector<int> seq(len, 0);
	for (int first = 0; first < n; ++first) for (int second = 0; second < n; ++second)
	{
		Hash h; int total = 1; for (int i = 2; i < len; ++i) total *= n;
		for (int start = 0; start < 2; ++start) for (int q = 0; q < total; ++q)
		{
			W s(start); snprintf(ctxbuf, sizeof ctxbuf, "%s; %s; ... %d", ops[first].name, ops[second].name, q);
			ops[first].f(s); ops[second].f(s); for (int i = 2, r = q; i < len; ++i, r /= n) { ops[r % n].f(s); }
			for (T &x : s.a) if constexpr (std::is_integral_v<T>) x = T(x % 1000); for (T &x : s.b) if constexpr (std::is_integral_v<T>) x = T(x % 1000);
			s.digest(h); ++C_.states; C_.transitions += len;
		}
		emit(strf("histories that begin with [%s] [%s] on %s", ops[first].name, ops[second].name, tn<T>()), h); ++C_.traces;
	}
}
template <class T, int C, int R> void matrices()
{
	using M = basic_matrix<T, C, R>; const auto l = small<T>(); Hash h[16]; snprintf(ctxbuf, sizeof ctxbuf, "matrices %s %dx%d", tn<T>(), C, R);
	auto mk = [&](int i, int s) { M m; for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) m[c][r] = l[(i + s * (c * R + r) + c * c) % 12]; return m; };
	for (int i = 0; i < 12; ++i) for (int s = 0; s < 12; ++s)
	{
		const M a = mk(i, s), b = mk(s, i + 1); int k = 0;
		put(h[k++], a + b); put(h[k++], a - b); put(h[k++], a / (b + T(2000))); put(h[k++], matrixCompMult(a, b)); put(h[k++], transpose(a)); put(h[k++], a * transpose(b)); put(h[k++], a * b.row(0)); put(h[k++], a[C - 1] * b); put(h[k++], -a); put(h[k++], a * T(3)); put(h[k++], a.row(R - 1)); put(h[k++], a == b); put(h[k++], basic_matrix<double, 3, 3>(a)); put(h[k++], basic_matrix<T, 4, 2>(a));
		if constexpr (C == R) { put(h[k++], determinant(a)); put(h[k++], inverse(a + M(T(50)))); }
		C_.states += k; C_.transitions += k;
	}
	for (int k = 0; k < 16; ++k) emit(strf("matrix expression %d on %s %dx%d", k, tn<T>(), C, R), h[k]);
}
#endif
int main(int argc, char **argv)
{
	init(argc, argv);
#if MC_G == 0
	functions_of<int>();
#elif MC_G == 1
	functions_of<unsigned>(); functions_of<bool>();
#elif MC_G == 2
	functions_of<long long>();
#elif MC_G == 4
	functions_of<double>(); scalars<double>();
#elif MC_G == 5
	functions_of<float>(); scalars<float>();
#else
	histories<int>(thorough ? 5 : 4); histories<float>(thorough ? 5 : 4);
	static_for<9>([]<int I>(std::integral_constant<int, I>) { matrices<float, I / 3 + 2, I % 3 + 2>(); matrices<double, I / 3 + 2, I % 3 + 2>(); });
	static_for<4>([]<int I>(std::integral_constant<int, I>) { facts<int, I + 1>(); facts<float, I + 1>(); facts<double, I + 1>(); facts<bool, I + 1>(); facts<long long, I + 1>(); });
#endif
	sample(strf("group %d explored; %s %s", MC_G,
#ifdef __clang__
		"clang",
#else
		"g++",
#endif
#ifdef DSGA_DISABLE_ASSERTS
		"without assertions"
#else
		"with assertions"
#endif
		));
	total = C_; return finish();
}
