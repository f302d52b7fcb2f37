// P31: examples/compare.hxx.  -DMC_T=t -DMC_U=u component types; -DMC_KINDS every pair of kinds; -DMC_WEIGHTS; -DMC_MAT
#include "kinds.hpp"
#include "compare.hxx"
using namespace mc;
static Counters C_;
using Types = std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double>;
// -1, 0, 1, or 2 for unordered: exact for integers, after conversion to the common type otherwise (as comparisons of the scalars do)
template <class A, class B> int cmp(A a, B b)
{
	if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) { const __int128 x = a, y = b; return x < y ? -1 : x > y ? 1 : 0; }
	else { using R = std::common_type_t<A, B>; const R x = (R)a, y = (R)b; return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2; }
}
template <class A, class B> int lex(const A *a, const B *b, int n) { int r = 0; for (int i = 0; i < n; ++i) { const int c = cmp(a[i], b[i]); if (c == 2) return 2; if (!r) r = c; } return r; }
template <class O> int num(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
static const char *word(int r) { const char *w[] = { "less", "equal", "greater", "unordered" }; return w[r + 1]; }
// the weighted signs of the wrapped differences when one of them overflows (3 otherwise): what the comparison of signed integers is known to use
template <class A, class B, class W> int wrapped(const A *a, const B *b, const W *w, int n)
{
	if constexpr (std::is_integral_v<A> && std::is_signed_v<A> && std::is_integral_v<B> && std::is_signed_v<B>)
	{
		long long s = 0; bool over = false; for (int i = 0; i < n; ++i) { std::common_type_t<A, B> d; over |= __builtin_sub_overflow(a[i], b[i], &d); s += (long long)w[i] * ((d > 0) - (d < 0)); }
		return over ? (s > 0) - (s < 0) : 3;
	}
	else return 3;
}
template <class A, class B> std::string overflow_key(const char *what) { return strf("%s %s by %s where the difference of two components overflows", what, tname<A>(), tname<B>()); }
template <class A, class B> struct OJob { std::string key; int n; int (*run)(const A *, const B *); };
template <class A, class B> __attribute__((noinline)) void check(const OJob<A, B> &j, const A *a, const B *b, int want)
{
	const int got = j.run(a, b); ++C_.states; ++C_.traces; ++C_.transitions;
	if (got != want) fail(j.key, strf("%s and %s: %s, expected %s", vstr(std::vector<A>(a, a + j.n)).c_str(), vstr(std::vector<B>(b, b + j.n)).c_str(), got > 2 ? "inconsistent relations" : word(got), word(want)));
}
// a pair for which the wrapped differences give `other`: that answer, or relations that contradict each other for `mixed`, is reported under a key of its own
template <class A, class B> __attribute__((noinline)) void known(const OJob<A, B> &j, const A *a, const B *b, int want, int other, const char *what, bool mixed = false)
{
	const int got = j.run(a, b);
	if (got != want && (got == other || (mixed && got == 3))) { ++C_.states; ++C_.traces; ++C_.transitions; fail(overflow_key<A, B>(what), strf("%s and %s: %s, expected %s", vstr(std::vector<A>(a, a + j.n)).c_str(), vstr(std::vector<B>(b, b + j.n)).c_str(), got == 3 ? "contradictory" : word(got), word(want))); }
	else check(j, a, b, want);
}
// <=> and the operators derived from it
template <class V, class W> int relations(V &v, W &w)
{
	const int r = num(v <=> w), back = num(w <=> v);
	if (back != (r == 2 ? 2 : -r)) return 3;
	if ((v < w) != (r == -1) || (v > w) != (r == 1) || (v <= w) != (r == -1 || r == 0) || (v >= w) != (r == 1 || r == 0)) return 4;
	return r;
}
template <class T> std::vector<T> letters(int n)
{
	using L = std::numeric_limits<T>; std::vector<T> v;
	if constexpr (std::is_floating_point_v<T>) v = { T(0), T(1), L::infinity(), L::quiet_NaN(), -L::infinity(), T(-1), -T(0), L::denorm_min(), L::max(), L::lowest(), T(1) + L::epsilon(), T(2.5), -L::denorm_min(), T(16777216), T(16777217), T(0.1f), T(0.1) };
	else if constexpr (std::is_signed_v<T>) v = { L::max(), L::min(), T(0), T(-1), T(1), T(L::min() + 1), T(L::max() - 1), T(2), T(-2), T(16777217), T(16777216), T(L::max() / 2), T(L::min() / 2 - 1), T(2147483647), T(-2147483648LL) };
	else v = { L::max(), T(0), T(1), T(L::max() / 2), T(L::max() / 2 + 1), T(2), T(L::max() - 1), T(16777217), T(16777216), T(4294967295u), T(2147483647), T(2147483648u), T(3) };
	const int size[] = { 99, thorough ? 99 : 10, thorough ? 7 : 5, thorough ? 5 : 4 }; if ((int)v.size() > size[n - 1]) v.resize(size[n - 1]); return v;
}
template <int N, class A, class F> void words_(const std::vector<A> &al, F f) { A w[4]; std::size_t t = 1; for (int i = 0; i < N; ++i) t *= al.size(); for (std::size_t q = 0; q < t; ++q) { std::size_t z = q; for (int i = 0; i < N; ++i) { w[i] = al[z % al.size()]; z /= al.size(); } f(w); } }
template <class> struct Runner
{
#if defined(MC_T)
	using T = std::tuple_element_t<MC_T, Types>; using U = std::tuple_element_t<MC_U, Types>;
	template <int N> static void len()
	{
		OJob<T, U> j; j.n = N; j.key = strf("vec%d<%s> <=> vec%d<%s>", N, tname<T>(), N, tname<U>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
		j.run = [](const T *a, const U *b) { static dsga::basic_vector<T, N> v; static dsga::basic_vector<U, N> w; for (int i = 0; i < N; ++i) { v[i] = a[i]; w[i] = b[i]; } return relations(v, w); };
		constexpr bool ints = std::is_integral_v<T> && std::is_integral_v<U>; using O = decltype(std::declval<dsga::basic_vector<T, N>>() <=> std::declval<dsga::basic_vector<U, N>>());
		if (!std::is_same_v<O, std::conditional_t<ints, std::strong_ordering, std::partial_ordering>>) fail(j.key + " category", "wrong ordering category");
		words_<N>(letters<T>(N), [&](const T *a) { words_<N>(letters<U>(N), [&](const U *b) {
			static const int first[] = { 27, 9, 3, 1 }; const int want = lex(a, b, N), z = wrapped(a, b, first, N), y = wrapped(b, a, first, N);
			if (z == 3 && y == 3) check(j, a, b, want); else if (z == 3 || y == 3 || z != want || y != -want) known(j, a, b, want, z == 3 ? want : z, "<=>", true); else check(j, a, b, want);
		}); });
	}
	static void run() { len<1>(); len<2>(); len<3>(); len<4>(); sample(strf("all pairs of words over boundary values of %s and %s, lengths 1 to 4: <=>, both ways round, < > <= >=", tname<T>(), tname<U>())); }
#endif
#ifdef MC_KINDS
	using T = std::tuple_element_t<MC_KINDS, Types>;
	template <int N, int K, int L> static void pair_()
	{
		static Obj<T, N, K> a_; static Obj<T, N, L> b_; OJob<T, T> j; j.n = N; j.key = strf("%s%d <=> %s%d %s", kname(K), N, kname(L), N, tname<T>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
		j.run = [](const T *a, const T *b) { mem(a_).put(a); mem(b_).put(b); return (K + L) % 2 ? relations(a_.get(), b_.get()) : relations(std::as_const(a_.get()), std::as_const(b_.get())); };
		std::vector<T> al = std::is_floating_point_v<T> ? std::vector<T>{ T(0), T(1), std::numeric_limits<T>::quiet_NaN() } : std::vector<T>{ T(0), T(1), std::numeric_limits<T>::max() };
		words_<N>(al, [&](const T *a) { words_<N>(al, [&](const T *b) { check(j, a, b, lex(a, b, N)); }); });
		if (!mem(a_).n) fail(j.key, "no memory");
	}
	static void run() { static_for<NKINDS * NKINDS>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value, K = Q / NKINDS, L = Q % NKINDS; pair_<1, K, L>(); pair_<2, K, L>(); pair_<3, K, L>(); if constexpr (Q % 5 == 0) pair_<4, K, L>(); }); sample("all pairs of kinds x all pairs of words over three values"); }
#endif
#ifdef MC_WEIGHTS
	using T = std::tuple_element_t<MC_WEIGHTS, Types>;
	template <int N, class W, int K> static void weights(const std::vector<W> &wa)
	{
		static Obj<W, N, K> w_; static W ws[4]; static int k_; std::vector<T> al = letters<T>(1); al.resize(N == 1 ? al.size() : N == 2 ? 6 : N == 3 ? 4 : 3); OJob<T, T> j; j.n = N;
		j.run = [](const T *a, const T *b) { dsga::basic_vector<T, N> v, w; for (int i = 0; i < N; ++i) { v[i] = a[i]; w[i] = b[i]; } return num(dsga::weighted_compare(v, w, w_.get())); };
		words_<N>(wa, [&](const W *w) {
			for (int i = 0; i < N; ++i) ws[i] = w[i]; W c[4]; for (int i = 0; i < 4; ++i) c[i] = w[i]; mem(w_).put(c); j.key = strf("weighted_compare %s by %s weights %s", tname<T>(), tname<W>(), vstr(std::vector<W>(w, w + N)).c_str()); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
			words_<N>(al, [&](const T *a) { words_<N>(al, [&](const T *b) { long long s = 0; bool un = false; for (int i = 0; i < N; ++i) { const int q = cmp(a[i], b[i]); const bool nan = a[i] != a[i] || b[i] != b[i]; un |= nan; s += nan ? 0 : (long long)w[i] * q; } const int want = un ? 2 : s < 0 ? -1 : s > 0 ? 1 : 0; if (const int z = wrapped(a, b, w, N); z != 3 && z != want) known(j, a, b, want, z, "weighted_compare"); else check(j, a, b, want); }); });
		});
	}
	static void run()
	{
		weights<1, int, K_VEC>({ 1, -1, 0, 7 }); weights<2, int, K_SWZ>({ 1, 3, -1, 0, -3, 2 }); weights<3, int, K_VIEW>({ 1, 3, 9, -1, 0 }); weights<4, int, K_VSWZ>({ 1, 3, 9, 27 }); weights<4, int, K_OWN>({ -1, 0, 2 });
		weights<2, long long, K_CVIEW>({ 1, 1LL << 40, -(1LL << 41), 0 }); weights<3, long long, K_OSWZ>({ 1, 1LL << 40, -5 });
		auto d = dsga::default_comparison_weights<4>(); if (!(d[0] > d[1] + d[2] + d[3] && d[1] > d[2] + d[3] && d[2] > d[3] && d[3] > 0)) fail("default_comparison_weights<4>", "x does not have priority over y, z and w");
		auto e = dsga::default_comparison_weights<3>(); if (!(e[0] > e[1] + e[2] && e[1] > e[2] && e[2] > 0)) fail("default_comparison_weights<3>", "priorities"); auto f = dsga::default_comparison_weights<2>(); if (!(f[0] > f[1] && f[1] > 0)) fail("default_comparison_weights<2>", "priorities");
		sample("weights over small alphabets (permutations, negative, zero, 64-bit) x all pairs of words");
	}
#endif
#ifdef MC_MAT
	template <class T, class U> static void shapes()
	{
		static_for<9>([](auto q) {
			constexpr int Q = std::remove_cvref_t<decltype(q)>::value, C = Q % 3 + 2, R = Q / 3 + 2, N = C * R; OJob<T, U> j; j.n = N; j.key = strf("mat%dx%d<%s> <=> <%s>", C, R, tname<T>(), tname<U>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
			j.run = [](const T *a, const U *b) { dsga::basic_matrix<T, C, R> v(a); dsga::basic_matrix<U, C, R> w(b); return relations(v, w); };
			const double deltas[] = { 0, 1, -1, INFINITY, -INFINITY, NAN };
			for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) for (double x : deltas) for (double y : deltas) for (int base = 0; base < 2; ++base)
			{
				T a[16]; U b[16]; for (int e = 0; e < N; ++e) a[e] = b[e] = base ? (e * 7) % 5 - 2 : 1; a[i] += x; b[k] += y; int want = 0;
				for (int c = 0; c < C && !want; ++c) want = lex(a + c * R, b + c * R, R);
				check(j, a, b, want);
			}
		});
	}
	static void run() { shapes<float, float>(); shapes<double, double>(); shapes<float, double>(); shapes<double, float>(); sample("9 shapes: every pair of single-element changes of 6 kinds in both operands"); }
#endif
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); total = C_; return finish(); }
