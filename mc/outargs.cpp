// P17: modf and frexp, all kinds of the argument and of the output argument, and outputs that overlap the argument (-DMC_T=5|6 [-DMC_OVERLAP])
#include "oracles.hpp"
#include "swizzles.hpp"
using namespace mc;
using T = std::conditional_t<MC_T == 5, float, double>;
static Counters C;

static std::vector<T> values() { std::vector<T> v; for (T x : unary_grid<T>()) if (finite(x)) v.push_back(x); return v; }
static void want_frexp(T x, T &m, int &e)
{
	if (x == 0) { m = x; e = 0; return; }
	using U = bits_t<T>; constexpr int M = fpbits<T>::M, B = fpbits<T>::B; int shift = 0;
	if (std::abs(x) < std::numeric_limits<T>::min()) { shift = 100; x = (T)((long double)x * 0x1p100L); }
	U b = std::bit_cast<U>(x); const U mask = ((U(1) << (sizeof(T) * 8 - 1 - M)) - 1) << M;
	e = int((b & mask) >> M) - B + 1 - shift; m = std::bit_cast<T>(U((b & ~mask) | (U(B - 1) << M)));
}
template <class O> struct Call { const char *f; const char *k1, *k2; int n; void (*run)(T *); };
template <class O, bool FREXP> __attribute__((noinline)) void check(const Call<O> &c, const Mem<T> &a, const Mem<O> &out)
{
	static const auto V = values(); const int n = c.n, L = (int)V.size(); ctx.what = c.f;
	for (int i0 = 0; i0 < L; ++i0)
	{
		T in[4], got[4], wf[4]; O start[4] = {}, wo[4];
		for (int i = 0; i < n; ++i)
		{
			in[i] = V[(i0 + i * 37) % L]; start[i] = O(7 + i);
			if constexpr (FREXP) want_frexp(in[i], wf[i], wo[i]); else { wo[i] = oracle_round(in[i], Rnd::trunc); wf[i] = in[i] - wo[i]; }
		}
		a.put(in); out.put(start); c.run(got); ++C.states; ++C.traces; C.transitions += 2 * n;
		bool ok = true; for (int i = 0; i < n; ++i) ok &= same(got[i], wf[i]);
		bool oo = true; for (int i = 0; i < out.n; ++i) { O w = O(91); for (int j = 0; j < n; ++j) if (out.slot[j] == i) w = wo[j]; oo &= same(out.raw[i], w); }
		std::string k = strf("%s(%s, %s) n=%d", c.f, c.k1, c.k2, n);
		if (!ok) fail(k, strf("%s of %s returned %s, expected %s", c.f, vstr(std::vector<T>(in, in + n)).c_str(), vstr(std::vector<T>(got, got + n)).c_str(), vstr(std::vector<T>(wf, wf + n)).c_str()));
		if (!oo) fail(k, strf("%s of %s left %s in the output's memory, expected components %s", c.f, vstr(std::vector<T>(in, in + n)).c_str(), out.show().c_str(), vstr(std::vector<O>(wo, wo + n)).c_str()));
		if (!a.holds(in)) fail(k, "the argument changed");
	}
}
template <int N, int K1, int K2> void kinds()
{
	static Obj<T, N, K1> a; static Obj<T, N, K2> o; static Obj<int, N, K2> e;
	static_assert(std::is_same_v<typename shape<decltype(dsga::modf(a.get(), o.get()))>::T, T>);
	auto put = [](const auto &r, T *g) { for (int i = 0; i < N; ++i) g[i] = comp(r, i); };
	(void)put;
	check<T, false>(Call<T>{ "modf", kname(K1), kname(K2), N, [](T *g) { const auto r = dsga::modf(a.get(), o.get()); for (int i = 0; i < N; ++i) g[i] = comp(r, i); } }, mem(a), mem(o));
	check<T, false>(Call<T>{ "modf", kname(K1), kname(K2), N, [](T *g) { const auto r = dsga::modf(std::as_const(a.get()), o.get()); for (int i = 0; i < N; ++i) g[i] = comp(r, i); } }, mem(a), mem(o));
	check<int, true>(Call<int>{ "frexp", kname(K1), kname(K2), N, [](T *g) { const auto r = dsga::frexp(a.get(), e.get()); for (int i = 0; i < N; ++i) g[i] = comp(r, i); } }, mem(a), mem(e));
}
// output and argument are swizzles of one object
struct A_self { static constexpr const char *name = "(whole)"; static constexpr int n = 4; static constexpr int idx[4] = { 0, 1, 2, 3 }; template <class V> static auto &get(V &v) { return v; } };
__attribute__((noinline)) void alias(const char *kind, const char *ln, const char *rn, int n, const int *li, const int *ri, T *raw, void (*run)(T *))
{
	static const T sets[][4] = { { T(1.25), T(-2.5), T(3.75), T(-4.125) }, { T(100.5), T(0.5), T(-0.25), T(7) }, { T(1e6) + T(0.5), T(-8), T(-0.875), T(2.0625) } };
	for (auto &s : sets)
	{
		T got[4], want[4]; memcpy(raw, s, sizeof s); memcpy(want, s, sizeof s); bool ok = true;
		for (int i = 0; i < n; ++i) want[li[i]] = oracle_round(s[ri[i]], Rnd::trunc);
		run(got); ++C.states; ++C.traces; C.transitions += n;
		for (int i = 0; i < n; ++i) ok &= got[i] == s[ri[i]] - oracle_round(s[ri[i]], Rnd::trunc);
		for (int i = 0; i < 4; ++i) ok &= raw[i] == want[i];
		if (!ok) fail(strf("modf(v.%s, v.%s) %s", rn, ln, kind), strf("v = %s: fraction %s, v afterwards %s, expected %s", vstr(std::vector<T>(s, s + 4)).c_str(), vstr(std::vector<T>(got, got + n)).c_str(), vstr(std::vector<T>(raw, raw + 4)).c_str(), vstr(std::vector<T>(want, want + 4)).c_str()));
	}
}
template <int K> struct Owner;
template <> struct Owner<0> { static constexpr const char *kind = "vector"; dsga::basic_vector<T, 4> v; T *raw() { return (T *)&v; } };
template <> struct Owner<1> { static constexpr const char *kind = "view"; T b[4] = {}; dsga::basic_view<true, T, 4> v{ b }; T *raw() { return b; } };
template <int K, class L, class R> void alias_pair()
{
	static Owner<K> o; alias(o.kind, L::name, R::name, L::n, L::idx, R::idx, o.raw(), [](T *g) { const auto r = dsga::modf(R::get(o.v), L::get(o.v)); for (int i = 0; i < L::n; ++i) g[i] = comp(r, i); });
}
template <class L, class... Ts, class F> void cross_(types<Ts...>, F f) { (f.template operator()<L, Ts>(), ...); }

int main(int argc, char **argv)
{
	init(argc, argv);
#ifndef MC_OVERLAP
	static_for<4>([&]<int N>(std::integral_constant<int, N>) { static_for<NKINDS>([&]<int K1>(std::integral_constant<int, K1>) { static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { if constexpr (kwritable(K2)) kinds<N + 1, K1, K2>(); }); }); });
	sample("modf and frexp: 8 argument kinds x 6 output kinds x lengths 1-4, all grid values in every lane");
#else
	auto pairs = [&]<int K>(std::integral_constant<int, K>) {
		auto go = [&]<class L, class R>() { alias_pair<K, L, R>(); };
		for_types(USwz<4, 1>{}, [&](auto l) { cross_<typename decltype(l)::type>(Swz<4, 1>{}, go); });
		for_types(USwz<4, 2>{}, [&](auto l) { cross_<typename decltype(l)::type>(Swz<4, 2>{}, go); });
		for_types(USwz<4, 3>{}, [&](auto l) { if constexpr (K == 0) cross_<typename decltype(l)::type>(Swz<4, 3>{}, go); else cross_<typename decltype(l)::type>(USwz<4, 3>{}, go); });
		for_types(USwz<4, 4>{}, [&](auto l) { using L = typename decltype(l)::type; cross_<L>(types<A_self, A_wzyx, A_yzwx, A_xxyy, A_zzxw>{}, go); });
		cross_<A_self>(Swz<4, 4>{}, go);
	};
	pairs(std::integral_constant<int, 0>{}); pairs(std::integral_constant<int, 1>{});
	sample("modf(v.abc, v.def): all unique output swizzles x argument swizzles of one vector and one view");
#endif
	total = C;
	return finish();
}
