// P32: examples/slice.hxx.  -DMC_T=t component type; also with -DDSGA_DISABLE_ASSERTS (refused by exceptions then)
#include "kinds.hpp"
#include "slice.hxx"
using namespace mc;
static Counters C_;
using Types = std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>;
using T = std::tuple_element_t<MC_T, Types>;
static bool rejected(Out o) { return o == Out::asserted || o == Out::threw; }
static std::vector<std::size_t> offsets()
{
	std::set<std::size_t> s; for (std::size_t i = 0; i <= 300; ++i) { s.insert(i); s.insert(0 - i); s.insert(((std::size_t)1 << 63) - i); s.insert(((std::size_t)1 << 63) + i); }
	for (int b = 2; b < 64; ++b) for (int d = -6; d <= 6; ++d) s.insert(((std::size_t)1 << b) + d);
	return { s.begin(), s.end() };
}
template <class R> struct isview { static constexpr bool v = false; };
template <bool W, class X, std::size_t N> struct isview<dsga::basic_view<W, X, N>> { static constexpr bool v = true, w = W; using type = X; static constexpr int n = N; };
// the views the slice of L at an offset gives: address and value of every component, or refused; writing through it
struct SJob { std::string key; int n, len; bool writable; T *(*raw)(); T (*read)(std::size_t, int); const void *(*at)(std::size_t, int); void (*write)(std::size_t, int, T); const T *(*data)(std::size_t); };
__attribute__((noinline)) static void check(const SJob &j)
{
	snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (std::size_t off : offsets())
	{
		++C_.states; ++C_.traces; C_.transitions += 4; const bool valid = off < (std::size_t)j.n && off + j.len <= (std::size_t)j.n && off + j.len >= off;
		T *raw = j.raw(); for (int i = 0; i < j.n; ++i) raw[i] = T(i * 7 + 3);
		const void *volatile first = nullptr; Out o = attempt([&] { first = j.at(off, 0); });
		if (valid ? o != Out::ok : !rejected(o)) { fail(j.key, strf("offset %llu: %s", (unsigned long long)off, mc::name(o))); continue; }
		if (!valid) continue;
		if (j.data(off) != raw + off) fail(j.key + " data()", strf("offset %llu: another address", (unsigned long long)off));
		for (int i = 0; i < j.len; ++i)
		{
			if (j.at(off, i) != raw + off + i) fail(j.key, strf("offset %llu: component %d is another element", (unsigned long long)off, i));
			if (!same(j.read(off, i), raw[off + i])) fail(j.key, strf("offset %llu: component %d reads %s", (unsigned long long)off, i, str(j.read(off, i)).c_str()));
			if (j.writable)
			{
				std::vector<T> want(raw, raw + j.n); want[off + i] = std::is_same_v<T, bool> ? T(!want[off + i]) : T(100 + i); j.write(off, i, want[off + i]);
				if (std::vector<T>(raw, raw + j.n) != want) fail(j.key + " write", strf("offset %llu, component %d: %s, expected %s", (unsigned long long)off, i, vstr(std::vector<T>(raw, raw + j.n)).c_str(), vstr(want).c_str()));
			}
		}
	}
}
template <class O> O &obj() { static O o; return o; }
template <int N> struct OV { dsga::basic_vector<T, N> v{}; auto &get() { return v; } T *raw() { return v.data(); } static constexpr bool w = true; };
template <int N> struct OC { dsga::basic_vector<T, N> v{}; const auto &get() { return v; } T *raw() { return v.data(); } static constexpr bool w = false; };
template <int N> struct WV { T b[8]{}; dsga::basic_view<true, T, N> v{ b + 2 }; WV() = default; WV(const WV &) = delete; auto &get() { return v; } T *raw() { return b + 2; } static constexpr bool w = true; };
template <int N> struct WC { T b[8]{}; dsga::basic_view<true, T, N> v{ b + 2 }; WC() = default; WC(const WC &) = delete; const auto &get() { return v; } T *raw() { return b + 2; } static constexpr bool w = false; };
template <int N> struct RV { T b[8]{}; dsga::basic_view<false, T, N> v{ b + 2 }; RV() = default; RV(const RV &) = delete; auto &get() { return v; } T *raw() { return b + 2; } static constexpr bool w = false; };
template <int N> struct RC { T b[8]{}; dsga::basic_view<false, T, N> v{ b + 2 }; RC() = default; RC(const RC &) = delete; const auto &get() { return v; } T *raw() { return b + 2; } static constexpr bool w = false; };
template <int N> struct VV { dsga::view_vector<T, N> v{}; VV() = default; VV(const VV &) = delete; auto &get() { return v; } T *raw() { return v.data(); } static constexpr bool w = true; };
template <int N> struct VC { dsga::view_vector<T, N> v{}; VC() = default; VC(const VC &) = delete; const auto &get() { return v; } T *raw() { return v.data(); } static constexpr bool w = false; };
template <class O, int L> struct Once { static auto of(std::size_t off) { return dsga::slice<L>(obj<O>().get(), off); } };
// the slice of a slice: offsets that are 0 in the second step, so that every offset is still explored
template <class O, int L, int M> struct Twice { static auto of(std::size_t off) { auto s = dsga::slice<M>(obj<O>().get(), 0); return dsga::slice<L>(s, off); } };
template <class G, class O, int N, int L> void one(const std::string &key)
{
	SJob j; j.key = key; j.n = N; j.len = L; j.writable = O::w; j.raw = +[] { return obj<O>().raw(); };
	using R = decltype(G::of(0));
	if constexpr (!isview<R>::v) fail(key, "the result is not a view");
	else
	{
		if (isview<R>::w != O::w || !std::is_same_v<typename isview<R>::type, T> || isview<R>::n != L) fail(key, "length, component type or writability of the slice");
		j.read = +[](std::size_t off, int i) { auto s = G::of(off); const auto &c = s; return T(c[i]); };
		j.at = +[](std::size_t off, int i) -> const void * { auto s = G::of(off); return std::addressof(s[i]); };
		j.data = +[](std::size_t off) -> const T * { auto s = G::of(off); return s.data(); };
		j.write = +[](std::size_t off, int i, T x) { if constexpr (O::w) { auto s = G::of(off); if (i % 2) s[i] = x; else *(s.begin() + i) = x; } };
		check(j);
	}
}
template <template <int> class O, int N> void kind(const char *name)
{
	static_for<N>([&](auto l) { constexpr int L = decltype(l)::value + 1;
		one<Once<O<N>, L>, O<N>, N, L>(strf("slice<%d> of %s %d", L, name, N));
		static_for<N>([&](auto m) { constexpr int M = decltype(m)::value + 1, LL = std::remove_cvref_t<decltype(l)>::value + 1; if constexpr (M >= LL) one<Twice<O<N>, LL, M>, O<N>, M, LL>(strf("slice<%d> of slice<%d> of %s %d", LL, M, name, N)); });
	});
}
template <class V, int L> concept sliceable = requires (V v) { dsga::slice<L>(std::forward<V>(v), std::size_t(0)); };
template <int N> void lengths()
{
	kind<OV, N>("vector"); kind<OC, N>("const vector"); kind<WV, N>("view"); kind<WC, N>("const view"); kind<RV, N>("view of const"); kind<RC, N>("const view of const"); kind<VV, N>("owning view"); kind<VC, N>("const owning view");
	auto never = [](const char *what, bool b) { ++C_.states; if (b) fail(what, "accepted"); };
	never("slice longer than a vector", sliceable<dsga::basic_vector<T, N> &, N + 1>); never("slice longer than a view", sliceable<dsga::basic_view<true, T, N> &, N + 1>); never("slice longer than an owning view", sliceable<dsga::view_vector<T, N> &, N + 1>);
	never("slice of length 0", sliceable<dsga::basic_vector<T, N> &, 0> || sliceable<const dsga::basic_view<true, T, N> &, 0>);
	never("slice of a temporary vector", sliceable<dsga::basic_vector<T, N>, 1>); never("slice of a temporary owning view", sliceable<dsga::view_vector<T, N>, 1>);
}
int main(int argc, char **argv) { init(argc, argv); lengths<1>(); lengths<2>(); lengths<3>(); lengths<4>(); sample("8 kinds x lengths 1 to 4 x slice lengths x about 2000 offsets, and slices of slices"); total = C_; return finish(); }
