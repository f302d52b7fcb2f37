// P36: storage_wrapper and view_wrapper.  -DMC_T=t operations, -DMC_EQ=t equality against every type, -DMC_SET=t set() with arguments of mixed types
#include "mixed.hpp"
using namespace mc;
static Counters C_;
static void step(u64 n = 1) { C_.states += n; C_.transitions += n; C_.traces += n; }
using T8 = std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>; template <int I> using T_ = std::tuple_element_t<I, T8>;
template <class T> static std::vector<T> letters() { using L = std::numeric_limits<T>; if constexpr (std::is_same_v<T, bool>) return { false, true }; else if constexpr (std::is_floating_point_v<T>) return { T(0), T(-1.5), L::infinity(), L::quiet_NaN(), -T(0) }; else return { T(0), T(1), L::max(), L::min() }; }
template <int N, class T, class F> void words_(const std::vector<T> &al, F f) { T w[4]; std::size_t t = 1; for (int i = 0; i < N; ++i) t *= al.size(); for (std::size_t q = 0; q < t; ++q) { std::size_t z = q; for (int i = 0; i < N; ++i) { w[i] = al[z % al.size()]; z /= al.size(); } f((const T *)w); } }
template <class T> static bool eq(const T *a, const T *b, int n) { for (int i = 0; i < n; ++i) if (!same_bits(a[i], b[i])) return false; return true; }
template <class T> static std::string show(const T *w, int n) { return vstr(std::vector<T>(w, w + n)); }
template <class T> __attribute__((noinline)) static void is(const std::string &key, const T *got, const T *want, int n) { step(); if (!eq(got, want, n)) fail(key, show(got, n) + " instead of " + show(want, n)); }
static void want(bool ok, const std::string &key, const char *what) { step(); if (!ok) fail(key, what); }

#ifdef MC_T
using T = T_<MC_T>;
// every way of reading an object gives the words w
template <int N, class O> static void read(const std::string &k, O &o, const T *w)
{
	T g[5]; const auto &c = o; auto reset = [&] { for (T &x : g) x = T(w[0] == w[0] ? !w[0] : 1); };
	auto fin = [&](const char *how) { is(k + how, (const T *)g, w, N); reset(); }; reset();
	for (int i = 0; i < N; ++i) g[i] = o[i]; fin(" []"); for (int i = 0; i < N; ++i) g[i] = c[(std::size_t)i]; fin(" const []");
	for (int i = 0; i < N; ++i) g[i] = o.data()[i]; fin(" data()"); for (int i = 0; i < N; ++i) g[i] = c.data()[i]; fin(" const data()");
	std::copy(o.begin(), o.end(), g); fin(" begin()"); std::copy(c.begin(), c.end(), g); fin(" const begin()"); std::copy(c.cbegin(), c.cend(), g); fin(" cbegin()"); std::reverse_copy(o.rbegin(), o.rend(), g); fin(" rbegin()"); std::reverse_copy(c.rbegin(), c.rend(), g); fin(" const rbegin()"); std::reverse_copy(c.crbegin(), c.crend(), g); fin(" crbegin()");
	{ int i = 0; for (auto x : c) g[i++] = x; } fin(" range-for"); { static_for<N>([&](auto i) { g[i] = dsga::get<i>(c); }); } fin(" get"); static_for<N>([&](auto i) { g[i] = dsga::get<i>(o); }); fin(" get of mutable");
	want(o.end() - o.begin() == N && c.rend() - c.rbegin() == N && c.length() == N && (int)c.size() == N, k + " length", "wrong");
}
// every way of writing: f(object, words)
template <int N, class O, class F> static void writes(F each)
{
	each(" [] =", [](O &o, const T *w) { for (int i = 0; i < N; ++i) o[i] = w[i]; }); each(" data()[] =", [](O &o, const T *w) { for (int i = N; i-- > 0;) o.data()[i] = w[i]; }); each(" *begin() =", [](O &o, const T *w) { std::copy(w, w + N, o.begin()); }); each(" *rbegin() =", [](O &o, const T *w) { std::reverse_copy(w, w + N, o.rbegin()); });
	each(" range-for =", [](O &o, const T *w) { int i = 0; for (auto &x : o) x = w[i++]; }); each(" get =", [](O &o, const T *w) { static_for<N>([&](auto i) { dsga::get<i>(o) = w[i]; }); }); each(" set", [](O &o, const T *w) { [&]<std::size_t... I>(std::index_sequence<I...>) { o.set(w[I]...); }(std::make_index_sequence<N>{}); });
}
template <int N> static void owned()
{
	using O = dsga::storage_wrapper<true, T, N>; using CO = dsga::storage_wrapper<false, T, N>; const std::string k = strf("storage_wrapper%d<%s>", N, tname<T>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", k.c_str()); auto al = letters<T>(); if (N == 4 && al.size() > 4) al.resize(4);
	struct Box { T lo[2]; O o; T hi[2]; }; static Box b; const T guard = T(1); auto guards = [&](const std::string &q) { step(); if (!same_bits(b.lo[0], guard) || !same_bits(b.lo[1], guard) || !same_bits(b.hi[0], guard) || !same_bits(b.hi[1], guard)) fail(k + q, "memory next to it changed"); };
	for (T *p : { b.lo, b.hi }) p[0] = p[1] = guard; want(sizeof(O) == N * sizeof(T) && std::is_trivially_copyable_v<O> && std::is_aggregate_v<O>, k, "size or aggregate"); want(std::is_same_v<decltype(dsga::storage_wrapper{ T(1), T(0) }), dsga::storage_wrapper<true, T, 2>> && std::is_same_v<decltype(dsga::storage_wrapper{ T(1) }), dsga::storage_wrapper<true, T, 1>>, k, "deduced type");
	words_<N>(al, [&](const T *w) {
		auto make = [&]<std::size_t... I>(std::index_sequence<I...>) { return O{ w[I]... }; }; b.o = make(std::make_index_sequence<N>{}); read<N>(k, b.o, w); guards("");
		auto cmake = [&]<std::size_t... I>(std::index_sequence<I...>) { return CO{ w[I]... }; }; const CO c = cmake(std::make_index_sequence<N>{}); read<N>("const " + k, c, w);
		O copy(b.o), moved(std::move(copy)), assigned{}; assigned = b.o; read<N>(k + " copied", moved, w); read<N>(k + " assigned", assigned, w); for (int i = 0; i < N; ++i) { assigned[i] = T(!w[i]); moved[i] = T(!w[i]); } is(k + " after its copies changed", b.o.data(), w, N);
		T other[4]; for (int i = 0; i < N; ++i) other[i] = w[(i + 1) % N] == w[(i + 1) % N] ? T(!w[(i + 1) % N]) : T(0);
		writes<N, O>([&](const char *how, auto f) { for (int i = 0; i < N; ++i) b.o[i] = other[i]; f(b.o, w); is(k + how, (const T *)b.o.store.data(), w, N); guards(how); });
		// one element at a time
		for (int i = 0; i < N; ++i) { b.o = make(std::make_index_sequence<N>{}); T x[4]; std::copy(w, w + N, x); x[i] = other[i]; b.o[i] = other[i]; is(k + " one [] =", b.o.data(), (const T *)x, N); }
		// swap with every other word
		words_<N>(al, [&](const T *v) {
			for (int how = 0; how < 3; ++how)
			{
				O x{}; for (int i = 0; i < N; ++i) { b.o[i] = w[i]; x[i] = v[i]; } if (how == 0) b.o.swap(x); else if (how == 1) { using std::swap; swap(x, b.o); } else std::ranges::swap(b.o, x);
				is(k + " swap left", b.o.data(), v, N); is(k + " swap right", x.data(), w, N); guards(" swap");
			}
		});
	});
}
template <int N> static void viewed()
{
	using V = dsga::view_wrapper<true, T, N>; using CV = dsga::view_wrapper<false, T, N>; const std::string k = strf("view_wrapper%d<%s>", N, tname<T>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", k.c_str()); auto al = letters<T>(); if (N == 4 && al.size() > 4) al.resize(4); constexpr int M = 3 * N + 2;
	static T mem[M], ref[M]; auto fill = [&] { for (int i = 0; i < M; ++i) mem[i] = ref[i] = T(i % 2); }; auto all = [&](const std::string &how) { is(k + how + " (all memory)", (const T *)mem, (const T *)ref, M); };
	words_<N>(al, [&](const T *w) {
		for (int at : { 1, N }) {
			fill(); std::copy(w, w + N, mem + at); std::copy(w, w + N, ref + at); V v(mem + at); CV c(mem + at); read<N>(k, v, w); read<N>("const " + k, c, w); all(" reading");
			V copy(v), reset_; reset_.reset(mem + at); read<N>(k + " copied", copy, w); read<N>(k + " reset", reset_, w); want(copy.data() == mem + at && reset_.data() == mem + at && c.data() == mem + at && V().store == nullptr, k + " address", "wrong");
			{ CV d((const T *)mem); d.reset(mem + at); read<N>("const " + k + " reset", d, w); }
			writes<N, V>([&](const char *how, auto f) { fill(); std::copy(w, w + N, ref + at); V u(mem + at), also(u); f(u, w); all(how); read<N>(k + how + " seen by a copy", also, w); });
		}
	});
	// swap: every placement of two views
	for (int a = 0; a + N <= M; ++a) for (int c = 0; c + N <= M; ++c) for (int how = 0; how < 3; ++how)
	{
		for (int i = 0; i < M; ++i) mem[i] = ref[i] = T((i * 7 + 3) % 11); const bool over = a != c && std::abs(a - c) < N; if (!over && a != c) for (int i = 0; i < N; ++i) std::swap(ref[a + i], ref[c + i]); V x(mem + a), y(mem + c); bool thrown = false;
		try { if (how == 0) x.swap(y); else if (how == 1) { using std::swap; swap(x, y); } else dsga::swap(y, x); } catch (const std::exception &) { thrown = true; }
		step(); if (thrown != over) fail(k + " swap", strf("at %d and %d: %s", a, c, thrown ? "refused" : "overlap accepted")); all(strf(" swap%s", over ? " of overlapping views" : "")); want(x.data() == mem + a && y.data() == mem + c, k + " swap addresses", "changed");
	}
}
static void run() { static_for<4>([](auto n) { owned<n + 1>(); viewed<n + 1>(); }); sample("every word over up to 5 boundary values: 14 ways of reading, 7 of writing, copies, swaps of all pairs; views at two places, swaps at every pair of places"); }
#endif
#ifdef MC_EQ
template <class A, class B> static bool scalar_eq(A a, B b) { using R = std::common_type_t<A, B>; return (R)a == (R)b; }
template <class A, class B, int N> static void pairs()
{
	using SA = dsga::storage_wrapper<true, A, N>; using SB = dsga::storage_wrapper<true, B, N>; using VA = dsga::view_wrapper<true, A, N>; using VB = dsga::view_wrapper<false, B, N>; const std::string k = strf("%d<%s> == <%s>", N, tname<A>(), tname<B>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", k.c_str());
	if constexpr (requires (SA a, SB b) { a == b; })
	{
		auto la = letters<A>(); auto lb = letters<B>(); la.push_back(A(16777217)); lb.push_back(B(16777216)); lb.push_back(B(16777217)); la.push_back(A(1)); if (N < 3) { la.push_back(std::numeric_limits<A>::max()); lb.push_back(std::numeric_limits<B>::max()); } if (N == 3) { la.resize(4); lb.resize(4); } if (N == 4) { la.resize(3); lb.resize(3); lb.push_back(B(1)); }
		words_<N>(la, [&](const A *a) { words_<N>(lb, [&](const B *b) {
			bool same = true; for (int i = 0; i < N; ++i) same &= scalar_eq(a[i], b[i]); SA x; SB y; for (int i = 0; i < N; ++i) { x[i] = a[i]; y[i] = b[i]; } VA u(a); VB v(b);
			step(4); if ((x == y) != same) fail("storage_wrapper" + k, show(a, N) + " and " + show(b, N) + (same ? ": unequal" : ": equal")); if ((x != y) == same) fail("storage_wrapper != " + k, show(a, N) + " and " + show(b, N)); if ((u == v) != same) fail("view_wrapper" + k, show(a, N) + " and " + show(b, N) + (same ? ": unequal" : ": equal")); if ((u != v) == same) fail("view_wrapper != " + k, show(a, N) + " and " + show(b, N));
			dsga::storage_wrapper<false, B, N> cy{}; cy.store = y.store; step(); if ((x == cy) != same) fail("storage_wrapper const " + k, show(a, N) + " and " + show(b, N));
		}); });
		if constexpr (std::is_same_v<A, B>) // the same object, views of the same and of overlapping memory
		{
			auto al = letters<A>(); al.push_back(A(1)); static A mem[2 * N];
			for (int at = 0; at <= N; ++at) for (int fill = 0; fill < 2; ++fill) words_<N>(al, [&](const A *a) {
				for (A &m : mem) m = fill ? a[0] : A(1); std::copy(a, a + N, mem); SA x; for (int i = 0; i < N; ++i) x[i] = a[i]; VA u(mem), w(mem + at); VB v(mem + at);
				bool same = true, self = true; for (int i = 0; i < N; ++i) { same &= scalar_eq(mem[i], mem[at + i]); self &= a[i] == a[i]; }
				step(3); if ((x == x) != self || (x != x) == self) fail("storage_wrapper" + k + " itself", show(a, N)); if ((u == u) != self || (u != u) == self) fail("view_wrapper" + k + " itself", show(a, N));
				if ((u == v) != same || (u == w) != same || (w == u) != same || (u != w) == same) fail("view_wrapper" + k + " overlapping", strf("%s and %d further on", show(mem, 2 * N).c_str(), at));
			});
		}
	}
	else if (std::is_same_v<A, B>) fail(k, "does not compile");
}
static void run() { using A = T_<MC_EQ>; static_for<7>([](auto j) { using B = T_<j>; pairs<A, B, 1>(); pairs<A, B, 2>(); pairs<A, B, 3>(); pairs<A, B, 4>(); }); sample("all pairs of words over boundary values, of every pair of types that can be compared"); }
#endif
#ifdef MC_SET
struct W_store { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::storage_wrapper<true, T, sizeof...(U)> v{}; v.set(u...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }, a); } };
struct W_view { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::view_wrapper<true, T, sizeof...(U)> v(o); v.set(u...); }, a); } };
static void run() { mixed_lists<std::tuple_element_t<MC_SET, mixed_types>>(C_, [](auto l) { using L = decltype(l); L::template run<W_store>("storage_wrapper.set()"); L::template run<W_view>("view_wrapper.set()"); }); sample("set() with argument lists mixing component types: all pairs, longer lists with one odd argument, every combination of boundary values"); }
#endif
int main(int argc, char **argv) { init(argc, argv); run(); total = C_; return finish(); }
