// P26: arrays, tuple protocol, structured bindings.  -DMC_T=0..7
#include "kinds.hpp"
using namespace mc;
using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
static Counters C_;
static std::vector<std::array<T, 4>> tuples()
{
	std::vector<std::array<T, 4>> v; auto a = alphabet<T>(); int n = (int)a.size();
	if constexpr (std::is_same_v<T, bool>) for (int q = 0; q < 16; ++q) v.push_back({ T(!!(q & 1)), T(!!(q & 2)), T(!!(q & 4)), T(!!(q & 8)) });
	else { v.push_back({ T(1), T(2), T(3), T(4) }); for (int k = 0; k < n; ++k) for (int st = 1; st < 7; st += 2) v.push_back({ a[k], a[(k + st) % n], a[(k + 2 * st) % n], a[(k + 3 * st) % n] }); }
	return v;
}
// one way of taking an object apart; got[i] and the address it came from (0: a copy, not compared)
struct Way { const char *name; void (*run)(T *got, const T **addr); bool alias; };
struct Job { std::string key; int n; Mem<T> m; std::vector<Way> ways; void (*write)(T *, int way); int nwrite; };
__attribute__((noinline)) void explore(const Job &j)
{
	snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (auto &v : tuples())
	{
		j.m.put(v.data(), T(1));
		for (auto &w : j.ways)
		{
			T got[4] = {}; const T *addr[4] = {}; w.run(got, addr); ++C_.states; ++C_.traces; C_.transitions += j.n;
			for (int i = 0; i < j.n; ++i)
			{
				if (!same_bits(got[i], v[i])) fail(j.key + " " + w.name, strf("component %d is %s, expected %s", i, str(got[i]).c_str(), str(v[i]).c_str()));
				if (w.alias && addr[i] != j.m.raw + j.m.slot[i]) fail(j.key + " " + w.name, strf("component %d does not refer to the object", i));
			}
			if (!j.m.holds(v.data(), T(1))) fail(j.key + " " + w.name, "the object changed");
		}
		for (int k = 0; k < j.nwrite; ++k) { T nv[4]; for (int i = 0; i < 4; ++i) nv[i] = std::is_same_v<T, bool> ? T(!v[(i + 1) % 4]) : T(40 + i); j.write(nv, k); ++C_.states; ++C_.transitions; if (!j.m.holds(nv, T(1))) fail(j.key + strf(" writing way %d", k), "memory is " + j.m.show()); j.m.put(v.data(), T(1)); }
	}
}
template <class R> void put(T *got, const T **addr, int i, R &&x) { static_assert(std::is_same_v<std::remove_cvref_t<R>, T>); got[i] = x; addr[i] = &x; }
template <int N, class A> void bind_ref(A &&o, T *g, const T **ad)
{
	if constexpr (N == 1) { auto &&[a] = std::forward<A>(o); put(g, ad, 0, a); }
	else if constexpr (N == 2) { auto &&[a, b] = std::forward<A>(o); put(g, ad, 0, a); put(g, ad, 1, b); }
	else if constexpr (N == 3) { auto &&[a, b, c] = std::forward<A>(o); put(g, ad, 0, a); put(g, ad, 1, b); put(g, ad, 2, c); }
	else { auto &&[a, b, c, d] = std::forward<A>(o); put(g, ad, 0, a); put(g, ad, 1, b); put(g, ad, 2, c); put(g, ad, 3, d); }
}
template <int N, class A> void bind_copy(A &o, T *g, const T **ad)
{
	if constexpr (N == 1) { auto [a] = o; put(g, ad, 0, a); }
	else if constexpr (N == 2) { auto [a, b] = o; put(g, ad, 0, a); put(g, ad, 1, b); }
	else if constexpr (N == 3) { auto [a, b, c] = o; put(g, ad, 0, a); put(g, ad, 1, b); put(g, ad, 2, c); }
	else { auto [a, b, c, d] = o; put(g, ad, 0, a); put(g, ad, 1, b); put(g, ad, 2, c); put(g, ad, 3, d); }
}
template <int N, class A> void bind_write(A &o, const T *v)
{
	if constexpr (N == 1) { auto &[a] = o; a = v[0]; }
	else if constexpr (N == 2) { auto &[a, b] = o; a = v[0]; b = v[1]; }
	else if constexpr (N == 3) { auto &[a, b, c] = o; a = v[0]; b = v[1]; c = v[2]; }
	else { auto &[a, b, c, d] = o; a = v[0]; b = v[1]; c = v[2]; d = v[3]; }
}
template <class O> auto &obj() { static O o; return o; }
template <class O, int I> concept gettable = requires (O o) { dsga::get<I>(std::forward<O>(o)); };
// O: a holder with get(); W: its object may be written
template <class O, int N, bool W> void take_apart(const std::string &key)
{
	using X = std::remove_cvref_t<decltype(obj<O>().get())>;
	++C_.states;
	static_assert(std::tuple_size_v<X> == N && std::tuple_size_v<const X> == N);
	static_for<N>([](auto i) {
		constexpr int I = i; static_assert(std::is_same_v<std::remove_const_t<std::tuple_element_t<I, X>>, T> && std::is_same_v<std::tuple_element_t<I, const X>, const T>);
		using E = std::conditional_t<W, T, const T>;
		static_assert(std::is_same_v<decltype(dsga::get<I>(std::declval<X &>())), E &> && std::is_same_v<decltype(dsga::get<I>(std::declval<const X &>())), const T &>);
		static_assert(std::is_same_v<decltype(dsga::get<I>(std::declval<X>())), E &&> && std::is_same_v<decltype(dsga::get<I>(std::declval<const X>())), const T &&>);
	});
	static_assert(!gettable<X &, N> && !gettable<const X &, N> && !gettable<X &, -1> && !gettable<X &, N + 1>);
	Job j; j.key = key; j.n = N; O &o = obj<O>();
	j.m.raw = o.raw(); j.m.n = O::RAWN; j.m.comps = N; for (int i = 0; i < N; ++i) j.m.slot[i] = O::slot(i);
	j.ways = {
		{ "get<> of an lvalue", [](T *g, const T **a) { static_for<N>([&](auto i) { put(g, a, i, dsga::get<i>(obj<O>().get())); }); }, true },
		{ "get<> found by argument", [](T *g, const T **a) { static_for<N>([&](auto i) { put(g, a, i, get<i>(obj<O>().get())); }); }, true },
		{ "get<> of a const lvalue", [](T *g, const T **a) { static_for<N>([&](auto i) { put(g, a, i, dsga::get<i>(std::as_const(obj<O>().get()))); }); }, true },
		{ "get<> of an rvalue", [](T *g, const T **a) { static_for<N>([&](auto i) { auto &&x = dsga::get<i>(std::move(obj<O>().get())); put(g, a, i, x); }); }, true },
		{ "get<> of a const rvalue", [](T *g, const T **a) { static_for<N>([&](auto i) { auto &&x = dsga::get<i>(std::move(std::as_const(obj<O>().get()))); put(g, a, i, x); }); }, true },
		{ "auto &[...]", [](T *g, const T **a) { bind_ref<N>(obj<O>().get(), g, a); }, true },
		{ "const auto &[...]", [](T *g, const T **a) { bind_ref<N>(std::as_const(obj<O>().get()), g, a); }, true },
		{ "auto &&[...] of an rvalue", [](T *g, const T **a) { bind_ref<N>(std::move(obj<O>().get()), g, a); }, true },
	};
	if constexpr (!requires { typename O::sliced; })        // (a copy of the abstract base alone is not a vector)
	{
		j.ways.push_back({ "auto [...]", [](T *g, const T **a) { bind_copy<N>(obj<O>().get(), g, a); }, false });
		j.ways.push_back({ "const auto [...]", [](T *g, const T **a) { bind_copy<N>(std::as_const(obj<O>().get()), g, a); }, false });
	}
	if constexpr (requires { dsga::to_array(obj<O>().get()); })
	{
		static_assert(std::is_same_v<decltype(dsga::to_array(obj<O>().get())), std::array<T, N>>);
		j.ways.push_back({ "to_array", [](T *g, const T **) { auto x = dsga::to_array(obj<O>().get()); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false });
		j.ways.push_back({ "to_array of const", [](T *g, const T **) { auto x = dsga::to_array(std::as_const(obj<O>().get())); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false });
		j.ways.push_back({ "to_vector(to_array)", [](T *g, const T **) { auto x = dsga::to_vector(dsga::to_array(obj<O>().get())); static_assert(std::is_same_v<decltype(x), dsga::basic_vector<T, N>>); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false });
		j.ways.push_back({ "deduced vector", [](T *g, const T **) { dsga::basic_vector x(obj<O>().get()); static_assert(std::is_same_v<decltype(x), dsga::basic_vector<T, N>>); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false });
		j.ways.push_back({ "deduced owning view", [](T *g, const T **) { dsga::view_vector x(obj<O>().get()); static_assert(std::is_same_v<decltype(x), dsga::view_vector<T, N>>); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false });
	}
	else if (key.find("wrapper") == std::string::npos) fail(key + " to_array", "does not compile");
	j.nwrite = W ? 2 : 0; j.write = nullptr;
	if constexpr (W) j.write = [](T *v, int way) { if (way) bind_write<N>(obj<O>().get(), v); else static_for<N>([&](auto i) { dsga::get<i>(obj<O>().get()) = v[i]; }); };
	explore(j);
}
template <int N, int K> struct Holder : Obj<T, N, K> {};
// swizzles with repeated letters: read only
template <int N, bool VIEW> struct Repeat
{
	static constexpr int RAWN = VIEW ? 6 : 4; T buf[6] = {}; dsga::basic_view<true, T, 4> w{ buf + 1 }; dsga::basic_vector<T, 4> v{}; Repeat() = default; Repeat(const Repeat &) = delete;
	auto &owner() { if constexpr (VIEW) return w; else return v; }
	auto &get() { if constexpr (N == 2) return owner().zz; else if constexpr (N == 3) return owner().wyw; else return owner().xzzx; }
	T *raw() { if constexpr (VIEW) return buf; else return reinterpret_cast<T *>(&v); }
	static constexpr int slot(int i) { constexpr int m[3][4] = { { 2, 2 }, { 3, 1, 3 }, { 0, 2, 2, 0 } }; return m[N - 2][i] + VIEW; }
};
template <int N, bool VIEW> void repeats()
{
	using O = Repeat<N, VIEW>; using X = std::remove_cvref_t<decltype(obj<O>().get())>; const std::string key = strf("%s with a repeated letter n=%d %s", VIEW ? "view swizzle" : "swizzle", N, tname<T>());
	// the same component twice: compared by value and address, one fill pattern with equal values in equal slots
	Job j; j.key = key; j.n = N; static_assert(std::tuple_size_v<X> == N);
	for (auto &v : tuples())
	{
		O &o = obj<O>(); for (int i = 0; i < O::RAWN; ++i) o.raw()[i] = v[i % 4];
		auto check = [&](const char *way, auto f, bool alias) { T g[4] = {}; const T *a[4] = {}; f(g, a); ++C_.states; ++C_.traces; C_.transitions += N; for (int i = 0; i < N; ++i) if (!same_bits(g[i], o.raw()[O::slot(i)]) || (alias && a[i] != o.raw() + O::slot(i))) fail(key + " " + way, strf("component %d", i)); };
		check("get<>", [](T *g, const T **a) { static_for<N>([&](auto i) { static_assert(std::is_same_v<decltype(dsga::get<i>(obj<O>().get())), const T &>); put(g, a, i, dsga::get<i>(obj<O>().get())); }); }, true);
		check("auto &[...]", [](T *g, const T **a) { bind_ref<N>(obj<O>().get(), g, a); }, true);
		check("const auto &[...]", [](T *g, const T **a) { bind_ref<N>(std::as_const(obj<O>().get()), g, a); }, true);
		check("auto [...]", [](T *g, const T **a) { bind_copy<N>(obj<O>().get(), g, a); }, false);
		check("to_array", [](T *g, const T **) { auto x = dsga::to_array(obj<O>().get()); for (int i = 0; i < N; ++i) g[i] = x[i]; }, false);
	}
}
// the storage inside a vector and behind a view
template <int N> struct Storage { static constexpr int RAWN = N; dsga::basic_vector<T, N> v{}; auto &get() { return v.base; } T *raw() { return reinterpret_cast<T *>(&v); } static constexpr int slot(int i) { return i; } };
template <int N> struct Wrapper { static constexpr int RAWN = N + 2; T buf[N + 2] = {}; dsga::basic_view<true, T, N> v{ buf + 1 }; Wrapper() = default; Wrapper(const Wrapper &) = delete; auto &get() { return v.base; } T *raw() { return buf; } static constexpr int slot(int i) { return i + 1; } };
// the abstract base of a swizzle
template <bool W, class X, std::size_t C, class D> dsga::vector_base<W, X, C, D> &base_of(dsga::vector_base<W, X, C, D> &x) { return x; }
template <int N, int K> struct Abstract : Obj<T, N, K> { using sliced = void; auto &get() { return base_of(Obj<T, N, K>::get()); } };

template <class X> concept vectorable = requires (const X &x) { dsga::to_vector(x); };
template <int N> void from_arrays()
{
	for (auto &v : tuples())
	{
		std::array<T, N> a; T c[N]; for (int i = 0; i < N; ++i) a[i] = c[i] = v[i];
		auto x = dsga::to_vector(a); auto y = dsga::to_vector(c); auto z = dsga::to_array(x); static_assert(std::is_same_v<decltype(x), dsga::basic_vector<T, N>> && std::is_same_v<decltype(y), dsga::basic_vector<T, N>> && std::is_same_v<decltype(z), std::array<T, N>>);
		++C_.states; ++C_.traces; C_.transitions += 3 * N; for (int i = 0; i < N; ++i) if (!same_bits(x[i], v[i]) || !same_bits(y[i], v[i]) || !same_bits(z[i], v[i])) fail(strf("to_vector n=%d %s", N, tname<T>()), strf("component %d", i));
	}
}
template <int C, int R, class A> concept matrixable = requires (const A &a) { dsga::to_matrix<C, R>(a); };
template <int C, int R> void matrices()
{
	if constexpr (std::is_floating_point_v<T>)
	{
		using X = dsga::basic_matrix<T, C, R>; const std::string key = strf("mat%dx%d %s", C, R, tname<T>()); auto al = alphabet<T>();
		static_assert(std::tuple_size_v<X> == C && std::tuple_size_v<const X> == C);
		++C_.states; if (matrixable<C, R, std::array<T, C * R - 1>> || matrixable<C, R, T[C * R - 1]>) fail(key + " to_matrix", "accepts an array that is too short");
		for (std::size_t k = 0; k < al.size(); ++k) for (int st = 0; st < 5; ++st)
		{
			std::array<T, C * R> a; T c[C * R]; std::array<T, C * R + 1> a1; T c1[C * R + 3]; std::array<T, 16> a16{}; for (int i = 0; i < C * R; ++i) a[i] = c[i] = a1[i] = c1[i] = a16[i] = st ? al[(k + i * st) % al.size()] : T(k + i * 3 + 1);
			a1[C * R] = T(-99); c1[C * R] = c1[C * R + 1] = c1[C * R + 2] = T(-99);
			auto check = [&](const char *what, const X &m) { ++C_.states; ++C_.traces; C_.transitions += C * R; for (int i = 0; i < C * R; ++i) if (!same_bits(m.columns[i / R][i % R], a[i])) fail(key + " " + what, strf("element %d is %s, expected %s", i, str(m.columns[i / R][i % R]).c_str(), str(a[i]).c_str())); };
			check("to_matrix(std::array)", dsga::to_matrix<C, R>(a)); check("to_matrix(array)", dsga::to_matrix<C, R>(c)); check("to_matrix(longer std::array)", dsga::to_matrix<C, R>(a1)); check("to_matrix(longer array)", dsga::to_matrix<C, R>(c1)); check("to_matrix(std::array of 16)", dsga::to_matrix<C, R>(a16));
			X m = dsga::to_matrix<C, R>(a); auto b = dsga::to_array(m); static_assert(std::is_same_v<decltype(b), std::array<T, C * R>>); check("to_array and back", dsga::to_matrix<C, R>(b)); for (int i = 0; i < C * R; ++i) if (!same_bits(b[i], a[i])) fail(key + " to_array", strf("element %d", i));
			static_for<C>([&](auto i) {
				constexpr int I = i; static_assert(std::is_same_v<std::tuple_element_t<I, X>, dsga::basic_vector<T, R>> && std::is_same_v<std::tuple_element_t<I, const X>, const dsga::basic_vector<T, R>>);
				static_assert(std::is_same_v<decltype(dsga::get<I>(std::declval<X &>())), dsga::basic_vector<T, R> &> && std::is_same_v<decltype(dsga::get<I>(std::declval<const X &>())), const dsga::basic_vector<T, R> &> && std::is_same_v<decltype(dsga::get<I>(std::declval<X>())), dsga::basic_vector<T, R> &&> && std::is_same_v<decltype(dsga::get<I>(std::declval<const X>())), const dsga::basic_vector<T, R> &&>);
				auto &&rv = dsga::get<I>(std::move(m)); auto &&crv = dsga::get<I>(std::move(std::as_const(m)));
				if (&dsga::get<I>(m) != &m.columns[I] || &dsga::get<I>(std::as_const(m)) != &m.columns[I] || &get<I>(m) != &m.columns[I] || &rv != &m.columns[I] || &crv != &m.columns[I]) fail(key + " get<>", strf("column %d is not the one returned", I)); });
			auto cols = [&](const char *what, bool alias, auto &...q) { int i = 0; ++C_.states; ((([&] { if (alias && (const void *)&q != (const void *)&m.columns[i]) fail(key + " " + what, strf("binding %d is not the column", i)); for (int r = 0; r < R; ++r) if (!same_bits(q[r], a[i * R + r])) fail(key + " " + what, strf("column %d row %d", i, r)); })(), ++i), ...); };
			const X &cm = m;
			if constexpr (C == 2) { auto &[p, q] = m; cols("auto &[...]", true, p, q); auto &[r, s] = cm; cols("const auto &[...]", true, r, s); auto [t, u] = m; cols("auto [...]", false, t, u); auto &&[v, w] = std::move(m); cols("auto &&[...]", true, v, w); }
			if constexpr (C == 3) { auto &[p, q, z] = m; cols("auto &[...]", true, p, q, z); auto &[r, s, y] = cm; cols("const auto &[...]", true, r, s, y); auto [t, u, x] = m; cols("auto [...]", false, t, u, x); }
			if constexpr (C == 4) { auto &[p, q, z, f] = m; cols("auto &[...]", true, p, q, z, f); auto &[r, s, y, g] = cm; cols("const auto &[...]", true, r, s, y, g); auto [t, u, x, h] = m; cols("auto [...]", false, t, u, x, h); }
			// vectors from matrices and back
			static_for<4>([&](auto nn) { constexpr int N = nn + 1; if constexpr (N > 1) { dsga::basic_vector<T, N> v(m); ++C_.transitions; for (int i = 0; i < N; ++i) if (!same_bits(v[i], a[i])) fail(key + strf(" to vector of %d", N), strf("component %d", i)); } });
			if constexpr (C * R == 4) check("through a vector", X(dsga::basic_vector<T, 4>(m)));
		}
	}
}
template <class> void go()
{
	static_for<4>([](auto nn) { constexpr int N = nn + 1; static_for<NKINDS>([](auto kk) { constexpr int K = kk, N = std::remove_cvref_t<decltype(nn)>::value + 1;
			take_apart<Holder<N, K>, N, kwritable(K)>(strf("%s n=%d %s", kname(K), N, tname<T>())); take_apart<Abstract<N, K>, N, kwritable(K)>(strf("base of %s n=%d %s", kname(K), N, tname<T>())); });
		take_apart<Storage<N>, N, true>(strf("storage_wrapper n=%d %s", N, tname<T>())); take_apart<Wrapper<N>, N, true>(strf("view_wrapper n=%d %s", N, tname<T>()));
		from_arrays<N>(); if constexpr (N > 1) { repeats<N, false>(); repeats<N, true>(); } });
	static_for<9>([](auto q) { matrices<q % 3 + 2, q / 3 + 2>(); });
	sample("every kind and length: get<> of 4 value categories, structured bindings of 5 forms, writes through both, arrays and back");
}
int main(int argc, char **argv) { init(argc, argv); go<void>(); total = C_; return finish(); }
