// P27: what lies outside is rejected, what lies inside is accepted.
// -DMC_INDEX=<kind 0..7, 8 = matrix and storage>   indexes of every integer type
// -DMC_ITER=<0..3>   iterators of swizzles        -DMC_NULL   views of the null pointer        -DMC_SWZ   run-time swizzle() (also with -DDSGA_DISABLE_ASSERTS)
#include "kinds.hpp"
using namespace mc;
static Counters C_;
static bool rejected(Out o) { return o == Out::asserted || o == Out::threw; }
template <class I> std::vector<I> indexes()
{
	std::set<I> s; using L = std::numeric_limits<I>;
	auto add = [&](__int128 x) { if (x >= (__int128)L::min() && x <= (__int128)L::max()) s.insert((I)x); };
	for (int i = -300; i <= 300; ++i) add(i);
	for (int b = 3; b <= 64; ++b) for (int d = -5; d <= 5; ++d) { add(((__int128)1 << b) + d); add(-((__int128)1 << b) + d); }
	for (int d = 0; d < 6; ++d) { add((__int128)L::max() - d); add((__int128)L::min() + d); }
	return { s.begin(), s.end() };
}
// address of the element with that index (never dereferenced), the count, what may be written as 'object'
template <class I> struct IJob { std::string key; int n; const void *want[4]; const void *(*at)(I); };
template <class I> __attribute__((noinline)) void index_(const IJob<I> &j)
{
	snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (I i : indexes<I>())
	{
		const void *volatile got = nullptr; Out o = attempt([&] { got = j.at(i); }); const bool valid = i >= 0 && (unsigned long long)i < (unsigned long long)j.n; ++C_.states; ++C_.traces; ++C_.transitions;
		if (valid ? o != Out::ok : !rejected(o)) fail(j.key, strf("index %s: %s", str(i).c_str(), mc::name(o)));
		else if (valid && got != j.want[(int)i]) fail(j.key, strf("index %s gives another element", str(i).c_str()));
	}
}
template <class O> O &obj() { static O o; return o; }
using index_types = types<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>;
enum Plain : int { P_ };
template <class G, int N> void index_all(const std::string &what, const void *const *want)
{
	for_types(index_types{}, [&](auto t) { using I = typename decltype(t)::type; IJob<I> j; j.key = strf("%s[%s %d]", what.c_str(), std::is_signed_v<I> ? "int" : "uint", (int)sizeof(I) * 8); j.n = N; for (int i = 0; i < N; ++i) j.want[i] = want[i]; j.at = [](I i) -> const void * { return G::at(i); }; index_(j); });
	// an unscoped enumeration, bool and a class that converts
	IJob<int> j; j.n = N; for (int i = 0; i < N; ++i) j.want[i] = want[i];
	j.key = what + "[enumeration]"; j.at = [](int i) -> const void * { return G::at((Plain)i); }; index_(j);
	struct Cls { std::size_t v; constexpr operator std::size_t() const { return v; } };
	j.key = what + "[class]"; j.at = [](int i) -> const void * { return G::at(Cls{ (std::size_t)(long)i }); }; index_(j);
	j.key = what + "[floating]"; j.at = [](int i) -> const void * { return G::at(i < 0 ? 4294967296.0 - i : (double)i); }; index_(j);
}
template <class O> struct ByIndex { template <class I> static const void *at(I i) { return std::addressof(obj<O>().get()[i]); } };
template <class O> struct ByConst { template <class I> static const void *at(I i) { return std::addressof(std::as_const(obj<O>().get())[i]); } };
template <class O> struct ByBase { template <bool W, class X, std::size_t C, class D, class I> static const void *go(dsga::vector_base<W, X, C, D> &v, I i) { return std::addressof(v[i]); } template <class I> static const void *at(I i) { return go(obj<O>().get(), i); } };

template <class> struct Runner
{
#ifdef MC_INDEX
	template <int N> static void kind()
	{
		using O = Obj<int, N, MC_INDEX % 8>; O &o = obj<O>(); const void *want[4]; for (int i = 0; i < N; ++i) want[i] = o.raw() + O::slot(i);
		const std::string k = strf("%s%d", kname(MC_INDEX), N);
		index_all<ByIndex<O>, N>(k, want); index_all<ByConst<O>, N>("const " + k, want); index_all<ByBase<O>, N>("base of " + k, want);
	}
	template <int N> struct St { dsga::basic_vector<int, N> v{}; auto &get() { return v.base; } };
	template <int N> struct Vw { int b[N]{}; dsga::basic_view<true, int, N> v{ b }; Vw() = default; Vw(const Vw &) = delete; auto &get() { return v.base; } };
	template <int C, int R> struct Mt { dsga::basic_matrix<float, C, R> v{}; auto &get() { return v; } };
	static const int *tags() { static const int tag[4] = {}; return tag; }
	template <class O, int R> struct ByRow { template <class I> static const void *at(I i) { auto r = std::as_const(obj<O>().get()).row(i); for (int k = 0; k < R; ++k) { bool all = true; for (int c = 0; c < (int)r.size(); ++c) all &= r[c] == float(c * R + k); if (all) return tags() + k; } return nullptr; } };
	static void run()
	{
		if constexpr (MC_INDEX < 8) { kind<1>(); kind<2>(); kind<3>(); kind<4>(); }
		else
		{
			static_for<4>([](auto n) { constexpr int N = n + 1; { using O = St<N>; const void *want[4]; for (int i = 0; i < N; ++i) want[i] = reinterpret_cast<int *>(&obj<O>().v) + i; index_all<ByIndex<O>, N>(strf("storage%d", N), want); index_all<ByConst<O>, N>(strf("const storage%d", N), want); }
				{ using O = Vw<N>; const void *want[4]; for (int i = 0; i < N; ++i) want[i] = obj<O>().b + i; index_all<ByIndex<O>, N>(strf("view storage%d", N), want); index_all<ByConst<O>, N>(strf("const view storage%d", N), want); } });
			static_for<9>([](auto q) { constexpr int C = q % 3 + 2, R = q / 3 + 2; using O = Mt<C, R>; auto &m = obj<O>().v; for (int i = 0; i < C * R; ++i) m.columns[i / R][i % R] = i;
				const void *want[4]; for (int i = 0; i < C; ++i) want[i] = &m.columns[i]; index_all<ByIndex<O>, C>(strf("mat%dx%d", C, R), want); index_all<ByConst<O>, C>(strf("const mat%dx%d", C, R), want);
				for (int i = 0; i < R; ++i) want[i] = tags() + i; index_all<ByRow<O, R>, R>(strf("row of mat%dx%d", C, R), want); });
		}
		sample("every index from -300 to 300 and around every power of two, of 10 integer types, an enumeration, a class and double");
	}
#endif
#ifdef MC_ITER
	// the object at position p of [0, n]: what each operation may do
	template <class It> struct TJob { std::string key; int n; It (*begin)(); const void *want[4]; bool rev; };
	template <class It> static void iter(const TJob<It> &j)
	{
		const int n = j.n; snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
		std::vector<int> steps; for (int k = -70; k <= 70; ++k) steps.push_back(k); for (int k : { 1 << 8, 1 << 16, 1 << 30, -(1 << 8), -(1 << 16), -(1 << 30) }) for (int d = -3; d <= 3; ++d) steps.push_back(k + d);
		for (int d = 0; d < 6; ++d) { steps.push_back(std::numeric_limits<int>::max() - d); if (!j.rev || d) steps.push_back(std::numeric_limits<int>::min() + d); }
		for (int p = 0; p <= n; ++p)
		{
			auto at = [&] { It it = j.begin(); for (int k = 0; k < p; ++k) ++it; return it; };
			const void *volatile got; const char *what = "";
			auto is = [&](const char *op, long long k, bool valid, Out o, const void *want) { what = op; ++C_.states; ++C_.traces; ++C_.transitions; if (valid ? o != Out::ok : !rejected(o)) fail(j.key + " " + op, strf("position %d step %lld: %s", p, k, mc::name(o))); else if (valid && want && got != want) fail(j.key + " " + op, strf("position %d step %lld refers to another element", p, k)); };
			auto elem = [&](long long q) -> const void * { return q >= 0 && q < n ? j.want[q] : nullptr; };
			auto here = [&](const It &it, long long q) { got = nullptr; if (q >= 0 && q < n) got = std::addressof(*it); };
			const bool inside = p < n;
			got = nullptr; Out o = attempt([&] { It it = at(); got = std::addressof(*it); }); is("*it", 0, inside, o, elem(p));
			if constexpr (requires (It i) { i.operator->(); }) { got = nullptr; o = attempt([&] { It it = at(); got = it.operator->(); }); is("it->", 0, inside, o, elem(p)); }
			o = attempt([&] { It it = at(); ++it; here(it, p + 1); }); is("++it", 1, p < n, o, elem(p + 1));
			o = attempt([&] { It it = at(); it++; here(it, p + 1); }); is("it++", 1, p < n, o, elem(p + 1));
			o = attempt([&] { It it = at(); --it; here(it, p - 1); }); is("--it", -1, p > 0, o, elem(p - 1));
			o = attempt([&] { It it = at(); it--; here(it, p - 1); }); is("it--", -1, p > 0, o, elem(p - 1));
			for (int k : steps)
			{
				const long long q = (long long)p + k, m = (long long)p - k; const bool qv = q >= 0 && q <= n, mv = m >= 0 && m <= n;
				o = attempt([&] { It it = at(); it += k; here(it, q); }); is("it += k", k, qv, o, elem(q));
				o = attempt([&] { It it = at(); It r = it + k; here(r, q); }); is("it + k", k, qv, o, elem(q));
				o = attempt([&] { It it = at(); It r = k + it; here(r, q); }); is("k + it", k, qv, o, elem(q));
				if (!(j.rev && k == std::numeric_limits<int>::min())) { o = attempt([&] { It it = at(); it -= k; here(it, m); }); is("it -= k", k, mv, o, elem(m)); o = attempt([&] { It it = at(); It r = it - k; here(r, m); }); is("it - k", k, mv, o, elem(m)); }
				got = nullptr; o = attempt([&] { It it = at(); got = std::addressof(it[k]); }); is("it[k]", k, q >= 0 && q < n, o, elem(q));
			}
		}
	}
	template <class It> static void one(const std::string &key, int n, It (*b)(), const int *raw, int (*slot)(int), bool rev) { TJob<It> j; j.key = key; j.n = n; j.begin = b; j.rev = rev; for (int i = 0; i < n; ++i) j.want[i] = raw + slot(rev ? n - 1 - i : i); iter(j); }
	template <int N> static void kind()
	{
		constexpr int K = MC_ITER == 0 ? K_SWZ : MC_ITER == 1 ? K_VSWZ : MC_ITER == 2 ? K_OSWZ : K_CVSWZ; using O = Obj<int, N, K>; O &o = obj<O>(); auto slot = +[](int i) { return O::slot(i); }; const std::string k = strf("%s%d", kname(K), N);
		one(k + " begin()", N, +[] { return obj<O>().get().begin(); }, o.raw(), slot, false); one(k + " cbegin()", N, +[] { return obj<O>().get().cbegin(); }, o.raw(), slot, false); one(k + " const begin()", N, +[] { return std::as_const(obj<O>().get()).begin(); }, o.raw(), slot, false);
		one(k + " rbegin()", N, +[] { return obj<O>().get().rbegin(); }, o.raw(), slot, true); one(k + " crbegin()", N, +[] { return obj<O>().get().crbegin(); }, o.raw(), slot, true);
	}
	static void run() { kind<1>(); kind<2>(); kind<3>(); kind<4>(); sample("5 iterators of a swizzle: every position x every operation x steps -70 to 70 and the int extremes"); }
#endif
#ifdef MC_NULL
	static void must(const std::string &key, bool valid, Out o) { ++C_.states; ++C_.traces; ++C_.transitions; if (valid ? o != Out::ok : !rejected(o)) fail(key, std::string("outcome: ") + mc::name(o)); }
	// F uses an object through its memory; the same use of an object with memory is accepted
	template <class Mk, class F> static void use(const std::string &key, Mk make, F f)
	{
		static int data[8] = { 3, 4, 5, 6, 7, 8, 9, 10 }; snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
		must(key + " of valid memory", true, attempt([&] { auto v = make(data); f(v); }));
		must(key + " of the null pointer", false, attempt([&] { auto v = make((int *)nullptr); f(v); }));
		must(key + " after reset to null", false, attempt([&] { auto v = make(data); v.reset((int *)nullptr); f(v); }));
		must(key + " after reset to memory", true, attempt([&] { auto v = make((int *)nullptr); v.reset(data + 1); f(v); }));
		if constexpr (requires { make(data).reset((const int *)nullptr); })
		{
			must(key + " after reset to null of const", false, attempt([&] { auto v = make(data); v.reset((const int *)nullptr); f(v); }));
			must(key + " after reset to memory of const", true, attempt([&] { auto v = make((int *)nullptr); v.reset((const int *)data + 1); f(v); }));
		}
		must(key + " of a copy of a null view", false, attempt([&] { auto v = make((int *)nullptr); auto w = v; f(w); }));
	}
	template <int N, bool W> static void views()
	{
		using V = dsga::basic_view<W, int, N>; using X = dsga::basic_vector<int, N>; const std::string k = strf("%sview%d ", W ? "" : "const ", N); auto mk = [](int *p) { return V(p); }; static volatile int sink; static X x(2);
		static_for<N>([&](auto i) {
			constexpr int I = i;
			use(k + "[]", mk, [&](V &v) { sink = v[I]; }); use(k + "const []", mk, [&](V &v) { sink = std::as_const(v)[I]; }); use(k + "get<>", mk, [&](V &v) { sink = dsga::get<I>(v); });
			use(k + "begin()[]", mk, [&](V &v) { sink = v.begin()[I]; }); use(k + "cbegin()[]", mk, [&](V &v) { sink = v.cbegin()[I]; }); use(k + "rbegin()[]", mk, [&](V &v) { sink = v.rbegin()[I]; }); use(k + "crbegin()[]", mk, [&](V &v) { sink = v.crbegin()[I]; }); use(k + "data()[]", mk, [&](V &v) { sink = v.data()[I]; }); use(k + "const data()", mk, [&](V &v) { sink = std::as_const(v).data()[I]; });
		});
		use(k + "range-for", mk, [&](V &v) { for (auto c : v) sink = c; }); use(k + "end()", mk, [&](V &v) { sink = *std::prev(v.end()); }); use(k + "rend()", mk, [&](V &v) { sink = *std::prev(v.rend()); });
		use(k + "to vector", mk, [&](V &v) { X y(v); sink = y[0]; }); use(k + "to_array", mk, [&](V &v) { sink = dsga::to_array(v)[0]; }); use(k + "+", mk, [&](V &v) { sink = dsga::basic_vector<int, N>(v + x)[0]; }); use(k + "right of +", mk, [&](V &v) { sink = dsga::basic_vector<int, N>(x + v)[0]; }); use(k + "unary -", mk, [&](V &v) { sink = dsga::basic_vector<int, N>(-v)[0]; });
		use(k + "==", mk, [&](V &v) { sink = v == x; }); use(k + "sum", mk, [&](V &v) { sink = v.sum(); }); use(k + "min", mk, [&](V &v) { sink = v.min(); }); use(k + "max", mk, [&](V &v) { sink = v.max(); }); use(k + "shift", mk, [&](V &v) { sink = v.shift(1)[0]; }); use(k + "apply", mk, [&](V &v) { sink = v.apply([](int c) { return c; })[0]; }); use(k + "abs", mk, [&](V &v) { sink = dsga::basic_vector<int, N>(dsga::abs(v))[0]; }); use(k + "lessThan", mk, [&](V &v) { sink = dsga::basic_vector<bool, N>(dsga::lessThan(v, x))[0]; }); use(k + "assigned to a vector", mk, [&](V &v) { X y; y = v; sink = y[0]; });
		if constexpr (N == 1) use(k + "conversion", mk, [&](V &v) { int c = v; sink = c; });
		if constexpr (W)
		{
			use(k + "[] =", mk, [&](V &v) { v[N - 1] = 1; }); use(k + "set", mk, [&](V &v) { [&]<std::size_t... I>(std::index_sequence<I...>) { v.set((int)I...); }(std::make_index_sequence<N>{}); }); use(k + "= vector", mk, [&](V &v) { v = x; }); use(k + "rvalue = vector", mk, [&](V &v) { std::move(v) = x; });
			use(k + "+= vector", mk, [&](V &v) { v += x; }); use(k + "+= scalar", mk, [&](V &v) { v += 2; }); use(k + "++", mk, [&](V &v) { ++v; }); use(k + "v++", mk, [&](V &v) { (void)v++; }); use(k + "swap left", mk, [&](V &v) { static int d[8]; V w(d); v.swap(w); }); use(k + "swap right", mk, [&](V &v) { static int d[8]; V w(d); w.swap(v); }); use(k + "free swap", mk, [&](V &v) { static int d[8]; V w(d); swap(w, v); });
			use(k + "*begin() =", mk, [&](V &v) { *v.begin() = 5; }); use(k + "fill", mk, [&](V &v) { std::fill(v.begin(), v.end(), 3); });
			if constexpr (N == 1) { use(k + "= scalar", mk, [&](V &v) { v = 5; }); }
		}
		// swizzles of a null view
		auto swz = [&]<class G>(const std::string &s, G g) {
			const std::string q = k + s + " "; constexpr int CN = (int)std::tuple_size_v<std::remove_cvref_t<decltype(g(std::declval<V &>()))>>; using CX = dsga::basic_vector<int, CN>; static CX cx(2);
			static_for<CN>([&](auto i) { constexpr int I = i; use(q + "[]", mk, [&](V &v) { sink = g(v)[I]; }); use(q + "const []", mk, [&](V &v) { sink = std::as_const(g(v))[I]; }); use(q + "get<>", mk, [&](V &v) { sink = dsga::get<I>(g(v)); }); use(q + "begin()[]", mk, [&](V &v) { sink = g(v).begin()[I]; }); use(q + "cbegin()[]", mk, [&](V &v) { sink = g(v).cbegin()[I]; }); use(q + "rbegin()[]", mk, [&](V &v) { sink = g(v).rbegin()[I]; }); });
			use(q + "*begin()", mk, [&](V &v) { sink = *g(v).begin(); }); use(q + "*cbegin()", mk, [&](V &v) { sink = *g(v).cbegin(); }); use(q + "begin()->", mk, [&](V &v) { sink = *g(v).begin().operator->(); }); use(q + "range-for", mk, [&](V &v) { for (auto c : g(v)) sink = c; }); use(q + "data()", mk, [&](V &v) { sink = g(v).data()[0]; }); use(q + "to vector", mk, [&](V &v) { CX y(g(v)); sink = y[0]; }); use(q + "==", mk, [&](V &v) { sink = g(v) == cx; }); use(q + "+", mk, [&](V &v) { sink = dsga::basic_vector<int, CN>(g(v) + cx)[0]; }); use(q + "sum", mk, [&](V &v) { sink = g(v).sum(); });
			if constexpr (CN == 1) { use(q + "conversion", mk, [&](V &v) { int c = g(v); sink = c; }); use(q + "explicit conversion", mk, [&](V &v) { sink = (int)static_cast<double>(g(v)); }); }
			if constexpr (W && requires (V v) { g(v).set(1); } ) { use(q + "= scalar", mk, [&](V &v) { g(v) = 4; }); use(q + "rvalue = scalar", mk, [&](V &v) { std::move(g(v)) = 4; }); use(q + "set", mk, [&](V &v) { g(v).set(4); }); use(q + "++", mk, [&](V &v) { ++g(v); }); }
			if constexpr (W && requires (V v) { g(v) = cx; }) { use(q + "= vector", mk, [&](V &v) { g(v) = cx; }); use(q + "rvalue = vector", mk, [&](V &v) { std::move(g(v)) = cx; }); use(q + "*=", mk, [&](V &v) { g(v) *= cx; }); use(q + "[] =", mk, [&](V &v) { g(v)[CN - 1] = 1; }); use(q + "*begin() =", mk, [&](V &v) { *g(v).begin() = 1; }); }
			if constexpr (W && requires (V v) { g(v).set(1, 2); }) use(q + "set", mk, [&](V &v) { g(v).set(1, 2); });
		};
		swz("x", [](V &v) -> auto & { return v.x; }); swz("xx", [](V &v) -> auto & { return v.xx; });
		if constexpr (N >= 2) { swz("y", [](V &v) -> auto & { return v.y; }); swz("yx", [](V &v) -> auto & { return v.yx; }); swz("xyxy", [](V &v) -> auto & { return v.xyxy; }); }
		if constexpr (N >= 3) { swz("zyx", [](V &v) -> auto & { return v.zyx; }); swz("zx", [](V &v) -> auto & { return v.zx; }); }
		if constexpr (N >= 4) { swz("wxyz", [](V &v) -> auto & { return v.wxyz; }); swz("w", [](V &v) -> auto & { return v.w; }); swz("zwy", [](V &v) -> auto & { return v.zwy; }); }
		must(k + "default constructed", false, attempt([] { V v; sink = v[0]; }));
	}
	static void run()
	{
		static_for<4>([](auto n) { views<n + 1, true>(); views<n + 1, false>(); });
		static_for<9>([](auto q) { constexpr int C = q % 3 + 2, R = q / 3 + 2; must("matrix of the null pointer", false, attempt([] { dsga::basic_matrix<float, C, R> m((const float *)nullptr); (void)m; })); must("matrix of the null pointer", false, attempt([] { dsga::basic_matrix<double, C, R> m((const float *)nullptr); (void)m; })); static const double d[16] = {}; must("matrix of memory", true, attempt([] { dsga::basic_matrix<float, C, R> m(d); (void)m; })); });
		sample("about 60 uses of a view and 30 of each of its swizzles: on memory accepted, on the null pointer, after reset to it and on copies rejected");
	}
#endif
#ifdef MC_SWZ
	template <class I> static std::vector<I> few(int n) { std::set<I> s; using L = std::numeric_limits<I>; for (int i = -2; i <= 5; ++i) if (i >= 0 || std::is_signed_v<I>) s.insert((I)i); (void)n; s.insert(L::max()); s.insert(L::min()); s.insert(I(L::max() - 3)); s.insert(I(1) << (sizeof(I) * 8 - 2)); if (sizeof(I) == 8) { s.insert(I(1ULL << 32)); s.insert(I((1ULL << 32) + 1)); } return { s.begin(), s.end() }; }
	template <class O, int N, class... I> static void tuple_(const char *kn)
	{
		O &o = obj<O>(); int v[4] = { 11, 22, 33, 44 }; mem(o).put(v); const std::string key = strf("swizzle(%s%d, %d indexes)", kn, N, (int)sizeof...(I)); snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
		std::tuple<std::vector<I>...> al{ few<I>(N)... }; std::size_t sizes[] = { few<I>(N).size()... }, n = 1; for (auto s : sizes) n *= s;
		for (std::size_t q = 0; q < n; ++q)
		{
			std::size_t z = q; std::tuple<I...> t; [&]<std::size_t... P>(std::index_sequence<P...>) { ((std::get<P>(t) = std::get<P>(al)[z % sizes[P]], z /= sizes[P]), ...); }(std::index_sequence_for<I...>{});
			bool valid = std::apply([](auto... i) { return ((i >= 0 && (unsigned long long)i < (unsigned long long)N) && ...); }, t);
			int out[4] = {}; Out r = attempt([&] { std::apply([&](auto... i) { auto s = dsga::swizzle(o.get(), i...); if constexpr (sizeof...(I) == 1) { static_assert(std::is_same_v<decltype(s), int>); out[0] = s; } else { static_assert(std::is_same_v<decltype(s), dsga::basic_vector<int, sizeof...(I)>>); for (std::size_t k = 0; k < sizeof...(I); ++k) out[k] = s[k]; } }, t); });
			++C_.states; ++C_.traces; ++C_.transitions;
			auto args = [&] { std::string s; std::apply([&](auto... i) { ((s += " " + str(i)), ...); }, t); return s; };
#ifdef DSGA_DISABLE_ASSERTS
			const bool bad = valid ? r != Out::ok : r != Out::threw;
#else
			const bool bad = valid ? r != Out::ok : !rejected(r);
#endif
			if (bad) { fail(key, "indexes" + args() + ": " + mc::name(r)); continue; }
			if (valid) { int k = 0; bool ok = true; std::apply([&](auto... i) { ((ok &= out[k++] == v[(int)i]), ...); }, t); if (!ok) fail(key, "indexes" + args() + " give other components"); }
			if (!mem(o).holds(v)) fail(key, "the vector changed");
		}
	}
	template <int N, int K> static void kind() { using O = Obj<int, N, K>; const char *k = kname(K); tuple_<O, N, int>(k); tuple_<O, N, std::size_t>(k); tuple_<O, N, unsigned>(k); tuple_<O, N, long long>(k); tuple_<O, N, short>(k); tuple_<O, N, int, int>(k); tuple_<O, N, std::size_t, int>(k); tuple_<O, N, unsigned, long long>(k); tuple_<O, N, int, int, int>(k); tuple_<O, N, int, std::size_t, short>(k); if (K % 3 == 0 || thorough) tuple_<O, N, int, int, int, int>(k); }
	static void run()
	{
		static_for<NKINDS>([](auto k) { kind<1, k>(); kind<2, k>(); kind<3, k>(); kind<4, k>(); });
#ifdef DSGA_DISABLE_ASSERTS
		static_for<9>([](auto q) { constexpr int C = q % 3 + 2, R = q / 3 + 2; ++C_.states; if (Out o = attempt([] { dsga::basic_matrix<float, C, R> m((const double *)nullptr); (void)m; }); o != Out::threw) fail(strf("mat%dx%d of the null pointer", C, R), mc::name(o)); });
#endif
		sample("swizzle() with one to four indexes, every tuple over -2..5 and the extremes of each index type");
	}
#endif
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); total = C_; return finish(); }
