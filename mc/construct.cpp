// P10: every argument list (-DMC_N=length -DMC_OWN=0|1): constructible exactly when the rules say so, and laid out in order.
//      -DMC_TYPES: every pair of component types.
#include "mixed.hpp"
using namespace mc;
static Counters C;

// ---- arguments: instance `P` of an argument type holds the values 16P+1.. ----------------------------------
constexpr double aval(int p, int i) { return 16 * p + i + 1; }
template <class U> struct A_scalar
{
	static constexpr int count = 1; static constexpr bool arg = true; static constexpr bool scalarlike = true;
	static std::string show() { return tname<U>(); }
	template <int P> static U &get() { static U u = U(aval(P, 0)); return u; }
};
template <int n, int K> struct A_obj
{
	static constexpr int count = n; static constexpr bool arg = true; static constexpr bool scalarlike = n == 1;
	static std::string show() { return strf("%s%d", kname(K), n); }
	template <int P> static auto &get()
	{
		static Obj<double, n, K> o; double v[n]; for (int i = 0; i < n; ++i) v[i] = aval(P, i);
		mem(o).put(v); return o.get();
	}
};
template <class U, int c, int r> struct A_mat
{
	static constexpr int count = c * r; static constexpr bool arg = true; static constexpr bool scalarlike = false;
	static std::string show() { return strf("%smat%dx%d", tname<U>(), c, r); }
	template <int P> static auto &get() { static dsga::basic_matrix<U, c, r> m; for (int i = 0; i < c * r; ++i) ((U *)&m)[i] = U(aval(P, i)); return m; }
};
struct A_string { static constexpr int count = 1; static constexpr bool arg = false; static constexpr bool scalarlike = false; static std::string show() { return "std::string"; } template <int P> static auto &get() { static std::string s; return s; } };
struct A_array { static constexpr int count = 4; static constexpr bool arg = false; static constexpr bool scalarlike = false; static std::string show() { return "std::array"; } template <int P> static auto &get() { static std::array<double, 4> s; return s; } };

constexpr bool rule(int n, const int *count, const bool *arg, int k)
{
	int total_ = 0, before_last = 0;
	for (int i = 0; i < k; ++i) { if (!arg[i]) return false; before_last = total_; total_ += count[i]; }
	if (k == 1 && count[0] == 1) return true;                 // one scalar fills every component
	return before_last < n && total_ >= n;
}
using Thunk = void (*)(double *);
static std::string args_str(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : ", ") + x; return s; }
__attribute__((noinline)) void judge(const char *target, int n, const int *count, const bool *arg, int k, bool builds, Thunk th, std::string (*show)())
{
	++C.states; ++C.traces; ++C.transitions;
	bool must = rule(n, count, arg, k);
	if (builds != must) { fail(strf("construct %s%d(%s)", target, n, show().c_str()), must ? "does not compile" : "compiles, but must not"); return; }
	if (!builds) return;
	double out[4] = { -1, -1, -1, -1 }, want[64]; int w = 0;
	if (k == 1 && count[0] == 1) for (int i = 0; i < n; ++i) want[i] = aval(0, 0);
	else for (int p = 0; p < k; ++p) for (int i = 0; i < count[p]; ++i) want[w++] = aval(p, i);
	ctx.what = target;
	th(out);
	bool ok = true; for (int i = 0; i < n; ++i) ok &= out[i] == want[i];
	if (!ok) fail(strf("construct %s%d(%s)", target, n, show().c_str()), strf("got %s, expected %s", vstr(std::vector<double>(out, out + n)).c_str(), vstr(std::vector<double>(want, want + n)).c_str()));
}
template <class Target, int n, class... A> void one()
{
	constexpr int k = sizeof...(A);
	static constexpr int count[] = { A::count... }; static constexpr bool arg[] = { A::arg... };
	auto go = [&]<int... P>(std::integer_sequence<int, P...>) {
		constexpr bool builds = std::is_constructible_v<Target, decltype(A::template get<P>())...>;
		Thunk th = nullptr;
		if constexpr (builds) th = [](double *o) { Target t(A::template get<P>()...); for (int i = 0; i < n; ++i) o[i] = t[i]; };
		judge(std::is_same_v<Target, dsga::view_vector<double, n>> ? "owning view " : "vector ", n, count, arg, k, builds, th, [] { return args_str({ A::show()... }); });
	};
	go(std::make_integer_sequence<int, k>{});
}
template <class Target, int n, int k, class L, class... A> struct Product;
template <class Target, int n, int k, class... E, class... A> struct Product<Target, n, k, types<E...>, A...>
{
	static void run() { if constexpr (k == 0) one<Target, n, A...>(); else (Product<Target, n, k - 1, types<E...>, A..., E>::run(), ...); }
};
using S = A_scalar<int>; using D = A_scalar<double>; using F = A_scalar<float>;
using full = types<S, D, A_obj<1, K_VEC>, A_obj<2, K_VEC>, A_obj<3, K_VEC>, A_obj<4, K_VEC>, A_obj<1, K_SWZ>, A_obj<2, K_SWZ>, A_obj<3, K_SWZ>, A_obj<4, K_SWZ>,
	A_obj<1, K_VIEW>, A_obj<2, K_VIEW>, A_obj<3, K_VIEW>, A_obj<4, K_VIEW>, A_obj<1, K_VSWZ>, A_obj<2, K_VSWZ>, A_obj<3, K_VSWZ>, A_obj<4, K_VSWZ>,
	A_obj<1, K_OWN>, A_obj<2, K_OWN>, A_obj<3, K_OWN>, A_obj<4, K_OWN>, A_obj<2, K_OSWZ>, A_obj<3, K_CVIEW>, A_obj<2, K_CVSWZ>,
	A_mat<double, 2, 2>, A_mat<float, 2, 3>, A_mat<double, 3, 3>, A_string, A_array>;
using three = types<S, A_obj<1, K_VEC>, A_obj<2, K_SWZ>, A_obj<2, K_VIEW>, A_obj<3, K_VSWZ>, A_obj<2, K_OWN>, A_obj<1, K_CVIEW>, A_mat<double, 2, 2>>;
using four = types<F, A_obj<1, K_SWZ>, A_obj<1, K_VIEW>, A_obj<2, K_VEC>, A_obj<1, K_OWN>>;

// ---- component types ------------------------------------------------------------------------------------------
template <class T, class U, class V, class Fn> void types_check(const char *what, int n, Fn f)
{
	for (U x : convertible_values<T, U>())
	{
		T want = static_cast<T>(x), out[4] = {}; ctx.what = what;
		f(x, out); ++C.states; ++C.transitions; ++C.traces;
		bool ok = true; for (int i = 0; i < n; ++i) ok &= same(out[i], want);
		if (!ok) fail(strf("convert %s n=%d %s from %s", what, n, tname<T>(), tname<U>()), strf("component %s became %s, expected %s", str(x).c_str(), str(out[0]).c_str(), str(want).c_str()));
	}
}
template <class T, class U, int n> void type_pair()
{
	auto rep = [](U x) { return [x]<std::size_t... I>(std::index_sequence<I...>) { return std::array<U, n>{ (void(I), x)... }; }(std::make_index_sequence<n>{}); };
	using V = dsga::basic_vector<T, n>; using O = dsga::view_vector<T, n>; using UV = dsga::basic_vector<U, n>;
	auto out = [](auto &v, T *o) { for (int i = 0; i < n; ++i) o[i] = v[i]; };
	types_check<T, U, V>("vector from a scalar", n, [&](U x, T *o) { V v(x); out(v, o); });
	types_check<T, U, V>("owning view from a scalar", n, [&](U x, T *o) { O v(x); out(v, o); });
	types_check<T, U, V>("vector from a vector", n, [&](U x, T *o) { UV u(x); V v(u); out(v, o); });
	types_check<T, U, V>("owning view from a vector", n, [&](U x, T *o) { UV u(x); O v(u); out(v, o); });
	types_check<T, U, V>("vector from scalars", n, [&](U x, T *o) { [&]<std::size_t... I>(std::index_sequence<I...>) { V v((void(I), x)...); out(v, o); }(std::make_index_sequence<n>{}); });
	types_check<T, U, V>("owning view from scalars", n, [&](U x, T *o) { [&]<std::size_t... I>(std::index_sequence<I...>) { O v((void(I), x)...); out(v, o); }(std::make_index_sequence<n>{}); });
	types_check<T, U, V>("vector from a view", n, [&](U x, T *o) { auto a = rep(x); dsga::basic_view<true, U, n> w(a.data()); V v(w); out(v, o); });
	types_check<T, U, V>("vector from a swizzle", n, [&](U x, T *o) { dsga::basic_vector<U, 4> u(x); if constexpr (n == 1) { V v(u.w); out(v, o); } else if constexpr (n == 2) { V v(u.yy); out(v, o); } else if constexpr (n == 3) { V v(u.zyx); out(v, o); } else { V v(u.wzyx); out(v, o); } });
	if constexpr (n > 1) types_check<T, U, V>("vector from a scalar and a vector", n, [&](U x, T *o) { dsga::basic_vector<U, n - 1> u(x); V v(x, u); out(v, o); });
	if constexpr (requires (V v, UV u) { v = u; }) types_check<T, U, V>("assignment from a vector", n, [&](U x, T *o) { UV u(x); V v; v = u; out(v, o); });
	types_check<T, U, V>("set", n, [&](U x, T *o) { V v; [&]<std::size_t... I>(std::index_sequence<I...>) { v.set((void(I), x)...); }(std::make_index_sequence<n>{}); out(v, o); });
	// assignment and implicit conversion exist exactly for implicitly convertible component types
	constexpr bool implicit = std::is_same_v<T, U> || (!std::is_same_v<T, bool> && !std::is_same_v<U, bool> && std::is_same_v<std::common_type_t<T, U>, T>);
	constexpr bool assigns = requires (V v, UV u) { v = u; }, converts = std::is_convertible_v<UV, V>;
	++C.states;
	if (n > 1 && (assigns != implicit || converts != implicit)) fail(strf("implicit conversion n=%d %s from %s", n, tname<T>(), tname<U>()), strf("assignment %s, conversion %s", assigns ? "compiles" : "does not compile", converts ? "compiles" : "does not compile"));
}

// ---- argument lists of mixed types ------------------------------------------------------------------------------
#ifdef MC_MIX
struct W_vec { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::basic_vector<T, sizeof...(U)> v(u...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }, a); } };
struct W_own { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::view_vector<T, sizeof...(U)> v(u...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }, a); } };
struct W_vec1 { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { [&]<std::size_t... I>(std::index_sequence<I...>) { dsga::basic_vector<T, sizeof...(U)> v(dsga::basic_vector<U, 1>(std::get<I>(a))...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }(std::make_index_sequence<sizeof...(U)>{}); } };
struct W_set { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::basic_vector<T, sizeof...(U)> v{}; v.set(u...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }, a); } };
struct W_oset { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::view_vector<T, sizeof...(U)> v{}; v.set(u...); for (std::size_t i = 0; i < sizeof...(U); ++i) o[i] = v[i]; }, a); } };
struct W_vset { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { std::apply([&](auto... u) { dsga::basic_view<true, T, sizeof...(U)> v(o); v.set(u...); }, a); } };
template <class V, class... U> void swizzle_set(V &v, U... u) { constexpr int n = sizeof...(U); if constexpr (n == 1) v.x.set(u...); else if constexpr (n == 2) v.yx.set(u...); else if constexpr (n == 3) v.zxy.set(u...); else v.wxzy.set(u...); }
template <int n, class T> void unswizzle(T *o, const T *d) { constexpr int p[5][4] = { {}, { 0 }, { 1, 0 }, { 2, 0, 1 }, { 3, 0, 2, 1 } }; for (int i = 0; i < n; ++i) o[i] = d[p[n][i]]; }
struct W_sset { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { constexpr int n = sizeof...(U); std::apply([&](auto... u) { dsga::basic_vector<T, n> v{}; swizzle_set(v, u...); T d[n]; for (int i = 0; i < n; ++i) d[i] = v[i]; unswizzle<n, T>(o, d); }, a); } };
struct W_vsset { template <class T, class... U> static void go(T *o, const std::tuple<U...> &a) { constexpr int n = sizeof...(U); std::apply([&](auto... u) { T d[n]{}; dsga::basic_view<true, T, n> v(d); swizzle_set(v, u...); unswizzle<n, T>(o, d); }, a); } };
#endif

int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_N
	constexpr int n = MC_N;
	using Target = std::conditional_t<MC_OWN == 0, dsga::basic_vector<double, n>, dsga::view_vector<double, n>>;
	Product<Target, n, 1, full>::run();
	Product<Target, n, 2, full>::run();
	if constexpr (n >= 2) Product<Target, n, 3, three>::run();
	if constexpr (n >= 3) Product<Target, n, 4, four>::run();
	one<Target, n, F, F, F, F, F>(); one<Target, n, F, F, F, A_obj<2, K_VEC>, F>();
	Product<Target, n, 1, types<A_mat<float, 2, 4>, A_mat<double, 4, 4>, A_mat<float, 3, 2>, A_obj<4, K_CVIEW>, A_obj<4, K_CVSWZ>, A_obj<4, K_OSWZ>, A_obj<1, K_OSWZ>, A_obj<1, K_CVSWZ>>>::run();
	sample(strf("%s of length %d: all lists of 1 and 2 arguments over 30 argument types, 3 over 8, 4 over 5", MC_OWN ? "owning view" : "vector", n));
#elif defined(MC_MIX)
	mixed_lists<std::tuple_element_t<MC_MIX, mixed_types>>(C, [](auto l) { using L = decltype(l); L::template run<W_vec>("vector"); L::template run<W_own>("owning view"); L::template run<W_vec1>("vector from length 1 vectors"); L::template run<W_set>("vector.set()"); L::template run<W_oset>("owning view.set()"); L::template run<W_vset>("view.set()"); L::template run<W_sset>("swizzle.set()"); L::template run<W_vsset>("swizzle of view.set()"); });
	sample("argument lists mixing component types: all pairs, longer lists with one odd argument, every combination of boundary values, 8 ways of storing them");
#else
	for_types(all_types{}, [&](auto u) {
		static_for<4>([&](auto n) { type_pair<std::tuple_element_t<MC_TYPES, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>, typename decltype(u)::type, n + 1>(); });
	});
	sample("every pair of component types x boundary values x 11 ways of constructing, lengths 1 to 4");
#endif
	total = C;
	return finish();
}
