// P30: length-1 objects convert to, compare, assign and combine like their component.   -DMC_T=<0..7> component type; -DMC_PAIR: with another length-1 object instead of a scalar
#include "kinds.hpp"
using namespace mc;
static Counters C_;
using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
template <class U> constexpr bool fits(long double x) { if constexpr (std::is_same_v<U, bool>) return true; else if constexpr (std::is_floating_point_v<U>) return true; else return x > (long double)std::numeric_limits<U>::min() - 1 && x < (long double)std::numeric_limits<U>::max() + 1; }
// value conversions whose result the language defines
template <class U, class S> constexpr bool defined(S s)
{
	if constexpr (std::is_floating_point_v<S>) { if (std::is_same_v<U, bool>) return true; if (s != s) return std::is_floating_point_v<U>; if constexpr (std::is_floating_point_v<U>) return std::isinf(s) || std::fabs((long double)s) <= (long double)std::numeric_limits<U>::max(); else return !std::isinf(s) && fits<U>((long double)s); }
	else return true;
}
template <class A> bool eqv(A a, A b) { if constexpr (std::is_floating_point_v<A>) return same(a, b); else return a == b; }
enum OpId { o_add, o_sub, o_mul, o_div, o_mod, o_and, o_or, o_xor, o_shl, o_shr, o_eq, o_ne, o_lt, o_le, o_gt, o_ge, o_land, o_lor, NOPS };
constexpr const char *opname[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||" };
template <int O> struct Op;
#define MC_OP(o, op) template <> struct Op<o> { template <class A, class B> constexpr auto operator()(const A &a, const B &b) const -> decltype(a op b) { return a op b; } };
MC_OP(o_add, +) MC_OP(o_sub, -) MC_OP(o_mul, *) MC_OP(o_div, /) MC_OP(o_mod, %) MC_OP(o_and, &) MC_OP(o_or, |) MC_OP(o_xor, ^) MC_OP(o_shl, <<) MC_OP(o_shr, >>) MC_OP(o_eq, ==) MC_OP(o_ne, !=) MC_OP(o_lt, <) MC_OP(o_le, <=) MC_OP(o_gt, >) MC_OP(o_ge, >=) MC_OP(o_land, &&) MC_OP(o_lor, ||)
template <int O, class A, class B> constexpr auto ap(const A &a, const B &b) { return Op<O>{}(a, b); }
template <int O, class A, class B> constexpr bool has = std::is_invocable_v<Op<O>, const A &, const B &>;
template <int O, class A, class B> bool ok(A a, B b)
{
	using R = decltype(+a + +b); constexpr bool fp = std::is_floating_point_v<R>;
	if constexpr (O == o_shl || O == o_shr) { using P = decltype(+a); const auto w = (__int128)b; if (w < 0 || w >= (int)sizeof(P) * 8) return false; return std::is_unsigned_v<P> || (a >= 0 && (O == o_shr || (__int128)a << (int)w <= (__int128)std::numeric_limits<P>::max())); }
	else if constexpr (fp) return !(O == o_div && false);
	else if constexpr (O == o_div || O == o_mod) { const R x = (R)a, y = (R)b; return y != 0 && !(std::is_signed_v<R> && y == R(-1) && x == std::numeric_limits<R>::min()); }
	else if constexpr ((O == o_add || O == o_sub || O == o_mul) && std::is_signed_v<R>) { R z; const R x = (R)a, y = (R)b; return !(O == o_add ? __builtin_add_overflow(x, y, &z) : O == o_sub ? __builtin_sub_overflow(x, y, &z) : __builtin_mul_overflow(x, y, &z)); }
	else return true;
}
template <class U> std::vector<U> values()
{
	if constexpr (std::is_same_v<U, bool>) return { false, true };
	else if constexpr (sizeof(U) < 4) { std::vector<U> v; for (int i : { 0, 1, 2, 3, 5, 31, 100, -1, -7 }) v.push_back((U)i); v.push_back(std::numeric_limits<U>::max()); v.push_back(std::numeric_limits<U>::min()); return v; }
	else if constexpr (std::is_same_v<U, long double>) return { 0, 1, -2.5L, 1e30L };
	else if constexpr (std::is_same_v<U, long> || std::is_same_v<U, unsigned long>) { std::vector<U> v; for (auto x : alphabet<std::conditional_t<std::is_signed_v<U>, long long, unsigned long long>>()) v.push_back((U)x); return v; }
	else { auto v = alphabet<U>(); if constexpr (std::is_floating_point_v<U>) for (U x : { U(0.5), U(-0.75), U(2147483648.0), U(-2147483648.0), U(4294967295.0), U(1e18), U(255.9) }) v.push_back(x); return v; }
}
template <class R> struct Bin { std::string key; void (*put)(T); R (*run)(); };
// all pairs of values
template <class R, class B> __attribute__((noinline)) void pairs(const std::string &key, void (*put)(T, B), R (*run)(), bool (*good)(T, B), R (*want)(T, B))
{
	static const auto va = values<T>(); static const auto vb = values<B>(); snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
	for (T a : va) for (B b : vb)
	{
		if (!good(a, b)) continue;
		put(a, b); R got = run(), w = want(a, b); ++C_.states; ++C_.traces; ++C_.transitions;
		if (!eqv(got, w)) fail(key, strf("%s and %s: %s, expected %s", str(a).c_str(), str(b).c_str(), str(got).c_str(), str(w).c_str()));
	}
}
template <int K> struct H { static auto &o() { static Obj<T, 1, K> x; return x; } static void put(T a) { T v[1] = { a }; mem(o()).put(v); } };
template <class B> struct SV { static B &o() { static B x{}; return x; } };
template <class> struct Runner
{
	using scalars = types<bool, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double>;
	template <class V> struct isvec : std::false_type {};
	template <class R, class W> static void result_(const std::string &key) { if (!std::is_same_v<R, W>) fail(key + " type", "the result does not have the type of the scalar expression"); }
	template <int K, bool CST> static void conversions()
	{
		using V0 = std::remove_reference_t<decltype(H<K>::o().get())>; using V = std::conditional_t<CST, const V0, V0>; const std::string k = strf("%s%s1 %s ", CST ? "const " : "", kname(K), tname<T>());
		static auto get = []() -> V & { return H<K>::o().get(); };
		for_types(scalars{}, [&](auto t) {
			using U = typename decltype(t)::type; using P = void (*)(T, bool); const P put = [](T a, bool) { H<K>::put(a); }; const auto good = +[](T a, bool) { return defined<U>(a); }; const auto want = +[](T a, bool) { return static_cast<U>(a); };
			const std::string u = strf("%s%d", std::is_same_v<U, bool> ? "bool" : std::is_floating_point_v<U> ? "float" : std::is_signed_v<U> ? "int" : "uint", (int)sizeof(U) * 8);
			auto each = [&](const char *how, auto f) { pairs<U, bool>(k + how + " " + u, put, f, good, want); };
			if constexpr (!std::is_constructible_v<U, V &>) fail(k + "explicit conversion to " + u, "does not compile");
			else { each("static_cast to", +[] { return static_cast<U>(get()); }); each("construction of", +[] { U x(get()); return x; }); each("rvalue cast to", +[] { return static_cast<U>(std::move(get())); }); each("braces cast to", +[] { return U(get()); }); }
			if constexpr (!std::is_convertible_v<V &, U>) fail(k + "implicit conversion to " + u, "does not compile");
			else { each("initialisation of", +[] { U x = get(); return x; }); each("assignment to", +[] { U x{}; x = get(); return x; }); each("argument of type", +[] { return [](U x) { return x; }(get()); }); }
		});
		auto one = [&](const char *how, auto f, auto want) { using R = decltype(f()); pairs<R, bool>(k + how, +[](T a, bool) { H<K>::put(a); }, +f, +[](T, bool) { return true; }, +want); };
		if constexpr (requires (V v) { !v; }) one("!v", [] { return bool(!get()); }, [](T a, bool) { return !a; }); else fail(k + "!v", "does not compile");
		one("v ? 1 : 0", [] { return get() ? 1 : 0; }, [](T a, bool) { return a ? 1 : 0; }); one("if (v)", [] { if (get()) return 1; return 0; }, [](T a, bool) { return a ? 1 : 0; });
		one("const T & bound to v", [] { const T &r = get(); return T(r); }, [](T a, bool) { return a; });
		if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { one("index", [] { static const int tab[5] = { 5, 6, 7, 8, 9 }; auto &v = get(); return (T)v < T(5) && !((T)v < T(0)) ? tab[v] : 0; }, [](T a, bool) { return a < T(5) && !(a < T(0)) ? 5 + (int)a : 0; }); one("switch", [] { switch (get()) { case 0: return 10; case 1: return 11; case 3: return 13; default: return 1; } }, [](T a, bool) { return a == 0 ? 10 : a == 1 ? 11 : a == 3 ? 13 : 1; }); }
	}
	template <class X, class Y, class B, int O, int K> static void both(const std::string &key, X &(*gx)(), Y &(*gy)(), void (*put)(T, B), bool flip)
	{
		static X &(*sx)(); static Y &(*sy)(); sx = gx; sy = gy;
		if (!flip)
		{
			if constexpr (has<O, T, B>) { using W = decltype(ap<O>(T{}, B{})); if constexpr (!has<O, X, Y>) fail(key, "does not compile"); else { using R = std::remove_cvref_t<decltype(ap<O>(std::declval<X &>(), std::declval<Y &>()))>; if constexpr (!std::is_arithmetic_v<R>) fail(key + " type", "the result is not a scalar"); else { result_<R, W>(key); pairs<R, B>(key, put, +[] { return ap<O>(sx(), sy()); }, +[](T a, B b) { return ok<O, T, B>(a, b); }, +[](T a, B b) { return (R)ap<O>(a, b); }); } } }
		}
		else
		{
			if constexpr (has<O, B, T>) { using W = decltype(ap<O>(B{}, T{})); if constexpr (!has<O, Y, X>) fail(key, "does not compile"); else { using R = std::remove_cvref_t<decltype(ap<O>(std::declval<Y &>(), std::declval<X &>()))>; if constexpr (!std::is_arithmetic_v<R>) fail(key + " type", "the result is not a scalar"); else { result_<R, W>(key); pairs<R, B>(key, put, +[] { return ap<O>(sy(), sx()); }, +[](T a, B b) { return ok<O, B, T>(b, a); }, +[](T a, B b) { return (R)ap<O>(b, a); }); } } }
		}
	}
#ifdef MC_PAIR
	using others = std::conditional_t<std::is_same_v<T, bool>, types<bool>, num_types>;
#else
	using others = std::conditional_t<std::is_same_v<T, bool>, types<bool>, num_types>;
#endif
	template <int K, bool CST> static void operators()
	{
		using V0 = std::remove_reference_t<decltype(H<K>::o().get())>; using V = std::conditional_t<CST, const V0, V0>; const std::string k = strf("%s%s1 %s ", CST ? "const " : "", kname(K), tname<T>());
		for_types(others{}, [&](auto t) {
			using B = typename decltype(t)::type;
#ifdef MC_PAIR
			constexpr int L = (K * 3 + 2) % NKINDS; struct HB { static auto &o() { static Obj<B, 1, L> x; return x; } }; using Y = std::remove_reference_t<decltype(HB::o().get())>; const auto gy = +[]() -> Y & { return HB::o().get(); }; const auto put = +[](T a, B b) { H<K>::put(a); B v[1] = { b }; mem(HB::o()).put(v); }; const std::string o = strf("%s1 %s", kname(L), tname<B>());
#else
			using Y = B; const auto gy = +[]() -> Y & { return SV<B>::o(); }; const auto put = +[](T a, B b) { H<K>::put(a); SV<B>::o() = b; }; const std::string o = tname<B>();
#endif
			const auto gx = +[]() -> V & { return H<K>::o().get(); };
			static_for<NOPS>([&](auto oo) { constexpr int O = std::remove_cvref_t<decltype(oo)>::value;
				if constexpr (!std::is_same_v<T, bool> || O >= o_eq) { both<V, Y, B, O, K>(k + opname[O] + " " + o, gx, gy, put, false); both<V, Y, B, O, K>(o + " " + opname[O] + " " + k, gx, gy, put, true); } });
		});
	}
	// assignment from a scalar
	template <int K> static void assigns()
	{
		if constexpr (K < K_CVIEW && !std::is_same_v<T, bool>) for_types(others{}, [&](auto t) {
			using B = typename decltype(t)::type; constexpr bool can = std::is_same_v<std::common_type_t<T, B>, T>; static B b_; using V = std::remove_reference_t<decltype(H<K>::o().get())>; const std::string k = strf("%s1 %s ", kname(K), tname<T>());
			if constexpr (can)
			{
				auto go = [&](const char *op, auto f, auto want, auto good) { pairs<T, B>(k + op + " " + tname<B>(), +[](T a, B b) { H<K>::put(a); b_ = b; }, +f, +good, +want); };
				auto rd = [] { T v = *(H<K>::o().raw() + H<K>::o().slot(0)); return v; }; (void)rd; auto yes = [](T, B) { return true; };
				if constexpr (requires (V v) { v = b_; }) go("=", [] { H<K>::o().get() = b_; return *(H<K>::o().raw() + H<K>::o().slot(0)); }, [](T, B b) { return T(b); }, yes); else if constexpr (K != K_OWN) fail(k + "= " + tname<B>(), "does not compile");
				go("+=", [] { H<K>::o().get() += b_; return *(H<K>::o().raw() + H<K>::o().slot(0)); }, [](T a, B b) { a += b; return a; }, [](T a, B b) { return ok<o_add, T, B>(a, b); });
				go("-=", [] { H<K>::o().get() -= b_; return *(H<K>::o().raw() + H<K>::o().slot(0)); }, [](T a, B b) { a -= b; return a; }, [](T a, B b) { return ok<o_sub, T, B>(a, b); });
				go("*=", [] { H<K>::o().get() *= b_; return *(H<K>::o().raw() + H<K>::o().slot(0)); }, [](T a, B b) { a *= b; return a; }, [](T a, B b) { return ok<o_mul, T, B>(a, b); });
				go("/=", [] { H<K>::o().get() /= b_; return *(H<K>::o().raw() + H<K>::o().slot(0)); }, [](T a, B b) { a /= b; return a; }, [](T a, B b) { return ok<o_div, T, B>(a, b); });
			}
		});
	}
	// only length 1 converts
	template <int K> static void negative()
	{
		static_for<3>([](auto n) { constexpr int N = std::remove_cvref_t<decltype(n)>::value + 2; using V = std::remove_reference_t<decltype(std::declval<Obj<T, N, K> &>().get())>; for_types(scalars{}, [](auto t) { using U = typename decltype(t)::type; ++C_.states; ++C_.traces; ++C_.transitions; if (std::is_constructible_v<U, V &> || std::is_convertible_v<const V &, U>) fail(strf("%s%d %s", kname(K), N, tname<T>()), "converts to a scalar"); }); });
	}
	static void run()
	{
#ifdef MC_PAIR
		static_for<NKINDS>([](auto kk) { constexpr int K = std::remove_cvref_t<decltype(kk)>::value; operators<K, K % 2 == 1>(); });
#else
		static_for<NKINDS>([](auto kk) { constexpr int K = std::remove_cvref_t<decltype(kk)>::value; conversions<K, false>(); conversions<K, true>(); operators<K, false>(); operators<K, true>(); assigns<K>(); negative<K>(); });
#endif
		sample("18 operators in both orders with scalars of 7 types, conversions to 14 types in 7 ways, every pair of boundary values");
	}
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); total = C_; return finish(); }
