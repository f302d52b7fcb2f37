// P09: compound assignment, ++ and --.
//   -DKINDS=k  left kind k (writable), every right kind;  -DTYPES=t  t-th type on the left, all on the right;
//   -DALIAS=k  right operand is part of the left operand's own object (0 vector, 1 view, 2 owning view)
#include "swizzles.hpp"
using namespace mc;

#define OPS(X) X(add, +, +=) X(sub, -, -=) X(mul, *, *=) X(div, /, /=) X(mod, %, %=) X(shl, <<, <<=) X(shr, >>, >>=) X(band, &, &=) X(bor, |, |=) X(bxor, ^, ^=)
enum OpId {
#define X(n, o, q) op_##n,
	OPS(X)
#undef X
	NOPS };
constexpr const char *opname(int o) {
	constexpr const char *s[] = {
#define X(n, o, q) #q,
		OPS(X)
#undef X
	};
	return s[o];
}
template <int O> struct Op;
#define X(n, o, q) template <> struct Op<op_##n> { \
	template <class A, class B> static auto raw(A a, B b) { return a o b; } \
	template <class A, class B> static auto &dsg(A &a, const B &b) { return a q b; } \
	template <class A, class B> static constexpr bool exists = requires (A &a, const B &b) { a q b; }; };
OPS(X)
#undef X
constexpr bool is_shift(int o) { return o == op_shl || o == op_shr; }
constexpr bool is_bit(int o) { return o == op_band || o == op_bor || o == op_bxor; }
constexpr bool int_only(int o) { return o == op_mod || is_shift(o) || is_bit(o); }
template <int O, class T, class U> constexpr bool permitted()
{
	if constexpr (std::is_same_v<T, bool> || std::is_same_v<U, bool>) return false;
	else return std::is_same_v<std::common_type_t<T, U>, T> && !(int_only(O) && (std::is_floating_point_v<T> || std::is_floating_point_v<U>)) && !(is_bit(O) && sizeof(T) != sizeof(U));
}
template <int O, class T, class U> T model(T a, U b)
{
	if constexpr (is_shift(O)) return static_cast<T>(Op<O>::raw(a, b));
	else return static_cast<T>(Op<O>::raw(a, static_cast<T>(b)));
}
template <int O, class T, class U> bool defined(T a, U b0)
{
	if constexpr (is_shift(O)) return !(b0 < U(0)) && (unsigned long long)b0 < sizeof(T) * 8;
	else if constexpr (std::is_floating_point_v<T>) return true;
	else
	{
		T b = static_cast<T>(b0); [[maybe_unused]] T r;
		if constexpr (O == op_div || O == op_mod) return b != T(0) && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == T(-1));
		else if constexpr (std::is_unsigned_v<T>) return true;
		else if constexpr (O == op_add) return !__builtin_add_overflow(a, b, &r);
		else if constexpr (O == op_sub) return !__builtin_sub_overflow(a, b, &r);
		else if constexpr (O == op_mul) return !__builtin_mul_overflow(a, b, &r);
		else return true;
	}
}
template <int O, class T, class U> const std::vector<std::pair<T, U>> &pairs()
{
	static const std::vector<std::pair<T, U>> v = [] {
		std::vector<std::pair<T, U>> r;
		for (T a : alphabet<T>()) for (U b : alphabet<U>()) if (defined<O>(a, b)) r.push_back({ a, b });
		return r; }();
	return v;
}
static Counters C;

// the operation on untyped objects; returns whether it returned a reference to the left operand itself
using Thunk = bool (*)(void *, void *);
template <int O, class A, class B> bool thunk(void *a, void *b) { return (void *)&Op<O>::dsg(*(A *)a, *(B *)b) == a; }

template <int O, class T, class U> void run(int N, int C2, Mem<T> a, Mem<U> b, void *pa, void *pb, Thunk th)
{
	auto key = [&] { return strf("%s%d %s %s%d %s/%s", a.kind, N, opname(O), b.kind, C2, tname<T>(), tname<U>()); };
	auto &ps = pairs<O, T, U>();
	const int n = (int)ps.size();
	for (int p = 0; p < n; ++p)
	{
		T av[4], want[4]; U bv[4];
		for (int i = 0; i < 4; ++i)
		{
			auto &q = ps[(p + 7 * i) % n];
			if (C2 == N) { av[i] = q.first; bv[i] = q.second; }
			else { bv[i] = ps[p].second; av[i] = i && defined<O>(q.first, bv[0]) ? q.first : ps[p].first; }
		}
		for (int i = 0; i < N; ++i) want[i] = model<O>(av[i], bv[C2 == 1 ? 0 : i]);
		a.put(av); b.put(bv);
		ctx.what = "compound assignment"; ctx.a[0] = O; ctx.a[1] = N; ctx.a[2] = C2; ctx.a[3] = p;
		const bool self = th(pa, pb);
		++C.states; C.transitions += N; ++C.traces;
		if (!a.holds(want)) fail(key(), strf("%s %s %s left %s in memory, expected components %s", vstr(std::vector<T>(av, av + N)).c_str(), opname(O), vstr(std::vector<U>(bv, bv + C2)).c_str(), a.show().c_str(), vstr(std::vector<T>(want, want + N)).c_str()));
		if (!b.holds(bv)) fail(key(), "the right operand changed");
		if (!self) fail(key(), "does not return the left operand");
		if (p == n / 2 && N == 3 && C2 == 3) sample(strf("%s: %s %s %s", key().c_str(), vstr(std::vector<T>(av, av + N)).c_str(), opname(O), vstr(std::vector<U>(bv, bv + C2)).c_str()));
	}
}
template <int O, class T, class U, int K1, int K2, int N, int C2> void run_kinds()
{
	static Obj<T, N, K1> a; static Obj<U, C2, K2> b;
	auto &oa = a.get(); auto &ob = b.get();
	run<O, T, U>(N, C2, mem(a), mem(b), (void *)&oa, (void *)&ob, thunk<O, std::remove_reference_t<decltype(oa)>, std::remove_reference_t<decltype(ob)>>);
}
template <int O, class T, class U, int K1, int N> void run_scalar()
{
	static Obj<T, N, K1> a; static U b;
	auto &oa = a.get();
	run<O, T, U>(N, 1, mem(a), mem_scalar(b), (void *)&oa, (void *)&b, thunk<O, std::remove_reference_t<decltype(oa)>, U>);
}
template <class T, int K, int N> void run_incdec()
{
	static Obj<T, N, K> a; auto &oa = a.get(); auto m = mem(a);
	const auto al = alphabet<T>(); const int n = (int)al.size();
	for (int what = 0; what < 4; ++what)
		for (int p = 0; p < n; ++p)
		{
			T av[4], want[4];
			for (int i = 0; i < 4; ++i)
			{
				av[i] = al[(p + 4 * i) % n];
				if (std::is_integral_v<T> && std::is_signed_v<T>) { if (what < 2 && av[i] == std::numeric_limits<T>::max()) av[i] = T(6); if (what >= 2 && av[i] == std::numeric_limits<T>::min()) av[i] = T(6); }
				want[i] = what < 2 ? T(av[i] + T(1)) : T(av[i] - T(1));
			}
			m.put(av);
			auto key = [&] { return strf("%s %s%d %s", what == 0 ? "++v" : what == 1 ? "v++" : what == 2 ? "--v" : "v--", kname(K), N, tname<T>()); };
			auto old_ok = [&](const auto &r) { bool ok = true; for (int i = 0; i < N; ++i) ok &= same_bits<T>(r[i], av[i]); return ok; };
			if (what == 0) { if ((void *)&++oa != (void *)&oa) fail(key(), "does not return the object"); }
			if (what == 1) { auto r = oa++; if (!old_ok(r)) fail(key(), "does not return the previous value"); }
			if (what == 2) { if ((void *)&--oa != (void *)&oa) fail(key(), "does not return the object"); }
			if (what == 3) { auto r = oa--; if (!old_ok(r)) fail(key(), "does not return the previous value"); }
			if (!m.holds(want)) fail(key(), strf("%s became %s", vstr(std::vector<T>(av, av + N)).c_str(), m.show().c_str()));
			++C.states; C.transitions += N; ++C.traces;
		}
}

// ---- aliasing ------------------------------------------------------------------------------------------
template <class T, int K> struct Owner;
template <class T> struct Owner<T, 0> { dsga::basic_vector<T, 4> v{}; T *raw() { return reinterpret_cast<T *>(&v); } static constexpr const char *kind = "vector"; };
template <class T> struct Owner<T, 1> { T buf[6] = {}; dsga::basic_view<true, T, 4> v{ buf + 1 }; T *raw() { return buf + 1; } static constexpr const char *kind = "view"; };
template <class T> struct Owner<T, 2> { dsga::view_vector<T, 4> v{}; T *raw() { return v.data(); } static constexpr const char *kind = "owning-view"; };

// li / ri: which element of the owner each component of the left / right operand is
template <int O, class T> void alias(const char *kind, const char *ln, const char *rn, int n, int rnc, const int *li, const int *ri, T *raw, void *pl, void *pr, Thunk th)
{
	static const T base[3][4] = { { T(40), T(3), T(17), T(2) }, { T(5), T(11), T(1), T(29) }, { T(3), T(2), T(4), T(1) } };
	for (auto &b : base)
	{
		if (is_shift(O) && &b == &base[0]) continue;
		T want[4];
		for (int i = 0; i < 4; ++i) raw[i] = want[i] = b[i];
		for (int i = 0; i < n; ++i) want[li[i]] = model<O>(b[li[i]], b[ri[rnc == 1 ? 0 : i]]);
		ctx.what = ln; ctx.a[0] = O;
		bool self = th(pl, pr);
		++C.states; C.transitions += n; ++C.traces;
		bool ok = true; for (int i = 0; i < 4; ++i) ok &= same_bits(raw[i], want[i]);
		if (!ok || !self)
			fail(strf("alias %s %s %s %s %s", kind, ln, opname(O), rn, tname<T>()), strf("v = %s; v.%s %s v.%s gave %s, expected %s%s", vstr(std::vector<T>(b, b + 4)).c_str(), ln, opname(O), rn,
				vstr(std::vector<T>(raw, raw + 4)).c_str(), vstr(std::vector<T>(want, want + 4)).c_str(), self ? "" : " (and did not return the left operand)"));
	}
}
struct A_self { static constexpr const char *name = "(whole)"; static constexpr int n = 4; static constexpr int idx[4] = { 0, 1, 2, 3 }; template <class V> static auto &get(V &v) { return v; } };
template <int O, class T, int K, class L, class R> void alias_pair()
{
	static Owner<T, K> o;
	auto &l = L::get(o.v); auto &r = R::get(o.v);
	alias<O, T>(o.kind, L::name, R::name, L::n, R::n, L::idx, R::idx, o.raw(), (void *)&l, (void *)&r, thunk<O, std::remove_reference_t<decltype(l)>, std::remove_reference_t<decltype(r)>>);
}
template <class L, class... Ts, class F> void cross(types<Ts...>, F f) { (f.template operator()<L, Ts>(), ...); }

int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_KINDS
	constexpr int K1 = MC_KINDS;
	static_for<4>([&](auto c) {
		constexpr int N = c + 1;
		static_for<NKINDS>([&](auto k2) {
			constexpr int K2 = k2;
			static_for<NOPS>([&](auto o) { run_kinds<o, int, int, K1, K2, N, N>(); });
			run_kinds<op_sub, double, int, K1, K2, N, N>(); run_kinds<op_div, double, float, K1, K2, N, N>(); run_kinds<op_shl, long long, int, K1, K2, N, N>();
			if constexpr (N > 1) { run_kinds<op_sub, int, int, K1, K2, N, 1>(); run_kinds<op_mul, double, int, K1, K2, N, 1>(); run_kinds<op_shr, int, int, K1, K2, N, 1>(); run_kinds<op_bxor, int, int, K1, K2, N, 1>(); }
		});
		static_for<NOPS>([&](auto o) { run_scalar<o, int, int, K1, N>(); if constexpr (N > 1) run_kinds<o, int, int, K1, K_VSWZ, N, 1>(); });
		run_scalar<op_add, double, int, K1, N>(); run_scalar<op_div, float, float, K1, N>(); run_scalar<op_shl, unsigned, int, K1, N>();
		for_types(num_types{}, [&](auto t) { run_incdec<typename decltype(t)::type, K1, N>(); });
	});
#endif
#ifdef MC_TYPES
	using T = std::tuple_element_t<MC_TYPES, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
	for_types(all_types{}, [&](auto u) {
		using U = typename decltype(u)::type;
		static_for<NOPS>([&](auto o_) {
			constexpr int O = o_;
			if constexpr (permitted<O, T, U>())
				static_for<4>([&](auto c) {
					constexpr int N = c + 1;
					run_kinds<O, T, U, K_VEC, K_VEC, N, N>(); run_scalar<O, T, U, K_VEC, N>();
					if constexpr (N > 1) run_kinds<O, T, U, K_VEC, K_VEC, N, 1>();
				});
			static_for<4>([&](auto c1) {
				constexpr int N1 = c1 + 1;
				using A = dsga::basic_vector<T, N1>;
				constexpr bool p = permitted<O, T, U>();
				// (a length-1 right operand can also enter as the scalar it converts to, so only its type is checked)
				static_for<4>([&](auto c2) {
					constexpr int N2 = c2 + 1;
					constexpr bool want = p && (N1 == N2 || N2 == 1), got = Op<O>::template exists<A, dsga::basic_vector<U, N2>>;
					if (want != got) fail(strf("wellformed vec%d<%s> %s vec%d<%s>", N1, tname<T>(), opname(O), N2, tname<U>()), got ? "compiles but is not permitted" : "does not compile");
					++C.states; ++C.transitions;
				});
				constexpr bool g = Op<O>::template exists<A, U>, gc = Op<O>::template exists<const A, U>, gv = Op<O>::template exists<dsga::basic_view<false, T, N1>, U>;
				if (p != g) fail(strf("wellformed vec%d<%s> %s %s", N1, tname<T>(), opname(O), tname<U>()), g ? "compiles but is not permitted" : "does not compile");
				if (gc || gv) fail(strf("wellformed const vec%d<%s> %s %s", N1, tname<T>(), opname(O), tname<U>()), "compiles though the left operand is const");
				++C.states; ++C.transitions;
			});
		});
	});
#endif
#ifdef MC_ALIAS
	constexpr int K = MC_ALIAS;
	for_types(USwz<4, 1>{}, [&](auto l) { cross<typename decltype(l)::type>(Swz<4, 1>{}, [&]<class L, class R>() { alias_pair<op_sub, int, K, L, R>(); alias_pair<op_shl, int, K, L, R>(); alias_pair<op_mul, double, K, L, R>(); }); });
	for_types(USwz<4, 2>{}, [&](auto l) { cross<typename decltype(l)::type>(Swz<4, 2>{}, [&]<class L, class R>() { alias_pair<op_sub, int, K, L, R>(); }); });
	for_types(USwz<4, 2>{}, [&](auto l) { cross<typename decltype(l)::type>(Swz<4, 1>{}, [&]<class L, class R>() { alias_pair<op_add, int, K, L, R>(); }); });
#ifdef MC_DEEP
	for_types(USwz<4, 3>{}, [&](auto l) { cross<typename decltype(l)::type>(Swz<4, 3>{}, [&]<class L, class R>() { alias_pair<op_sub, int, K, L, R>(); }); });
#else
	for_types(USwz<4, 3>{}, [&](auto l) { cross<typename decltype(l)::type>(USwz<4, 3>{}, [&]<class L, class R>() { if constexpr (L::idx[0] == 0 || R::idx[0] == 0) alias_pair<op_sub, int, K, L, R>(); }); });
#endif
	for_types(USwz<4, 3>{}, [&](auto l) { cross<typename decltype(l)::type>(Swz<4, 1>{}, [&]<class L, class R>() { alias_pair<op_sub, int, K, L, R>(); }); });
	cross<A_self>(Swz<4, 4>{}, [&]<class L, class R>() { alias_pair<op_sub, int, K, L, R>(); });
	cross<A_self>(Swz<4, 1>{}, [&]<class L, class R>() { static_for<NOPS>([&](auto o) { alias_pair<o, int, K, L, R>(); }); });
	// every operator, with permutations that a component-by-component evaluation in either direction gets wrong
	using perms = types<A_self, A_wzyx, A_yzwx, A_wxyz, A_yxwz, A_xxyy, A_wwww, A_xxxx>;
	cross<A_self>(perms{}, [&]<class L, class R>() { static_for<NOPS>([&](auto o) { alias_pair<o, int, K, L, R>(); }); });
	cross<A_wzyx>(perms{}, [&]<class L, class R>() { static_for<NOPS>([&](auto o) { alias_pair<o, int, K, L, R>(); }); });
	cross<A_zxwy>(Swz<4, 1>{}, [&]<class L, class R>() { static_for<NOPS>([&](auto o) { alias_pair<o, int, K, L, R>(); }); });
	for_types(USwz<4, 4>{}, [&](auto l) { using L = typename decltype(l)::type; alias_pair<op_sub, int, K, L, A_self>(); alias_pair<op_sub, int, K, L, A_wzyx>(); alias_pair<op_mul, double, K, L, A_yzwx>(); });
	sample(strf("v.zxw -= v.wxz etc. on a %s: all unique left swizzles of 1..3 letters x right swizzles", Owner<int, K>::kind));
#endif
	total = C;
	return finish();
}
