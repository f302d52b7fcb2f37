// P12: relational functions, boolean combinations and == for every kind, component type and pair of boundary values
//   -DMC_T=component type [-DMC_MIXED: == between that type and the others, and between matrices]
#include "lift.hpp"
using namespace mc;

template <class T> std::vector<T> cmp_alphabet()
{
	auto v = alphabet<T>();
	using L = std::numeric_limits<T>;
	if constexpr (std::is_floating_point_v<T>) for (T x : { L::denorm_min(), -L::denorm_min(), T(std::nextafter(T(1), T(2))), T(std::nextafter(T(16777217), T(0))), -L::infinity(), L::lowest(), -L::quiet_NaN() }) v.push_back(x);
	else if constexpr (!std::is_same_v<T, bool> && sizeof(T) == 8) for (T x : { T(1ll << 53), T((1ll << 53) + 1), T(L::max() - 2), T(L::max() / 2 + 2), T(L::max() - 1024), T(1ull << 63), T((1ull << 63) + 1), T(-(1ll << 53)), T(-(1ll << 53) - 1) }) v.push_back(x);
	else if constexpr (!std::is_same_v<T, bool>) for (T x : { T(1 << 24), T((1 << 24) + 1), T(L::max() - 2), T(1u << 31), T((1u << 31) + 1) }) v.push_back(x);
	return v;
}
// the mathematical comparison, without <, > or == on floating-point values: by the ordering of bit patterns
template <class T> int ord(T x)   { return 0; }
template <class T> bool isnan_(T x) { if constexpr (std::is_floating_point_v<T>) { using U = typename fpbits<T>::U; U b = std::bit_cast<U>(x) << 1; return b > (std::bit_cast<U>(std::numeric_limits<T>::infinity()) << 1); } else return false; }
template <class T> int cmp3(T x, T y)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		using I = std::conditional_t<sizeof(T) == 4, int, long long>;
		auto k = [](T v) -> I { I b = std::bit_cast<I>(v); return b < 0 ? std::numeric_limits<I>::min() - b : b; };
		I a = k(x), b = k(y); return a < b ? -1 : a > b;
	}
	else return x < y ? -1 : y < x;
}
template <class Self> struct Cmp
{
	template <class T> static bool ok(T, T) { return true; }
	template <class T> static bool want(T x, T y) { if (isnan_(x) || isnan_(y)) return Self::nan; return Self::rel(cmp3(x, y)); }
	template <class T> static bool eq(bool g, bool w, T, T) { return g == w; }
};
#define MC_CMP(id, onnan, expr) struct C_##id : Cmp<C_##id> { static constexpr const char *name = #id; static constexpr bool nan = onnan; static bool rel(int c) { return expr; } \
	template <class A, class B> static auto call(A &&a, B &&b) { return dsga::id(a, b); } };
MC_CMP(lessThan, false, c < 0) MC_CMP(lessThanEqual, false, c <= 0) MC_CMP(greaterThan, false, c > 0) MC_CMP(greaterThanEqual, false, c >= 0) MC_CMP(equal, false, c == 0) MC_CMP(notEqual, true, c != 0)
struct C_compAnd { static constexpr const char *name = "compAnd"; template <class A, class B> static auto call(A &&a, B &&b) { return dsga::compAnd(a, b); } static bool ok(bool, bool) { return true; } static bool want(bool a, bool b) { return a & b; } static bool eq(bool g, bool w, bool, bool) { return g == w; } };
struct C_compOr { static constexpr const char *name = "compOr"; template <class A, class B> static auto call(A &&a, B &&b) { return dsga::compOr(a, b); } static bool ok(bool, bool) { return true; } static bool want(bool a, bool b) { return a | b; } static bool eq(bool g, bool w, bool, bool) { return g == w; } };
struct C_compNot { static constexpr const char *name = "compNot"; template <class A> static auto call(A &&a) { return dsga::compNot(a); } static bool ok(bool) { return true; } static bool want(bool a) { return a ^ 1; } static bool eq(bool g, bool w, bool) { return g == w; } };

// any, all, none: every boolean vector
template <int N, int K> void reductions()
{
	static Obj<bool, N, K> o; auto m = mem(o); auto &v = o.get();
	for (int c = 0; c < 1 << N; ++c)
	{
		bool in[4]; for (int i = 0; i < N; ++i) in[i] = c >> i & 1;
		m.put(in, true); bool a1 = dsga::any(v), b1 = dsga::all(v), n1 = dsga::none(v); bool h1 = m.holds(in, true);
		m.put(in, false); bool a2 = dsga::any(v), b2 = dsga::all(std::as_const(v)), n2 = dsga::none(std::as_const(v)); bool h2 = m.holds(in, false);
		++total.states; ++total.traces; total.transitions += 6;
		if (a1 != (c != 0) || a2 != (c != 0)) fail(strf("any(%s) n=%d", kname(K), N), strf("any(%s) = %d/%d", vstr(std::vector<int>(in, in + N)).c_str(), a1, a2));
		if (b1 != (c == (1 << N) - 1) || b2 != (c == (1 << N) - 1)) fail(strf("all(%s) n=%d", kname(K), N), strf("all(%s) = %d/%d", vstr(std::vector<int>(in, in + N)).c_str(), b1, b2));
		if (n1 != (c == 0) || n2 != (c == 0)) fail(strf("none(%s) n=%d", kname(K), N), strf("none(%s) = %d/%d", vstr(std::vector<int>(in, in + N)).c_str(), n1, n2));
		if (!h1 || !h2) fail(strf("any/all/none(%s) n=%d", kname(K), N), "argument changed");
	}
}

// == : thunks over two objects
struct EqJob { int n; bool (*eq)(); bool (*ne)(); bool (*eqc)(); std::string name; };
template <class T, class U> __attribute__((noinline)) void eq_check(const EqJob &j, const Mem<T> &a, const Mem<U> &b)
{
	using C = std::common_type_t<T, U>;
	auto A = cmp_alphabet<T>(); auto B = cmp_alphabet<U>(); const int n = j.n;
	auto one = [&](const T *x, const U *y) {
		bool want = true; for (int i = 0; i < n; ++i) { C p = (C)x[i], q = (C)y[i]; want &= !isnan_(p) && !isnan_(q) && cmp3(p, q) == 0; }
		a.put(x); b.put(y); ++total.states; ++total.traces; total.transitions += 3;
		bool e = j.eq(), ne = j.ne(), ec = j.eqc();
		if (e != want || ne == want || ec != want) fail("== " + j.name, strf("%s == %s: %d (const: %d), != : %d", vstr(std::vector<T>(x, x + n)).c_str(), vstr(std::vector<U>(y, y + n)).c_str(), e, ec, ne));
		if (!a.holds(x) || !b.holds(y)) fail("== " + j.name, "operand changed");
	};
	ctx.what = "operator ==";
	for (int lane = 0; lane < n; ++lane)
		for (T p : A) for (U q : B)
		{
			T x[4] = { T(1), T(0), T(1), T(1) }; U y[4] = { U(1), U(0), U(1), U(1) };
			x[lane] = p; y[lane] = q; one(x, y);
		}
	// all pairs of vectors over a small alphabet
	std::vector<T> sa { T(0), T(1) }; std::vector<U> sb { U(0), U(1) };
	if constexpr (std::is_floating_point_v<T>) sa.push_back(std::numeric_limits<T>::quiet_NaN());
	if constexpr (std::is_floating_point_v<U>) sb.push_back(std::numeric_limits<U>::quiet_NaN());
	int na = 1, nb = 1; for (int i = 0; i < n; ++i) { na *= (int)sa.size(); nb *= (int)sb.size(); }
	for (int c = 0; c < na; ++c) for (int d = 0; d < nb; ++d)
	{
		T x[4]; U y[4]; for (int i = 0, p = c, q = d; i < n; ++i, p /= (int)sa.size(), q /= (int)sb.size()) { x[i] = sa[p % sa.size()]; y[i] = sb[q % sb.size()]; }
		one(x, y);
	}
}
template <class T, class U, int N, int K1, int K2> void eq_pair()
{
	static Obj<T, N, K1> a; static Obj<U, N, K2> b;
	if constexpr (requires { a.get() == b.get(); })
	{
		EqJob j { N, [] { return bool(a.get() == b.get()); }, [] { return bool(a.get() != b.get()); }, [] { return bool(std::as_const(a.get()) == std::as_const(b.get())); },
			strf("%s<%s> %s<%s> n=%d", kname(K1), tname<T>(), kname(K2), tname<U>(), N) };
		eq_check<T, U>(j, mem(a), mem(b));
	}
	else fail(strf("== %s<%s> %s<%s> n=%d", kname(K1), tname<T>(), kname(K2), tname<U>(), N), "does not compile");
}
// matrices
template <class T, class U, int C, int R> void eq_matrix()
{
	dsga::basic_matrix<T, C, R> a; dsga::basic_matrix<U, C, R> b; T *x = (T *)&a; U *y = (U *)&b;
	auto A = cmp_alphabet<T>(); auto B = cmp_alphabet<U>(); using W = std::common_type_t<T, U>;
	for (int k = 0; k < C * R; ++k)
		for (T p : A) for (U q : B)
		{
			for (int i = 0; i < C * R; ++i) { x[i] = T(i); y[i] = U(i); }
			x[k] = p; y[k] = q; W pw = (W)p, qw = (W)q; bool want = !isnan_(pw) && !isnan_(qw) && cmp3(pw, qw) == 0;
			++total.states; ++total.traces; total.transitions += 2;
			if ((a == b) != want || (a != b) == want) fail(strf("== matrix<%s,%d,%d> matrix<%s>", tname<T>(), C, R, tname<U>()), strf("element %d: %s and %s", k, str(p).c_str(), str(q).c_str()));
		}
	for (unsigned m = 0; m < 1u << (C * R); ++m)           // every set of differing elements
	{
		for (int i = 0; i < C * R; ++i) { x[i] = T(i); y[i] = U(i + (m >> i & 1)); }
		++total.states; ++total.traces; total.transitions += 2;
		if ((a == b) != (m == 0) || (a != b) != (m != 0)) fail(strf("== matrix<%s,%d,%d> matrix<%s>", tname<T>(), C, R, tname<U>()), strf("differing elements %x", m));
	}
}

// operands that share memory: the object itself, its swizzles, views of it and swizzles of these
template <class T, class A, class B> __attribute__((noinline)) void alias_check(const std::string &key, const A &x, const B &y, const std::vector<T> &p, const std::vector<T> &q)
{
	const int n = (int)p.size(); bool want = true; int got[6] = {}, exp[6] = {}; ++total.states; ++total.traces; total.transitions += 8;
	auto bits = [&](const auto &v) { int m = 0; if constexpr (requires { v[0]; }) { for (int i = 0; i < n; ++i) m |= int(bool(v[i])) << i; } else m = bool(v); return m; };
	for (int i = 0; i < n; ++i)
	{
		bool un = isnan_(p[i]) || isnan_(q[i]); int c = un ? 2 : cmp3(p[i], q[i]); want &= c == 0;
		exp[0] |= (c == 0) << i; exp[1] |= (c != 0) << i; exp[2] |= (c == -1) << i; exp[3] |= (c <= 0) << i; exp[4] |= (c == 1) << i; exp[5] |= (c == 0 || c == 1) << i;
	}
	if ((x == y) != want || (x != y) == want) fail("== " + key, vstr(p) + " and " + vstr(q));
	got[0] = bits(dsga::equal(x, y)); got[1] = bits(dsga::notEqual(x, y));
	if constexpr (!std::is_same_v<T, bool>) { got[2] = bits(dsga::lessThan(x, y)); got[3] = bits(dsga::lessThanEqual(x, y)); got[4] = bits(dsga::greaterThan(x, y)); got[5] = bits(dsga::greaterThanEqual(x, y)); }
	for (int k = 0; k < (std::is_same_v<T, bool> ? 2 : 6); ++k) if (got[k] != exp[k]) fail(strf("%s ", std::array { "equal", "notEqual", "lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual" }[k]) + key, vstr(p) + " and " + vstr(q));
}
template <class T> void aliased()
{
	ctx.what = "comparison of overlapping operands"; std::vector<T> al { T(0), T(1) };
	if constexpr (std::is_floating_point_v<T>) { al.push_back(-T(0)); al.push_back(std::numeric_limits<T>::quiet_NaN()); al.push_back(std::numeric_limits<T>::infinity()); } else if constexpr (!std::is_same_v<T, bool>) { al.push_back(std::numeric_limits<T>::max()); al.push_back(std::numeric_limits<T>::min()); }
	const int b = (int)al.size();
	static_for<4>([&](auto n_) { enum : int { N = decltype(n_)::value + 1 };
		static dsga::basic_vector<T, N> v; dsga::basic_view<true, T, N> w(v.data()); dsga::basic_view<false, T, N> cw(v.data()); static dsga::view_vector<T, N> o; const auto &cv = v;
		int t = 1; for (int i = 0; i < N; ++i) t *= b;
		for (int q = 0; q < t; ++q)
		{
			std::vector<T> x(N); for (int i = 0, z = q; i < N; ++i, z /= b) v[i] = o[i] = x[i] = al[z % b];
			alias_check<T>(strf("vector and itself n=%d", N), v, v, x, x); alias_check<T>(strf("vector and const itself n=%d", N), v, cv, x, x); alias_check<T>(strf("vector and view of it n=%d", N), v, w, x, x); alias_check<T>(strf("view and itself n=%d", N), w, w, x, x); alias_check<T>(strf("view and const view n=%d", N), w, cw, x, x); alias_check<T>(strf("const view and itself n=%d", N), cw, cw, x, x); alias_check<T>(strf("owning view and itself n=%d", N), o, o, x, x);
			if constexpr (N == 1) { alias_check<T>("swizzle x and itself", v.x, v.x, x, x); alias_check<T>("swizzle x of view and vector", w.x, v, x, x); }
			if constexpr (N == 2) { std::vector<T> r { x[1], x[0] }, d { x[1], x[1] }; alias_check<T>("yx and itself", v.yx, v.yx, r, r); alias_check<T>("vector and yx", v, v.yx, x, r); alias_check<T>("yx and yy", v.yx, v.yy, r, d); alias_check<T>("yx of view and vector", w.yx, v, r, x); alias_check<T>("yx and yx of view", v.yx, w.yx, r, r); alias_check<T>("yy of view and itself", w.yy, w.yy, d, d); }
			if constexpr (N == 3) { std::vector<T> r { x[2], x[0], x[1] }, d { x[2], x[1], x[2] }; alias_check<T>("zxy and itself", v.zxy, v.zxy, r, r); alias_check<T>("vector and zxy", v, v.zxy, x, r); alias_check<T>("zxy and zyz", v.zxy, v.zyz, r, d); alias_check<T>("zyz of const view and vector", cw.zyz, v, d, x); alias_check<T>("zxy of owning view and owning view", o.zxy, o, r, x); }
			if constexpr (N == 4) { std::vector<T> r { x[3], x[2], x[1], x[0] }, d { x[1], x[2], x[3], x[1] }; alias_check<T>("wzyx and itself", v.wzyx, v.wzyx, r, r); alias_check<T>("wzyx of view and vector", w.wzyx, cv, r, x); alias_check<T>("vector and yzwy", v, v.yzwy, x, d); alias_check<T>("wzyx and yzwy of view", v.wzyx, w.yzwy, r, d); }
		}
	});
}
template <class T, int C, int R> void eq_matrix_self()
{
	if constexpr (std::is_floating_point_v<T>)
	{
		dsga::basic_matrix<T, C, R> a; T *x = (T *)&a; const auto &c = a;
		for (int k = 0; k <= C * R; ++k) for (T p : cmp_alphabet<T>())
		{
			for (int i = 0; i < C * R; ++i) x[i] = T(i);
			if (k < C * R) x[k] = p; bool want = k == C * R || !isnan_(p); ++total.states; ++total.traces; total.transitions += 3;
			if ((a == a) != want || (a != a) == want || (c == a) != want) fail(strf("== matrix<%s,%d,%d> itself", tname<T>(), C, R), strf("element %d: %s", k, str(p).c_str()));
		}
	}
}

constexpr bool every_kind(int k1, int k2)
{
#ifdef MC_FULL
	return true;
#else
	return k1 == k2 || (k1 * 3 + k2) % 3 == 0 || k1 == 0 || k2 == 0;
#endif
}
using T_ = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;

template <class T> void relational()
{
	if constexpr (!std::is_same_v<T, bool>)
	{
		auto a = cmp_alphabet<T>(); auto tup = product<C_lessThan, T, T>(a, a);
		auto all6 = [&]<int K1, int K2, bool CST>() {
			lift<C_lessThan, CST, K1, K2>(types<T, T>{}, tup); lift<C_lessThanEqual, CST, K1, K2>(types<T, T>{}, tup); lift<C_greaterThan, CST, K1, K2>(types<T, T>{}, tup);
			lift<C_greaterThanEqual, CST, K1, K2>(types<T, T>{}, tup); lift<C_equal, CST, K1, K2>(types<T, T>{}, tup); lift<C_notEqual, CST, K1, K2>(types<T, T>{}, tup);
		};
		static_for<NKINDS>([&]<int K1>(std::integral_constant<int, K1>) {
			static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { if constexpr (every_kind(K1, K2)) all6.template operator()<K1, K2, false>(); });
			all6.template operator()<K1, (K1 + 3) % NKINDS, true>(); });
		all6.template operator()<K_SCALAR, K_SCALAR, false>();
	}
	else
	{
		std::vector<bool> b { false, true }; auto t2 = product<C_compAnd, bool, bool>(b, b); auto t1 = product<C_compNot, bool>(b);
		// all boolean vectors of length 4 come about by repeating the tuples with every rotation
		std::vector<std::tuple<bool, bool>> t2x; for (int r = 0; r < 4; ++r) for (int s = 0; s < 4; ++s) for (int i = 0; i < 4; ++i) t2x.push_back(t2[(i * (r + 1) + s) % 4]);
		std::vector<std::tuple<bool>> t1x; for (int c = 0; c < 61; ++c) t1x.push_back(t1[(c * c + c / 3) & 1]);
		auto bools = [&]<int K1, int K2, bool CST>() { lift<C_compAnd, CST, K1, K2>(types<bool, bool>{}, t2x); lift<C_compOr, CST, K1, K2>(types<bool, bool>{}, t2x); lift<C_equal, CST, K1, K2>(types<bool, bool>{}, t2x); lift<C_notEqual, CST, K1, K2>(types<bool, bool>{}, t2x); };
		static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) {
			static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { bools.template operator()<K, K2, false>(); });
			bools.template operator()<K, K, true>();
			lift<C_compNot, false, K>(types<bool>{}, t1x); lift<C_compNot, true, K>(types<bool>{}, t1x);
			static_for<4>([&]<int N>(std::integral_constant<int, N>) { reductions<N + 1, K>(); });
		});
		bools.template operator()<K_SCALAR, K_SCALAR, false>(); lift<C_compNot, false, K_SCALAR>(types<bool>{}, t1x);
		for (bool x : { false, true }) if (dsga::any(x) != x || dsga::all(x) != x || dsga::none(x) == x) fail("any/all/none(bool)", str(x));
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
#ifndef MC_MIXED
	using T = T_;
	relational<T>();
	static_for<4>([&]<int N>(std::integral_constant<int, N>) { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { eq_pair<T, T, N + 1, K, K2>(); }); }); });
	sample(strf("lessThan..notEqual and == over all kinds, type %s, all pairs of boundary values in every lane; all boolean vectors", tname<T>()));
#else
	for_types(num_types{}, [&](auto w) { using T = T_; using U = typename decltype(w)::type; using W = std::common_type_t<T, U>;
		if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<T, U> && (std::is_same_v<W, T> || std::is_same_v<W, U>))
		{
			eq_pair<T, U, 2, K_VEC, K_VEC>(); eq_pair<T, U, 1, K_VEC, K_VIEW>(); eq_pair<T, U, 2, K_VEC, K_VIEW>(); eq_pair<T, U, 3, K_SWZ, K_VEC>(); eq_pair<T, U, 4, K_OWN, K_SWZ>(); eq_pair<T, U, 3, K_VSWZ, K_SWZ>(); eq_pair<T, U, 4, K_CVIEW, K_VEC>();
		} });
	if constexpr (std::is_floating_point_v<T_>) for_types(types<float, double>{}, [&](auto w) { using T = T_; using U = typename decltype(w)::type;
		eq_matrix<T, U, 2, 2>(); eq_matrix<T, U, 2, 3>(); eq_matrix<T, U, 2, 4>(); eq_matrix<T, U, 3, 2>(); eq_matrix<T, U, 3, 3>(); eq_matrix<T, U, 3, 4>(); eq_matrix<T, U, 4, 2>(); eq_matrix<T, U, 4, 3>(); eq_matrix<T, U, 4, 4>(); });
	aliased<T_>();
	static_for<9>([](auto i) { eq_matrix_self<T_, i / 3 + 2, i % 3 + 2>(); });
	sample(strf("== of %s and every other component type; matrices of all shapes and type pairs, every element, every set of differing elements", tname<T_>()));
#endif
	return finish();
}
