// P03: which ways of modifying compile, for every swizzle name x owner kind x constness (-DOWN=k), and whole objects.
//   k: 0 vector, 1 view, 2 owning view, 3 view of const data, 4 const vector, 5 const view object, 6 const owning view, 7 const view of const data
#include "swizzles.hpp"
using namespace mc;
static Counters C;

template <class T, int S, int K> struct OwnerT;
template <class T, int S> struct OwnerT<T, S, 0> { using type = dsga::basic_vector<T, S>; };
template <class T, int S> struct OwnerT<T, S, 1> { using type = dsga::basic_view<true, T, S>; };
template <class T, int S> struct OwnerT<T, S, 2> { using type = dsga::view_vector<T, S>; };
template <class T, int S> struct OwnerT<T, S, 3> { using type = dsga::basic_view<false, T, S>; };
template <class T, int S> struct OwnerT<T, S, 4> { using type = const dsga::basic_vector<T, S>; };
template <class T, int S> struct OwnerT<T, S, 5> { using type = const dsga::basic_view<true, T, S>; };
template <class T, int S> struct OwnerT<T, S, 6> { using type = const dsga::view_vector<T, S>; };
template <class T, int S> struct OwnerT<T, S, 7> { using type = const dsga::basic_view<false, T, S>; };
constexpr const char *oname[] = { "vector", "view", "owning-view", "view-of-const", "const-vector", "const-view", "const-owning-view", "const-view-of-const" };

// P: a (possibly const) lvalue type
template <class P, class T, int n> struct Probe
{
	using V = dsga::basic_vector<T, n>;
	using W = dsga::basic_view<false, T, n>;
	static constexpr bool num = !std::is_same_v<T, bool>;
	static constexpr bool asg_vec = requires (P s, V v) { s = v; };
	static constexpr bool asg_view = requires (P s, W v) { s = v; };
	static constexpr bool asg_own = requires (P s, dsga::view_vector<T, n> v) { s = v; };
	static constexpr bool asg_scalar = requires (P s, T v) { s = v; };
	static constexpr bool asg_self = requires (P s, const std::remove_cvref_t<P> &v) { s = v; };
	static constexpr bool asg_braces = requires (P s) { s = {}; };
	static constexpr bool index = requires (P s, T v) { s[0] = v; };
	static constexpr bool index_u = requires (P s, T v) { s[std::size_t(0)] = v; };
	static constexpr bool iter = requires (P s, T v) { *s.begin() = v; };
	static constexpr bool iter_idx = requires (P s, T v) { s.begin()[0] = v; };
	static constexpr bool riter = requires (P s, T v) { *s.rbegin() = v; };
	static constexpr bool citer = requires (P s, T v) { *s.cbegin() = v; };
	static constexpr bool criter = requires (P s, T v) { *s.crbegin() = v; };
	static constexpr bool stdbegin = requires (P s, T v) { *std::begin(s) = v; };
	static constexpr bool data = requires (P s, T v) { *s.data() = v; };
	static constexpr bool get0 = requires (P s, T v) { dsga::get<0>(s) = v; };
	static constexpr bool set = []<std::size_t... I>(std::index_sequence<I...>) { return requires (P s, T v) { s.set(((void)I, v)...); }; }(std::make_index_sequence<n>{});
	static constexpr bool swap = requires (P s, std::remove_cvref_t<P> &o) { s.swap(o); };
	static constexpr bool add = requires (P s, V v) { s += v; };
	static constexpr bool adds = requires (P s, T v) { s += v; };
	static constexpr bool sub = requires (P s, T v) { s -= v; };
	static constexpr bool mul = requires (P s, T v) { s *= v; };
	static constexpr bool div = requires (P s, T v) { s /= v; };
	static constexpr bool mod = requires (P s, T v) { s %= v; };
	static constexpr bool shl = requires (P s, T v) { s <<= v; };
	static constexpr bool shr = requires (P s, T v) { s >>= v; };
	static constexpr bool band = requires (P s, T v) { s &= v; };
	static constexpr bool bor = requires (P s, T v) { s |= v; };
	static constexpr bool bxor = requires (P s, T v) { s ^= v; };
	static constexpr bool preinc = requires (P s) { ++s; };
	static constexpr bool predec = requires (P s) { --s; };
	static constexpr bool postinc = requires (P s) { s++; };
	static constexpr bool postdec = requires (P s) { s--; };
	static constexpr bool modf_out = requires (P s, V v) { dsga::modf(v, s); };
	static constexpr bool frexp_out = requires (P s, dsga::basic_vector<double, n> v) { dsga::frexp(v, s); };
	static constexpr bool resetp = requires (P s, T *p) { s.reset(p); };
};
struct Row { const char *way; bool ok; int must; };     // must: 1 writable things offer it; 0 only checked on things that may not be written
template <class P, class T, int n> std::vector<Row> rows()
{
	using B = Probe<P, T, n>;
	constexpr bool num = !std::is_same_v<T, bool>, integral = num && std::is_integral_v<T>;
	return { { "= vector", B::asg_vec, 1 }, { "= view", B::asg_view, 1 }, { "= owning view", B::asg_own, 1 }, { "= scalar", B::asg_scalar, n == 1 }, { "= same type", B::asg_self, 0 }, { "= {}", B::asg_braces, 0 },
		{ "[i] =", B::index, 1 }, { "[size_t] =", B::index_u, 1 }, { "*begin() =", B::iter, 1 }, { "begin()[i] =", B::iter_idx, 1 }, { "*rbegin() =", B::riter, 1 }, { "*std::begin() =", B::stdbegin, 1 },
		{ "*cbegin() =", B::citer, -1 }, { "*crbegin() =", B::criter, -1 },
		{ "*data() =", B::data, 1 }, { "get<0> =", B::get0, 1 }, { "set()", B::set, 1 }, { "swap()", B::swap, 0 }, { "+= vector", B::add, num }, { "+= scalar", B::adds, num }, { "-=", B::sub, num }, { "*=", B::mul, num }, { "/=", B::div, num },
		{ "%=", B::mod, integral }, { "<<=", B::shl, integral }, { ">>=", B::shr, integral }, { "&=", B::band, integral }, { "|=", B::bor, integral }, { "^=", B::bxor, integral },
		{ "++x", B::preinc, num }, { "--x", B::predec, num }, { "x++", B::postinc, num }, { "x--", B::postdec, num },
		{ "modf output", B::modf_out, std::is_floating_point_v<T> }, { "frexp output", B::frexp_out, std::is_same_v<T, int> } };
}
void judge(const std::vector<Row> &rs, bool writable, const std::string &where, const std::string &implicit = "")
{
	for (auto &r : rs)
	{
		// the implicit copy assignment of a swizzle member has a key of its own (see known_findings.jsonl)
		if (!implicit.empty() && !writable && r.ok && (!strcmp(r.way, "= same type") || !strcmp(r.way, "= {}")))
		{
			++C.states; ++C.transitions; ++C.traces;
			fail(implicit, "a swizzle with a repeated letter can be assigned from a swizzle of the same type or {}");
			continue;
		}
		++C.states; ++C.transitions; ++C.traces;
		if ((!writable || r.must < 0) && r.ok) fail(where + " " + r.way, "this must not be writable, but the expression compiles");
		if (writable && r.must == 1 && !r.ok) fail(where + " " + r.way, "this is writable, but the expression does not compile");
	}
}
template <class T, int S, int K, class A> void one()
{
	using O = typename OwnerT<T, S, K>::type;
	if constexpr (!A::template exists<O>) { fail(strf("%s%d.%s missing", oname[K], S, A::name), "there is no such swizzle"); return; }
	else
	{
		using P = decltype(A::get(std::declval<O &>()));
		bool distinct = true; for (int i = 0; i < A::n; ++i) for (int j = 0; j < i; ++j) distinct &= A::idx[i] != A::idx[j];
		constexpr bool mut = K < 3;
		judge(rows<P, T, A::n>(), distinct && mut, strf("%s%d.%s %s", oname[K], S, A::name, tname<T>()), K == 0 ? strf("implicit-copy-assign S=%d .%s", S, A::name) : "");
	}
}
template <class T, int S, int K> void whole()
{
	using O = typename OwnerT<T, S, K>::type;
	auto rs = rows<O &, T, S>();
	// by design a view is not assigned from an object derived from a view, and an owning view is assigned from vectors only
	for (auto &r : rs) if ((K == 1 && !strcmp(r.way, "= owning view")) || (K == 2 && S == 1 && !strcmp(r.way, "= scalar"))) r.must = 0;
	judge(rs, K < 3, strf("%s%d (whole) %s", oname[K], S, tname<T>()));
}

// matrices
template <class M, class T, int Cn, int R> std::vector<Row> mrows()
{
	using Q = std::remove_cvref_t<M>;
	constexpr bool a = requires (M m, Q o) { m = o; };
	constexpr bool b = requires (M m, T v) { m[0][0] = v; };
	constexpr bool c = requires (M m, dsga::basic_vector<T, R> v) { m[0] = v; };
	constexpr bool d = requires (M m, dsga::basic_vector<T, R> v) { *m.begin() = v; };
	constexpr bool e = requires (M m, dsga::basic_vector<T, R> v) { *m.rbegin() = v; };
	constexpr bool f = requires (M m, T v) { *m.data() = v; };
	constexpr bool g = requires (M m, dsga::basic_vector<T, R> v) { dsga::get<0>(m) = v; };
	constexpr bool h = requires (M m, T v) { m += v; };
	constexpr bool i = requires (M m, Q v) { m -= v; };
	constexpr bool j = requires (M m, T v) { m *= v; };
	constexpr bool k = requires (M m) { ++m; };
	constexpr bool l = requires (M m) { m--; };
	constexpr bool n = requires (M m, Q o) { m.swap(o); };
	constexpr bool o = requires (M m, T v) { m[0].x = v; };
	constexpr bool p = requires (M m, dsga::basic_vector<T, R> v) { *m.cbegin() = v; };
	constexpr bool q = requires (M m, dsga::basic_vector<T, R> v) { *std::begin(m) = v; };
	constexpr bool r = requires (M m, dsga::basic_matrix<T, Cn, Cn> v) { m *= v; };
	return { { "= matrix", a, 1 }, { "[c][r] =", b, 1 }, { "[c] =", c, 1 }, { "*begin() =", d, 1 }, { "*rbegin() =", e, 1 }, { "*data() =", f, 0 }, { "get<0> =", g, 1 }, { "+= scalar", h, 0 },
		{ "-= matrix", i, 0 }, { "*= scalar", j, 0 }, { "++x", k, 1 }, { "x--", l, 1 }, { "swap()", n, 1 }, { "[c].x =", o, 1 }, { "*cbegin() =", p, -1 }, { "*std::begin() =", q, 1 }, { "*= matrix", r, 0 } };
}

int main(int argc, char **argv)
{
	init(argc, argv);
	auto each = [&]<class T>(tag<T>) {
		static_for<4>([&](auto s) { constexpr int S = s + 1; whole<T, S, MC_OWN>(); static_for<4>([&](auto k) {
			for_types(Swz<S, k + 1>{}, [&](auto a) { one<T, S, MC_OWN, typename decltype(a)::type>(); });
		}); });
	};
	each(tag<MC_TYPE>{});
	if constexpr (MC_OWN == 0 && std::is_floating_point_v<MC_TYPE>)
		static_for<3>([&](auto c) { static_for<3>([&](auto r) {
			using M = dsga::basic_matrix<MC_TYPE, c + 2, r + 2>;
			judge(mrows<M &, MC_TYPE, c + 2, r + 2>(), true, strf("matrix%dx%d", c + 2, r + 2));
			judge(mrows<const M &, MC_TYPE, c + 2, r + 2>(), false, strf("const matrix%dx%d", c + 2, r + 2));
		}); });
	sample(strf("all swizzles and whole objects of a %s of %s, lengths 1 to 4, 35 modifying expressions each", oname[MC_OWN], tname<MC_TYPE>()));
	total = C;
	return finish();
}
