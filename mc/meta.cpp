// P35: index sequences (-DMC_SEQ), concepts over types (-DMC_CONCEPT), lengths and types of every object and swizzle (-DMC_META=t), type aliases (-DMC_ALIAS)
#include "kinds.hpp"
#ifdef MC_META
#include "swizzles.hpp"
#endif
using namespace mc;
static Counters C_;
static void step(u64 n = 1) { C_.states += n; C_.transitions += n; C_.traces += n; }
static void want(bool ok, const std::string &key, const std::string &what = "does not hold") { step(); if (!ok) fail(key, what); }
using L = std::vector<std::size_t>;
static std::string list(const L &v) { std::string s = "<"; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + ">"; }
template <std::size_t... Is> L values(std::index_sequence<Is...>) { return { Is... }; }
template <class> struct is_seq : std::false_type {}; template <std::size_t... Is> struct is_seq<std::index_sequence<Is...>> : std::true_type {};
static void same(const std::string &key, const L &got, const L &exp) { step(); if (got != exp) fail(key, list(got) + " instead of " + list(exp)); }
// noinline thin checks keep the instantiations small
static void range_(std::size_t s, std::size_t e, const L &open, const L &closed)
{
	L o, c; for (std::size_t i = s; i != e; i = s <= e ? i + 1 : i - 1) o.push_back(i); c = o; c.push_back(e);
	same(strf("make_index_range<%zu,%zu>", s, e), open, o); same(strf("make_closed_index_range<%zu,%zu>", s, e), closed, c);
}
static void word_(const L &w, const L &array, const L &made, const L &rev, const L &rev2)
{
	L r(w.rbegin(), w.rend()); same("make_sequence_array" + list(w), array, w); same("make_array_sequence" + list(w), made, w); same("make_reverse_sequence" + list(w), rev, r); same("make_reverse_sequence twice" + list(w), rev2, w);
}
template <std::size_t... Is> L arr(const std::array<std::size_t, sizeof...(Is)> &a, std::index_sequence<Is...>) { return L(a.begin(), a.end()); }
template <auto v> struct val_ {}; template <auto v> concept sequenceable = requires { typename dsga::make_array_sequence<v>; };
template <std::size_t N> struct L_ { std::size_t e[N]; constexpr std::size_t size() const { return N; } constexpr std::size_t operator [](std::size_t i) const { return e[i]; } };
template <class T, std::size_t N> constexpr std::array<T, N> negated(std::array<T, N> a, std::size_t i) { a[i] = -1 - a[i]; return a; }
template <std::size_t... Is> void word(std::index_sequence<Is...> s)
{
	static constexpr std::array<std::size_t, sizeof...(Is)> a = { Is... }; constexpr auto b = dsga::make_sequence_array(std::index_sequence<Is...>{});
	using R = decltype(dsga::make_reverse_sequence(s));
	L made; if constexpr (sizeof...(Is) > 0) { made = values(dsga::make_array_sequence<a>{}); constexpr std::array<int, sizeof...(Is)> ia = { (int)Is... }; same("make_array_sequence of int" + list(values(s)), values(dsga::make_array_sequence<ia>{}), values(s)); }
	if constexpr (sizeof...(Is) >= 1 && sizeof...(Is) <= 4)
	{
		constexpr std::size_t N = sizeof...(Is); static constexpr L_<N> l = { { Is... } };
		auto of = [&]<auto v>(std::integral_constant<int, 0>, val_<v>, const char *name) { same(strf("make_array_sequence of %s", name) + list(values(s)), values(dsga::make_array_sequence<v>{}), values(s)); }; constexpr std::integral_constant<int, 0> z;
		of(z, val_<dsga::basic_vector<int, N>(Is...)>{}, "an int vector"); of(z, val_<dsga::basic_vector<unsigned long long, N>(Is...)>{}, "a ullong vector"); of(z, val_<dsga::basic_vector<float, N>(Is...)>{}, "a float vector"); of(z, val_<dsga::basic_vector<double, N>(Is...)>{}, "a double vector"); of(z, val_<l>{}, "a class"); of(z, val_<std::array<float, N>{ float(Is)... }>{}, "a float array");
		// one negative element at each position
		auto neg = [&]<std::size_t... Q>(std::index_sequence<Q...>) { (want(!sequenceable<negated<int>(std::array<int, N>{ (int)Is... }, Q)>, "make_array_sequence of a negative element in" + list(values(s)), "accepted"), ...); (want(!sequenceable<negated<float>(std::array<float, N>{ (float)Is... }, Q)>, "make_array_sequence of a negative float in" + list(values(s)), "accepted"), ...); }; neg(std::make_index_sequence<N>{});
	}
	word_(values(s), L(b.begin(), b.end()), made, values(R{}), values(dsga::make_reverse_sequence(R{})));
}
template <std::size_t Size, std::size_t Count, std::size_t... Is> constexpr int swz() { if constexpr (dsga::indexable<Size, Count, Is...>) return dsga::writable_swizzle<Size, Count, Is...> ? 2 : 1; else return 0; }
static void swz_(const L &w, const signed char *got)
{
	bool distinct = true; std::size_t top = 0; for (std::size_t i = 0; i < w.size(); ++i) { top = std::max(top, w[i]); for (std::size_t k = 0; k < i; ++k) distinct &= w[i] != w[k]; }
	for (int s = 1; s <= 5; ++s) for (int c = 0; c <= 5; ++c)
	{
		const bool ok = c == (int)w.size() && c >= 1 && c <= 4 && top < (std::size_t)s; const int exp = !ok ? 0 : distinct ? 2 : 1; step();
		if (got[(s - 1) * 6 + c] != exp) fail(strf("indexable and writable_swizzle<%d,%d>%s", s, c, list(w).c_str()), strf("%d instead of %d (0 not indexable, 1 not writable, 2 writable)", got[(s - 1) * 6 + c], exp));
	}
}
template <std::size_t... Is> void swizzle(std::index_sequence<Is...> s)
{
	static constexpr auto t = []<std::size_t... Q>(std::index_sequence<Q...>) { return std::array<signed char, sizeof...(Q)>{ (signed char)swz<Q / 6 + 1, Q % 6, Is...>()... }; }(std::make_index_sequence<30>{}); swz_(values(s), t.data());
}
enum E1 { e1 }; enum class E2 { e2 }; enum E3 : int { e3 }; struct St { operator int() const; }; union Un { int i; };
template <class T> constexpr unsigned concepts() { return dsga::bool_scalar<T> | dsga::signed_scalar<T> << 1 | dsga::unsigned_scalar<T> << 2 | dsga::numeric_integral_scalar<T> << 3 | dsga::floating_point_scalar<T> << 4 | dsga::non_bool_scalar<T> << 5 | dsga::dimensional_scalar<T> << 6; }
enum { B = 1 | 64, S = 2 | 8 | 32 | 64, U = 4 | 8 | 32 | 64, F = 16 | 32 | 64 };
template <class T> void type(const char *name, unsigned exp)
{
	auto one = [&](const char *deco, unsigned got, unsigned e) { for (int b = 0; b < 7; ++b) { static const char *n[] = { "bool_scalar", "signed_scalar", "unsigned_scalar", "numeric_integral_scalar", "floating_point_scalar", "non_bool_scalar", "dimensional_scalar" }; want((got >> b & 1) == (e >> b & 1), strf("%s<%s%s>", n[b], name, deco), (got >> b & 1) ? "holds" : "does not hold"); } };
	one("", concepts<T>(), exp); one(" const", concepts<const T>(), 0); one(" volatile", concepts<volatile T>(), 0); one(" const volatile", concepts<const volatile T>(), 0); one("&", concepts<T &>(), 0); one(" const&", concepts<const T &>(), 0); one("&&", concepts<T &&>(), 0); one("*", concepts<T *>(), 0); one("[2]", concepts<T[2]>(), 0);
	[]<std::size_t... N>(std::index_sequence<N...>, const char *name, bool ok) { (want(dsga::dimensional_storage<T, N> == (ok && N >= 1 && N <= 4), strf("dimensional_storage<%s,%d>", name, (int)N)), ...); }(std::make_index_sequence<9>{}, name, exp != 0);
}
// the usual arithmetic conversions, written as ranks: which of the eight types (7: double) is common
static int rank_common(int a, int b)
{
	enum { b_, i_, u_, ll, ull, z, f, d }; if (a == b) return a; if (a == d || b == d) return d; if (a == f || b == f) return f;
	auto bits = [](int t) { return t == ll || t == ull || t == z ? 64 : 32; }; auto sgn = [](int t) { return t == i_ || t == ll || t == b_; }; auto rank = [](int t) { return t == ll || t == ull ? 3 : t == z ? 2 : 1; };
	if (a == b_) a = i_; if (b == b_) b = i_; if (a == b) return a;
	if (sgn(a) == sgn(b)) return rank(a) > rank(b) ? a : b;
	const int s = sgn(a) ? a : b, q = sgn(a) ? b : a; if (rank(q) >= rank(s)) return q; if (bits(s) > bits(q)) return s; return s == ll ? ull : u_;
}
template <class T> static const char *nm() { if constexpr (std::is_same_v<T, bool>) return "bool"; else if constexpr (std::is_same_v<T, std::size_t>) return "size_t"; else return tname<T>(); }
using T8 = std::tuple<bool, int, unsigned, long long, unsigned long long, std::size_t, float, double>; template <int I> using T_ = std::tuple_element_t<I, T8>;
template <class V, class T, int Size, int Count, bool Wr, bool Mu> void meta(const std::string &k)
{
	using D = std::remove_cvref_t<V>; const D *p = nullptr;
	if constexpr (requires { D::Count; }) want(D::Count == Count, k + " Count"); if constexpr (requires { D::Size; }) want(D::Size == Size, k + " Size"); if constexpr (Wr || Mu) want(D::Writable == Wr, k + " Writable"); want(D::Mutable == Mu, k + " Mutable"); want(D::size() == Count && D::size == Count, k + " size()"); want(std::tuple_size_v<D> == Count, k + " tuple_size"); want(std::is_same_v<typename D::value_type, T>, k + " value_type");
	alignas(16) static unsigned char zero[64] = {}; (void)p; want(reinterpret_cast<const D *>(zero)->length() == Count, k + " length()"); want(std::is_same_v<decltype(std::declval<const D &>().length()), int>, k + " type of length()");
	L o; for (auto x : D::offsets) o.push_back(x); same(k + " offsets", o, values(D::sequence())); want((int)o.size() == Count, k + " number of offsets");
}
#ifdef MC_ALIAS
// every published alias names the type its name spells: behaviour (element type, length, writability, storage) and identity
template <class A, class T, int N, bool Writable, bool Owns> static void alias(const char *name_)
{
	++C_.states; ++C_.traces; C_.transitions += 5; using Want = std::conditional_t<Owns, dsga::basic_vector<T, N>, dsga::basic_view<Writable, T, N>>;
	if (!std::is_same_v<A, Want>) fail(name_, "names another type");
	if (!std::is_same_v<typename A::value_type, T>) fail(name_, "element type"); if (A::Count != N) fail(name_, strf("length %d", int(A::Count)));
	if (A::Writable != Writable) fail(name_, "writability"); if (Owns && sizeof(A) != N * sizeof(T)) fail(name_, "size");
}
template <class A, class T, int C, int R> static void malias(const char *name_)
{
	++C_.states; ++C_.traces; C_.transitions += 4; if (!std::is_same_v<A, dsga::basic_matrix<T, C, R>>) fail(name_, "names another type"); if (sizeof(A) != C * R * sizeof(T)) fail(name_, "size");
	A a; if (a.length() != C || a[0].length() != R || a.size() != C || a.column_size() != R) fail(name_, "shape");
}
#define V(A, T, N) alias<dsga::A, T, N, true, true>(#A);
#define W(A, T, N) alias<dsga::A, T, N, true, false>(#A);
#define R(A, T, N) alias<dsga::A, T, N, false, false>(#A);
#define M(A, T, C, R) malias<dsga::A, T, C, R>(#A);
#endif
int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_SEQ
	static_for<16>([](auto s) { static_for<16>([](auto e) { constexpr std::size_t S_ = decltype(s)::value, E_ = e; range_(S_, E_, values(dsga::make_index_range<S_, E_>{}), values(dsga::make_closed_index_range<S_, E_>{})); }); });
	range_(1000000, 1000005, values(dsga::make_index_range<1000000, 1000005>{}), values(dsga::make_closed_index_range<1000000, 1000005>{})); range_(1ull << 40, (1ull << 40) - 4, values(dsga::make_index_range<(1ull << 40), (1ull << 40) - 4>{}), values(dsga::make_closed_index_range<(1ull << 40), (1ull << 40) - 4>{}));
	range_(~0ull - 3, ~0ull, values(dsga::make_index_range<~0ull - 3, ~0ull>{}), values(dsga::make_closed_index_range<~0ull - 3, ~0ull>{})); range_(~0ull, ~0ull - 3, values(dsga::make_index_range<~0ull, ~0ull - 3>{}), values(dsga::make_closed_index_range<~0ull, ~0ull - 3>{}));
	range_(0, 100, values(dsga::make_index_range<0, 100>{}), values(dsga::make_closed_index_range<0, 100>{})); range_(100, 0, values(dsga::make_index_range<100, 0>{}), values(dsga::make_closed_index_range<100, 0>{}));
	// words over 0..4 of length 0 to 4, and longer ones
	word(std::index_sequence<>{}); static_for<5>([](auto a) { constexpr std::size_t A = a; word(std::index_sequence<A>{}); static_for<5>([](auto b) { constexpr std::size_t A = decltype(a)::value, B = b; word(std::index_sequence<A, B>{}); static_for<5>([](auto c) { constexpr std::size_t A = decltype(a)::value, B = decltype(b)::value, C = c; word(std::index_sequence<A, B, C>{}); }); }); });
	static_for<256>([](auto q) { constexpr std::size_t Q = q; word(std::index_sequence<Q % 4, Q / 4 % 4, Q / 16 % 4, Q / 64>{}); }); static_for<24>([](auto n) { word(std::make_index_sequence<n + 5>{}); });
	static_for<5>([](auto a) { constexpr std::size_t A = a; swizzle(std::index_sequence<A>{}); static_for<5>([](auto b) { constexpr std::size_t A = decltype(a)::value, B = b; swizzle(std::index_sequence<A, B>{}); static_for<5>([](auto c) { constexpr std::size_t A = decltype(a)::value, B = decltype(b)::value, C = c; swizzle(std::index_sequence<A, B, C>{}); static_for<5>([](auto d) { constexpr std::size_t A = decltype(a)::value, B = decltype(b)::value, C = decltype(c)::value, D = d; swizzle(std::index_sequence<A, B, C, D>{}); }); }); }); });
	swizzle(std::index_sequence<0, 1, 2, 3, 0>{}); swizzle(std::index_sequence<0, 1, 2, 3, 4>{}); swizzle(std::index_sequence<>{});
	// enumerations and constants
	{ enum A : unsigned char { a0 = 0, a1 = 255 }; enum class G : long long { lo = std::numeric_limits<long long>::min(), hi = std::numeric_limits<long long>::max() }; enum class H : bool { no, yes }; enum class I { m = -5 };
	want(dsga::to_underlying(a1) == 255 && std::is_same_v<decltype(dsga::to_underlying(a1)), unsigned char>, "to_underlying of an unsigned char enumeration"); want(dsga::to_underlying(G::lo) == std::numeric_limits<long long>::min() && dsga::to_underlying(G::hi) == std::numeric_limits<long long>::max() && std::is_same_v<decltype(dsga::to_underlying(G::lo)), long long>, "to_underlying of a long long enumeration"); want(dsga::to_underlying(H::yes) == true && dsga::to_underlying(H::no) == false && std::is_same_v<decltype(dsga::to_underlying(H::no)), bool>, "to_underlying of a bool enumeration"); want(dsga::to_underlying(I::m) == -5, "to_underlying of an int enumeration"); want(dsga::to_underlying(a0) == 0, "to_underlying of 0"); }
	want(std::fabs(dsga::degrees_per_radian_v<double> - 57.29577951308232087679815L) < 1e-14L && std::fabs(dsga::degrees_per_radian_v<float> - 57.29577951308232087679815L) < 4e-6L, "degrees_per_radian_v"); want(std::fabs(dsga::radians_per_degree_v<double> - 0.01745329251994329576923690768L) < 4e-18L && std::fabs(dsga::radians_per_degree_v<float> - 0.01745329251994329576923690768L) < 2e-9L, "radians_per_degree_v");
	static_for<4>([](auto n) { want(std::is_same_v<dsga::dimensional_storage_t<double, n + 1>, std::array<double, n + 1>>, "dimensional_storage_t"); });
	sample("every range between 0 and 15, both ways and at the ends of size_t; every word over 5 (length 4: 4) indexes as an array, a sequence, reversed; 780 words x 30 sizes and counts: indexable, writable");
#endif
#ifdef MC_CONCEPT
	type<bool>("bool", B); type<int>("int", S); type<long long>("long long", S); type<unsigned>("unsigned", U); type<unsigned long long>("unsigned long long", U); type<std::size_t>("size_t", U); type<float>("float", F); type<double>("double", F);
	type<char>("char", 0); type<signed char>("signed char", 0); type<unsigned char>("unsigned char", 0); type<short>("short", 0); type<unsigned short>("unsigned short", 0); type<long>("long", 0); type<wchar_t>("wchar_t", 0); type<char8_t>("char8_t", 0); type<char16_t>("char16_t", 0); type<char32_t>("char32_t", 0); type<long double>("long double", 0); type<__int128>("__int128", 0); type<unsigned __int128>("unsigned __int128", 0); type<_Float16>("_Float16", 0);
	type<E1>("enumeration", 0); type<E2>("enum class", 0); type<E3>("enumeration of int", 0); type<St>("class convertible to int", 0); type<Un>("union", 0); type<std::byte>("byte", 0); type<std::nullptr_t>("nullptr_t", 0); type<dsga::iscal>("iscal", 0); type<dsga::vec2>("vec2", 0);
	[]<std::size_t... N>(std::index_sequence<N...>) { (want(dsga::dimensional_size<N> == (N >= 1 && N <= 4), strf("dimensional_size<%d>", (int)N)), ...); }(std::make_index_sequence<200>{}); want(!dsga::dimensional_size<~0ull>, "dimensional_size<max>"); want(!dsga::dimensional_size<(1ull << 32) + 2>, "dimensional_size<2^32+2>");
	static_for<64>([](auto q) {
		constexpr int I = q / 8, K = q % 8; using X = T_<I>; using Y = T_<K>; const int c = rank_common(I, K); const std::string k = std::string(nm<X>()) + "," + nm<Y>() + ">"; bool same_ = false; static_for<8>([&](auto j) { if (j == c) same_ = std::is_same_v<std::common_type_t<X, Y>, T_<j>>; }); want(same_, "the reference's common type of " + k);
		want(dsga::promotes_to<X, Y> == (c == K), "promotes_to<" + k); want(dsga::promotes_to<const X &, Y> == (c == K) && dsga::promotes_to<X, Y &&> == (c == K) && dsga::promotes_to<volatile X, const Y> == (c == K), "promotes_to<references to " + k);
		want(dsga::implicitly_convertible_to<X, Y> == (c == K && I && K), "implicitly_convertible_to<" + k); want(!dsga::implicitly_convertible_to<const X, Y> && !dsga::implicitly_convertible_to<X, Y &>, "implicitly_convertible_to<references to " + k);
		want(dsga::detail::same_sizeof<X, Y> == (sizeof(X) == sizeof(Y)), "same_sizeof<" + k);
	});
	want(!dsga::promotes_to<St, E2>, "promotes_to<class, enum class>");
	sample("37 types x 9 decorations x 7 concepts; all pairs of component types");
#endif
#ifdef MC_ALIAS
	V(bscal, bool, 1) V(bvec2, bool, 2) V(bvec3, bool, 3) V(bvec4, bool, 4)
	W(bview1, bool, 1) R(cbview1, bool, 1) W(bview2, bool, 2) R(cbview2, bool, 2) W(bview3, bool, 3) R(cbview3, bool, 3) W(bview4, bool, 4) R(cbview4, bool, 4)
	V(iscal, int, 1) V(ivec2, int, 2) V(ivec3, int, 3) V(ivec4, int, 4)
	W(iview1, int, 1) R(ciview1, int, 1) W(iview2, int, 2) R(ciview2, int, 2) W(iview3, int, 3) R(ciview3, int, 3) W(iview4, int, 4) R(ciview4, int, 4)
	V(uscal, unsigned, 1) V(uvec2, unsigned, 2) V(uvec3, unsigned, 3) V(uvec4, unsigned, 4)
	W(uview1, unsigned, 1) R(cuview1, unsigned, 1) W(uview2, unsigned, 2) R(cuview2, unsigned, 2) W(uview3, unsigned, 3) R(cuview3, unsigned, 3) W(uview4, unsigned, 4) R(cuview4, unsigned, 4)
	V(llscal, long long, 1) V(llvec2, long long, 2) V(llvec3, long long, 3) V(llvec4, long long, 4)
	W(llview1, long long, 1) R(cllview1, long long, 1) W(llview2, long long, 2) R(cllview2, long long, 2) W(llview3, long long, 3) R(cllview3, long long, 3) W(llview4, long long, 4) R(cllview4, long long, 4)
	V(ullscal, unsigned long long, 1) V(ullvec2, unsigned long long, 2) V(ullvec3, unsigned long long, 3) V(ullvec4, unsigned long long, 4)
	W(ullview1, unsigned long long, 1) R(cullview1, unsigned long long, 1) W(ullview2, unsigned long long, 2) R(cullview2, unsigned long long, 2) W(ullview3, unsigned long long, 3) R(cullview3, unsigned long long, 3) W(ullview4, unsigned long long, 4) R(cullview4, unsigned long long, 4)
	V(scal, float, 1) V(vec2, float, 2) V(vec3, float, 3) V(vec4, float, 4)
	W(view1, float, 1) R(cview1, float, 1) W(view2, float, 2) R(cview2, float, 2) W(view3, float, 3) R(cview3, float, 3) W(view4, float, 4) R(cview4, float, 4)
	V(fscal, float, 1) V(fvec2, float, 2) V(fvec3, float, 3) V(fvec4, float, 4)
	W(fview1, float, 1) R(cfview1, float, 1) W(fview2, float, 2) R(cfview2, float, 2) W(fview3, float, 3) R(cfview3, float, 3) W(fview4, float, 4) R(cfview4, float, 4)
	V(dscal, double, 1) V(dvec2, double, 2) V(dvec3, double, 3) V(dvec4, double, 4)
	W(dview1, double, 1) R(cdview1, double, 1) W(dview2, double, 2) R(cdview2, double, 2) W(dview3, double, 3) R(cdview3, double, 3) W(dview4, double, 4) R(cdview4, double, 4)
	M(mat2x2, float, 2, 2) M(mat2x3, float, 2, 3) M(mat2x4, float, 2, 4) M(mat3x2, float, 3, 2) M(mat3x3, float, 3, 3) M(mat3x4, float, 3, 4) M(mat4x2, float, 4, 2) M(mat4x3, float, 4, 3) M(mat4x4, float, 4, 4) M(mat2, float, 2, 2) M(mat3, float, 3, 3) M(mat4, float, 4, 4)
	M(dmat2x2, double, 2, 2) M(dmat2x3, double, 2, 3) M(dmat2x4, double, 2, 4) M(dmat3x2, double, 3, 2) M(dmat3x3, double, 3, 3) M(dmat3x4, double, 3, 4) M(dmat4x2, double, 4, 2) M(dmat4x3, double, 4, 3) M(dmat4x4, double, 4, 4) M(dmat2, double, 2, 2) M(dmat3, double, 3, 3) M(dmat4, double, 4, 4)
	sample("aliases: 32 vectors, 32 views, 32 views of constants, 24 matrices");
#endif
#ifdef MC_META
	using T = T_<MC_META>;
	static_for<4>([](auto n_) {
		constexpr int N = n_ + 1; using O = dsga::basic_vector<T, N>; using V = dsga::basic_view<true, T, N>; using CV = dsga::basic_view<false, T, N>; using W = dsga::view_vector<T, N>;
		const std::string t = strf("%d<%s>", N, nm<T>());
		static_for<4>([](auto k_) {
			for_types(Swz<N, k_ + 1>{}, [](auto a) {
				using A = typename decltype(a)::type; constexpr int K = A::n; constexpr bool D = [] { for (int i = 0; i < K; ++i) for (int j = 0; j < i; ++j) if (A::idx[i] == A::idx[j]) return false; return true; }();
				auto one = [&]<class O_, bool M>(tag<O_>, const char *kind, std::bool_constant<M>) { using S = std::remove_cvref_t<decltype(A::get(std::declval<O_ &>()))>; const std::string k = strf("%s%d<%s>.%s", kind, N, nm<T>(), A::name); meta<S, T, N, K, D, M>(k); L o; for (auto x : S::offsets) o.push_back(x); same(k + " offsets by name", o, L(A::idx, A::idx + K)); };
				one(tag<O>{}, "vector", std::true_type{}); one(tag<V>{}, "view", std::true_type{}); one(tag<CV>{}, "const view", std::false_type{}); one(tag<W>{}, "owning view", std::true_type{});
			});
		});
		meta<O, T, N, N, true, true>("vector" + t); meta<V, T, N, N, true, true>("view" + t); meta<CV, T, N, N, false, false>("const view" + t); meta<W, T, N, N, true, true>("owning view" + t); meta<dsga::storage_wrapper<true, T, N>, T, N, N, true, true>("storage_wrapper" + t); meta<dsga::storage_wrapper<false, T, N>, T, N, N, true, false>("const storage_wrapper" + t); meta<dsga::view_wrapper<true, T, N>, T, N, N, true, true>("view_wrapper" + t); meta<dsga::view_wrapper<false, T, N>, T, N, N, true, false>("const view_wrapper" + t);
	});
	static_for<9>([](auto q) {
		constexpr int C = q % 3 + 2, R = q / 3 + 2; if constexpr (std::is_floating_point_v<T>) { using M = dsga::basic_matrix<T, C, R>; const M m{}; const std::string k = strf("mat%dx%d<%s>", C, R, nm<T>());
			want(m.length() == C, k + " length()"); want(m.column_length() == R, k + " column_length()"); want(M::size() == C, k + " size()"); want(M::column_size() == R, k + " column_size()"); want(M::ComponentCount == C * R, k + " ComponentCount"); want(std::tuple_size_v<M> == C, k + " tuple_size"); want(std::is_same_v<decltype(m.length()), int> && std::is_same_v<decltype(m.column_length()), int>, k + " type of length()");
			want(std::is_same_v<std::remove_cvref_t<decltype(m[0])>, dsga::basic_vector<T, R>> && std::is_same_v<decltype(m.row(0)), dsga::basic_vector<T, C>>, k + " column and row types"); }
	});
	sample("every vector, view, owning view, storage and matrix and each of their swizzles: lengths, sizes, writability, value types, offsets");
#endif
	total = C_; return finish();
}
