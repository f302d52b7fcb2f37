// P28: vectors and matrices have the layout of plain arrays; data() and sequence() describe the logical order.
// -DMC_T=<0..7> component type; -DMC_MAT matrices; -DMC_NAMES the named types.  -DMC_SEQ -DMC_K=<owner 0..3> data()/sequence() of every swizzle (int)
#include "swizzles.hpp"
using namespace mc;
static Counters C_;
static std::string K_;
#define IS(cond, ...) do { ++C_.transitions; if (!(cond)) fail(K_ + " " + strf(__VA_ARGS__), "does not hold for " + K_); } while (0)
template <std::size_t... I> std::vector<std::size_t> seq_(std::index_sequence<I...>) { return { I... }; }
// data()[sequence()[i]] is component i, for an object, its const form and its abstract base
template <bool Wr, class T, std::size_t C, class D, class F> void base_seq(const dsga::vector_base<Wr, T, C, D> &b, F where, const char *how)
{
	auto s = seq_(b.sequence()); auto t = seq_(dsga::vector_base<Wr, T, C, D>::sequence()); IS(s.size() == C && t == s && b.size() == C && b.length() == (int)C, "%s: length of the sequence", how);
	for (std::size_t i = 0; i < C && i < s.size(); ++i) { IS(b.data() + s[i] == where((int)i), "%s: data()[sequence()[%d]]", how, (int)i); IS(std::addressof(b[i]) == where((int)i), "%s: component %d", how, (int)i); }
	++C_.states; ++C_.traces;
}
template <class V, class F> void any_seq(V &v, int n, F where, const char *how)
{
	auto s = seq_(v.sequence()); auto t = seq_(V::sequence()); const auto &c = std::as_const(v); IS((int)s.size() == n && t == s, "%s: length of the sequence", how);
	for (int i = 0; i < n && i < (int)s.size(); ++i)
	{
		IS(v.data() + s[i] == where(i), "%s: data()[sequence()[%d]]", how, i); IS(c.data() + s[i] == where(i), "%s: const data()[sequence()[%d]]", how, i); IS(std::addressof(v[i]) == where(i) && std::addressof(c[i]) == where(i), "%s: component %d", how, i);
		IS(v.offsets[i] == s[i], "%s: offsets[%d]", how, i);
	}
	IS(v.offsets.size() == (std::size_t)n && (std::is_same_v<typename std::remove_cv_t<V>::sequence_pack, std::remove_cvref_t<decltype(v.sequence())>>), "%s: sequence_pack and offsets", how);
	++C_.states; ++C_.traces;
}
template <class> struct Runner
{
#ifdef MC_T
	using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
	template <int N> static void vectors()
	{
		using V = dsga::basic_vector<T, N>; K_ = strf("vector%d %s", N, tname<T>());
		IS(sizeof(V) == N * sizeof(T), "size"); IS(alignof(V) == alignof(T), "alignment"); IS(std::is_trivially_copyable_v<V>, "trivially copyable"); IS(std::is_standard_layout_v<V>, "standard layout");
		IS(sizeof(V[3]) == 3 * N * sizeof(T), "size of an array"); IS((std::is_same_v<typename V::value_type, T>), "value_type"); IS(V::size() == N && V::Count == N, "size()");
		const auto al = alphabet<T>();
		for (int i = 0; i < N; ++i) for (const T &x : al) for (const T &fill : { al[0], al[1] })
		{
			// as bytes: written through the vector, through its bytes
			T want[N]; for (auto &c : want) c = fill; want[i] = x; T got[N]; V v(fill); v[i] = x; ++C_.states; ++C_.traces;
			std::memcpy(got, &v, sizeof got); IS(!std::memcmp(got, want, sizeof got), "bytes after writing component %d", i);
			V w; std::memcpy(&w, want, sizeof want); for (int k = 0; k < N; ++k) IS(same_bits<T>(w[k], want[k]), "component %d of the bytes of an array", k);
			V cp(w), as; as = w; V mv(std::move(w)); IS(!std::memcmp(&cp, want, sizeof want) && !std::memcmp(&as, want, sizeof want) && !std::memcmp(&mv, want, sizeof want), "bytes of copies, component %d", i);
			V ar[3] = { V(fill), v, V(fill) }; T flat[3 * N]; std::memcpy(flat, ar, sizeof ar); bool ok = true; for (int k = 0; k < 3 * N; ++k) ok &= same_bits<T>(flat[k], k == N + i ? x : fill); IS(ok, "array of vectors, component %d", i);
			if constexpr (std::is_trivially_copyable_v<V> && sizeof(V) == N * sizeof(T)) { auto a = std::bit_cast<std::array<T, N>>(v); IS(!std::memcmp(a.data(), want, sizeof want), "bit_cast to an array, component %d", i); V b = std::bit_cast<V>(a); IS(!std::memcmp(&b, want, sizeof want), "bit_cast from an array, component %d", i); }
		}
		{ V v{}; T z[N] = {}; IS(!std::memcmp(&v, z, sizeof z), "value-initialised is zero"); }
		{ static dsga::basic_vector<T, N> v; any_seq(v, N, [](int i) { return reinterpret_cast<T *>(&v) + i; }, "vector"); base_seq(v, [](int i) { return reinterpret_cast<T *>(&v) + i; }, "base of the vector"); any_seq(v.base, N, [](int i) { return reinterpret_cast<T *>(&v) + i; }, "storage"); }
		static_for<NKINDS>([](auto kk) { constexpr int Kd = kk; static Obj<T, N, Kd> o; K_ = strf("%s%d %s", kname(Kd), N, tname<T>()); any_seq(o.get(), N, [](int i) { return o.raw() + o.slot(i); }, "object"); base_seq(o.get(), [](int i) { return o.raw() + o.slot(i); }, "base"); });
		{ static T buf[N]; dsga::basic_view<true, T, N> v(buf); any_seq(v.base, N, [](int i) { return buf + i; }, "view storage"); IS(sizeof(v) == sizeof(T *), "size of a view"); }
	}
	static void run()
	{
		vectors<1>(); vectors<2>(); vectors<3>(); vectors<4>();
		sample(strf("bytes of vectors of %s after every single-component write of every boundary value", tname<T>()));
	}
#endif
#ifdef MC_SEQ
	using T = std::tuple_element_t<MC_SEQ, std::tuple<int, double, bool, long long>>;
	template <class V, class... A> static void each(V &v, const T *raw, int S, const char *kn, types<A...>)
	{
		(([&] {
			auto &s = A::get(v); K_ = strf("%s%d.%s %s", kn, S, A::name, tname<T>());
			if constexpr (MC_K == 0) { IS((const void *)std::addressof(s) == (const void *)raw, "address of the member"); IS(sizeof(s) == S * sizeof(T), "size of the member"); }
			IS(std::is_trivially_copyable_v<std::remove_reference_t<decltype(s)>> || MC_K, "trivially copyable");
			{ auto q = seq_(s.sequence()); bool ok = (int)q.size() == A::n; for (int i = 0; i < A::n && ok; ++i) ok = (int)q[i] == A::idx[i]; IS(ok, "sequence() names the letters"); IS((const void *)s.data() == (const void *)raw, "data() is the start of the owner"); }
			auto where = [&](int i) { return raw + A::idx[i]; };
			any_seq(s, A::n, where, "swizzle"); any_seq(A::get(std::as_const(v)), A::n, where, "swizzle of const"); base_seq(s, where, "base of swizzle");
		}()), ...);
	}
	template <int S> static void owner()
	{
		static T buf[8]; T *raw; const char *kn;
		auto go = [&](auto &v) { each(v, raw, S, kn, Swz<S, 1>{}); each(v, raw, S, kn, Swz<S, 2>{}); each(v, raw, S, kn, Swz<S, 3>{}); each(v, raw, S, kn, Swz<S, 4>{}); };
		if constexpr (MC_K == 0) { static dsga::basic_vector<T, S> v; raw = reinterpret_cast<T *>(&v); kn = "vector"; go(v); }
		else if constexpr (MC_K == 1) { static dsga::basic_view<true, T, S> v(buf + 1); raw = buf + 1; kn = "view"; go(v); }
		else if constexpr (MC_K == 2) { static dsga::view_vector<T, S> v; raw = v.data(); kn = "owning view"; go(v); }
		else { static dsga::basic_view<false, T, S> v(buf + 2); raw = buf + 2; kn = "view of const"; go(v); }
	}
	static void run() { owner<1>(); owner<2>(); owner<3>(); owner<4>(); sample("address, size, data() and sequence() of all 4 + 30 + 120 + 340 swizzle names"); }
#endif
#ifdef MC_MAT
	template <class T> static void matrices()
	{
		static_for<9>([](auto qq) {
			constexpr int Q = std::remove_cvref_t<decltype(qq)>::value, C = Q % 3 + 2, R = Q / 3 + 2, N = C * R; using M = dsga::basic_matrix<T, C, R>; K_ = strf("mat%dx%d %s", C, R, tname<T>());
			IS(sizeof(M) == N * sizeof(T), "size"); IS(alignof(M) == alignof(T), "alignment"); IS(std::is_trivially_copyable_v<M>, "trivially copyable"); IS(std::is_standard_layout_v<M>, "standard layout"); IS(sizeof(M[2]) == 2 * N * sizeof(T), "size of an array");
			IS(M::size() == C && M::column_size() == R && M::ComponentCount == N, "size()"); IS(M{}.length() == C && M{}.column_length() == R, "length()");
			static M s; for (int c = 0; c < C; ++c) { IS((const void *)&s[c] == (const void *)(reinterpret_cast<T *>(&s) + c * R), "address of column %d", c); IS((const void *)(s.data() + c) == (const void *)&s[c] && (const void *)(std::as_const(s).data() + c) == (const void *)&s[c] && (const void *)&s.columns[c] == (const void *)&s[c], "data()[%d]", c); for (int r = 0; r < R; ++r) IS((const void *)&s[c][r] == (const void *)(reinterpret_cast<T *>(&s) + c * R + r), "address of element %d,%d", c, r); }
			for (int i = 0; i < N; ++i) for (const T &x : alphabet<T>()) for (const T &fill : { T(0), T(2) })
			{
				T want[N]; for (auto &c : want) c = fill; want[i] = x; M m; std::memcpy(&m, want, sizeof want); ++C_.states; ++C_.traces; bool ok = true; for (int k = 0; k < N; ++k) ok &= same_bits<T>(m[k / R][k % R], want[k]); IS(ok, "elements of the bytes of an array");
				M w{}; for (int k = 0; k < N; ++k) w[k / R][k % R] = want[k]; IS(!std::memcmp(&w, want, sizeof want), "bytes after writing the elements"); M cp(w), as{}; as = w; IS(!std::memcmp(&cp, want, sizeof want) && !std::memcmp(&as, want, sizeof want), "bytes of copies");
				M ar[2] = { M{}, w }; T flat[2 * N]; std::memcpy(flat, ar, sizeof ar); IS(!std::memcmp(flat + N, want, sizeof want) && flat[N - 1] == T(0), "array of matrices");
				if constexpr (std::is_trivially_copyable_v<M> && sizeof(M) == N * sizeof(T)) { auto a = std::bit_cast<std::array<T, N>>(w); IS(!std::memcmp(a.data(), want, sizeof want), "bit_cast to an array"); }
			}
			{ M m{}; T z[N] = {}; IS(!std::memcmp(&m, z, sizeof z), "value-initialised is zero"); }
		});
	}
	static void run() { matrices<float>(); matrices<double>(); sample("bytes and addresses of the elements of the 9 shapes, every element x every boundary value"); }
#endif
#ifdef MC_NAMES
	template <class A, class B> static void same_(const char *n) { K_ = n; ++C_.states; ++C_.traces; IS((std::is_same_v<A, B>), "is the named type"); }
	static void run()
	{
		using namespace dsga;
#define V1(p, T) same_<p##scal, basic_vector<T, 1>>(#p "scal"); same_<p##vec2, basic_vector<T, 2>>(#p "vec2"); same_<p##vec3, basic_vector<T, 3>>(#p "vec3"); same_<p##vec4, basic_vector<T, 4>>(#p "vec4"); \
	same_<p##view1, basic_view<true, T, 1>>(#p "view1"); same_<p##view2, basic_view<true, T, 2>>(#p "view2"); same_<p##view3, basic_view<true, T, 3>>(#p "view3"); same_<p##view4, basic_view<true, T, 4>>(#p "view4"); \
	same_<c##p##view1, basic_view<false, T, 1>>("c" #p "view1"); same_<c##p##view2, basic_view<false, T, 2>>("c" #p "view2"); same_<c##p##view3, basic_view<false, T, 3>>("c" #p "view3"); same_<c##p##view4, basic_view<false, T, 4>>("c" #p "view4");
		V1(b, bool) V1(i, int) V1(u, unsigned) V1(ll, long long) V1(ull, unsigned long long) V1(, float) V1(f, float) V1(d, double)
#define M1(n, C, R) same_<mat##n, basic_matrix<float, C, R>>("mat" #n); same_<dmat##n, basic_matrix<double, C, R>>("dmat" #n);
		M1(2, 2, 2) M1(3, 3, 3) M1(4, 4, 4) M1(2x2, 2, 2) M1(2x3, 2, 3) M1(2x4, 2, 4) M1(3x2, 3, 2) M1(3x3, 3, 3) M1(3x4, 3, 4) M1(4x2, 4, 2) M1(4x3, 4, 3) M1(4x4, 4, 4)
		sample("all named vector, view and matrix types");
	}
#endif
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); total = C_; return finish(); }
