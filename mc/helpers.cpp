// P33: the helper examples.  -DMC_HASH=t -DMC_TEXT=t -DMC_TOL=t -DMC_COPY (spans and valarrays)
#include <span>
#include <valarray>
#include <iostream>
#include <version>
#if defined(__cpp_lib_format)
#include <format>
#include <charconv>
#endif
#include "kinds.hpp"
#ifdef MC_HASH
#include "hash.hxx"
#endif
#ifdef MC_TEXT
#include "ostream_output.hxx"
#include "format_output.hxx"
#endif
#if defined(MC_TOL) || defined(MC_BOX1)
#include "tolerance.hxx"
#endif
#ifdef MC_COPY
#include "span_convert.hxx"
#include "valarray_convert.hxx"
#endif
using namespace mc;
static Counters C_;
using Types = std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>;
static void step() { ++C_.states; ++C_.traces; ++C_.transitions; }
static bool rejected(Out o) { return o == Out::asserted || o == Out::threw; }
template <int N, class A, class F> void words_(const std::vector<A> &al, F f) { A w[4]; std::size_t t = 1; for (int i = 0; i < N; ++i) t *= al.size(); for (std::size_t q = 0; q < t; ++q) { std::size_t z = q; for (int i = 0; i < N; ++i) { w[i] = al[z % al.size()]; z /= al.size(); } f(w); } }
template <class O, int Q = 0> O &obj() { static O o; return o; }
template <class> struct Runner
{
#ifdef MC_HASH
	using T = std::tuple_element_t<MC_HASH, Types>;
	static std::vector<T> letters() { std::vector<T> v; for (T x : alphabet<T>()) if (x == x) v.push_back(x); if (v.size() > 6) v = { v[0], v[1], v[2], v[3], v[v.size() - 1], v[v.size() - 4] }; if (std::is_floating_point_v<T>) v.push_back(-T(0)); return v; }
	template <int N> static void len()
	{
		std::vector<std::pair<std::array<T, 4>, std::size_t>> seen;
		words_<N>(letters(), [&](const T *w) {
			std::array<T, 4> a{}; for (int i = 0; i < N; ++i) a[i] = w[i]; std::size_t h[NKINDS];
			static_for<NKINDS>([&](auto kk) { constexpr int K = decltype(kk)::value; auto &o = obj<Obj<T, N, K>>(); mem(o).put(w); using V = std::remove_cvref_t<decltype(o.get())>; h[K] = std::hash<V>{}(o.get()); if (h[K] != std::hash<V>{}(std::as_const(o.get()))) fail("hash", "not a function"); step(); });
			for (int k = 1; k < NKINDS; ++k) if (h[k] != h[0]) fail(strf("hash of %s%d %s", kname(k), N, tname<T>()), strf("%s: not the hash of the equal vector", vstr(std::vector<T>(w, w + N)).c_str()));
			{ auto &o = obj<Obj<T, N, K_VEC>>(); mem(o).put(w); if (std::hash<std::remove_cvref_t<decltype(o.get().base)>>{}(o.get().base) != h[0]) fail("hash of storage", "not the hash of the vector"); auto &q = obj<Obj<T, N, K_VIEW>>(); mem(q).put(w); if (std::hash<std::remove_cvref_t<decltype(q.get().base)>>{}(q.get().base) != h[0]) fail("hash of view storage", "not the hash of the vector"); }
			seen.push_back({ a, h[0] });
		});
		// every pair: equal vectors hash equally; and the hash uses every component (different words collide nowhere in this small set)
		std::map<std::vector<T>, std::size_t> by; std::map<std::size_t, std::vector<T>> back;
		for (auto &[a, h] : seen) { std::vector<T> k(a.begin(), a.begin() + N); for (auto &&x : k) if (x == T(0)) x = T(0); auto [it, fresh] = by.insert({ k, h }); if (!fresh && it->second != h) fail(strf("hash of vector%d %s", N, tname<T>()), vstr(k) + " equal vectors hash differently"); step(); }
		for (auto &[k, h] : by) { auto [it, fresh] = back.insert({ h, k }); if (!fresh) fail(strf("hash of vector%d %s", N, tname<T>()), vstr(k) + " and " + vstr(it->second) + " collide: a component or its position does not take part"); }
	}
	template <int C, int R> static void mat()
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			std::map<std::size_t, int> back; dsga::basic_matrix<T, C, R> m; for (int i = 0; i < C * R; ++i) m[i / R][i % R] = T(i % 3); std::hash<dsga::basic_matrix<T, C, R>> H; back[H(m)] = -1;
			for (int i = 0; i < C * R; ++i) for (int v = 3; v < 6; ++v) { auto n = m; n[i / R][i % R] = T(v); auto z = n; if (H(z) != H(n)) fail("hash of matrix", "not a function"); if (!back.insert({ H(n), i * 8 + v }).second) fail(strf("hash of mat%dx%d", C, R), strf("element %d does not take part", i)); step(); }
			auto a = m, b = m; for (int i = 0; i < C * R; ++i) { a[i / R][i % R] = T(0); b[i / R][i % R] = -T(0); if (H(a) != H(b)) fail(strf("hash of mat%dx%d", C, R), "zeros of both signs compare equal and hash differently"); step(); }
		}
	}
	static void run() { len<1>(); len<2>(); len<3>(); len<4>(); static_for<9>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; mat<Q % 3 + 2, Q / 3 + 2>(); }); sample("every word over 6 or 7 values x 8 kinds and storage: one hash per value"); }
#endif
#ifdef MC_TEXT
	using T = std::tuple_element_t<MC_TEXT, Types>;
	template <class F> static std::string list(const T *w, int n, F f) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ", "; s += f(w[i]); } return s + "]"; }
	static std::string put(T x) { std::ostringstream o; if (std::is_same_v<T, bool>) o << std::boolalpha; o << x; return o.str(); }
	template <class V> static std::string streamed(V &v) { std::ostringstream o; o << "<" << v << ">" << 7; return o.str(); }
	static std::vector<T> letters() { std::vector<T> v; for (T x : alphabet<T>()) v.push_back(x); if (v.size() > 5) v = { v[1], v[4], v[6], v[v.size() - 1], v[v.size() - 4] }; return v; }
	static void is(const std::string &key, const std::string &got, const std::string &want) { step(); if (got != want) fail(key, "'" + got + "' instead of '" + want + "'"); }
#if defined(__cpp_lib_format)
	static constexpr const char *specs[] = { "{}", "{:12}", "{:<9}", "{:^+14}", "{:*>11}", "{:#x}", "{:b}", "{:a}", "{:.3e}", "{:10.5}", "{:08.2f}" };
	static constexpr bool fits(int s) { return s < 3 || (s == 4) || (std::is_floating_point_v<T> ? s == 3 || s > 6 : !std::is_same_v<T, bool> && s < 7); }
	template <class V> static std::string fmt(const char *s, const V &v) { return std::vformat(s, std::make_format_args(v)); }
	template <class V> static void formatted(const std::string &key, const V &v, const T *w, int n)
	{
		for (int s = 0; s < 11; ++s) if (fits(s)) is(key + " " + specs[s], fmt(specs[s], v), list(w, n, [&](T x) { return fmt(specs[s], x); }));
		// limited and raw outputs
		const std::string all = list(w, n, [](T x) { return fmt("{}", x); }); char buf[256] = {}; *std::format_to(buf, "{}|", v) = 0; is(key + " format_to", buf, all + "|");
		for (int k : { 0, 1, 3, 200 }) { char b[256] = {}; auto r = std::format_to_n(b, k, "{}", v); is(key + " format_to_n", b, all.substr(0, k)); if (r.size != (std::ptrdiff_t)all.size()) fail(key + " format_to_n size", "wrong size"); }
	}
#else
	template <class V> static void formatted(const std::string &, const V &, const T *, int) {}
#endif
	template <int N, int K> static void kind()
	{
		auto &o = obj<Obj<T, N, K>>(); const std::string k = strf("%s%d %s", kname(K), N, tname<T>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", k.c_str()); int q = 0;
		words_<N>(letters(), [&](const T *w) {
			mem(o).put(w); auto &v = o.get(); const std::string want = "<" + list(w, N, put) + ">7"; is(k + " stream", streamed(v), want); is("const " + k + " stream", streamed(std::as_const(v)), want);
			is("base of " + k + " stream", base_(v), want); if constexpr (K == K_VEC || K == K_VIEW) is("storage of " + k + " stream", streamed(v.base), want);
			if (++q % (N == 4 ? 41 : N == 3 ? 7 : 1) == 0) { formatted(k, v, w, N); formatted("base of " + k, asbase(v), w, N); if constexpr (K == K_VEC || K == K_VIEW) formatted("storage of " + k, v.base, w, N); }
		});
		if (!mem(o).holds(nullptr_words(o), T(91))) fail(k, "printing changed the object");
	}
	template <class O> static const T *nullptr_words(O &o) { static T w[4]; auto m = mem(o); for (int i = 0; i < m.comps; ++i) w[i] = m.at(i); return w; }
	template <bool W, class X, std::size_t C, class D> static const dsga::vector_base<W, X, C, D> &asbase(const dsga::vector_base<W, X, C, D> &v) { return v; }
	template <bool W, class X, std::size_t C, class D> static std::string base_(const dsga::vector_base<W, X, C, D> &v) { return streamed(v); }
	template <int C, int R> static void mat()
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			dsga::basic_matrix<T, C, R> m; for (int i = 0; i < C * R; ++i) m[i / R][i % R] = T(i * 1.25 - 3); const std::string k = strf("mat%dx%d", C, R);
			auto cols = [&](auto f) { std::string s = "["; for (int c = 0; c < C; ++c) { T w[4]; for (int r = 0; r < R; ++r) w[r] = m[c][r]; if (c) s += ", "; s += list(w, R, f); } return s + "]"; };
			is(k + " stream", streamed(m), "<" + cols(put) + ">7");
#if defined(__cpp_lib_format)
			for (int s = 0; s < 11; ++s) if (fits(s)) is(k + " " + specs[s], fmt(specs[s], m), cols([&](T x) { return fmt(specs[s], x); }));
#endif
		}
	}
#if defined(__cpp_lib_format)
	template <class X> static void hexfloats()
	{
		if constexpr (std::is_floating_point_v<X>) for (X x : alphabet<X>()) if (std::isfinite(x)) for (const char *s : { "{:a}", "{:+a}", "{: a}" }) { X y = 5; const std::string t = fmt(s, x); auto r = from_format_hexfloat_chars(t, y); step(); if (r.ec != std::errc() || r.ptr != t.data() + t.size() || !same_bits(x, y)) fail("from_format_hexfloat_chars", t + " is not read back"); }
	}
#endif
	static void run()
	{
		static_for<4 * NKINDS>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; kind<Q / NKINDS + 1, Q % NKINDS>(); }); static_for<9>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; mat<Q % 3 + 2, Q / 3 + 2>(); });
#if defined(__cpp_lib_format)
		hexfloats<T>();
		count_extra("format_library", 1);
#endif
		sample("every word over 5 values x 8 kinds, their bases and storage: streamed text, and formatted with 11 specifications");
	}
#endif
#ifdef MC_TOL
	using T = std::tuple_element_t<MC_TOL, Types>; using F = long double;
	static std::vector<T> values() { if constexpr (std::is_floating_point_v<T>) return { T(0), T(1), T(-1), T(2), T(-2), T(3), T(0.25), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN() }; else if constexpr (std::is_signed_v<T>) return { T(0), T(1), T(-1), T(2), T(-2), T(3), T(-3), std::numeric_limits<T>::max() }; else return { T(0), T(1), T(2), T(3), std::numeric_limits<T>::max() }; }
	// tolerances of type U, negative ones included
	template <class U> static std::vector<U> tols() { std::vector<U> v = { U(0), U(1), U(2), U(3) }; if constexpr (std::is_floating_point_v<U>) { v.push_back(U(0.25)); v.push_back(std::numeric_limits<U>::infinity()); v.push_back(-std::numeric_limits<U>::denorm_min()); } if constexpr (std::is_signed_v<U>) v.push_back(U(-1)); else v.push_back(U(100)); return v; }
	static bool in(T x, F tol) { return x == x && std::fabs((F)x) <= tol; }
	template <class G> static void is(const std::string &key, const std::string &on, bool neg, bool want, G f)
	{
		step(); volatile bool got = false; Out o = attempt([&] { got = f(); });
		if (neg ? !rejected(o) : o != Out::ok) fail(key, on + ": " + mc::name(o)); else if (!neg && got != want) fail(key, on + (want ? ": out of tolerance" : ": within tolerance"));
	}
	template <class V> static std::string show(const V *w, int n) { return vstr(std::vector<V>(w, w + n)); }
	// the integer differences of the values above are exact unless max is involved
	static bool sub_ok(T a, T b) { if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) { __int128 d = (__int128)a - b; return d <= std::numeric_limits<T>::max() && d > std::numeric_limits<T>::min(); } else return true; }
	template <class U> static void scalars()
	{
		const std::string k = strf("%s by %s", tname<T>(), tname<U>()); snprintf(ctxbuf, sizeof ctxbuf, "scalar %s", k.c_str());
		for (T x : values()) for (U t : tols<U>())
		{
			is("within_tolerance(scalar) " + k, str(x) + " tolerance " + str(t), t < 0, in(x, t), [&] { return dsga::within_tolerance(x, t); });
			for (T y : values()) if (sub_ok(x, y)) { T d = x - y; is("within_distance(scalar) " + k, str(x) + ", " + str(y) + " tolerance " + str(t), t < 0, in(d, t), [&] { return dsga::within_distance(x, y, t); }); is("within_box(scalar) " + k, str(x) + ", " + str(y) + " tolerance " + str(t), t < 0, in(d, t), [&] { return dsga::within_box(x, y, t); }); }
		}
	}
	template <class U, int N, int K, int L, int M> static void vectors()
	{
		auto &a = obj<Obj<T, N, K>>(); auto &b = obj<Obj<T, N, L>, 1>(); auto &t = obj<Obj<U, N, M>, 2>(); auto &t1 = obj<Obj<U, 1, M>, 3>(); const std::string k = strf("%s%d %s by %s", kname(K), N, tname<T>(), tname<U>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", k.c_str());
		auto vs = values(); if (N > 2) vs.resize(N == 3 ? std::min<std::size_t>(vs.size(), 6) : 3); if (N > 2 && std::is_floating_point_v<T>) vs.back() = std::numeric_limits<T>::quiet_NaN();
		const std::vector<T> other = { T(0), T(1), T(2) };
		words_<N>(vs, [&](const T *x) {
			mem(a).put(x); const std::string xs = show(x, N);
			for (U s : tols<U>())
			{
				bool all = true; for (int i = 0; i < N; ++i) all &= in(x[i], s);
				is("within_tolerance(vector, scalar) " + k, xs + " tolerance " + str(s), s < 0, all, [&] { return dsga::within_tolerance(a.get(), s); });
				mem(t1).put(&s); is("within_tolerance(vector, length 1) " + k, xs + " tolerance " + str(s), s < 0, all, [&] { return dsga::within_tolerance(a.get(), t1.get()); });
			}
			U tw[4]; for (int q = 0; q < 12; ++q)
			{
				auto ts = tols<U>(); bool neg = false, all = true; for (int i = 0; i < N; ++i) { tw[i] = ts[(q * 3 + i * (q % 4 + 1)) % ts.size()]; neg |= tw[i] < 0; } for (int i = 0; i < N; ++i) all &= in(x[i], tw[i]);
				mem(t).put(tw); is("within_tolerance(vector, vector) " + k, xs + " tolerance " + show(tw, N), neg, all, [&] { return dsga::within_tolerance(a.get(), t.get()); });
			}
			words_<N>(other, [&](const T *y) {
				for (int i = 0; i < N; ++i) if (!sub_ok(x[i], y[i])) return;
				mem(b).put(y); const std::string on = xs + ", " + show(y, N); T d[4]; F sq = 0; bool nan = false; for (int i = 0; i < N; ++i) { d[i] = x[i] - y[i]; nan |= d[i] != d[i]; sq += (F)d[i] * (F)d[i]; }
				for (U s : tols<U>())
				{
					bool all = true; for (int i = 0; i < N; ++i) all &= in(d[i], s); const std::string ot = on + " tolerance " + str(s); mem(t1).put(&s);
					is("within_box(vector, scalar) " + k, ot, s < 0, all, [&] { return dsga::within_box(a.get(), b.get(), s); }); if constexpr (N > 1) is("within_box(vector, length 1) " + k, ot, s < 0, all, [&] { return dsga::within_box(a.get(), b.get(), t1.get()); });
					if constexpr (std::is_floating_point_v<T>) { const bool w = !nan && sq <= (F)s * (F)s; is("within_distance(vector, scalar) " + k, ot, s < 0, w, [&] { return dsga::within_distance(a.get(), b.get(), s); }); is("within_distance(vector, length 1) " + k, ot, s < 0, w, [&] { return dsga::within_distance(a.get(), b.get(), t1.get()); }); }
				}
				bool all = true, neg = false; for (int i = 0; i < N; ++i) { tw[i] = tols<U>()[(i + (int)(sq > 3)) % 4]; all &= in(d[i], tw[i]); } mem(t).put(tw); if constexpr (N > 1) is("within_box(vector, vector) " + k, on + " tolerance " + show(tw, N), neg, all, [&] { return dsga::within_box(a.get(), b.get(), t.get()); });
			});
		});
	}
	template <class U> static void by()
	{
		scalars<U>(); vectors<U, 1, K_VEC, K_VEC, K_VEC>(); vectors<U, 2, K_VEC, K_SWZ, K_VIEW>(); vectors<U, 3, K_VEC, K_VEC, K_VEC>(); vectors<U, 3, K_SWZ, K_VIEW, K_VSWZ>(); vectors<U, 2, K_OWN, K_OSWZ, K_CVIEW>(); vectors<U, 3, K_CVSWZ, K_OWN, K_SWZ>(); vectors<U, 4, K_VIEW, K_VEC, K_OWN>(); vectors<U, 1, K_VSWZ, K_SWZ, K_OSWZ>(); vectors<U, 4, K_OSWZ, K_CVSWZ, K_VEC>();
	}
	static void run() { by<T>(); if constexpr (std::is_same_v<T, double>) { by<float>(); by<int>(); } if constexpr (std::is_same_v<T, long long>) by<int>(); sample("every word over up to 9 values x other points x tolerances (boundary, negative, infinite, NaN components)"); }
#endif
#ifdef MC_BOX1
	// vectors of length 1 with a tolerance of length 1: a part of its own, because it is known not to compile
	template <class T, int K, int L, int M> static void box1()
	{
		auto &a = obj<Obj<T, 1, K>>(); auto &b = obj<Obj<T, 1, L>, 1>(); auto &t = obj<Obj<T, 1, M>, 2>(); snprintf(ctxbuf, sizeof ctxbuf, "within_box of length 1");
		for (T x : { T(0), T(1), T(-1), T(5) }) for (T y : { T(0), T(2), T(-3) }) for (T s : { T(0), T(1), T(3), T(-1) })
		{
			mem(a).put(&x); mem(b).put(&y); mem(t).put(&s); step(); const bool want = s >= 0 && (x > y ? x - y : y - x) <= s;
			volatile bool got = false; Out o = attempt([&] { got = dsga::within_box(a.get(), b.get(), t.get()); });
			if (s < 0 ? !rejected(o) : o != Out::ok || got != want) fail(strf("within_box(length 1, length 1, length 1) %s", tname<T>()), str(x) + ", " + str(y) + " tolerance " + str(s));
		}
	}
	static void run() { box1<int, K_VEC, K_VEC, K_VEC>(); box1<float, K_SWZ, K_VIEW, K_OWN>(); box1<double, K_OSWZ, K_CVSWZ, K_VSWZ>(); sample("length 1 vectors and tolerances"); }
#endif
#ifdef MC_COPY
	using T = float;
	template <class V> static bool is(const std::string &key, const V *got, const std::vector<V> &want) { step(); std::vector<V> g(got, got + want.size()); for (std::size_t i = 0; i < want.size(); ++i) if (!same_bits(g[i], want[i])) { fail(key, vstr(g) + " instead of " + vstr(want)); return false; } return true; }
	// A: component type of the vector, B: element type of the span or valarray of E elements
	template <class A, class B, int N, int E> static void copy()
	{
		const std::string k = strf("vec%d<%s> and %d %s", N, tname<A>(), E, tname<B>()); B src[8]; for (int i = 0; i < 8; ++i) src[i] = B(i * 3 + 2); constexpr int M = std::min(N, E);
		auto fresh = [] { dsga::basic_vector<A, N> v; for (int i = 0; i < N; ++i) v[i] = A(50 + i); return v; }; auto want = [&] { std::vector<A> w; for (int i = 0; i < N; ++i) w.push_back(i < M ? A(src[i]) : A(50 + i)); return w; };
		{ auto v = fresh(); copy_to_vector(v, std::span<B, E>(src, E)); is("copy_to_vector(span) " + k, v.data(), want()); } { auto v = fresh(); copy_to_vector(v, std::span<const B, E>(src, E)); is("copy_to_vector(const span) " + k, v.data(), want()); }
		{ auto v = fresh(); copy_to_vector(v, std::span<B>(src, E)); is("copy_to_vector(dynamic span) " + k, v.data(), want()); } { auto v = fresh(); copy_to_vector(v, std::span<const B>(src, E)); is("copy_to_vector(dynamic const span) " + k, v.data(), want()); }
		{ auto v = fresh(); copy_to_vector(v, std::valarray<B>(src, E)); is("copy_to_vector(valarray) " + k, v.data(), want()); }
		{ B old[8]; for (int i = 0; i < 8; ++i) if (old[i] = B(i * 3 + 2); old[i] != src[i]) fail("copy_to_vector " + k, "the source changed"); }
		auto v = fresh(); auto back = [&] { std::vector<B> w; for (int i = 0; i < 8; ++i) w.push_back(i < M ? B(A(50 + i)) : B(i * 3 + 2)); return w; };
		{ B d[8]; std::copy(src, src + 8, d); copy_from_vector(std::span<B, E>(d, E), v); is("copy_from_vector(span) " + k, d, back()); } { B d[8]; std::copy(src, src + 8, d); copy_from_vector(std::span<B>(d, E), std::as_const(v)); is("copy_from_vector(dynamic span) " + k, d, back()); }
		{ std::valarray<B> d(src, E); copy_from_vector(d, v); if ((int)d.size() != E) fail("copy_from_vector(valarray) " + k, "resized"); else if (E) { std::vector<B> w = back(); w.resize(E); is("copy_from_vector(valarray) " + k, &d[0], w); } }
		is("copy_from_vector leaves the vector " + k, v.data(), [&] { std::vector<A> w; for (int i = 0; i < N; ++i) w.push_back(A(50 + i)); return w; }());
	}
	template <class A, class B> static void sizes() { static_for<28>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; copy<A, B, Q % 4 + 1, Q / 4>(); }); }
	template <class V> static constexpr bool spans = requires (V v) { make_span(std::forward<V>(v)); }; template <class V> static constexpr bool cspans = requires (V v) { make_const_span(std::forward<V>(v)); };
	template <class V, class E, int N> static void span_of(const std::string &k)
	{
		V v; const void *first = &v[0]; auto s = make_span(v); auto c = make_span(std::as_const(v)); auto d = make_const_span(v); auto e = make_const_span(std::as_const(v)); step();
		if (!std::is_same_v<decltype(s), std::span<E, N>> || !std::is_same_v<decltype(c), std::span<const E, N>> || !std::is_same_v<decltype(d), std::span<const E, N>> || !std::is_same_v<decltype(e), std::span<const E, N>>) fail("make_span " + k, "type");
		if (s.data() != first || c.data() != first || d.data() != first || e.data() != first) fail("make_span " + k, "address"); if (spans<V> || spans<const V> || cspans<V> || cspans<const V>) fail("make_span " + k, "of a temporary accepted");
	}
	template <class A, int N, int E, int... Is> static void parts() { A src[E]; for (int i = 0; i < E; ++i) src[i] = A(i * 5 + 1); auto v = make_vector(std::span<A, E>(src), std::index_sequence<Is...>{}); auto w = make_vector(std::span<const A, E>(src), std::index_sequence<Is...>{}); std::vector<A> want = { src[Is]... }; if (!std::is_same_v<decltype(v), dsga::basic_vector<A, sizeof...(Is)>> || !std::is_same_v<decltype(w), decltype(v)>) fail("make_vector", "type"); is(strf("make_vector<%d of %d>", (int)sizeof...(Is), E), v.data(), want); is(strf("make_vector<%d of const %d>", (int)sizeof...(Is), E), w.data(), want); }
	template <class A> static void build()
	{
		static_for<256>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; parts<A, 4, 5, Q % 4 + 1, Q / 4 % 4, Q / 16 % 4, Q / 64>(); if constexpr (Q < 64) parts<A, 3, 4, Q % 4, Q / 4 % 4, Q / 16>(); if constexpr (Q < 16) parts<A, 2, 4, Q % 4, Q / 4>(); if constexpr (Q < 4) parts<A, 1, 4, Q>(); });
		if constexpr (std::is_floating_point_v<A>) static_for<27>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value, C = Q % 3 + 2, R = Q / 3 % 3 + 2, E = C * R + Q / 9; A src[E]; for (int i = 0; i < E; ++i) src[i] = A(i * 5 + 1); auto m = make_matrix<C, R>(std::span<A, E>(src)); auto n = make_matrix<C, R>(std::span<const A, E>(src)); if (!std::is_same_v<decltype(m), dsga::basic_matrix<A, C, R>> || !std::is_same_v<decltype(n), decltype(m)>) fail("make_matrix", "type"); is("make_matrix", &m[0][0], std::vector<A>(src, src + C * R)); is("make_matrix", &n[0][0], std::vector<A>(src, src + C * R)); span_of<dsga::basic_matrix<A, C, R>, dsga::basic_vector<A, R>, C>("matrix"); });
	}
	static void run()
	{
		sizes<float, float>(); sizes<int, int>(); sizes<double, int>(); sizes<int, double>(); sizes<unsigned, long long>(); sizes<long long, unsigned>(); sizes<std::size_t, float>(); sizes<unsigned long long, unsigned long long>();
		for_types(all_types{}, [](auto t) { using A = typename decltype(t)::type; static_for<4>([](auto n) { constexpr int N = std::remove_cvref_t<decltype(n)>::value + 1; span_of<dsga::basic_vector<A, N>, A, N>("vector"); dsga::basic_vector<A, N> v; for (int i = 0; i < N; ++i) v[i] = A(i * 2 + 1); if constexpr (!std::is_same_v<A, bool>) { auto x = to_valarray(v); if ((int)x.size() != N) fail("to_valarray", "size"); else is("to_valarray", &x[0], std::vector<A>(v.data(), v.data() + N)); } }); });
		build<int>(); build<float>(); build<double>(); sample("8 pairs of types x vector lengths x 7 span and valarray sizes; every index sequence over a span; 27 matrix shapes and sizes");
	}
#endif
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); total = C_; return finish(); }
