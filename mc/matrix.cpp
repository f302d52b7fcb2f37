// P22: matrices from pieces (-DMC_T=0|1 -DMC_C=2..4), from matrices of every shape and from pointers (-DMC_RESIZE), access paths (-DMC_ACCESS).
#include "kinds.hpp"
using namespace mc;
static Counters C_;
constexpr double aval(int p, int i) { return 16 * p + i + 1; }
template <class X, std::size_t C, std::size_t R> using M = dsga::basic_matrix<X, C, R>;
static std::string show(const double *v, int c, int r) { std::string s = "["; for (int i = 0; i < c; ++i) { s += i ? " |" : ""; for (int j = 0; j < r; ++j) s += strf(" %.9g", v[i * r + j]); } return s + " ]"; }
template <class X, std::size_t C, std::size_t R> void raw(const M<X, C, R> &m, double *o) { const X *p = reinterpret_cast<const X *>(&m); for (std::size_t i = 0; i < C * R; ++i) o[i] = p[i]; }
static void expect(const std::string &key, const double *got, const double *want, int c, int r)
{
	++C_.states; ++C_.traces; C_.transitions += c * r; bool ok = true; for (int i = 0; i < c * r; ++i) ok &= same(got[i], want[i]);
	if (!ok) fail(key, "got " + show(got, c, r) + ", expected " + show(want, c, r));
}
#ifndef MC_SEED
#define MC_SEED 0
#endif
#ifdef MC_C
using T = std::conditional_t<MC_T == 0, float, double>;
// ---- argument lists -----------------------------------------------------------------------------------------------
template <class U> struct A_scalar { static constexpr int count = 1; static constexpr bool arg = true; static std::string show() { return tname<U>(); } template <int P> static U &get() { static U u; u = U(aval(P, 0)); return u; } };
template <class U, int n, int K> struct A_obj
{
	static constexpr int count = n; static constexpr bool arg = true; static std::string show() { return strf("%s %s%d", tname<U>(), kname(K), n); }
	template <int P> static auto &get() { static Obj<U, n, K> o; U v[n]; for (int i = 0; i < n; ++i) v[i] = U(aval(P, i)); mem(o).put(v); return o.get(); }
};
struct A_string { static constexpr int count = 1; static constexpr bool arg = false; static std::string show() { return "std::string"; } template <int P> static auto &get() { static std::string s; return s; } };
struct A_array { static constexpr int count = 4; static constexpr bool arg = false; static std::string show() { return "std::array"; } template <int P> static auto &get() { static std::array<double, 4> s; return s; } };
struct A_mat { static constexpr int count = 4; static constexpr bool arg = false; static std::string show() { return "mat2x2"; } template <int P> static auto &get() { static M<T, 2, 2> s; return s; } };
using Thunk = void (*)(double *);
__attribute__((noinline)) void judge(int c, int r, const int *count, const bool *arg, int k, bool builds, Thunk th, std::string (*show_)())
{
	const int n = c * r; int total_ = 0, before = 0; bool must = true; double want[64] = {}, got[16];
	for (int i = 0; i < k; ++i) { must &= arg[i]; before = total_; total_ += count[i]; }
	if (k == 1 && count[0] == 1) { must = must && c == r; for (int i = 0; i < c && c == r; ++i) want[i * r + i] = aval(0, 0); }
	else { must = must && before < n && total_ >= n; int w = 0; for (int p = 0; p < k; ++p) for (int i = 0; i < count[p] && w < 64; ++i) want[w++] = aval(p, i); }
	const std::string key = strf("construct mat%dx%d(%s)", c, r, show_().c_str());
	if (builds != must) { ++C_.states; fail(key, must ? "does not compile" : "compiles, but must not"); return; }
	if (!builds) { ++C_.states; ++C_.traces; return; }
	snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
	th(got); expect(key, got, want, c, r);
}
template <int C, int R, class... A> void one()
{
	using Target = M<T, C, R>; constexpr int k = sizeof...(A);
	static constexpr int count[] = { A::count... }; static constexpr bool arg[] = { A::arg... };
	[&]<int... P>(std::integer_sequence<int, P...>) {
		constexpr bool builds = std::is_constructible_v<Target, decltype(A::template get<P>())...>;
		Thunk th = nullptr;
		if constexpr (builds) th = [](double *o) { Target t(A::template get<P>()...); raw(t, o); };
		judge(C, R, count, arg, k, builds, th, [] { std::string s; ((s += (s.empty() ? "" : ", ") + A::show()), ...); return s; });
	}(std::make_integer_sequence<int, k>{});
}
// the kind of a piece of n components, by a number
template <int n, int Z> struct piece { using type = A_obj<std::conditional_t<Z % 2 == 0, T, std::conditional_t<Z % 3 == 0, int, std::conditional_t<MC_T == 0, double, float>>>, n, Z % 8>; };
template <int Z> struct piece<1, Z> { using type = std::conditional_t<Z % 4 == 0, A_scalar<T>, std::conditional_t<Z % 4 == 1, A_scalar<int>, std::conditional_t<Z % 4 == 2, A_obj<T, 1, (Z / 4) % 8>, A_obj<unsigned, 1, (Z / 3) % 8>>>>; };
template <int C, int R, int BUDGET, int Z, int SUM, class... A> void lists()
{
	if constexpr (SUM >= C * R) one<C, R, A...>();
	else if constexpr (BUDGET > 0)
	{
		if constexpr (sizeof...(A) > 1 || (sizeof...(A) == 1 && BUDGET < 2)) { if constexpr (sizeof...(A) <= 2) one<C, R, A...>(); }        // too few
		lists<C, R, BUDGET - 1, (Z * 5 + 3) % 64, SUM + 1, A..., typename piece<1, Z>::type>();
		lists<C, R, BUDGET - 1, (Z * 5 + 7) % 64, SUM + 2, A..., typename piece<2, Z>::type>();
		lists<C, R, BUDGET - 1, (Z * 3 + 1) % 64, SUM + 3, A..., typename piece<3, Z>::type>();
		lists<C, R, BUDGET - 1, (Z * 7 + 2) % 64, SUM + 4, A..., typename piece<4, Z>::type>();
	}
	else one<C, R, A...>();
}
template <int C, int R, class S> void all_scalars()
{
	[]<int... I>(std::integer_sequence<int, I...>) {
		one<C, R, std::conditional_t<I >= 0, S, void>...>(); one<C, R, S, std::conditional_t<I >= 0, S, void>...>();                // one too many
		one<C, R, std::conditional_t<I >= 0, S, void>..., A_obj<T, 2, K_SWZ>>();
	}(std::make_integer_sequence<int, C * R>{});
	[]<int... I>(std::integer_sequence<int, I...>) { one<C, R, std::conditional_t<I >= 0, S, void>...>(); one<C, R, std::conditional_t<I >= 0, S, void>..., A_obj<T, 3, K_VIEW>>(); one<C, R, std::conditional_t<I >= 0, S, void>..., A_string>(); }(std::make_integer_sequence<int, C * R - 1>{});
}
template <int C, int R> void shape_()
{
	constexpr int n = C * R, budget = n == 4 ? 4 : n == 6 ? 4 : n == 8 ? 4 : n == 9 ? 4 : n == 12 ? 4 : 5;
	if constexpr (n < 16) lists<C, R, budget, (MC_C * 3 + MC_T + MC_SEED * 11) % 64, 0>();
	else
	{
		// 16 components: every order of four pieces of 4 with one split further
		static_for<8>([](auto z) { constexpr int Z = z; using Q = typename piece<4, Z * 9 + 1>::type; one<4, 4, Q, typename piece<4, Z + 1>::type, typename piece<4, Z + 2>::type, typename piece<4, Z + 3>::type>(); one<4, 4, typename piece<3, Z>::type, typename piece<4, Z + 5>::type, Q, typename piece<4, Z + 3>::type, typename piece<2, Z>::type>();
			one<4, 4, typename piece<2, Z>::type, typename piece<3, Z + 5>::type, Q, typename piece<3, Z + 3>::type, Q, typename piece<1, Z>::type>(); one<4, 4, typename piece<1, Z>::type, typename piece<3, Z>::type, typename piece<2, Z>::type, typename piece<2, Z + 4>::type, typename piece<1, Z + 3>::type, typename piece<3, Z + 1>::type, typename piece<1, Z + 6>::type, typename piece<3, Z + 7>::type>();
			one<4, 4, Q, Q, Q>(); one<4, 4, Q, Q, Q, Q, typename piece<1, Z>::type>(); one<4, 4, Q, Q, Q, typename piece<3, Z>::type, typename piece<4, Z>::type>(); });
	}
	// columns of every kind; in every position
	static_for<NKINDS>([](auto kk) { constexpr int K = kk; [&]<int... I>(std::integer_sequence<int, I...>) { one<C, R, A_obj<T, R, (K + I * 3) % 8>...>(); one<C, R, A_obj<std::conditional_t<I >= 0, int, int>, R, K>...>(); }(std::make_integer_sequence<int, C>{}); });
	all_scalars<C, R, A_scalar<T>>(); all_scalars<C, R, A_scalar<int>>();
	for_types(types<int, unsigned, long long, unsigned long long, float, double>{}, [](auto s) { using S = typename decltype(s)::type; one<C, R, A_scalar<S>>(); });
	static_for<NKINDS>([](auto kk) { constexpr int K = kk; one<C, R, A_obj<T, 1, K>>(); one<C, R, A_obj<int, 1, K>>(); one<C, R, A_obj<T, 2, K>>(); one<C, R, A_obj<T, 3, K>>(); one<C, R, A_obj<T, 4, K>>(); one<C, R, A_obj<int, 4, K>>(); });
	one<C, R, A_string>(); one<C, R, A_array>(); one<C, R, A_mat, A_obj<T, 4, K_VEC>>(); one<C, R, A_obj<T, 4, K_VEC>, A_mat>(); one<C, R, A_mat, A_mat>(); one<C, R, A_string, A_obj<T, 4, K_VEC>>(); one<C, R, A_obj<T, 3, K_VEC>, A_string>();
	{ M<T, C, R> z{}; double g[16], w[16] = {}; raw(z, g); expect(strf("default mat%dx%d", C, R), g, w, C, R); }
}
template <class> void go() { shape_<MC_C, 2>(); shape_<MC_C, 3>(); shape_<MC_C, 4>(); sample("argument lists: every sequence of pieces of 1 to 4 components up to 4 pieces, kinds rotating over 8 kinds and 4 component types; columns of every kind; scalars only; too few, too many, foreign arguments"); }

#elif defined(MC_RESIZE)
template <class X> std::vector<X> vals() { std::vector<X> v; for (X x : alphabet<X>()) if (!(std::abs(x) > X(1e38))) v.push_back(x); v.push_back(std::numeric_limits<X>::infinity()); v.push_back(X(-0.3)); return v; }
template <class Tt, class U, int C, int R, int C2, int R2> void resize()
{
	using Target = M<Tt, C, R>; using Source = M<U, C2, R2>; const auto v = vals<U>();
	const std::string key = strf("mat%dx%d %s from mat%dx%d %s", C, R, tname<Tt>(), C2, R2, tname<U>()); snprintf(ctxbuf, sizeof ctxbuf, "%s", key.c_str());
	static_assert(std::is_constructible_v<Target, Source>);
	constexpr bool same_shape = C == C2 && R == R2, implicit = same_shape && std::is_same_v<std::common_type_t<Tt, U>, Tt>;
	++C_.states; if (std::is_convertible_v<Source, Target> != implicit) fail(key + " implicit conversion", "exists or is missing against the rule");
	if (std::is_assignable_v<Target &, const Source &> != implicit) fail(key + " assignment", "exists or is missing against the rule");
	for (std::size_t k = 0; k < v.size(); ++k)
	{
		Source s; U *p = reinterpret_cast<U *>(&s), in[16]; for (int i = 0; i < C2 * R2; ++i) p[i] = in[i] = v[(k + i * 5) % v.size()];
		double want[16], got[16]; for (int i = 0; i < C; ++i) for (int j = 0; j < R; ++j) want[i * R + j] = i < C2 && j < R2 ? (double)(Tt)in[i * R2 + j] : C == R && i == j ? 1 : 0;
		{ Target t(s); raw(t, got); expect(key, got, want, C, R); }
		{ Target t(std::as_const(s)); raw(t, got); expect(key + " const", got, want, C, R); }
		if constexpr (implicit)
		{
			{ Target t = s; raw(t, got); expect(key + " copy-initialization", got, want, C, R); }
			Target t; memset((void *)&t, 0x55, sizeof t); auto &r = (t = s); if (&r != &t) fail(key + " assignment", "does not return the object"); raw(t, got); expect(key + " assignment", got, want, C, R);
			if constexpr (std::is_same_v<Tt, U>) { t = std::move(s); raw(t, got); expect(key + " move", got, want, C, R); auto &tt = t; t = tt; raw(t, got); expect(key + " self-assignment", got, want, C, R); }
		}
		bool ok = true; for (int i = 0; i < C2 * R2; ++i) ok &= same_bits(p[i], in[i]); if (!ok) fail(key, "the source changed");
	}
	if constexpr (same_shape)
	{
		// from a pointer: exactly C * R elements are read
		for (std::size_t k = 0; k < v.size(); ++k)
		{
			std::vector<U> buf(C * R); for (int i = 0; i < C * R; ++i) buf[i] = v[(k + i * 3) % v.size()];
			double want[16], got[16]; for (int i = 0; i < C * R; ++i) want[i] = (Tt)buf[i];
			{ Target t(buf.data()); raw(t, got); expect(key + " from a pointer", got, want, C, R); }
			{ const U *cp = buf.data(); Target t(cp); raw(t, got); expect(key + " from a const pointer", got, want, C, R); }
			{ Target t = buf.data(); raw(t, got); expect(key + " implicitly from a pointer", got, want, C, R); }
		}
		++C_.states; if (Out o = attempt([] { Target t(static_cast<const U *>(nullptr)); (void)t; }); o != Out::threw) fail(key + " from a null pointer", std::string("outcome: ") + mc::name(o));
	}
}
template <class> void go()
{
	using Tt = std::conditional_t<MC_RESIZE / 2 == 0, float, double>; using U = std::conditional_t<MC_RESIZE % 2 == 0, float, double>;
	static_for<81>([](auto q) { constexpr int Q = q; resize<Tt, U, Q % 3 + 2, Q / 3 % 3 + 2, Q / 9 % 3 + 2, Q / 27 + 2>(); });
	sample("all 81 pairs of shapes x boundary values; copies, assignments, pointers to exactly as many elements as needed");
}
#else
// ---- one layout, every path: all pairs of writes, all reads after each -------------------------------------------------
struct AJob { int c, r; const char *tn; void (*reset)(const double *); void (*raw_)(double *); void (*write)(int path, int c, int r, double v, double *model); void (*read)(int path, double *); int nread; };
static const char *wnames[] = { "m[c][r]", "m.data()[c][r]", "m.columns[c][r]", "m.begin()[c][r]", "column assignment", "column set through a swizzle", "m.rbegin()", "get<>", "structured binding", "reference from range-for", "row() copy", "std::swap of columns" };
constexpr int NW = 12;
static const char *rnames[] = { "m[c][r]", "const m[c][r]", "row(r)[c]", "data()", "columns", "begin()", "cbegin()", "rbegin()", "crbegin()", "range-for", "get<>", "indexes of other types", "row() of const", "std::get-style structured binding", "const begin()", "const rbegin()" };
constexpr int NR = 16;
__attribute__((noinline)) void access_(const AJob &j)
{
	const int n = j.c * j.r; double init[16]; for (int i = 0; i < n; ++i) init[i] = i + 1;
	auto look = [&](const std::string &what, const double *model) {
		double g[16]; j.raw_(g); expect(strf("mat%dx%d %s after %s", j.c, j.r, j.tn, what.c_str()), g, model, j.c, j.r);
		for (int p = 0; p < j.nread; ++p) { double q[16]; for (auto &x : q) x = -7; j.read(p, q); expect(strf("mat%dx%d %s read %s", j.c, j.r, j.tn, rnames[p]), q, model, j.c, j.r); }
	};
	j.reset(init); look("reset", init);
	for (int p = 0; p < NW; ++p) for (int c = 0; c < j.c; ++c) for (int r = 0; r < j.r; ++r)
	{
		double m1[16]; memcpy(m1, init, sizeof m1); j.reset(init); snprintf(ctxbuf, sizeof ctxbuf, "mat%dx%d %s %d %d", j.c, j.r, wnames[p], c, r); j.write(p, c, r, 50, m1); look(wnames[p], m1);
		for (int p2 = 0; p2 < NW; ++p2) for (int e = 0; e < n; ++e) { double m2[16]; memcpy(m2, init, sizeof m2); j.reset(init); j.write(p, c, r, 50, m2); j.write(p2, e / j.r, e % j.r, 60, m2); double g[16]; j.raw_(g); expect(strf("mat%dx%d %s after %s then %s", j.c, j.r, j.tn, wnames[p], wnames[p2]), g, m2, j.c, j.r); }
	}
}
template <class Tt, int C, int R> void access_shape()
{
	static M<Tt, C, R> m; const auto &cm = m; (void)cm;
	++C_.states;
	if (m.length() != C || m.column_length() != R || m.size() != C || m.column_size() != R || M<Tt, C, R>::ComponentCount != C * R || m.end() - m.begin() != C || m.rend() - m.rbegin() != C || m.cend() - m.cbegin() != C || m.crend() - m.crbegin() != C) fail(strf("mat%dx%d sizes", C, R), "length, size or iterator distance is wrong");
	static_assert(std::is_same_v<decltype(m[0]), dsga::basic_vector<Tt, R> &> && std::is_same_v<decltype(cm[0]), const dsga::basic_vector<Tt, R> &> && std::is_same_v<decltype(cm.data()), const dsga::basic_vector<Tt, R> *> && std::is_same_v<decltype(m.row(0)), dsga::basic_vector<Tt, C>>);
	static_assert(std::is_same_v<decltype(*cm.begin()), const dsga::basic_vector<Tt, R> &> && std::is_same_v<decltype(*m.cbegin()), const dsga::basic_vector<Tt, R> &> && std::is_same_v<decltype(*cm.rbegin()), const dsga::basic_vector<Tt, R> &> && std::is_same_v<decltype(*m.crbegin()), const dsga::basic_vector<Tt, R> &>);
	AJob j; j.c = C; j.r = R; j.tn = tname<Tt>(); j.nread = NR;
	j.reset = [](const double *d) { Tt *p = reinterpret_cast<Tt *>(&m); for (int i = 0; i < C * R; ++i) p[i] = (Tt)d[i]; };
	j.raw_ = [](double *o) { raw(m, o); };
	j.write = [](int path, int c, int r, double v_, double *model) {
		Tt v = (Tt)v_; if (path != 4 && path != 10 && path != 11 && path != 5) model[c * R + r] = v_;
		switch (path)
		{
			case 0: m[c][r] = v; break;
			case 1: m.data()[c][r] = v; break;
			case 2: m.columns[c][r] = v; break;
			case 3: m.begin()[c][r] = v; break;
			case 4: { dsga::basic_vector<Tt, R> w; for (int i = 0; i < R; ++i) { w[i] = Tt(v_ + i); model[c * R + i] = v_ + i; } m[c] = w; break; }
			case 5: m[c].yx = dsga::basic_vector<Tt, 2>(v, Tt(v_ + 1)); model[c * R + 1] = v_; model[c * R] = v_ + 1; break;
			case 6: m.rbegin()[C - 1 - c][r] = v; break;
			case 7: static_for<C>([&](auto k) { if (k == c) dsga::get<k>(m)[r] = v; }); break;
			case 8: if constexpr (C == 2) { auto &[a, b] = m; dsga::basic_vector<Tt, R> *q[] = { &a, &b }; (*q[c])[r] = v; } else if constexpr (C == 3) { auto &[a, b, d] = m; dsga::basic_vector<Tt, R> *q[] = { &a, &b, &d }; (*q[c])[r] = v; } else { auto &[a, b, d, e] = m; dsga::basic_vector<Tt, R> *q[] = { &a, &b, &d, &e }; (*q[c])[r] = v; } break;
			case 9: { int k = 0; for (auto &col : m) if (k++ == c) col[r] = v; break; }
			case 10: { auto w = m.row(r); w[c] = v; break; }
			case 11: { int o = (c + 1) % C; std::swap(m[c], m[o]); for (int i = 0; i < R; ++i) std::swap(model[c * R + i], model[o * R + i]); break; }
		}
	};
	j.read = [](int path, double *o) {
		const auto &k = m;
		auto col = [&](int c, const dsga::basic_vector<Tt, R> &x) { if (c >= 0 && c < C) for (int i = 0; i < R; ++i) o[c * R + i] = x[i]; };
		switch (path)
		{
			case 0: for (int c = 0; c < C; ++c) col(c, m[c]); break;
			case 1: for (int c = 0; c < C; ++c) col(c, k[c]); break;
			case 2: for (int r = 0; r < R; ++r) { auto w = m.row(r); for (int c = 0; c < C; ++c) o[c * R + r] = w[c]; } break;
			case 3: for (int c = 0; c < C; ++c) col(c, k.data()[c]); break;
			case 4: for (int c = 0; c < C; ++c) col(c, k.columns[c]); break;
			case 5: { int c = 0; for (auto i = m.begin(); i != m.end(); ++i) col(c++, *i); break; }
			case 6: { int c = 0; for (auto i = m.cbegin(); i != m.cend(); ++i) col(c++, *i); break; }
			case 7: { int c = C; for (auto i = m.rbegin(); i != m.rend(); ++i) col(--c, *i); break; }
			case 8: { int c = C; for (auto i = m.crbegin(); i != m.crend(); ++i) col(--c, *i); break; }
			case 9: { int c = 0; for (auto &x : k) col(c++, x); break; }
			case 10: static_for<C>([&](auto c) { col(c, dsga::get<c>(k)); }); break;
			case 11: for (int c = 0; c < C; ++c) col(c, c == 0 ? k[std::size_t(c)] : c == 1 ? k[(unsigned char)c] : c == 2 ? k[(long long)c] : k[(unsigned short)c]); break;
			case 12: for (int r = 0; r < R; ++r) { auto w = r == 0 ? k.row(std::size_t(r)) : r == 1 ? k.row((signed char)r) : k.row((unsigned)r); for (int c = 0; c < C; ++c) o[c * R + r] = w[c]; } break;
			case 13: if constexpr (C == 2) { auto [a, b] = m; col(0, a); col(1, b); } else if constexpr (C == 3) { auto [a, b, d] = m; col(0, a); col(1, b); col(2, d); } else { auto [a, b, d, e] = m; col(0, a); col(1, b); col(2, d); col(3, e); } break;
			case 14: { int c = 0; for (auto i = k.begin(); i != k.end(); ++i) col(c++, *i); break; }
			case 15: { int c = C; for (auto i = k.rbegin(); i != k.rend(); ++i) col(--c, *i); break; }
		}
	};
	access_(j);
}
template <class> void go()
{
	static_for<9>([](auto q) { access_shape<std::conditional_t<MC_ACCESS == 0, float, double>, q % 3 + 2, q / 3 + 2>(); });
	sample("all shapes: 12 ways of writing x every element, all pairs of writes, 16 ways of reading");
}
#endif
int main(int argc, char **argv) { init(argc, argv); go<void>(); total = C_; return finish(); }
