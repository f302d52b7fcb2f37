// P23: matrix operators and products.  -DMC_T=5|6 -DMC_U=5|6 [-DMC_PROD | -DMC_VEC=<component type of the vector>]
#include "lift.hpp"
using namespace mc;
using ld = long double;
template <int I> using Ty = std::tuple_element_t<I, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double>>;
using T = Ty<MC_T>;
#ifdef MC_U
using U = Ty<MC_U>;
#else
using U = T;
#endif
template <class X, int C, int R> using M = dsga::basic_matrix<X, C, R>;
static Counters C_;
// a matrix without its type; element (c, r) is v[c * R + r]
struct Mat { int c = 0, r = 0; ld v[16] = {}; ld at(int i, int j) const { return v[i * r + j]; } };
static std::string show(const Mat &m) { std::string s = "["; for (int i = 0; i < m.c; ++i) { s += i ? " |" : ""; for (int j = 0; j < m.r; ++j) s += strf(" %.9Lg", m.at(i, j)); } return s + " ]"; }
template <class X, std::size_t C, std::size_t R> void load(dsga::basic_matrix<X, C, R> &m, const Mat &a) { X *p = reinterpret_cast<X *>(&m); for (std::size_t i = 0; i < C * R; ++i) p[i] = (X)a.v[i]; }
template <class X, std::size_t C, std::size_t R> Mat save(const dsga::basic_matrix<X, C, R> &m) { Mat a; a.c = C; a.r = R; const X *p = reinterpret_cast<const X *>(&m); for (std::size_t i = 0; i < C * R; ++i) a.v[i] = p[i]; return a; }

// basis matrices, dense integer matrices, all matrices over a small alphabet where that is small
static std::vector<Mat> ints(int c, int r)
{
	std::vector<Mat> v; const int n = c * r; static const int primes[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53 };
	for (int e = 0; e < n; ++e) for (int s : { 1, -3 }) { Mat m; m.c = c; m.r = r; m.v[e] = s; v.push_back(m); }
	for (int k = 0; k < 5; ++k) { Mat m; m.c = c; m.r = r; for (int e = 0; e < n; ++e) m.v[e] = k == 4 ? 0 : (k & 1 ? -1 : 1) * (e % 3 == k ? -1 : 1) * primes[(e * (2 * k + 1) + k) % 16]; v.push_back(m); }
	for (int e = 0; e < n; ++e) for (int f = e + 1; f < n; ++f) if (thorough || (e + f) % 3 == 0) { Mat m; m.c = c; m.r = r; m.v[e] = 1; m.v[f] = 2; v.push_back(m); }
	if (n == 4) for (int q = 0; q < 81; ++q) { Mat m; m.c = c; m.r = r; int z = q; for (int e = 0; e < 4; ++e) { m.v[e] = z % 3 == 2 ? -2 : z % 3; z /= 3; } v.push_back(m); }
	return v;
}
static Mat mul(const Mat &a, const Mat &b) { Mat m; m.c = b.c; m.r = a.r; for (int i = 0; i < m.c; ++i) for (int j = 0; j < m.r; ++j) { ld s = 0; for (int k = 0; k < a.c; ++k) s += a.at(k, j) * b.at(i, k); m.v[i * m.r + j] = s; } return m; }
static Mat add(const Mat &a, const Mat &b) { Mat m = a; for (int e = 0; e < 16; ++e) m.v[e] += b.v[e]; return m; }
static bool same_mat(const Mat &a, const Mat &b) { if (a.c != b.c || a.r != b.r) return false; for (int e = 0; e < a.c * a.r; ++e) if (a.v[e] != b.v[e]) return false; return true; }
static void expect(const std::string &key, const Mat &got, const Mat &want, const std::string &in) { ++C_.transitions; if (!same_mat(got, want)) fail(key, in + " gives " + show(got) + ", expected " + show(want)); }

// ---- component-wise operators --------------------------------------------------------------------------------
template <class A, class B> struct EJob { std::string key; int n; void *pa, *pb; bool sa, sb; using CT = std::common_type_t<A, B>; void (*run)(CT *); CT (*op)(CT, CT); bool intonly; };
template <class A, class B> __attribute__((noinline)) void elementwise(const EJob<A, B> &j)
{
	using CT = std::common_type_t<A, B>;
	auto va = [] { auto v = alphabet<A>(); if constexpr (std::is_floating_point_v<A>) { v.push_back(A(0.1)); v.push_back(A(1) / 3); v.push_back(-std::numeric_limits<A>::infinity()); } return v; }();
	auto vb = [] { auto v = alphabet<B>(); if constexpr (std::is_floating_point_v<B>) { v.push_back(B(0.7)); v.push_back(B(-1) / 3); v.push_back(-std::numeric_limits<B>::infinity()); } return v; }();
	A *a = (A *)j.pa; B *b = (B *)j.pb; const int la = va.size(), lb = vb.size(); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (int i = 0; i < la; ++i) for (int k = 0; k < lb; ++k)
	{
		A ia[16]; B ib[16]; for (int e = 0; e < j.n; ++e) { ia[e] = va[(i + (j.sa ? 0 : e * 5)) % la]; ib[e] = vb[(k + (j.sb ? 0 : e * 7)) % lb]; }
		for (int e = 0; e < (j.sa ? 1 : j.n); ++e) a[e] = ia[e]; for (int e = 0; e < (j.sb ? 1 : j.n); ++e) b[e] = ib[e];
		CT out[16]; j.run(out); ++C_.states; ++C_.traces; C_.transitions += j.n;
		for (int e = 0; e < j.n; ++e) { CT w = j.op((CT)ia[e], (CT)ib[e]); if (!same(out[e], w)) fail(j.key, strf("element %d: %s and %s give %s, expected %s", e, str(ia[e]).c_str(), str(ib[e]).c_str(), str(out[e]).c_str(), str(w).c_str())); }
		bool ok = true; for (int e = 0; e < (j.sa ? 1 : j.n); ++e) ok &= same_bits(a[e], ia[e]); for (int e = 0; e < (j.sb ? 1 : j.n); ++e) ok &= same_bits(b[e], ib[e]); if (!ok) fail(j.key, "an operand changed");
	}
}
struct Plus { static constexpr const char *n = "+"; template <class A, class B> static auto f(const A &a, const B &b) { return a + b; } };
struct Minus { static constexpr const char *n = "-"; template <class A, class B> static auto f(const A &a, const B &b) { return a - b; } };
struct Times { static constexpr const char *n = "*"; template <class A, class B> static auto f(const A &a, const B &b) { return a * b; } };
struct Over { static constexpr const char *n = "/"; template <class A, class B> static auto f(const A &a, const B &b) { return a / b; } };
struct CompMult { static constexpr const char *n = "matrixCompMult"; template <class A, class B> static auto f(const A &a, const B &b) { if constexpr (std::is_arithmetic_v<A>) return a * b; else return dsga::matrixCompMult(a, b); } };
template <class X, int C, int R, int P> M<X, C, R> &mat() { static M<X, C, R> m; return m; }
template <class X, int P> X &sca() { static X x; return x; }
template <class Res, class CT, int C, int R> void out_mat(const Res &r, CT *o) { static_assert(std::is_same_v<Res, M<CT, C, R>>, "type of the result"); for (int i = 0; i < C; ++i) for (int k = 0; k < R; ++k) o[i * R + k] = r.columns[i][k]; }
template <class Op, int C, int R> void mm() { using CT = std::common_type_t<T, U>;
	elementwise<T, U>({ strf("mat%dx%d %s mat %s %s", C, R, Op::n, tname<T>(), tname<U>()), C * R, &mat<T, C, R, 0>(), &mat<U, C, R, 1>(), false, false, [](CT *o) { out_mat<std::remove_cvref_t<decltype(Op::f(mat<T, C, R, 0>(), mat<U, C, R, 1>()))>, CT, C, R>(Op::f(mat<T, C, R, 0>(), mat<U, C, R, 1>()), o); }, [](CT a, CT b) { return (CT)Op::f(a, b); }, false }); }
template <class Op, class S, int C, int R> void ms() { using CT = std::common_type_t<T, S>;
	elementwise<T, S>({ strf("mat%dx%d %s scalar %s %s", C, R, Op::n, tname<T>(), tname<S>()), C * R, &mat<T, C, R, 0>(), &sca<S, 1>(), false, true, [](CT *o) { out_mat<std::remove_cvref_t<decltype(Op::f(mat<T, C, R, 0>(), sca<S, 1>()))>, CT, C, R>(Op::f(mat<T, C, R, 0>(), sca<S, 1>()), o); }, [](CT a, CT b) { return (CT)Op::f(a, b); }, false });
	elementwise<S, T>({ strf("scalar %s mat%dx%d %s %s", Op::n, C, R, tname<S>(), tname<T>()), C * R, &sca<S, 0>(), &mat<T, C, R, 1>(), true, false, [](CT *o) { out_mat<std::remove_cvref_t<decltype(Op::f(sca<S, 0>(), mat<T, C, R, 1>()))>, CT, C, R>(Op::f(sca<S, 0>(), mat<T, C, R, 1>()), o); }, [](CT a, CT b) { return (CT)Op::f(a, b); }, false }); }
template <int C, int R> void unary()
{
	auto &a = mat<T, C, R, 0>(); auto v = alphabet<T>(); T *p = reinterpret_cast<T *>(&a); const int n = C * R;
	auto key = [&](const char *o) { return strf("%s mat%dx%d %s", o, C, R, tname<T>()); };
	auto all = [&](const char *o, const M<T, C, R> &m, const T *in, auto f) { ++C_.states; ++C_.traces; C_.transitions += n; for (int i = 0; i < C; ++i) for (int k = 0; k < R; ++k) if (!same(m.columns[i][k], T(f(in[i * R + k])))) fail(key(o), strf("element %d: %s of %s", i * R + k, str(m.columns[i][k]).c_str(), str(in[i * R + k]).c_str())); };
	for (std::size_t i = 0; i < v.size(); ++i)
	{
		T in[16], now[16]; auto put = [&] { for (int e = 0; e < n; ++e) p[e] = in[e] = v[(i + e * 4) % v.size()]; }; auto save_ = [&] { memcpy(now, p, sizeof(T) * n); };
		put(); all("unary +", +a, in, [](T x) { return x; }); all("unary -", -a, in, [](T x) { return -x; }); all("operand of unary", a, in, [](T x) { return x; });
		put(); { auto &r = ++a; if (&r != &a) fail(key("++m"), "does not return the object"); all("++m", a, in, [](T x) { return x + 1; }); }
		put(); { auto &r = --a; if (&r != &a) fail(key("--m"), "does not return the object"); all("--m", a, in, [](T x) { return x - 1; }); }
		put(); { auto r = a++; static_assert(std::is_same_v<decltype(r), M<T, C, R>>); all("m++ result", r, in, [](T x) { return x; }); all("m++", a, in, [](T x) { return x + 1; }); }
		put(); { auto r = a--; all("m-- result", r, in, [](T x) { return x; }); all("m--", a, in, [](T x) { return x - 1; }); }
		put(); ++ ++a; all("++ ++m", a, in, [](T x) { return x + 1 + 1; });
	}
}
// ---- products -------------------------------------------------------------------------------------------------
struct PJob { std::string key; int c1, r1, c2; void (*la)(const Mat &), (*lb)(const Mat &); Mat (*run)(); Mat (*sa)(), (*sb)(); };
__attribute__((noinline)) void product_(const PJob &j)
{
	const auto A = ints(j.c1, j.r1), B = ints(j.c2, j.c1); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (auto &a : A) { j.la(a); for (auto &b : B) { j.lb(b); Mat g = j.run(); ++C_.states; ++C_.traces; expect(j.key, g, mul(a, b), show(a) + " * " + show(b)); if (!same_mat(j.sa(), a) || !same_mat(j.sb(), b)) fail(j.key, "an operand changed"); } }
}
template <int C1, int R1, int C2> void product()
{
	using A = M<T, C1, R1>; using B = M<U, C2, C1>; static A a; static B b; using Res = decltype(a * b); static_assert(std::is_same_v<Res, M<std::common_type_t<T, U>, C2, R1>>, "type of the product");
	product_({ strf("mat%dx%d * mat%dx%d %s %s", C1, R1, C2, C1, tname<T>(), tname<U>()), C1, R1, C2, [](const Mat &m) { load(a, m); }, [](const Mat &m) { load(b, m); }, [] { return save(a * b); }, [] { return save(a); }, [] { return save(b); } });
	// fractional entries: within the rounding error of the terms
	for (int k = 0; k < 40; ++k)
	{
		Mat x, y; x.c = C1; x.r = R1; y.c = C2; y.r = C1; for (int e = 0; e < 16; ++e) { x.v[e] = (ld)(T)(((e * 7 + k * 13) % 29 - 14) * 0.37L); y.v[e] = (ld)(U)(((e * 11 + k * 5) % 31 - 15) * (k % 2 ? 1.3e3L : 0.0071L)); }
		load(a, x); load(b, y); Mat g = save(a * b), w = mul(x, y), xa = x, ya = y; for (auto &q : xa.v) q = std::abs(q); for (auto &q : ya.v) q = std::abs(q); Mat mag = mul(xa, ya);
		++C_.states; ++C_.traces; for (int e = 0; e < C2 * R1; ++e) { ++C_.transitions; if (!(std::abs(g.v[e] - w.v[e]) <= 6 * (ld)std::numeric_limits<std::common_type_t<T, U>>::epsilon() * mag.v[e])) fail(strf("mat%dx%d * mat%dx%d %s %s fractions", C1, R1, C2, C1, tname<T>(), tname<U>()), show(x) + " * " + show(y) + " gives " + show(g)); }
	}
	if constexpr (std::is_same_v<T, U>)
	{
		// the laws, exact on integers
		const auto X = ints(C1, R1), Y = ints(C2, C1);
		for (std::size_t i = 0; i < X.size(); i += 3) for (std::size_t k = 0; k < Y.size(); k += 2)
		{
			A p, p2; B q, q2; load(p, X[i]); load(q, Y[k]); load(p2, X[(i * 7 + 5) % X.size()]); load(q2, Y[(k * 5 + 3) % Y.size()]);
			auto law = [&](const char *n, const auto &l, const auto &r) { ++C_.transitions; if (!(l == r)) fail(strf("%s mat%dx%d mat%dx%d", n, C1, R1, C2, C1), show(X[i]) + ", " + show(Y[k])); };
			++C_.states; law("left distributivity", p * (q + q2), p * q + p * q2); law("right distributivity", (p + p2) * q, p * q + p2 * q); law("transpose of a product", dsga::transpose(p * q), dsga::transpose(q) * dsga::transpose(p));
			law("scalar factor", (p * T(3)) * q, T(3) * (p * q)); law("associativity", (p * q) * dsga::transpose(q), p * (q * dsga::transpose(q)));
		}
	}
}
// ---- vector products ---------------------------------------------------------------------------------------------
#ifdef MC_VEC
using V = Ty<MC_VEC>;
struct VJob { std::string key; int c, r; bool left; void (*lm)(const Mat &); Mem<V> mv; void (*run)(ld *); Mat (*sm)(); };
__attribute__((noinline)) void vproduct(const VJob &j)
{
	auto A = ints(j.c, j.r); const int n = j.left ? j.r : j.c, m = j.left ? j.c : j.r; snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	std::vector<std::array<V, 4>> B; for (int e = 0; e < n; ++e) { std::array<V, 4> b{}; b[e] = V(1); B.push_back(b); b[(e + 1) % n] = V(3); B.push_back(b); } B.push_back({ V(5), V(7), V(2), V(9) }); B.push_back({ V(1), V(2), V(3), V(4) });
	if constexpr (std::is_signed_v<V>) { B.push_back({ V(-2), V(3), V(-5), V(4) }); B.push_back({ V(8), V(-1), V(0), V(-6) }); }
	if (A.size() > 120) { decltype(A) s; for (std::size_t i = 0; i < A.size(); i += 1 + (i > 40)) s.push_back(A[i]); A = s; }
	for (auto &a : A) { j.lm(a); for (auto &b : B) {
		j.mv.put(b.data()); ld got[4] = {}; j.run(got); ++C_.states; ++C_.traces; C_.transitions += m;
		for (int i = 0; i < m; ++i) { ld w = 0; for (int k = 0; k < n; ++k) w += (j.left ? a.at(i, k) : a.at(k, i)) * (ld)b[k]; if (got[i] != w) fail(j.key, show(a) + strf(": component %d is %Lg, expected %Lg", i, got[i], w)); }
		if (!j.mv.holds(b.data()) || !same_mat(j.sm(), a)) fail(j.key, "an operand changed"); } }
}
template <int C, int R, int K> void vec()
{
	static M<T, C, R> m; using CT = std::common_type_t<T, V>;
	vproduct({ strf("mat%dx%d * %s %s %s", C, R, kname(K), tname<T>(), tname<V>()), C, R, false, [](const Mat &x) { load(m, x); }, lmem<V, C, K, 0>(), [](ld *o) { auto r = m * lget<V, C, K, 0>(); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<CT, R>>); for (int i = 0; i < R; ++i) o[i] = r[i]; }, [] { return save(m); } });
	vproduct({ strf("%s * mat%dx%d %s %s", kname(K), C, R, tname<V>(), tname<T>()), C, R, true, [](const Mat &x) { load(m, x); }, lmem<V, R, K, 1>(), [](ld *o) { auto r = lget<V, R, K, 1>() * m; static_assert(std::is_same_v<decltype(r), dsga::basic_vector<CT, C>>); for (int i = 0; i < C; ++i) o[i] = r[i]; }, [] { return save(m); } });
}
#endif
template <class F> void shapes(F f) { static_for<3>([&]<int C>(std::integral_constant<int, C>) { static_for<3>([&]<int R>(std::integral_constant<int, R>) { f.template operator()<C + 2, R + 2>(); }); }); }
template <class> void go()
{
#ifdef MC_PROD
	shapes([&]<int C, int R>() { static_for<3>([&]<int D>(std::integral_constant<int, D>) { product<C, R, D + 2>(); }); });
	sample("all 27 shapes of products: all pairs of scaled basis matrices, sums of two of them and dense integer matrices (2x2: all over three values); distributivity, associativity, transposition");
#elif defined(MC_VEC)
	shapes([&]<int C, int R>() { static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) { vec<C, R, K>(); }); });
	sample("matrix * vector and vector * matrix for all 9 shapes and 8 kinds of vector");
#else
	shapes([&]<int C, int R>() { mm<Plus, C, R>(); mm<Minus, C, R>(); mm<Over, C, R>(); mm<CompMult, C, R>(); });
	if constexpr (std::is_same_v<T, U>)
	{
		shapes([&]<int C, int R>() { unary<C, R>(); });
		shapes([&]<int C, int R>() { for_types(types<int, unsigned, long long, unsigned long long, float, double>{}, [&](auto s) { using S = typename decltype(s)::type; ms<Plus, S, C, R>(); ms<Minus, S, C, R>(); ms<Times, S, C, R>(); ms<Over, S, C, R>(); }); });
	}
	sample("component-wise operators of all 9 shapes: every pair of boundary values in every element; scalars of 6 types on both sides");
#endif
}
int main(int argc, char **argv) { init(argc, argv); go<void>(); total = C_; return finish(); }
