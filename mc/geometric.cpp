// P21: geometric functions.  -DMC_T=0..6 (integers: innerProduct only) [-DMC_U=..: second component type] [-DMC_DEEP: plain vectors, all small-integer pairs]
#include "lift.hpp"
using namespace mc;
using ld = long double;
template <int I> using Ty = std::tuple_element_t<I, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double>>;
using T = Ty<MC_T>;
#ifdef MC_U
using U = Ty<MC_U>;
#else
using U = T;
#endif
using R = decltype(T{} * U{});
constexpr bool FP = std::is_floating_point_v<T> && std::is_floating_point_v<U>;

// ---- reference: value and the sum of magnitudes that bounds its rounding error (0: exact for integers) ----
struct Ref { ld v[4] = {}; ld mag[4] = {}; bool skip = false; };
using A4 = std::array<ld, 4>;
static ld dot_(int n, const A4 &a, const A4 &b, ld *mag = nullptr) { ld s = 0, m = 0; for (int i = 0; i < n; ++i) { s += a[i] * b[i]; m += std::abs(a[i] * b[i]); } if (mag) *mag = m; return s; }
static bool ints(int n, const A4 &a) { for (int i = 0; i < n; ++i) if (a[i] != std::floor(a[i]) || std::abs(a[i]) > 64) return false; return true; }
static Ref r_dot(int n, const A4 &a, const A4 &b, const A4 &, ld) { Ref r; r.v[0] = dot_(n, a, b, &r.mag[0]); return r; }
static Ref r_cross(int, const A4 &a, const A4 &b, const A4 &, ld) { Ref r; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; r.v[i] = a[j] * b[k] - a[k] * b[j]; r.mag[i] = std::abs(a[j] * b[k]) + std::abs(a[k] * b[j]); } return r; }
static Ref r_length(int n, const A4 &a, const A4 &, const A4 &, ld) { Ref r; r.v[0] = std::sqrt(dot_(n, a, a)); r.mag[0] = r.v[0]; return r; }
static Ref r_distance(int n, const A4 &a, const A4 &b, const A4 &, ld) { A4 d{}; ld m = 0; for (int i = 0; i < n; ++i) { d[i] = a[i] - b[i]; m += std::abs(a[i]) + std::abs(b[i]); } Ref r; r.v[0] = std::sqrt(dot_(n, d, d)); r.mag[0] = m; return r; }
static Ref r_normalize(int n, const A4 &a, const A4 &, const A4 &, ld) { Ref r; ld l = std::sqrt(dot_(n, a, a)); for (int i = 0; i < n; ++i) { r.v[i] = a[i] / l; r.mag[i] = 1; } return r; }
static Ref r_faceforward(int n, const A4 &a, const A4 &b, const A4 &c, ld) { Ref r; ld m, d = dot_(n, b, c, &m); if (!(ints(n, b) && ints(n, c)) && std::abs(d) < 1e-4L * m) r.skip = true; for (int i = 0; i < n; ++i) { r.v[i] = d < 0 ? a[i] : -a[i]; r.mag[i] = 0; } return r; }
static Ref r_reflect(int n, const A4 &a, const A4 &b, const A4 &, ld) { Ref r; ld m, d = dot_(n, a, b, &m); for (int i = 0; i < n; ++i) { r.v[i] = a[i] - 2 * d * b[i]; r.mag[i] = std::abs(a[i]) + 2 * m * std::abs(b[i]); } return r; }
static Ref r_refract(int n, const A4 &a, const A4 &b, const A4 &, ld eta)
{
	Ref r; ld m, d = dot_(n, a, b, &m), k = 1 - eta * eta * (1 - d * d), km = 1 + eta * eta * (1 + m * m); bool exact = ints(n, a) && ints(n, b) && eta == std::floor(eta);
	if (!exact && std::abs(k) < 1e-3L * km) { r.skip = true; return r; }
	if (k < 0) return r;
	for (int i = 0; i < n; ++i) { r.v[i] = eta * a[i] - (eta * d + std::sqrt(k)) * b[i]; r.mag[i] = std::abs(eta * a[i]) + (std::abs(eta) * m + std::sqrt(k) + (k > 0 ? km / std::sqrt(k) : 0)) * std::abs(b[i]); }
	return r;
}
using RefFn = Ref (*)(int, const A4 &, const A4 &, const A4 &, ld);
enum { ALWAYS_EXACT = 1, EXACT_ON_INTS = 2, SKIP_ZERO = 4 };

struct Inputs { std::vector<A4> v; };
static std::vector<A4> words(int n, const std::vector<ld> &al) { std::vector<A4> r; u64 m = 1; for (int i = 0; i < n; ++i) m *= al.size(); for (u64 c = 0; c < m; ++c) { A4 a{}; u64 q = c; for (int i = 0; i < n; ++i) { a[i] = al[q % al.size()]; q /= al.size(); } r.push_back(a); } return r; }
static std::vector<A4> fractions(int n)
{
	static const ld f[][4] = { { 0.3L, -1.7L, 2.9L, 0.45L }, { 1e-3L, 12.5L, -0.77L, 3.1L }, { -5.25L, 0.1L, 0.2L, -0.3L }, { 0.6L, 0.8L, 0, 0 }, { -0.48L, 0.6L, 0.64L, 0 }, { 100.7L, -99.3L, 1e4L, 7.7L }, { 1e9L, 1.1e9L, -1.2e9L, 1.3e9L }, { 1e-9L, -1.1e-9L, 1.2e-9L, 1.3e-9L }, { 0, -1, 0, 0 } };
	std::vector<A4> r; for (auto &x : f) { A4 a{}; for (int i = 0; i < n; ++i) a[i] = x[i]; r.push_back(a); } return r;
}
// large or fractional values whose products and sums are exact in the result type (modulo 2^n if that is unsigned), one vector per rotation
template <class X> static std::vector<A4> wide()
{
	std::vector<ld> l;
	if constexpr (std::is_floating_point_v<X>) l = { 0.25L, -1.75L, 2.5L, 0.5L };
	else if constexpr (std::is_same_v<X, int>) l = { 20000, -19999, 12345, -7 };
	else if constexpr (std::is_signed_v<X>) l = { 0x40000001, -0x3fffffffLL, 0x12345678, -9 };
	else l = { (ld)std::numeric_limits<X>::max(), (ld)(std::numeric_limits<X>::max() / 2 + 2), (ld)(X(1) << (sizeof(X) * 4)), 5 };
	std::vector<A4> r; for (int k = 0; k < 4; ++k) { A4 a{}; for (int i = 0; i < 4; ++i) a[i] = l[(i + k) % 4]; r.push_back(a); } return r;
}
static ld eps() { return (ld)std::numeric_limits<R>::epsilon(); }   // products and sums are computed in the common type
static Counters C;
// one function on one choice of operand kinds, on all given inputs
struct Job1 { std::string key; int n, nin, outn, flags; RefFn ref; void (*run)(R *, T eta); Mem<T> a; Mem<U> b; Mem<T> c; bool cst = false; };
__attribute__((noinline)) static void check(const Job1 &j, const std::vector<A4> &va, const std::vector<A4> &vb, const std::vector<A4> &vc, const std::vector<ld> &etas)
{
	snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (auto &a : va) for (std::size_t ib = 0; ib < (j.nin >= 2 ? vb.size() : 1); ++ib) for (std::size_t ic = 0; ic < (j.nin >= 3 ? vc.size() : 1); ++ic) for (ld eta : etas)
	{
		const A4 &b = vb[ib], &c = vc[ic];
		T ta[4], tc[4]; U tb[4]; for (int i = 0; i < 4; ++i) { ta[i] = (T)a[i]; tb[i] = (U)b[i]; tc[i] = (T)c[i]; }
		A4 la{}, lb{}, lc{}; for (int i = 0; i < j.n; ++i) { la[i] = ta[i]; lb[i] = tb[i]; lc[i] = tc[i]; }
		bool zero = true; for (int i = 0; i < j.n; ++i) zero &= la[i] == 0;
		Ref w = j.ref(j.n, la, lb, lc, (ld)(T)eta); if (w.skip) continue;
		const bool exact = (j.flags & ALWAYS_EXACT) || ((j.flags & EXACT_ON_INTS) && ints(j.n, la) && ints(j.n, lb) && ints(j.n, lc));
		j.a.put(ta); if (j.nin >= 2) j.b.put(tb); if (j.nin >= 3) j.c.put(tc);
		R got[4] = {}; j.run(got, (T)eta); ++C.states; ++C.traces; C.transitions += j.outn;
		for (int i = 0; i < j.outn; ++i)
		{
			bool ok;
			if constexpr (FP) { if ((j.flags & SKIP_ZERO) && zero) ok = got[i] != got[i]; else ok = exact ? (ld)got[i] == w.v[i] : std::abs((ld)got[i] - w.v[i]) <= 6 * eps() * w.mag[i] + 4 * (ld)std::max<R>(std::numeric_limits<T>::denorm_min(), std::numeric_limits<U>::denorm_min()); }
			else { R x = 0; for (int q = 0; q < j.n; ++q) x = R(x + R(ta[q]) * R(tb[q])); ok = got[i] == x; }
			if (!ok)
			{
				auto vs = [&](const A4 &x) { std::string s = "("; for (int q = 0; q < j.n; ++q) s += strf(q ? ", %.9Lg" : "%.9Lg", x[q]); return s + ")"; };
				fail(j.key, strf("a=%s b=%s c=%s eta=%.9Lg: component %d is %.17Lg, expected %.17Lg", vs(la).c_str(), vs(lb).c_str(), vs(lc).c_str(), eta, i, (ld)got[i], w.v[i]));
			}
		}
		if (!j.a.holds(ta) || (j.nin >= 2 && !j.b.holds(tb)) || (j.nin >= 3 && !j.c.holds(tc))) fail(j.key, "an argument changed");
	}
}
template <int N> const std::vector<A4> &small_words() { static const std::vector<A4> w = words(N, N <= 2 ? std::vector<ld>{ -2, 0, 1, 3 } : N == 3 ? (thorough ? std::vector<ld>{ -2, 0, 1, 3 } : std::vector<ld>{ -2, 1, 3 }) : (thorough ? std::vector<ld>{ -2, 1, 3 } : std::vector<ld>{ -2, 3 })); return w; }
template <int N> const std::vector<A4> &unsigned_words() { static const std::vector<A4> w = words(N, { 0, 1, 3, 7 }); return w; }

template <int N, int K1, int K2> void both()
{
	constexpr int K3 = (K1 + K2) % NKINDS;
	auto kinds = [](const char *f, int n) { return strf("%s(%s, %s) n=%d %s %s", f, kname(K1), kname(K2), n, tname<T>(), tname<U>()); };
	Mem<T> ma = lmem<T, N, K1, 0>(); Mem<U> mb = lmem<U, N, K2, 1>(); Mem<T> mc_ = lmem<T, N, K3, 2>();
	auto go = [&](const char *f, int nin, int outn, int flags, RefFn ref, void (*run)(R *, T), std::vector<ld> etas = { 0 }) {
		Job1 j { kinds(f, N), N, nin, outn, flags, ref, run, ma, mb, mc_ };
		if constexpr (FP)
		{
			static const auto fr = fractions(N); const auto &w = small_words<N>();
			if (nin < 3 || w.size() <= 16) check(j, w, w, w, etas); else { std::vector<A4> few { w[1], w[w.size() / 2], w[w.size() - 2] }; check(j, few, w, w, etas); }
			check(j, fr, fr, nin < 3 ? fr : std::vector<A4>{ fr[0], fr[2], fr[5] }, etas);
		}
		if constexpr (FP) ;
		else if constexpr (std::is_signed_v<T> && std::is_signed_v<U>) check(j, small_words<N>(), small_words<N>(), { A4{} }, etas);
		else check(j, unsigned_words<N>(), unsigned_words<N>(), { A4{} }, etas);
		if constexpr (!FP) check(j, wide<T>(), wide<U>(), { A4{} }, etas);
	};
	#define AA lget<T, N, K1, 0>()
	#define BB lget<U, N, K2, 1>()
	#define CC lget<T, N, K3, 2>()
	go("innerProduct", 2, 1, EXACT_ON_INTS, r_dot, [](R *o, T) { static_assert(std::is_same_v<decltype(dsga::innerProduct(AA, BB)), R>); o[0] = dsga::innerProduct(AA, BB); });
	if constexpr (FP)
	{
		go("dot", 2, 1, EXACT_ON_INTS, r_dot, [](R *o, T) { static_assert(std::is_same_v<decltype(dsga::dot(AA, BB)), R>); o[0] = dsga::dot(AA, std::as_const(BB)); });
		go("distance", 2, 1, 0, r_distance, [](R *o, T) { static_assert(std::is_same_v<decltype(dsga::distance(AA, BB)), R>); o[0] = dsga::distance(std::as_const(AA), BB); });
		if constexpr (N == 3) go("cross", 2, 3, EXACT_ON_INTS, r_cross, [](R *o, T) { auto r = dsga::cross(AA, BB); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<R, 3>>); for (int i = 0; i < 3; ++i) o[i] = r[i]; });
		if constexpr (std::is_same_v<T, U> && N > 1)
		{
			go("faceforward", 3, N, ALWAYS_EXACT, r_faceforward, [](R *o, T) { auto r = dsga::faceforward(AA, BB, CC); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<R, N>>); for (int i = 0; i < N; ++i) o[i] = r[i]; });
			go("reflect", 2, N, EXACT_ON_INTS, r_reflect, [](R *o, T) { auto r = dsga::reflect(AA, BB); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<R, N>>); for (int i = 0; i < N; ++i) o[i] = r[i]; });
			go("refract", 2, N, 0, r_refract, [](R *o, T eta) { auto r = dsga::refract(AA, BB, eta); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<R, N>>); for (int i = 0; i < N; ++i) o[i] = r[i]; }, { 0, 1, 2, 0.25L, 1.5L });
		}
		if constexpr (std::is_same_v<T, U> && K2 == 0)
		{
			go("length", 1, 1, N == 1 ? ALWAYS_EXACT : 0, r_length, [](R *o, T) { o[0] = dsga::length(AA); });
			go("length const", 1, 1, N == 1 ? ALWAYS_EXACT : 0, r_length, [](R *o, T) { o[0] = dsga::length(std::as_const(AA)); });
			if constexpr (N > 1) go("normalize", 1, N, SKIP_ZERO, r_normalize, [](R *o, T) { auto r = dsga::normalize(AA); static_assert(std::is_same_v<decltype(r), dsga::basic_vector<R, N>>); for (int i = 0; i < N; ++i) o[i] = r[i]; });
		}
	}
}
#ifdef MC_DEEP
template <int N> void deep()
{
	static_assert(FP);
	const std::vector<ld> al = thorough ? std::vector<ld>{ -5, -3, -2, -1, 0, 1, 2, 3, 4 } : std::vector<ld>{ -3, -2, -1, 0, 1, 2, 3 };
	const auto w = words(N, al); const u64 n = w.size();
	using V = dsga::basic_vector<T, N>;
	parallel(n * n, [&](Counters &c, u64 lo, u64 hi) { for (u64 q = lo; q < hi; ++q) {
		const A4 &a = w[q % n], &b = w[q / n]; V x, y; for (int i = 0; i < N; ++i) { x[i] = (T)a[i]; y[i] = (T)b[i]; }
		++c.states; ++c.traces;
		auto one = [&](const char *f, bool cond, ld got) { ++c.transitions; if (!cond) { std::string s; for (int i = 0; i < N; ++i) s += strf("%Lg ", a[i]); s += "and "; for (int i = 0; i < N; ++i) s += strf("%Lg ", b[i]); fail(strf("%s deep n=%d %s", f, N, tname<T>()), s + strf(": %.17Lg", got)); } };
		ld d = dot_(N, a, b); one("dot", dsga::dot(x, y) == d, dsga::dot(x, y)); one("innerProduct", dsga::innerProduct(x, y) == d, 0);
		Ref rd = r_distance(N, a, b, a, 0); T gd = dsga::distance(x, y); one("distance", std::abs(gd - rd.v[0]) <= 3 * eps() * rd.v[0], gd); one("distance symmetric", gd == dsga::distance(y, x), gd); one("length of difference", std::abs(dsga::length(x - y) - gd) <= 3 * eps() * gd, gd);
		if constexpr (N > 1)
		{
			Ref rr = r_reflect(N, a, b, a, 0); auto g = dsga::reflect(x, y); for (int i = 0; i < N; ++i) one("reflect", g[i] == rr.v[i], g[i]);
			Ref rf = r_faceforward(N, a, a, b, 0); auto h = dsga::faceforward(x, x, y); for (int i = 0; i < N; ++i) one("faceforward", h[i] == rf.v[i], h[i]);
			bool za = dot_(N, a, a) == 0, zb = dot_(N, b, b) == 0;
			if (!za)
			{
				auto m = dsga::normalize(x); ld l = 0, p = 0; for (int i = 0; i < N; ++i) { l += (ld)m[i] * m[i]; p += (ld)m[i] * a[i]; }
				one("normalize has length one", std::abs(l - 1) <= 8 * eps(), l); one("normalize keeps the direction", std::abs(p - std::sqrt(dot_(N, a, a))) <= 8 * eps() * p, p);
				if (!zb) for (T eta : { T(0.5), T(0.9), T(1.4), T(3) })
				{
					auto nn = dsga::normalize(y); auto g2 = dsga::refract(m, nn, eta); A4 mm{}, ny{}; for (int i = 0; i < N; ++i) { mm[i] = m[i]; ny[i] = nn[i]; }
					Ref r = r_refract(N, mm, ny, a, eta); if (r.skip) continue; for (int i = 0; i < N; ++i) one("refract", std::abs(g2[i] - r.v[i]) <= 12 * eps() * r.mag[i], g2[i]);
				}
			}
		}
		if constexpr (N == 3)
		{
			Ref rc = r_cross(3, a, b, a, 0); auto g = dsga::cross(x, y); for (int i = 0; i < 3; ++i) one("cross", g[i] == rc.v[i], g[i]);
			one("cross is orthogonal", dsga::dot(g, x) == 0 && dsga::dot(g, y) == 0, 0); auto k = dsga::cross(y, x); for (int i = 0; i < 3; ++i) one("cross is antisymmetric", k[i] == -g[i], g[i]);
		}
	} });
	// scales from tiny to huge (the squares stay in range)
	const int E = std::is_same_v<T, float> ? 55 : 480;
	parallel(n * (2 * E + 1), [&](Counters &c, u64 lo, u64 hi) { for (u64 q = lo; q < hi; ++q) {
		const A4 &a = w[q % n]; int e = int(q / n) - E; V x; ld s = std::ldexp(1.0L, e); for (int i = 0; i < N; ++i) x[i] = (T)(a[i] * s); ld l = std::sqrt(dot_(N, a, a)) * s; T g = dsga::length(x); ++c.states; ++c.traces; ++c.transitions;
		if (!(std::abs(g - l) <= 3 * eps() * l)) fail(strf("length scaled n=%d %s", N, tname<T>()), strf("scale 2^%d: %.17g expected %.17Lg", e, (double)g, l));
		if constexpr (N > 1) if (l != 0) { auto m = dsga::normalize(x); for (int i = 0; i < N; ++i) if (!(std::abs(m[i] - a[i] * s / l) <= 4 * eps())) fail(strf("normalize scaled n=%d %s", N, tname<T>()), strf("scale 2^%d", e)); } } });
}
#endif
template <class T> void all()
{
#ifdef MC_DEEP
	deep<1>(); deep<2>(); deep<3>(); deep<4>();
	auto v = fp_specials<T>(false); for (T x : v) for (T y : v)
	{
		++C.states; ++C.traces; C.transitions += 2;
		if (!same(dsga::length(x), std::abs(x))) fail("length scalar", str(x)); if (!same(dsga::distance(x, y), std::abs(x - y))) fail("distance scalar", str(x) + " " + str(y));
		if (!same(dsga::length(dsga::basic_vector<T, 1>(x)), std::abs(x))) fail("length vec1", str(x));
	}
	sample("plain vectors: all pairs over small integers, lengths 1-4; lengths at every power-of-two scale; refraction over all pairs of normalized directions");
#else
	static_for<4>([&]<int N>(std::integral_constant<int, N>) { static_for<NKINDS>([&]<int K1>(std::integral_constant<int, K1>) { static_for<NKINDS>([&]<int K2>(std::integral_constant<int, K2>) { both<N + 1, K1, K2>(); }); }); });
	sample(strf("%s, %s: all pairs of operand kinds, lengths 1-4, all small-integer and a set of fractional vectors", tname<::T>(), tname<::U>()));
#endif
}
int main(int argc, char **argv)
{
	init(argc, argv);
	all<T>();
	total.states += C.states; total.transitions += C.transitions; total.traces += C.traces;
	return finish();
}
