// P38: the cxcm layer called directly.  -DMC_DD double-double arithmetic, -DMC_RELAXED=5|6 relaxed functions, -DMC_INT integral overloads, constants and fmod (with -DMC_CONTROL_CE also the compile-time algorithms, at run time)
#include "fp.hpp"
#include "oracles.hpp"
using namespace mc;
namespace cx = dsga::cxcm;

#ifdef MC_DD
namespace dr = dsga::cxcm::dd_real;
using Q = __float128;
using DD = dr::dd_real;
static Q q(const DD &d) { return Q(d.x[0]) + Q(d.x[1]); }
static std::string show(const DD &d) { return strf("(%a, %a)", d.x[0], d.x[1]); }
// high parts: mantissas with every interesting split of the 53 bits; low parts: up to half an ulp of the high part
static std::vector<DD> grid(int step)
{
	const u64 frac[] = { 0, 1, 0xFFFFFFFFFFFFF, 0x8000000000000, 0x7FFFFFFFFFFFF, 0x0000004000000, 0x0000003FFFFFF, 0x0000008000000, 0x5555555555555, 0xAAAAAAAAAAAAB, 0x921FB54442D18, 0x000000C000001, 0xFFFFFFC000000, 0xFFFFFF8000001 };
	std::vector<DD> g;
	for (int s = 0; s < 2; ++s) for (int e = -42; e <= 42; e += step) for (u64 f : frac)
	{
		const double hi = std::bit_cast<double>(u64(s) << 63 | u64(1023 + e) << 52 | f), u = std::ldexp(1.0, e - 52);
		for (double lo : { 0.0, 0.5 * u * (1 - 0x1p-53), -0.25 * u * 0x1.5555555555555p0, 0x1.921fb54442d18p-1 * 0.5 * u, -0x1p-30 * u * 0x1.8000001p0 }) if (hi + lo == hi) g.push_back(DD(hi, lo));
	}
	return g;
}
static constexpr double tolerance = 0x1p-98;
template <class A, class B> static std::string args(const A &a, const B &b)
{
	auto one = [](const auto &x) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, DD>) return show(x); else return strf("%a", x); };
	return one(a) + " and " + one(b);
}
template <class A, class B> static void judge(const char *what, const DD &r, Q want, const A &a, const B &b)
{
	// normalised: the low part does not change the high part
	if (r.x[0] + r.x[1] != r.x[0]) fail(std::string(what) + " is normalised", args(a, b) + ": " + show(r));
	Q err = q(r) - want; if (err < 0) err = -err; Q mag = want < 0 ? -want : want;
	if (!(err <= mag * tolerance)) fail(what, args(a, b) + strf(": %s, error %g relative", show(r).c_str(), mag == 0 ? double(err) : double(err / mag)));
}
static void eft(const std::vector<double> &v, Counters &c)
{
	for (double a : v) for (double b : v)
	{
		++c.states; ++c.traces; double e; const Q sum = Q(a) + Q(b), prod = Q(a) * Q(b);
		double s = dr::two_sum(a, b, e); ++c.transitions; if (s != a + b || Q(s) + Q(e) != sum) fail("two_sum", strf("%a + %a = %a error %a", a, b, s, e));
		if (std::abs(a) >= std::abs(b)) { s = dr::quick_two_sum(a, b, e); ++c.transitions; if (s != a + b || Q(s) + Q(e) != sum) fail("quick_two_sum", strf("%a + %a = %a error %a", a, b, s, e)); }
		s = dr::two_prod(a, b, e); ++c.transitions; if (s != a * b || Q(s) + Q(e) != prod) fail("two_prod", strf("%a * %a = %a error %a", a, b, s, e));
	}
	for (double a : v)
	{
		double h, l; dr::split(a, h, l); ++c.transitions; ++c.states; ++c.traces;
		auto bits = [](double x) { if (x == 0) return 0; int e; double m = std::frexp(x, &e); u64 n = (u64)std::abs(std::ldexp(m, 53)); return 53 - std::countr_zero(n); };
		if (h + l != a || bits(h) > 26 || bits(l) > 26) fail("split", strf("%a = %a + %a", a, h, l));
	}
}
// the same table computed by the compiler and by the program
static constexpr double ct_values[] = { 1.0, -3.0, 0x1.5555555555555p+4, 0x1.fffffffffffffp-7, -0x1.0000001p+20, 0x1.921fb54442d18p+1 };
struct Table { double v[36][24]; };
static constexpr Table table()
{
	Table t{}; int k = 0;
	for (double a : ct_values) for (double b : ct_values)
	{
		int j = 0; auto put = [&](const DD &d) { t.v[k][j++] = d.x[0]; t.v[k][j++] = d.x[1]; };
		DD x(a, a * 0x1p-60), y(b, b * -0x1p-57); DD m = x; m *= y; DD s = x; s -= y;
		put(x + y); put(x - y); put(x * y); put(x / y); put(m); put(s); put(x + b); put(a - y); put(x * b); put(a * y); put(a / y); ++k;
	}
	return t;
}
static void run()
{
	const auto g = grid(thorough ? 3 : 14); std::vector<double> hi; for (auto &d : g) if (d.x[1] == 0) hi.push_back(d.x[0]);
	parallel(g.size(), [&](Counters &c, u64 lo_, u64 hi_) {
		for (u64 i = lo_; i < hi_; ++i)
		{
			const DD &a = g[i]; ctx.what = "double-double arithmetic";
			for (const DD &b : g)
			{
				const Q x = q(a), y = q(b); c.states += 1; c.traces += 1; c.transitions += 6;
				judge("dd + dd", a + b, (Q(a.x[0]) + Q(b.x[0])) + (Q(a.x[1]) + Q(b.x[1])), a, b); judge("dd - dd", a - b, (Q(a.x[0]) - Q(b.x[0])) + (Q(a.x[1]) - Q(b.x[1])), a, b); judge("dd * dd", a * b, x * y, a, b); judge("dd / dd", a / b, x / y, a, b);
				DD t = a; t *= b; judge("dd *= dd", t, x * y, a, b); t = a; DD &ref = (t -= b); judge("dd -= dd", t, (Q(a.x[0]) - Q(b.x[0])) + (Q(a.x[1]) - Q(b.x[1])), a, b); if (&ref != &t) fail("dd -= dd", "does not return its left operand");
			}
			for (double b : hi)
			{
				const Q x = q(a), y = b; c.states += 1; c.traces += 1; c.transitions += 5;
				judge("dd + double", a + b, (Q(a.x[0]) + y) + Q(a.x[1]), a, b); judge("double - dd", b - a, (y - Q(a.x[0])) - Q(a.x[1]), b, a); judge("dd * double", a * b, x * y, a, b); judge("double * dd", b * a, x * y, b, a); judge("double / dd", b / a, y / x, b, a);
			}
			DD t = a; t *= t; judge("dd *= itself", t, q(a) * q(a), a, a); t = a; t -= t; if (q(t) != 0) fail("dd -= itself", show(a)); judge("dd / itself", a / a, Q(1), a, a);
			DD u(3.0, 1.0); u = a; const DD v(u), w(a.x[0]); if (q(v) != q(a) || w.x[0] != a.x[0] || w.x[1] != 0 || double(a) != a.x[0] || float(a) != float(a.x[0]) || a[0] != a.x[0] || a[1] != a.x[1]) fail("dd copies and conversions", show(a));
			u[0] = 7; u[1] = 5; if (u.x[0] != 7 || u.x[1] != 5 || DD().x[0] != 0 || DD().x[1] != 0) fail("dd elements", show(u)); c.transitions += 5;
		}
	});
	Counters c; eft(hi, c); static constexpr Table compiled = table(); volatile bool no = false; Table now; if (!no) now = table();
	for (int i = 0; i < 36; ++i) for (int j = 0; j < 22; ++j) { ++c.transitions; if (!same_bits(compiled.v[i][j], now.v[i][j])) fail("double-double at compile time", strf("pair %d operation %d: %a, at run time %a", i, j, compiled.v[i][j], now.v[i][j])); }
	total.states += c.states; total.transitions += c.transitions; total.traces += c.traces;
	sample(strf("%zu double-double numbers: all pairs under + - * / *= -=, with doubles on either side; error-free sum and product of all %zu x %zu doubles", g.size(), hi.size(), hi.size()));
}
#endif

#ifdef MC_RELAXED
using T = std::conditional_t<MC_RELAXED == 5, float, double>;
static void run()
{
	static DoubleLattice L(thorough ? 12 : 6);
	const u64 n = sizeof(T) == 4 ? (thorough ? 1ull << 32 : 1ull << 26) : L.size(); const T top = sizeof(T) == 4 ? T(0x1p31) : T(0x1p63);
	parallel(n, [&](Counters &c, u64 lo, u64 hi) {
		ctx.what = "relaxed functions";
		for (u64 i = lo; i < hi; ++i)
		{
			T x; if constexpr (sizeof(T) == 8) x = L.at(i); else if (thorough) x = f32((u32)i); else { u32 l = u32(i & 63), pre = u32(i >> 6); l = l < 16 ? l : l < 32 ? 4095 - (l - 16) : l < 48 ? 2048 - 8 + (l - 32) : u32((l - 48) * 0x9e3779b1u >> 20); x = f32(pre << 12 | l); }
			using U = typename fpbits<T>::U; ++c.states; ++c.traces;
			const bool nz = std::bit_cast<U>(x) == U(1) << (sizeof(T) * 8 - 1); ++c.transitions; if (cx::is_negative_zero(x) != nz) fail(strf("is_negative_zero/%s", tname<T>()), str(x));
			if (!(x == x) || std::abs(x) >= top) continue;
			auto is = [&](const char *f, T got, T want) { ++c.transitions; if (!(got == want)) fail(strf("relaxed::%s/%s", f, tname<T>()), strf("%s(%s) = %s, expected %s", f, str(x).c_str(), str(got).c_str(), str(want).c_str())); };
			is("abs", cx::relaxed::abs(x), std::bit_cast<T>(U(std::bit_cast<U>(x) << 1 >> 1))); is("fabs", cx::relaxed::fabs(x), std::bit_cast<T>(U(std::bit_cast<U>(x) << 1 >> 1)));
			is("trunc", cx::relaxed::trunc(x), oracle_round(x, Rnd::trunc)); is("floor", cx::relaxed::floor(x), oracle_round(x, Rnd::floor)); is("ceil", cx::relaxed::ceil(x), oracle_round(x, Rnd::ceil)); is("round", cx::relaxed::round(x), oracle_round(x, Rnd::away)); is("round_even", cx::relaxed::round_even(x), oracle_round(x, Rnd::even)); is("fract", cx::relaxed::fract(x), oracle_fract(x));
			if (x >= std::numeric_limits<T>::min())
			{
				c.transitions += 3; T s = cx::relaxed::sqrt(x), r = cx::relaxed::rsqrt(x), q = cx::relaxed::fast_rsqrt(x);
				if (!sqrt_exact(x, s)) fail(strf("relaxed::sqrt/%s", tname<T>()), str(x) + ": " + str(s)); if (!rsqrt_ok(r, x)) fail(strf("relaxed::rsqrt/%s", tname<T>()), str(x) + ": " + str(r)); if (!rsqrt_ok(q, x)) fail(strf("relaxed::fast_rsqrt/%s", tname<T>()), str(x) + ": " + str(q));
			}
		}
	});
	sample(strf("relaxed functions of %s over %llu values", tname<T>(), (unsigned long long)n));
}
#endif

#ifdef MC_INT
static Counters C_;
template <class I> static void integral(const char *name_)
{
	using L = std::numeric_limits<I>; std::vector<I> v;
	if constexpr (sizeof(I) <= 2) for (long x = L::min(); x <= L::max(); ++x) v.push_back(I(x));
	else for (int b = 0; b < L::digits; ++b) for (int d = -2; d <= 2; ++d) { I p = I(I(1) << b); v.push_back(I(p + I(d))); v.push_back(I(I(0) - p + I(d))); v.push_back(I(L::max() - p)); v.push_back(L::max()); }
	for (I x : v)
	{
		++C_.states; ++C_.traces; auto is = [&](const char *f, auto got, double want) { ++C_.transitions; if (!std::is_same_v<decltype(got), double> || !same_bits(double(got), want)) fail(strf("%s(%s)", f, name_), strf("%s: %g instead of %g", std::to_string(x).c_str(), double(got), want)); };
		const double w = static_cast<double>(x); is("trunc", cx::trunc(x), w); is("floor", cx::floor(x), w); is("ceil", cx::ceil(x), w); is("round", cx::round(x), w); is("round_even", cx::round_even(x), w); is("fract", cx::fract(x), 0.0);
		if (x == L::min() && L::is_signed) continue;
		const I a = x < 0 ? I(I(0) - x) : x; C_.transitions += 2; if (!std::is_same_v<decltype(cx::abs(x)), I> || cx::abs(x) != a || cx::relaxed::abs(x) != a) fail(strf("abs(%s)", name_), std::to_string(x));
		is("fabs", cx::fabs(x), static_cast<double>(a)); is("relaxed::fabs", cx::relaxed::fabs(x), static_cast<double>(a));
	}
}
template <class T> static void constants()
{
	C_.transitions += 4; const T m = cx::limits::largest_fractional_value<T>, up = std::nextafter(m, std::numeric_limits<T>::infinity());
	if (m == std::trunc(m) || up != std::trunc(up) || m - std::trunc(m) != T(0.5)) fail(strf("largest_fractional_value/%s", tname<T>()), str(m));
	if (!std::signbit(cx::negative_zero<T>) || cx::negative_zero<T> != 0 || !cx::is_negative_zero(cx::negative_zero<T>) || cx::is_negative_zero(T(0))) fail(strf("negative_zero/%s", tname<T>()), str(cx::negative_zero<T>));
}
// fmod is exact: every pair over the alphabet and every pair of exponents (multiplication oracle: std::fmod is exact too)
template <class T> static void fmods()
{
	std::vector<T> v = alphabet<T>(); const int E = std::numeric_limits<T>::max_exponent, M = std::numeric_limits<T>::digits;
	for (int e = 1 - E - M + 3; e < E; e += sizeof(T) == 4 ? 11 : 97) for (T m : { T(1), T(1.5), T(0x1.234568p0), std::nextafter(T(2), T(0)) }) { v.push_back(std::ldexp(m, e)); v.push_back(-std::ldexp(m, e)); }
	v.push_back(std::numeric_limits<T>::denorm_min()); v.push_back(-std::numeric_limits<T>::infinity());
	for (T x : v) for (T y : v) { ++C_.states; ++C_.traces; ++C_.transitions; T r = cx::fmod(x, y), w = std::fmod(x, y); if (!(same_bits(r, w) || (r != r && w != w))) fail(strf("fmod/%s", tname<T>()), strf("fmod(%s, %s) = %s, expected %s", str(x).c_str(), str(y).c_str(), str(r).c_str(), str(w).c_str())); }
}
static void once()
{
	integral<signed char>("signed char"); integral<unsigned char>("unsigned char"); integral<short>("short"); integral<unsigned short>("unsigned short"); integral<int>("int"); integral<unsigned>("unsigned"); integral<long>("long"); integral<unsigned long>("unsigned long"); integral<long long>("long long"); integral<unsigned long long>("unsigned long long");
	constants<float>(); constants<double>(); fmods<float>(); fmods<double>();
}
static void run()
{
	once();
#ifdef MC_CONTROL_CE
	std::mc_force_ce = true; once(); std::mc_force_ce = false;
#endif
	total = C_;
	sample("integral overloads of all rounding functions and abs over ten integer types; constants; fmod over all pairs of exponents");
}
#endif
int main(int argc, char **argv) { init(argc, argv); run(); return finish(); }
