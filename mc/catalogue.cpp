// P14: a catalogue of expressions, each evaluated by the compiler in a constant expression and again at run time
// on the same arguments.  -DMC_T=0..7
#include "kinds.hpp"
using namespace mc;
using namespace dsga;
using X = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
template <int N> using V = basic_vector<X, N>;
template <int N> using W = view_vector<X, N>;

// results: numerical values, so both zeros are one value, and so are all NaNs
struct Res
{
	u64 v[160] = {}; int n = 0;
	template <class A> constexpr void one(A x)
	{
		if constexpr (std::is_floating_point_v<A>) v[n++] = x != x ? 0x7ff8000000000000ull : x == 0 ? 0 : std::bit_cast<u64>((double)x);
		else v[n++] = (u64)x;
	}
	template <class A> constexpr Res &operator<<(const A &x)
	{
		if constexpr (std::is_arithmetic_v<A>) one(x);
		else for (const auto &e : x) { if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(e)>>) one(e); else *this << e; }
		return *this;
	}
};
#define ENT(id, ...) struct id { static constexpr const char *name = #id; static constexpr Res run(X a, X b, X c, X d) { \
	[[maybe_unused]] X arr[4] = { c, a, d, b }; [[maybe_unused]] V<4> v(a, b, c, d), w(b, d, a, c); [[maybe_unused]] V<3> t(d, a, b), s(c, b, a); [[maybe_unused]] V<2> p(c, d); \
	[[maybe_unused]] V<1> m(d); [[maybe_unused]] W<4> o(c, d, b, a); [[maybe_unused]] W<3> o3(a, d, c); [[maybe_unused]] basic_view<true, X, 4> z(arr); [[maybe_unused]] basic_view<false, X, 3> k(arr + 1); \
	Res r; __VA_ARGS__; return r; } };

// construction, element access, conversion
ENT(ctors_, r << V<4>(a) << V<4>(p, t) << V<4>(m, b, p) << V<3>(o) << V<3>(z) << V<2>(k) << W<4>(p, z) << W<3>(v) << V<4>(k, z) << V<4>(a, t) << V<4>(s, m))
ENT(converts_, r << V<4>(basic_vector<int, 4>(1, 0, 1, 1)) << basic_vector<double, 4>(v) << basic_vector<float, 3>(o3) << basic_vector<bool, 4>(z) << basic_vector<long long, 3>(V<3>(X(1), X(0), X(1))))
ENT(index_, r << v[0] << v[3] << z[1] << o[2] << k[2] << m[0])
ENT(writes_, v[1] = d; z[0] = a; o[3] = b; v.set(d, c, v[1], a); o.set(a, b, a, b); z.set(b, b, c, d); r << v << z << o << arr[0] << arr[3])
#if MC_T == 7
ENT(assigns_, v = w; o = W<4>(d, a, c, c); r << v << o)
ENT(scalar1_, r << m << X(m) << (m == a))
#else
ENT(assigns_, v = w; w = z; z = V<4>(a, a, b, c); o = v; r << v << o; o = z; v = o; p = V<2>(t[0], t[1]); r << v << w << z << o << arr[1] << p)
ENT(scalar1_, m = a; r << m << X(m); W<1> q(b); r << q[0]; V<1> e(p[0]); r << (e == p[0]) << (e == m))
#endif
ENT(sizes_, r << v.length() << z.length() << o.size() << m.size() << sizeof(v) / sizeof(X) << sizeof(t) / sizeof(X))
ENT(iters_, for (auto i = v.rbegin(); i != v.rend(); ++i) r << *i; for (auto i = z.begin() + 1; i < z.end(); i += 2) r << *i; r << (v.end() - v.begin()); for (auto &e : o) r << e; *z.begin() = a; r << arr[0] << *(k.end() - 1))
ENT(swaps_, v.swap(w); o.swap(o); swap(t, s); r << v << w << o << t << s)
ENT(data_, r << v.data()[2] << z.data()[1] << o.data()[0] << k.data()[2])
ENT(views_, basic_view<true, X, 2> q(arr), q2(arr + 2); q.set(q2[1], q2[0]); q.reset(arr + 1); r << q << arr[0] << arr[1]; q.set(p[0], p[1]); q.reset(arr); q.swap(q2); r << arr[0] << arr[1] << arr[2] << arr[3])
ENT(tuples_, r << get<0>(v) << get<3>(v) << get<1>(z) << get<2>(o) << get<0>(k); auto [e, f, g] = t; r << e << f << g)
ENT(arrays_, r << to_array(v) << to_array(z) << to_array(o3); X ca[3] = { a, c, d }; r << to_vector(ca) << to_vector(std::array<X, 2>{ d, b }))
ENT(members_, r << v.apply([](X x) { return X(x == X(1)); }) << v.query([](X x) { return x != X(3); }) << v.shift(1) << v.shift(-2) << z.cshift(1) << o.cshift(-5) << t.cshift(7) << v.shift(0) << v.shift(4) << v.shift(std::numeric_limits<int>::min()))
ENT(equal_, r << (v == w) << (v == v) << (z == o) << (v == z) << (t == s) << (k == t) << (m == d))
ENT(logical_, auto x = notEqual(v, V<4>(a)), y = equal(v, w); r << x << y << compNot(x) << compAnd(x, y) << compOr(x, y) << any(x) << all(x) << none(x) << any(y) << all(equal(z, z)))
ENT(mixbool_, r << mix(v, w, basic_vector<bool, 4>(true, false, false, true)) << mix(z, o, equal(v, w)) << mix(a, b, true) << mix(a, b, false))
#if MC_T != 7
ENT(folds_, r << v.min() << v.max() << z.min() << z.max() << o.max() << v.sum() << z.sum() << t.sum())
ENT(relational_, r << lessThan(v, w) << lessThanEqual(z, o) << greaterThan(o, z) << greaterThanEqual(v, z) << lessThan(k, t) << lessThan(m, V<1>(a)) << lessThan(a, b) << greaterThan(a, b) << lessThanEqual(a, a) << greaterThanEqual(a, b))
ENT(arith_, r << innerProduct(v, z) << innerProduct(k, t) << v + w << v - z << z * o << v / w << v + a << b - z << o * c << d / v << m + t << z / m << +v << -z << m * m)
ENT(compound_, v += w; z -= v; o *= z; w /= V<4>(b); t += a; s -= m; p *= d; z /= b; r << v << z << o << w << t << s << p)
ENT(increments_, r << v++ << ++v << z-- << --z << o++ << ++m << m-- << v << z << o)
ENT(minmax_, r << min(v, w) << max(v, w) << min(z, a) << max(o, b) << min(a, b) << max(a, b) << clamp(v, min(w, z), max(w, z)) << clamp(o, min(a, b), max(a, b)) << clamp(c, min(a, b), max(a, b)))

#endif
#if MC_T < 5
ENT(integer_, r << v % w << (v << V<4>(X(1), X(2), X(0), X(3))) << (w >> V<4>(X(0), X(1), X(2), X(0))) << (v & w) << (z | o) << (v ^ z) << ~v << v % a << d % z << (v << X(1)) << (X(1) << V<3>(X(1), X(2), X(3))) << (w & a) << (b | z) << (a ^ o))
ENT(intcompound_, v %= w; w <<= X(1); z >>= V<4>(X(1), X(0), X(1), X(2)); o &= v; t |= s; s ^= t; p &= a; m |= b; r << v << w << z << o << t << s << p << m << arr[0])
ENT(swapbytes_, r << byteswap(v) << byteswap(z) << byteswap(a) << byteswap(o))
#endif
#if MC_T == 0 || MC_T == 2
ENT(signed_, r << abs(v) << sign(v) << abs(z) << sign(a) << abs(b) << abs(o))
#endif
#if MC_T == 0
ENT(reinterpret_, r << intBitsToFloat(v) << intBitsToFloat(a) << intBitsToFloat(z) << intBitsToFloat(basic_vector<int, 3>(0x3f800001, 0x7f7fffff, -2139095041)))
#elif MC_T == 1
ENT(reinterpret_, r << uintBitsToFloat(v) << uintBitsToFloat(a) << uintBitsToFloat(z) << uintBitsToFloat(basic_vector<unsigned, 3>(0x3f800001u, 0x7f7fffffu, 0xff7fffffu)))
#elif MC_T == 2
ENT(reinterpret_, r << longLongBitsToDouble(v) << longLongBitsToDouble(a) << longLongBitsToDouble(basic_vector<long long, 2>(0x3ff0000000000001ll, -0x10000000000001ll)))
#elif MC_T == 3
ENT(reinterpret_, r << ulongLongBitsToDouble(v) << ulongLongBitsToDouble(a) << ulongLongBitsToDouble(basic_vector<unsigned long long, 2>(0x3ff0000000000001ull, 0xffefffffffffffffull)))
#elif MC_T == 5
ENT(reinterpret_, r << floatBitsToInt(v) << floatBitsToUint(v) << floatBitsToInt(a) << floatBitsToUint(z) << floatBitsToUint(b))
#elif MC_T == 6
ENT(reinterpret_, r << doubleBitsToLongLong(v) << doubleBitsToUlongLong(v) << doubleBitsToLongLong(a) << doubleBitsToUlongLong(z) << doubleBitsToUlongLong(b))
#endif
#if MC_T == 5 || MC_T == 6
template <int C, int R> using M = basic_matrix<X, C, R>;
ENT(rounding_, r << trunc(v) << floor(v) << ceil(v) << round(v) << roundEven(v) << fract(v) << trunc(z) << floor(o) << ceil(k) << round(a) << roundEven(b) << fract(c) << trunc(d))
ENT(roundhalf_, r << round(v + X(0.5)) << roundEven(v + X(0.5)) << floor(-v) << ceil(-z) << fract(-o) << round(v * X(1e6)) << roundEven(X(2.5)) << roundEven(X(-3.5)) << round(X(-2.5)))
ENT(common_, r << abs(v) << sign(v) << abs(a) << sign(z) << mod(v, w) << mod(z, a) << mod(a, b) << mix(v, w, z) << mix(v, w, a) << mix(a, b, c) << step(v, w) << step(a, z) << step(a, b) << isnan(v) << isinf(z) << isnan(a))
ENT(smooth_, r << smoothstep(min(v, w) - X(1), max(v, w), z) << smoothstep(X(-3), X(4), o) << smoothstep(X(0), X(2), a))
ENT(modf_, V<4> i; W<4> j; X e = 0; r << modf(v, i) << i << modf(z, j) << j << modf(a, e) << e << modf(o, z) << z)
ENT(roots_, r << sqrt(abs(v)) << sqrt(abs(a)) << sqrt(v * v) << inversesqrt(abs(v)) << inversesqrt(abs(a)) << fast_inversesqrt(abs(z)) << fast_inversesqrt(abs(b)) << sqrt(X(2)) << sqrt(X(1e30)) << sqrt(X(1e-30)))
ENT(angles_, r << radians(v) << degrees(z) << radians(a) << degrees(b) << degrees(radians(o)))
ENT(geometric_, r << length(v) << length(z) << distance(t, s) << distance(v, o) << normalize(t) << normalize(z) << length(m) << length(a) << distance(a, b) << faceforward(t, s, k) << reflect(v, w) << reflect(t, k) << refract(normalize(t), normalize(s), X(0.7)) << refract(normalize(t), normalize(k), X(1.6)))
ENT(dots_, r << dot(v, w) << dot(z, o) << dot(m, m) << dot(t, k) << cross(t, k) << cross(k, s) << matrixCompMult(basic_matrix<double, 2, 2>(1., 2., 3., 4.), basic_matrix<double, 2, 2>(a, b, c, d)) << outerProduct(basic_vector<double, 2>(p), basic_vector<double, 3>(t)))
ENT(mctor_, r << M<2, 2>(a) << M<2, 3>(t, s) << M<3, 2>(v, p) << M<4, 4>(v, z, o, w) << M<3, 3>(M<2, 4>(v, w)) << M<2, 2>(a, t))
ENT(mctor2_, r << M<4, 3>(b, v, s, z) << M<4, 2>(v, w) << M<2, 4>(p, t, s) << M<3, 4>(M<4, 2>(v, z)) << M<4, 4>(M<2, 2>(a, b, c, d)))
ENT(mops_, M<2, 3> x(t, s), y(k, o3); M<3, 2> q(v, p); r << x + y << x - y << -x << +y << x * a << b * y << x / X(2) << x + a << a - x << x / y << q * x << x * q)
ENT(mvec_, M<2, 3> x(t, s); M<4, 4> y(v, w, z, o); r << x * p << t * x << y * v << z * y << y * o << k * x)
ENT(mfun_, M<3, 3> x(t, s, k); M<4, 4> y(v, w + X(1), z, o); M<2, 2> q(v); r << transpose(x) << transpose(M<3, 2>(v, p)) << determinant(x) << determinant(y) << determinant(q + M<2, 2>(X(9))) << inverse(x * X(3) + M<3, 3>(X(40))) << inverse(q + M<2, 2>(X(50))))
ENT(mfun2_, M<4, 4> y(v, w + X(1), z, o); r << inverse(y + M<4, 4>(X(70))) << y << transpose(y) << cross_matrix(t) << diagonal_matrix(v) << diagonal_matrix(k))
ENT(minc_, M<2, 3> x(t, s); r << x++ << ++x << x-- << --x << x; x[1] = t; x[0][2] = a; r << x << x.row(1) << x[1] << (x == x) << (x == M<2, 3>(a, b, c, d, a, b)) << x.size() << x.column_size(); swap(x[0], x[1]); r << x)
ENT(marr_, const X six[6] = { d, c, b, a, c, b }; M<2, 3> x(t, s); r << to_array(x) << to_matrix<2, 2>(std::array<X, 4>{ d, a, c, b }) << M<2, 3>(six) << get<1>(x))
#else
ENT(scalarmix_, r << V<4>(v) )
#endif


constexpr int TUPLES = 16;
struct Args { X v[4]; };
constexpr Args arg(int i)
{
	if constexpr (std::is_same_v<X, bool>) return { { X((i & 1) != 0), X((i & 2) != 0), X((i & 4) != 0), X((i & 8) != 0) } };
	else if constexpr (std::is_floating_point_v<X>)
	{
		constexpr X b[] = { X(0.5), X(-2.25), X(3), X(0.1), X(-7.75), X(12345.678), X(1) / X(3), X(-1), X(2), X(0.001), X(-1.5), X(6.5), X(-0.875), X(99.99), X(1.0000001), X(-16.3) };
		return { { b[i], b[(i + 3) % 16], b[(i * 3 + 5) % 16], b[(i * 5 + 7) % 16] } };
	}
	else if constexpr (std::is_signed_v<X>) { constexpr X b[] = { 1, -1, 2, 3, -2, 7, 5, 9, -4, 10, 13, -6, 8, 12, -31, 100 }; return { { b[i], b[(i + 3) % 16], b[(i * 3 + 5) % 16], b[(i * 5 + 7) % 16] } }; }
	else { constexpr X L = std::numeric_limits<X>::max(); constexpr X b[] = { 1, L, 2, 3, L - 2, 7, 5, 9, L / 2, 10, 13, L / 2 + 1, 8, 12, 31, 100 }; return { { b[i], b[(i + 3) % 16], b[(i * 3 + 5) % 16], b[(i * 5 + 7) % 16] } }; }
}
template <class E> struct Table
{
	static constexpr std::array<Res, TUPLES> at_compile_time = [] { std::array<Res, TUPLES> r; for (int i = 0; i < TUPLES; ++i) { Args g = arg(i); r[i] = E::run(g.v[0], g.v[1], g.v[2], g.v[3]); } return r; }();
};
static Counters C;
__attribute__((noinline)) void compare(const char *name, const Res *table, Res (*run)(X, X, X, X))
{
	for (int i = 0; i < TUPLES; ++i)
	{
		volatile X a[4]; Args g = arg(i); for (int j = 0; j < 4; ++j) a[j] = g.v[j];
		ctx.what = name; ctx.a[0] = i;
		Res now = run(a[0], a[1], a[2], a[3]); ++C.states; ++C.traces; C.transitions += now.n;
		bool ok = now.n == table[i].n; int bad = -1; for (int j = 0; ok && j < now.n; ++j) if (now.v[j] != table[i].v[j]) { ok = false; bad = j; }
		if (!ok)
		{
			auto show = [&](u64 v) { return strf("%016llx (%.17g)", v, std::bit_cast<double>(v)); };
			fail(strf("%s/%s", name, tname<X>()), strf("arguments %s %s %s %s: value %d of %d is %s at run time, %s at compile time", str(g.v[0]).c_str(), str(g.v[1]).c_str(), str(g.v[2]).c_str(), str(g.v[3]).c_str(), bad, now.n,
				bad < 0 ? "?" : show(now.v[bad]).c_str(), bad < 0 ? "?" : show(table[i].v[bad]).c_str()));
		}
	}
}
template <class... E> void all_() { (compare(E::name, Table<E>::at_compile_time.data(), E::run), ...); }

int main(int argc, char **argv)
{
	init(argc, argv);
	all_<ctors_, converts_, index_, writes_, assigns_, scalar1_, sizes_, iters_, swaps_, data_, views_, tuples_, arrays_, members_, equal_, logical_, mixbool_>();
#if MC_T != 7
	all_<folds_, relational_, arith_, compound_, increments_, minmax_>();
#endif
#if MC_T < 5
	all_<integer_, intcompound_, swapbytes_>();
#endif
#if MC_T == 0 || MC_T == 2
	all_<signed_>();
#endif
#if MC_T != 4 && MC_T != 7
	all_<reinterpret_>();
#endif
#if MC_T == 5 || MC_T == 6
	all_<rounding_, roundhalf_, common_, smooth_, modf_, roots_, angles_, geometric_, dots_, mctor_, mctor2_, mops_, mvec_, mfun_, mfun2_, minc_, marr_>();
#endif
	sample(strf("%s: every catalogue expression x %d argument tuples_, constant expression against run time", tname<X>(), TUPLES));
	total = C;
	return finish();
}
