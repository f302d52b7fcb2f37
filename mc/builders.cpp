// P25: outerProduct, cross_matrix, diagonal_matrix.  -DMC_T= -DMC_U= (outerProduct for these component types), -DMC_ONE (the other two)
#include "lift.hpp"
using namespace mc;
using ld = long double;
template <int I> using Ty = std::tuple_element_t<I, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double>>;
using T = Ty<MC_T>;
using U = Ty<MC_U>;
using CT = std::common_type_t<T, U>;
static Counters C_;
template <class X> std::vector<std::array<X, 4>> tuples()
{
	std::vector<std::array<X, 4>> v; for (int e = 0; e < 4; ++e) { std::array<X, 4> b{}; b[e] = X(1); v.push_back(b); b[(e + 1) % 4] = X(3); v.push_back(b); }
	v.push_back({ X(2), X(3), X(5), X(7) }); v.push_back({ X(11), X(13), X(17), X(19) }); v.push_back({ X(0), X(0), X(0), X(0) });
	if constexpr (std::is_signed_v<X>) { v.push_back({ X(-2), X(3), X(-5), X(4) }); v.push_back({ X(1), X(-1), X(0), X(-6) }); }
	if constexpr (std::is_floating_point_v<X>) { v.push_back({ X(0.1), X(-1) / 3, X(1e10), X(-2.5) }); v.push_back({ X(1e-3), X(7.7), X(-0.0), X(123.456) }); }
	return v;
}
struct OJob { std::string key; int n, m; Mem<T> ma; Mem<U> mb; void (*run)(CT *); };
__attribute__((noinline)) void outer_(const OJob &j)
{
	auto va = tuples<T>(); auto vb = tuples<U>(); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (auto &a : va) for (auto &b : vb)
	{
		j.ma.put(a.data()); j.mb.put(b.data()); CT o[16]; j.run(o); ++C_.states; ++C_.traces; C_.transitions += j.n * j.m;
		for (int c = 0; c < j.m; ++c) for (int r = 0; r < j.n; ++r) if (CT w = (CT)a[r] * (CT)b[c]; !same(o[c * j.n + r], w)) fail(j.key, strf("column %d row %d of %s x %s is %s, expected %s", c, r, vstr(std::vector<T>(a.begin(), a.begin() + j.n)).c_str(), vstr(std::vector<U>(b.begin(), b.begin() + j.m)).c_str(), str(o[c * j.n + r]).c_str(), str(w).c_str()));
		if (!j.ma.holds(a.data()) || !j.mb.holds(b.data())) fail(j.key, "an operand changed");
	}
}
template <int K1, int N1, int K2, int N2> void outer()
{
	outer_({ strf("outerProduct(%s%d, %s%d) %s %s", kname(K1), N1, kname(K2), N2, tname<T>(), tname<U>()), N1, N2, lmem<T, N1, K1, 0>(), lmem<U, N2, K2, 1>(), [](CT *o) {
		auto check = [](const auto &m, CT *q) { static_assert(std::is_same_v<std::remove_cvref_t<decltype(m)>, dsga::basic_matrix<CT, N2, N1>>); for (int c = 0; c < N2; ++c) for (int r = 0; r < N1; ++r) q[c * N1 + r] = m.columns[c][r]; };
		check(dsga::outerProduct(lget<T, N1, K1, 0>(), lget<U, N2, K2, 1>()), o); CT o2[16]; check(dsga::outerProduct(std::as_const(lget<T, N1, K1, 0>()), std::as_const(lget<U, N2, K2, 1>())), o2);
		for (int i = 0; i < N1 * N2; ++i) if (!same(o[i], o2[i])) o[i] = CT(-12345); } });
}
struct DJob { std::string key; int n; Mem<T> m; void (*run)(T *); bool cross; };
__attribute__((noinline)) void one_(const DJob &j)
{
	auto va = tuples<T>(); for (T x : alphabet<T>()) va.push_back({ x, T(1), T(2), T(3) }), va.push_back({ T(4), x, x, T(5) }), va.push_back({ T(6), T(7), T(8), x }); snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key.c_str());
	for (auto &a : va)
	{
		j.m.put(a.data()); T o[16]; j.run(o); ++C_.states; ++C_.traces; C_.transitions += j.n * j.n;
		for (int c = 0; c < j.n; ++c) for (int r = 0; r < j.n; ++r)
		{
			T w = T(0); if (!j.cross) w = c == r ? a[c] : T(0); else if (c != r) { int k = 3 - c - r; w = (c + 1) % 3 == r ? a[k] : -a[k]; }
			if (!same(o[c * j.n + r], w)) fail(j.key, strf("column %d row %d is %s, expected %s", c, r, str(o[c * j.n + r]).c_str(), str(w).c_str()));
		}
		if (!j.m.holds(a.data())) fail(j.key, "the operand changed");
	}
}
template <class> void go()
{
#ifdef MC_ONE
	static_for<NKINDS>([](auto kk) { constexpr int K = kk;
		static_for<3>([](auto nn) { constexpr int N = nn + 2; one_({ strf("diagonal_matrix(%s%d) %s", kname(K), N, tname<T>()), N, lmem<T, N, K, 0>(), [](T *o) { auto m = dsga::diagonal_matrix(lget<T, N, K, 0>()); static_assert(std::is_same_v<decltype(m), dsga::basic_matrix<T, N, N>>); for (int i = 0; i < N * N; ++i) o[i] = m.columns[i / N][i % N]; }, false }); });
		one_({ strf("cross_matrix(%s) %s", kname(K), tname<T>()), 3, lmem<T, 3, K, 0>(), [](T *o) { auto m = dsga::cross_matrix(lget<T, 3, K, 0>()); static_assert(std::is_same_v<decltype(m), dsga::basic_matrix<T, 3, 3>>); for (int i = 0; i < 9; ++i) o[i] = m.columns[i / 3][i % 3]; }, true }); });
	// cross(u, v) == cross_matrix(u) * v == u * cross_matrix(v)
	const int lo = -(thorough ? 3 : 2), n = thorough ? 7 : 5; const int all = n * n * n;
	for (int p = 0; p < all; ++p) for (int q = 0; q < all; ++q)
	{
		dsga::basic_vector<T, 3> u(T(p % n + lo), T(p / n % n + lo), T(p / n / n + lo)), v(T(q % n + lo), T(q / n % n + lo), T(q / n / n + lo)); ++C_.states; ++C_.traces; C_.transitions += 3;
		auto x = dsga::cross(u, v), y = dsga::cross_matrix(u) * v, z = u * dsga::cross_matrix(v); T w[3] = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
		for (int i = 0; i < 3; ++i) if (x[i] != w[i] || y[i] != w[i] || z[i] != w[i]) fail(strf("cross product by matrix %s", tname<T>()), strf("component %d: cross %g, cross_matrix(u) * v %g, u * cross_matrix(v) %g, expected %g", i, (double)x[i], (double)y[i], (double)z[i], (double)w[i]));
	}
	sample("diagonal_matrix and cross_matrix of 8 kinds; the three ways to a cross product on all pairs of small integer vectors");
#else
	static_for<64>([](auto kk) { static_for<9>([](auto q) { constexpr int K = std::remove_cvref_t<decltype(kk)>::value; outer<K % 8, q % 3 + 2, K / 8, q / 3 + 2>(); }); });
	sample("outerProduct of all 64 pairs of kinds, all 9 pairs of lengths, all pairs of value tuples");
#endif
}
int main(int argc, char **argv) { init(argc, argv); go<void>(); total = C_; return finish(); }
