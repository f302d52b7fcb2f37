// P24: transpose, determinant, inverse.  -DMC_T=5|6
#include "kinds.hpp"
using namespace mc;
using ld = long double; using i64 = long long;
using T = std::conditional_t<MC_T == 5, float, double>;
template <int N> using M = dsga::basic_matrix<T, N, N>;
constexpr T eps = std::numeric_limits<T>::epsilon();

// ---- the algebra, by recursion; element (column c, row r) is a[c * n + r] --------------------------------------------
template <class X> X leibniz(const X *a, int n)
{
	if (n == 1) return a[0];
	if (n == 2) return a[0] * a[3] - a[2] * a[1];
	X s = 0, sub[9];
	for (int c = 0; c < n; ++c)
	{
		if (a[c * n] == 0) continue;
		for (int q = 0, k = 0; q < n; ++q) if (q != c) { for (int r = 1; r < n; ++r) sub[k * (n - 1) + r - 1] = a[q * n + r]; ++k; }
		X m = a[c * n] * leibniz(sub, n - 1); s += c & 1 ? -m : m;
	}
	return s;
}
template <class X> void adjugate(const X *a, int n, X *out)            // out(column c, row r) = cofactor of element (column r, row c)
{
	X sub[9];
	for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r)
	{
		for (int q = 0, k = 0; q < n; ++q) if (q != r) { for (int p = 0, l = 0; p < n; ++p) if (p != c) sub[k * (n - 1) + l++] = a[q * n + p]; ++k; }
		X m = leibniz(sub, n - 1); out[c * n + r] = (c + r) & 1 ? -m : m;
	}
}
static std::string show(const ld *a, int n) { std::string s = "["; for (int i = 0; i < n * n; ++i) s += strf(i && i % n == 0 ? " | %.9Lg" : " %.9Lg", a[i]); return s + " ]"; }
template <int N> M<N> make(const i64 *a) { M<N> m; for (int i = 0; i < N * N; ++i) m.columns[i / N][i % N] = (T)a[i]; return m; }

template <int N> void whole(const std::string &fam, const i64 *a, Counters &c)
{
	const M<N> m = make<N>(a); auto in = [&] { ld v[16]; for (int i = 0; i < N * N; ++i) v[i] = a[i]; return show(v, N); };
	++c.states; ++c.traces; c.transitions += 2;
	const i64 d = leibniz(a, N); T g = dsga::determinant(m);
	if (g != (T)d) fail(strf("determinant %dx%d %s %s", N, N, tname<T>(), fam.c_str()), in() + strf(" has determinant %lld, got %s", d, str(g).c_str()));
	if (d == 0) return;
	i64 adj[16]; adjugate(a, N, adj); M<N> inv = dsga::inverse(m); ld big = 0; for (int i = 0; i < N * N; ++i) big = std::max(big, std::abs((ld)adj[i] / d));
	for (int i = 0; i < N * N; ++i) if (ld w = (ld)adj[i] / d; !(std::abs((ld)inv[i / N][i % N] - w) <= 8 * eps * big)) { fail(strf("inverse %dx%d %s %s", N, N, tname<T>(), fam.c_str()), in() + strf(": column %d row %d is %s, expected %.12Lg", i / N, i % N, str(inv[i / N][i % N]).c_str(), w)); break; }
	// inverse * m is the identity
	ld bm = 0; for (int i = 0; i < N * N; ++i) bm = std::max(bm, std::abs((ld)a[i]));
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { ld s = 0; for (int k = 0; k < N; ++k) s += (ld)inv[k][j] * a[i * N + k]; if (!(std::abs(s - (i == j)) <= 64 * eps * big * bm)) fail(strf("inverse times matrix %dx%d %s %s", N, N, tname<T>(), fam.c_str()), in() + strf(": element %d %d is %.12Lg", i, j, s)); }
}
// all N x N matrices over an alphabet
template <int N> void all(const std::vector<i64> &al)
{
	u64 n = 1; for (int i = 0; i < N * N; ++i) n *= al.size(); std::string fam = "over " + vstr(al);
	parallel(n, [&](Counters &c, u64 lo, u64 hi) { i64 a[16]; for (u64 q = lo; q < hi && !stop; ++q) { u64 z = q; for (int i = 0; i < N * N; ++i) { a[i] = al[z % al.size()]; z /= al.size(); } whole<N>(fam, a, c); } });
	sample(strf("all %llu %dx%d matrices %s", n, N, N, fam.c_str()));
}
// products, exchanges of columns, signed permutations, scalings by powers of two, fractions
template <int N> void families()
{
	Counters c; std::vector<std::array<i64, 16>> A;
	{ int p[4] = { 0, 1, 2, 3 }; do { if (N == 3 && p[3] != 3) continue; if (N == 2 && (p[3] != 3 || p[2] != 2)) continue;
		for (int s = 0; s < (1 << N); ++s) { std::array<i64, 16> a{}; for (int i = 0; i < N; ++i) a[i * N + p[i]] = (s >> i & 1 ? -1 : 1) * (i + 2); A.push_back(a); } } while (std::next_permutation(p, p + 4)); }
	const std::size_t nperm = A.size(); (void)nperm;
	for (int k = 0; k < 60; ++k) { std::array<i64, 16> a{}; for (int i = 0; i < N * N; ++i) a[i] = (i * (k + 3) * 7 + k * k * 5 + i * i * (k % 4)) % 11 - 5; A.push_back(a); }
	for (int e = 0; e < N * N; ++e) for (int f = 0; f < N * N; ++f) { std::array<i64, 16> a{}; for (int i = 0; i < N; ++i) a[i * N + i] = i + 1; a[e] += 3; a[f] += 4; A.push_back(a); }     // identity-like with two entries changed
	for (auto &a : A) whole<N>("family", a.data(), c);
	for (std::size_t i = 0; i < A.size(); i += A.size() > 150 ? 3 : 1) for (std::size_t k = 0; k < A.size(); k += 1 + (A.size() > 150) * 4)
	{
		i64 p[16] = {}; for (int x = 0; x < N; ++x) for (int y = 0; y < N; ++y) for (int z = 0; z < N; ++z) p[x * N + y] += A[i][z * N + y] * A[k][x * N + z];
		// |entries| stay small enough for exact float products
		M<N> x = make<N>(A[i].data()), y = make<N>(A[k].data()), xy = x * y; ++c.states; ++c.traces; c.transitions += 3;
		T dx = dsga::determinant(x), dy = dsga::determinant(y); ld w = (ld)dx * dy, mag = 1; for (int q = 0; q < N; ++q) { ld s = 0; for (int r = 0; r < N; ++r) s += std::abs((ld)p[q * N + r]); mag *= s; }
		if (!(std::abs((ld)dsga::determinant(xy) - w) <= 24 * eps * mag)) fail(strf("determinant of a product %dx%d %s", N, N, tname<T>()), strf("%Lg instead of %Lg", (ld)dsga::determinant(xy), w));
	}
	for (auto &a : A) for (int i = 0; i < N; ++i) for (int k = i + 1; k < N; ++k) { M<N> m = make<N>(a.data()), s = m; std::swap(s[i], s[k]); ++c.states; ++c.transitions; if (dsga::determinant(s) != -dsga::determinant(m)) fail(strf("exchanging columns %dx%d %s", N, N, tname<T>()), strf("columns %d and %d", i, k)); if (dsga::determinant(dsga::transpose(m)) != dsga::determinant(m)) fail(strf("determinant of the transpose %dx%d %s", N, N, tname<T>()), ""); }
	// rows and columns scaled by powers of two: the exact inverse scales along
	for (auto &a : A) { i64 d = leibniz(a.data(), N); if (d == 0) continue; i64 adj[16]; adjugate(a.data(), N, adj);
		for (int z = 0; z < 40; ++z)
		{
			const int lim = MC_T == 5 ? 14 : 100; int rs[4], cs[4]; for (int i = 0; i < N; ++i) { rs[i] = (z * 7 + i * (z % 5) * 5) % (2 * lim) - lim; cs[i] = (z * 3 + i * (z % 3) * 11) % (2 * lim) - lim; if (z == 0) rs[i] = lim, cs[i] = 0; if (z == 1) rs[i] = -lim, cs[i] = 0; if (z < 2) rs[i] /= 1; }
			M<N> m; int sum = 0; for (int i = 0; i < N; ++i) { sum += rs[i] + cs[i]; for (int k = 0; k < N; ++k) m.columns[i][k] = (T)std::ldexp((ld)a[i * N + k], cs[i] + rs[k]); }
			const int top = MC_T == 5 ? 100 : 900; if (std::abs(sum) > top) continue; ++c.states; ++c.traces; c.transitions += 1 + N * N;
			ld dg = std::ldexp((ld)dsga::determinant(m), -sum); if (!(std::abs(dg - d) <= 8 * eps * std::abs((ld)d))) fail(strf("determinant %dx%d %s scaled", N, N, tname<T>()), strf("scaled back: %.12Lg instead of %lld", dg, d));
			M<N> inv = dsga::inverse(m); ld big = 0; for (int i = 0; i < N * N; ++i) big = std::max(big, std::abs((ld)adj[i] / d));
			for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) if (ld g = std::ldexp((ld)inv[i][k], rs[i] + cs[k]), w = (ld)adj[i * N + k] / d; !(std::abs(g - w) <= 16 * eps * big)) { fail(strf("inverse %dx%d %s scaled", N, N, tname<T>()), strf("column %d row %d scaled back is %.12Lg, expected %.12Lg (scaling %d)", i, k, g, w, z)); i = N; break; }
		} }
	// fractions
	for (int k = 0; k < 400; ++k)
	{
		M<N> m; ld a[16], adj[16], mag = 1; for (int i = 0; i < N * N; ++i) { T x = (T)((((i * 37 + k * 101 + i * i * k) % 199) - 99) * 0.0173L); m.columns[i / N][i % N] = x; a[i] = x; }
		for (int i = 0; i < N; ++i) { ld s = 0; for (int r = 0; r < N; ++r) s += std::abs(a[i * N + r]); mag *= s; }
		ld d = leibniz(a, N), g = dsga::determinant(m); ++c.states; ++c.traces; c.transitions += 1 + N * N;
		if (!(std::abs(g - d) <= 12 * eps * mag)) fail(strf("determinant %dx%d %s fractions", N, N, tname<T>()), show(a, N) + strf(" has %.12Lg, got %.12Lg", d, g));
		if (std::abs(d) < 0.05L * mag) continue; adjugate(a, N, adj); M<N> inv = dsga::inverse(m); ld big = 0; for (int i = 0; i < N * N; ++i) big = std::max(big, std::abs(adj[i] / d));
		for (int i = 0; i < N * N; ++i) if (!(std::abs((ld)inv[i / N][i % N] - adj[i] / d) <= 1000 * eps * big)) { fail(strf("inverse %dx%d %s fractions", N, N, tname<T>()), show(a, N) + strf(": element %d is %.12Lg, expected %.12Lg", i, (ld)inv[i / N][i % N], adj[i] / d)); break; }
	}
	std::lock_guard<std::mutex> l(mtx); total.states += c.states; total.transitions += c.transitions; total.traces += c.traces;
}
template <int C, int R> void transposes()
{
	auto al = alphabet<T>(); Counters c; static_assert(std::is_same_v<decltype(dsga::transpose(dsga::basic_matrix<T, C, R>{})), dsga::basic_matrix<T, R, C>>);
	for (std::size_t k = 0; k < al.size(); ++k) for (int st = 0; st < 7; ++st)
	{
		dsga::basic_matrix<T, C, R> m; T in[16]; for (int i = 0; i < C * R; ++i) in[i] = m.columns[i / R][i % R] = st ? al[(k + i * st) % al.size()] : T(k * 16 + i);
		const auto t = dsga::transpose(m); const auto u = dsga::transpose(t); ++c.states; ++c.traces; c.transitions += 2 * C * R;
		for (int i = 0; i < C; ++i) for (int j = 0; j < R; ++j) if (!same_bits(t[j][i], in[i * R + j]) || !same_bits(u[i][j], in[i * R + j]) || !same_bits(m[i][j], in[i * R + j])) fail(strf("transpose %dx%d %s", C, R, tname<T>()), strf("column %d row %d: %s became %s, then %s", i, j, str(in[i * R + j]).c_str(), str(t[j][i]).c_str(), str(u[i][j]).c_str()));
	}
	std::lock_guard<std::mutex> l(mtx); total.states += c.states; total.transitions += c.transitions; total.traces += c.traces;
}
template <class> void go()
{
	static_for<9>([](auto q) { transposes<q % 3 + 2, q / 3 + 2>(); });
	families<2>(); families<3>(); families<4>();
	all<2>(thorough ? std::vector<i64>{ -12, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 13 } : std::vector<i64>{ -4, -3, -2, -1, 0, 1, 2, 3, 4, 7 });
	all<3>(thorough ? std::vector<i64>{ -3, -2, -1, 0, 1, 2, 5 } : std::vector<i64>{ -2, -1, 0, 3 });
	all<4>({ 0, 1 }); all<4>({ -1, 2 }); all<4>({ -3, 5 });
	if (thorough) { all<4>({ -1, 0, 1 }); all<4>({ -2, 1, 3 }); }
}
int main(int argc, char **argv)
{
	init(argc, argv);
	static_assert(std::is_same_v<decltype(dsga::determinant(M<2>{})), T> && std::is_same_v<decltype(dsga::determinant(M<3>{})), T> && std::is_same_v<decltype(dsga::determinant(M<4>{})), T>);
	static_assert(std::is_same_v<decltype(dsga::inverse(M<2>{})), M<2>> && std::is_same_v<decltype(dsga::inverse(M<3>{})), M<3>> && std::is_same_v<decltype(dsga::inverse(M<4>{})), M<4>>);
	go<void>(); return finish();
}
