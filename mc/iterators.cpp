// P07: random-access laws for every pair of positions, visiting order, writes, and standard algorithms against a plain array.
//   -DMC_K=kind (0..7 as in kinds.hpp): all lengths;  -DMC_MAT: matrices;
//   -DMC_REP=0..3: swizzles with repeated letters (read-only) of vectors, const vectors, views, owning views.
#include "swizzles.hpp"
using namespace mc;
static Counters C;
static std::string where;
#define LAW(cond, name) do { ++C.transitions; if (!(cond)) fail(where + " " + name, strf("positions %d and %d of %d", i, j, n)); } while (0)

// begin .. end of an iterator type, element of position k is reference[k] (by address: at(k))
template <class It, class At> void laws(It b, It e, int n, At at)
{
	using Tr = std::iterator_traits<It>;
	int i = 0, j = 0;
	LAW((std::is_base_of_v<std::random_access_iterator_tag, typename Tr::iterator_category>), "iterator category is random access");
	LAW(std::random_access_iterator<It>, "models std::random_access_iterator");
	LAW(e - b == n && b - e == -n, "end - begin == size");
	LAW((b == e) == (n == 0), "begin == end only if empty");
	using D = typename Tr::difference_type;
	for (i = 0; i <= n; ++i)
	{
		It p = b + D(i);
		LAW(p - b == i, "(b + i) - b == i");
		{ It t = b; for (int k = 0; k < i; ++k) { It &r = ++t; LAW(&r == &t, "++ returns itself"); } LAW(t == p, "i times ++ is + i"); }
		{ It t = e; for (int k = n; k > i; --k) { It &r = --t; LAW(&r == &t, "-- returns itself"); } LAW(t == p, "-- from the end"); }
		{ It t = b; t += D(i); LAW(t == p, "+="); t -= D(i); LAW(t == b, "-="); t = D(i) + b; LAW(t == p, "i + b"); t = e - D(n - i); LAW(t == p, "e - k"); t = e + D(i - n); LAW(t == p, "e + (-k)"); }
		if (i < n)
		{
			LAW(std::addressof(*p) == at(i), "*(b + i) is component i");
			LAW(std::addressof(b[D(i)]) == at(i), "b[i] is component i");
			LAW(std::addressof(e[D(i - n)]) == at(i), "e[i - n] is component i");
			LAW(std::addressof(p[D(0)]) == at(i), "p[0]");
			{ It t = p; It q = t++; LAW(q == p && t == p + D(1), "postfix ++"); It r = t--; LAW(r == p + D(1) && t == p, "postfix --"); }
			{ It t = p; LAW(std::addressof(*t++) == at(i), "*t++"); }
			if constexpr (requires { p.operator->(); }) LAW(p.operator->() == at(i), "operator->");
		}
		for (j = 0; j <= n; ++j)
		{
			It q = b + D(j);
			++C.states;
			LAW(q - p == j - i, "difference");
			LAW((p == q) == (i == j) && (p != q) == (i != j), "== and !=");
			LAW((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "ordering");
			LAW(p + D(j - i) == q && q - D(j - i) == p, "p + (q - p) == q");
			LAW(D(j - i) + p == q, "(q - p) + p == q");
			{ It t = p; t += D(j - i); LAW(t == q, "+= both directions"); t -= D(j - i); LAW(t == p, "-= both directions"); }
			if (j < n) LAW(std::addressof(p[D(j - i)]) == at(j), "p[q - p] is *q");
			LAW(std::distance(p, q) == j - i && std::next(p, j - i) == q && std::prev(p, i - j) == q, "distance/next/prev");
			It s = p; s = q; LAW(s == q && s - b == j, "assignment"); std::swap(s, p); LAW(p == q && s == b + D(i), "swap of iterators"); std::swap(s, p);
		}
	}
}
template <class CIt, class It> void convert(It b, It e, CIt cb, CIt ce, int n)
{
	int i = 0, j = 0;
	if constexpr (std::is_convertible_v<It, CIt>)
	{
		CIt x = b, y = e; LAW(x == cb && y == ce, "iterator to const_iterator");
		for (i = 0; i < n; ++i) LAW(std::addressof(*(b + i)) == std::addressof(*(cb + i)), "const and mutable iterators visit the same component");
	}
	else LAW(false, "iterator converts to const_iterator");
}
template <class V, class At> void ranges_of(V &v, int n, At at, bool writable)
{
	const V &c = v;
	auto rat = [&](int k) { return at(n - 1 - k); };
	std::string w = where;
	where = w + " begin()"; laws(v.begin(), v.end(), n, at);
	where = w + " const begin()"; laws(c.begin(), c.end(), n, at);
	where = w + " cbegin()"; laws(v.cbegin(), v.cend(), n, at);
	where = w + " rbegin()"; laws(v.rbegin(), v.rend(), n, rat);
	where = w + " const rbegin()"; laws(c.rbegin(), c.rend(), n, rat);
	where = w + " crbegin()"; laws(v.crbegin(), v.crend(), n, rat);
	where = w + " std::begin()"; laws(std::begin(v), std::end(v), n, at);
	where = w; convert(v.begin(), v.end(), v.cbegin(), v.cend(), n); convert(v.rbegin(), v.rend(), v.crbegin(), v.crend(), n);
}

template <class T, int n, class F> void all_contents(const std::vector<int> &alpha, F f)
{
	int d[4] = {}; std::array<T, n> v;
	for (;;)
	{
		for (int i = 0; i < n; ++i) v[i] = T(alpha[d[i]]);
		f(v);
		int k = 0; while (k < n && ++d[k] == (int)alpha.size()) d[k++] = 0;
		if (k == n) return;
	}
}
// mutating algorithms: name, the same generic call on both ranges; results compared as offset (-1: none)
template <class T, class V> int run_alg(V &&v, int a)
{
	auto b = v.begin(), e = v.end(); int n = e - b;
	switch (a)
	{
		case 0: std::sort(b, e); return -1;
		case 1: std::reverse(b, e); return -1;
		case 2: return std::rotate(b, b + n / 2, e) - b;
		case 3: return std::unique(b, e) - b;
		case 4: return std::remove(b, e, T(1)) - b;
		case 5: return std::next_permutation(b, e);
		case 6: if constexpr (!std::is_same_v<T, bool>) std::iota(b, e, T(3)); return -1;
		case 7: std::fill(b, e, T(1)); return -1;
		case 8: std::replace(b, e, T(1), T(0)); return -1;
		case 9: return std::partition(b, e, [](T x) { return x == T(1); }) - b;
		case 10: std::stable_sort(b, e, std::greater<T>{}); return -1;
		case 11: std::copy_backward(b, e - 1, e); return -1;
		case 12: std::partial_sum(b, e, b); return -1;
		case 13: std::swap_ranges(b, b + n / 2, b + (n - n / 2)); return -1;
		case 14: std::make_heap(b, e); return -1;
		case 15: std::nth_element(b, b + n / 2, e); return -1;
		case 16: std::sort(v.rbegin(), v.rend()); return -1;
		case 17: std::transform(b, e, b, [](T x) { return T(x * 2); }); return -1;
		case 18: std::iter_swap(b, e - 1); return -1;
		case 19: std::reverse(v.rbegin(), v.rend() - 1); return -1;
		case 20: return std::shift_left(b, e, 1) - b;
		default: return -2;
	}
}
constexpr int NMUT = 21;
template <class T, class V> long long run_query(V &&v, int a)
{
	auto b = v.begin(), e = v.end();
	switch (a)
	{
		case 0: return (long long)std::accumulate(b, e, T(0));
		case 1: return std::find(b, e, T(1)) - b;
		case 2: return std::count(b, e, T(0));
		case 3: return std::max_element(b, e) - b;
		case 4: return std::min_element(v.rbegin(), v.rend()) - v.rbegin();
		case 5: return std::is_sorted(b, e);
		case 6: return std::lower_bound(b, e, T(1)) - b;
		case 7: return std::adjacent_find(b, e) - b;
		case 8: return std::lexicographical_compare(b, e, v.rbegin(), v.rend());
		case 9: return std::equal(b, e, v.rbegin());
		case 10: { std::vector<T> o(b, e); long long h = 0; for (T x : o) h = h * 7 + (long long)x; return h; }
		case 11: { std::vector<T> o(v.crbegin(), v.crend()); long long h = 0; for (T x : o) h = h * 7 + (long long)x; return h; }
		case 12: return (long long)std::inner_product(b, e, v.rbegin(), T(0));
		case 13: { long long h = 0; for (auto &&x : v) h = h * 7 + (long long)x; return h; }
		case 14: return std::ranges::distance(b, e);
		default: return -2;
	}
}
constexpr int NQ = 15;

template <class T, int n, int K> void kind()
{
	static Obj<T, n, K> o; auto &v = o.get(); const Mem<T> m = mem(o);
	where = strf("%s n=%d %s", kname(K), n, tname<T>());
	std::array<T, n> first; for (int i = 0; i < n; ++i) first[i] = T(i + 1);
	m.put(first.data());
	ranges_of(v, n, [&](int k) { return m.raw + m.slot[k]; }, kwritable(K));
	std::vector<int> alpha{ 0, 1 }; if (!std::is_same_v<T, bool>) { alpha.push_back(2); alpha.push_back(5); }
	all_contents<T, n>(alpha, [&](const std::array<T, n> &x) {
		++C.traces; ++C.states;
		std::array<T, n> a; 
		T flat[n];
		auto load = [&] { for (int i = 0; i < n; ++i) a[i] = flat[i] = x[i]; m.put(flat, T(1)); };
		for (int q = 0; q < NQ; ++q)
		{
			load(); ++C.transitions;
			long long r1 = run_query<T>(a, q), r2 = run_query<T>(v, q), r3 = run_query<T>(std::as_const(v), q);
			if (r1 != r2 || r1 != r3 || !m.holds(flat, T(1))) fail(where + strf(" query algorithm %d", q), strf("%s: %lld on the array, %lld, %lld", vstr(x).c_str(), r1, r2, r3));
		}
		if constexpr (kwritable(K)) for (int q = 0; q < NMUT; ++q)
		{
			load(); ++C.transitions;
			int r1 = run_alg<T>(a, q), r2 = run_alg<T>(v, q);
			for (int i = 0; i < n; ++i) flat[i] = a[i];
			if (r1 != r2 || !m.holds(flat, T(1))) fail(where + strf(" mutating algorithm %d", q), strf("%s: gave %s, expected %s (results %d, %d)", vstr(x).c_str(), m.show().c_str(), vstr(a).c_str(), r2, r1));
		}
	});
	// writes through every position of every mutable iterator; reads through iterators taken before the write
	if constexpr (kwritable(K))
		for (int i = 0; i < n; ++i) for (int way = 0; way < 6; ++way)
		{
			m.put(first.data(), T(1)); std::array<T, n> want = first;
			auto cit = v.cbegin() + i; auto rit = v.crbegin() + i;
			T val = std::is_same_v<T, bool> ? T(!first[i]) : T(33); int at = i;
			switch (way)
			{
				case 0: *(v.begin() + i) = val; break;
				case 1: v.begin()[i] = val; break;
				case 2: *(v.rbegin() + i) = val; at = n - 1 - i; break;
				case 3: { auto it = v.begin(); for (int k = 0; k < i; ++k) it++; *it++ = val; break; }
				case 4: { auto it = v.end(); for (int k = n; k > i; --k) --it; *it = val; break; }
				case 5: v.end()[i - n] = val; break;
			}
			want[at] = val; ++C.transitions;
			if (!m.holds(want.data(), T(1)) || *cit != want[i] || *rit != want[n - 1 - i]) fail(where + strf(" write through iterator, way %d", way), strf("position %d: %s", i, m.show().c_str()));
		}
}
template <class T, int c, int r> void matrix()
{
	static dsga::basic_matrix<T, c, r> m; T *raw = (T *)&m;
	where = strf("matrix %dx%d %s", c, r, tname<T>());
	for (int i = 0; i < c * r; ++i) raw[i] = T(i + 1);
	using Col = dsga::basic_vector<T, r>;
	ranges_of(m, c, [&](int k) { return (Col *)(raw + k * r); }, true);
	for (int i = 0; i < c; ++i) { int j = 0, n = c; LAW((*(m.cbegin() + i))[r - 1] == raw[i * r + r - 1], "column content"); }
	// every permutation of the columns through algorithms
	std::vector<int> perm(c); std::iota(perm.begin(), perm.end(), 0);
	do
	{
		++C.traces; ++C.states;
		for (int q = 0; q < 4; ++q)
		{
			for (int k = 0; k < c; ++k) for (int t = 0; t < r; ++t) raw[k * r + t] = T(perm[k] * 10 + t);
			std::vector<int> want = perm;
			auto less = [](const Col &a, const Col &b) { return a[0] < b[0]; };
			if (q == 0) { std::sort(m.begin(), m.end(), less); std::sort(want.begin(), want.end()); }
			else if (q == 1) { std::reverse(m.begin(), m.end()); std::reverse(want.begin(), want.end()); }
			else if (q == 2) { std::rotate(m.rbegin(), m.rbegin() + 1, m.rend()); std::rotate(want.rbegin(), want.rbegin() + 1, want.rend()); }
			else { int s = 0; for (auto &col : m) { col = Col(T(want[s] * 10)); ++s; } }
			bool ok = true; for (int k = 0; k < c; ++k) for (int t = 0; t < r; ++t) ok &= raw[k * r + t] == T(want[k] * 10 + (q == 3 ? 0 : t));
			++C.transitions;
			if (!ok) fail(where + strf(" algorithm %d", q), "wrong columns");
		}
	} while (std::next_permutation(perm.begin(), perm.end()));
}
#ifdef MC_REP
// a swizzle with repeated letters: several positions share one component, the positions stay distinct
template <class T, int N, class A> void repeated()
{
	static T mem[N]; static dsga::basic_vector<T, N> vec; static dsga::basic_view<true, T, N> view(mem); static dsga::basic_view<false, T, N> cview(mem); static dsga::view_vector<T, N> own;
	T *raw;
	auto &obj = [&]() -> auto & { if constexpr (MC_REP == 0) { raw = &vec[0]; return vec; } else if constexpr (MC_REP == 1) { raw = &vec[0]; return std::as_const(vec); } else if constexpr (MC_REP == 2) { raw = mem; if constexpr (N % 2) return view; else return cview; } else { raw = &own[0]; return own; } }();
	auto &v = A::get(obj); constexpr int n = A::n;
	where = strf("%s of %s n=%d %s", A::name, MC_REP == 0 ? "vector" : MC_REP == 1 ? "const vector" : MC_REP == 2 ? (N % 2 ? "view" : "const view") : "owning view", N, tname<T>());
	for (int i = 0; i < N; ++i) raw[i] = T(i + 1);
	ranges_of(v, n, [&](int k) { return raw + A::idx[k]; }, false);
	std::vector<int> alpha{ 0, 1 }; if (!std::is_same_v<T, bool>) { alpha.push_back(2); alpha.push_back(5); }
	all_contents<T, N>(alpha, [&](const std::array<T, N> &x) {
		++C.traces; ++C.states;
		std::array<T, n> a; for (int i = 0; i < N; ++i) raw[i] = x[i]; for (int i = 0; i < n; ++i) a[i] = x[A::idx[i]];
		for (int q = 0; q < NQ; ++q)
		{
			++C.transitions;
			long long r1 = run_query<T>(a, q), r2 = run_query<T>(v, q), r3 = run_query<T>(std::as_const(v), q);
			if (r1 != r2 || r1 != r3) fail(where + strf(" query algorithm %d", q), strf("%s: %lld on the array, %lld, %lld", vstr(x).c_str(), r1, r2, r3));
		}
	});
}
template <class T, int N, class... A> void words() { (repeated<T, N, A>(), ...); }
#endif
int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_K
	static_for<4>([&](auto n) { kind<int, n + 1, MC_K>(); kind<double, n + 1, MC_K>(); kind<bool, n + 1, MC_K>(); kind<unsigned long long, n + 1, MC_K>(); });
	sample(strf("%s of lengths 1 to 4: all laws for every pair of positions of 7 iterator pairs, 36 algorithms on all contents", kname(MC_K)));
#elif defined MC_REP
	words<int, 1, A_xx, A_xxx, A_xxxx>();
	words<int, 2, A_yy, A_xyx, A_yyx, A_xyxy, A_yxxx>();
	words<int, 3, A_zz, A_zxz, A_xyy, A_zyyz, A_xzyx>();
	words<int, 4, A_ww, A_wxw, A_xww, A_wwww, A_xyzx, A_wxxz>();
	words<double, 2, A_xx, A_xyxx>(); words<bool, 4, A_yzy, A_wzww>();
	sample("swizzles with repeated letters: all laws for every pair of positions of 7 iterator pairs, 15 algorithms on all contents");
#else
	static_for<3>([&](auto c) { static_for<3>([&](auto r) { matrix<float, c + 2, r + 2>(); matrix<double, c + 2, r + 2>(); }); });
	sample("all matrix shapes: all laws over columns, every permutation of the columns");
#endif
	total = C;
	return finish();
}
