// P11: shift, cshift, apply, query, min, max, sum of every kind of object (-DMC_T=component type, const and non-const) against a plain array
#include "kinds.hpp"
using namespace mc;

template <class T> struct Table
{
	int n; const char *kind; bool cst; Mem<T> m;
	void (*shift)(int, T *);
	void (*cshift)(int, T *);
	void (*apply)(T (*)(T), T *);
	void (*apply_ref)(T (*)(const T &), T *);
	void (*query)(bool (*)(T), bool *);
	void (*query_ref)(bool (*)(const T &), bool *);
	T (*min)(); T (*max)(); T (*sum)();
};
template <class T, int N, int K> struct Hold { static auto &o() { static Obj<T, N, K> x; return x; } };
template <class V> decltype(auto) cview(V &v) { return std::as_const(v); }

template <class T, int N, int K, bool CST> Table<T> make()
{
	static_assert(N >= 1);
	Table<T> t{}; t.n = N; t.kind = kname(K); t.cst = CST; t.m = mem(Hold<T, N, K>::o());
#define MC_V auto &v_ = Hold<T, N, K>::o().get(); std::conditional_t<CST, const std::remove_reference_t<decltype(v_)> &, decltype(v_)> v = v_;
#define MC_PUT for (int i = 0; i < N; ++i) out[i] = r[i]; static_assert(std::is_same_v<std::remove_cvref_t<decltype(r)>, dsga::basic_vector<std::remove_reference_t<decltype(*out)>, N>>);
	t.shift = [](int by, T *out) { MC_V auto r = v.shift(by); MC_PUT };
	t.cshift = [](int by, T *out) { MC_V auto r = v.cshift(by); MC_PUT };
	t.apply = [](T (*f)(T), T *out) { MC_V auto r = v.apply(f); MC_PUT };
	t.apply_ref = [](T (*f)(const T &), T *out) { MC_V auto r = v.apply(f); MC_PUT };
	t.query = [](bool (*f)(T), bool *out) { MC_V auto r = v.query(f); MC_PUT };
	t.query_ref = [](bool (*f)(const T &), bool *out) { MC_V auto r = v.query(f); MC_PUT };
	if constexpr (!std::is_same_v<T, bool>)
	{
		t.min = []() -> T { MC_V auto r = v.min(); static_assert(std::is_same_v<decltype(r), T>); return r; };
		t.max = []() -> T { MC_V auto r = v.max(); static_assert(std::is_same_v<decltype(r), T>); return r; };
		t.sum = []() -> T { MC_V auto r = v.sum(); static_assert(std::is_same_v<decltype(r), T>); return r; };
	}
	return t;
}

static int calls;
template <class T> T vals_of(int j)
{
	if constexpr (std::is_same_v<T, bool>) return j & 1;
	else if constexpr (std::is_floating_point_v<T>) { constexpr T a[] = { T(1), T(-2.5), T(7), T(0), T(1e6), T(-1e6), -T(0) }; return a[j % 7]; }
	else if constexpr (std::is_signed_v<T>) { constexpr T a[] = { 1, -2, 7, 0, T(std::numeric_limits<T>::max() / 4), T(std::numeric_limits<T>::min() / 4), 3 }; return a[j % 7]; }
	else { constexpr T a[] = { 1, 9, 7, 0, std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::max() / 2 + 1) }; return a[j % 7]; }
}
// extremes that would overflow sum() but not min() and max()
template <class T> std::vector<T> extremes()
{
	using L = std::numeric_limits<T>;
	if constexpr (std::is_floating_point_v<T>) return { L::infinity(), -L::infinity(), L::max(), L::lowest(), L::denorm_min(), T(0) };
	else return { L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(0) };
}

template <class T> __attribute__((noinline)) void explore(const Table<T> &t)
{
	const int n = t.n, base = std::is_same_v<T, bool> ? 2 : thorough ? 7 : 6;
	auto key = [&](const char *f) { return strf("%s %s%s<%s,%d>", f, t.cst ? "const " : "", t.kind, tname<T>(), n); };
	auto unchanged = [&](const char *f, const T *in) { if (!t.m.holds(in)) fail(key(f), strf("changed its object %s to %s", vstr(std::vector<T>(in, in + n)).c_str(), t.m.show().c_str())); };
	auto compare = [&](const char *f, long long arg, const T *in, const auto *got, const auto *want) {
		++total.transitions;
		bool ok = true; for (int i = 0; i < n; ++i) ok &= same_bits(got[i], want[i]);
		if (!ok) fail(key(f), strf("%s(%lld) of %s gave %s, expected %s", f, arg, vstr(std::vector<T>(in, in + n)).c_str(), [&] { std::string s; for (int i = 0; i < n; ++i) s += str(got[i]) + " "; return s; }().c_str(), [&] { std::string s; for (int i = 0; i < n; ++i) s += str(want[i]) + " "; return s; }().c_str()));
	};
	auto scalar = [&](const char *f, const T *in, T got, T want) { ++total.transitions; if (!same(got, want)) fail(key(f), strf("%s of %s gave %s, expected %s", f, vstr(std::vector<T>(in, in + n)).c_str(), str(got).c_str(), str(want).c_str())); };

	std::vector<int> amounts;
	const int far = thorough ? 3000 : 40;
	for (int a = -far; a <= far; ++a) amounts.push_back(a);
	for (int d = 0; d < 9; ++d) { amounts.push_back(std::numeric_limits<int>::max() - d); amounts.push_back(std::numeric_limits<int>::min() + d); amounts.push_back((1 << 30) + d - 4); amounts.push_back(-(1 << 30) + d - 4); amounts.push_back(65536 + d - 4); amounts.push_back(-65536 + d - 4); }

	int ntuples = 1; for (int i = 0; i < n; ++i) ntuples *= base;
	T in[4], got[4], want[4]; bool bgot[4], bwant[4];
	ctx.what = "shift, cshift, apply, query, min, max, sum";
	for (int code = 0; code < ntuples; ++code)
	{
		for (int i = 0, c = code; i < n; ++i, c /= base) in[i] = vals_of<T>(c % base);
		t.m.put(in); ++total.states; ++total.traces;
		// amounts: all of them on every 16th tuple, the near ones on every tuple
		for (std::size_t k = 0; k < amounts.size(); ++k)
		{
			int by = amounts[k];
			if (code % 16 && (by > 6 || by < -6)) continue;
			ctx.a[0] = by;
			for (int i = 0; i < n; ++i) { long long j = (long long)i + by; want[i] = j >= 0 && j < n ? in[j] : T(0); }
			t.shift(by, got); compare("shift", by, in, got, want);
			for (int i = 0; i < n; ++i) { long long j = ((long long)i + by) % n; if (j < 0) j += n; want[i] = in[j]; }
			t.cshift(by, got); compare("cshift", by, in, got, want);
		}
		unchanged("shift/cshift", in);
		// stateful functions: every component once, in order
		static T seen[8];
		auto order = [&](const char *f) { ++total.transitions; bool ok = calls == n; for (int i = 0; i < n && ok; ++i) ok = same_bits(seen[i], in[i]); if (!ok) fail(key(f), strf("called with %d components, %s; object %s", calls, vstr(std::vector<T>(seen, seen + std::min(calls, 8))).c_str(), vstr(std::vector<T>(in, in + n)).c_str())); };
		for (int i = 0; i < n; ++i) want[i] = std::is_same_v<T, bool> ? T(in[i] != T(i & 1)) : T(in[i] / 2 + T(i));
		calls = 0; t.apply([](T x) -> T { if (calls < 8) seen[calls] = x; int i = calls++; return std::is_same_v<T, bool> ? T(x != T(i & 1)) : T(x / 2 + T(i)); }, got); compare("apply", 0, in, got, want); order("apply");
		calls = 0; t.apply_ref([](const T &x) -> T { if (calls < 8) seen[calls] = x; int i = calls++; return std::is_same_v<T, bool> ? T(x != T(i & 1)) : T(x / 2 + T(i)); }, got); compare("apply", 1, in, got, want); order("apply");
		for (int i = 0; i < n; ++i) bwant[i] = (in[i] < T(7)) != bool(i & 1);
		calls = 0; t.query([](T x) -> bool { if (calls < 8) seen[calls] = x; int i = calls++; return (x < T(7)) != bool(i & 1); }, bgot); compare("query", 0, in, bgot, bwant); order("query");
		calls = 0; t.query_ref([](const T &x) -> bool { if (calls < 8) seen[calls] = x; int i = calls++; return (x < T(7)) != bool(i & 1); }, bgot); compare("query", 1, in, bgot, bwant); order("query");
		if constexpr (!std::is_same_v<T, bool>)
		{
			T mn = in[0], mx = in[0], s = in[0];
			for (int i = 1; i < n; ++i) { mn = in[i] < mn ? in[i] : mn; mx = mx < in[i] ? in[i] : mx; s = T(s + in[i]); }
			scalar("min", in, t.min(), mn); scalar("max", in, t.max(), mx); scalar("sum", in, t.sum(), s);
		}
		unchanged("apply/query/min/max/sum", in);
	}
	if constexpr (!std::is_same_v<T, bool>)
	{
		auto ex = extremes<T>(); const int b = (int)ex.size(); int nt = 1; for (int i = 0; i < n; ++i) nt *= b;
		for (int code = 0; code < nt; ++code)
		{
			for (int i = 0, c = code; i < n; ++i, c /= b) in[i] = ex[c % b];
			t.m.put(in); ++total.states; ++total.traces;
			T mn = in[0], mx = in[0];
			for (int i = 1; i < n; ++i) { mn = in[i] < mn ? in[i] : mn; mx = mx < in[i] ? in[i] : mx; }
			scalar("min", in, t.min(), mn); scalar("max", in, t.max(), mx);
		}
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
	static_for<NKINDS>([&]<int K>(std::integral_constant<int, K>) {
		static_for<4>([&]<int N1>(std::integral_constant<int, N1>) { explore<T>(make<T, N1 + 1, K, false>()); explore<T>(make<T, N1 + 1, K, true>()); }); });
	sample(strf("%s: all kinds, const or not, lengths 1-4: shift/cshift by -40..40 and the int extremes, stateful apply/query, min/max/sum", tname<T>()));
	return finish();
}
