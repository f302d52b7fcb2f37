// P06: every history of operations on objects that own their data.
//   -DMC_N=length: two vectors and two owning views;  -DMC_C=c -DMC_R=r: two matrices.
// Closed breadth-first search over all contents, then all operation sequences of bounded depth on live objects.
#include "swizzles.hpp"
#include <optional>
using namespace mc;
using T = double;

#ifdef MC_N
constexpr int N = MC_N, OBJS = 4, PER = N;
using Vec = dsga::basic_vector<T, N>; using Own = dsga::view_vector<T, N>; using IVec = dsga::basic_vector<int, N>;
#if MC_N == 1
using Rev = A_x; using Rep = A_x; using S1 = A_x; using S2 = A_x;
#elif MC_N == 2
using Rev = A_yx; using Rep = A_yy; using S1 = A_y; using S2 = A_x;
#elif MC_N == 3
using Rev = A_zxy; using Rep = A_yxx; using S1 = A_zx; using S2 = A_xy;
#else
using Rev = A_wzyx; using Rep = A_zxzx; using S1 = A_wyx; using S2 = A_xyw;
#endif
constexpr int V0 = N == 4 ? 2 : N == 3 ? 3 : 4, V1 = N == 4 ? 3 : N == 3 ? 3 : N == 2 ? 5 : 9;
struct World
{
	T g0 = 77; Vec v0; T g1 = 77; Vec v1; T g2 = 77; Own o0; T g3 = 77; Own o1; T g4 = 77;
	void rebuild() { std::construct_at(&v0); std::construct_at(&v1); std::construct_at(&o0); std::construct_at(&o1); }
	bool guards() const { return g0 == 77 && g1 == 77 && g2 == 77 && g3 == 77 && g4 == 77; }
};
template <int K> auto &obj(World &w) { if constexpr (K == 0) return w.v0; else if constexpr (K == 1) return w.v1; else if constexpr (K == 2) return w.o0; else return w.o1; }
constexpr const char *on[] = { "v0", "v1", "o0", "o1" };
static void put(World &w, const T *x) { static_for<4>([&](auto k) { T *p = obj<k>(w).data(); for (int i = 0; i < N; ++i) p[i] = x[k * N + i]; }); }
template <class A> const char *owns(A &a) { auto *p = (unsigned char *)a.data(); auto *q = (unsigned char *)&a; return p >= q && p + N * sizeof(T) <= q + sizeof(A) ? nullptr : "the object's data is not inside the object"; }
static const char *read(World &w, const T *x)
{
	const char *r = nullptr;
	static_for<4>([&](auto k) {
		auto &a = obj<k>(w); const auto &c = a;
		if (const char *o = owns(a)) r = o;
		for (int i = 0; i < N; ++i) if (a.data()[i] != x[k * N + i] || a[i] != x[k * N + i] || c[i] != x[k * N + i]) r = "contents differ";
		for (int i = 0; i < N; ++i) if (Rev::get(a)[i] != x[k * N + Rev::idx[i]] || Rep::get(c)[i] != x[k * N + Rep::idx[i]]) r = "a swizzle reads something else";
		int i = 0; for (T y : c) if (y != x[k * N + i++]) r = "iteration differs";
	});
	return w.guards() ? r : "memory outside was touched";
}
#else
constexpr int MC = MC_C, MR = MC_R, OBJS = 2, PER = MC * MR;
using Mat = dsga::basic_matrix<T, MC, MR>; using FMat = dsga::basic_matrix<float, MC, MR>; using Col = dsga::basic_vector<T, MR>; using Row = dsga::basic_vector<T, MC>;
constexpr int V0 = 2, V1 = PER == 4 ? 5 : PER == 6 ? 3 : 2;
struct World
{
	T g0 = 77; Mat m0; T g1 = 77; Mat m1; T g2 = 77;
	void rebuild() { std::construct_at(&m0); std::construct_at(&m1); }
	bool guards() const { return g0 == 77 && g1 == 77 && g2 == 77; }
};
template <int K> auto &obj(World &w) { if constexpr (K == 0) return w.m0; else return w.m1; }
constexpr const char *on[] = { "m0", "m1" };
static void put(World &w, const T *x) { static_for<2>([&](auto k) { std::memcpy((void *)&obj<k>(w), x + k * PER, PER * sizeof(T)); }); }
static const char *read(World &w, const T *x)
{
	const char *r = nullptr;
	static_for<2>([&](auto k) {
		auto &a = obj<k>(w); const auto &c = a; const T *y = x + k * PER;
		if (std::memcmp((void *)&a, y, PER * sizeof(T))) r = "contents differ";
		for (int i = 0; i < MC; ++i) for (int j = 0; j < MR; ++j) if (a[i][j] != y[i * MR + j] || c[i][j] != y[i * MR + j] || c.row(j)[i] != y[i * MR + j]) r = "an element reads something else";
		int i = 0; for (auto &col : c) for (T z : col) if (z != y[i++]) r = "iteration differs";
	});
	return w.guards() ? r : "memory outside was touched";
}
#endif
constexpr int W = OBJS * PER;
struct Model { T x[W]; };
struct Op { std::string name; std::function<bool(Model &)> model; std::function<void(World &)> real; };
static std::vector<Op> ops; static int vmax;
static void add(std::string n, std::function<bool(Model &)> m, std::function<void(World &)> r) { ops.push_back({ std::move(n), std::move(m), std::move(r) }); }

#ifdef MC_N
static Vec pattern(int q) { Vec r; for (int i = 0; i < N; ++i) r[i] = q == 0 ? (i % 2) : q == 1 ? (i * i + 1) % vmax : vmax - 1; return r; }
template <class... F> static void copy_idx(Model &m, int d, const int *di, int s, const int *si, int n) { T t[4]; for (int i = 0; i < n; ++i) t[i] = m.x[s * N + si[i]]; for (int i = 0; i < n; ++i) m.x[d * N + di[i]] = t[i]; }
static const int ident[4] = { 0, 1, 2, 3 };
static void build_ops()
{
	static_for<4>([&]<int D>(std::integral_constant<int, D>) { std::string dn = on[D];
		auto all = [=](Model &m, auto f) { for (int i = 0; i < N; ++i) m.x[D * N + i] = f(i); return true; };
		static_for<4>([&]<int S>(std::integral_constant<int, S>) { std::string sn = on[S];
			constexpr bool same = D / 2 == S / 2;
			using DT = std::remove_reference_t<decltype(obj<D>(std::declval<World &>()))>;
			auto whole = [](Model &m) { copy_idx(m, D, ident, S, ident, N); return true; };
			add(dn + " = " + sn, whole, [](World &w) { obj<D>(w) = obj<S>(w); });
			add(dn + " = move(" + sn + ")", whole, [](World &w) { obj<D>(w) = std::move(obj<S>(w)); });
			add(dn + " = const " + sn, whole, [](World &w) { obj<D>(w) = std::as_const(obj<S>(w)); });
			if constexpr (D != S)
			{
				add(dn + " constructed from " + sn, whole, [](World &w) { std::destroy_at(&obj<D>(w)); std::construct_at(&obj<D>(w), obj<S>(w)); });
				add(dn + " constructed from move(" + sn + ")", whole, [](World &w) { std::destroy_at(&obj<D>(w)); std::construct_at(&obj<D>(w), std::move(obj<S>(w))); });
			}
			if constexpr (same && D != S)
			{
				auto sw = [](Model &m) { for (int i = 0; i < N; ++i) std::swap(m.x[D * N + i], m.x[S * N + i]); return true; };
				add(dn + ".swap(" + sn + ")", sw, [](World &w) { obj<D>(w).swap(obj<S>(w)); });
				add("std::swap(" + dn + ", " + sn + ")", sw, [](World &w) { std::swap(obj<D>(w), obj<S>(w)); });
				// through containers: copies and moves of copies
				add("reverse a std::vector of " + dn + ", " + sn + " and write back", sw, [](World &w) {
					std::vector<DT> c; c.push_back(obj<D>(w)); c.push_back(obj<S>(w)); c.insert(c.begin(), DT(T(5))); c.erase(c.begin());
					std::reverse(c.begin(), c.end()); obj<D>(w) = c[0]; obj<S>(w) = std::move(c[1]); });
				add("struct holding " + dn + ", " + sn + " copied", sw, [](World &w) { struct H { DT a, b; }; H h{ obj<D>(w), obj<S>(w) }; H k = h; h.a[0] = 9; h.b = DT(T(8)); std::optional<H> o(k); H l = std::move(*o); obj<D>(w) = l.b; obj<S>(w) = l.a; });
			}
			add(dn + " = " + sn + ".rev", [](Model &m) { copy_idx(m, D, ident, S, Rev::idx, N); return true; }, [](World &w) { obj<D>(w) = Rev::get(obj<S>(w)); });
			add(dn + " = " + sn + ".rep", [](Model &m) { copy_idx(m, D, ident, S, Rep::idx, N); return true; }, [](World &w) { obj<D>(w) = Rep::get(obj<S>(w)); });
			add(dn + ".rev = " + sn, [](Model &m) { copy_idx(m, D, Rev::idx, S, ident, N); return true; }, [](World &w) { Rev::get(obj<D>(w)) = obj<S>(w); });
			if constexpr (N > 1) add(dn + ".s1 = " + sn + ".s2", [](Model &m) { copy_idx(m, D, S1::idx, S, S2::idx, S1::n); return true; }, [](World &w) { S1::get(obj<D>(w)) = S2::get(obj<S>(w)); });
			add(dn + " = ivec(" + sn + ")", whole, [](World &w) { obj<D>(w) = IVec(obj<S>(w)); });
			add(dn + "[last] = " + sn + "[0]", [](Model &m) { m.x[D * N + N - 1] = m.x[S * N]; return true; }, [](World &w) { obj<D>(w)[N - 1] = obj<S>(w)[0]; });
			add(dn + " = " + dn + " * " + sn, [](Model &m) { T t[N]; for (int i = 0; i < N; ++i) { t[i] = m.x[D * N + i] * m.x[S * N + i]; if (t[i] >= vmax) return false; } for (int i = 0; i < N; ++i) m.x[D * N + i] = t[i]; return true; },
				[](World &w) { obj<D>(w) = Vec(obj<D>(w) * obj<S>(w)); });
			add(dn + " -= " + sn + ".rev", [](Model &m) { T t[N]; for (int i = 0; i < N; ++i) { t[i] = m.x[D * N + i] - m.x[S * N + Rev::idx[i]]; if (t[i] < 0) return false; } for (int i = 0; i < N; ++i) m.x[D * N + i] = t[i]; return true; },
				[](World &w) { obj<D>(w) -= Rev::get(obj<S>(w)); });
			add("set " + dn + " from components of " + sn + " reversed", [](Model &m) { int r[4]; for (int i = 0; i < N; ++i) r[i] = N - 1 - i; copy_idx(m, D, ident, S, r, N); return true; },
				[](World &w) { [&]<std::size_t... I>(std::index_sequence<I...>) { obj<D>(w).set(obj<S>(w)[N - 1 - I]...); }(std::make_index_sequence<N>{}); });
		});
		using DT = std::remove_reference_t<decltype(obj<D>(std::declval<World &>()))>;
		for (int q = 0; q < 3; ++q) add(dn + strf(" = vector %d", q), [=](Model &m) { Vec x = pattern(q); return all(m, [&](int i) { return x[i]; }); }, [=](World &w) { obj<D>(w) = pattern(q); });
		add(dn + " = default", [=](Model &m) { return all(m, [](int) { return T(0); }); }, [](World &w) { obj<D>(w) = DT{}; });
		add(dn + " = broadcast", [=](Model &m) { return all(m, [](int) { return T(1); }); }, [](World &w) { obj<D>(w) = DT(T(1)); });
		for (int i = 0; i < N; ++i) for (int x = 0; x < vmax; ++x) add(dn + strf("[%d] = %d", i, x), [=](Model &m) { m.x[D * N + i] = x; return true; }, [=](World &w) { obj<D>(w)[i] = T(x); });
		add("++" + dn, [](Model &m) { for (int i = 0; i < N; ++i) if (++m.x[D * N + i] >= vmax) return false; return true; }, [](World &w) { ++obj<D>(w); });
		add(dn + "--", [](Model &m) { for (int i = 0; i < N; ++i) if (--m.x[D * N + i] < 0) return false; return true; }, [](World &w) { obj<D>(w)--; });
		add("std::rotate " + dn, [](Model &m) { std::rotate(m.x + D * N, m.x + D * N + N / 2, m.x + D * N + N); return true; }, [](World &w) { auto &a = obj<D>(w); std::rotate(a.begin(), a.begin() + N / 2, a.end()); });
		add("write through a view of " + dn, [](Model &m) { m.x[D * N] = 0; return true; }, [](World &w) { dsga::basic_view<true, T, N> v(obj<D>(w).data()); v[0] = 0; });
		add("copy " + dn + ", change the copy", [](Model &) { return true; }, [](World &w) { auto c = obj<D>(w); c = DT(T(9)); auto d = std::move(c); d[0] = 8; d = Rep::get(d); auto e = DT(d); e[N - 1] = 6; });
	});
}
#else
static void build_ops()
{
	auto at = [](int k, int c, int r) { return k * PER + c * MR + r; };
	static_for<2>([&]<int D>(std::integral_constant<int, D>) { std::string dn = on[D];
		static_for<2>([&]<int S>(std::integral_constant<int, S>) { std::string sn = on[S];
			auto whole = [](Model &m) { T t[PER]; std::copy(m.x + S * PER, m.x + S * PER + PER, t); std::copy(t, t + PER, m.x + D * PER); return true; };
			add(dn + " = " + sn, whole, [](World &w) { obj<D>(w) = obj<S>(w); });
			add(dn + " = move(" + sn + ")", whole, [](World &w) { obj<D>(w) = std::move(obj<S>(w)); });
			add(dn + " = float matrix of " + sn, whole, [](World &w) { obj<D>(w) = FMat(obj<S>(w)); });
			add(dn + " = transpose of transpose of " + sn, whole, [](World &w) { obj<D>(w) = dsga::transpose(dsga::transpose(obj<S>(w))); });
			add(dn + " = matrix from array of " + sn, whole, [](World &w) { auto a = dsga::to_array(obj<S>(w)); obj<D>(w) = dsga::to_matrix<MC, MR>(a); });
			if constexpr (D != S)
			{
				add(dn + " constructed from " + sn, whole, [](World &w) { std::construct_at(&obj<D>(w), obj<S>(w)); });
				auto sw = [](Model &m) { for (int i = 0; i < PER; ++i) std::swap(m.x[D * PER + i], m.x[S * PER + i]); return true; };
				add(dn + ".swap(" + sn + ")", sw, [](World &w) { obj<D>(w).swap(obj<S>(w)); });
				add("std::swap(" + dn + ", " + sn + ")", sw, [](World &w) { std::swap(obj<D>(w), obj<S>(w)); });
			}
			for (int i = 0; i < MC; ++i) for (int j = 0; j < MC; ++j)
			{
				add(strf("%s[%d] = %s[%d]", dn.c_str(), i, sn.c_str(), j), [=](Model &m) { T t[MR]; for (int r = 0; r < MR; ++r) t[r] = m.x[at(S, j, r)]; for (int r = 0; r < MR; ++r) m.x[at(D, i, r)] = t[r]; return true; }, [=](World &w) { obj<D>(w)[i] = obj<S>(w)[j]; });
				if (i != j || D != S) add(strf("swap(%s[%d], %s[%d])", dn.c_str(), i, sn.c_str(), j), [=](Model &m) { for (int r = 0; r < MR; ++r) std::swap(m.x[at(D, i, r)], m.x[at(S, j, r)]); return true; }, [=](World &w) { using std::swap; swap(obj<D>(w)[i], obj<S>(w)[j]); });
				add(strf("%s[%d].yx = %s[%d].xy", dn.c_str(), i, sn.c_str(), j), [=](Model &m) { T a = m.x[at(S, j, 0)], b = m.x[at(S, j, 1)]; m.x[at(D, i, 1)] = a; m.x[at(D, i, 0)] = b; return true; }, [=](World &w) { obj<D>(w)[i].yx = obj<S>(w)[j].xy; });
			}
			if constexpr (MC == MR) add(dn + "[0] = " + sn + ".row(1)", [=](Model &m) { T t[MC]; for (int c = 0; c < MC; ++c) t[c] = m.x[at(S, c, 1)]; for (int c = 0; c < MC; ++c) m.x[at(D, 0, c)] = t[c]; return true; }, [](World &w) { obj<D>(w)[0] = obj<S>(w).row(1); });
		});
		for (int c = 0; c < MC; ++c) for (int r = 0; r < MR; ++r) for (int x = 0; x < vmax; ++x)
			add(strf("%s[%d][%d] = %d", dn.c_str(), c, r, x), [=](Model &m) { m.x[at(D, c, r)] = x; return true; }, [=](World &w) { obj<D>(w)[c][r] = T(x); });
		add(dn + " through iterators reversed", [=](Model &m) { for (int c = 0; c < MC / 2; ++c) for (int r = 0; r < MR; ++r) std::swap(m.x[at(D, c, r)], m.x[at(D, MC - 1 - c, r)]); return true; }, [](World &w) { std::reverse(obj<D>(w).begin(), obj<D>(w).end()); });
		add("get<1>(" + dn + ") = column of ones", [=](Model &m) { for (int r = 0; r < MR; ++r) m.x[at(D, 1, r)] = 1; return true; }, [](World &w) { dsga::get<1>(obj<D>(w)) = Col(T(1)); });
		add(dn + " = default", [=](Model &m) { for (int i = 0; i < PER; ++i) m.x[D * PER + i] = 0; return true; }, [](World &w) { obj<D>(w) = Mat{}; });
		add("++" + dn, [](Model &m) { for (int i = 0; i < PER; ++i) if (++m.x[D * PER + i] >= vmax) return false; return true; }, [](World &w) { ++obj<D>(w); });
		add(dn + "--", [](Model &m) { for (int i = 0; i < PER; ++i) if (--m.x[D * PER + i] < 0) return false; return true; }, [](World &w) { obj<D>(w)--; });
		add("copy " + dn + ", change the copy", [](Model &) { return true; }, [](World &w) { auto c = obj<D>(w); ++c; auto r = c.row(0); r[0] = 9; auto col = c[1]; col = Col(T(5)); auto a = dsga::to_array(obj<D>(w)); a[0] = 9; });
	});
}
#endif
static std::string show(const Model &m) { return vstr(std::vector<T>(m.x, m.x + W)); }
static u64 encode(const Model &m) { u64 e = 0; for (int i = 0; i < W; ++i) e = e * vmax + (u64)m.x[i]; return e; }
static Model decode(u64 e) { Model m; for (int i = W - 1; i >= 0; --i) { m.x[i] = e % vmax; e /= vmax; } return m; }

static void sequences(int depth, Counters &c, std::vector<int> &path, const Model &start, const Model &m)
{
	if (depth == 0 || stop) return;
	for (int i = 0; i < (int)ops.size(); ++i)
	{
		Model n = m; if (!ops[i].model(n)) continue;
		static thread_local World w; w.rebuild(); put(w, start.x);
		for (int p : path) ops[p].real(w);
		ctx.what = ops[i].name.c_str();
		ops[i].real(w);
		++c.transitions; ++c.traces;
		if (const char *d = read(w, n.x))
		{
			std::string h; for (int p : path) h += ops[p].name + "; ";
			fail("history: " + ops[i].name, strf("from %s: %s%s: %s, expected %s", show(start).c_str(), h.c_str(), ops[i].name.c_str(), d, show(n).c_str()));
			continue;
		}
		path.push_back(i); sequences(depth - 1, c, path, start, n); path.pop_back();
	}
}
int main(int argc, char **argv)
{
	init(argc, argv);
	vmax = thorough ? V1 : V0;
	build_ops();
	u64 nstates = 1; bool closed = true;
	for (int i = 0; i < W; ++i) { nstates *= vmax; if (nstates > (thorough ? 300000000ull : 1000000ull)) { closed = false; break; } }
	if (closed)
	{
		std::vector<std::atomic<unsigned char>> seen(nstates);
		std::vector<u64> level{ 0 }; seen[0] = 1; u64 reached = 1, levels = 0;
		while (!level.empty() && !stop)
		{
			++levels; std::vector<u64> next; std::mutex nm;
			parallel(level.size(), [&](Counters &c, u64 lo, u64 hi) {
				World w; std::vector<u64> mine;
				for (u64 q = lo; q < hi; ++q)
				{
					const Model m = decode(level[q]); ++c.states;
					for (auto &o : ops)
					{
						Model n = m; if (!o.model(n)) continue;
						w.rebuild(); put(w, m.x);
						ctx.what = o.name.c_str();
						o.real(w);
						++c.transitions; ++c.traces;
						if (const char *d = read(w, n.x)) { fail("step: " + o.name, strf("from %s: %s, expected %s", show(m).c_str(), d, show(n).c_str())); std::construct_at(&w); }
						u64 e = encode(n); if (!seen[e].exchange(1)) mine.push_back(e);
					}
				}
				std::lock_guard<std::mutex> g(nm); next.insert(next.end(), mine.begin(), mine.end());
			});
			reached += next.size(); level.swap(next);
		}
		sample(strf("%llu operations, %llu of %llu states reached in %llu levels", (u64)ops.size(), reached, nstates, levels));
	}
	Model start; for (int i = 0; i < W; ++i) start.x[i] = i + 1;      // all elements distinct
	int depth = thorough && ops.size() < 250 ? 3 : 2;      // after the first operation
	vmax = 1000;
	parallel(ops.size(), [&](Counters &c, u64 lo, u64 hi) {
		for (u64 i = lo; i < hi; ++i)
		{
			Model n = start; if (!ops[i].model(n)) continue;
			World w; put(w, start.x); ops[i].real(w); ++c.transitions; ++c.traces;
			if (const char *d = read(w, n.x)) { fail("history: " + ops[i].name, strf("from %s: %s, expected %s", show(start).c_str(), d, show(n).c_str())); continue; }
			std::vector<int> path{ (int)i }; sequences(depth, c, path, start, n);
		}
	});
	sample(strf("every sequence of %d operations on live objects with distinct contents", depth + 1));
	return finish();
}
