// P04: every history of view operations (-DMC_N=length).  Two views, a view of const and a held view swizzle over one
// memory; closed breadth-first search over (memory contents x where everything points), then all operation
// sequences of bounded depth on live objects that are never rebuilt.  Oracle: plain array and offsets.
#include "swizzles.hpp"
using namespace mc;

constexpr int N = MC_N;
using T = int;
// M elements, offsets 0..M-N (disjoint placement possible), values 0..V-1
constexpr int M = N == 1 ? 3 : 2 * N;
constexpr int V = N == 4 ? 2 : N == 3 ? 3 : 4;
constexpr int VT = N == 4 ? 3 : N == 3 ? 4 : 6;         // thorough
constexpr int OFFS = M - N + 1;
using View = dsga::basic_view<true, T, N>;
using CView = dsga::basic_view<false, T, N>;
using Vec = dsga::basic_vector<T, N>;

// the swizzles used: a reversing one (full length), a repeating one (read only), and a short writable one
#if MC_N == 1
using Rev = A_x; using Rep = A_xx; using Short = A_x;
#elif MC_N == 2
using Rev = A_yx; using Rep = A_yy; using Short = A_y;
#elif MC_N == 3
using Rev = A_zyx; using Rep = A_yxx; using Short = A_zx;
#else
using Rev = A_wzyx; using Rep = A_zxzx; using Short = A_wyx;
#endif
constexpr int SN = Short::n;
using Held = std::remove_cvref_t<decltype(Rev::get(std::declval<View &>()))>;

struct Model
{
	T mem[M]; int p[4];                    // p: v0, v1, c, held
	bool operator ==(const Model &) const = default;
};
struct World
{
	T guard0[2], mem[M], guard1[2];
	View v[2]; CView c; alignas(Held) unsigned char sbuf[sizeof(Held)];
	Held &s() { return *std::launder(reinterpret_cast<Held *>(sbuf)); }
	World() { guard0[0] = guard0[1] = guard1[0] = guard1[1] = 77; }
	void build(const Model &m)
	{
		for (int i = 0; i < M; ++i) mem[i] = m.mem[i];
		for (int k = 0; k < 2; ++k) std::construct_at(&v[k], mem + m.p[k]);
		std::construct_at(&c, (const T *)mem + m.p[2]);
		std::construct_at((Held *)sbuf, mem + m.p[3]);
	}
};
struct Op { std::string name; std::function<bool(Model &)> model; std::function<void(World &)> real; bool throws = false; };
static std::vector<Op> ops;
static int vmax;
static Vec pattern(int k) { Vec r; for (int i = 0; i < N; ++i) r[i] = k == 0 ? (i % 2) : k == 1 ? ((i + 1) % 2) : (i * i + 1) % vmax; return r; }

static void add(std::string n, std::function<bool(Model &)> m, std::function<void(World &)> r) { ops.push_back({ std::move(n), std::move(m), std::move(r) }); }
// model helpers: read/write component i of thing at offset
static void mset(Model &m, int at, const T *x, const int *idx, int n) { T t[4]; for (int i = 0; i < n; ++i) t[i] = x[i]; for (int i = 0; i < n; ++i) m.mem[m.p[at] + idx[i]] = t[i]; }
static const int ident[4] = { 0, 1, 2, 3 };
static void mget(const Model &m, int at, T *x, const int *idx, int n) { for (int i = 0; i < n; ++i) x[i] = m.mem[m.p[at] + idx[i]]; }

static void build_ops()
{
	for (int k = 0; k < 2; ++k)
	{
		std::string vk = "v" + std::to_string(k), vo = "v" + std::to_string(1 - k);
		for (int o = 0; o < OFFS; ++o)
		{
			add(vk + ".reset(" + std::to_string(o) + ")", [=](Model &m) { m.p[k] = o; return true; }, [=](World &w) { w.v[k].reset(w.mem + o); });
			if (k == 0) add(vk + " constructed at " + std::to_string(o), [=](Model &m) { m.p[k] = o; return true; }, [=](World &w) { std::construct_at(&w.v[k], w.mem + o); });
		}
		add(vk + " copy-constructed from " + vo, [=](Model &m) { m.p[k] = m.p[1 - k]; return true; }, [=](World &w) { std::construct_at(&w.v[k], w.v[1 - k]); });
		add(vk + " move-constructed from " + vo, [=](Model &m) { m.p[k] = m.p[1 - k]; return true; }, [=](World &w) { View t(std::move(w.v[1 - k])); std::construct_at(&w.v[k], t); });
		add("held swizzle copied from " + vk, [=](Model &m) { m.p[3] = m.p[k]; return true; }, [=](World &w) { std::construct_at((Held *)w.sbuf, Rev::get(w.v[k])); });
		for (int i = 0; i < N; ++i)
		{
			add(vk + strf("[%d] = 1", i), [=](Model &m) { m.mem[m.p[k] + i] = 1; return true; }, [=](World &w) { w.v[k][i] = 1; });
			if (k == 0)
			{
				add(vk + strf("*(begin()+%d) = 0", i), [=](Model &m) { m.mem[m.p[k] + i] = 0; return true; }, [=](World &w) { *(w.v[k].begin() + i) = 0; });
				add(vk + strf("*(rbegin()+%d) = 1", i), [=](Model &m) { m.mem[m.p[k] + N - 1 - i] = 1; return true; }, [=](World &w) { *(w.v[k].rbegin() + i) = 1; });
				add(vk + strf(".data()[%d] = 0", i), [=](Model &m) { m.mem[m.p[k] + i] = 0; return true; }, [=](World &w) { w.v[k].data()[i] = 0; });
				add(vk + strf(".rev[%d] = 0", i), [=](Model &m) { m.mem[m.p[k] + Rev::idx[i]] = 0; return true; }, [=](World &w) { Rev::get(w.v[k])[i] = 0; });
				add(vk + strf(".rev *(begin()+%d) = 1", i), [=](Model &m) { m.mem[m.p[k] + Rev::idx[i]] = 1; return true; }, [=](World &w) { *(Rev::get(w.v[k]).begin() + i) = 1; });
			}
		}
		for (int q = 0; q < 3; ++q)
		{
			add(vk + strf(" = vector %d", q), [=](Model &m) { Vec x = pattern(q); mset(m, k, &x[0], ident, N); return true; }, [=](World &w) { w.v[k] = pattern(q); });
			if (k == 1) add(vk + strf(".set %d", q), [=](Model &m) { Vec x = pattern(q); mset(m, k, &x[0], ident, N); return true; },
				[=](World &w) { Vec x = pattern(q); [&]<std::size_t... I>(std::index_sequence<I...>) { w.v[k].set(x[I]...); }(std::make_index_sequence<N>{}); });
		}
		add(vk + " = " + vo + ".rev", [=](Model &m) { T x[4]; mget(m, 1 - k, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { w.v[k] = Rev::get(w.v[1 - k]); });
		add(vk + " = " + vk + ".rev", [=](Model &m) { T x[4]; mget(m, k, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { w.v[k] = Rev::get(w.v[k]); });
		add(vk + " = c", [=](Model &m) { T x[4]; mget(m, 2, x, ident, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { w.v[k] = w.c; });
		add(vk + " = c.rev", [=](Model &m) { T x[4]; mget(m, 2, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { w.v[k] = Rev::get(w.c); });
		add(vk + " = held", [=](Model &m) { T x[4]; mget(m, 3, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { w.v[k] = w.s(); });
		add(vk + ".rev = " + vo, [=](Model &m) { T x[4]; mget(m, 1 - k, x, ident, N); mset(m, k, x, Rev::idx, N); return true; }, [=](World &w) { Rev::get(w.v[k]) = w.v[1 - k]; });
		add(vk + ".rev = c", [=](Model &m) { T x[4]; mget(m, 2, x, ident, N); mset(m, k, x, Rev::idx, N); return true; }, [=](World &w) { Rev::get(w.v[k]) = w.c; });
		add(vk + ".short = " + vo + ".short copied", [=](Model &m) { T x[4]; mget(m, 1 - k, x, Short::idx, SN); mset(m, k, x, Short::idx, SN); return true; },
			[=](World &w) { Short::get(w.v[k]) = dsga::basic_vector<T, SN>(Short::get(w.v[1 - k])); });
		add("temporary copy of " + vk + " = vector", [=](Model &m) { Vec x = pattern(2); mset(m, k, &x[0], ident, N); return true; }, [=](World &w) { View(w.v[k]) = pattern(2); });
		add("temporary copy of " + vk + ".rev = vector", [=](Model &m) { Vec x = pattern(0); mset(m, k, &x[0], Rev::idx, N); return true; }, [=](World &w) { Held(Rev::get(w.v[k])) = pattern(0); });
		for (int j : { 0, 1 }) // temporaries assigned from memory they overlap
		{
			std::string vj = "v" + std::to_string(j);
			add("temporary copy of " + vk + " = " + vj + ".rev", [=](Model &m) { T x[4]; mget(m, j, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { View(w.v[k]) = Rev::get(w.v[j]); });
			add("temporary copy of " + vk + ".rev = " + vj, [=](Model &m) { T x[4]; mget(m, j, x, ident, N); mset(m, k, x, Rev::idx, N); return true; }, [=](World &w) { Held(Rev::get(w.v[k])) = w.v[j]; });
		}
		add("temporary view at " + vk + ".data() = c.rev", [=](Model &m) { T x[4]; mget(m, 2, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { View(w.v[k].data()) = Rev::get(w.c); });
		add("std::move(" + vk + ") = c", [=](Model &m) { T x[4]; mget(m, 2, x, ident, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { std::move(w.v[k]) = w.c; });
		add("std::move(" + vk + ") = held", [=](Model &m) { T x[4]; mget(m, 3, x, Rev::idx, N); mset(m, k, x, ident, N); return true; }, [=](World &w) { std::move(w.v[k]) = w.s(); });
		add("temporary copy of " + vk + ".rev = c", [=](Model &m) { T x[4]; mget(m, 2, x, ident, N); mset(m, k, x, Rev::idx, N); return true; }, [=](World &w) { Held(Rev::get(w.v[k])) = w.c; });
		add("++" + vk, [=](Model &m) { for (int i = 0; i < N; ++i) if (++m.mem[m.p[k] + i] >= vmax) return false; return true; }, [=](World &w) { ++w.v[k]; });
		add(vk + " -= " + vk + ".rev+0", [=](Model &m) { T a[4], b[4]; mget(m, k, a, ident, N); mget(m, k, b, Rev::idx, N); for (int i = 0; i < N; ++i) { a[i] -= b[i]; if (a[i] < 0) return false; } mset(m, k, a, ident, N); return true; },
			[=](World &w) { w.v[k] -= Rev::get(w.v[k]); });
		add(vk + " *= " + vo, [=](Model &m) { T a[4], b[4]; mget(m, k, a, ident, N); mget(m, 1 - k, b, ident, N); for (int i = 0; i < N; ++i) { a[i] *= b[i]; if (a[i] >= vmax) return false; } mset(m, k, a, ident, N); return true; },
			[=](World &w) { w.v[k] *= w.v[1 - k]; });
		add(vk + ".short += 1", [=](Model &m) { for (int i = 0; i < SN; ++i) if (++m.mem[m.p[k] + Short::idx[i]] >= vmax) return false; return true; }, [=](World &w) { Short::get(w.v[k]) += 1; });
		add("get<last>(" + vk + ") = 1", [=](Model &m) { m.mem[m.p[k] + N - 1] = 1; return true; }, [=](World &w) { dsga::get<N - 1>(w.v[k]) = 1; });
		add("std::rotate " + vk, [=](Model &m) { std::rotate(m.mem + m.p[k], m.mem + m.p[k] + N / 2, m.mem + m.p[k] + N); return true; }, [=](World &w) { std::rotate(w.v[k].begin(), w.v[k].begin() + N / 2, w.v[k].end()); });
		add("std::sort " + vk + ".rev", [=](Model &m) { T x[4]; mget(m, k, x, Rev::idx, N); std::sort(x, x + N); mset(m, k, x, Rev::idx, N); return true; }, [=](World &w) { auto &r = Rev::get(w.v[k]); std::sort(r.begin(), r.end()); });
		add("for (auto &x : " + vk + ") x = 0", [=](Model &m) { for (int i = 0; i < N; ++i) m.mem[m.p[k] + i] = 0; return true; }, [=](World &w) { for (auto &x : w.v[k]) x = 0; });
	}
	for (int o = 0; o < OFFS; ++o) add(strf("c.reset(%d)", o), [=](Model &m) { m.p[2] = o; return true; }, [=](World &w) { w.c.reset((const T *)w.mem + o); });
	add("c constructed from v1.data()", [=](Model &m) { m.p[2] = m.p[1]; return true; }, [=](World &w) { std::construct_at(&w.c, std::as_const(w.v[1]).data()); });
	add("held = v0", [=](Model &m) { T x[4]; mget(m, 0, x, ident, N); mset(m, 3, x, Rev::idx, N); return true; }, [=](World &w) { w.s() = w.v[0]; });
	add("held.set 2", [=](Model &m) { Vec x = pattern(2); mset(m, 3, &x[0], Rev::idx, N); return true; }, [=](World &w) { Vec x = pattern(2); [&]<std::size_t... I>(std::index_sequence<I...>) { w.s().set(x[I]...); }(std::make_index_sequence<N>{}); });
	for (int i = 0; i < M; ++i) for (int x = 0; x < V; ++x) add(strf("mem[%d] = %d", i, x), [=](Model &m) { m.mem[i] = x; return true; }, [=](World &w) { w.mem[i] = x; });
	auto mswap = [](Model &m) {
		int d = std::abs(m.p[0] - m.p[1]);
		if (d >= N) for (int i = 0; i < N; ++i) std::swap(m.mem[m.p[0] + i], m.mem[m.p[1] + i]);
		return true; };
	add("v0.swap(v1)", mswap, [](World &w) { w.v[0].swap(w.v[1]); });
	add("swap(v1, v0)", mswap, [](World &w) { using dsga::swap; swap(w.v[1], w.v[0]); });
	for (auto &o : ops) o.throws = o.name.find("swap(v") != std::string::npos;
}

// everything readable agrees with the model
static const char *disagrees(World &w, const Model &m)
{
	for (int i = 0; i < M; ++i) if (w.mem[i] != m.mem[i]) return "memory differs";
	if (w.guard0[0] != 77 || w.guard0[1] != 77 || w.guard1[0] != 77 || w.guard1[1] != 77) return "an element outside was touched";
	for (int k = 0; k < 2; ++k)
	{
		const View &cv = w.v[k];
		if (cv.data() != w.mem + m.p[k] || w.v[k].data() != w.mem + m.p[k]) return "data() is not the address pointed at";
		if (w.v[k].begin() != w.mem + m.p[k] || w.v[k].end() != w.mem + m.p[k] + N || cv.begin() != w.mem + m.p[k]) return "begin()/end() are not the memory";
		Vec copy(cv);
		for (int i = 0; i < N; ++i)
		{
			T x = m.mem[m.p[k] + i];
			if (w.v[k][i] != x || cv[i] != x || copy[i] != x) return "view reads something else";
			if (&w.v[k][i] != w.mem + m.p[k] + i || &cv[i] != w.mem + m.p[k] + i) return "view component is not the memory element";
			T r = m.mem[m.p[k] + Rev::idx[i]];
			if (Rev::get(w.v[k])[i] != r || Rev::get(cv)[i] != r) return "swizzle of view reads something else";
		}
		for (int i = 0; i < Rep::n; ++i) if (Rep::get(w.v[k])[i] != m.mem[m.p[k] + Rep::idx[i]]) return "repeating swizzle of view reads something else";
		for (int i = 0; i < SN; ++i) if (Short::get(cv)[i] != m.mem[m.p[k] + Short::idx[i]]) return "short swizzle of view reads something else";
		int i = N; for (auto it = cv.rbegin(); it != cv.rend(); ++it) if (*it != m.mem[m.p[k] + --i]) return "reverse iteration differs";
		i = 0; for (auto x : Rev::get(cv)) if (x != m.mem[m.p[k] + Rev::idx[i++]]) return "swizzle iteration differs";
	}
	if (w.c.data() != w.mem + m.p[2]) return "view of const does not point at its memory";
	for (int i = 0; i < N; ++i) if (w.c[i] != m.mem[m.p[2] + i] || Rev::get(w.c)[i] != m.mem[m.p[2] + Rev::idx[i]]) return "view of const reads something else";
	for (int i = 0; i < N; ++i) if (w.s()[i] != m.mem[m.p[3] + Rev::idx[i]] || &w.s()[i] != w.mem + m.p[3] + Rev::idx[i]) return "held swizzle is not its memory";
	Vec a(w.v[0]), b(w.v[1]); bool eq = true; for (int i = 0; i < N; ++i) eq &= a[i] == b[i];
	if ((w.v[0] == w.v[1]) != eq) return "== between views differs";
	return nullptr;
}
static std::string show(const Model &m) { return strf("memory %s, v0@%d v1@%d c@%d held@%d", vstr(std::vector<T>(m.mem, m.mem + M)).c_str(), m.p[0], m.p[1], m.p[2], m.p[3]); }
// does the operation end as it should (normally, or refused with an exception)?
static bool run_op(const Op &o, World &w, const Model &before, std::string &why)
{
	Out out = attempt([&] { o.real(w); });
	Out want = Out::ok;
	if (o.throws) { int d = std::abs(before.p[0] - before.p[1]); if (d > 0 && d < N) want = Out::threw; }
	if (out != want) { why = strf("ended with %s, expected %s", name(out), name(want)); return false; }
	return true;
}
static u64 encode(const Model &m) { u64 x = 0; for (int i = 0; i < M; ++i) x = x * vmax + m.mem[i]; for (int i = 0; i < 4; ++i) x = x * OFFS + m.p[i]; return x; }
static Model decode(u64 x) { Model m; for (int i = 3; i >= 0; --i) { m.p[i] = x % OFFS; x /= OFFS; } for (int i = M - 1; i >= 0; --i) { m.mem[i] = x % vmax; x /= vmax; } return m; }

static thread_local std::vector<int> path;
static void sequences(World &w, const Model &m, int depth, Counters &c)
{
	if (depth == 0 || stop) return;
	for (int i = 0; i < (int)ops.size(); ++i)
	{
		// live objects cannot be rewound: replay the whole prefix on fresh ones
		Model n = m; if (!ops[i].model(n)) continue;
		World f; Model start = decode(0);
		for (int j = 0; j < M; ++j) start.mem[j] = j % vmax;
		start.p[1] = OFFS - 1; start.p[2] = OFFS / 2; start.p[3] = 0;
		f.build(start);
		Model cur = start; bool bad = false; std::string why;
		for (int p : path) { run_op(ops[p], f, cur, why); ops[p].model(cur); }
		ctx.what = ops[i].name.c_str();
		bad = !run_op(ops[i], f, cur, why);
		if (!bad) if (const char *d = disagrees(f, n)) { bad = true; why = d; }
		++c.transitions; ++c.traces;
		if (bad)
		{
			std::string h; for (int p : path) h += ops[p].name + "; ";
			fail(strf("history N=%d: %s", N, ops[i].name.c_str()), strf("from %s: %s%s: %s, expected %s", show(start).c_str(), h.c_str(), ops[i].name.c_str(), why.c_str(), show(n).c_str()));
			continue;
		}
		path.push_back(i); sequences(f, n, depth - 1, c); path.pop_back();
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	vmax = thorough ? VT : V;
	build_ops();
	// closed search: every state reachable (level by level; a level is explored in parallel)
	u64 nstates = 1; for (int i = 0; i < M; ++i) nstates *= vmax; for (int i = 0; i < 4; ++i) nstates *= OFFS;
	std::vector<std::atomic<unsigned char>> seen(nstates);
	std::vector<u64> level{ 0 }; seen[0] = 1;
	u64 reached = 1, levels = 0;
	while (!level.empty() && !stop)
	{
		++levels;
		std::vector<u64> next; std::mutex nm;
		parallel(level.size(), [&](Counters &c, u64 lo, u64 hi) {
			World w; std::vector<u64> mine;
			for (u64 q = lo; q < hi; ++q)
			{
				const Model m = decode(level[q]);
				++c.states;
				for (auto &o : ops)
				{
					Model n = m; if (!o.model(n)) continue;
					w.build(m); std::string why;
					ctx.what = o.name.c_str();
					bool bad = !run_op(o, w, m, why);
					if (!bad) if (const char *d = disagrees(w, n)) { bad = true; why = d; }
					++c.transitions; ++c.traces;
					if (bad)
					{
						w.guard0[0] = w.guard0[1] = w.guard1[0] = w.guard1[1] = 77;
						fail(strf("step N=%d: %s", N, o.name.c_str()), strf("from %s: %s; expected %s, memory is %s", show(m).c_str(), why.c_str(), show(n).c_str(), vstr(std::vector<T>(w.mem, w.mem + M)).c_str()));
					}
					u64 e = encode(n);
					if (!seen[e].exchange(1)) mine.push_back(e);
				}
			}
			std::lock_guard<std::mutex> g(nm);
			next.insert(next.end(), mine.begin(), mine.end());
		});
		reached += next.size(); level.swap(next);
	}
	sample(strf("N=%d: %llu operations, %llu of %llu states reached in %llu levels", N, (u64)ops.size(), reached, nstates, levels));
	if (reached != nstates && !stop) sample("some states are not reachable by the operations");
	// histories on live objects
	int depth = thorough ? (N <= 2 ? 4 : 3) : N == 4 ? 2 : 3;
	Counters c; World w; Model start = decode(0);
	for (int j = 0; j < M; ++j) start.mem[j] = j % vmax;
	start.p[1] = OFFS - 1; start.p[2] = OFFS / 2; start.p[3] = 0;
	sequences(w, start, depth, c);
	total.states += c.states; total.transitions += c.transitions; total.traces += c.traces;
	sample(strf("N=%d: every sequence of %d operations on live objects, %llu steps compared", N, depth, c.transitions));
	return finish();
}
