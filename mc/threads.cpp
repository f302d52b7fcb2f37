// P39: two threads, every interleaving of their memory accesses.  -DMC_K=0 vector, 1 view over external memory, 2 owning view, 3 matrix column, 4 matrix of -DMC_COLS=3 columns; -DMC_T=0 int, 6 double, 5 float; -DMC_S=2..4 components
// Compiled with -Xclang -fsanitize=thread: see access.hpp.
#include "access.hpp"
#include "swizzles.hpp"
#include <ucontext.h>
using namespace mc;
using namespace dsga;
using T = std::tuple_element_t<MC_T, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>;
template <int N> using V = basic_vector<T, N>;
constexpr int S = MC_S;
constexpr bool FP = std::is_floating_point_v<T>;

// ---- the shared object: four components, watched byte by byte, and guards around them -------------------------------------------
#if MC_K == 0
struct Shared { T before[4]; basic_vector<T, S> v; T after[4]; T *mem() { return v.data(); } auto &get() { return v; } };
#elif MC_K == 1
struct Shared { T before[4]; T raw[S]; T after[4]; basic_view<true, T, S> v{ raw }; T *mem() { return raw; } auto &get() { return v; } };
#elif MC_K == 2
struct Shared { T before[4]; view_vector<T, S> v; T after[4]; T *mem() { return v.data(); } auto &get() { return v; } };
#elif MC_K == 4
#ifndef MC_COLS
#define MC_COLS 3
#endif
constexpr int COLS = MC_COLS;
struct Shared { T before[4]; basic_matrix<T, COLS, S> m; T after[4]; T *mem() { return m[0].data(); } auto &get() { return m; } };
#else
struct Shared { T before[4]; basic_matrix<T, 3, S> m; T after[4]; T *mem() { return m[1].data(); } auto &get() { return m[1]; } };
#endif
#if MC_K == 4
constexpr int NC = COLS * S;
#else
constexpr int NC = S;
#endif
alignas(64) static Shared sh;
static T *const comp_ = sh.mem();
static T value_at(int i) { return T(i * i + 3 * i + 2); }
static void reset() { for (int i = 0; i < NC; ++i) comp_[i] = value_at(i); }

// ---- operations ----------------------------------------------------------------------------------------------------------------------
struct Op { const char *word; int n, code; bool writes; unsigned mask; void (*run)(T *out); unsigned also_read; };
static T fresh(int i) { return T(i + 5); }
template <int N> V<N> local() { if constexpr (N == 1) return V<1>(fresh(0)); else if constexpr (N == 2) return V<2>(fresh(0), fresh(1)); else if constexpr (N == 3) return V<3>(fresh(0), fresh(1), fresh(2)); else return V<4>(fresh(0), fresh(1), fresh(2), fresh(3)); }
template <class X> void put(T *&out, const X &x) { if constexpr (requires { x.size(); }) for (auto e : x) *out++ = T(e); else *out++ = T(x); }
static std::vector<Op> writers, readers;
#if MC_K == 4
constexpr const char *wnames[] = { "[c] = vector", "[c] += vector", "++[c]", "[c].set()", "range-for over [c]", "get<c>() =", "begin()[c] =", "data()[c] *= scalar", "[c][r] =", "[c] last two swapped =", "[c] x =", "[c] = another column", "copy_n to data() of [c]" };
constexpr const char *rnames[] = { "[c]", "[c] * scalar", "row(r)", "[c][r]", "dot([c], [c])", "get<c>()", "*(rend() - 1 - c)", "== row", "matrix * vector", "vector * matrix", "transpose", "+", "==", "copy", "determinant", "inverse", "to_array", "- scalar", "matrixCompMult" };
constexpr int NW = sizeof wnames / sizeof *wnames, NR = sizeof rnames / sizeof *rnames, WHOLE = 8;
template <int C, int R, int CODE, class M> void mwrite(T *)
{
	M &m = sh.get(); const V<S> l = local<S>();
	if constexpr (CODE == 0) m[C] = l; else if constexpr (CODE == 1) m[C] += l; else if constexpr (CODE == 2) ++m[C]; else if constexpr (CODE == 3) [&]<std::size_t... I>(std::index_sequence<I...>) { m[C].set(fresh(I)...); }(std::make_index_sequence<S>{});
	else if constexpr (CODE == 4) { for (auto &e : m[C]) e = T(3); } else if constexpr (CODE == 5) dsga::get<C>(m) = l; else if constexpr (CODE == 6) m.begin()[C] = l; else if constexpr (CODE == 7) m.data()[C] *= T(3);
	else if constexpr (CODE == 8) m[C][R] = T(9); else if constexpr (CODE == 9) { if constexpr (S == 2) m[C].yx = V<2>(1, 2); else if constexpr (S == 3) m[C].zy = V<2>(1, 2); else m[C].wz = V<2>(1, 2); }
	else if constexpr (CODE == 10) m[C].x = T(9); else if constexpr (CODE == 11) m[C] = m[(C + 1) % COLS]; else std::copy_n(l.begin(), S, m.data()[C].data());
}
template <int C, int R, int CODE, class M> void mread(T *out)
{
	const M &m = sh.get(); auto put_m = [&](const auto &x) { for (int c = 0; c < (int)x.size(); ++c) put(out, x[c]); };
	if constexpr (CODE == 0) { V<S> r(m[C]); put(out, r); } else if constexpr (CODE == 1) put(out, m[C] * T(2)); else if constexpr (CODE == 2) put(out, m.row(R)); else if constexpr (CODE == 3) put(out, m[C][R]); else if constexpr (CODE == 4) put(out, dsga::dot(m[C], m[C]));
	else if constexpr (CODE == 5) put(out, dsga::get<C>(m)); else if constexpr (CODE == 6) put(out, *(m.rend() - 1 - C)); else if constexpr (CODE == 7) put(out, m.row(R) == V<COLS>(T(1)));
	else if constexpr (CODE == 8) put(out, m * V<COLS>(T(2))); else if constexpr (CODE == 9) put(out, V<S>(T(2)) * m); else if constexpr (CODE == 10) put_m(dsga::transpose(m)); else if constexpr (CODE == 11) put_m(m + m); else if constexpr (CODE == 12) put(out, m == m); else if constexpr (CODE == 13) { auto r = m; put_m(r); }
	else if constexpr (CODE == 14) { if constexpr (S == COLS) put(out, dsga::determinant(m)); else put(out, m[0][0]); } else if constexpr (CODE == 15) { if constexpr (S == COLS) put_m(dsga::inverse(m)); else put(out, m[0][0]); } else if constexpr (CODE == 16) put(out, dsga::to_array(m)); else if constexpr (CODE == 17) put_m(m - T(2)); else put_m(dsga::matrixCompMult(m, m));
}
template <int C, int R> void add_ops()
{
	static char names[4]; snprintf(names, sizeof names, "%d%c", C, "xyzw"[R]); const unsigned all = (1u << S) - 1, col = all << C * S, el = 1u << (C * S + R); unsigned row = 0; for (int c = 0; c < COLS; ++c) row |= 1u << (c * S + R);
	static_for<NW>([&](auto k) { const bool e = k == 8; if (e || R == 0) writers.push_back({ names, k == 8 || k == 10 ? 1 : S, (int)k, true, e ? el : k == 9 ? 3u << (C * S + S - 2) : k == 10 ? 1u << C * S : col, mwrite<C, R, (int)k, basic_matrix<T, COLS, S>>, k == 11 ? all << ((C + 1) % COLS) * S : 0 }); });
	static_for<NR>([&](auto k) { const bool rows = k == 2 || k == 7, e = k == 3; if (e || (rows ? C == 0 : k >= WHOLE ? C == 0 && R == 0 : R == 0)) readers.push_back({ names, e ? 1 : rows ? COLS : S, (int)k, false, e ? el : rows ? row : k >= WHOLE ? (1u << NC) - 1 : col, mread<C, R, (int)k, basic_matrix<T, COLS, S>>, 0 }); });
}
#else
constexpr const char *wnames[] = { "= vector", "+= vector", "-= scalar", "++", "post--", "set()", "range-for assignment", "copy to begin()", "fill from rbegin()", "get<0>() =", "[i] =", "*= view", "modf or shift output", "= owning view", "= view" };
constexpr const char *rnames[] = { "copy", "+ itself", "== vector", "sum()", "min()", "shift()", "query()", "apply()", "get<0>()", "loop", "lessThan()", "negated", "function of two", "to_array()", "dot or &", "conversion", "part of a longer vector", "owning view of it", "set() of another vector" };
constexpr int NW = sizeof wnames / sizeof *wnames, NR = sizeof rnames / sizeof *rnames;
template <class A, int C> void write_op(T *)
{
	constexpr int N = A::n; auto &s = A::get(sh.get());
	V<N> l = local<N>();
	if constexpr (C == 0) s = l; else if constexpr (C == 1) s += l; else if constexpr (C == 2) s -= T(1); else if constexpr (C == 3) ++s; else if constexpr (C == 4) s--;
	else if constexpr (C == 5) [&]<std::size_t... I>(std::index_sequence<I...>) { if constexpr (requires { s.set(fresh(I)...); }) s.set(fresh(I)...); else ((s[I] = fresh(I)), ...); }(std::make_index_sequence<N>{});
	else if constexpr (C == 6) { int i = 0; if constexpr (N == 1 && std::is_same_v<std::remove_cvref_t<decltype(s)>, T>) s = fresh(0); else for (auto &e : s) e = fresh(i++); }
	else if constexpr (C == 7) std::copy(l.begin(), l.end(), s.begin()); else if constexpr (C == 8) std::fill(s.rbegin(), s.rend(), T(9)); else if constexpr (C == 9) dsga::get<0>(s) = T(9);
	else if constexpr (C == 10) { for (int i = 0; i < N; ++i) s[i] = fresh(i); }
	else if constexpr (C == 11) { T a[4] = { 2, 3, 4, 5 }; basic_view<false, T, N> w(a); s *= w; }
	else if constexpr (C == 12) { if constexpr (FP) { V<N> x = l; dsga::modf(x, s); } else s <<= 1; }
	else if constexpr (C == 13) { view_vector<T, N> o(l); s = o; }
	else { T a[4] = { 2, 3, 4, 5 }; basic_view<true, T, N> w(a); s = w; }
}
template <class A, int C> void read_op(T *out)
{
	constexpr int N = A::n; const auto &s = A::get(sh.get());
	V<N> l = local<N>();
	if constexpr (C == 0) { V<N> r(s); put(out, r); } else if constexpr (C == 1) put(out, s + s); else if constexpr (C == 2) put(out, s == l); else if constexpr (C == 3) put(out, s.sum()); else if constexpr (C == 4) put(out, s.min());
	else if constexpr (C == 5) put(out, s.shift(1)); else if constexpr (C == 6) put(out, s.query([](T x) { return x > T(3); })); else if constexpr (C == 7) put(out, s.apply([](T x) { return x + x; })); else if constexpr (C == 8) put(out, dsga::get<N - 1>(s));
	else if constexpr (C == 9) { for (auto e : s) *out++ = e; } else if constexpr (C == 10) put(out, dsga::lessThan(s, l)); else if constexpr (C == 11) put(out, -s);
	else if constexpr (C == 12) put(out, dsga::max(s, l)); else if constexpr (C == 13) put(out, dsga::to_array(s)); else if constexpr (C == 14) { if constexpr (FP) put(out, dsga::dot(s, s)); else put(out, s & l); }
	else if constexpr (C == 15) put(out, basic_vector<double, N>(s)); else if constexpr (C == 16) { if constexpr (N < 4) put(out, V<N + 1>(s, T(1))); else put(out, V<2>(s)); } else if constexpr (C == 17) put(out, view_vector<T, N>(s));
	else { V<2> r; if constexpr (N == 1) r.set(s, s); else r.set(s[0], s[1]); put(out, r); }
}
template <class A> void add_writers() { unsigned m = 0; for (int i = 0; i < A::n; ++i) m |= 1u << A::idx[i]; static_for<NW>([&](auto c) { writers.push_back({ A::name, A::n, (int)c, true, m, write_op<A, (int)c>, 0 }); }); }
template <class A> void add_readers() { unsigned m = 0; for (int i = 0; i < A::n; ++i) m |= 1u << A::idx[i]; static_for<NR>([&](auto c) { if constexpr (A::n <= 2 || (int)c < 3 || ((int)c + A::idx[0] + 2 * A::idx[1] + 3 * A::idx[2] + A::idx[3]) % 5 == 0) readers.push_back({ A::name, A::n, (int)c, false, m, read_op<A, (int)c>, 0 }); }); }
template <class... A> void each_w(types<A...>) { (add_writers<A>(), ...); }
template <class... A> void each_r(types<A...>) { (add_readers<A>(), ...); }
#endif
constexpr const char *kinds[] = { "vector", "view", "owning view", "matrix column", "matrix" };
static std::string text(const Op &o) { return strf("%s%d %s %s", kinds[MC_K], S, o.word, o.writes ? wnames[o.code] : rnames[o.code]); }

// ---- the controlled scheduler -----------------------------------------------------------------------------------------------------------
constexpr std::size_t STACK = 256 * 1024, OUT = 64;
struct Co { ucontext_t uc; char *stack = static_cast<char *>(aligned_alloc(64, STACK)); bool done = false; const Op *op = nullptr; T *out() { return reinterpret_cast<T *>(stack); } };
static Co co[2]; static ucontext_t back; static int running;
struct Access { int t; char *p; std::size_t n; bool w; };
static std::vector<Access> trace; static bool interleave = false;
MC_RAW static void on_access(char *p, std::size_t n, bool w)
{
	const bool comp = p + n > reinterpret_cast<char *>(comp_) && p < reinterpret_cast<char *>(comp_ + NC);
	if (!comp && !w) return;                            // reading what nobody writes
	trace.push_back({ running, p, n, w });
	if (interleave && comp) { const int me = running; swapcontext(&co[me].uc, &back); }
}
MC_RAW static void body() { Co &c = co[running]; c.op->run(c.out()); mc::access::on = false; c.done = true; setcontext(&back); }
MC_RAW static void resume(int t)
{
	running = t; mc::access::lo = co[t].stack; mc::access::hi = co[t].stack + STACK; mc::access::on = true; swapcontext(&back, &co[t].uc); mc::access::on = false;
}
static void start(int t, const Op &o)
{
	Co &c = co[t]; c.done = false; c.op = &o; memset(c.stack, 0, OUT * sizeof(T)); getcontext(&c.uc); c.uc.uc_stack.ss_sp = c.stack + 1024; c.uc.uc_stack.ss_size = STACK - 1024; c.uc.uc_link = nullptr; makecontext(&c.uc, body, 0);
}
// the components an operation read and wrote; anything else it wrote is reported
static bool footprint(const Op &o, unsigned &R, unsigned &W)
{
	reset(); trace.clear(); interleave = false; start(0, o); resume(0); R = W = 0; bool good = true;
	for (auto &a : trace)
	{
		const std::ptrdiff_t off = a.p - reinterpret_cast<char *>(comp_);
		for (std::size_t b = 0; b < a.n; ++b) { const std::ptrdiff_t q = off + (std::ptrdiff_t)b; if (q >= 0 && q < (std::ptrdiff_t)(NC * sizeof(T))) (a.w ? W : R) |= 1u << q / (int)sizeof(T); else if (a.w) { good = false; } }
		++total.transitions;
	}
	return good;
}
static std::string letters(unsigned m) { std::string s; for (int i = 0; i < NC; ++i) if (m >> i & 1) { if (NC > 4) s += char('0' + i / S); s += "xyzw"[i % S]; } return s.empty() ? "nothing" : s; }
struct Final { T mem[NC]; T out[2][OUT]; };
static bool same_final(const Final &a, const Final &b) { return !memcmp(&a, &b, sizeof a); }
static Final finals() { Final f; memset(&f, 0, sizeof f); memcpy(f.mem, comp_, sizeof f.mem); for (int t = 0; t < 2; ++t) memcpy(f.out[t], co[t].out(), sizeof f.out[t]); return f; }
// one execution under the schedule `ch` (extended with first-thread choices); returns the choices where both threads could move
static u64 execute(const Op &a, const Op &b, std::vector<char> &ch)
{
	reset(); trace.clear(); interleave = true; start(0, a); start(1, b); resume(0); resume(1); std::size_t at = 0; u64 steps = 0;
	while (!co[0].done || !co[1].done)
	{
		int t = co[0].done ? 1 : 0;
		if (!co[0].done && !co[1].done) { if (at == ch.size()) ch.push_back(0); t = ch[at++]; }
		resume(t); ++steps;
	}
	return steps;
}
static u64 schedules(const Op &a, const Op &b)
{
	std::vector<char> ch; u64 n = 0; Final want; bool have = false;
	for (;;)
	{
		total.transitions += execute(a, b, ch); ++n; Final f = finals();
		if (!have) { want = f; have = true; }
		else if (!same_final(f, want))
		{
			std::string s; for (char c : ch) s += char('1' + c); fail("interleaving of [" + text(a) + "] and [" + text(b) + "]", "schedule " + s + ": " + vstr(std::vector<T>(f.mem, f.mem + NC)) + " instead of " + vstr(std::vector<T>(want.mem, want.mem + NC)));
			break;
		}
		while (!ch.empty() && ch.back() == 1) ch.pop_back();
		if (ch.empty()) break;
		ch.back() = 1;
	}
	return n;
}
int main(int argc, char **argv)
{
	init(argc, argv); mc::access::event = on_access;
#if MC_K == 4
	static_for<COLS * S>([](auto q) { add_ops<(int)q / S, (int)q % S>(); });
#else
	static_for<4>([](auto k) { each_w(USwz<S, k + 1>{}); });
	static_for<4>([](auto k) { each_r(Swz<S, k + 1>{}); });
#endif
	// every operation touches only the components it names
	std::vector<const Op *> ok;
	for (auto *l : { &writers, &readers }) for (const Op &o : *l)
	{
		unsigned R, W; ctx.what = o.word; const bool good = footprint(o, R, W); ++total.states; ++total.traces; unsigned mask = o.mask, rmask = mask | o.also_read;
		if (trace.empty()) fail("no access seen", text(o));
		if (!good) fail("writes elsewhere: " + text(o), "memory that is no part of the components");
		if (R & ~rmask) fail("reads other components: " + text(o), letters(R)); if (W & ~(o.writes ? mask : 0)) fail("writes other components: " + text(o), letters(W));
	}
	// every interleaving of two operations on disjoint components, and of two reads
	u64 pairs = 0, most = 0;
#if MC_K == 4
	auto chosen = [](const Op &o) { if (!o.writes && o.code >= WHOLE) return false; return thorough || (o.writes ? o.code == 0 || o.code == 1 || o.code == 3 || o.code == 5 || o.code >= 8 : o.code == 0 || o.code == 2 || o.code == 3 || o.code == 5); };
#else
	auto chosen = [](const Op &o) { return o.writes ? o.code == 0 || o.code == 1 || (thorough || o.n < 3) && (o.code == 3 || o.code == 6 || o.code == 12) || thorough : o.code == 0 || o.code == 2 || (o.n < 3 || thorough) && (o.code == 5 || o.code == 1); };
#endif
	for (const Op &a : writers) if (chosen(a))
	{
		for (auto *l : { &writers, &readers }) for (const Op &b : *l) if (!(a.mask & (b.mask | b.also_read)) && !(b.writes && b.mask & a.also_read) && chosen(b) && (!b.writes || &a < &b)) { const u64 n = schedules(a, b); most = std::max(most, n); total.traces += n; total.states += n; ++pairs; }
	}
	if (MC_K != 4) for (const Op &a : readers) if (a.n == std::min(3, S) && a.code == 0) for (const Op &b : readers) if (b.n == 2 && b.code == 2) { const u64 n = schedules(a, b); most = std::max(most, n); total.traces += n; total.states += n; ++pairs; }
	count_extra("pairs_interleaved", pairs);
	sample(strf("%zu writing and %zu reading operations; all interleavings of %llu pairs, up to %llu schedules each", writers.size(), readers.size(), pairs, most));
	return finish();
}
