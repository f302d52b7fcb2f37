// P13: rounding functions, every float and a double lattice, with the run-time and the compile-time algorithm.
#include "fp.hpp"
using namespace mc;

template <class T> struct Fn { const char *name; T (*scalar)(T); dsga::basic_vector<T, 4> (*vec)(const dsga::basic_vector<T, 4> &); Rnd mode; int kind; };

template <class T> const std::vector<Fn<T>> &fns()
{
	using V = dsga::basic_vector<T, 4>;
	static const std::vector<Fn<T>> f {
		{ "trunc", [](T x) -> T { return dsga::trunc(x); }, [](const V &v) -> V { return dsga::trunc(v); }, Rnd::trunc, 0 },
		{ "floor", [](T x) -> T { return dsga::floor(x); }, [](const V &v) -> V { return dsga::floor(v); }, Rnd::floor, 0 },
		{ "ceil", [](T x) -> T { return dsga::ceil(x); }, [](const V &v) -> V { return dsga::ceil(v); }, Rnd::ceil, 0 },
		{ "round", [](T x) -> T { return dsga::round(x); }, [](const V &v) -> V { return dsga::round(v); }, Rnd::away, 0 },
		{ "roundEven", [](T x) -> T { return dsga::roundEven(x); }, [](const V &v) -> V { return dsga::roundEven(v); }, Rnd::even, 0 },
		{ "fract", [](T x) -> T { return dsga::fract(x); }, [](const V &v) -> V { return dsga::fract(v); }, Rnd::floor, 1 },
	};
	return f;
}

template <class T> void check(const Fn<T> &f, bool ce, bool vec, T x, T got, Counters &c)
{
	T want;
	if (f.kind == 1)
	{
		// x - floor(x) for finite x; not defined for infinities and NaN
		if (!(x - x == x - x)) return;
		want = oracle_fract(x);
	}
	else want = oracle_round(x, f.mode);
	++c.transitions;
	if (!same(got, want))
		fail(strf("%s/%s/%s/%s", f.name, tname<T>(), ce ? "compile-time" : "run-time", vec ? "vector" : "scalar"),
			strf("%s(%s) = %s, expected %s", f.name, str(x).c_str(), str(got).c_str(), str(want).c_str()));
}

template <class T, class Gen> void sweep(u64 n, Gen gen)
{
	parallel((n + 3) / 4, [&](Counters &c, u64 lo, u64 hi) {
		for (int ce = 0; ce < 2; ++ce)
		{
			std::mc_force_ce = ce;
			for (u64 i = lo; i < hi; ++i)
			{
				T x[4];
				for (int k = 0; k < 4; ++k) x[k] = gen(std::min(n - 1, i * 4 + k));
				if (!ce) c.states += 4;
				dsga::basic_vector<T, 4> v(x[0], x[1], x[2], x[3]);
				ctx.what = "rounding"; ctx.a[0] = (long long)(i * 4); ctx.a[1] = ce;
				for (auto &f : fns<T>())
				{
					auto r = f.vec(v);
					for (int k = 0; k < 4; ++k) check(f, ce, true, x[k], (T)r[k], c);
					const int k = int(i & 3);
					check(f, ce, false, x[k], f.scalar(x[k]), c);
				}
				++c.traces;
			}
		}
		std::mc_force_ce = false;
	});
}

int main(int argc, char **argv)
{
	init(argc, argv);
	// quick: every float whose low mantissa bits are 0, 1, half or all ones around each of 2^20 prefixes; thorough: all 2^32
	if (thorough) sweep<float>(1ull << 32, [](u64 i) { return f32((u32)i); });
	else sweep<float>(1ull << 28, [](u64 i) {
		static constexpr u32 low[16] = { 0, 1, 2, 7, 8, 15, 16, 31, 63, 64, 127, 128, 129, 254, 255, 192 };
		return f32((u32)((i >> 4) << 8 | low[i & 15])); });
	DoubleLattice L(thorough ? 12 : 7);
	sweep<double>(L.size(), [&](u64 i) { return L.at(i); });
	sample(strf("round(vec4(%a..)) over %s floats and %llu doubles, run-time and compile-time algorithm", 0.49999997, thorough ? "2^32" : "2^28", (unsigned long long)L.size()));
	for (float x : { 0.49999997f, 8388607.5f, 1e10f, -0.5f, 2.5f })
		sample(strf("roundEven(%s)=%s round=%s fract=%s", str(x).c_str(), str(dsga::roundEven(x)).c_str(), str(dsga::round(x)).c_str(), str(dsga::fract(x)).c_str()));
	return finish();
}
