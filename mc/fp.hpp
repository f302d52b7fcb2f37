// Floating-point alphabets and exact oracles that share no code with the library.
#pragma once
#include "mc.hpp"

namespace mc
{
	inline float f32(u32 b) { return std::bit_cast<float>(b); }
	inline double f64(u64 b) { return std::bit_cast<double>(b); }

	// --- a lattice of doubles: every sign, every exponent, and a structured set of mantissas ---------
	// mantissas: top bits all combinations, low bits one of a few patterns; plus single bits and runs of ones
	struct DoubleLattice
	{
		std::vector<u64> mant;
		std::vector<u64> extra;      // explicit extra points (bit patterns)
		explicit DoubleLattice(int topbits)
		{
			std::set<u64> m;
			const int low = 52 - topbits;
			for (u64 t = 0; t < (1ull << topbits); ++t)
				for (u64 l : { u64(0), u64(1), (1ull << low) - 1, 1ull << (low - 1) })
					m.insert((t << low) | l);
			for (int b = 0; b < 52; ++b)
			{
				m.insert(1ull << b);                               // one bit
				m.insert((1ull << b) - 1);                         // low run of ones
				m.insert(((1ull << 52) - 1) & ~((1ull << b) - 1)); // high run of ones
				m.insert(((1ull << 52) - 1) & ~(1ull << b));       // all but one
			}
			mant.assign(m.begin(), m.end());
			// neighbourhoods of the halves: k/2 +- 0..2 ulp
			std::set<u64> e;
			auto around = [&](double d) {
				u64 b = std::bit_cast<u64>(d);
				for (int k = -2; k <= 2; ++k) { u64 v = b + (u64)(long long)k; e.insert(v & 0x7fffffffffffffffull); e.insert(v | 0x8000000000000000ull); }
			};
			for (int k = 1; k <= 8192; ++k) around(k * 0.5);
			for (int p = 10; p <= 64; ++p) for (int k = -3; k <= 3; ++k) around(std::ldexp(1.0, p) + 0.5 * k);
			extra.assign(e.begin(), e.end());
		}
		u64 size() const { return 4096ull * mant.size() + extra.size(); }
		double at(u64 i) const
		{
			if (i >= 4096ull * mant.size()) return f64(extra[i - 4096ull * mant.size()]);
			return f64(((i / mant.size()) << 52) | mant[i % mant.size()]);
		}
	};

	// the special values every binary/ternary enumeration goes through
	template <class T> std::vector<T> fp_specials(bool big)
	{
		using L = std::numeric_limits<T>;
		std::vector<T> v { T(0), T(1), T(-1), T(2), T(-2), T(3), T(0.5), T(-0.5), T(0.25), T(1.5), T(-1.5), T(2.5), T(7), T(-7), T(10), T(0.1), T(-0.3), T(3.75),
			T(-T(0)), L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2,
			L::infinity(), -L::infinity(), L::quiet_NaN() };
		if (big)
			for (T x : { T(100), T(-100), T(1e5), T(-1e5), T(123456.789), T(1e-5), T(16777216), T(16777217), T(8388607.5), T(4503599627370495.5), T(9007199254740992.0),
				T(1e10), T(-1e10), T(1e19), T(-1e19), T(1e30), T(1e-30), T(std::numbers::pi), T(std::numbers::pi / 2), T(0.75), T(-0.75), T(0.3333333333333333), T(0.49999997), T(0.5000001), T(4), T(5), T(6), T(-4), T(-5), T(-6), T(0.7), T(1.1) })
				v.push_back(x);
		return v;
	}

	// --- exact integer-rounding oracles, by bit manipulation only ---------------------------------------
	template <class T> struct fpbits;
	template <> struct fpbits<float> { using U = u32; static constexpr int M = 23, B = 127; };
	template <> struct fpbits<double> { using U = u64; static constexpr int M = 52, B = 1023; };

	enum class Rnd { trunc, floor, ceil, away, even };
	template <class T> T oracle_round(T x, Rnd mode)
	{
		using F = fpbits<T>; using U = typename F::U;
		const U SIGN = U(1) << (sizeof(T) * 8 - 1);
		U b = std::bit_cast<U>(x);
		const U s = b & SIGN; U m = b & ~SIGN;
		const int e = int(m >> F::M) - F::B;                 // unbiased exponent
		if (e >= F::M) return x;                             // integer already, infinity or NaN
		if (m == 0) return x;
		U ip, frac, half, unit;                              // magnitude split at the binary point (units of the mantissa)
		if (e < 0)
		{
			// |x| < 1: integer part 0
			ip = 0;
			const T ax = std::bit_cast<T>(m);
			bool up = false;
			switch (mode)
			{
				case Rnd::trunc: up = false; break;
				case Rnd::floor: up = s != 0; break;
				case Rnd::ceil: up = s == 0; break;
				case Rnd::away: up = ax >= T(0.5); break;
				case Rnd::even: up = ax > T(0.5); break;
			}
			return std::bit_cast<T>(U((up ? std::bit_cast<U>(T(1)) : U(0)) | s));
		}
		unit = U(1) << (F::M - e); half = unit >> 1;
		frac = m & (unit - 1); ip = m & ~(unit - 1);
		bool up = false;
		switch (mode)
		{
			case Rnd::trunc: up = false; break;
			case Rnd::floor: up = frac && s; break;
			case Rnd::ceil: up = frac && !s; break;
			case Rnd::away: up = frac >= half; break;
			// parity of the integer part: for e == 0 the integer part is 1 (the hidden bit), i.e. odd
			case Rnd::even: up = frac > half || (frac == half && (e == 0 || (ip & unit))); break;
		}
		if (up) ip += unit;                                  // a carry runs into the exponent, as it should
		return std::bit_cast<T>(U(ip | s));
	}
	// GLSL fract: x - floor(x)
	template <class T> T oracle_fract(T x) { return x - oracle_round(x, Rnd::floor); }
}
