// The kinds of vector-like objects, each over memory the harness can see, with non-trivial index mappings.
#pragma once
#include "mc.hpp"

// -DMC_TWICE: the swizzles of two and more components use their first letter twice (read-only; components first and last share their memory)
#ifdef MC_TWICE
#define MC_WORD(a, b) b
#else
#define MC_WORD(a, b) a
#endif

namespace mc
{
	enum Kind { K_VEC, K_SWZ, K_VIEW, K_VSWZ, K_OWN, K_OSWZ, K_CVIEW, K_CVSWZ, NKINDS };
	constexpr const char *kname(int k)
	{
		constexpr const char *n[] = { "vector", "vector-swizzle", "view", "view-swizzle", "owning-view", "owning-view-swizzle", "const-view", "const-view-swizzle" };
		return n[k];
	}
	constexpr bool kwritable(int k) { return k < K_CVIEW; }

	template <class T, int N, int K> struct Obj;

	// raw(): the memory behind the object (RAWN elements); slot(i): where component i lives in it
	template <class T, int N> struct Obj<T, N, K_VEC>
	{
		static constexpr int RAWN = N;
		dsga::basic_vector<T, N> v{};
		auto &get() { return v; }
		T *raw() { return reinterpret_cast<T *>(&v); }
		static constexpr int slot(int i) { return i; }
	};
	template <class T, int N> struct Obj<T, N, K_SWZ>
	{
		static constexpr int RAWN = 4;
		dsga::basic_vector<T, 4> v{};
		auto &get() { if constexpr (N == 1) return v.z; else if constexpr (N == 2) return v.MC_WORD(wy, yy); else if constexpr (N == 3) return v.MC_WORD(ywx, ywy); else return v.MC_WORD(yzwx, yzwy); }
		T *raw() { return reinterpret_cast<T *>(&v); }
		static constexpr int slot(int i)
		{
#ifdef MC_TWICE
			constexpr int m[4][4] = { { 2 }, { 1, 1 }, { 1, 3, 1 }, { 1, 2, 3, 1 } };
#else
			constexpr int m[4][4] = { { 2 }, { 3, 1 }, { 1, 3, 0 }, { 1, 2, 3, 0 } };
#endif
			return m[N - 1][i];
		}
	};
	template <class T, int N> struct Obj<T, N, K_VIEW>
	{
		static constexpr int RAWN = 8;
		T buf[8] = {};
		dsga::basic_view<true, T, N> v{ buf + 2 };
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { return v; }
		T *raw() { return buf; }
		static constexpr int slot(int i) { return 2 + i; }
	};
	template <class T, int N> struct Obj<T, N, K_VSWZ>
	{
		static constexpr int RAWN = 8;
		T buf[8] = {};
		dsga::basic_view<true, T, 4> v{ buf + 2 };
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { if constexpr (N == 1) return v.y; else if constexpr (N == 2) return v.MC_WORD(zx, zz); else if constexpr (N == 3) return v.MC_WORD(wxz, wxw); else return v.MC_WORD(wxyz, wxyw); }
		T *raw() { return buf; }
		static constexpr int slot(int i)
		{
#ifdef MC_TWICE
			constexpr int m[4][4] = { { 3 }, { 4, 4 }, { 5, 2, 5 }, { 5, 2, 3, 5 } };
#else
			constexpr int m[4][4] = { { 3 }, { 4, 2 }, { 5, 2, 4 }, { 5, 2, 3, 4 } };
#endif
			return m[N - 1][i];
		}
	};
	template <class T, int N> struct Obj<T, N, K_OWN>
	{
		static constexpr int RAWN = N;
		dsga::view_vector<T, N> v{};
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { return v; }
		T *raw() { return v.data(); }
		static constexpr int slot(int i) { return i; }
	};
	template <class T, int N> struct Obj<T, N, K_OSWZ>
	{
		static constexpr int RAWN = 4;
		dsga::view_vector<T, 4> v{};
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { if constexpr (N == 1) return v.w; else if constexpr (N == 2) return v.MC_WORD(xw, ww); else if constexpr (N == 3) return v.MC_WORD(zyx, zyz); else return v.MC_WORD(yxwz, zxwz); }
		T *raw() { return v.data(); }
		static constexpr int slot(int i)
		{
#ifdef MC_TWICE
			constexpr int m[4][4] = { { 3 }, { 3, 3 }, { 2, 1, 2 }, { 2, 0, 3, 2 } };
#else
			constexpr int m[4][4] = { { 3 }, { 0, 3 }, { 2, 1, 0 }, { 1, 0, 3, 2 } };
#endif
			return m[N - 1][i];
		}
	};
	template <class T, int N> struct Obj<T, N, K_CVIEW>
	{
		static constexpr int RAWN = 8;
		T buf[8] = {};
		dsga::basic_view<false, T, N> v{ buf + 3 };
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { return v; }
		T *raw() { return buf; }
		static constexpr int slot(int i) { return 3 + i; }
	};
	template <class T, int N> struct Obj<T, N, K_CVSWZ>
	{
		static constexpr int RAWN = 8;
		T buf[8] = {};
		dsga::basic_view<false, T, 4> v{ buf + 3 };
		Obj() = default; Obj(const Obj &) = delete;
		auto &get() { if constexpr (N == 1) return v.x; else if constexpr (N == 2) return v.MC_WORD(yz, yy); else if constexpr (N == 3) return v.MC_WORD(xyw, xzx); else return v.MC_WORD(wzyx, xzyx); }
		T *raw() { return buf; }
		static constexpr int slot(int i)
		{
#ifdef MC_TWICE
			constexpr int m[4][4] = { { 3 }, { 4, 4 }, { 3, 5, 3 }, { 3, 5, 4, 3 } };
#else
			constexpr int m[4][4] = { { 3 }, { 4, 5 }, { 3, 4, 6 }, { 6, 5, 4, 3 } };
#endif
			return m[N - 1][i];
		}
	};

	// the memory behind an object, without its type
	template <class T> struct Mem
	{
		T *raw = nullptr; int n = 0; int slot[4] = {}; int comps = 0; const char *kind = "";
		// put component values; every other element of the memory gets a marker
		void put(const T *vals, T marker = T(91)) const
		{
			for (int i = 0; i < n; ++i) raw[i] = marker;
			for (int i = 0; i < comps; ++i) raw[slot[i]] = vals[i];
		}
		T at(int i) const { return raw[slot[i]]; }
		// the components are vals and nothing else changed
		bool holds(const T *vals, T marker = T(91)) const
		{
			bool ok = true;
			for (int i = 0; i < n; ++i)
			{
				T want = marker;
				for (int j = 0; j < comps; ++j) if (slot[j] == i) want = vals[j];
				ok &= same_bits(raw[i], want);
			}
			return ok;
		}
		std::string show() const { return vstr(std::vector<T>(raw, raw + n)); }
	};
	template <class T, int N, int K> Mem<T> mem(Obj<T, N, K> &o)
	{
		Mem<T> m; m.raw = o.raw(); m.n = o.RAWN; m.comps = N; m.kind = kname(K);
		for (int i = 0; i < N; ++i) m.slot[i] = o.slot(i);
		return m;
	}
	template <class T> Mem<T> mem_scalar(T &x) { Mem<T> m; m.raw = &x; m.n = 1; m.comps = 1; m.kind = "scalar"; return m; }

	// compile-time loops
	template <int... Is, class F> void static_for_impl(std::integer_sequence<int, Is...>, F &&f) { (f(std::integral_constant<int, Is>{}), ...); }
	template <int N, class F> void static_for(F &&f) { static_for_impl(std::make_integer_sequence<int, N>{}, std::forward<F>(f)); }
	template <class... Ts> struct types {};
	template <class T> struct tag { using type = T; };
	template <class... Ts, class F> void for_types(types<Ts...>, F &&f) { (f(tag<Ts>{}), ...); }

	using num_types = types<int, unsigned, long long, unsigned long long, std::size_t, float, double>;
	using int_types = types<int, unsigned, long long, unsigned long long, std::size_t>;
	using all_types = types<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>;

	// what a result is: scalar (length 0) or dsga vector
	template <class R> struct shape { using T = R; static constexpr int n = 0; static constexpr bool vec = false; };
	template <class T_, std::size_t S> struct shape<dsga::basic_vector<T_, S>> { using T = T_; static constexpr int n = (int)S; static constexpr bool vec = true; };
	template <class R> auto comp(const R &r, int i) { if constexpr (shape<R>::vec) return r[i]; else return r; }

	// boundary alphabets
	template <class T> std::vector<T> alphabet()
	{
		using L = std::numeric_limits<T>;
		if constexpr (std::is_same_v<T, bool>) return { false, true };
		else if constexpr (std::is_floating_point_v<T>) return { T(0), T(1), T(-1), T(2), T(-2.5), T(3), T(0.375), T(1e10), T(16777217), T(-7), -T(0), L::max(), L::min(), L::infinity(), L::quiet_NaN() };
		else if constexpr (std::is_signed_v<T>) return { T(0), T(1), T(-1), T(2), T(-2), T(3), T(7), T(-13), T(31), T(100), L::max(), L::min(), T(L::max() - 1), T(0x55555555), T(16777217) };
		else return { T(0), T(1), T(2), T(3), T(5), T(7), T(13), T(31), T(100), L::max(), T(L::max() - 1), T(L::max() / 2 + 1), T(L::max() / 2), T(0x55555555), T(16777217) };
	}
}
