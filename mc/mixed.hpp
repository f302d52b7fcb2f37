// Argument lists that mix component types: every argument is converted on its own, directly to the component type.
#pragma once
#include "kinds.hpp"
namespace mc
{
	using mixed_types = std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>;
	// values of U whose conversion to T is defined
	template <class T, class U> std::vector<U> convertible_values()
	{
		std::vector<U> r;
		for (U x : alphabet<U>())
		{
			if constexpr (std::is_floating_point_v<U> && !std::is_floating_point_v<T> && !std::is_same_v<T, bool>)
			{
				if (!(x == x)) continue;
				long double t = std::trunc((long double)x);
				if (t < (long double)std::numeric_limits<T>::lowest() || t > (long double)std::numeric_limits<T>::max()) continue;
			}
			if constexpr (std::is_same_v<U, double> && std::is_same_v<T, float>) if (x == x && std::abs(x) > 1e38 && std::abs(x) < 1e309) continue;
			r.push_back(x);
		}
		if constexpr (std::is_integral_v<U> && sizeof(U) == 8) for (U x : { U((1ull << 62) + 1), U((1ull << 53) + 1), U((1ull << 32) + 1) }) r.push_back(x);
		if constexpr (std::is_integral_v<U> && sizeof(U) == 4) r.push_back(U((1u << 30) + 1));
		return r;
	}
	using MixedThunk = void (*)(void *out, const void *args);       // args: a tuple of the arguments
	// every combination of values of one argument list, through one way of storing it
	template <class T, class... U> struct MixedList
	{
		static constexpr int n = sizeof...(U);
		static inline Counters *counters;
		template <class Way> static void run(const char *what)
		{
			if constexpr (requires (T *o, std::tuple<U...> a) { Way::go(o, a); })
			{
				std::tuple<std::vector<U>...> al{ convertible_values<T, U>()... };
				if constexpr (n > 2) // only the argument of another type takes every value
				{
					int same_ = (0 + ... + std::is_same_v<U, T>);
					auto cut = [&](auto &v) { using E = typename std::remove_reference_t<decltype(v)>::value_type; bool odd = std::is_same_v<E, T> ? same_ == 1 : same_ == n - 1; if (!odd || n == same_) { v.erase(v.begin(), v.end() - 2); } };
					std::apply([&](auto &...v) { (cut(v), ...); }, al);
				}
				std::size_t total_ = std::apply([](auto &...v) { return (v.size() * ...); }, al);
				ctx.what = what;
				for (std::size_t q = 0; q < total_; ++q)
				{
					std::size_t z = q; std::tuple<U...> a; T want[n], out[n];
					[&]<std::size_t... I>(std::index_sequence<I...>) { ((std::get<I>(a) = std::get<I>(al)[z % std::get<I>(al).size()], z /= std::get<I>(al).size(), want[I] = static_cast<T>(std::get<I>(a))), ...); }(std::make_index_sequence<n>{});
					Way::go((T *)out, a); ++counters->states; ++counters->transitions; ++counters->traces;
					bool ok = true; for (int i = 0; i < n; ++i) ok &= same(out[i], want[i]);
					if (!ok) { std::string t, s; [&]<std::size_t... I>(std::index_sequence<I...>) { ((t += std::string(I ? "," : "") + tname<U>(), s += (I ? ", " : "") + str(std::get<I>(a))), ...); }(std::make_index_sequence<n>{}); fail(strf("%s %s from (%s)", what, tname<T>(), t.c_str()), strf("(%s) stored as %s, expected %s", s.c_str(), vstr(std::vector<T>(out, out + n)).c_str(), vstr(std::vector<T>(want, want + n)).c_str())); }
				}
			}
			else fail(strf("%s %s n=%d", what, tname<T>(), n), "does not compile");
		}
	};
	// f(MixedList<T, U...>): pairs of all types, longer lists in which one argument differs from the others
	template <class T, class F> void mixed_lists(Counters &c, F f)
	{
		auto one = [&]<class... U>(types<U...>) { MixedList<T, U...>::counters = &c; f(MixedList<T, U...>{}); };
		static_for<8>([&](auto i) {
			using U = std::tuple_element_t<i, mixed_types>; one(types<U>{});
			static_for<8>([&](auto j) { one(types<U, std::tuple_element_t<j, mixed_types>>{}); });
			if constexpr (!std::is_same_v<U, T>) static_for<2>([&](auto n_) { enum : int { N = decltype(n_)::value + 3 }; static_for<N == 3 ? 1 : N>([&](auto p_) { enum : int { P = decltype(p_)::value + (N == 3) };
				[&]<std::size_t... I>(std::index_sequence<I...>) { one(types<std::conditional_t<I == P, U, T>...>{}); one(types<std::conditional_t<I == P, T, U>...>{}); }(std::make_index_sequence<N>{}); }); });
		});
	}
}
