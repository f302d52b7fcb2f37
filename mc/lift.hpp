// Every function applied to every kind of argument, compared per component with a scalar oracle.
//
// A function is a struct F with
//     name, call(args...)                    the dsga function
//     want(T...) -> R                        the oracle, for one component
//     tuples<T...>() -> vector<tuple<T...>>  the argument tuples explored (all of them in every lane)
//     eq(R got, R want, T...) -> bool        agreement
//     ok(T...) -> bool                       domain (checked when a scalar argument serves several lanes)
#pragma once
#include "kinds.hpp"
#include "fp.hpp"

namespace mc
{
	constexpr int K_SCALAR = -1;
	template <class T, int N, int K, int POS> struct LHold { static auto &o() { static Obj<T, N, K> x; return x; } };
	template <class T, int N, int POS> struct LHold<T, N, K_SCALAR, POS> { static T &o() { static T x{}; return x; } };
	template <class T, int N, int K, int POS> Mem<T> lmem() { if constexpr (K == K_SCALAR) return mem_scalar(LHold<T, N, K, POS>::o()); else return mem(LHold<T, N, K, POS>::o()); }
	template <class T, int N, int K, int POS> auto &lget() { if constexpr (K == K_SCALAR) return LHold<T, N, K, POS>::o(); else return LHold<T, N, K, POS>::o().get(); }

	template <class R, class... T> struct Job
	{
		const char *fname; int n; std::tuple<Mem<T>...> mems; bool cst; bool shape_ok; const char *got_shape; bool type_ok;
		void (*run)(R *);
		std::string key() const
		{
			std::string s = fname; s += "("; bool first = true;
			std::apply([&](auto &...m) { ((s += first ? "" : ", ", first = false, s += cst ? "const " : "", s += m.kind), ...); }, mems);
			return s + strf(") n=%d ", n) + std::string(((std::string(tname<T>()) + " ") + ...));
		}
	};
	// tuples[c + lane * stride] goes to lane `lane`: every tuple visits every lane
	template <class F, class R, class... T> __attribute__((noinline)) void lift_check(const Job<R, T...> &j, const std::vector<std::tuple<T...>> &tuples)
	{
		const int n = j.n, L = (int)tuples.size();
		constexpr int A = sizeof...(T);
		if (!j.shape_ok) { fail(j.key() + "shape", strf("the result is %s", j.got_shape)); return; }
		if (!j.type_ok) { fail(j.key() + "type", "unexpected component type of the result"); return; }
		const int stride = std::max(1, L / 5 | 1);
		Counters cnt; ctx.what = j.fname; ctx.a[0] = n; if (armed == false) snprintf(ctxbuf, sizeof ctxbuf, "%s", j.key().c_str());
		for (int c = 0; c < L; ++c)
		{
			std::tuple<T...> lane[4];
			for (int i = 0; i < n; ++i)
			{
				lane[i] = tuples[(c + i * stride) % L];
				[&]<std::size_t... P>(std::index_sequence<P...>) { ((std::get<P>(j.mems).comps == 1 && !strcmp(std::get<P>(j.mems).kind, "scalar") ? void(std::get<P>(lane[i]) = std::get<P>(lane[0])) : void()), ...); }(std::make_index_sequence<A>{});
				if (!std::apply([](T... a) { return F::ok(a...); }, lane[i])) lane[i] = lane[0];
			}
			[&]<std::size_t... P>(std::index_sequence<P...>) {
				([&] { using U = std::tuple_element_t<P, std::tuple<T...>>; U v[4] = {}; for (int i = 0; i < n; ++i) v[i] = std::get<P>(lane[i]); std::get<P>(j.mems).put(v); }(), ...);
			}(std::make_index_sequence<A>{});
			R got[4] = {};
			ctx.a[1] = c;
			j.run(got);
			++cnt.states; ++cnt.traces;
			for (int i = 0; i < n; ++i)
			{
				R want = std::apply([](T... a) -> R { return (R)F::want(a...); }, lane[i]);
				++cnt.transitions;
				if (!std::apply([&](T... a) { return F::eq(got[i], want, a...); }, lane[i]))
				{
					std::string as; std::apply([&](T... a) { ((as += str(a) + " "), ...); }, lane[i]);
					fail(j.key(), strf("component %d: %s(%s) = %s, expected %s", i, j.fname, as.c_str(), str(got[i]).c_str(), str(want).c_str()));
				}
			}
			[&]<std::size_t... P>(std::index_sequence<P...>) {
				([&] { using U = std::tuple_element_t<P, std::tuple<T...>>; U v[4] = {}; for (int i = 0; i < n; ++i) v[i] = std::get<P>(lane[i]); if (!std::get<P>(j.mems).holds(v)) fail(j.key() + "argument changed", strf("argument %d changed", (int)P)); }(), ...);
			}(std::make_index_sequence<A>{});
		}
		std::lock_guard<std::mutex> g(mtx);
		total.states += cnt.states; total.transitions += cnt.transitions; total.traces += cnt.traces;
	}
	template <class V> constexpr const std::remove_reference_t<V> &mkconst(V &v) { return v; }
	template <class Ret> using shape_t = typename shape<Ret>::T;
	template <class F, int N, bool CST, class Ks, class Ps, class... T> struct Caller;
	template <class F, int N, bool CST, int... K, std::size_t... P, class... T> struct Caller<F, N, CST, std::integer_sequence<int, K...>, std::index_sequence<P...>, T...>
	{
		static decltype(auto) call()
		{
			if constexpr (CST) return F::call(mkconst(lget<T, N, K, (int)P>())...);
			else return F::call(lget<T, N, K, (int)P>()...);
		}
		using Ret = std::remove_cvref_t<decltype(call())>;
		static std::tuple<Mem<T>...> mems() { return { lmem<T, N, K, (int)P>()... }; }
		static constexpr bool cst = CST;
	};
	template <class C, int N, class R> void run_(R *out)
	{
		using Ret = typename C::Ret;
		decltype(auto) r = C::call();
		for (int i = 0; i < N && i < (shape<Ret>::vec ? shape<Ret>::n : 1); ++i) out[i] = comp(r, i);
	}
	template <class F, class C, int N, class R, class... T> Job<R, T...> job()
	{
		using Ret = typename C::Ret; using W = decltype(F::want(std::declval<T>()...));
		Job<R, T...> j; j.fname = F::name; j.n = N; j.mems = C::mems(); j.cst = C::cst;
		j.shape_ok = (shape<Ret>::vec && shape<Ret>::n == N) || (!shape<Ret>::vec && N == 1) ;
		j.got_shape = shape<Ret>::vec ? "a vector of another length" : "a scalar";
		j.type_ok = std::is_same_v<R, W>; j.run = run_<C, N, R>;
		return j;
	}
	template <class F, int N, bool CST, int... K, class... T> void lift_types(std::integer_sequence<int, K...> ks, types<T...>, const std::vector<std::tuple<T...>> &tuples)
	{
		using C = Caller<F, N, CST, std::integer_sequence<int, K...>, std::index_sequence_for<T...>, T...>;
		if constexpr (sizeof...(T) > 0) lift_check<F>(job<F, C, N, shape_t<typename C::Ret>, T...>(), tuples);
	}
	// one function, one list of argument kinds, all lengths
	template <class F, bool CST, int... K, class... T> void lift(types<T...> ts, const std::vector<std::tuple<T...>> &tuples)
	{
		using Ks = std::integer_sequence<int, K...>;
		constexpr bool scalars_only = ((K == K_SCALAR) && ...);
		lift_types<F, 1, CST>(Ks{}, ts, tuples);
		if constexpr (!scalars_only)
		{
			lift_types<F, 2, CST>(Ks{}, ts, tuples); lift_types<F, 3, CST>(Ks{}, ts, tuples); lift_types<F, 4, CST>(Ks{}, ts, tuples);
		}
	}
	// all tuples over one alphabet per argument, filtered by the domain
	template <class F, class... T> std::vector<std::tuple<T...>> product(const std::vector<T> &...alpha)
	{
		std::vector<std::tuple<T...>> r;
		std::size_t sizes[] = { alpha.size()... }, n = 1; for (auto s : sizes) n *= s;
		for (std::size_t c = 0; c < n; ++c)
		{
			std::size_t q = c; auto digit = [&](auto &a) { auto v = a[q % a.size()]; q /= a.size(); return v; };
			std::tuple<T...> t { digit(alpha)... };
			if (std::apply([](T... a) { return F::ok(a...); }, t)) r.push_back(t);
		}
		return r;
	}
}
