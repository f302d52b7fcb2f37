// P08: binary and unary operators.  -DKINDS=k: left operand kind k with every right kind.  -DTYPES=t: t-th type with every other type.
#include "kinds.hpp"
using namespace mc;

#define OPS(X) X(add, +) X(sub, -) X(mul, *) X(div, /) X(mod, %) X(shl, <<) X(shr, >>) X(band, &) X(bor, |) X(bxor, ^)
enum OpId {
#define X(n, o) op_##n,
	OPS(X)
#undef X
	NOPS };
constexpr const char *opname(int o) {
	constexpr const char *s[] = {
#define X(n, o) #o,
		OPS(X)
#undef X
	};
	return s[o];
}
template <int O> struct Op;
#define X(n, o) template <> struct Op<op_##n> { \
	template <class A, class B> static auto raw(A a, B b) { return a o b; } \
	template <class A, class B> requires requires (const A &a, const B &b) { a o b; } static auto dsg(const A &a, const B &b) { return a o b; } \
	template <class A, class B> static constexpr bool exists = requires (const A &a, const B &b) { a o b; }; };
OPS(X)
#undef X
constexpr bool is_shift(int o) { return o == op_shl || o == op_shr; }
constexpr bool is_bit(int o) { return o == op_band || o == op_bor || o == op_bxor; }
constexpr bool int_only(int o) { return o == op_mod || is_shift(o) || is_bit(o); }

template <class T, class U> constexpr bool promotes()
{
	if constexpr (std::is_same_v<T, bool> || std::is_same_v<U, bool>) return false;
	else return std::is_same_v<std::common_type_t<T, U>, T> || std::is_same_v<std::common_type_t<T, U>, U>;
}
template <int O, class T, class U> constexpr bool permitted()
{
	if (!promotes<T, U>()) return false;
	if (int_only(O) && (std::is_floating_point_v<T> || std::is_floating_point_v<U>)) return false;
	if (is_bit(O) && sizeof(T) != sizeof(U)) return false;
	return true;
}
// the C++ scalar meaning
template <int O, class T, class U> auto model(T a, U b)
{
	using CT = std::common_type_t<T, U>;
	if constexpr (is_shift(O)) return static_cast<T>(Op<O>::raw(a, b));
	else return Op<O>::raw(static_cast<CT>(a), static_cast<CT>(b));
}
template <int O, class T, class U> bool defined(T a0, U b0)
{
	using CT = std::common_type_t<T, U>;
	if constexpr (is_shift(O)) { return !(b0 < U(0)) && (unsigned long long)b0 < sizeof(T) * 8; }
	else
	{
		CT a = static_cast<CT>(a0), b = static_cast<CT>(b0);
		if constexpr (std::is_floating_point_v<CT>) return true;
		else
		{
			[[maybe_unused]] CT r;
			if constexpr (O == op_div || O == op_mod) return b != CT(0) && !(std::is_signed_v<CT> && a == std::numeric_limits<CT>::min() && b == CT(-1));
			else if constexpr (std::is_unsigned_v<CT>) return true;
			else if constexpr (O == op_add) return !__builtin_add_overflow(a, b, &r);
			else if constexpr (O == op_sub) return !__builtin_sub_overflow(a, b, &r);
			else if constexpr (O == op_mul) return !__builtin_mul_overflow(a, b, &r);
			else return true;
		}
	}
}
template <int O, class T, class U> const std::vector<std::pair<T, U>> &pairs()
{
	static const std::vector<std::pair<T, U>> v = [] {
		std::vector<std::pair<T, U>> r;
		for (T a : alphabet<T>()) for (U b : alphabet<U>()) if (defined<O>(a, b)) r.push_back({ a, b });
		return r; }();
	return v;
}

static Counters C;

// one operator on one pair of objects, every defined value pair in every lane
using Thunk = void (*)(void *, void *, void *);
template <int O, class T, class U>
void run(int C1, int C2, Mem<T> a, Mem<U> b, void *pa, void *pb, Thunk thunk, bool type_ok)
{
	using WT = decltype(model<O>(T{}, U{}));
	const int N = std::max(C1, C2);
	auto key = [&] { return strf("%s%d %s %s%d %s/%s", a.kind, C1, opname(O), b.kind, C2, tname<T>(), tname<U>()); };
	if (!type_ok) { fail(key(), "type of the result"); return; }
	auto &ps = pairs<O, T, U>();
	const int n = (int)ps.size();
	for (int p = 0; p < n; ++p)
	{
		T av[4]; U bv[4];
		if (C1 != C2)
		{
			// broadcast: one fixed value against values of the other operand that keep every component defined
			for (int i = 0; i < 4; ++i) { av[i] = ps[p].first; bv[i] = ps[p].second; }
			for (int i = 1; i < N; ++i)
			{
				auto &q = ps[(p + 7 * i) % n];
				if (C1 > C2) { if (defined<O>(q.first, bv[0])) av[i] = q.first; }
				else { if (defined<O>(av[0], q.second)) bv[i] = q.second; }
			}
		}
		else for (int i = 0; i < 4; ++i) { auto &q = ps[(p + 7 * i) % n]; av[i] = q.first; bv[i] = q.second; }
		a.put(av); b.put(bv);
		ctx.what = "binary operator"; ctx.a[0] = O; ctx.a[1] = C1; ctx.a[2] = C2; ctx.a[3] = p;
		WT r[4];
		thunk(pa, pb, r);
		++C.states; C.transitions += N; ++C.traces;
		for (int i = 0; i < N; ++i)
		{
			auto w = model<O>(av[C1 == 1 ? 0 : i], bv[C2 == 1 ? 0 : i]);
			if (!same_bits(r[i], w))
				fail(key(), strf("component %d of %s %s %s is %s, expected %s", i, vstr(std::vector<T>(av, av + C1)).c_str(), opname(O), vstr(std::vector<U>(bv, bv + C2)).c_str(), str(r[i]).c_str(), str(w).c_str()));
		}
		if (!a.holds(av) || !b.holds(bv)) fail(key(), "an operand changed");
		if (p == n / 2 && C1 == 3 && C2 == 3) sample(strf("%s: %s %s %s", key().c_str(), vstr(std::vector<T>(av, av + C1)).c_str(), opname(O), vstr(std::vector<U>(bv, bv + C2)).c_str()));
	}
}
template <int O, class T, class U, int N, class A, class B> constexpr bool result_type_ok()
{
	using R = decltype(Op<O>::dsg(std::declval<A &>(), std::declval<B &>()));
	using WT = decltype(model<O>(T{}, U{}));
	return shape<R>::vec == (N > 1) && (N == 1 || shape<R>::n == N) && std::is_same_v<typename shape<R>::T, WT>;
}
template <int O, class T, class U, int N, class A, class B> void thunk(void *a, void *b, void *out)
{
	if constexpr (result_type_ok<O, T, U, N, A, B>())
	{
		auto r = Op<O>::dsg(*(A *)a, *(B *)b);
		auto *o = (decltype(model<O>(T{}, U{})) *)out;
		if constexpr (N == 1) o[0] = r; else for (int i = 0; i < N; ++i) o[i] = r[i];
	}
}
template <int O, class T, class U, int C1, int C2, class A, class B> void go(Mem<T> ma, Mem<U> mb, A &a, B &b)
{
	constexpr int N = C1 > C2 ? C1 : C2;
	run<O, T, U>(C1, C2, ma, mb, (void *)&a, (void *)&b, thunk<O, T, U, N, A, B>, result_type_ok<O, T, U, N, A, B>());
}
template <int O, class T, class U, int K1, int K2, int C1, int C2> void run_kinds()
{
	static Obj<T, C1, K1> a; static Obj<U, C2, K2> b;
	go<O, T, U, C1, C2>(mem(a), mem(b), a.get(), b.get());
}
// scalar operand on either side
template <int O, class T, class U, int K, int N> void run_scalar()
{
	{ Obj<T, N, K> a; U b{}; go<O, T, U, N, 1>(mem(a), mem_scalar(b), a.get(), b); }
	{ T a{}; Obj<U, N, K> b; go<O, T, U, 1, N>(mem_scalar(a), mem(b), a, b.get()); }
}
template <class F> void for_shapes(F f)
{
	static_for<4>([&](auto c) { constexpr int N = c + 1; f.template operator()<N, N>(); if constexpr (N > 1) { f.template operator()<N, 1>(); f.template operator()<1, N>(); } });
}

template <class T, class W> void unary(const char *op, int N, Mem<T> a, void *pa, void (*th)(void *, void *), bool type_ok, W (*m)(T), bool neg)
{
	const auto al = alphabet<T>();
	const int n = (int)al.size();
	auto key = [&] { return strf("unary %s %s%d %s", op, a.kind, N, tname<T>()); };
	if (!type_ok) { fail(key(), "type of the result"); return; }
	for (int p = 0; p < n; ++p)
	{
		T av[4]; for (int i = 0; i < 4; ++i) av[i] = al[(p + 4 * i) % n];
		if (neg && std::is_integral_v<T> && std::is_signed_v<T>) for (T &x : av) if (x == std::numeric_limits<T>::min()) x = T(5);
		a.put(av);
		W r[4]; th(pa, r);
		for (int i = 0; i < N; ++i) if (!same_bits(r[i], m(av[i]))) fail(key(), strf("component %d of %s is %s", i, vstr(std::vector<T>(av, av + N)).c_str(), str(r[i]).c_str()));
		if (!a.holds(av)) fail(key(), "the operand changed");
		++C.states; C.transitions += N; ++C.traces;
	}
}
template <int O, class T, int K, int N> void run_unary()
{
	static Obj<T, N, K> a; auto &oa = a.get(); using A = std::remove_reference_t<decltype(oa)>;
#define UN(o, name, neg) { using W = decltype(o T{}); using R = decltype(o oa); constexpr bool ok = shape<R>::vec == (N > 1) && (N == 1 || shape<R>::n == N) && std::is_same_v<typename shape<R>::T, W>; \
	unary<T, W>(name, N, mem(a), (void *)&oa, [](void *p, void *out) { if constexpr (ok) { auto r = o *(A *)p; for (int i = 0; i < N; ++i) ((W *)out)[i] = comp(r, i); } }, ok, [](T x) -> W { return o x; }, neg); }
	if constexpr (O == 0) UN(+, "+", false)
	if constexpr (O == 1) UN(-, "-", true)
	if constexpr (O == 2) UN(~, "~", false)
}

int main(int argc, char **argv)
{
	init(argc, argv);
#ifdef MC_KINDS
	constexpr int K1 = MC_KINDS;
	static_for<NKINDS>([&](auto k2) {
		constexpr int K2 = k2;
		for_shapes([&]<int C1, int C2>() {
			// the broadcasting overloads do not depend on the operator's kind of operand: three operators each
			static_for<NOPS>([&](auto o) { if constexpr (C1 == C2 || o == op_sub || o == op_shl || o == op_bor) run_kinds<o, int, int, K1, K2, C1, C2>(); });
			if constexpr (C1 == C2)
			{
				run_kinds<op_add, double, int, K1, K2, C1, C2>(); run_kinds<op_sub, int, double, K1, K2, C1, C2>();
				run_kinds<op_div, float, float, K1, K2, C1, C2>(); run_kinds<op_shl, long long, int, K1, K2, C1, C2>();
			}
			else run_kinds<op_div, double, int, K1, K2, C1, C2>();
		});
	});
	static_for<4>([&](auto c) {
		constexpr int N = c + 1;
		static_for<NOPS>([&](auto o) { run_scalar<o, int, int, K1, N>(); });
		run_scalar<op_sub, double, int, K1, N>(); run_scalar<op_sub, int, double, K1, N>(); run_scalar<op_div, double, int, K1, N>(); run_scalar<op_div, int, float, K1, N>();
		for_types(num_types{}, [&](auto t) { using T = typename decltype(t)::type; run_unary<0, T, K1, N>(); run_unary<1, T, K1, N>(); });
		for_types(int_types{}, [&](auto t) { using T = typename decltype(t)::type; run_unary<2, T, K1, N>(); });
	});
#endif
#ifdef MC_TYPES
	int ti = 0;
	for_types(all_types{}, [&](auto t) {
		using T = typename decltype(t)::type;
		constexpr auto is = std::is_same_v<T, std::tuple_element_t<MC_TYPES, std::tuple<int, unsigned, long long, unsigned long long, std::size_t, float, double, bool>>>;
		if constexpr (is)
			for_types(all_types{}, [&](auto u) {
				using U = typename decltype(u)::type;
				static_for<NOPS>([&](auto o_) {
					constexpr int O = o_;
					if constexpr (permitted<O, T, U>())
					{
						for_shapes([&]<int C1, int C2>() { run_kinds<O, T, U, K_VEC, K_VEC, C1, C2>(); });
						static_for<4>([&](auto c) { run_scalar<O, T, U, K_VEC, c + 1>(); });
					}
					// combinations that are not permitted do not compile (length-1 pairs fall back to the scalars they convert to)
					static_for<4>([&](auto c1) { static_for<4>([&](auto c2) {
						constexpr int N1 = c1 + 1, N2 = c2 + 1;
						if constexpr (N1 * N2 > 1)
						{
							constexpr bool want = permitted<O, T, U>() && (N1 == N2 || N1 == 1 || N2 == 1);
							constexpr bool got = Op<O>::template exists<dsga::basic_vector<T, N1>, dsga::basic_vector<U, N2>>;
							if (want != got) fail(strf("wellformed vec%d<%s> %s vec%d<%s>", N1, tname<T>(), opname(O), N2, tname<U>()), got ? "compiles but is not permitted" : "does not compile");
							++C.states; ++C.transitions;
						}
					}); });
					static_for<3>([&](auto c1) {
						constexpr int N1 = c1 + 2;
						constexpr bool want = permitted<O, T, U>();
						constexpr bool g1 = Op<O>::template exists<dsga::basic_vector<T, N1>, U>, g2 = Op<O>::template exists<T, dsga::basic_vector<U, N1>>;
						if (want != g1) fail(strf("wellformed vec%d<%s> %s %s", N1, tname<T>(), opname(O), tname<U>()), g1 ? "compiles but is not permitted" : "does not compile");
						if (want != g2) fail(strf("wellformed %s %s vec%d<%s>", tname<T>(), opname(O), N1, tname<U>()), g2 ? "compiles but is not permitted" : "does not compile");
						++C.states; ++C.transitions;
					});
				});
			});
		++ti;
	});
#endif
	total = C;
	return finish();
}
