// P01 (-DREAD=k): every swizzle name, every way of reading.   P02 (-DWRITE=k): every writable name, every way of writing.
//   k: 0 vector, 1 view, 2 owning view, 3 view of const data, 4 const vector, 5 const view object, 6 const owning view
#include "swizzles.hpp"
using namespace mc;
static Counters C;

template <class T, int S, int K> struct Owner;
template <class T, int S> struct Owner<T, S, 0> { dsga::basic_vector<T, S> v{}; auto &get() { return v; } T *raw() { return reinterpret_cast<T *>(&v); } };
template <class T, int S> struct Owner<T, S, 1> { T buf[S + 2] = {}; dsga::basic_view<true, T, S> v{ buf + 1 }; auto &get() { return v; } T *raw() { return buf + 1; } };
template <class T, int S> struct Owner<T, S, 2> { dsga::view_vector<T, S> v{}; auto &get() { return v; } T *raw() { return v.data(); } };
template <class T, int S> struct Owner<T, S, 3> { T buf[S + 2] = {}; dsga::basic_view<false, T, S> v{ buf + 1 }; auto &get() { return v; } T *raw() { return buf + 1; } };
template <class T, int S> struct Owner<T, S, 4> { dsga::basic_vector<T, S> v{}; const auto &get() { return v; } T *raw() { return reinterpret_cast<T *>(&v); } };
template <class T, int S> struct Owner<T, S, 5> { T buf[S + 2] = {}; dsga::basic_view<true, T, S> v{ buf + 1 }; const auto &get() { return v; } T *raw() { return buf + 1; } };
template <class T, int S> struct Owner<T, S, 6> { dsga::view_vector<T, S> v{}; const auto &get() { return v; } T *raw() { return v.data(); } };
constexpr const char *oname(int k) { constexpr const char *n[] = { "vector", "view", "owning-view", "view-of-const", "const-vector", "const-view", "const-owning-view" }; return n[k]; }

template <class T> std::vector<std::array<T, 4>> patterns()
{
	if constexpr (std::is_same_v<T, bool>)
	{
		std::vector<std::array<T, 4>> r;
		for (int b = 0; b < 16; ++b) r.push_back({ bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8) });
		return r;
	}
	else return { { T(1), T(2), T(3), T(4) }, { T(40), T(30), T(20), T(10) }, { T(7), T(5), T(9), T(6) }, { T(0), T(0), T(1), T(0) }, { std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0), T(-1) } };
}

// ---- reading ---------------------------------------------------------------------------------------------
enum Way { w_index, w_const_index, w_iter, w_riter, w_copy, w_operand, w_equal, w_get, w_size, w_scalar, w_autocopy, w_toarray, NWAYS };
constexpr const char *wname[] = { "operator[]", "const operator[]", "iterator", "reverse iterator", "copied into a vector", "operand of unary +", "operator==", "get<>", "size/length", "converted to scalar", "copy of the swizzle", "to_array" };

template <class T, class V, class A> bool read_way(V &v, int way, T *out)
{
	auto &s = A::get(v);
	constexpr int n = A::n;
	switch (way)
	{
		case w_index: for (int i = 0; i < n; ++i) out[i] = s[i]; return true;
		case w_const_index: for (std::size_t i = 0; i < (std::size_t)n; ++i) out[i] = std::as_const(s)[i]; return true;
		case w_iter: { int k = 0; for (auto &&x : s) { if (k == n) return false; out[k++] = x; } if (k != n) return false;
			k = 0; for (auto it = s.cbegin(); it != s.cend(); ++it, ++k) if (!same_bits<T>(*it, out[k])) return false; return k == n; }
		case w_riter: { int k = n; for (auto it = s.rbegin(); it != s.rend(); ++it) { if (k == 0) return false; out[--k] = *it; } return k == 0; }
		case w_copy: { dsga::basic_vector<T, n> c(s); for (int i = 0; i < n; ++i) out[i] = c[i]; return true; }
		case w_operand:
			if constexpr (!std::is_same_v<T, bool>) { auto c = +s; if constexpr (n == 1) out[0] = c; else for (int i = 0; i < n; ++i) out[i] = c[i]; return true; }
			else { auto c = dsga::compNot(dsga::compNot(s)); for (int i = 0; i < n; ++i) out[i] = comp(c, i); return true; }
		case w_equal:
		{
			dsga::basic_vector<T, n> c(s); if (!(s == c)) return false;
			for (int i = 0; i < n; ++i) { auto d = c; d[i] = d[i] == T(1) ? T(0) : T(1); if (s == d) return false; }
			for (int i = 0; i < n; ++i) out[i] = s[i]; return true;
		}
		case w_get: static_for<n>([&](auto i) { out[i] = dsga::get<i>(s); }); return true;
		case w_size: for (int i = 0; i < n; ++i) out[i] = s[i]; return (int)s.size() == n && s.length() == n;
		case w_scalar: if constexpr (n == 1) { T x = s; out[0] = x; return static_cast<double>(s) == static_cast<double>(x); } else { for (int i = 0; i < n; ++i) out[i] = s[i]; return true; }
		case w_autocopy: { auto c = s; for (int i = 0; i < n; ++i) out[i] = c[i]; return true; }
		case w_toarray: { auto a = dsga::to_array(s); for (int i = 0; i < n; ++i) out[i] = a[i]; return (int)a.size() == n; }
	}
	return false;
}
template <class T, class Fn> void read_check(const char *kind, int S, const char *name, int n, const int *idx, T *raw, Fn way_fn)
{
	static const auto pats = patterns<T>();
	for (auto &p : pats)
	{
		for (int i = 0; i < S; ++i) raw[i] = p[i];
		++C.states;
		for (int w = 0; w < NWAYS; ++w)
		{
			T out[4] = {};
			ctx.what = name; ctx.a[0] = w; ctx.a[1] = S;
			bool ok = way_fn(w, out);
			for (int i = 0; i < n; ++i) ok &= same_bits(out[i], p[idx[i]]);
			bool changed = false;
			for (int i = 0; i < S; ++i) changed |= !same_bits(raw[i], p[i]);
			C.transitions += 1; ++C.traces;
			if (!ok) fail(strf("read %s%d.%s %s %s", kind, S, name, tname<T>(), wname[w]), strf("v = %s, v.%s read as %s", vstr(std::vector<T>(p.begin(), p.begin() + S)).c_str(), name, vstr(std::vector<T>(out, out + n)).c_str()));
			if (changed) fail(strf("read %s%d.%s %s %s", kind, S, name, tname<T>(), wname[w]), "reading changed the object");
		}
	}
}
template <class T, int S, int K, class A> void read_one()
{
	static Owner<T, S, K> o;
	auto &v = o.get(); using V = std::remove_reference_t<decltype(v)>;
	if constexpr (!A::template exists<V>) fail(strf("read %s%d.%s missing", oname(K), S, A::name), "there is no such swizzle");
	else
	{
		constexpr auto ok = std::is_same_v<typename std::remove_cvref_t<decltype(A::get(v))>::value_type, T>;
		if (!ok) fail(strf("read %s%d.%s component type", oname(K), S, A::name), "wrong value_type");
		read_check<T>(oname(K), S, A::name, A::n, A::idx, o.raw(), [&](int w, T *out) { return read_way<T, V, A>(v, w, out); });
	}
}

// ---- writing ---------------------------------------------------------------------------------------------
enum WWay { a_vector, a_view, a_vswz, a_swz, a_own, a_conv, a_scalar, a_set, a_index, a_iter, a_riter, a_range, a_get, a_add, a_inc, a_stdcopy, NWW };
constexpr const char *wwname[] = { "= vector", "= view", "= view swizzle", "= vector swizzle", "= owning view", "= int vector", "= scalar", "set()", "operator[] =", "*iterator =", "*reverse iterator =", "range-for", "get<> =", "+=", "++", "std::copy" };

template <class T, class V, class A> bool write_way(V &v, int way, const T *val, T *expect_delta)
{
	auto &s = A::get(v);
	constexpr int n = A::n;
	*expect_delta = T(0);
	static Obj<T, n, K_VEC> ov; static Obj<T, n, K_VIEW> ow; static Obj<T, n, K_VSWZ> os; static Obj<T, n, K_OWN> oo;
	switch (way)
	{
		case a_vector: mem(ov).put(val); s = ov.get(); return mem(ov).holds(val);
		case a_view: mem(ow).put(val); s = ow.get(); return mem(ow).holds(val);
		case a_vswz: mem(os).put(val); if constexpr (requires { s = os.get(); }) s = os.get(); else s = dsga::basic_vector<T, n>(os.get()); return mem(os).holds(val);
		case a_own: mem(oo).put(val); s = oo.get(); return mem(oo).holds(val);
		case a_swz:
		{
			// a swizzle of a differently sized vector type, so never the same swizzle type
			static dsga::basic_vector<T, n == 4 ? 3 : 4> big{};
			if constexpr (n == 4) { s = dsga::basic_vector<T, 4>(val[0], val[1], val[2], val[3]); }
			else if constexpr (n == 3) { big.set(val[2], T(0), val[0], val[1]); auto &b = big.zwx; if constexpr (!std::is_same_v<decltype(b), decltype(s)>) s = b; else s = dsga::basic_vector<T, 3>(b); }
			else if constexpr (n == 2) { big.set(T(0), val[1], T(0), val[0]); auto &b = big.wy; if constexpr (!std::is_same_v<decltype(b), decltype(s)>) s = b; else s = dsga::basic_vector<T, 2>(b); }
			else { big.set(T(0), T(0), T(0), val[0]); auto &b = big.w; if constexpr (!std::is_same_v<decltype(b), decltype(s)>) s = b; else s = T(b); }
			return true;
		}
		case a_conv:
			if constexpr (std::is_same_v<T, double>) { dsga::basic_vector<int, n> iv; for (int i = 0; i < n; ++i) iv[i] = (int)val[i]; s = iv; return true; }
			else { s = dsga::basic_vector<T, n>([&]<std::size_t... I>(std::index_sequence<I...>) { return dsga::basic_vector<T, n>(val[I]...); }(std::make_index_sequence<n>{})); return true; }
		case a_scalar: if constexpr (n == 1) { s = val[0]; return true; } else { s = dsga::basic_vector<T, n>(s); for (int i = 0; i < n; ++i) s[i] = val[i]; return true; }
		case a_set: [&]<std::size_t... I>(std::index_sequence<I...>) { s.set(val[I]...); }(std::make_index_sequence<n>{}); return true;
		case a_index: for (int i = n - 1; i >= 0; --i) s[i] = val[i]; return true;
		case a_iter: { int k = 0; for (auto it = s.begin(); it != s.end(); ++it) *it = val[k++]; return k == n; }
		case a_riter: { int k = n; for (auto it = s.rbegin(); it != s.rend(); ++it) *it = val[--k]; return k == 0; }
		case a_range: { int k = 0; for (auto &x : s) x = val[k++]; return k == n; }
		case a_get: static_for<n>([&](auto i) { dsga::get<i>(s) = val[i]; }); return true;
		case a_add:
			if constexpr (!std::is_same_v<T, bool>) { for (int i = 0; i < n; ++i) s[i] = T(0); mem(ov).put(val); s += ov.get(); return true; }
			else { for (int i = 0; i < n; ++i) s[i] = val[i]; return true; }
		case a_inc:
			if constexpr (!std::is_same_v<T, bool>) { for (int i = 0; i < n; ++i) s[i] = val[i]; ++s; *expect_delta = T(1); return true; }
			else { for (int i = 0; i < n; ++i) s[i] = val[i]; return true; }
		case a_stdcopy: std::copy(val, val + n, s.begin()); return true;
	}
	return false;
}
template <class T, class Fn> void write_check(const char *kind, int S, const char *name, int n, const int *idx, T *raw, Fn way_fn)
{
	static const T vals[3][4] = { { T(11), T(12), T(13), T(14) }, { T(0), T(1), T(0), T(1) }, { T(100), T(0), T(50), T(70) } };
	static const auto pats = patterns<T>();
	for (auto &val : vals)
		for (auto &p : pats)
		{
			++C.states;
			for (int w = 0; w < NWW; ++w)
			{
				for (int i = 0; i < S; ++i) raw[i] = p[i];
				T delta;
				ctx.what = name; ctx.a[0] = w; ctx.a[1] = S;
				bool ok = way_fn(w, val, &delta);
				T want[4]; for (int i = 0; i < S; ++i) want[i] = p[i];
				for (int i = 0; i < n; ++i) want[idx[i]] = T(val[i] + delta);
				for (int i = 0; i < S; ++i) ok &= same_bits(raw[i], want[i]);
				++C.transitions; ++C.traces;
				if (!ok) fail(strf("write %s%d.%s %s %s", kind, S, name, tname<T>(), wwname[w]), strf("v = %s, writing %s to v.%s gave %s, expected %s", vstr(std::vector<T>(p.begin(), p.begin() + S)).c_str(),
					vstr(std::vector<T>(val, val + n)).c_str(), name, vstr(std::vector<T>(raw, raw + S)).c_str(), vstr(std::vector<T>(want, want + S)).c_str()));
			}
		}
}
template <class T, int S, int K, class A> void write_one()
{
	static Owner<T, S, K> o;
	auto &v = o.get(); using V = std::remove_reference_t<decltype(v)>;
	write_check<T>(oname(K), S, A::name, A::n, A::idx, o.raw(), [&](int w, const T *val, T *d) { return write_way<T, V, A>(v, w, val, d); });
	// same-named swizzle of another vector
	if constexpr (K == 0)
	{
		static Owner<T, S, K> src;
		T a[4], b[4];
		for (int i = 0; i < S; ++i) { a[i] = o.raw()[i] = T(i + 1); b[i] = src.raw()[i] = T(10 * (i + 1)); }
		A::get(v) = A::get(src.get());
		T want[4]; for (int i = 0; i < S; ++i) want[i] = a[i];
		for (int i = 0; i < A::n; ++i) want[A::idx[i]] = b[A::idx[i]];
		bool ok = true, whole = true;
		for (int i = 0; i < S; ++i) { ok &= same_bits(o.raw()[i], want[i]); whole &= same_bits(o.raw()[i], b[i]); }
		++C.states; ++C.transitions; ++C.traces;
		if (!ok)
			fail(whole ? strf("same-swizzle-assign S=%d .%s", S, A::name) : strf("write %s%d.%s %s = same swizzle of another vector", oname(K), S, A::name, tname<T>()),
				strf("a = %s, b = %s, a.%s = b.%s gave %s, expected %s", vstr(std::vector<T>(a, a + S)).c_str(), vstr(std::vector<T>(b, b + S)).c_str(), A::name, A::name, vstr(std::vector<T>(o.raw(), o.raw() + S)).c_str(), vstr(std::vector<T>(want, want + S)).c_str()));
	}
}
// ---- assignment from an overlapping part of the same object --------------------------------------------------
using AThunk = void (*)(void *, void *);
void alias_check(const char *kind, int S, const char *ln, const char *rn, int n, const int *li, const int *ri, int *raw, void *v, AThunk th)
{
	int base[4] = { 1, 2, 3, 4 }, want[4];
	for (int i = 0; i < S; ++i) raw[i] = want[i] = base[i];
	for (int i = 0; i < n; ++i) want[li[i]] = base[ri[i]];
	ctx.what = ln;
	th(v, v);
	++C.states; ++C.transitions; ++C.traces;
	bool ok = true; for (int i = 0; i < S; ++i) ok &= raw[i] == want[i];
	if (!ok) fail(strf("alias %s%d.%s = .%s", kind, S, ln, rn), strf("from {1,2,3,4}: got %s, expected %s", vstr(std::vector<int>(raw, raw + S)).c_str(), vstr(std::vector<int>(want, want + S)).c_str()));
}
template <int S, int K, class L, class R> void alias_one()
{
	static Owner<int, S, K> o; using V = std::remove_reference_t<decltype(o.get())>;
	if constexpr (std::is_same_v<L, R>) return;      // one and the same swizzle object
	else alias_check(oname(K), S, L::name, R::name, L::n, L::idx, R::idx, o.raw(), (void *)&o.get(), [](void *p, void *q) { L::get(*(V *)p) = R::get(*(V *)q); });
}
// the whole object assigned from one of its swizzles
struct A_self { static constexpr const char *name = "(whole)"; static constexpr int n = 4; static constexpr int idx[4] = { 0, 1, 2, 3 }; template <class V> static auto &get(V &v) { return v; } };
template <class L, class... Ts, class F> void cross(types<Ts...>, F f) { (f.template operator()<L, Ts>(), ...); }

int main(int argc, char **argv)
{
	init(argc, argv);
	auto each = [&]<class T>(tag<T>) {
		static_for<4>([&](auto s) { static_for<4>([&](auto k) {
			constexpr int S = s + 1, n = k + 1;
#ifdef MC_READ
			for_types(Swz<S, n>{}, [&](auto a) { read_one<T, S, MC_READ, typename decltype(a)::type>(); });
#endif
#ifdef MC_WRITE
			if constexpr (n <= S) for_types(USwz<S, n>{}, [&](auto a) { write_one<T, S, MC_WRITE, typename decltype(a)::type>(); });
#endif
		}); });
	};
#ifndef MC_ALIAS
	each(tag<MC_TYPE>{});
	sample(strf("all %d-letter-and-shorter swizzles of lengths 1 to 4, component type %s", 4, tname<MC_TYPE>()));
#else
	constexpr int K = MC_ALIAS;
	static_for<4>([&](auto s_) {
		constexpr int S = s_ + 1;
		static_for<S>([&](auto n_) {
			constexpr int n = n_ + 1;
			for_types(USwz<S, n>{}, [&](auto l) {
				using L = typename decltype(l)::type;
				if constexpr (n <= 3 || MC_LSTEP == 1 || L::idx[0] == MC_LSTEP - 2) cross<L>(Swz<S, n>{}, [&]<class A, class B>() { alias_one<S, K, A, B>(); });
			});
			if constexpr (n == S) cross<A_self>(Swz<S, S>{}, [&]<class A, class B>() {
				static Owner<int, S, K> o; using V = std::remove_reference_t<decltype(o.get())>;
				alias_check(oname(K), S, "(whole)", B::name, S, A::idx, B::idx, o.raw(), (void *)&o.get(), [](void *p, void *q) { *(V *)p = B::get(*(V *)q); });
			});
		});
	});
	sample(strf("every writable swizzle of a %s assigned from every swizzle of the same length of the same object", oname(K)));
#endif
	total = C;
	return finish();
}
