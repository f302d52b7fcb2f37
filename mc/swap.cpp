// P05: every way of swapping, every kind, length and component type, every relative placement of two views.
#include "kinds.hpp"
using namespace mc;
static Counters C;
enum Way { s_member, s_adl, s_std, s_ranges, NSW };
constexpr const char *wn[] = { "a.swap(b)", "swap(a, b)", "std::swap(a, b)", "std::ranges::swap(a, b)" };
template <class A, class B> bool do_swap(A &a, B &b, int way, Out &out)
{
	switch (way)
	{
		case s_member: if constexpr (requires { a.swap(b); }) { out = attempt([&] { a.swap(b); }); return true; } return false;
		case s_adl: { using std::swap; if constexpr (requires { swap(a, b); }) { out = attempt([&] { swap(a, b); }); return true; } return false; }
		case s_std: if constexpr (std::is_same_v<A, B> && requires { std::swap(a, b); }) { out = attempt([&] { std::swap(a, b); }); return true; } return false;
		case s_ranges: if constexpr (std::is_same_v<A, B> && requires { std::ranges::swap(a, b); }) { out = attempt([&] { std::ranges::swap(a, b); }); return true; } return false;
	}
	return false;
}
// contents differ at every position; several patterns, including equal values at some positions
template <class T> T val(int pat, int side, int i)
{
	if constexpr (std::is_same_v<T, bool>) return ((pat >> (side * 4 + i % 4)) & 1) != 0;
	else if (pat == 4) return i % 2 == side ? T(0) : T(-T(0)); // equal, not the same
	else switch (pat % 4) { case 0: return T(1 + i + 20 * side); case 1: return T(side ? 50 - i : i); case 2: return i % 2 ? T(7) : T(3 + side); default: return i == 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); }
}
template <class T> constexpr int npat = std::is_same_v<T, bool> ? 256 : std::is_floating_point_v<T> ? 5 : 4;

// two separate objects with their own memory
template <class T, class A> void two(const char *what, A &a, A &b, T *ra, T *rb, int n)
{
	for (int p = 0; p < npat<T>; ++p)
		for (int w = 0; w < NSW; ++w)
		{
			for (int i = 0; i < n; ++i) { ra[i] = val<T>(p, 0, i); rb[i] = val<T>(p, 1, i); }
			Out out{}; ctx.what = what;
			if (!do_swap(a, b, w, out)) { if (w <= s_adl) fail(strf("swap %s n=%d %s %s", what, n, tname<T>(), wn[w]), "does not compile"); continue; }
			++C.states; ++C.transitions; ++C.traces;
			bool ok = out == Out::ok;
			for (int i = 0; i < n; ++i) ok &= same_bits(ra[i], val<T>(p, 1, i)) && same_bits(rb[i], val<T>(p, 0, i));
			if (!ok) fail(strf("swap %s n=%d %s %s", what, n, tname<T>(), wn[w]), strf("contents were not exchanged (%s)", name(out)));
			// with itself
			do_swap(a, a, w, out); ++C.transitions;
			ok = out == Out::ok;
			for (int i = 0; i < n; ++i) ok &= same_bits(ra[i], val<T>(p, 1, i)) && same_bits(rb[i], val<T>(p, 0, i));
			if (!ok) fail(strf("self-swap %s n=%d %s %s", what, n, tname<T>(), wn[w]), strf("swapping with itself changed something (%s)", name(out)));
		}
}
// two things that view the same memory of 3n elements
template <class T, class A, class B> void overlap(const char *what, A &a, B &b, T *mem, int total_, int n, int oa, int ob)
{
	for (int p = 0; p < npat<T>; ++p)
		for (int w = 0; w < NSW; ++w)
		{
			std::vector<T> before(total_), want;
			for (int i = 0; i < total_; ++i) before[i] = mem[i] = std::is_same_v<T, bool> ? T((p >> (i % 8)) & 1) : val<T>(p, 0, i);
			want = before;
			int d = std::abs(oa - ob); bool refuse = d > 0 && d < n;
			if (!refuse && d) for (int i = 0; i < n; ++i) { T t = want[oa + i]; want[oa + i] = want[ob + i]; want[ob + i] = t; }
			Out out{}; ctx.what = what; ctx.a[0] = oa; ctx.a[1] = ob;
			if (!do_swap(a, b, w, out)) { if (w == s_member) fail(strf("swap %s n=%d %s %s", what, n, tname<T>(), wn[w]), "does not compile"); continue; }
			++C.states; ++C.transitions; ++C.traces;
			bool ok = out == (refuse ? Out::threw : Out::ok);
			for (int i = 0; i < total_; ++i) ok &= same_bits<T>(mem[i], want[i]);
			ok &= a.data() == mem + oa && b.data() == mem + ob;
			if (!ok) fail(strf("swap %s n=%d %s %s offset %d", what, n, tname<T>(), wn[w], ob - oa), strf("at %d and %d: %s (%s expected), memory %s, expected %s", oa, ob, name(out), refuse ? "exception" : "accepted",
				vstr(std::vector<T>(mem, mem + total_)).c_str(), vstr(want).c_str()));
		}
}
template <class T, int n> void two_views(dsga::basic_view<true, T, n> &a, dsga::basic_view<true, T, n> &b, T *m1, T *m2)
{
	for (int p = 0; p < npat<T>; ++p)
		for (int w = 0; w < NSW; ++w)
		{
			for (int i = 0; i < n; ++i) { m1[i] = val<T>(p, 0, i); m2[i] = val<T>(p, 1, i); }
			Out out{};
			if (!do_swap(a, b, w, out)) { if (w <= s_adl) fail(strf("swap view n=%d %s %s", n, tname<T>(), wn[w]), "does not compile"); continue; }
			++C.states; ++C.transitions; ++C.traces;
			bool ok = out == Out::ok && a.data() == m1 && b.data() == m2;
			for (int i = 0; i < n; ++i) ok &= same_bits(m1[i], val<T>(p, 1, i)) && same_bits(m2[i], val<T>(p, 0, i));
			if (!ok) fail(strf("swap view n=%d %s %s", n, tname<T>(), wn[w]), strf("contents were not exchanged (%s)", name(out)));
		}
}
template <class T, int n> void placements()
{
	constexpr int total_ = 3 * n + 1;
	static T mem[total_];
	for (int oa = 0; oa + n <= total_; ++oa)
		for (int ob = 0; ob + n <= total_; ++ob)
		{
			dsga::basic_view<true, T, n> a(mem + oa), b(mem + ob);
			overlap<T>("views of one memory", a, b, mem, total_, n, oa, ob);
			// the same two views after having been re-pointed
			a.reset(mem + ob); b.reset(mem + oa); a.reset(mem + oa); b.reset(mem + ob);
			overlap<T>("re-pointed views of one memory", a, b, mem, total_, n, oa, ob);
		}
	// a view into a vector and into an owning view, against the vector's neighbours
	if constexpr (n < 4)
	{
		static dsga::basic_vector<T, 4> v;
		for (int oa = 0; oa + n <= 4; ++oa) for (int ob = 0; ob + n <= 4; ++ob) { dsga::basic_view<true, T, n> a(v.data() + oa), b(v.data() + ob); overlap<T>("views into a vector", a, b, v.data(), 4, n, oa, ob); }
	}
	// a view of an owning view's own memory
	static dsga::view_vector<T, n> o;
	dsga::basic_view<true, T, n> a(o.data());
	overlap<T>("owning view and a view of it", static_cast<dsga::basic_view<true, T, n> &>(o), a, o.data(), n, n, 0, 0);
}
template <class T, int c, int r> void mat()
{
	static dsga::basic_matrix<T, c, r> a, b;
	two<T>("matrix", a, b, (T *)&a, (T *)&b, c * r);
	// two columns of one matrix
	for (int i = 0; i < c; ++i) for (int j = 0; j < c; ++j)
		for (int w = 0; w < NSW; ++w)
		{
			T *raw = (T *)&a; std::vector<T> want(c * r);
			for (int k = 0; k < c * r; ++k) want[k] = raw[k] = T(k + 1);
			for (int k = 0; k < r; ++k) std::swap(want[i * r + k], want[j * r + k]);
			Out out{}; if (!do_swap(a[i], a[j], w, out)) continue;
			++C.states; ++C.transitions; ++C.traces;
			bool ok = out == Out::ok; for (int k = 0; k < c * r; ++k) ok &= raw[k] == want[k];
			if (!ok) fail(strf("swap columns %d %d of %dx%d %s", i, j, c, r, wn[w]), "wrong contents");
		}
}
int main(int argc, char **argv)
{
	init(argc, argv);
	for_types(all_types{}, [&](auto t) {
		using T = typename decltype(t)::type;
		static_for<4>([&](auto n) { constexpr int k = n + 1; { static dsga::basic_vector<T, k> a, b; two<T>("vector", a, b, (T *)&a, (T *)&b, k); }
			{ static dsga::view_vector<T, k> a, b; two<T>("owning-view", a, b, a.data(), b.data(), k); }
			{ static T m1[k], m2[k]; dsga::basic_view<true, T, k> a(m1), b(m2); two_views<T, k>(a, b, m1, m2); }
			placements<T, k>(); });
		if constexpr (std::is_floating_point_v<T>) static_for<3>([&](auto c) { static_for<3>([&](auto r) { mat<T, c + 2, r + 2>(); }); });
	});
	sample("vectors, owning views, views, matrices and matrix columns of all types; views at every pair of offsets in 3n+1 elements; member, unqualified, std and ranges swap");
	total = C;
	return finish();
}
