// P34: the geometry examples against independent long double geometry.  -DMC_T=0 float, 1 double; -DMC_BEZIER -DMC_ANGLE -DMC_BASIC
#include "kinds.hpp"
#include "basic.hxx"
#include "bezier.hxx"
#include "angle.hxx"
using namespace mc;
using T = std::tuple_element_t<MC_T, std::tuple<float, double>>; using F = long double;
struct P { F c[4] = {}; };
static P operator-(P a, P b) { P r; for (int i = 0; i < 4; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
static P operator+(P a, P b) { P r; for (int i = 0; i < 4; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
static P operator*(F s, P a) { for (F &x : a.c) x *= s; return a; }
static F dot_(P a, P b) { F s = 0; for (int i = 0; i < 4; ++i) s += a.c[i] * b.c[i]; return s; }
static F len_(P a) { return std::sqrt(dot_(a, a)); }
static P cross_(P a, P b) { return { { a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0] } }; }
static const F eps = std::is_same_v<T, float> ? 4e-5L : 1e-12L;
static bool near(F a, F b) { return std::fabs(a - b) <= eps * (1 + std::fabs(b)); }
static std::string show(P p, int n) { std::string s = "("; for (int i = 0; i < n; ++i) s += strf(i ? ", %Lg" : "%Lg", p.c[i]); return s + ")"; }
struct Pt { T c[4]; };
static P pt(const Pt &t) { P p; for (int i = 0; i < 4; ++i) p.c[i] = t.c[i]; return p; }
template <int N, class V> P of(const V &v) { P p; for (int i = 0; i < N; ++i) p.c[i] = v[i]; return p; }
// up to four points held by different kinds of objects
template <int N, int Q> struct Holders
{
	static constexpr int kinds[4][4] = { { K_VEC, K_VEC, K_VEC, K_VEC }, { K_SWZ, K_VIEW, K_VSWZ, K_OWN }, { K_CVIEW, K_OSWZ, K_VEC, K_CVSWZ }, { K_OWN, K_CVSWZ, K_SWZ, K_VIEW } };
	Obj<T, N, kinds[Q][0]> a; Obj<T, N, kinds[Q][1]> b; Obj<T, N, kinds[Q][2]> c; Obj<T, N, kinds[Q][3]> d;
	void put(const Pt *p) { mem(a).put(p[0].c); mem(b).put(p[1].c); mem(c).put(p[2].c); mem(d).put(p[3].c); }
	bool kept(const Pt *p) { return mem(a).holds(p[0].c) && mem(b).holds(p[1].c) && mem(c).holds(p[2].c) && mem(d).holds(p[3].c); }
};
static void points(int n, const std::vector<T> &al, std::vector<Pt> &out) { std::size_t t = 1; for (int i = 0; i < n; ++i) t *= al.size(); for (std::size_t q = 0; q < t; ++q) { Pt p{}; std::size_t z = q; for (int i = 0; i < n; ++i) { p.c[i] = al[z % al.size()]; z /= al.size(); } out.push_back(p); } }
static void is(Counters &c, const char *key, const Pt *p, int np, int n, P got, P want)
{
	++c.states; ++c.traces; ++c.transitions; bool ok = true; for (int i = 0; i < n; ++i) ok &= near(got.c[i], want.c[i]); if (ok) return;
	std::string s; for (int i = 0; i < np; ++i) s += show(pt(p[i]), n) + " "; fail(key, s + ": " + show(got, n) + ", expected " + show(want, n));
}
static void is1(Counters &c, const char *key, const Pt *p, int np, int n, F got, F want) { ++c.states; ++c.traces; ++c.transitions; if (near(got, want)) return; std::string s; for (int i = 0; i < np; ++i) s += show(pt(p[i]), n) + " "; fail(key, s + strf(": %Lg, expected %Lg", got, want)); }
template <class> struct Runner
{
#ifdef MC_BASIC
	template <int Q> static void triples(const std::vector<Pt> &pts)
	{
		const u64 n = pts.size();
		parallel(n * n * n, [&](Counters &c, u64 lo, u64 hi) {
			Holders<3, Q> h;
			for (u64 q = lo; q < hi && !stop; ++q)
			{
				Pt p[4] = { pts[q % n], pts[q / n % n], pts[q / n / n], pts[(q * 7 + 3) % n] }; h.put(p); const P A = pt(p[0]), B = pt(p[1]), D = pt(p[2]), X = pt(p[3]); auto &a = h.a.get(); auto &b = h.b.get(); auto &d = h.c.get(); auto &x = h.d.get();
				const F l1 = len_(B - D), l2 = len_(D - A), l3 = len_(A - B); const P nrm = cross_(B - A, D - A); const F n2 = dot_(nrm, nrm);
				if (l1 + l2 + l3 > 0) is(c, "triangle_incenter", p, 3, 3, of<3>(triangle_incenter(a, b, d)), (1 / (l1 + l2 + l3)) * (l1 * A + l2 * B + l3 * D));
				{ const F m1 = len_(cross_(B, D)), m2 = len_(cross_(D, A)), m3 = len_(cross_(A, B)), m4 = len_(nrm); if (m1 + m2 + m3 + m4 > 0) is(c, "tetrahedron_incenter", p, 3, 3, of<3>(tetrahedron_incenter(a, b, d)), (1 / (m1 + m2 + m3 + m4)) * (m1 * A + m2 * B + m3 * D)); }
				if (n2 > 0)
				{
					// barycentric circumcenter
					const F s1 = l1 * l1, s2 = l2 * l2, s3 = l3 * l3, w1 = s1 * (s2 + s3 - s1), w2 = s2 * (s3 + s1 - s2), w3 = s3 * (s1 + s2 - s3); const P C = (1 / (w1 + w2 + w3)) * (w1 * A + w2 * B + w3 * D);
					is(c, "three_point_circle_center", p, 3, 3, of<3>(three_point_circle_center(a, b, d)), C); is1(c, "three_point_circle_radius", p, 3, 3, three_point_circle_radius(a, b, d), len_(C - A));
					const P pr = X - (dot_(nrm, X - A) / n2) * nrm; is(c, "project_to_plane1", p, 4, 3, of<3>(project_to_plane1(x, a, b, d)), pr); is(c, "project_to_plane2", p, 4, 3, of<3>(project_to_plane2(x, a, b, d)), pr);
				}
				if (l3 > 0)
				{
					const P v = B - A; const P pr = A + (dot_(D - A, v) / dot_(v, v)) * v; is(c, "project_to_line1", p, 3, 3, of<3>(project_to_line1(d, a, b)), pr); is(c, "project_to_line2", p, 3, 3, of<3>(project_to_line2(d, a, b)), pr); is(c, "project_to_line3", p, 3, 3, of<3>(project_to_line3(d, a, b)), pr);
					is1(c, "distance_to_line", p, 3, 3, distance_to_line(d, a, b), len_(D - pr));
				}
				if (!h.kept(p)) fail("basic", "an operand changed");
			}
		});
	}
	static void run()
	{
		Counters c; std::vector<Pt> two; points(2, { 0, 1, -1, 2, -3.5, 7, 0.25 }, two); for (auto &p : two) { dsga::basic_vector<T, 2> v(p.c[0], p.c[1]); const P w = { { -(F)p.c[1], (F)p.c[0] } }; is(c, "get_perpendicular1", &p, 1, 2, of<2>(get_perpendicular1(v)), w); is(c, "get_perpendicular2", &p, 1, 2, of<2>(get_perpendicular2(v)), w); }
		total.states += c.states; total.traces += c.traces; total.transitions += c.transitions;
		std::vector<Pt> pts; points(3, { 0, 1, -2 }, pts); triples<0>(pts); triples<1>(pts); triples<2>(pts); triples<3>(pts); if (thorough) { pts.clear(); points(3, { 0, 1, -2, 3 }, pts); triples<1>(pts); triples<2>(pts); }
		sample("every triple of points of a 3x3x3 grid (a fourth in rotation) in four mixes of kinds");
	}
#endif
#ifdef MC_BEZIER
	template <int N, int Q> static void curves(const std::vector<T> &al)
	{
		std::vector<Pt> pts; points(N, al, pts); const u64 n = pts.size(); static const T ts[] = { 0, 1, 0.5, 0.25, 0.75, T(1) / 3, -0.5, 1.5 };
		parallel(n * n * n * n, [&](Counters &c, u64 lo, u64 hi) {
			Holders<N, Q> h;
			for (u64 q = lo; q < hi && !stop; ++q)
			{
				Pt p[4] = { pts[q % n], pts[q / n % n], pts[q / n / n % n], pts[q / n / n / n] }; h.put(p); const P A = pt(p[0]), B = pt(p[1]), C = pt(p[2]), D = pt(p[3]);
				for (T t : ts)
				{
					const F s = t, u = 1 - s; const P quad = (u * u) * A + (2 * s * u) * B + (s * s) * C, cub = (u * u * u) * A + (3 * s * u * u) * B + (3 * s * s * u) * C + (s * s * s) * D;
					auto get = [](auto r) { if constexpr (N == 1) return P{ { (F)r } }; else return of<N>(r); };
					if (q < n * n * n) { is(c, "quadratic_bezier_eval", p, 3, N, get(quadratic_bezier_eval(h.a.get(), h.b.get(), h.c.get(), t)), quad); is(c, "quadratic_bezier_eval2", p, 3, N, get(quadratic_bezier_eval2(h.a.get(), h.b.get(), h.c.get(), t)), quad); }
					is(c, "cubic_bezier_eval", p, 4, N, get(cubic_bezier_eval(h.a.get(), h.b.get(), h.c.get(), h.d.get(), t)), cub); is(c, "cubic_bezier_eval2", p, 4, N, get(cubic_bezier_eval2(h.a.get(), h.b.get(), h.c.get(), h.d.get(), t)), cub);
				}
				if (!h.kept(p)) fail("bezier", "an operand changed");
			}
		});
	}
	static void run() { static_for<4>([](auto q) { constexpr int Q = std::remove_cvref_t<decltype(q)>::value; curves<1, Q>({ 0, 1, -1, 2, 10, -3 }); curves<2, Q>({ 0, 1, -2 }); curves<3, Q>({ 0, 3 }); curves<4, Q>({ 1, -2 }); }); sample("every tuple of control points over small grids, lengths 1 to 4, 8 parameters, four mixes of kinds"); }
#endif
#ifdef MC_ANGLE
	template <int N, int K, int L> static void angles(const std::vector<T> &al)
	{
		std::vector<Pt> pts; points(N, al, pts); const u64 n = pts.size();
		parallel(n * n, [&](Counters &c, u64 lo, u64 hi) {
			Obj<T, N, K> a; Obj<T, N, L> b;
			for (u64 q = lo; q < hi && !stop; ++q)
			{
				Pt p[2] = { pts[q % n], pts[q / n] }; mem(a).put(p[0].c); mem(b).put(p[1].c); const P A = pt(p[0]), B = pt(p[1]); if (dot_(A, A) == 0 || dot_(B, B) == 0) continue;
				const F want = std::atan2(len_(cross_(A, B)), dot_(A, B)), got = angle_between(a.get(), b.get()); ++c.states; ++c.traces; ++c.transitions;
				if (!(std::fabs(got - want) <= (std::is_same_v<T, float> ? 2e-3L : 1e-7L))) fail("angle_between", show(A, N) + " " + show(B, N) + strf(": %Lg, expected %Lg", got, want));
			}
		});
	}
	static void run() { const std::vector<T> al = { 0, 1, -1, 2, -3, 0.5, 10 }; angles<2, K_VEC, K_VEC>(al); angles<2, K_SWZ, K_VIEW>(al); angles<3, K_VEC, K_VEC>(al); angles<3, K_VSWZ, K_OWN>(al); angles<3, K_CVIEW, K_OSWZ>(al); angles<2, K_CVSWZ, K_VEC>(al); sample("every pair of non-zero vectors over 7 coordinates, lengths 2 and 3"); }
#endif
};
int main(int argc, char **argv) { init(argc, argv); Runner<void>::run(); return finish(); }
