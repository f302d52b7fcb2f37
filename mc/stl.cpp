// P41: the binary-to-ASCII STL converter of the examples, run on real files in a scratch directory
//   -DMC_SEQ     every sequence of facets over an alphabet of good and bad ones
//   -DMC_SIZE    every length of every file (truncated, extended) x stated facet counts; every bad value in every coordinate
//   -DMC_ARGS    every way of naming source and destination x what exists there x answers to the overwrite question
//   -DMC_FAULT   the destination refuses to take more than k bytes, for every k
//   -DMC_VALUES  coordinates of every exponent, normals of all integer triangles
#include "fp.hpp"
#include "oracles.hpp"
#include "stl.cxx"
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sstream>
using namespace mc;

struct Facet { float n[3]; float v[3][3]; unsigned short attr; };
static std::string raw(const std::vector<Facet> &fs, u32 count, const char *header = "binary header of no meaning")
{
	std::string s(80, '\0'); std::memcpy(s.data(), header, std::strlen(header));
	auto put = [&](const void *p, size_t n) { s.append((const char *)p, n); };
	put(&count, 4);
	for (auto &f : fs) { put(f.n, 12); put(f.v, 36); put(&f.attr, 2); }
	return s;
}
static void save(const std::string &name, const std::string &bytes) { FILE *f = fopen(name.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
static bool exists(const std::string &name) { struct stat st; return lstat(name.c_str(), &st) == 0; }
static std::string load(const std::string &name) { std::string s; FILE *f = fopen(name.c_str(), "rb"); if (!f) return "<none>"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }

// run the program in this process: exit code, or 1000 for an exception that leaves it
static std::string outs, errs;
static int run(std::vector<std::string> args, const std::string &input = "")
{
	std::istringstream in(input); std::ostringstream out, err;
	auto *i = std::cin.rdbuf(in.rdbuf()); auto *o = std::cout.rdbuf(out.rdbuf()); auto *e = std::cerr.rdbuf(err.rdbuf()); std::cin.clear();
	std::vector<char *> av; args.insert(args.begin(), "stl"); for (auto &a : args) av.push_back(a.data()); av.push_back(nullptr);
	int r; try { r = stl_main((int)args.size(), av.data()); } catch (...) { r = 1000; }
	std::cin.rdbuf(i); std::cout.rdbuf(o); std::cerr.rdbuf(e); outs = out.str(); errs = err.str(); return r;
}

// the unit normal in extended precision; false when it is not computable in float (alphabets stay clear of the limits)
static bool unit_normal(const Facet &f, long double n[3], long double *err = nullptr)
{
	long double a[3], b[3];
	for (int i = 0; i < 3; ++i) { a[i] = (long double)f.v[1][i] - f.v[0][i]; b[i] = (long double)f.v[2][i] - f.v[0][i]; }
	for (int i = 0; i < 3; ++i) n[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
	long double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
	if (!(l > 1e-19L && l < 1e19L)) return false;
	// the rounding errors of the differences and products, relative to the length
	if (err) for (int i = 0; i < 3; ++i)
	{
		auto m = [&](int p, int k) { return (long double)std::abs(f.v[p][k]) + std::abs(f.v[0][k]); }; int j = (i + 1) % 3, k = (i + 2) % 3;
		err[i] = 4e-7L + 4e-7L * (m(1, j) * m(2, k) + m(1, k) * m(2, j)) / l;
	}
	for (int i = 0; i < 3; ++i) n[i] /= l;
	return true;
}
static bool good(const Facet &f) { long double n[3]; for (auto &v : f.v) for (float x : v) if (!finite(x)) return false; return unit_normal(f, n); }

static std::string show(const Facet &f) { std::string s = "["; for (auto &v : f.v) s += strf("(%a %a %a)", v[0], v[1], v[2]); return s + "]"; }

// the destination as text against the facets; "" or what is wrong
static std::string compare(const std::string &text, const std::vector<Facet> &fs)
{
	std::vector<std::string> lines; for (size_t p = 0; p < text.size();) { size_t q = text.find('\n', p); if (q == text.npos) return "no newline at the end"; lines.push_back(text.substr(p, q - p)); p = q + 1; }
	std::vector<std::vector<std::string>> words; for (auto &l : lines) { std::istringstream is(l); words.emplace_back(); std::string w; while (is >> w) words.back().push_back(w); }
	size_t at = 0; std::string wrong;
	auto expect = [&](std::initializer_list<const char *> w, float *num) {
		if (!wrong.empty()) return;
		if (at >= words.size()) { wrong = "the output ends early"; return; }
		auto &g = words[at]; size_t k = 0;
		for (const char *x : w) if (k >= g.size() || (*x && g[k] != x)) { wrong = strf("line %zu is '%s'", at + 1, lines[at].c_str()); return; } else ++k;
		if (g.size() != k + (num ? 3 : 0)) { wrong = strf("line %zu is '%s'", at + 1, lines[at].c_str()); return; }
		for (int i = 0; num && i < 3; ++i) { char *e; num[i] = strtof(g[k + i].c_str(), &e); if (*e) { wrong = strf("line %zu is '%s'", at + 1, lines[at].c_str()); return; } }
		++at; };
	if (words.empty() || words[0].empty() || words[0][0] != "solid" || words[0].size() != 2) return "does not start with solid";
	std::string name = words[0][1]; at = 1;
	for (auto &f : fs)
	{
		if (!good(f)) continue;
		float n[3], v[3]; long double want[3], err[3]; unit_normal(f, want, err);
		expect({ "facet", "normal" }, n); expect({ "outer", "loop" }, nullptr);
		if (!wrong.empty()) return wrong;
		for (int i = 0; i < 3; ++i) if (!(std::abs((long double)n[i] - want[i]) <= err[0] + err[1] + err[2])) return strf("normal component %d of %s is %a, expected %La", i, show(f).c_str(), n[i], want[i]);
		for (auto &p : f.v) { expect({ "vertex" }, v); if (!wrong.empty()) return wrong; for (int i = 0; i < 3; ++i) if (std::bit_cast<u32>(v[i]) != std::bit_cast<u32>(p[i])) return strf("vertex component of %s is %a, expected %a", show(f).c_str(), v[i], p[i]); }
		expect({ "endloop" }, nullptr); expect({ "endfacet" }, nullptr);
	}
	expect({ "endsolid", name.c_str() }, nullptr);
	if (wrong.empty() && at != words.size()) wrong = "text after the end of the solid";
	return wrong;
}
// the written normals are those of right_handed_normal(), digit for digit
static std::string normals(const std::string &text, const std::vector<Facet> &fs)
{
	std::istringstream is(text); std::string w; std::vector<std::vector<float>> got;
	while (is >> w) if (w == "normal") { got.emplace_back(); for (int i = 0; i < 3; ++i) { is >> w; got.back().push_back(strtof(w.c_str(), nullptr)); } }
	size_t k = 0;
	for (auto &f : fs) if (good(f))
	{
		auto V = [&](int i) { return dsga::vec3(f.v[i][0], f.v[i][1], f.v[i][2]); };
		dsga::vec3 n = right_handed_normal(V(0), V(1), V(2));
		if (k >= got.size()) return "";
		for (int i = 0; i < 3; ++i) if (std::bit_cast<u32>(n[i]) != std::bit_cast<u32>(got[k][i])) return strf("%s: component %d of the normal of %s reads back as %a, it is %a", k == 0 && i == 0 && std::abs(got[k][i] - n[i]) <= 1e-7f * std::abs(n[i]) ? "first number rounded to 8 digits" : "wrong value", i, show(f).c_str(), got[k][i], n[i]);
		++k;
	}
	return "";
}

static u64 nr;
// one conversion of a well-formed file
static void convert(const std::vector<Facet> &fs, const std::string &bytes)
{
	++total.states; ++total.traces; ++total.transitions;
	save("in.stl", bytes); unlink("out.stl");
	int r = run({ "in.stl", "out.stl" }); bool any = false; for (auto &f : fs) any |= good(f);
	std::string what; for (auto &f : fs) what += show(f); if (what.size() > 1500) what.resize(1500);
	if ((r == 0) != any) fail("exit code", strf("%d for %s", r, what.c_str()));
	if (load("in.stl") != bytes) fail("source changed", what);
	std::string t = load("out.stl"), w = compare(t, fs);
	if (!w.empty()) fail("converted text", w + " for " + what);
	else if (w = normals(t, fs); !w.empty()) fail("digits of a normal: " + w.substr(0, w.find(':')), w.substr(w.find(':') + 1));
}
// a file that is not a binary STL: refused, nothing written
static void refuse(const std::string &bytes, const std::string &what)
{
	++total.states; ++total.traces; ++total.transitions;
	save("in.stl", bytes); unlink("out.stl");
	int r = run({ "in.stl", "out.stl" });
	if (r == 0 || r == 1000) fail("not a binary STL", strf("%s: exit code %d", what.c_str(), r));
	if (exists("out.stl")) fail("not a binary STL", what + ": a destination appears");
	if (load("in.stl") != bytes) fail("source changed", what);
}
static constexpr float INF = std::numeric_limits<float>::infinity(), NAN_ = std::numeric_limits<float>::quiet_NaN();
static Facet tri(std::array<float, 9> a, unsigned short attr = 0, float n = 0) { Facet f{}; for (int i = 0; i < 9; ++i) f.v[i / 3][i % 3] = a[i]; f.attr = attr; f.n[0] = f.n[1] = f.n[2] = n; return f; }
static std::vector<Facet> alphabet_()
{
	return { tri({ 0, 0, 0, 1, 0, 0, 0, 1, 0 }), tri({ 0, 0, 0, 0, 1, 0, 1, 0, 0 }, 0xffff, NAN_), tri({ 1, 2, 3, -4, 5, 0.1f, 7, -0.0f, 1e-3f }, 7, INF), tri({ 0.1f, 0.2f, 0.3f, 1.1f, -2.3f, 16777217.f, 3.3333333f, 1e4f, -1e-6f }, 1),
		tri({ 1, 1, 1, 2, 2, 2, 3, 3, 3 }), tri({ 5, 5, 5, 5, 5, 5, 1, 2, 3 }), tri({ 0, 0, 0, 0, 0, 0, 0, 0, 0 }), tri({ 0, 0, NAN_, 1, 0, 0, 0, 1, 0 }), tri({ 0, 0, 0, INF, 0, 0, 0, 1, 0 }), tri({ 0, 0, 0, 1, 0, 0, 0, -INF, 0 }),
		tri({ 3e38f, 0, 0, -3e38f, 1, 0, 0, 3e38f, 0 }), tri({ 1e-30f, 0, 0, 0, 1e-30f, 0, 0, 0, 1e-30f }), tri({ 1e-4f, 0, 0, 0, 1e-4f, 0, 0, 0, 1e-4f }, 2), tri({ 1e4f, 0, 0, 0, 1.5e4f, 0, 0, 0, -1.1e4f }, 3, -1) };
}
#ifdef MC_SEQ
static void explore()
{
	auto A = alphabet_(); std::vector<Facet> s;
	auto rec = [&](auto &self, int left) -> void { convert(s, raw(s, (u32)s.size())); if (left) for (auto &f : A) { s.push_back(f); self(self, left - 1); s.pop_back(); } };
	rec(rec, thorough ? 4 : 3);
	for (int n : { 100, 1000, 20000 }) { s.clear(); for (int i = 0; i < n; ++i) s.push_back(A[(i * 7 + i / 5) % A.size()]); convert(s, raw(s, n)); }   // longer than every buffer
	for (const char *h : { "", "solid ascii", "solid\nfacet normal 0 0 0", "\xff\xff\xff" }) { s = { A[0], A[4], A[2] }; convert(s, raw(s, 3, h)); }
	sample("every sequence of up to 3 (thorough 4) of 14 facets: good, degenerate, with NaN or infinities, overflowing, tiny; wrong stored normals and attributes; files of 100, 1000 and 20000 facets");
}
#elif defined MC_SIZE
static void explore()
{
	auto A = alphabet_();
	for (u32 n = 0; n <= 3; ++n)
	{
		std::vector<Facet> s(A.begin(), A.begin() + n);
		for (u32 c : { 0u, 1u, 2u, 3u, 4u, 5u, n + 0x80000000u, n + 0x40000000u, (n << 24), 0xffffffffu, 0x7fffffffu, 85899346u, 85899345u, 0x70736f73u })
		{
			std::string b = raw(s, c);
			for (size_t len = 0; len <= b.size() + 110; ++len)
			{
				std::string t = b; t.resize(len, '\x3f');
				if (len >= 84 && (len - 84) % 50 == 0 && (len - 84) / 50 == c) { std::vector<Facet> all; for (u32 i = 0; i < c; ++i) { Facet f; std::memcpy(f.n, t.data() + 84 + 50 * i, 12); std::memcpy(f.v, t.data() + 96 + 50 * i, 36); std::memcpy(&f.attr, t.data() + 132 + 50 * i, 2); all.push_back(f); } convert(all, t); }
				else refuse(t, strf("%zu bytes stating %u facets", len, c));
			}
		}
	}
	// ASCII STL as a source
	{ std::vector<Facet> s { A[0], A[2] }; save("in.stl", raw(s, 2)); unlink("out.stl"); run({ "in.stl", "out.stl" }); refuse(load("out.stl"), "an ASCII STL"); }
	// every pair of bad values in every pair of coordinates, in every facet of three
	const float bad[] = { NAN_, -NAN_, INF, -INF, std::numeric_limits<float>::signaling_NaN() };
	for (int k = 0; k < 3; ++k) for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) for (float p : bad) for (float q : bad) { std::vector<Facet> s { A[0], A[2], A[3] }; s[k].v[i / 3][i % 3] = p; s[k].v[j / 3][j % 3] = q; convert(s, raw(s, 3)); }
	sample("files of 0 to 3 facets cut or extended to every length x 14 stated counts (byte-swapped and overflowing ones among them); two non-finite values in every pair of coordinates");
}
#elif defined MC_ARGS
static void explore()
{
	auto A = alphabet_(); std::vector<Facet> s { A[0], A[4], A[2] }; const std::string src = raw(s, 3), badsrc = src.substr(0, 200), old = "something that was here before\n";
	char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return;
	// states of the directory, rebuilt before every run
	const char *sources[] = { "in.stl", "./in.stl", "sub/../in.stl", "@in.stl", "link.stl", "hard.stl", "bad.stl", "missing.stl", "sub", "", "in.stl/x" };
	const char *dests[] = { "out.stl", "sub/out.stl", "@out.stl", "old.txt", "in.stl", "./in.stl", "sub/../in.stl", "@in.stl", "link.stl", "hard.stl", "oldlink", "sub", "nodir/out.stl", "", "dangling" };
	const char *answers[] = { "", "\n", "y\n", "Y\n", "yes\n", "n\n", "N\n", "no\n", " y\n", "q\n", "\ty\n", "0\n" };
	auto abs = [&](const std::string &n) { return n[0] == '@' ? std::string(cwd) + "/" + n.substr(1) : n; };
	auto reset = [&] {
		for (const char *f : { "in.stl", "link.stl", "hard.stl", "bad.stl", "missing.stl", "out.stl", "old.txt", "oldlink", "dangling", "target.stl", "sub/out.stl" }) unlink(f);
		mkdir("sub", 0700); save("in.stl", src); save("bad.stl", badsrc); save("old.txt", old);
		if (symlink("in.stl", "link.stl") | link("in.stl", "hard.stl") | symlink("old.txt", "oldlink") | symlink("target.stl", "dangling")) abort(); };
	const char *files[] = { "in.stl", "bad.stl", "old.txt", "missing.stl", "out.stl", "sub/out.stl", "target.stl" };
	auto same_file = [](const std::string &a, const std::string &b) { struct stat x, y; return stat(a.c_str(), &x) == 0 && stat(b.c_str(), &y) == 0 && x.st_dev == y.st_dev && x.st_ino == y.st_ino; };
	for (std::string s0 : sources) for (std::string d0 : dests) for (std::string ans : answers)
	{
		reset(); ++total.states; ++total.traces; ++total.transitions;
		std::string so = abs(s0), de = abs(d0), what = strf("source '%s' destination '%s' answer '%s'", s0.c_str(), d0.c_str(), ans.c_str());
		struct stat st; bool source_ok = stat(so.c_str(), &st) == 0 && S_ISREG(st.st_mode) && s0 != "bad.stl", same = same_file(so, de);
		bool de_exists = stat(de.c_str(), &st) == 0, de_file = de_exists && S_ISREG(st.st_mode), can_create = !de_exists && d0 != "nodir/out.stl" && d0 != "";
		bool yes = ans[0] == 'y' || ans[0] == 'Y' || ans == "" || ans[0] == '\n';
		bool works = source_ok && !same && (can_create || (de_file && yes));
		std::map<std::string, std::string> before; for (const char *f : files) before[f] = exists(f) ? load(f) : "<none>";
		int r = run({ so, de }, ans);
		std::string written = d0 == "out.stl" || d0 == "@out.stl" ? "out.stl" : d0 == "sub/out.stl" ? d0 : d0 == "dangling" ? "target.stl" : d0 == "old.txt" || d0 == "oldlink" ? "old.txt" : "";
		const char *cls = !same ? "" : so == de ? " (destination is the source, same name)" : " (destination is the source under another name)";
		const char *dir = s0 == "" || d0 == "" ? " (empty name)" : s0 == "sub" ? " (source is a directory)" : s0 == "in.stl/x" ? " (source is below a file)" : d0.find("nodir") == 0 ? " (no such directory)" : "";
		if (r == 1000) fail(strf("exception instead of an exit code%s", dir), what);
		if ((r == 0) != works) { if (r != 1000) fail(strf("exit code%s%s: %s", cls, dir, r == 0 ? "success" : "failure"), strf("%d for %s", r, what.c_str())); }
		for (const char *f : files)
		{
			std::string now = exists(f) ? load(f) : "<none>";
			if (works && f == written) { std::string w = compare(now, s); if (!w.empty()) fail(strf("destination%s", cls), w + " for " + what); }
			else if (now != before[f]) fail(strf("a file changed%s: %s", cls, same && f == std::string("in.stl") ? "the source" : "another file"), strf("%s: %s has %zu bytes, had %zu", what.c_str(), f, now.size(), before[f].size()));
		}
		bool asked = !outs.empty(); if (source_ok && !same && asked != de_file) fail("overwrite question", what);
	}
	for (int n = 0; n <= 5; ++n) if (n != 2)
	{
		reset(); ++total.states; ++total.traces; ++total.transitions;
		std::vector<std::string> a { "in.stl", "out.stl", "old.txt", "sub/out.stl", "x" }; a.resize(n);
		std::map<std::string, std::string> before; for (const char *f : files) before[f] = exists(f) ? load(f) : "<none>";
		if (int r = run(a, "y\n"); r == 0 || r == 1000) fail("wrong number of arguments", strf("%d arguments: exit code %d", n, r));
		for (const char *f : files) if ((exists(f) ? load(f) : "<none>") != before[f]) fail("wrong number of arguments", strf("%d arguments: %s changed", n, f));
	}
	reset();
	sample("11 sources x 15 destinations (relative, absolute, through .., symbolic and hard links, directories, missing) x 12 answers; 0 to 5 arguments");
}
#elif defined MC_FAULT
static void explore()
{
	auto A = alphabet_();
	for (int n = 1; n <= (thorough ? 40 : 12); n += n < 3 ? 1 : 9)
	{
		std::vector<Facet> s; for (int i = 0; i < n; ++i) s.push_back(A[i % 4]);
		std::string b = raw(s, n); save("in.stl", b); unlink("out.stl");
		if (run({ "in.stl", "out.stl" }) != 0) fail("exit code", "");
		size_t full = load("out.stl").size();
		for (size_t k = 0; k <= full; ++k)
		{
			++total.states; ++total.traces; total.transitions += 2; unlink("out.stl");
			fflush(stdout); pid_t p = fork();
			if (p == 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l { (rlim_t)k, (rlim_t)k }; setrlimit(RLIMIT_FSIZE, &l); int r = run({ "in.stl", "out.stl" }); _exit(r == 0 ? 0 : r == 1000 ? 9 : 1); }
			int st = 0; waitpid(p, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st) == 9) { fail("crash when the destination is full", strf("%d facets, room for %zu of %zu bytes", n, k, full)); continue; }
			std::string t = load("out.stl"); bool complete = t.size() == full && compare(t, s).empty();
			if ((WEXITSTATUS(st) == 0) != complete) fail(complete ? "failure reported for a complete destination" : "success reported for an incomplete destination", strf("%d facets, room for %zu of %zu bytes: exit code %d", n, k, full, WEXITSTATUS(st)));
			if (load("in.stl") != b) fail("source changed", "");
		}
	}
	sample("the destination refuses every byte from the k-th on, for every k of files of 1, 2, 3 and 12 facets (thorough: up to 39)");
}
#else
static void explore()
{
	// values: the nine coordinates from a window moved over a grid of all exponents at which a normal is computable
	std::vector<float> g; for (int e = -12; e <= 12; ++e) for (float m : { 1.f, 1.5f, 1.9999999f, 1.0000001f, 1.3333334f, 1.1f, 1.7654321f }) { g.push_back(std::ldexp(m, e)); g.push_back(-std::ldexp(m, e)); }
	for (size_t i = 0; i + 9 <= g.size(); ++i) for (int r = 1; r <= (thorough ? 40 : 8); ++r) { std::array<float, 9> a; for (int k = 0; k < 9; ++k) a[k] = g[(i + k * r * (k % 2 ? 1 : 5)) % g.size()]; std::vector<Facet> s { tri({ 0, 0, 0, 1, 0, 0, 0, 1, 0 }), tri(a) }; convert(s, raw(s, 2)); s.erase(s.begin()); convert(s, raw(s, 1)); }
	// every exponent: one vertex far away or near the origin, the others making a triangle of moderate size impossible to miss
	for (int e = -149; e <= 127; ++e) for (float m : { 1.f, 1.9999999f, 1.3333334f, 1.0000001f }) for (int k = 0; k < 9; ++k)
	{
		float x = std::ldexp(m, e); if (e > 20) continue;
		std::array<float, 9> a { 0, 0, 0, 100, 3, 0, 1, 100, 7 }; a[k] = x; std::vector<Facet> s { tri({ 0, 0, 0, 1, 0, 0, 0, 1, 0 }), tri(a) }; if (k < 3 || e < 5) convert(s, raw(s, 2));
	}
	// normals in the direction of every (a, b, c) up to 12 (thorough 30), as the first and as a later facet
	for (int a = -3, N = thorough ? 30 : 12; a <= N; ++a) for (int b = -2; b <= N; ++b) for (int c = 1; c <= N; ++c) if (a) { std::vector<Facet> s { tri({ 0, 0, 0, float(b), -float(a), 0, float(c), 0, -float(a) }) }; convert(s, raw(s, 1)); s.push_back(s[0]); s[0] = alphabet_()[0]; convert(s, raw(s, 2)); }
	// integer triangles: the normal is perpendicular to the edges, right-handed, of unit length; validity
	std::vector<dsga::vec3> p; for (int i = 0; i < 27; ++i) p.push_back(dsga::vec3(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1) * (i % 2 ? 1.f : 3.f));
	for (auto &a : p) for (auto &b : p) for (auto &c : p)
	{
		++total.states; ++total.traces; total.transitions += 3;
		dsga::vec3 n = right_handed_normal(a, b, c); double u[3], v[3], w[3]; for (int i = 0; i < 3; ++i) { u[i] = b[i] - a[i]; v[i] = c[i] - a[i]; }
		double l = 0; for (int i = 0; i < 3; ++i) { w[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]; l += w[i] * w[i]; } l = std::sqrt(l);
		bool ok = valid_normal_vector(n); std::string what = strf("(%g %g %g) (%g %g %g) (%g %g %g)", a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]);
		if (ok != (l > 0)) fail("valid normal", what);
		if (ok) for (int i = 0; i < 3; ++i) if (std::abs(n[i] - w[i] / l) > 2e-7) fail("right_handed_normal", what);
	}
	const float sp[] = { 0.f, -0.f, 1.f, -1.f, INF, -INF, NAN_, std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::max(), 2.5f };
	for (float x : sp) for (float y : sp) for (float z : sp)
	{
		++total.states; ++total.traces; total.transitions += 4; dsga::vec3 v(x, y, z); std::string what = strf("(%g %g %g)", x, y, z);
		bool f = finite(x) && finite(y) && finite(z);
		if (definite_coordinate_triple(v) != f) fail("definite_coordinate_triple", what);
		if (valid_vertex_relaxed(v) != f) fail("valid_vertex_relaxed", what);
		if (valid_vertex_strict(v) != (f && x > 0 && y > 0 && z > 0)) fail("valid_vertex_strict", what);
		if (valid_normal_vector(v) != (f && (x != 0 || y != 0 || z != 0))) fail("valid_normal_vector", what);
	}
	sample("coordinates over 7 mantissas x 25 exponents in combinations, small ones down to the subnormals in each place; normals of all 27^3 integer triangles; the validity predicates on 12^3 special triples");
}
#endif
int main(int argc, char **argv)
{
	init(argc, argv);
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0;
	std::string dir = std::string(exe) + ".scratch"; std::filesystem::remove_all(dir);
	if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) { perror(dir.c_str()); return 2; }
	explore();
	if (chdir("/") == 0) std::filesystem::remove_all(dir);
	return finish();
}
