// Common scaffolding of the explorers in this directory.
//
// Every harness is an independent program that enumerates a finite space completely, drives the real
// dsga code (taken from -I<repo>/include) on every point of it, and compares against a small reference
// model.  It prints
//     COUNT <name> <n>      measured counters (summed over harnesses by check.py)
//     SAMPLE <text>         a few of the executions it explored
//     FAIL <key>\t<detail>  a disagreement; <key> names the failing call site / input class
//     DONE                  the enumeration ran to its end
#pragma once
#include <utility>
#include <type_traits>
#include <concepts>
#include <array>
#include <tuple>
#include <algorithm>
#include <numbers>
#include <limits>
#include <cmath>
#include <numeric>
#include <bit>
#include <cassert>
#include <stdexcept>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <mutex>
#include <atomic>
#include <thread>
#include <functional>
#include <iterator>
#include <ranges>
#include <memory>
#include <sstream>
#include <unistd.h>

#ifdef MC_CONTROL_CE
// The library picks between a compile-time algorithm and the C library with std::is_constant_evaluated().
// Taking that decision over makes the compile-time algorithm reachable from a run-time enumeration.
namespace std
{
	inline thread_local bool mc_force_ce = false;
	constexpr bool mc_is_constant_evaluated() noexcept
	{
		if (__builtin_is_constant_evaluated()) return true;
		return mc_force_ce;
	}
}
#define is_constant_evaluated mc_is_constant_evaluated
#endif

#include "dsga.hxx"

#ifdef MC_CONTROL_CE
#undef is_constant_evaluated
#endif

namespace mc
{
	using u32 = std::uint32_t;
	using u64 = unsigned long long;

	inline bool thorough = false;
	inline unsigned threads = 8;

	// ---- counters -------------------------------------------------------------------------------
	struct Counters { u64 states = 0, transitions = 0, traces = 0; };
	inline Counters total;
	inline std::mutex mtx;
	inline std::map<std::string, u64> extra;
	inline std::map<std::string, u64> fails;
	inline std::vector<std::string> samples;
	inline u64 outcomes_hash_count = 0;

	// the execution being explored; kept cheap: a static string plus up to 8 numbers, rendered only when needed
	struct Ctx { const char *what = ""; long long a[8] = {}; };
	inline thread_local Ctx ctx;
	inline thread_local char ctxbuf[256];

	inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
	inline std::string strf(const char *f, ...)
	{
		char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
	}

	// report a disagreement.  the first three of every key are printed in full
	inline std::atomic<bool> stop{false};            // enough disagreements: the loops wind down
	inline u64 nfails = 0;
	inline void fail(const std::string &key, const std::string &detail)
	{
		if (stop.load(std::memory_order_relaxed)) return;
		std::lock_guard<std::mutex> g(mtx);
		u64 n = ++fails[key];
		if (++nfails > 50000) stop = true;
		if (n <= 3 && fails.size() <= 200)
		{
			std::string d = detail;
			for (char &c : d) if (c == '\n' || c == '\t') c = ' ';
			printf("FAIL\t%s\t%s\n", key.c_str(), d.c_str());
			fflush(stdout);
		}
	}
	inline void sample(const std::string &s)
	{
		std::lock_guard<std::mutex> g(mtx);
		if (samples.size() < 6) samples.push_back(s);
	}
	inline void count_extra(const std::string &k, u64 n = 1) { std::lock_guard<std::mutex> g(mtx); extra[k] += n; }

	// ---- rejected executions: assertion failures, exceptions, std::terminate ----------------------
	enum class Out { ok, asserted, threw, terminated };
	inline thread_local sigjmp_buf jb;
	inline thread_local bool armed = false;
	inline thread_local const char *last_assert = "";

	inline void crash_report(const char *why)
	{
		// no allocation guarantees needed: the process ends here
		printf("FAIL\tcrash\t%s while exploring: %s (%lld %lld %lld %lld) [%s]\n", why, ctx.what, ctx.a[0], ctx.a[1], ctx.a[2], ctx.a[3], ctxbuf);
		printf("CRASHED\n");
		fflush(stdout);
		_exit(3);
	}
	inline void on_terminate() { if (armed) { armed = false; siglongjmp(jb, 2); } crash_report("std::terminate"); }
	inline void on_signal(int s) { crash_report(strsignal(s)); }

	// run f; an assertion failure inside, an exception out of it or a call of std::terminate becomes its outcome.
	// (siglongjmp skips destructors: the code under test owns no resources)
	template <class F> __attribute__((noinline)) Out attempt(F &&f)
	{
		int r = sigsetjmp(jb, 0);
		if (r == 0)
		{
			armed = true;
			try { f(); } catch (...) { armed = false; return Out::threw; }
			armed = false;
			return Out::ok;
		}
		armed = false;
		return r == 1 ? Out::asserted : Out::terminated;
	}
	inline const char *name(Out o)
	{
		switch (o) { case Out::ok: return "accepted"; case Out::asserted: return "assertion"; case Out::threw: return "exception"; default: return "std::terminate"; }
	}

	// ---- value comparison ------------------------------------------------------------------------
	template <class T> bool same(T a, T b)            // numeric identity: NaN matches NaN, -0 matches +0
	{
		if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b);
		else return a == b;
	}
	template <class T> bool same_bits(T a, T b)       // NaN matches NaN, zeros must agree in sign
	{
		if constexpr (std::is_floating_point_v<T>) return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b));
		else return a == b;
	}
	template <class T> std::string str(T v)
	{
		if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
		else if constexpr (std::is_same_v<T, float>) return strf("%.9g(%a)", (double)v, (double)v);
		else if constexpr (std::is_floating_point_v<T>) return strf("%.17g(%a)", (double)v, (double)v);
		else if constexpr (std::is_signed_v<T>) return strf("%lld", (long long)v);
		else return strf("%llu", (unsigned long long)v);
	}
	template <class T> constexpr const char *tname()
	{
		if constexpr (std::is_same_v<T, bool>) return "bool";
		else if constexpr (std::is_same_v<T, int>) return "int";
		else if constexpr (std::is_same_v<T, unsigned>) return "uint";
		else if constexpr (std::is_same_v<T, long long>) return "llong";
		else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
		else if constexpr (std::is_same_v<T, unsigned long>) return "ulong";
		else if constexpr (std::is_same_v<T, float>) return "float";
		else if constexpr (std::is_same_v<T, double>) return "double";
		else return "?";
	}
	// read every component of any vector-like thing through operator[]
	template <class V> auto comps(const V &v)
	{
		using T = std::remove_cvref_t<decltype(v[0])>;
		std::vector<T> r; for (int i = 0; i < (int)v.size(); ++i) r.push_back(v[i]); return r;
	}
	template <class C> std::string vstr(const C &c)
	{
		std::string s = "{"; bool first = true;
		for (auto &&x : c) { if (!first) s += ", "; first = false; s += str(static_cast<std::remove_cvref_t<decltype(x)>>(x)); }
		return s + "}";
	}

	// parallel loop over [0,n) in chunks; body(thread_counters, lo, hi)
	template <class F> void parallel(u64 n, F body)
	{
		std::atomic<u64> next{0};
		const u64 chunk = std::max<u64>(1, std::min<u64>(n / (threads * 16) + 1, 1u << 15));
		std::vector<std::thread> ts;
		auto work = [&] {
			Counters c;
			for (;;)
			{
				u64 lo = next.fetch_add(chunk);
				if (lo >= n || stop) break;
				body(c, lo, std::min(n, lo + chunk));
			}
			std::lock_guard<std::mutex> g(mtx);
			total.states += c.states; total.transitions += c.transitions; total.traces += c.traces;
		};
		for (unsigned t = 1; t < threads; ++t) ts.emplace_back(work);
		work();
		for (auto &t : ts) t.join();
	}

	inline void init(int argc, char **argv)
	{
		for (int i = 1; i < argc; ++i)
		{
			if (!strcmp(argv[i], "thorough")) thorough = true;
			else if (!strncmp(argv[i], "-j", 2)) threads = (unsigned)atoi(argv[i] + 2);
		}
		std::set_terminate(on_terminate);
		for (int s : { SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT }) signal(s, on_signal);
	}
	inline int finish()
	{
		for (auto &[k, n] : fails) printf("FAILCOUNT\t%s\t%llu\n", k.c_str(), (unsigned long long)n);
		printf("COUNT states %llu\nCOUNT transitions %llu\nCOUNT traces %llu\n", (unsigned long long)total.states,
			(unsigned long long)total.transitions, (unsigned long long)total.traces);
		for (auto &[k, n] : extra) printf("COUNT %s %llu\n", k.c_str(), (unsigned long long)n);
		for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
		printf("DONE\n");
		fflush(stdout);
		return 0;
	}
}

// glibc's assert() ends here: turn it into an outcome of the execution being explored
extern "C" inline void mc_assert_hook(const char *expr)
{
	mc::last_assert = expr;
	if (mc::armed) { mc::armed = false; siglongjmp(mc::jb, 1); }
	static thread_local char b[512]; snprintf(b, sizeof b, "assertion '%s'", expr);
	mc::crash_report(b);
}
extern "C" void __assert_fail(const char *expr, const char *, unsigned, const char *) noexcept
{
	mc_assert_hook(expr);
	_exit(4);
}
