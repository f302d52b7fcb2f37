// Every memory access of the code under test becomes an event: the translation unit is compiled with the compiler's thread-sanitizer
// instrumentation (-Xclang -fsanitize=thread) but without its run time; the callbacks are these.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#define MC_RAW __attribute__((disable_sanitizer_instrumentation, noinline))
namespace mc::access
{
	// set by the explorer; `lo`, `hi` bound the memory private to the running thread (its stack)
	inline bool on = false;
	inline char *lo = nullptr, *hi = nullptr;
	inline void (*event)(char *p, std::size_t n, bool write) = nullptr;
	MC_RAW inline void begin() { on = true; }
	MC_RAW inline void end() { on = false; }
	MC_RAW inline void touch(void *p_, std::size_t n, bool write)
	{
		if (!on) return;
		char *p = static_cast<char *>(p_); if (p >= lo && p < hi) return;
		on = false; event(p, n, write); on = true;
	}
}
extern "C"
{
	MC_RAW void __tsan_init() {}
#define MC_RW(n) MC_RAW void __tsan_read##n(void *p) { mc::access::touch(p, n, false); } MC_RAW void __tsan_write##n(void *p) { mc::access::touch(p, n, true); } \
	MC_RAW void __tsan_unaligned_read##n(void *p) { mc::access::touch(p, n, false); } MC_RAW void __tsan_unaligned_write##n(void *p) { mc::access::touch(p, n, true); } \
	MC_RAW void __tsan_read_write##n(void *p) { mc::access::touch(p, n, false); mc::access::touch(p, n, true); } MC_RAW void __tsan_unaligned_read_write##n(void *p) { mc::access::touch(p, n, false); mc::access::touch(p, n, true); }
	MC_RW(1) MC_RW(2) MC_RW(4) MC_RW(8) MC_RW(16)
#undef MC_RW
	MC_RAW void __tsan_vptr_update(void **p, void *) { mc::access::touch(p, 8, true); }
	MC_RAW void __tsan_vptr_read(void **p) { mc::access::touch(p, 8, false); }
	MC_RAW void __tsan_func_entry(void *) {}
	MC_RAW void __tsan_func_exit() {}
	MC_RAW void *__tsan_memcpy(void *d, const void *s, std::size_t n) { mc::access::touch(const_cast<void *>(s), n, false); mc::access::touch(d, n, true); return memmove(d, s, n); }
	MC_RAW void *__tsan_memmove(void *d, const void *s, std::size_t n) { mc::access::touch(const_cast<void *>(s), n, false); mc::access::touch(d, n, true); return memmove(d, s, n); }
	MC_RAW void *__tsan_memset(void *d, int c, std::size_t n) { mc::access::touch(d, n, true); return memset(d, c, n); }
}
