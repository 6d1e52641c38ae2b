// Memory-access hooks (replaces the ThreadSanitizer runtime) and instrumented mem* functions.
#include "simint.hpp"
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
const char *shm_base = (const char *) 0x200000000000ull;
const u64 shm_span = 1ull << 36;

bool (*shm_valid)(const void *a, size_t n);

// an access by the code under test has to stay inside a segment its process has attached
static __attribute__((noinline)) void range_check(const void *a, size_t n)
{
	Task *t = self();
	if (t->sut <= 0 || !shm_valid || shm_valid(a, n)) return;
	OutSut o;
	fail("wild-access", "%s accesses %zu bytes of shared memory outside of the segments its process has attached", t->name.c_str(), n);
}
static inline bool shared(const void *a)
{
	if ((u64) ((const char *) a - shm_base) < shm_span) return true;
	return sched.hook_all && self()->sut > 0 && !on_stack(a);
}
}
using namespace sim;

static inline bool in_shm(const void *a) { return (u64) ((const char *) a - shm_base) < shm_span; }
#define ACC(a, n) do { if (__builtin_expect(shared(a), 0)) { if (in_shm(a)) range_check(a, n); mem_point(a); } } while (0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) \
void __tsan_read##n(void *a) { ACC(a, n); } \
void __tsan_write##n(void *a) { ACC(a, n); } \
void __tsan_read##n##_pc(void *a, void *) { ACC(a, n); } \
void __tsan_write##n##_pc(void *a, void *) { ACC(a, n); } \
void __tsan_volatile_read##n(void *a) { ACC(a, n); } \
void __tsan_volatile_write##n(void *a) { ACC(a, n); } \
void __tsan_unaligned_read##n(void *a) { ACC(a, n); } \
void __tsan_unaligned_write##n(void *a) { ACC(a, n); } \
void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n); } \
void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n); } \
void __tsan_read_write##n(void *a) { ACC(a, n); } \
void __tsan_unaligned_read_write##n(void *a) { ACC(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { ACC(a, n); }
void __tsan_write_range(void *a, unsigned long n) { ACC(a, n); }

#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { ACC((void *) a, sizeof(T)); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { ACC((void *) a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { ACC((void *) a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { ACC((void *) a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { ACC((void *) a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);

// chunked so that a pre-emption or a kill can fall into the middle of a copy
static size_t chunk(size_t n) { size_t c = n / 16; c &= ~(size_t) 7; return c < 8 ? 8 : c; }

void *__wrap_memcpy(void *d, const void *s, size_t n)
{
	if (!shared(d) && !shared(s)) return __real_memcpy(d, s, n);
	if (in_shm(s)) range_check(s, n);
	if (in_shm(d)) range_check(d, n);
	size_t c = chunk(n);
	for (size_t i = 0; i < n; i += c)
	{
		if (shared(s)) mem_point(s);
		if (shared(d)) mem_point(d);
		__real_memcpy((char *) d + i, (const char *) s + i, n - i < c ? n - i : c);
	}
	return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
	if (!shared(d) && !shared(s)) return __real_memmove(d, s, n);
	if ((char *) d > (const char *) s && (char *) d < (const char *) s + n) { if (in_shm(d)) range_check(d, n); mem_point(d); return __real_memmove(d, s, n); }
	return __wrap_memcpy(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
	if (!shared(d)) return __real_memset(d, v, n);
	if (in_shm(d)) range_check(d, n);
	size_t c = chunk(n);
	for (size_t i = 0; i < n; i += c) { mem_point(d); __real_memset((char *) d + i, v, n - i < c ? n - i : c); }
	return d;
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
	if (shared(a)) mem_point(a);
	if (shared(b)) mem_point(b);
	return __real_memcmp(a, b, n);
}
}
