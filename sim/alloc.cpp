// Allocator seam: allocations made by the code under test are counted, can fail, and are checked on release.
#include "alloc.hpp"
#include "simint.hpp"
#include <errno.h>
#include <new>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}

namespace sim {
AllocCfg alloc_cfg;
enum { A_MALLOC, A_NEW, A_ARRAY };
struct Blk { size_t size; bool freed; int kind; };
template <class T> struct RealAlloc                 // the table itself must not pass through the seam
{
	typedef T value_type;
	RealAlloc() {}
	template <class U> RealAlloc(const RealAlloc<U> &) {}
	T *allocate(size_t n) { return (T *) __real_malloc(n * sizeof(T)); }
	void deallocate(T *p, size_t) { __real_free(p); }
	template <class U> bool operator==(const RealAlloc<U> &) const { return true; }
	template <class U> bool operator!=(const RealAlloc<U> &) const { return false; }
};
typedef std::unordered_map<void *, Blk, std::hash<void *>, std::equal_to<void *>, RealAlloc<std::pair<void *const, Blk> > > Live;
static Live *live;
static size_t nlive;
static bool ready;

static void alloc_reset()
{
	if (live)
	{
#ifndef __SANITIZE_ADDRESS__
		for (auto &b : *live) __real_free(b.first);
#endif
		live->clear();
	}
	else live = new (__real_malloc(sizeof(Live))) Live;
	nlive = 0;
	ready = true;
	memset(&alloc_cfg, 0, sizeof alloc_cfg);
}
struct Init { Init() { on_reset(alloc_reset); } } init_alloc;

size_t alloc_live() { return nlive; }
std::string alloc_live_list()
{
	std::string s;
	int n = 0;
	for (auto &b : *live) if (!b.second.freed && ++n <= 4) s += fmt("%s%zu", n > 1 ? "," : "", b.second.size);
	return s;
}
static inline bool tracked() { return ready && self()->sut > 0; }
static void note(void *p, size_t n, int kind) { OutSut o; (*live)[p] = Blk{n, false, kind}; ++nlive; }
static bool due()
{
	if (alloc_cfg.once && --alloc_cfg.once == 0) { ev("alloc-fails"); sim::stat("fault.alloc.once"); return true; }
	if (!alloc_cfg.faults || (alloc_cfg.procs && !(alloc_cfg.procs >> (curproc()->id & 63) & 1))) return false;
	static const int e[] = { ENOMEM };
	return inject("alloc", e) != 0;
}
static void *get(size_t n, int kind = A_MALLOC)
{
	if (!tracked()) return __real_malloc(n);
	if (n > (256u << 20)) { errno = ENOMEM; return NULL; }
	if (due()) { errno = ENOMEM; return NULL; }
	void *p = __real_malloc(n ? n : 1);
	if (!p) return p;
	memset(p, 0xA5, n);
	note(p, n, kind);
	return p;
}
static void put(void *p, int kind = A_MALLOC)
{
	if (!p) return;
	if (ready && live)
	{
		OutSut o;
		auto it = live->find(p);
		if (it != live->end())
		{
			if (it->second.freed) fail("double-free", "block of %zu bytes released twice", it->second.size);
			if (it->second.kind != kind) { static const char *const K[] = { "malloc", "new", "new[]" }, *const R[] = { "free", "delete", "delete[]" }; fail("mismatched-free", "a block of %zu bytes from %s was released by %s", it->second.size, K[it->second.kind], R[kind]); }
			--nlive;
#ifdef __SANITIZE_ADDRESS__
			live->erase(it);
#else
			it->second.freed = true;        // kept, filled, until the end of the run
			memset(p, 0xDD, it->second.size);
			return;
#endif
		}
	}
	__real_free(p);
}
} // namespace sim
using namespace sim;

extern "C" {
void *__wrap_malloc(size_t n) { return get(n); }
void *__wrap_calloc(size_t a, size_t b)
{
	if (!tracked()) return __real_calloc(a, b);
	void *p = get(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
void *__wrap_realloc(void *p, size_t n)
{
	if (!ready) return __real_realloc(p, n);
	size_t old = 0; bool known = false;
	{
		OutSut o;
		auto it = live->find(p);
		if (it != live->end()) { old = it->second.size; known = true; if (it->second.freed) fail("double-free", "realloc of a released block"); }
	}
	if (!tracked() && !known) return __real_realloc(p, n);
	void *q = get(n);
	if (!q) return NULL;
	if (!p) return q;
	if (known) { memcpy(q, p, old < n ? old : n); put(p); return q; }
	put(q);
	return __real_realloc(p, n);
}
void __wrap_free(void *p) { put(p); }
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *) get(n);
	if (p) memcpy(p, s, n);
	return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *) get(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
}
extern "C" {
int __wrap_vasprintf(char **r, const char *f, va_list ap)
{
	va_list a2;
	va_copy(a2, ap);
	int n = vsnprintf(NULL, 0, f, a2);
	va_end(a2);
	if (n < 0 || !(*r = (char *) get(n + 1))) { *r = NULL; return -1; }
	return vsnprintf(*r, n + 1, f, ap);
}
int __wrap_asprintf(char **r, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int n = __wrap_vasprintf(r, f, ap);
	va_end(ap);
	return n;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(p, n);
}
}
void *operator new(size_t n) { void *p = get(n, A_NEW); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n, A_ARRAY); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, A_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, A_ARRAY); }
void operator delete(void *p) noexcept { put(p, A_NEW); }
void operator delete[](void *p) noexcept { put(p, A_ARRAY); }
void operator delete(void *p, size_t) noexcept { put(p, A_NEW); }
void operator delete[](void *p, size_t) noexcept { put(p, A_ARRAY); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p, A_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p, A_ARRAY); }
