// pthread mutexes, conditions, once, thread-specific data under the simulator's scheduler.
#include "pth.hpp"
#include "simint.hpp"
#include <errno.h>
#include <map>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <vector>

namespace sim {
struct Mx { int owner; int count; int type; std::vector<Task *> q; };
struct Cv { std::vector<Task *> q; std::map<Task *, bool> signalled; };
static std::map<const void *, Mx> *mx;
static std::map<const void *, Cv> *cv;
struct Key { void (*dtor)(void *); };
static std::vector<Key> *keys;
static std::map<std::pair<int, unsigned>, const void *> *tsd;

static std::map<const void *, int> once_proc;
static void init()
{
	if (mx) return;
	mx = new std::map<const void *, Mx>; cv = new std::map<const void *, Cv>;
	keys = new std::vector<Key>; tsd = new std::map<std::pair<int, unsigned>, const void *>;
}
static void pth_reset()
{
	init();
	mx->clear(); cv->clear();
	keys->clear(); tsd->clear(); once_proc.clear();
}
struct Init { Init() { on_reset(pth_reset); } } init_pth;

static bool sutctx() { return self()->sut > 0; }
int pth_held() { int n = 0; for (auto &m : *mx) n += m.second.owner != 0; return n; }
bool pth_holds(Task *t) { for (auto &m : *mx) if (m.second.owner == t->id) return true; return false; }
bool pth_in_cond(Task *t) { return task_blocked(t) && t->what && !strcmp(t->what, "pthread_cond_wait"); }

// memory handed out by the simulated allocator is filled with 0xA5: an object there that nobody initialised
static void inited(const void *p, size_t n, bool known, const char *what)
{
	if (known) return;
	for (size_t i = 0; i < n; ++i) if (((const unsigned char *) p)[i] != 0xA5) return;
	fail("uninitialised", "a %s is used without having been initialised", what);
}
static int lock(pthread_mutex_t *m, bool tryonly, i64 deadline)
{
	OutSut o;
	init();
	inited(m, sizeof *m, mx->count(m), "mutex");
	point("mutex_lock");
	int me = self()->id ? self()->id : -1;
	for (;;)
	{
		Mx &x = (*mx)[m];
		if (!x.owner) { x.owner = me; x.count = 1; ev("lock"); point("mutex_locked"); return 0; }
		if (x.owner == me)
		{
			int type = x.type;
			if (type == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
			if (type == PTHREAD_MUTEX_ERRORCHECK && !tryonly) return EDEADLK;
		}
		if (tryonly) return EBUSY;
		stat("probe.mutex-contended");
		x.q.push_back(cur());
		int w = block("pthread_mutex_lock", deadline, false);
		Mx &y = (*mx)[m];
		for (size_t i = 0; i < y.q.size(); ++i) if (y.q[i] == cur()) { y.q.erase(y.q.begin() + i); break; }
		if (w == WK_TIMEOUT) return ETIMEDOUT;
	}
}
static int unlock(pthread_mutex_t *m)
{
	OutSut o;
	init();
	Mx &x = (*mx)[m];
	int me = self()->id ? self()->id : -1;
	if (x.owner != me)
	{
		if (x.type == PTHREAD_MUTEX_ERRORCHECK || x.type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
		fail("mutex-misuse", "a mutex is unlocked by a thread that does not hold it");
	}
	if (--x.count) return 0;
	x.owner = 0;
	ev("unlock");
	for (size_t i = 0; i < x.q.size(); ++i) wake(x.q[i], WK_OK);
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline)
{
	OutSut o;
	init();
	inited(c, sizeof *c, cv->count(c), "condition variable");
	point("cond_wait");
	Task *me = cur();
	if (!me) fail("harness", "driver would wait on a condition");
	if ((*mx)[m].owner != me->id) fail("mutex-misuse", "condition wait without holding the mutex");
	Cv &x = (*cv)[c];
	x.q.push_back(me);
	x.signalled[me] = false;
	unlock(m);
	stat("probe.cond-wait");
	int w = block("pthread_cond_wait", deadline, true);
	Cv &y = (*cv)[c];
	for (size_t i = 0; i < y.q.size(); ++i) if (y.q[i] == me) { y.q.erase(y.q.begin() + i); break; }
	if (w == WK_INTR) stat("fault.spurious-wakeup");
	ev("cond-woken", w);
	lock(m, false, -1);
	return w == WK_TIMEOUT ? ETIMEDOUT : 0;
}
static void csignal(pthread_cond_t *c, bool all)
{
	OutSut o;
	init();
	inited(c, sizeof *c, cv->count(c), "condition variable");
	point("cond_signal");
	Cv &x = (*cv)[c];
	ev("cond-signal", x.q.size(), all);
	while (!x.q.empty())
	{
		size_t i = x.q.size() > 1 ? draw(x.q.size()) : 0;
		Task *t = x.q[i];
		x.q.erase(x.q.begin() + i);
		if (!task_blocked(t)) continue;       // already on its way out (interrupted or timed out)
		wake(t, WK_OK);
		if (!all) break;
	}
}
static i64 abs_ns(const struct timespec *ts, clockid_t clk)
{
	i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	return clk == CLOCK_REALTIME ? t - wall_off_ns : t;
}
} // namespace sim
using namespace sim;

// bound with ld --wrap: only calls made by the objects linked here are simulated, and only inside the code under test;
// the C++ runtime keeps the real ones
extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (!sutctx()) return __real_pthread_mutex_init(m, a);
	OutSut x;
	init();
	Mx y; y.owner = 0; y.count = 0; y.type = PTHREAD_MUTEX_DEFAULT;
	if (a) pthread_mutexattr_gettype(a, &y.type);
	(*mx)[m] = y;
	return 0;
}
int __real_pthread_mutex_destroy(pthread_mutex_t *m);
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!sutctx()) return __real_pthread_mutex_destroy(m);
	OutSut x;
	init();
	auto i = mx->find(m);
	if (i == mx->end()) return 0;
	if (i->second.owner) return EBUSY;
	mx->erase(i);
	return 0;
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!sutctx()) return __real_pthread_mutex_lock(m);
	return lock(m, false, -1);
}
int __real_pthread_mutex_trylock(pthread_mutex_t *m);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!sutctx()) return __real_pthread_mutex_trylock(m);
	return lock(m, true, -1);
}
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!sutctx()) return __real_pthread_mutex_unlock(m);
	return unlock(m);
}
int __real_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts);
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	if (!sutctx()) return __real_pthread_mutex_timedlock(m, ts);
	return lock(m, false, abs_ns(ts, CLOCK_REALTIME));
}
int __real_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	if (!sutctx()) return __real_pthread_cond_init(c, a);
	OutSut x;
	init();
	(*cv)[c] = Cv();
	return 0;
}
int __real_pthread_cond_destroy(pthread_cond_t *c);
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	if (!sutctx()) return __real_pthread_cond_destroy(c);
	OutSut x;
	init();
	cv->erase(c);
	return 0;
}
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!sutctx()) return __real_pthread_cond_wait(c, m);
	return cwait(c, m, -1);
}
int __real_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (!sutctx()) return __real_pthread_cond_timedwait(c, m, ts);
	return cwait(c, m, abs_ns(ts, CLOCK_REALTIME));
}
int __real_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts);
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
	if (!sutctx()) return __real_pthread_cond_clockwait(c, m, k, ts);
	return cwait(c, m, abs_ns(ts, k));
}
int __real_pthread_cond_signal(pthread_cond_t *c);
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	if (!sutctx()) return __real_pthread_cond_signal(c);
	csignal(c, false);
	return 0;
}
int __real_pthread_cond_broadcast(pthread_cond_t *c);
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!sutctx()) return __real_pthread_cond_broadcast(c);
	csignal(c, true);
	return 0;
}
int __real_pthread_once(pthread_once_t *o, void (*fn)());
int __wrap_pthread_once(pthread_once_t *o, void (*fn)())
{
	if (!sutctx()) return __real_pthread_once(o, fn);
	volatile int *st = (volatile int *) o;
	if (*st == 2) return 0;
	if (*st == 1 && (OutSut(), once_proc.count(o)) && !proc_get(once_proc[o])->alive) *st = 0;   // every process has a copy of its own
	if (*st == 0)
	{
		*st = 1;
		{ OutSut x; once_proc[o] = curproc()->id; }
		{ OutSut x; point("once"); }
		fn();
		{ OutSut x; point("once"); }
		*st = 2;
		return 0;
	}
	OutSut x;
	wait_until("@pthread_once", [st, o]() { return *st != 1 || !proc_get(once_proc[o])->alive; });
	if (*st == 2) return 0;
	InSut y;
	return __wrap_pthread_once(o, fn);
}
int __real_pthread_key_create(pthread_key_t *k, void (*d)(void *));
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
	if (!sutctx()) return __real_pthread_key_create(k, d);
	OutSut x;
	init();
	Key y = { d };
	keys->push_back(y);
	*k = keys->size() - 1;
	return 0;
}
int __real_pthread_key_delete(pthread_key_t k);
int __wrap_pthread_key_delete(pthread_key_t k)
{
	if (!sutctx()) return __real_pthread_key_delete(k);
	return 0;
}
int __real_pthread_setspecific(pthread_key_t k, const void *v);
int __wrap_pthread_setspecific(pthread_key_t k, const void *v)
{
	if (!sutctx()) return __real_pthread_setspecific(k, v);
	OutSut x;
	init();
	if (k >= keys->size()) return EINVAL;
	(*tsd)[std::make_pair(self()->id, k)] = v;
	return 0;
}
void * __real_pthread_getspecific(pthread_key_t k);
void * __wrap_pthread_getspecific(pthread_key_t k)
{
	if (!sutctx()) return __real_pthread_getspecific(k);
	OutSut x;
	init();
	auto i = tsd->find(std::make_pair(self()->id, k));
	return i == tsd->end() ? NULL : (void *) i->second;
}
pthread_t __real_pthread_self();
pthread_t __wrap_pthread_self()
{
	if (!sutctx()) return __real_pthread_self();
	return (pthread_t) (140000000000000ul + self()->id * 4096);
}
}

// initialisation of function-local statics (the real guards take a second simulated thread for a recursion)
extern "C" {
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g)
{
	if (!sutctx()) return __real___cxa_guard_acquire(g);
	OutSut o;
	volatile unsigned char *b = (volatile unsigned char *) g;
	for (;;)
	{
		if (b[0]) return 0;
		if (!b[1]) { b[1] = 1; b[2] = (unsigned char) self()->id; ev("guard"); return 1; }
		if (b[2] == (unsigned char) self()->id) fail("recursive-init", "the initialisation of a static object needs itself");
		stat("probe.guard-contended");
		wait_until("a static being initialised", [=]() { return b[0] || !b[1]; });
	}
}
void __wrap___cxa_guard_release(uint64_t *g)
{
	if (!sutctx()) { __real___cxa_guard_release(g); return; }
	volatile unsigned char *b = (volatile unsigned char *) g;
	b[1] = 0; b[0] = 1;
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
	if (!sutctx()) { __real___cxa_guard_abort(g); return; }
	((volatile unsigned char *) g)[1] = 0;
}
}

// std::condition_variable (its functions live in the C++ runtime; std::mutex and std::call_once come down to the calls above)
#include <mutex>
extern "C" {
#define CVR(f) __real__ZNSt18condition_variable##f
#define CVW(f) __wrap__ZNSt18condition_variable##f
void CVR(C1Ev)(void *);
void CVW(C1Ev)(void *c)
{
	if (!sutctx()) { CVR(C1Ev)(c); return; }
	OutSut x;
	init();
	memset(c, 0, sizeof(pthread_cond_t));
	(*cv)[c] = Cv();
}
void CVR(D1Ev)(void *);
void CVW(D1Ev)(void *c)
{
	if (!sutctx()) { CVR(D1Ev)(c); return; }
	OutSut x;
	init();
	cv->erase(c);
}
void CVR(4waitERSt11unique_lockISt5mutexE)(void *, std::unique_lock<std::mutex> *);
void CVW(4waitERSt11unique_lockISt5mutexE)(void *c, std::unique_lock<std::mutex> *l)
{
	if (!sutctx()) { CVR(4waitERSt11unique_lockISt5mutexE)(c, l); return; }
	cwait((pthread_cond_t *) c, l->mutex()->native_handle(), -1);
}
void CVR(10notify_oneEv)(void *);
void CVW(10notify_oneEv)(void *c)
{
	if (!sutctx()) { CVR(10notify_oneEv)(c); return; }
	csignal((pthread_cond_t *) c, false);
}
void CVR(10notify_allEv)(void *);
void CVW(10notify_allEv)(void *c)
{
	if (!sutctx()) { CVR(10notify_allEv)(c); return; }
	csignal((pthread_cond_t *) c, true);
}
}
