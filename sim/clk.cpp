// Clocks and sleeps on virtual time.
#include "clk.hpp"
#include "simint.hpp"
#include <errno.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
ClkCfg clk_cfg;
static void clk_reset() { clk_cfg.step = false; }
struct Init { Init() { on_reset(clk_reset); } } init_clk;
i64 wall_sec() { i64 w = now_ns + wall_off_ns; return w / 1000000000 - (w % 1000000000 < 0); }
static bool in() { return self()->sut > 0; }
static i64 wall() { return now_ns + wall_off_ns; }
static int do_sleep(i64 deadline, struct timespec *rem, bool positive)
{
	OutSut o;
	point("nanosleep");
	ev("sleep", deadline - now_ns);
	if (deadline <= now_ns) return 0;
	int w = block("nanosleep", deadline, true);
	if (w == WK_INTR)
	{
		i64 r = deadline - now_ns;
		if (rem) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; }
		return EINTR;
	}
	return 0;
}
}
using namespace sim;

extern "C" {
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
	if (!in()) return __real_time(t);
	OutSut o;
	time_t r = wall_sec();
	if (t) *t = r;
	return r;
}
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (!in()) return __real_gettimeofday(tv, tz);
	i64 w = wall();
	tv->tv_sec = wall_sec();
	tv->tv_usec = (w - (i64) tv->tv_sec * 1000000000) / 1000;
	return 0;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!in()) return __real_clock_gettime(c, ts);
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = wall_sec(); ts->tv_nsec = wall() - (i64) ts->tv_sec * 1000000000; }
	else { ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000; }
	return 0;
}
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!in()) return __real_nanosleep(a, b);
	if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
	int e = do_sleep(now_ns + a->tv_sec * 1000000000ll + a->tv_nsec, b, true);
	if (e) { errno = e; return -1; }
	return 0;
}
int __real_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!in()) return __real_clock_nanosleep(c, fl, a, b);
	if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) return EINVAL;
	i64 t = a->tv_sec * 1000000000ll + a->tv_nsec;
	i64 d = fl & TIMER_ABSTIME ? (c == CLOCK_REALTIME ? t - wall_off_ns : t) : now_ns + t;
	return do_sleep(d, fl & TIMER_ABSTIME ? NULL : b, true);
}
int __real_usleep(useconds_t u);
int __wrap_usleep(useconds_t u)
{
	if (!in()) return __real_usleep(u);
	int e = do_sleep(now_ns + u * 1000ll, NULL, true);
	if (e) { errno = e; return -1; }
	return 0;
}
unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s)
{
	if (!in()) return __real_sleep(s);
	struct timespec rem = { 0, 0 };
	int e = do_sleep(now_ns + s * 1000000000ll, &rem, true);
	return e ? rem.tv_sec + (rem.tv_nsec ? 1 : 0) : 0;
}
}

// further ways to read the clocks
extern "C" {
int __real_timespec_get(struct timespec *ts, int base);
int __wrap_timespec_get(struct timespec *ts, int base)
{
	if (!in() || base != TIME_UTC) return __real_timespec_get(ts, base);
	__wrap_clock_gettime(CLOCK_REALTIME, ts);
	return base;
}
i64 __real__ZNSt6chrono3_V212system_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
	if (!in()) return __real__ZNSt6chrono3_V212system_clock3nowEv();
	struct timespec ts;
	__wrap_clock_gettime(CLOCK_REALTIME, &ts);
	return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
i64 __real__ZNSt6chrono3_V212steady_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
	if (!in()) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	struct timespec ts;
	__wrap_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
}
