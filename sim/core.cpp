// Scheduler, choice stream, clock, faults, worker/replay command line.
#include "sim.hpp"
#include "simint.hpp"
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unordered_map>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
void __asan_unpoison_memory_region(void const volatile *, size_t);
}
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch_asm,.-sim_switch_asm
)");
extern "C" void sim_switch_asm(void **save, void *to);

extern "C" {
extern char __start_sutdata[] __attribute__((weak));
extern char __stop_sutdata[] __attribute__((weak));
extern char __start_sutbss[] __attribute__((weak));
extern char __stop_sutbss[] __attribute__((weak));
}

namespace sim {
void (*real_vtalrm)(int);
void (*sig_hook)();
u64 sig_pending;
void real_gettimeofday(struct timeval *tv) { syscall(SYS_gettimeofday, tv, NULL); }

enum { ST_RUN = 1, ST_BLOCKED, ST_DONE, ST_DEAD };

// ------------------------------------------------------------------ run state
struct Head { u64 run; u64 hash; u32 nch; u32 state; char phase[32]; };
enum { MAXCH = 1 << 20 };
static Head *head;
static u32 *choices;
static bool replaying;
static std::vector<u32> replay;
static u64 rng[4];

static Task drv;
static Proc drvproc;
static Task *C = &drv;
static Task tasks[MAXTASK];
static int ntasks;
static Proc procs[MAXPROC];
static int nprocs;
static std::vector<void (*)(Proc *)> &exit_cbs_() { static std::vector<void (*)(Proc *)> v; return v; }
#define exit_cbs exit_cbs_()
static std::vector<void (*)()> *reset_cbs;

enum { STACKSZ =
#ifdef SIM_ASAN
	1 << 20
#else
	256 << 10
#endif
};

Sched sched;
Faults faults;
bool killing_allowed;
i64 now_ns, wall_off_ns;
static u64 evseq, nstrong, nweak;
static i64 weak_left;
static bool trace_on, trace_draws = getenv("SIM_DRAWS") != NULL;
static bool run_failed, run_discarded, run_nontrivial;
static std::string fail_cls, fail_msg;
static int nkills;
static const char *prop_id = "";
static u64 run_idx;
static i64 sim_time_total;

struct StatEnt { const char *p; u64 n; };
static std::unordered_map<const void *, StatEnt> *stats;

u64 run_index() { return run_idx; }
const char *prop() { return prop_id; }
bool tracing() { return trace_on; }
int kills() { return nkills; }

// ------------------------------------------------------------------ PRNG and choices
static u64 splitmix(u64 &x)
{
	u64 z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd()
{
	u64 r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
	rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3];
	rng[2] ^= t; rng[3] = rotl(rng[3], 45);
	return r;
}
static u64 fnv(u64 h, const void *p, size_t n)
{
	const unsigned char *s = (const unsigned char *) p;
	for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 0x100000001b3ull;
	return h;
}
static void seed_run(u64 base, const char *prop, u64 idx)
{
	u64 x = fnv(0xcbf29ce484222325ull, prop, strlen(prop));
	x ^= base * 0x9e3779b97f4a7c15ull;
	x = splitmix(x) ^ idx;
	for (int i = 0; i < 4; ++i) rng[i] = splitmix(x);
}

u32 draw(u32 n)
{
	if (n <= 1) return 0;
	u32 v;
	if (replaying)
	{
		v = head->nch < replay.size() ? replay[head->nch] : 0;
		if (v >= n) v = n - 1;
	}
	else v = (u32) (((rnd() >> 32) * n) >> 32);
	if (trace_on && trace_draws) { OutSut o_; printf("D %u/%u sut=%d weak=%lld strong=%llu nweak=%llu %s\n", v, n, o_.saved, (long long) weak_left, (unsigned long long) nstrong, (unsigned long long) nweak, C->name.c_str()); }
	if (head->nch < MAXCH) choices[head->nch++] = v;
	else if (!run_failed) discard();
	return v;
}
bool chance(u32 num, u32 den)
{
	if (num == 0) return false;
	if (num >= den) return true;
	return draw(den) >= den - num;
}
u32 range(u32 lo, u32 hi) { return lo + draw(hi - lo + 1); }
u32 loggap(u32 max)
{
	int bits = 0;
	while ((1u << bits) < max) ++bits;
	u32 b = draw(bits + 2);         // 0 = never
	if (b == 0) return 0;
	u32 lo = 1u << (b - 1);
	u32 v = lo + draw(lo);
	return v > max ? max : v;
}

// ------------------------------------------------------------------ events
static void hash_in(const char *tag, i64 a, i64 b, i64 c)
{
	u64 h = head->hash;
	for (const char *s = tag; *s; ++s) h = (h ^ (unsigned char) *s) * 0x100000001b3ull;
	h = (h ^ (u64) C->id) * 0x100000001b3ull;
	h = (h ^ (u64) a) * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
	h = (h ^ (u64) b) * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
	h = (h ^ (u64) c) * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
	head->hash = h;
}
u64 seq() { return ++evseq; }
static void trace_line(const std::string &s)
{
	printf("T %llu t=%lld.%09lld %s: %s\n", (unsigned long long) evseq, (long long) (now_ns / 1000000000),
		(long long) (now_ns % 1000000000), C->name.c_str(), s.c_str());
}
void ev(const char *tag, i64 a, i64 b, i64 c)
{
	++evseq;
	hash_in(tag, a, b, c);
	if (trace_on) { OutSut o; trace_line(fmt("%s %lld %lld %lld", tag, (long long) a, (long long) b, (long long) c)); }
}
void evs(const char *tag, const std::string &s)
{
	++evseq;
	hash_in(tag, (i64) fnv(1, s.data(), s.size()), 0, 0);
	if (trace_on) { OutSut o; trace_line(std::string(tag) + " " + s); }
}
void note(const std::string &s) { if (trace_on) { OutSut o; trace_line(s); } }
void stat(const char *name, u64 n)
{
	OutSut o;
	auto it = stats->find(name);
	if (it == stats->end()) stats->insert(std::make_pair((const void *) name, StatEnt{strdup(name), n}));
	else it->second.n += n;
}
void probe(const char *name) { stat(name); }
void nontrivial() { run_nontrivial = true; }

std::string fmt(const char *f, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

// ------------------------------------------------------------------ fibers
static std::vector<char *> *stackpool;
#ifdef SIM_ASAN
static const void *drv_bottom; static size_t drv_size;
#endif

static char *stack_get()
{
	if (!stackpool->empty()) { char *s = stackpool->back(); stackpool->pop_back();
#ifdef SIM_ASAN
		__asan_unpoison_memory_region(s, STACKSZ);
#endif
		return s; }
	char *s = (char *) mmap(0, STACKSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
	mprotect(s, 4096, PROT_NONE);
	return s + 4096;
}

static char *tls_addr; static size_t tls_size; static const char *tls_init; static size_t tls_initsz;
static int tls_cb(struct dl_phdr_info *i, size_t, void *)
{
	for (int k = 0; k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_TLS)
		{
			tls_addr = (char *) i->dlpi_tls_data;
			tls_size = i->dlpi_phdr[k].p_memsz;
			tls_init = (const char *) i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
			tls_initsz = i->dlpi_phdr[k].p_filesz;
		}
	return 1; // main program only
}

static void switch_to(Task *to, bool dying)
{
	Task *from = C;
	if (to == from) return;
	from->saved_errno = errno;
	void *g = __cxxabiv1::__cxa_get_globals();
	memcpy(from->eh, g, 16);
	memcpy(g, to->eh, 16);
	if (tls_size && tls_addr)
	{
		from->tls.assign(tls_addr, tls_addr + tls_size);
		memcpy(tls_addr, to->tls.data(), tls_size);
	}
	C = to;
#ifdef SIM_ASAN
	__sanitizer_start_switch_fiber(dying ? NULL : &from->fake_stack,
		to == &drv ? drv_bottom : to->stack, to == &drv ? drv_size : (size_t) STACKSZ);
#else
	(void) dying;
#endif
	sim_switch_asm(&from->sp, to->sp);
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(from->fake_stack, NULL, NULL);
#endif
	errno = from->saved_errno;
}

static Task *pick(Task *self);

[[noreturn]] static void leave()
{
	Task *n = (run_failed || run_discarded) ? NULL : pick(NULL);
	switch_to(n ? n : &drv, true);
	__builtin_trap();
}

static void fiber_main()
{
#ifdef SIM_ASAN
	const void *b; size_t s;
	__sanitizer_finish_switch_fiber(NULL, &b, &s);
	if (!drv_bottom) { drv_bottom = b; drv_size = s; }
#endif
	try { C->fn(); }
	catch (const std::exception &e) { C->sut = 0; fail("uncaught", "exception escaped from task %s: %s", C->name.c_str(), e.what()); }
	C->state = ST_DONE;
	C->sut = 0;
	ev("task-end");
	leave();
}

Task *cur() { return C == &drv ? NULL : C; }
Proc *curproc() { return C->proc; }
Task *self() { return C; }
bool on_stack(const void *a)
{
	return C != &drv && (const char *) a >= C->stack && (const char *) a < C->stack + STACKSZ;
}
Proc *proc_new(const char *name)
{
	if (nprocs >= MAXPROC) discard();
	Proc *p = &procs[nprocs];
	p->id = nprocs++;
	p->alive = true; p->intr_ok = true; p->uid = 0; p->parent = 0; p->kill_in = INT64_MAX / 2; p->name = name;
	return p;
}
Proc *proc_get(int id) { return &procs[id]; }
int proc_count() { return nprocs; }
Task *task_get(int id) { return &tasks[id]; }
int task_count() { return ntasks; }
bool task_done(Task *t) { return t->state == ST_DONE || t->state == ST_DEAD; }
bool task_blocked(Task *t) { return t->state == ST_BLOCKED; }

static const std::function<bool()> *wcond[MAXTASK];   // harness-level waits in progress: their conditions
Task *spawn(Proc *p, const std::string &name, const std::function<void()> &fn)
{
	OutSut o;
	if (ntasks >= MAXTASK) discard();
	Task *t = &tasks[ntasks];
	t->id = ++ntasks;
	t->proc = p; t->state = ST_RUN; t->sut = 0; t->wake = 0; t->deadline = -1; t->intr = false; t->what = "";
	t->saved_errno = 0; t->intr_count = 0; t->name = name; t->fn = fn; t->eh[0] = t->eh[1] = 0; t->fake_stack = NULL; t->user = NULL;
	t->stack = stack_get();
	wcond[t->id - 1] = NULL;
	if (tls_size) { t->tls.assign(tls_size, 0); memcpy(t->tls.data(), tls_init, tls_initsz); }
	void **sp = (void **) (t->stack + STACKSZ);
	*--sp = 0;                      // alignment as after a call
	*--sp = (void *) fiber_main;
	for (int i = 0; i < 6; ++i) *--sp = 0;
	t->sp = sp;
	return t;
}

// ------------------------------------------------------------------ scheduling
void sched_default()
{
	static const u32 sw[][2] = { {0, 1}, {1, 16}, {1, 4}, {1, 2}, {1, 1} };
	static const u32 wk[] = { 0, 0, 200, 60, 20, 6, 2 };
	u32 a = draw(5), b = draw(7);
	sched.switch_num = sw[a][0]; sched.switch_den = sw[a][1];
	sched.weak = wk[b];
}

static void weak_redraw()
{
	if (!sched.weak) { weak_left = INT64_MAX / 2; return; }
	u32 g = draw(2 * sched.weak + 1);
	weak_left = g == 0 ? 8 * (i64) sched.weak + 8 : (i64) (2 * sched.weak + 1 - g);
}

static void jump_clock()
{
	i64 best = -1;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].state == ST_BLOCKED && tasks[i].deadline >= 0 && (best < 0 || tasks[i].deadline < best)) best = tasks[i].deadline;
	if (best < 0) return;
	if (best > now_ns) now_ns = best;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].state == ST_BLOCKED && tasks[i].deadline >= 0 && tasks[i].deadline <= now_ns) wake(&tasks[i], WK_TIMEOUT);
}
static bool have_deadline()
{
	for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_BLOCKED && tasks[i].deadline >= 0) return true;
	return false;
}
void advance(i64 ns)
{
	now_ns += ns;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].state == ST_BLOCKED && tasks[i].deadline >= 0 && tasks[i].deadline <= now_ns) wake(&tasks[i], WK_TIMEOUT);
}

static bool unpark()
{
	bool any = false;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].state == ST_BLOCKED && wcond[i] && (*wcond[i])()) { wake(&tasks[i], WK_OTHER); any = true; }
	return any;
}

static Task *pick(Task *me)
{
	OutSut o;
	for (;;)
	{
		if (sched.intr_den && sched.intr_budget > 0)
		{
			Task *v[MAXTASK]; int n = 0;
			for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_BLOCKED && tasks[i].intr && tasks[i].proc->intr_ok) v[n++] = &tasks[i];
			if (n && chance(1, sched.intr_den))
			{
				Task *t = v[draw(n)];
				--sched.intr_budget;
				++t->intr_count;
				stat("fault.interrupt");
				run_nontrivial = true;
				ev("interrupt", t->id);
				wake(t, WK_INTR);
			}
		}
		if (sched.jump_den && have_deadline() && chance(1, sched.jump_den)) jump_clock();
		Task *v[MAXTASK]; int n = 0;
		for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_RUN && &tasks[i] != me) v[n++] = &tasks[i];
		if (n) return v[n == 1 ? 0 : draw(n)];
		if (me) return me;
		if (unpark()) continue;
		if (have_deadline()) { jump_clock(); continue; }
		if (killing_allowed)
		{
			Proc *k = NULL;
			for (int i = 0; i < nprocs && !k; ++i)
				if (procs[i].alive && procs[i].kill_in < INT64_MAX / 4)
					for (int j = 0; j < ntasks; ++j) if (tasks[j].proc == &procs[i] && tasks[j].state == ST_BLOCKED) k = &procs[i];
			if (k) { kill_proc(k, "blocked"); continue; }
		}
		return NULL;
	}
}

void yield()
{
	if (C == &drv) return;
	Task *n = pick(C);
	if (n != C) { run_nontrivial = true; ev("switch", n->id); switch_to(n, false); }
}

static void budget()
{
	if (nstrong > sched.max_strong || nweak > sched.max_weak)
		fail("no-progress", "run exceeds its step budget (%llu system calls, %llu memory accesses)",
			(unsigned long long) nstrong, (unsigned long long) nweak);
}

static void kill_check()
{
	if (killing_allowed && --C->proc->kill_in < 0)
	{
		Proc *p = C->proc;
		OutSut o;
		kill_proc(p, "at point");
	}
}

void point(const char *what)
{
	if (C == &drv) return;
	OutSut o;
	++nstrong;
	if (nstrong > sched.max_strong) budget();
	if (killing_allowed)
	{
		for (int i = 0; i < nprocs; ++i)
		{
			Proc *p = &procs[i];
			if (p == C->proc || !p->alive || p->kill_in >= INT64_MAX / 4) continue;
			bool blocked = false, running = false;
			for (int j = 0; j < ntasks; ++j)
				if (tasks[j].proc == p) { if (tasks[j].state == ST_BLOCKED) blocked = true; if (tasks[j].state == ST_RUN) running = true; }
			if (blocked && !running && --p->kill_in < 0) kill_proc(p, "while blocked");
		}
		kill_check();
	}
	(void) what;
	if (sched.switch_num)
	{
		bool other = false;
		for (int i = 0; i < ntasks && !other; ++i) if (tasks[i].state == ST_RUN && &tasks[i] != C) other = true;
		if (!other && (sched.intr_den || sched.jump_den)) other = true;
		if (other && chance(sched.switch_num, sched.switch_den)) yield();
	}
	if (sig_pending && sig_hook) sig_hook();
}

void mem_point(const void *a)
{
	(void) a;
	if (C == &drv || C->sut <= 0) return;
	++nweak;
	if (nweak > sched.max_weak) { OutSut o; budget(); }
	if (killing_allowed && --C->proc->kill_in < 0) { OutSut o; stat("fault.kill.at-memory-access"); kill_proc(C->proc, "at memory access"); }
	if (--weak_left <= 0)
	{
		OutSut o;
		weak_redraw();
		stat("probe.preempt-at-memory-access");
		yield();
	}
	if (sig_pending && sig_hook) { OutSut o; sig_hook(); }
}

int block(const char *what, i64 deadline, bool intr)
{
	if (C == &drv) fail("harness", "driver would block on %s", what);
	OutSut o;
	C->state = ST_BLOCKED; C->what = what; C->deadline = deadline; C->intr = intr; C->wake = WK_OK; C->blocked_at = evseq;
	ev("block");
	Task *n = pick(NULL);
	if (n != C) switch_to(n ? n : &drv, false);
	ev("wake", C->wake);
	int w = C->wake;
	if (sig_pending && sig_hook) sig_hook();
	return w;
}
void wake(Task *t, int r)
{
	if (t->state != ST_BLOCKED) return;
	t->state = ST_RUN; t->wake = r; t->deadline = -1; t->intr = false;
}

void sleep_ns(i64 ns) { i64 d = now_ns + ns; do block("@sleep", d, false); while (now_ns < d); }

void wait_until(const char *what, const std::function<bool()> &cond)
{
	// polled whenever the caller is scheduled: implemented with yields so that no wake-up can be forgotten
	OutSut o;
	wcond[C->id - 1] = &cond;
	while (!cond())
	{
		bool other = false;
		for (int i = 0; i < ntasks && !other; ++i) if (tasks[i].state == ST_RUN && &tasks[i] != C && (!wcond[i] || (*wcond[i])())) other = true;
		if (!other)
		{
			if (have_deadline()) { jump_clock(); continue; }
			// nobody else can run now: parked until something else wakes up (see pick)
			C->state = ST_BLOCKED; C->what = what; C->deadline = -1; C->intr = false;
			Task *n = pick(NULL);
			if (n != C) switch_to(n ? n : &drv, false);
			continue;
		}
		Task *n = pick(C);
		if (n != C) switch_to(n, false);
	}
	wcond[C->id - 1] = NULL;
}

void on_proc_exit(void (*fn)(Proc *)) { exit_cbs.push_back(fn); }
void arm_kill(Proc *p, i64 points) { p->kill_in = points; }

void kill_proc(Proc *p, const char *why)
{
	OutSut o;
	if (!p->alive) return;
	ev("kill", p->id);
	if (trace_on) trace_line(fmt("process %s killed %s", p->name.c_str(), why));
	stat("fault.kill");
	run_nontrivial = true;
	++nkills;
	p->alive = false;
	p->kill_in = INT64_MAX / 2;
	bool me = false;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].proc == p && tasks[i].state != ST_DONE) { tasks[i].state = ST_DEAD; if (&tasks[i] == C) me = true; }
	for (size_t i = 0; i < exit_cbs.size(); ++i) exit_cbs[i](p);
	// a harness-level waiter parked for good may be able to go on now
	for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_BLOCKED && tasks[i].what[0] == '@') wake(&tasks[i], WK_OTHER);
	if (me) leave();
}

void end_proc(Proc *p)
{
	OutSut o;
	if (!p->alive) return;
	ev("exit", p->id);
	p->alive = false;
	p->kill_in = INT64_MAX / 2;
	bool me = false;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].proc == p && tasks[i].state != ST_DONE) { tasks[i].state = ST_DEAD; if (&tasks[i] == C) me = true; }
	for (size_t i = 0; i < exit_cbs.size(); ++i) exit_cbs[i](p);
	for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_BLOCKED && tasks[i].what[0] == '@') wake(&tasks[i], WK_OTHER);
	if (me) leave();
}

void exit_task()
{
	C->state = ST_DONE;
	C->sut = 0;
	leave();
}

Go go()
{
	if (C != &drv) __builtin_trap();
	weak_redraw();
	Task *n = pick(NULL);
	if (n) switch_to(n, false);
	if (run_failed || run_discarded) throw Abort();
	for (int i = 0; i < ntasks; ++i) if (tasks[i].state == ST_BLOCKED) return STUCK;
	return DONE;
}
std::string stuck_list()
{
	std::string s;
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].state == ST_BLOCKED) s += fmt("%s%s (in %s)", s.empty() ? "" : ", ", tasks[i].name.c_str(), tasks[i].what);
	return s;
}

// ------------------------------------------------------------------ faults
void faults_enable(int budget, u32 gapmax)
{
	faults.on = true; faults.budget = budget; faults.gapmax = gapmax; faults.fired = 0;
	faults.next = loggap(gapmax);
}
void faults_disable() { faults.on = false; }
static bool fault_due()
{
	if (!faults.on || faults.budget <= 0 || faults.next == 0) return false;
	if (--faults.next) return false;
	return true;
}
static void fault_fired(const char *site)
{
	++faults.fired;
	--faults.budget;
	run_nontrivial = true;
	faults.next = faults.budget > 0 ? loggap(faults.gapmax) : 0;
	(void) site;
}
static std::map<std::pair<std::string, int>, const char *> *fault_names;
static const char *fault_name(const char *site, int e)
{
	auto k = std::make_pair(std::string(site), e);
	auto it = fault_names->find(k);
	if (it != fault_names->end()) return it->second;
	const char *en = e ? strerrorname_np(e) : "";
	char *s = strdup((std::string("fault.") + site + (e ? "." : "") + (en ? en : "?")).c_str());
	(*fault_names)[k] = s;
	return s;
}
int inject(const char *site, const int *errs, int nerrs)
{
	OutSut o;
	if (!fault_due()) return 0;
	int e = errs[draw(nerrs)];
	fault_fired(site);
	stat(fault_name(site, e));
	ev("fault", e);
	if (trace_on) trace_line(fmt("fault injected: %s fails with %s", site, strerrorname_np(e)));
	return e;
}
bool inject_flag(const char *site)
{
	OutSut o;
	if (!fault_due()) return false;
	fault_fired(site);
	stat(fault_name(site, 0));
	ev("fault");
	if (trace_on) trace_line(fmt("fault injected: %s", site));
	return true;
}

// ------------------------------------------------------------------ failures
void fail(const char *cls, const char *f, ...)
{
	C->sut = 0;
	char b[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	for (char *p = b; *p; ++p) if (*p == '\n') *p = ' ';
	if (!run_failed) { run_failed = true; fail_cls = cls; fail_msg = b; ev("FAIL"); if (trace_on) trace_line(std::string("FAIL ") + cls + ": " + b); }
	if (C == &drv) throw Abort();
	switch_to(&drv, true);
	__builtin_trap();
}
void discard()
{
	C->sut = 0;
	run_discarded = true;
	if (C == &drv) throw Abort();
	switch_to(&drv, true);
	__builtin_trap();
}

// errno on entry is whatever the program's previous failing call left there
InSut::InSut()
{
	static const int left[] = { 0, EINTR, EAGAIN, ENOENT, EEXIST, EINPROGRESS, ENOMEM, ERANGE };
	if (!C->sut++) { u64 x = ((u64) head->nch << 20) ^ evseq; errno = left[splitmix(x) % 8]; }
}
InSut::~InSut() { --C->sut; }
OutSut::OutSut() : t(C), saved(C->sut) { C->sut = 0; }
OutSut::~OutSut() { t->sut = saved; }

// ------------------------------------------------------------------ registration, reset, main
static std::map<std::string, run_fn> *regs;
Reg::Reg(const char *prop, run_fn fn) { if (!regs) regs = new std::map<std::string, run_fn>; (*regs)[prop] = fn; }
void on_reset(void (*fn)()) { if (!reset_cbs) reset_cbs = new std::vector<void (*)()>; reset_cbs->push_back(fn); }

static std::vector<char> snap_data, snap_bss;
// not memcpy: red zones between the variables are copied as well
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) static void raw_copy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile char *) d)[i] = s[i]; }
static void snapshot()
{
	if (__start_sutdata) { snap_data.resize(__stop_sutdata - __start_sutdata); raw_copy(snap_data.data(), __start_sutdata, snap_data.size()); }
	if (__start_sutbss) { snap_bss.resize(__stop_sutbss - __start_sutbss); raw_copy(snap_bss.data(), __start_sutbss, snap_bss.size()); }
}
static void restore()
{
	if (!snap_data.empty()) raw_copy(__start_sutdata, snap_data.data(), snap_data.size());
	if (!snap_bss.empty()) raw_copy(__start_sutbss, snap_bss.data(), snap_bss.size());
}

void sut_globals_reset() { restore(); }
static void reset()
{
	C = &drv;
	for (int i = 0; i < ntasks; ++i) { stackpool->push_back(tasks[i].stack); tasks[i].fn = nullptr; }
	ntasks = 0;
	nprocs = 0;
	drv.id = 0; drv.proc = &drvproc; drv.sut = 0; drv.name = "driver";
	drvproc.id = -1; drvproc.alive = true; drvproc.name = "driver"; drvproc.kill_in = INT64_MAX / 2; drvproc.uid = 0;
	memset(&sched, 0, sizeof sched);
	sched.max_strong = 20000; sched.max_weak = 3000000;
	weak_left = INT64_MAX / 2;
	memset(&faults, 0, sizeof faults);
	killing_allowed = false;
	nkills = 0;
	sig_pending = 0;
	now_ns = 1000000000; wall_off_ns = 1700000000ll * 1000000000ll;
	evseq = nstrong = nweak = 0;
	run_failed = run_discarded = run_nontrivial = false;
	fail_cls.clear(); fail_msg.clear();
	head->hash = 0xcbf29ce484222325ull;
	head->nch = 0;
	restore();
	if (reset_cbs) for (size_t i = 0; i < reset_cbs->size(); ++i) (*reset_cbs)[i]();
}

static void one(u64 base, u64 idx, run_fn fn)
{
	run_idx = idx;
	head->run = idx;
	head->state = 1;
	seed_run(base, prop_id, idx);
	reset();
	i64 t0 = now_ns;
	struct itimerval it = { {0, 0}, {10, 0} };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
	try { fn(); }
	catch (const Abort &) {}
	catch (const std::exception &e) { C = &drv; drv.sut = 0; if (!run_failed) { run_failed = true; fail_cls = "uncaught"; fail_msg = std::string("exception escaped: ") + e.what(); } }
	drv.sut = 0;
	if (faults.fired) run_nontrivial = true;
	sim_time_total += now_ns - t0;
	head->state = 2;
}

static void on_crash(int sig)
{
	char b[128];
	int n = snprintf(b, sizeof b, "SIM-CRASH signal %d\n", sig);
	syscall(SYS_write, 2, b, n);        // not the simulated ones
	syscall(SYS_exit_group, sig == SIGVTALRM ? 79 : 77); __builtin_trap();
}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
		else r += c;
	}
	return r + "\"";
}

int sim_main(int argc, char **argv)
{
	// the same addresses in every process: what a faulty access reads is then the same, too
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1)
	{
		setenv("SIM_ASLR", "off", 1);
		execv("/proc/self/exe", argv);
	}
	u64 base = 1, start = 0, count = 1;
	double maxs = 1e9;
	const char *out = NULL, *prog = NULL, *hashes = NULL, *chfile = NULL;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		const char *v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--trace") { trace_on = true; continue; }
		++i;
		if (a == "--prop") prop_id = v;
		else if (a == "--base") base = strtoull(v, 0, 10);
		else if (a == "--start") start = strtoull(v, 0, 10);
		else if (a == "--count") count = strtoull(v, 0, 10);
		else if (a == "--maxs") maxs = atof(v);
		else if (a == "--out") out = v;
		else if (a == "--prog") prog = v;
		else if (a == "--hashes") hashes = v;
		else if (a == "--choices") chfile = v;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	if (!regs || !regs->count(prop_id)) { fprintf(stderr, "unknown property '%s'\n", prop_id); return 2; }
	run_fn fn = (*regs)[prop_id];
	stackpool = new std::vector<char *>;
	stats = new std::unordered_map<const void *, StatEnt>;
	fault_names = new std::map<std::pair<std::string, int>, const char *>;
	size_t msz = sizeof(Head) + MAXCH * sizeof(u32);
	int fd = -1;
	if (prog)
	{
		fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, msz)) { perror(prog); return 2; }
	}
	head = (Head *) mmap(0, msz, PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : MAP_PRIVATE | MAP_ANON, fd, 0);
	if (fd >= 0) close(fd);
	choices = (u32 *) (head + 1);
	if (chfile)
	{
		FILE *f = fopen(chfile, "r");
		if (!f) { perror(chfile); return 2; }
		unsigned x;
		while (fscanf(f, "%u", &x) == 1) replay.push_back(x);
		fclose(f);
		replaying = true;
		count = 1;
	}
	dl_iterate_phdr(tls_cb, NULL);
	if (tls_size) drv.tls.assign(tls_size, 0);
	{
		stack_t ss; memset(&ss, 0, sizeof ss);
		ss.ss_size = 64 << 10; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0);
		sigaltstack(&ss, NULL);
		struct sigaction sa; memset(&sa, 0, sizeof sa);
		sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
#ifndef SIM_ASAN
		sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
#endif
		sigaction(SIGABRT, &sa, NULL);
		real_vtalrm = on_crash;
		sigaction(SIGVTALRM, &sa, NULL);
	}
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	snapshot();
	FILE *hf = hashes ? fopen(hashes, "wb") : NULL;
	u64 runs = 0, disc = 0, nontriv = 0;
	struct timeval t0, t1;
	real_gettimeofday(&t0);
	u64 idx = start;
	for (; idx < start + count; ++idx)
	{
		one(base, idx, fn);
		++runs;
		if (run_discarded && !run_failed) ++disc;
		if (run_nontrivial) ++nontriv;
		if (hf)
		{
			u64 rec[2] = { head->hash, (u64) (run_nontrivial ? 1 : 0) | (run_failed ? 2 : 0) | (run_discarded ? 4 : 0) };
			fwrite(rec, sizeof rec, 1, hf);
		}
		if (run_failed) break;
		if ((runs & 15) == 0)
		{
			real_gettimeofday(&t1);
			if ((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) * 1e-6 > maxs) { ++idx; break; }
		}
	}
	if (hf) fclose(hf);
	std::map<std::string, u64> st;
	for (auto &e : *stats) st[e.second.p] += e.second.n;
	std::string js = fmt("{\"runs\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"sim_ns\": %lld, \"next\": %llu, \"failed\": %s",
		(unsigned long long) runs, (unsigned long long) disc, (unsigned long long) nontriv, (long long) sim_time_total,
		(unsigned long long) idx, run_failed ? "true" : "false");
	js += fmt(", \"hash\": \"%016llx\"", (unsigned long long) head->hash);
	if (run_failed)
	{
		js += fmt(", \"index\": %llu, \"class\": ", (unsigned long long) head->run) + jstr(fail_cls) + ", \"message\": " + jstr(fail_msg) + ", \"choices\": [";
		for (u32 i = 0; i < head->nch; ++i) js += fmt("%s%u", i ? "," : "", choices[i]);
		js += "]";
	}
	js += fmt(", \"nch\": %u, \"stats\": {", head->nch);
	bool first = true;
	for (auto &e : st) { js += fmt("%s%s: %llu", first ? "" : ", ", jstr(e.first).c_str(), (unsigned long long) e.second); first = false; }
	js += "}}\n";
	if (out)
	{
		int o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (o < 0 || write(o, js.data(), js.size()) != (ssize_t) js.size()) return 2;
		close(o);
	}
	else fwrite(js.data(), 1, js.size(), stdout);
	fflush(stdout);
	_exit(0);
}

} // namespace sim

int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
