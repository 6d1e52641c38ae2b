// Deterministic simulator: fibers, one choice stream, virtual clock, fault injection.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;

// ---------------------------------------------------------------- choices
u32 draw(u32 n);                       // [0,n), 0 is the simplest outcome
bool chance(u32 num, u32 den);         // false is the simplest outcome
u32 range(u32 lo, u32 hi);             // lo is the simplest outcome
u32 loggap(u32 max);                   // 0 (= never) or roughly log-uniform in [1,max]

// ---------------------------------------------------------------- processes and tasks
enum { MAXPROC = 32, MAXTASK = 64 };
enum Wake { WK_OK = 0, WK_INTR = 1, WK_TIMEOUT = 2, WK_OTHER = 3 };

struct Proc
{
	int id;
	bool alive;
	int uid;
	int parent;
	bool intr_ok;         // blocked calls of this process may be interrupted
	i64 kill_in;          // points of this process until it is killed (huge = never)
	std::string name;
};

struct Task
{
	int id;
	Proc *proc;
	int state;            // see core.cpp
	int sut;              // depth of calls into the code under test
	int wake;             // result of the last block()
	i64 deadline;         // -1: none
	bool intr;            // blocked and interruptible
	const char *what;     // what it is blocked on
	u64 blocked_at;       // event sequence number
	int saved_errno;
	int intr_count;       // times this task's blocked calls were interrupted
	std::string name;
	std::function<void()> fn;
	void *sp;
	char *stack;
	void *eh[2];
	void *fake_stack;
	std::vector<char> tls;
	void *user;
};

Task *cur();                           // NULL on the driver
Proc *curproc();                       // process of the current task; the driver's own process otherwise
Proc *proc_new(const char *name);
Proc *proc_get(int id);
int proc_count();
Task *spawn(Proc *p, const std::string &name, const std::function<void()> &fn);
Task *task_get(int id);
int task_count();
bool task_done(Task *t);
bool task_blocked(Task *t);

enum Go { DONE, STUCK };
Go go();                               // driver only: run all tasks until finished or stuck
std::string stuck_list();              // names of blocked tasks

void kill_proc(Proc *p, const char *why);   // ends the process now; does not return if it is the caller's
void end_proc(Proc *p);                // orderly end; does not return if it is the caller's
void arm_kill(Proc *p, i64 points);
int kills();
void on_proc_exit(void (*fn)(Proc *));
void exit_task();                      // ends the calling task (noreturn in a fiber)

// ---------------------------------------------------------------- scheduling points
void point(const char *what);          // system call: pre-emption / kill point
void mem_point(const void *a);         // memory access of the code under test
void yield();                          // always lets another task run if there is one
int block(const char *what, i64 deadline, bool intr);
void wake(Task *t, int r);
void sleep_ns(i64 ns);                 // harness-level sleep on the virtual clock
void wait_until(const char *what, const std::function<bool()> &cond); // harness-level wait, no timeout

// per-run scheduling parameters (set by sched_default, may be overridden)
struct Sched
{
	u32 switch_num, switch_den;   // chance of a switch at a system call
	u32 weak;                     // 0: no pre-emption at memory accesses; else typical gap
	u32 intr_den;                 // 0: no interruption of blocked tasks; else 1/den at each pick
	int intr_budget;
	u32 jump_den;                 // 0: clock jumps to the next deadline only when idle
	bool hook_all;                // memory points for all heap/static memory, not only shared segments
	u64 max_strong, max_weak;     // step budgets
};
extern Sched sched;
void sched_default();                  // draws a schedule style
extern bool killing_allowed;

// ---------------------------------------------------------------- time
extern i64 now_ns;                     // virtual monotonic clock
extern i64 wall_off_ns;                // wall clock = now_ns + wall_off_ns
void advance(i64 ns);

// ---------------------------------------------------------------- faults
struct Faults
{
	bool on;
	int budget;
	u32 gapmax;           // typical number of injectable calls between faults
	u32 next;             // countdown; 0 = never
	int fired;
};
extern Faults faults;
void faults_enable(int budget, u32 gapmax);  // draws the first gap
void faults_disable();
// returns 0 or one of the errnos
int inject(const char *site, const int *errs, int nerrs);
template <int N> inline int inject(const char *site, const int (&errs)[N]) { return inject(site, errs, N); }
bool inject_flag(const char *site);

// ---------------------------------------------------------------- events, statistics, failures
u64 seq();                             // next event number
void ev(const char *tag, i64 a = 0, i64 b = 0, i64 c = 0);
void evs(const char *tag, const std::string &s);
bool tracing();
void note(const std::string &s);         // trace output only, never part of the log's hash
void stat(const char *name, u64 n = 1);
void probe(const char *name);          // "this rare condition was hit"
void nontrivial();
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard();           // ends the run without a verdict
struct Abort {};
u64 run_index();
const char *prop();                    // property being checked

struct InSut
{
	InSut();
	~InSut();
};
struct OutSut                          // inside a stub: simulator code runs
{
	Task *t; int saved;
	OutSut();
	~OutSut();
};

// ---------------------------------------------------------------- registration
typedef void (*run_fn)();
struct Reg { Reg(const char *prop, run_fn fn); };
void sut_globals_reset();              // static state of the code under test as at program start
void on_reset(void (*fn)());           // called before every run
#define SIM_PROP(id, fn) static ::sim::Reg reg_##id(#id, fn)

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- shared segments
extern const char *shm_base;
extern const u64 shm_span;
extern bool (*shm_valid)(const void *a, size_t n);   // may the current process access this range of shared memory?

} // namespace sim
