// Signals: dispositions, masks, delivery at simulation points, interruption of blocked calls.
#include "krn.hpp"
#include "simint.hpp"
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>

namespace sim {
struct TSig { u64 mask; bool norestart; int ran; int depth; };
static std::map<int, TSig> *ts;
static TSig &t_of(Task *t) { return (*ts)[t->id]; }
static void hook();
static void sig_reset()
{
	if (!ts) ts = new std::map<int, TSig>;
	ts->clear();
	sig_hook = hook;
}
struct Init { Init() { on_reset(sig_reset); } } init_sig;
static u64 bit(int s) { return 1ull << s; }
const char *signame(int s) { const char *p = sigabbrev_np(s); return p ? p : "?"; }
u64 task_sigmask(Task *t) { return t_of(t).mask; }

static bool default_ignored(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }
static bool default_stops(int s) { return s == SIGSTOP || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU; }
static bool ignored(KProc *k, int s)
{
	if (k->act[s].h == SIG_IGN) return true;
	return k->act[s].h == SIG_DFL && default_ignored(s);
}
// runs handlers in the context of the current task
static void hook()
{
	Task *t = self();
	if (t->id == 0) return;
	for (;;)
	{
		KProc *k = kp();
		TSig &x = t_of(t);
		u64 can = k->pending & ~x.mask;
		if (!can) return;
		int v[64], n = 0;
		for (int s = 1; s < 64; ++s) if (can & bit(s)) v[n++] = s;
		int s = v[n > 1 ? draw(n) : 0];
		k->pending &= ~bit(s);
		KProc::Act a = k->act[s];
		if (ignored(k, s)) continue;
		ev("deliver", s);
		if (a.h == SIG_DFL) fail("signal-default", "process %s is %s by signal %d (%s)", k->p->name.c_str(), default_stops(s) ? "stopped" : "killed", s, signame(s));
		sim::stat("fault.signal-delivered");
		nontrivial();
		if (a.flags & SA_RESETHAND) k->act[s].h = SIG_DFL;
		u64 old = x.mask;
		x.mask |= a.mask | (a.flags & SA_NODEFER ? 0 : bit(s));
		if (!(a.flags & SA_RESTART)) x.norestart = true;
		x.ran++;
		k->delivered++;
		t->sut = 1;
		if (a.flags & SA_SIGINFO)
		{
			siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s;
			((void (*)(int, siginfo_t *, void *)) a.h)(s, &si, NULL);
		}
		else a.h(s);
		t->sut = 0;
		t_of(t).mask = old;
		int e = errno;
		ev("handled", s);
		errno = e;
	}
}
void k_signal(Proc *p, int s)
{
	OutSut o;
	KProc *k = kp(p);
	if (!p->alive) return;
	ev("send-signal", p->id, s);
	note(fmt("signal %d (%s) for %s", s, signame(s), p->name.c_str()));
	if (k->pending & bit(s)) sim::stat("probe.signal-coalesced");
	if (ignored(k, s)) { bool blocked = false; for (int i = 0; i < task_count(); ++i) { Task *t = task_get(i); if (t->proc == p && !task_done(t) && t_of(t).mask & bit(s)) blocked = true; } if (!blocked) return; }
	k->pending |= bit(s);
	sig_pending = 1;
	Task *v[MAXTASK]; int n = 0;
	bool running = false;
	for (int i = 0; i < task_count(); ++i)
	{
		Task *t = task_get(i);
		if (t->proc != p || task_done(t) || t_of(t).mask & bit(s)) continue;
		if (!task_blocked(t)) running = true;
		else if (t->intr) v[n++] = t;
	}
	if (n && (!running || chance(1, 2)))
	{
		Task *t = v[draw(n)];
		sim::stat("fault.signal-interrupts-call");
		++t->intr_count;
		wake(t, WK_INTR);
	}
}
int kblock(const char *what, i64 deadline)
{
	Task *t = self();
	t_of(t).norestart = false;
	t_of(t).ran = 0;
	int w = block(what, deadline, true);
	if (w == WK_TIMEOUT) return WK_TIMEOUT;
	if (w == WK_INTR)
	{
		TSig &x = t_of(t);
		if (!x.ran) return WK_INTR;                // an interruption without a handler of ours
		if (x.norestart) { sim::stat("probe.call-interrupted"); return WK_INTR; }
		sim::stat("probe.call-restarted");
	}
	return WK_OK;
}
bool sig_restart() { TSig &x = t_of(self()); return x.ran && !x.norestart; }
static u64 from_set(const sigset_t *s) { u64 m = 0; for (int i = 1; i < 64; ++i) if (sigismember(s, i) == 1) m |= bit(i); return m; }
static void to_set(u64 m, sigset_t *s) { sigemptyset(s); for (int i = 1; i < 64; ++i) if (m & bit(i)) sigaddset(s, i); }
static int set_mask(int how, const sigset_t *n, sigset_t *old)
{
	Task *t = self();
	u64 m = t_of(t).mask;
	if (old) to_set(m, old);
	if (n)
	{
		u64 v = from_set(n) & ~(bit(SIGKILL) | bit(SIGSTOP));
		if (how == SIG_BLOCK) m |= v;
		else if (how == SIG_UNBLOCK) m &= ~v;
		else if (how == SIG_SETMASK) m = v;
		else return EINVAL;
		t_of(t).mask = m;
		ev("sigmask", m);
		if (sig_pending) hook();
	}
	return 0;
}
static int sigfault(const char *site) { static const int errs[] = { EINVAL, EPERM }; return krn.sig_faults && fault_here() ? inject(site, errs) : 0; }
static bool valid(int s) { return s > 0 && s < 64 && s != SIGKILL && s != SIGSTOP; }
} // namespace sim
using namespace sim;

extern "C" {
typedef void (*hnd)(int);
static hnd set_handler(int s, hnd h, int flags)
{
	OutSut o;
	if (!valid(s)) { errno = EINVAL; return SIG_ERR; }
	if (int e = sigfault("signal")) { errno = e; return SIG_ERR; }
	KProc *k = kp();
	hnd old = k->act[s].h;
	k->act[s].h = h; k->act[s].flags = flags; k->act[s].mask = 0;
	ev("signal", s, flags);
	point("signal");
	return old;
}
hnd __real_signal(int, hnd);
hnd __wrap_signal(int s, hnd h) { if (!sys_in()) return __real_signal(s, h); return set_handler(s, h, SA_RESTART); }
hnd __wrap_bsd_signal(int s, hnd h) { return __wrap_signal(s, h); }
hnd __wrap_sysv_signal(int s, hnd h) { return set_handler(s, h, SA_RESETHAND | SA_NODEFER); }
hnd __wrap___sysv_signal(int s, hnd h) { return set_handler(s, h, SA_RESETHAND | SA_NODEFER); }
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *old)
{
	if (!sys_in()) return __real_sigaction(s, n, old);
	OutSut o;
	if (s < 1 || s >= 64 || (n && !valid(s))) { errno = EINVAL; return -1; }
	if (int e = sigfault("sigaction")) { errno = e; return -1; }
	KProc *k = kp();
	if (old)
	{
		memset(old, 0, sizeof *old);
		old->sa_handler = k->act[s].h; old->sa_flags = k->act[s].flags;
		to_set(k->act[s].mask, &old->sa_mask);
	}
	if (n) { k->act[s].h = n->sa_handler; k->act[s].flags = n->sa_flags; k->act[s].mask = from_set(&n->sa_mask); ev("sigaction", s, n->sa_flags); }
	point("sigaction");
	return 0;
}
int __real_siginterrupt(int, int);
int __wrap_siginterrupt(int s, int f)
{
	if (!sys_in()) return __real_siginterrupt(s, f);
	OutSut o;
	if (!valid(s)) { errno = EINVAL; return -1; }
	if (f) kp()->act[s].flags &= ~SA_RESTART; else kp()->act[s].flags |= SA_RESTART;
	return 0;
}
int __real_sigprocmask(int, const sigset_t *, sigset_t *);
int __wrap_sigprocmask(int how, const sigset_t *n, sigset_t *old)
{
	if (!sys_in()) return __real_sigprocmask(how, n, old);
	OutSut o;
	point("sigprocmask");
	int e = set_mask(how, n, old);
	if (e) { errno = e; return -1; }
	return 0;
}
int __real_pthread_sigmask(int, const sigset_t *, sigset_t *);
int __wrap_pthread_sigmask(int how, const sigset_t *n, sigset_t *old)
{
	if (!sys_in()) return __real_pthread_sigmask(how, n, old);
	OutSut o;
	point("sigprocmask");
	return set_mask(how, n, old);
}
int __real_sigpending(sigset_t *);
int __wrap_sigpending(sigset_t *s) { if (!sys_in()) return __real_sigpending(s); OutSut o; to_set(kp()->pending & t_of(self()).mask, s); return 0; }
int __real_raise(int);
int __wrap_raise(int s) { if (!sys_in()) return __real_raise(s); OutSut o; k_signal(curproc(), s); hook(); return 0; }
int __real_kill(pid_t, int);
int __wrap_kill(pid_t p, int s)
{
	if (!sys_in()) return __real_kill(p, s);
	OutSut o;
	Proc *q = p > 0 ? proc_by_pid(p) : NULL;
	if (!q || !q->alive) { errno = p > 0 ? ESRCH : EPERM; return -1; }
	if (s) k_signal(q, s);
	hook();
	return 0;
}
int __real_pause();
int __wrap_pause()
{
	if (!sys_in()) return __real_pause();
	OutSut o;
	point("pause");
	for (;;) { t_of(self()).ran = 0; int w = block("pause", -1, true); if (w == WK_INTR) break; }
	errno = EINTR;
	return -1;
}
}
