// Pid files, detaching and signals in the simulated kernel: P01..P05
#include "../sim/krn.hpp"
#include "../sim/alloc.hpp"
#include <unistd.h>
#include <coda/daemon.h>
#include <coda/system.h>
#include <coda/logger.h>
#include <coda/socket.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <string.h>
#include <sys/file.h>

using namespace sim;

// the pid file of this run and its directory
static const char *PID = "/run/d.pid";
static std::string *pid_ = new std::string, *dir_ = new std::string;
static const std::string &pick_pidfile()
{
	*pid_ = "/run/d.pid"; *dir_ = "/run";
	if (chance(1, 12))
	{
		// another name: relative, without a suffix, or deep with names up to what the system accepts
		sim::stat("probe.other-pid-path");
		switch (draw(4))
		{
		case 0: *dir_ = "run/some.dir"; *pid_ = "run/some.dir/n"; break;
		case 1: *dir_ = "/run"; *pid_ = "/run/" + std::string(1 + draw(255), 'p'); break;
		case 2: *dir_ = "/srv/my files/run 100%d"; *pid_ = *dir_ + "/%s%n my.pid"; break;
		default:
			*dir_ = "/run";
			for (int n = range(1, 14); n; --n) *dir_ += "/" + std::string(chance(1, 2) ? 255 : 1 + draw(255), 'd');
			*pid_ = *dir_ + "/d.pid";
		}
	}
	PID = pid_->c_str();
	return *dir_;
}

// ------------------------------------------------------------------ P01
struct Start { int proc, pid; u64 call, ret, stop_call, stop_ret; bool ok, overlapped, stop_ok, killed; };
static struct P01R
{
	std::vector<Start> st;
	int active;                 // starts and stops in progress
	int gen;                    // number of starts and stops begun
	bool owned;                 // some process has started successfully and not yet begun to stop
	int owner;
	bool stale;                 // the file may have been left by a dead process
	int inprog[MAXPROC];        // 1: in start, 2: owner, 3: in stop
} Q;

static void p01_exit(Proc *p)
{
	if (p->id < 0) return;
	if (Q.inprog[p->id]) { Q.stale = true; ++Q.gen; if (Q.inprog[p->id] != 2) --Q.active; }
	if (Q.inprog[p->id] == 2 && Q.owner == p->id) Q.owned = false;
	Q.inprog[p->id] = 0;
}
static std::string content() { std::string *d = k_data(PID); return d ? *d : std::string("<none>"); }

static void p01_proc(int rounds, bool viaload)
{
	KProc *k = kp();
	int me = curproc()->id;
	for (int i = 0; i < rounds; ++i)
	{
		bool alone = Q.active == 0;
		int gen = ++Q.gen;
		bool owned = Q.owned; int owner = Q.owner;
		std::string before = content();
		bool exists = before != "<none>" && !before.empty();
		++Q.active;
		Q.inprog[me] = 1;
		ev("start", k->pid);
		int r;
		if (viaload)
		{
			coda_getopt_t o;
			memset(&o, 0, sizeof o);
			o.pid = PID;
			InSut s;
			r = coda_daemon_load(&o);
		}
		else { InSut s; r = coda_mkpidf(PID); }
		ev("started", k->pid, r);
		--Q.active;
		bool disturbed = !alone || Q.gen != gen;
		if (k->fds.size() != 3) fail("fd-leak", "descriptors left open by a start: %s", k_fds(k).c_str());
		if (r == 0)
		{
			if (Q.owned) fail("two-owners", "process %d started although process %d has started and not stopped", k->pid, kp(proc_get(Q.owner))->pid);
			Q.owned = true; Q.owner = me;
			Q.inprog[me] = 2;
			if (content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "process %d started, but the pid file contains \"%s\"", k->pid, content().c_str());
			sim::stat("probe.start-succeeded");
			if (chance(1, 2)) yield();
			if (chance(1, 4)) sleep_ns(draw(1000));
			if (content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "process %d is running, but the pid file now contains \"%s\"", k->pid, content().c_str());
			if (chance(1, 8)) { k_proc_end(curproc(), 0); end_proc(curproc()); }   // leaves without stopping
			Q.owned = false;
			++Q.gen; ++Q.active;
			Q.inprog[me] = 3;
			coda_getopt_t o;
			memset(&o, 0, sizeof o);
			o.pid = PID;
			int q;
			int before_stop = Q.gen;
			bool lone = Q.active == 1;
			ev("stop", k->pid);
			{ InSut s; q = coda_daemon_stop(&o); }
			ev("stopped", k->pid, q);
			--Q.active;
			lone &= Q.gen == before_stop;
			Q.inprog[me] = 0;
			if (q != 0) fail("stop-failed", "stopping process %d failed without any fault", k->pid);
			if (k_lookup(PID)) { if (!Q.owned && Q.active == 0 && (lone || content() != "")) fail("not-removed", "the pid file still exists after an orderly stop"); }
		}
		else
		{
			Q.inprog[me] = 0;
			sim::stat("probe.start-refused");
			if (!disturbed && !exists) fail("refused", "an undisturbed start was refused although nobody owns the pid file");
			if (owned && Q.owned && Q.owner == owner && content() != fmt("%d\n", kp(proc_get(owner))->pid)) fail("wrong-pidfile", "a refused start changed the owner's pid file to \"%s\"", content().c_str());
			if (chance(1, 2)) yield();
		}
	}
}
// process ids of one to ten digits
static void pick_pids()
{
	static const int B[] = { 1, 90, 990, 9990, 32760, 65530, 99990, 999990, 4194240, 16777210, 2147483000 };
	if (chance(1, 4)) krn.pid_base = B[draw(11)];
}
static void p01()
{
	sched_default();
	pick_pids();
	Q = P01R();
	int np = range(2, 4);
	for (int i = 0; i < np; ++i) proc_new(fmt("p%d", i).c_str());
	k_mkdirs(pick_pidfile());
	if (chance(1, 6)) k_mkfile(PID, "");
	int kills = chance(1, 3) ? (int) range(1, np - 1) : 0;
	if (kills) killing_allowed = true;
	for (int i = 0; i < np; ++i)
	{
		int rounds = range(1, 4);
		bool v = chance(1, 4);
		if (i < kills) arm_kill(proc_get(i), range(1, 40));
		spawn(proc_get(i), fmt("p%d", i), [=]() { p01_proc(rounds, v); });
	}
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	// afterwards, with everybody gone: the next start succeeds unless a dead process left its file
	killing_allowed = false;
	Proc *l = proc_new("last");
	spawn(l, "last", []() {
		std::string c = content();
		int r;
		{ InSut s; r = coda_mkpidf(PID); }
		bool mustok = c == "<none>" || c.empty();
		if (mustok && r) fail("refused", "a start after everybody else has gone was refused although the pid file is %s", c.c_str());
		if (!Q.stale && r) fail("refused", "a start after everybody else has stopped was refused: \"%s\"", c.c_str());
		if (!mustok && !r) fail("two-owners", "a start succeeded over an existing pid file \"%s\"", c.c_str());
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
}

// ------------------------------------------------------------------ P02
static void p02()
{
	sched_default();
	pick_pids();
	proc_new("p0");
	bool dir = !chance(1, 10);
	pick_pidfile();
	if (dir) k_mkdirs(*dir_);
	int pre = dir ? draw(4) : 0;     // 1: empty file, 2: owned by somebody, 3: locked by somebody
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		Proc *other = NULL;
		int ofd = -1;
		if (pre == 1) k_mkfile(PID, "");
		if (pre == 2) k_mkfile(PID, "77\n");
		if (pre == 3)
		{
			other = proc_new("other");
			ofd = k_open(kp(other), PID, O_CREAT | O_RDWR);
			Ofd *o = k_ofd(kp(other), ofd);
			o->lock = LOCK_EX; o->ino->lockers.push_back(o);
		}
		int cfg = chance(1, 6) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		std::map<int, Ofd *> before = k_table(k);
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		int n = range(1, 4);
		bool viaload = chance(1, 4);
		alloc_cfg.faults = true;
		krn.shorts = true;
		for (int i = 0; i < n; ++i)
		{
			std::string was = content();
			faults_enable(1, range(2, 10));
			bool full = chance(1, 8);
			if (full) { krn.enospc = true; faults_disable(); sim::stat("fault.disk-full"); }
			int r;
			if (viaload) { coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = PID; InSut s; r = coda_daemon_load(&o); }
			else { InSut s; r = coda_mkpidf(PID); }
			int fired = faults.fired || full;
			faults_disable();
			krn.enospc = false;
			ev("mkpidf", r);
			note(fmt("mkpidf = %d, pid file \"%s\"", r, content().c_str()));
			if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
			Inode *f = k_lookup(PID);
			if (f && f->lockers.size() != (size_t) (pre == 3)) fail("lock-leak", "the pid file stays locked");
			if (r == 0)
			{
				if (pre == 2 || pre == 3 || !dir) fail("two-owners", "a start succeeded over somebody else's pid file");
				if (content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "success was reported, but the pid file contains \"%s\"", content().c_str());
				if (fired) sim::stat("probe.success-despite-fault");
				if (chance(1, 2))
				{
					// an orderly stop, possibly one that cannot remove the file
					coda_getopt_t o;
					memset(&o, 0, sizeof o);
					o.pid = PID;
					if (chance(1, 2)) faults_enable(1, range(1, 4));
					int q;
					{ InSut s; q = coda_daemon_stop(&o); }
					int fq = faults.fired;
					faults_disable();
					ev("stop", q);
					if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
					if (q == 0 && k_lookup(PID)) fail("not-removed", "the stop reported success, but the pid file still exists");
					if (q != 0 && !fq) fail("stop-failed", "the stop failed although no system call failed");
					if (q != 0) { if (k_lookup(PID) && content() != fmt("%d\n", k->pid) && content() != "") fail("wrong-pidfile", "a failed stop left \"%s\"", content().c_str()); sim::stat("probe.stop-failed"); }
					else sim::stat("probe.stopped");
				}
				else if (chance(1, 4))
				{
					// a program without a pid file stops: nothing to remove
					coda_getopt_t o;
					memset(&o, 0, sizeof o);
					int q;
					{ InSut s; q = coda_daemon_stop(&o); }
					if (q != 0) fail("stop-failed", "stopping without a pid file failed");
					if (content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "stopping without a pid file changed the pid file of another name to \"%s\"", content().c_str());
				}
				k_unlink(PID);
			}
			else
			{
				sim::stat("probe.mkpidf-failed");
				if (pre >= 2) { if (content() != was) fail("wrong-pidfile", "a refused start changed the file to \"%s\"", content().c_str()); }
				else if (!fired && dir) fail("refused", "the start failed although no system call failed: \"%s\"", was.c_str());
			}
		}
		if (pre == 2) k_unlink(PID);
		if (pre == 3) k_close(kp(other), ofd);
		if (!dir) k_mkdirs(*dir_);
		std::string c = content();
		int r;
		{ InSut s; r = coda_mkpidf(PID); }
		if (r != 0) fail("residue", "an undisturbed attempt fails after earlier failed attempts; the pid file was \"%s\"", c.c_str());
		if (content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "success was reported, but the pid file contains \"%s\"", content().c_str());
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
}

static const int START_SIGS[] = { SIGHUP, SIGINT, SIGTERM, SIGUSR1, SIGUSR2 };
static int flags_now();
static int flag_of(int s);
static std::string fl(int f);
// ------------------------------------------------------------------ P03
static void p03()
{
	sched_default();
	proc_new("p0");
	k_mkdirs(pick_pidfile());
	static bool returned; static int result, rproc, how;
	returned = false;
	static std::map<int, Ofd *> before;
	static Inode *err;
	static std::string *was_ = new std::string;
	static int sid0;
	krn.fork_role = -1;
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		if (chance(1, 2)) k_open(k, "/tmp/err", O_CREAT | O_WRONLY | O_APPEND, 2);
		int cfg = chance(1, 3) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		if (chance(1, 4)) { k_open(k, "/tmp/extra", O_CREAT | O_RDWR, range(3, 6)); if (chance(1, 3)) k_open(k, "/tmp/extra2", O_CREAT | O_RDWR, range(7, 12)); }
		bool nodev = chance(1, 12);
		if (nodev) k_unlink("/dev/null");
		err = k_ofd(k, 2) ? k_ofd(k, 2)->ino : NULL;
		before = k->fds;
		sid0 = k->sid;
		how = draw(4);
		bool pidf = chance(1, 2);
		// somebody's pid file
		bool taken = pidf && how && chance(1, 5);
		std::string &was = *was_;
		was.clear();
		if (taken) { was = chance(1, 2) ? "4711\n" : "x"; Ofd *f = k_ofd(k, k_open(k, PID, O_CREAT | O_RDWR, 40)); f->ino->data = was; k_close(k, 40); before = k->fds; }
		ev("config", cfg, how * 4 + taken * 2 + pidf, before.size());
		note(fmt("%s, pid file %s, descriptors %s", how == 0 ? "coda_daemon_fork" : how == 3 ? "start without detaching" : "detaching start", taken ? "taken" : pidf ? "given" : "not given", k_fds(k).c_str()));
		if (chance(1, 2)) faults_enable(1, range(2, 12));
		int r;
		coda_getopt_t o;
		memset(&o, 0, sizeof o);
		krn.sig_faults = true;
		if (how == 0) { InSut s; r = coda_daemon_fork(); pidf = false; }
		else
		{
			o.daemon = how != 3;
			if (pidf) o.pid = PID;
			InSut s;
			r = coda_daemon_load(&o);
		}
		faults_disable();
		if (r == 0 && how)
		{
			// the started program minds its signals
			int s = START_SIGS[draw(5)];
			{ InSut x; raise(s); }
			int f = flags_now();
			if (f != flag_of(s)) fail("no-handler", "after a successful start %s sets flags { %s} instead of { %s}", signame(s), fl(f).c_str(), fl(flag_of(s)).c_str());
			coda_changecfg = coda_terminate = coda_rotatelog = coda_changebin = 0;
			if (!pidf && k_lookup(PID)) fail("wrong-pidfile", "a start without a pid file created one");
		}
		returned = true; result = r; rproc = curproc()->id;
		k = kp();
		ev("detached", r, k->p->id);
		note(fmt("returned %d in %s, descriptors %s", r, k->p->name.c_str(), k_fds(k).c_str()));
		if (taken && content() != was) fail("wrong-pidfile", "a refused start changed the pid file of another daemon to \"%s\"", content().c_str());
		if (taken && r == 0) fail("not-refused", "the start succeeded although the pid file belongs to another daemon");
		if (how == 3)
		{
			// a start that is not asked to detach
			sim::stat("probe.attached-start");
			if (k->p->id != 0 || k->forked) fail("detached", "a start without detaching went on in another process");
			if (k_table(k) != before || k->sid != sid0) fail("detached", "a start without detaching changed descriptors or session: %s", k_fds(k).c_str());
			if (r && !faults.fired && !taken) fail("refused", "the start failed although no system call failed");
			if (r == 0 && pidf && content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "the pid file contains \"%s\" but the process is %d", content().c_str(), k->pid);
		}
		else if (r == 0)
		{
			sim::stat("probe.detached");
			if (k->umask) fail("mask", "the file mode mask is %03o", k->umask);
			if (k->p->id == 0) fail("not-detached", "detaching succeeded in the original process");
			if (k->ppid != kp(proc_get(0))->pid) fail("not-detached", "the process is not a child of the original one");
			if (!k->leader || k->sid != k->pid) fail("no-session", "the background process does not lead its own session");
			Inode *null = k_lookup("/dev/null");
			for (int i = 0; i < 2; ++i)
			{
				Ofd *f = k_ofd(k, i);
				if (!f || f->ino != null || !null) fail("not-null", "descriptor %d is not on the null device: %s", i, k_fds(k).c_str());
				int want = f->flags & O_ACCMODE;
				if (i == 0 ? want == O_WRONLY : want == O_RDONLY) fail("not-null", "descriptor %d has the wrong access mode", i);
			}
			Ofd *e = k_ofd(k, 2);
			bool had2 = before.count(2);
			if (had2 ? !e || e != before[2] : e && e->ino != null) fail("stderr-changed", "standard error was changed: %s", k_fds(k).c_str());
			for (std::map<int, Ofd *>::iterator i = k->fds.begin(); i != k->fds.end(); ++i)
				if (i->first > 2 && (!before.count(i->first) || before[i->first] != i->second)) fail("fd-leak", "descriptor %d is additionally open: %s", i->first, k_fds(k).c_str());
			for (std::map<int, Ofd *>::iterator i = before.begin(); i != before.end(); ++i)
				if (i->first > 2 && !k->fds.count(i->first)) fail("fd-closed", "descriptor %d was closed", i->first);
			if (pidf && content() != fmt("%d\n", k->pid)) fail("wrong-pidfile", "the pid file contains \"%s\" but the background process is %d", content().c_str(), k->pid);
		}
		else
		{
			sim::stat("probe.detach-failed");
			if (!faults.fired && !nodev && !taken) fail("refused", "detaching failed although no system call failed");
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	KProc *o = kp(proc_get(0));
	if (!returned)
	{
		// the parent's side was followed: it must have ended at once and successfully
		if (!o->exited) fail("no-exit", "the original process neither returned nor exited");
		if (o->status != 0) fail("no-exit", "the original process exited with status %d", o->status);
		if (o->forked != 1) fail("no-child", "the original process exited after %d successful forks", o->forked);
		if (o->sid != sid0) fail("no-session", "the original process changed its session");
		if (k_lookup(PID) && content() != *was_) fail("wrong-pidfile", "the original process wrote the pid file");
		sim::stat("probe.parent-exited");
	}
	else if (how != 3 && rproc == 0 && result == 0) fail("not-detached", "success in the original process");
	nontrivial();
}

// ------------------------------------------------------------------ signals: the model
enum { F_CFG = 1, F_TERM = 2, F_LOG = 4, F_BIN = 8 };
static const int SIGS[] = { SIGHUP, SIGINT, SIGTERM, SIGUSR1, SIGUSR2, SIGALRM, SIGQUIT, SIGPIPE, SIGCHLD, SIGCONT, SIGTSTP, SIGTTIN, SIGTTOU, SIGPROF, SIGSYS, SIGTRAP, SIGURG, SIGVTALRM, SIGXCPU, SIGXFSZ, SIGWINCH };
enum { NSIG_ = sizeof SIGS / sizeof *SIGS };
static int flag_of(int s)
{
	switch (s)
	{
	case SIGHUP: return F_CFG;
	case SIGINT: case SIGTERM: return F_TERM;
	case SIGUSR1: return F_LOG;
	case SIGUSR2: return F_BIN;
	}
	return 0;
}
static int pick_sig() { return chance(1, 2) ? SIGS[draw(5)] : SIGS[draw(NSIG_)]; }
static int flags_now()
{
	InSut s;
	int f = 0;
	{ OutSut o; f = (coda_changecfg ? F_CFG : 0) | (coda_terminate ? F_TERM : 0) | (coda_rotatelog ? F_LOG : 0) | (coda_changebin ? F_BIN : 0); }
	return f;
}
static std::string fl(int f) { return fmt("%s%s%s%s", f & F_CFG ? "reload " : "", f & F_TERM ? "terminate " : "", f & F_LOG ? "rotate-log " : "", f & F_BIN ? "change-binary " : ""); }
// what the program, or the one that started it, had set up before: signals ignored, or handled once, by its own handlers
static void foreign(int s) { OutSut o; fail("foreign-handler", "signal %d (%s) still runs the handler from before the set-up", s, signame(s)); }
static void earlier()
{
	if (!chance(1, 4)) return;
	KProc *k = kp();
	static const int fl[] = { SA_RESETHAND, SA_RESTART, SA_NODEFER, SA_SIGINFO, SA_RESTART | SA_RESETHAND, 0 };
	for (int i = range(1, NSIG_); i; --i)
	{
		int s = pick_sig();
		if (chance(1, 3)) { k->act[s].h = SIG_IGN; k->act[s].flags = 0; k->act[s].mask = 0; }
		else { k->act[s].h = foreign; k->act[s].flags = fl[draw(6)]; k->act[s].mask = chance(1, 4) ? 1ull << pick_sig() : 0; }
		ev("earlier", s, k->act[s].flags);
	}
	sim::stat("probe.earlier-handlers");
}
static int setup(int how)
{
	if (how == 2)
	{
		// as part of a start
		coda_getopt_t o;
		memset(&o, 0, sizeof o);
		InSut s;
		return coda_daemon_load(&o);
	}
	InSut s;
	return how ? coda_signal_init_norestart() : coda_signal_init();
}

// ------------------------------------------------------------------ P04
static struct P04R { int must, sent; bool done, ready; int nsent; } S4;
static volatile int sink[8];
static void work(int n)                   // program code that minds its error number
{
	{
		InSut s;
		errno = 1234;
		for (int i = 0; i < n; ++i) sink[i & 7] = i;
	}
	if (errno != 1234) { int e = errno; fail("errno-changed", "a signal handler changed errno from 1234 to %d (%s)", e, strerror(e)); }
}
static void check4(const char *when)
{
	int f = flags_now();
	if (f & ~S4.sent) fail("wrong-flag", "%s: flags { %s} are set, but only signals for { %s} were sent", when, fl(f).c_str(), fl(S4.sent).c_str());
}
static void settle4(const char *when)
{
	KProc *k = kp();
	if (k->pending & ~task_sigmask(cur())) { InSut s; sink[0] = 1; OutSut o; point("settle"); }
	int f = flags_now();
	if (S4.must & ~f && !(k->pending)) fail("flag-lost", "%s: signals for { %s} were handled, but only flags { %s} are set", when, fl(S4.must).c_str(), fl(f).c_str());
}
static void p04()
{
	sched_default();
	sched.hook_all = true;
	proc_new("prog");
	proc_new("sender");
	S4 = P04R();
	bool faulty = chance(1, 3);
	int level = chance(1, 4) ? (int) draw(9) : (int) LOG_info;
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		if (chance(1, 6)) k_close(k, 2);
		{ int l = level; InSut s; log_level = l; }
		earlier();
		int how = draw(3);
		if (setup(how)) fail("setup-failed", "signal set-up failed");
		S4.ready = true;
		int n = range(1, 8);
		if (faulty) { krn.shorts = true; faults_enable(range(1, 6), range(1, 8)); }
		for (int i = 0; i < n; ++i)
		{
			switch (draw(6))
			{
			case 0: work(range(1, 20)); break;
			case 1: { int v = i; InSut s; log_info("message %d", v); } break;
			case 2: { InSut s; coda_mkpidf("/tmp/pid"); } k_unlink("/tmp/pid"); break;
			case 3: point("step"); break;
			case 4:
			{
				// the program takes the flags and clears them
				settle4("before clearing");
				int f = flags_now();
				check4("at any time");
				S4.must &= ~f; S4.sent &= ~f;
				u64 p = kp()->pending;
				for (int j = 0; j < NSIG_; ++j) if (p >> SIGS[j] & 1) S4.sent |= flag_of(SIGS[j]);
				if (f & F_CFG) coda_changecfg = 0;
				if (f & F_TERM) coda_terminate = 0;
				if (f & F_LOG) coda_rotatelog = 0;
				if (f & F_BIN) coda_changebin = 0;
				break;
			}
			case 5:
			{
				int s = pick_sig();
				ev("raise", s);
				S4.sent |= flag_of(s);
				{ InSut x; raise(s); }
				S4.must |= flag_of(s);
				break;
			}
			}
			check4("at any time");
		}
		S4.done = true;
		wait_until("@sender", []() { return task_done(task_get(1)); });
		faults_disable();
		for (int i = 0; i < 40 && k->pending; ++i) point("settle");
		if (k->pending) fail("flag-lost", "signals stay undelivered");
		check4("at the end");
		int f = flags_now();
		if (S4.must & ~f) fail("flag-lost", "at the end: signals for { %s} were sent, but only flags { %s} are set", fl(S4.must).c_str(), fl(f).c_str());
	});
	spawn(proc_get(1), "sender", []() {
		wait_until("@ready", []() { return S4.ready; });
		int n = range(1, 10);
		for (int i = 0; i < n; ++i)
		{
			if (S4.done && chance(1, 2)) break;
			int s = pick_sig();
			S4.sent |= flag_of(s);
			k_signal(proc_get(0), s);
			S4.must |= flag_of(s);
			if (chance(2, 3)) yield();
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
}

// ------------------------------------------------------------------ P05
static struct P05R
{
	bool norestart, ready, incall, callsig, done;
	u64 blocked;               // managed signals blocked now
	u64 waiting;               // signals sent while blocked
	int must, may;
} S5;
static u32 draw_mask(std::set<int> &set)
{
	u32 m = 0;
	int n = range(0, 4);
	for (int i = 0; i < n; ++i) { int s = pick_sig(); m |= 1u << s; set.insert(s); }
	return m;
}
static void check5(const char *when)
{
	int f = flags_now();
	if (f & ~S5.may) fail("wrong-flag", "%s: flags { %s} are set; allowed are { %s}", when, fl(f).c_str(), fl(S5.may).c_str());
	if (S5.must & ~f) fail("flag-lost", "%s: flags { %s} should be set; set are { %s}", when, fl(S5.must).c_str(), fl(f).c_str());
}
static void clear5()
{
	coda_changecfg = coda_terminate = coda_rotatelog = coda_changebin = 0;
	S5.must = 0; S5.may = 0;
}
static void p05()
{
	sched_default();
	sched.hook_all = true;
	proc_new("prog");
	proc_new("sender");
	S5 = P05R();
	static Sock *remote;
	static int rfd;
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		// the other set-up may have been in force before
		earlier();
		bool before = chance(1, 3);
		if (before && setup(draw(3))) fail("setup-failed", "signal set-up failed");
		if (chance(1, 4))
		{
			// some signals are masked before the handlers are there
			std::set<int> set;
			u32 m = draw_mask(set);
			for (std::set<int>::iterator j = set.begin(); j != set.end(); ++j) S5.blocked |= 1ull << *j;
			int r;
			{ InSut s; r = coda_signal_mask(SIG_BLOCK, m); }
			if (r) fail("mask-failed", "coda_signal_mask returned %d", r);
		}
		{ int how = draw(3); S5.norestart = how == 1; if (setup(how)) fail("setup-failed", "signal set-up failed"); }
		// signal() after signal_init_norestart restores restarting, and the other way round; the last one counts
		net_pair(k, 10, &remote);
		int n = range(2, 9);
		for (int i = 0; i < n; ++i)
		{
			switch (draw(9) / 2)
			{
			case 4:
			{
				// the other set-up (or the same again): the last one counts, masked signals stay masked
				int how = draw(3);
				S5.norestart = how == 1;
				if (setup(how)) fail("setup-failed", "signal set-up failed");
				if (task_sigmask(cur()) != S5.blocked) fail("wrong-mask", "after a set-up the blocked signals are %#llx, but should be %#llx", (unsigned long long) task_sigmask(cur()), (unsigned long long) S5.blocked);
				check5("after a set-up");
				sim::stat("probe.setup-again");
				break;
			}
			case 0:
			{
				std::set<int> set;
				u32 m = draw_mask(set);
				int how = draw(3);
				u64 old = S5.blocked, nb = 0;
				for (std::set<int>::iterator j = set.begin(); j != set.end(); ++j) nb |= 1ull << *j;
				int op = how == 0 ? SIG_BLOCK : how == 1 ? SIG_UNBLOCK : SIG_SETMASK;
				S5.blocked = how == 0 ? old | nb : how == 1 ? old & ~nb : nb;
				// what becomes unblocked is delivered now
				u64 rel = S5.waiting & ~S5.blocked;
				for (int s = 1; s < 32; ++s) if (rel >> s & 1) { S5.may |= flag_of(s); S5.must |= flag_of(s); }
				S5.waiting &= S5.blocked;
				int r;
				{ InSut s; r = coda_signal_mask(op, m); }
				ev("mask", op, m, r);
				if (r) fail("mask-failed", "coda_signal_mask returned %d", r);
				if (task_sigmask(cur()) != S5.blocked) fail("wrong-mask", "the blocked signals are %#llx, but should be %#llx", (unsigned long long) task_sigmask(cur()), (unsigned long long) S5.blocked);
				if (rel) sim::stat("probe.deferred-signal-delivered");
				check5("after a change of the mask");
				break;
			}
			case 1:
			{
				int s = pick_sig();
				ev("raise", s);
				if (S5.blocked >> s & 1) { S5.waiting |= 1ull << s; sim::stat("probe.signal-while-blocked"); }
				else { S5.may |= flag_of(s); S5.must |= flag_of(s); }
				{ InSut x; raise(s); }
				check5("after a signal");
				break;
			}
			case 2: check5("at any time"); clear5(); break;
			case 3:
			{
				// a blocking call; a signal arrives while it is blocked, then the data
				char b[8];
				int s = pick_sig();
				bool bl = S5.blocked >> s & 1;
				int call = draw(3);
				static volatile bool over;
				over = false;
				bool wassig = chance(3, 4);
				spawn(proc_get(1), fmt("helper%d", i), [=]() {
					Task *m = task_get(0);
					wait_until("@blocked", [=]() { return task_blocked(m) || over; });
					if (over) return;
					if (wassig)
					{
						if (bl) S5.waiting |= 1ull << s; else { S5.may |= flag_of(s); S5.must |= flag_of(s); }
						k_signal(proc_get(0), s);
						if (chance(1, 2)) yield();
						// let the call end or be resumed
						for (int j = 0; j < 50 && !over && !task_blocked(m); ++j) yield();
					}
					if (!over) { wait_until("@blocked again", [=]() { return task_blocked(m) || over; }); }
					if (!over) net_put(remote, "x");
				});
				int r, e;
				u64 d0 = k->delivered;
				{
					InSut x;
					errno = 0;
					if (call == 0) r = recv(10, b, 1, 0);
					else if (call == 1) r = read(10, b, 1);
					else r = coda_unix_recv(10, b, 1);
					e = errno;
				}
				over = true;
				ev("call", call, r, e);
				note(fmt("blocking call %d returned %d (%s), signal %s%s", call, r, strerror(e), wassig ? signame(s) : "none", bl ? " blocked" : ""));
				bool handled = wassig && !bl;
				bool expect = handled && S5.norestart && call != 2;
				if (handled && k->delivered == (int) d0) fail("flag-lost", "signal %s was sent during a blocking call, but no handler ran", signame(s));
				if (expect && !(r == -1 && e == EINTR)) fail("not-interrupted", "after the no-restart set-up signal %s did not interrupt a blocking call (returned %d)", signame(s), r);
				if (!expect && r != 1) fail("not-resumed", "a blocking call returned %d (%s)%s", r, strerror(e), handled ? " after a signal although it should be resumed" : "");
				if (r == -1) sim::stat("probe.interrupted");
				else if (handled) sim::stat("probe.resumed");
				wait_until("@helper", []() { for (int j = 2; j < task_count(); ++j) if (!task_done(task_get(j))) return false; return true; });
				check5("after a blocking call");
				// the byte may still be there
				{ Sock *x = k_sock(k, 10); x->rx.clear(); }
				break;
			}
			}
		}
		// everything unblocked: each waiting signal is delivered exactly once
		u64 w = S5.waiting;
		for (int s = 1; s < 32; ++s) if (w >> s & 1) { S5.may |= flag_of(s); S5.must |= flag_of(s); }
		int d0 = k->delivered, nw = __builtin_popcountll(w);
		int r;
		u32 all = 0;
		for (int i = 0; i < NSIG_; ++i) all |= 1u << SIGS[i];
		{ InSut s; r = coda_signal_mask(SIG_UNBLOCK, all); }
		if (r) fail("mask-failed", "coda_signal_mask returned %d", r);
		if (task_sigmask(cur())) fail("wrong-mask", "signals stay blocked: %#llx", (unsigned long long) task_sigmask(cur()));
		if (k->delivered - d0 != nw) fail("flag-lost", "%d signals were deferred, %d were delivered when unblocked", nw, k->delivered - d0);
		check5("at the end");
	});
	spawn(proc_get(1), "idle", []() {});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
struct DInit { DInit() { on_proc_exit(p01_exit); } } init_daemon;
SIM_PROP(P01, p01);
SIM_PROP(P02, p02);
SIM_PROP(P03, p03);
SIM_PROP(P04, p04);
SIM_PROP(P05, p05);
