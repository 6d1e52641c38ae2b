// The logger under simulated threads, processes, clocks and failing system calls: L01..L03
#include "../sim/krn.hpp"
#include "../sim/clk.hpp"
#include "../sim/alloc.hpp"
#include <coda/logger.h>
#include <coda/error.h>
#include <algorithm>
#include <fcntl.h>
#include <set>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static const char *LVNAME[] = { "access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug" };

struct Msg
{
	int task, proc, lvl, uid;
	std::string text;            // as formatted by the caller
	std::string who;             // thread name or id
	i64 w0, w1;                  // wall clock range of the call, ms
	u64 s0, s1;
	bool enabled, errform, maybe;
	int errno_;
};
static const char *const ZONES[] = { "TZ=UTC0", "TZ=SIM-5:45", "TZ=EST5EDT,M3.2.0,M11.1.0", "TZ=WST+9:30" };
static const int OFFS[][2] = { { 0, 0 }, { 20700, 20700 }, { -18000, -14400 }, { -34200, -34200 } };
static struct Run
{
	int zone;
	std::vector<Msg> msgs;
	std::vector<std::pair<u64, i64> > walls;            // wall clock changes
	std::vector<std::pair<u64, std::pair<int, int> > > dest; // (seq, (proc, inode)) changes of descriptor 2
	int uid;
	std::set<int> dests;
} R;

static i64 wall_ms() { i64 w = now_ns + wall_off_ns; return w / 1000000 - (w % 1000000 < 0); }

static void payload(std::string &s, int n, int id)
{
	for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789 %[]\t:"[(id * 7 + i * 3) % 42];
}
static void log_one(int lvl, const std::string &text, int uid)
{
	InSut s;
	const char *t = text.c_str();
	switch (lvl)
	{
	case LOG_access: log_access("m%d %s", uid, t); break;
	case LOG_emerg: log_emerg("m%d %s", uid, t); break;
	case LOG_alert: log_alert("m%d %s", uid, t); break;
	case LOG_crit: log_crit("m%d %s", uid, t); break;
	case LOG_error: log_error("m%d %s", uid, t); break;
	case LOG_warn: log_warn("m%d %s", uid, t); break;
	case LOG_notice: log_notice("m%d %s", uid, t); break;
	case LOG_info: log_info("m%d %s", uid, t); break;
	default: log_debug("m%d %s", uid, t); break;
	}
}
static std::string my_id() { InSut s; unsigned long v = (unsigned long) pthread_self(); OutSut o; return fmt("%lu", v); }

// logs and records what must appear; level: the threshold in force
static void do_log(int lvl, int level, const std::string &who, int len, int err = 0)
{
	Msg m;
	m.task = cur()->id; m.proc = curproc()->id; m.lvl = lvl; m.uid = ++R.uid; m.who = who; m.enabled = lvl <= level; m.maybe = false;
	m.errform = err != 0; m.errno_ = err;
	std::string pay;
	payload(pay, len, m.uid);
	m.text = fmt("m%d ", m.uid) + pay;
	if (err) m.text += fmt(" (%d: %s)", err, strerror(err));
	size_t at = R.msgs.size();
	m.s0 = seq(); m.w0 = wall_ms(); m.s1 = ~0ull; m.w1 = 0;
	R.msgs.push_back(m);
	ev("log", m.uid, lvl);
	if (err)
	{
		InSut s;
		const char *t = pay.c_str();
		log_err(err, "m%d %s", m.uid, t);
	}
	else log_one(lvl, pay, m.uid);
	Msg &n = R.msgs[at];
	n.s1 = seq();
	i64 a = n.w0, b = wall_ms();
	if (a > b) std::swap(a, b);
	for (size_t i = 0; i < R.walls.size(); ++i) if (R.walls[i].first >= n.s0) { a = std::min(a, R.walls[i].second); b = std::max(b, R.walls[i].second); }
	n.w0 = a; n.w1 = b;
	ev("logged", m.uid);
}
static void wall_jump(i64 ns)
{
	R.walls.push_back(std::make_pair(seq(), wall_ms()));
	if (now_ns + wall_off_ns + ns < 0) ns = 0;       // the system's clock cannot precede the epoch
	wall_off_ns += ns;
	R.walls.push_back(std::make_pair(seq(), wall_ms()));
	ev("wall-jump", ns);
	sim::stat("fault.wall-clock-step");
}
static std::string cut(const std::string &s) { return s.size() > 160 ? s.substr(0, 120) + fmt("...(%zu)", s.size()) : s; }

// checks one line against its message; returns the message's index
static int match(const std::string &l, std::vector<int> &seen)
{
	struct tm tm;
	memset(&tm, 0, sizeof tm);
	int ms, used = 0;
	if (sscanf(l.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d %n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &ms, &used) < 7 || used != 24)
		fail("bad-line", "the log contains a line that does not start with a time stamp: \"%s\"", cut(l).c_str());
	tm.tm_year -= 1900; tm.tm_mon -= 1;
	i64 local = (i64) timegm(&tm) * 1000 + ms;
	size_t p = l.find(" m", used);
	int uid = -1;
	std::string rest = l.substr(used);
	for (; p != std::string::npos; p = l.find(" m", p + 1))
		if (sscanf(l.c_str() + p, " m%d ", &uid) == 1 && uid >= 1 && uid <= (int) R.msgs.size()) break;
	if (p == std::string::npos) fail("bad-line", "the log contains a line of no known message: \"%s\"", cut(l).c_str());
	Msg &m = R.msgs[uid - 1];
	std::string want = std::string(LVNAME[m.lvl]) + " " + m.who + " " + m.text;
	if (rest != want) fail("bad-line", "message %d should read \"%s\" but the log has \"%s\"", uid, cut(want).c_str(), cut(rest).c_str());
	if (!m.enabled) fail("below-threshold", "message %d of level %s is beyond the threshold and was written nevertheless", uid, LVNAME[m.lvl]);
	// the line has local time: which instants can it stand for?
	bool good = m.s1 == ~0ull;
	for (int i = 0; i < 2 && !good; ++i)
	{
		i64 t = local - OFFS[R.zone][i] * 1000ll;
		time_t ts = t / 1000;
		struct tm lt;
		good = t >= m.w0 && t <= m.w1 && localtime_r(&ts, &lt) && lt.tm_gmtoff == OFFS[R.zone][i];
	}
	if (!good) fail("wrong-time", "message %d carries the time %.23s (zone %s), but the call was made between %lld and %lld ms", uid, l.c_str(), ZONES[R.zone], (long long) m.w0, (long long) m.w1);
	if (seen[uid - 1]++) fail("duplicate", "message %d is in the log twice", uid);
	return uid - 1;
}
static std::vector<int> check_text(const std::string &d, size_t from, std::vector<int> &seen)
{
	std::vector<int> order;
	size_t i = from;
	while (i < d.size())
	{
		size_t j = d.find('\n', i);
		if (j == std::string::npos) fail("bad-line", "the log ends in the middle of a line: \"%s\"", cut(d.substr(i)).c_str());
		int m = match(d.substr(i, j - i), seen);
		order.push_back(m);
		i = j + 1;
	}
	return order;
}
static void check_order(const std::vector<int> &order)
{
	std::map<int, int> last;
	for (size_t i = 0; i < order.size(); ++i)
	{
		int t = R.msgs[order[i]].task;
		if (last.count(t) && last[t] > order[i]) fail("reordered", "messages %d and %d of one thread are in the log in the wrong order", last[t] + 1, order[i] + 1);
		last[t] = order[i];
	}
}
static void base(int nproc)
{
	R = Run();
	R.zone = draw(4);
	putenv((char *) ZONES[R.zone]);
	tzset();
	for (int i = 0; i < nproc; ++i) proc_new(i ? "proc1" : "proc0");
	sched_default();
	sched.hook_all = true;
	wall_off_ns = ((i64) draw(2000000000) + 1000) * 1000000000ll + draw(1000) * 1000000ll + draw(1000000);
	// just before the clocks are put forward or back
	if (R.zone == 2 && draw(2)) wall_off_ns = ((draw(2) ? 1772953200 : 1793512800) - (i64) draw(1000)) * 1000000000ll - now_ns;
}

// ------------------------------------------------------------------ L01
static void l01()
{
	base(1);
	int nt = range(1, 4), level = draw(9);
	int setup = draw(3);
	spawn(proc_get(0), "main", [=]() {
		int lv = level;
		std::string old;
		if (setup == 0) { InSut s; log_level = lv; }
		else
		{
			const char *p = setup == 1 ? "/tmp/log" : "/var/log/app/x.log";
			int r;
			{ InSut s; r = log_create(p, lv); }
			if (r != 2) fail("create-failed", "log_create returned %d without any fault", r);
		}
		static std::vector<std::vector<std::string> > names;
		names.assign(5, std::vector<std::string>());
		for (int t = 0; t < nt; ++t)
		{
			for (int i = 0; i < 3; ++i) names[t].push_back(fmt("th%d%c", t, 'a' + i) + (chance(1, 4) ? std::string(draw(40), 'n') : ""));
			int nm = range(1, 5);
			spawn(proc_get(0), fmt("t%d", t), [=]() {
				std::string who = my_id();
				for (int i = 0; i < nm; ++i)
				{
					if (chance(1, 2))
					{
						int k = draw(4);
						int r;
						if (k == 3) { InSut s; r = log_thread_name_set(NULL); }
						else { const char *c = names[t][k].c_str(); InSut s; r = log_thread_name_set(c); }
						if (r) fail("name-failed", "log_thread_name_set returned %d", r);
						who = k == 3 ? my_id() : names[t][k];
						const char *g;
						{ InSut s; g = log_thread_name_get(); }
						if (k == 3 ? g != NULL : g != names[t][k].c_str()) fail("wrong-name", "log_thread_name_get does not return the thread's own name");
					}
					int len = chance(1, 12) ? chance(1, 6) ? (int) draw(50000) : (int) draw(9000) : (int) draw(80);
					int err = chance(1, 6) ? (int) range(1, 40) : 0;
					int lvl = err ? (int) LOG_error : (int) draw(9);
					if (len > 4000 && chance(1, 3)) alloc_cfg.once = range(1, 2);
					do_log(lvl, lv, who, len, err);
					if (chance(1, 3)) sleep_ns(draw(3000000));
					if (chance(1, 6)) advance((i64) draw(1000) * 1000000000ll + (i64) draw(1000) * 1000000);
					if (chance(1, 10)) wall_jump(((i64) draw(7200) - 3600) * 1000000000ll + (i64) draw(1000) * 1000000);
				}
			});
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	std::vector<int> seen(R.msgs.size(), 0);
	KProc *k = kp(proc_get(0));
	Ofd *o = k_ofd(k, 2);
	std::vector<int> ord = check_text(o->ino->data, 0, seen);
	check_order(ord);
	for (size_t i = 0; i < R.msgs.size(); ++i)
		if (R.msgs[i].enabled && !seen[i]) fail("lost", "message %zu of level %s is not in the log (threshold %s)", i + 1, LVNAME[R.msgs[i].lvl], LVNAME[level]);
	// nothing anywhere else
	std::vector<Inode *> all = k_all();
	for (size_t i = 0; i < all.size(); ++i) if (all[i] != o->ino && !all[i]->data.empty()) fail("bad-line", "output went to a file that is not the log");
	if (nt > 1) nontrivial();
}

// ------------------------------------------------------------------ L02
static const char *ropath(const std::string &s)
{
	// the caller's string lies in memory that cannot be written
	static char *area;
	if (!area) area = (char *) mmap(NULL, 8192, PROT_READ, MAP_PRIVATE | MAP_ANON, -1, 0);
	mprotect(area, 4096, PROT_READ | PROT_WRITE);
	memset(area, 0, 4096);
	memcpy(area + 4096 - s.size() - 1, s.c_str(), s.size() + 1);
	mprotect(area, 8192, PROT_READ);
	mprotect(area + 4096, 4096, PROT_NONE);
	return area + 4096 - s.size() - 1;
}
static const char *PATHS[] = { "/tmp/a.log", "/tmp/b.log", "/var/log/x/y/z.log", "/var/log/x/w.log", "/logs/l", "rel.log", "rel/d/e.log", "//tmp//c.log", "/tmp/./q/../q2.log" };
enum { NPATH = sizeof PATHS / sizeof *PATHS };

static void l02()
{
	base(1);
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		// which standard descriptors are open at the start
		int cfg = chance(1, 4) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		std::map<std::string, std::string> model;       // expected file contents by path
		bool ro = chance(1, 2);
		if (chance(1, 3)) { k_mkfile("/tmp/a.log", "old line\nold line 2\n"); }
		if (chance(1, 3)) k_mkdirs("/var/log");
		if (chance(1, 10)) { k_symlink(chance(1, 2) ? "a.log" : "real.log", "/tmp/b.log"); sim::stat("probe.linked-log"); }
		else		if (chance(1, 10)) k_mkdirs("/tmp/b.log");
		int level;
		{ InSut s; level = log_level; }
		std::map<int, std::string> want;                 // contents by inode number
		std::vector<Inode *> all = k_all();
		for (size_t i = 0; i < all.size(); ++i) if (all[i]->type == I_REG) want[all[i]->ino] = all[i]->data;
		std::string who = my_id();
		int n = range(2, 8);
		bool faulty = chance(5, 6);
		alloc_cfg.faults = faulty;
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		u32 gap = range(2, 12);
		for (int i = 0; i < n; ++i)
		{
			std::map<int, Ofd *> before = k_table(k);
			Inode *dst = k_ofd(k, 2) ? k_ofd(k, 2)->ino : NULL;
			int what = draw(5);
			int arg = draw(NPATH);
			std::string path = PATHS[arg];
			bool toolong = false;
			if (chance(1, 16))
			{
				// deep, with long names, up to what the system accepts; or with a name too long for it
				sim::stat("probe.long-path");
				path = chance(1, 4) ? "" : "/logs/";
				int n = range(1, 15);
				for (int j = 0; j < n; ++j) path += std::string(chance(1, 3) ? 255 : 1 + draw(255), 'p' + draw(2)) + "/";
				if (path.size() > 3700) path.resize(3700);
				path += path.back() == '/' ? "l.log" : "/l.log";
				if (chance(1, 6)) { path += std::string(251, 'g'); toolong = true; }
			}
			const char *pp = ro ? ropath(path) : NULL;
			char buf[4096];
			if (!ro) { strcpy(buf, path.c_str()); pp = buf; }
			int lv = draw(9), r, want_lv = level;
			static const char *const LS[] = { "access", "EMERG", "alert", "crit", "Error", "warn", "notice", "info", "debug" };
			int live0 = alloc_live();
			if (faulty) faults_enable(chance(1, 3) ? 2 : 1, gap);
			switch (what)
			{
			case 0: case 1: { InSut s; r = log_create(pp, lv); } want_lv = lv; break;
			case 2: { const char *l = LS[lv]; InSut s; r = log_create_from_str(pp, l); } want_lv = lv; break;
			default: { InSut s; r = log_rotate(pp); } break;
			}
			int fired = faults.fired;
			faults_disable();
			krn.enospc = false;
			ev("create", what, arg, r);
			note(fmt("log_create/rotate(\"%s\", %d) = %d", path.c_str(), lv, r));
			if (!ro && path != buf) fail("path-modified", "the path string was changed from \"%s\" to \"%s\"", path.c_str(), buf);
			Inode *now = k_ofd(k, 2) ? k_ofd(k, 2)->ino : NULL;
			int lvl_now;
			{ InSut s; lvl_now = log_level; }
			if (alloc_live() != (size_t) live0) fail("leak", "%d allocations left by log creation", (int) alloc_live() - live0);
			Inode *f = k_lookup(path[0] == '/' ? path : "/" + path);
			if (r < 0)
			{
				sim::stat("probe.create-failed");
				if (!fired && !toolong && !(f && f->type == I_DIR)) fail("create-failed", "log creation of %s failed although no system call failed", path.c_str());
				if (k_table(k) != before) fail("fd-leak", "failed log creation changed the descriptors (now %s)", k_fds(k).c_str());
				if (now != dst) fail("destination-lost", "failed log creation changed the destination");
				if (lvl_now != level) fail("level-changed", "failed log creation changed the level from %d to %d", level, lvl_now);
			}
			else
			{
				if (r != 2) fail("bad-result", "log creation returned %d", r);
				std::map<int, Ofd *> exp = before;
				exp[2] = k_ofd(k, 2);
				if (!exp[2]) fail("bad-result", "log creation succeeded but standard error is closed");
				if (k_table(k) != exp) fail("fd-leak", "successful log creation left other descriptors changed: %s", k_fds(k).c_str());
				if (!f || now != f) fail("wrong-destination", "log creation of %s succeeded but messages go elsewhere", path.c_str());
				if (lvl_now != want_lv) fail("level-changed", "log creation with level %d set level %d", want_lv, lvl_now);
				level = want_lv;
				if (fired) sim::stat("probe.create-succeeded-despite-fault");
			}
			// messages go to the current destination, after what is there
			int nm = draw(3);
			for (int j = 0; j < nm; ++j)
			{
				if (now && now->type == I_REG && chance(1, 4)) { now->data += "other process\n"; want[now->ino] += "other process\n"; }
				size_t len0 = now ? now->data.size() : 0;
				int ml = draw(9);
				do_log(ml, level, who, draw(100));
				if (!now) continue;
				std::string got = now->data.substr(std::min(len0, now->data.size()));
				if (now->type == I_REG && now->data.substr(0, len0) != want[now->ino]) fail("overwritten", "earlier contents of the log were changed by a message");
				std::vector<int> seen(R.msgs.size(), 0);
				std::vector<int> o = check_text(got, 0, seen);
				if (o.size() != (size_t) (ml <= level)) fail(o.size() ? "duplicate" : "lost", "message %d led to %zu lines", R.uid, o.size());
				if (now->type == I_REG) want[now->ino] += got;
			}
			all = k_all();
			for (size_t j = 0; j < all.size(); ++j)
				if (all[j]->type == I_REG && all[j]->data != want[all[j]->ino]) fail("overwritten", "contents of a log file changed (now %zu bytes, should be %zu)", all[j]->data.size(), want[all[j]->ino].size());
			if (chance(1, 5)) { std::string q = path[0] == '/' ? path : "/" + path; Inode *x = k_lookup(q); if (x && x->type == I_REG) { if (chance(1, 2)) k_unlink(q); else k_rename(q, q + fmt(".%d", i)); } }
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
}

// ------------------------------------------------------------------ L03
static void on_fd(KProc *k, int fd, Ofd *, Ofd *n)
{
	if (fd != 2) return;
	R.dest.push_back(std::make_pair(seq(), std::make_pair(k->p->id, n && n->ino ? n->ino->ino : 0)));
}
static void l03()
{
	int np = chance(1, 2) ? 2 : 1;
	base(np);
	int level = LOG_info;
	int nt = range(1, 3), nrot = range(1, 4);
	bool old = chance(1, 2), newpaths = chance(1, 3);
	spawn(proc_get(0), "main", [=]() {
		if (old) k_mkfile("/tmp/a.log", "existing line\n");
		krn.on_fd = on_fd;
		for (int p = 0; p < np; ++p)
		{
			spawn(proc_get(p), fmt("p%d", p), [=]() {
				int r;
				{ InSut s; r = log_create("/tmp/a.log", level); }
				if (r != 2) fail("create-failed", "log_create returned %d without any fault", r);
				for (int t = 0; t < nt; ++t)
				{
					int nm = range(1, 5);
					spawn(proc_get(p), fmt("p%dt%d", p, t), [=]() {
						std::string who = my_id();
						for (int i = 0; i < nm; ++i)
						{
							int len = draw(60);
							if (chance(1, 10)) len = chance(1, 3) ? chance(1, 100) ? draw(1500000) : chance(1, 8) ? draw(200000) : draw(40000) : draw(3500);
							do_log(draw(9), level, who, len);
							if (chance(1, 4)) yield();
						}
					});
				}
				int rotators = range(1, 2);
				for (int q = 0; q < rotators; ++q)
				{
					int n = range(1, nrot);
					spawn(proc_get(p), fmt("p%drot%d", p, q), [=]() {
						for (int i = 0; i < n; ++i)
						{
							if (chance(2, 3)) { k_rename("/tmp/a.log", fmt("/tmp/a.log.%d.%d.%d", p, q, i)); point("rename"); }
							const char *path = newpaths && chance(1, 2) ? "/tmp/deep/er/b.log" : "/tmp/a.log";
							int r;
							{ InSut s; r = log_rotate(path); }
							if (r != 2) fail("create-failed", "log rotation returned %d without any fault", r);
							if (chance(1, 3)) yield();
						}
					});
				}
			});
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	std::vector<int> seen(R.msgs.size(), 0);
	std::vector<Inode *> all = k_all();
	for (size_t i = 0; i < all.size(); ++i)
	{
		Inode *f = all[i];
		if (f->type == I_DIR) continue;
		size_t from = 0;
		if (old && f->data.compare(0, 14, "existing line\n") == 0) from = 14;
		std::vector<int> o = check_text(f->data, from, seen);
		check_order(o);
		for (size_t j = 0; j < o.size(); ++j)
		{
			const Msg &m = R.msgs[o[j]];
			// the file must have been the process's destination at some time during the call
			bool ok = false; int at = -1;
			for (size_t d = 0; d < R.dest.size(); ++d)
			{
				if (R.dest[d].second.first != m.proc) continue;
				if (R.dest[d].first <= m.s0) at = R.dest[d].second.second;
				else if (R.dest[d].first <= m.s1 && R.dest[d].second.second == f->ino) ok = true;
			}
			if (at == f->ino) ok = true;
			if (!ok) fail("wrong-file", "message %d is in a file that was not current during the call", o[j] + 1);
		}
	}
	if (old) { int n = 0; for (size_t i = 0; i < all.size(); ++i) n += all[i]->data.compare(0, 14, "existing line\n") == 0; if (n != 1) fail("overwritten", "the existing contents of the log are gone"); }
	for (size_t i = 0; i < R.msgs.size(); ++i)
		if (R.msgs[i].enabled && !seen[i]) fail("lost", "message %zu is in no log file", i + 1);
	for (int p = 0; p < np; ++p) { KProc *k = kp(proc_get(p)); if (k->fds.size() != 3) fail("fd-leak", "descriptors left open: %s", k_fds(k).c_str()); }
	nontrivial();
}
SIM_PROP(L01, l01);
SIM_PROP(L02, l02);
SIM_PROP(L03, l03);
