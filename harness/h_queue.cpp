// shm_queue::queue under simulated processes: Q01..Q08
#include "../sim/sim.hpp"
#include "../sim/ipc.hpp"
#include "../sim/alloc.hpp"
#include "../sim/lin.hpp"
#include <coda/shm_queue.hpp>
#include <algorithm>
#include <errno.h>
#include <map>
#include <set>
#include <string.h>
#include <deque>

using namespace sim;

enum { MAGIC = 0xA5C30F5A };

template <int SZ> struct Msg : shm_queue::serializable
{
	uint32_t id;
	bool ok;
	Msg() : id(0), ok(false) {}
	size_t size() const { return of(id); }
	static size_t of(uint32_t id) { return SZ ? SZ : 4 * (1 + id * 7 % 5); }       // 0: its size depends on the message
	bool serialize(void *p) const
	{
		uint32_t *w = (uint32_t *) p;
		w[0] = MAGIC ^ (id << 8);
		for (int i = 1; i < (int) of(id) / 4; ++i) w[i] = id * 2654435761u + i * 40503u;
		return true;
	}
	bool deserialize(const void *p)
	{
		const uint32_t *w = (const uint32_t *) p;
		if ((w[0] & 0xff) == 0) return false;       // a tag byte, as erased memory has none
		id = (w[0] ^ MAGIC) >> 8;
		ok = ((w[0] ^ MAGIC) & 0xff) == 0;
		for (int i = 1; i < (int) of(id) / 4; ++i) if (w[i] != id * 2654435761u + i * 40503u) ok = false;
		return true;
	}
};

struct IQ
{
	virtual ~IQ() {}
	virtual void connect(const char *f, int bs, int len) = 0;
	virtual void disconnect() = 0;
	virtual bool put(uint32_t id) = 0;
	virtual void flush() = 0;
	virtual bool unflush(bool nowait, long usec) = 0;
	virtual int get() = 0;        // id, 0 = no more, -1 = damaged
	virtual void set_reg(int r, uint32_t v) = 0;
	virtual uint32_t get_reg(int r) = 0;
	virtual int count() = 0;
	virtual int pages() = 0;
	virtual int nregs() = 0;
	virtual int semid() = 0;
	virtual int msize() = 0;             // the biggest
	virtual int msize(uint32_t id) = 0;
	virtual void destroy() = 0;
};
template <int SZ> struct QT : IQ
{
	typedef shm_queue::queue<Msg<SZ> > Q;
	Q *q;
	QT() { q = new Q; }
	void connect(const char *f, int bs, int len) { InSut s; if (bs == DEFAULT_BOX_SIZE && len == DEFAULT_MAX_BOXES_IN_QUEUE) q->connect(f); else q->connect(f, bs, len); }
	void disconnect() { InSut s; q->disconnect(); }
	bool put(uint32_t id) { Msg<SZ> m; m.id = id; InSut s; return q->put(m); }
	void flush() { InSut s; q->flush(); }
	bool unflush(bool nowait, long usec) { InSut s; return nowait ? q->unflush(IPC_NOWAIT) : usec == 100000 ? q->unflush() : q->unflush(0, usec); }
	int get() { Msg<SZ> m; bool r; { InSut s; r = q->get(m); } return r ? (m.ok ? (int) m.id : -1) : 0; }
	void set_reg(int r, uint32_t v) { InSut s; q->set_register(r, v); }
	uint32_t get_reg(int r) { InSut s; return q->get_register(r); }
	int count() { InSut s; return q->boxes_in_queue(); }
	int pages() { InSut s; return q->pages_used(); }
	int nregs() { InSut s; return q->registers_number(); }
	int semid() { InSut s; return q->semid(); }
	int msize() { return SZ ? SZ : 20; }
	int msize(uint32_t id) { return Msg<SZ>::of(id); }
	void destroy() { InSut s; delete q; q = NULL; }
};
typedef IQ *(*mkq)();
template <int SZ> static IQ *mk() { return new QT<SZ>; }
static const mkq makers[] = { mk<8>, mk<4>, mk<12>, mk<40>, mk<0> };

// ------------------------------------------------------------------ history
struct Box
{
	int writer;
	u64 begin, end;             // end 0: never returned
	i64 tb, te;
	std::vector<int> msgs;
	bool killed, received;
	u64 ub, ue;                 // the unflush that obtained it
};
struct Unf
{
	int reader;
	u64 begin, end;
	i64 tb, te;
	bool nowait;
	long usec;
	bool result, intr, killed;
	int box;                    // -1: empty box
};
struct Reg { int proc; u64 begin, end; int reg; bool set; uint32_t val; bool killed; };

struct P
{
	Proc *proc;
	IQ *w, *r;
	IQ *own, *ownr;             // a queue of its own, under another key (Q01)
	Task *t;
	int cur;                    // box being filled, -1 none
};
static struct Run
{
	mkq make;
	int len, bs, cap, msz;
	std::vector<Box> boxes;
	std::vector<Unf> unfs;
	std::vector<lin::Op> regs;
	std::vector<P> ps;
	std::map<int, std::pair<int, int> > msgs;      // id -> box, position
	std::set<int> dropped_by_put;
	int next, nextreg, empties_flushed, empties_got, dead_readers, dead_writers, nregsused;
	bool crash, faulty, nodrop, idle_clock;
	std::map<uint32_t, int> regval;
} R;
static const char *KEYFILE = "/sim/queue.key", *KEYFILE2 = "/sim/missing.key";
static const char *names[] = { "A", "B", "C", "D", "E", "F" };

static void begin_run(int minlen, int maxlen)
{
	sched_default();
	ipc.random_wake = draw(2);
	R.make = makers[draw(5)];
	{ IQ *q = R.make(); R.msz = q->msize(); q->destroy(); delete q; }
	R.cap = range(1, 3);
	R.bs = R.cap * R.msz + (draw(3) == 2 ? range(0, R.msz - 1) : 0);
	R.len = range(minlen, maxlen);
	R.boxes.clear(); R.unfs.clear(); R.regs.clear(); R.ps.clear(); R.msgs.clear();
	R.boxes.reserve(512); R.unfs.reserve(4096); R.regs.reserve(256); R.ps.reserve(16);
	R.next = 1; R.nextreg = 1;
	R.empties_flushed = R.empties_got = R.dead_readers = R.dead_writers = 0;
	R.crash = R.faulty = R.nodrop = false;
	R.idle_clock = draw(2) == 0;
	sched.jump_den = R.idle_clock ? 0 : 8;
	ipc_keyfile(KEYFILE, true);
	ipc_keyfile(KEYFILE2, false);
}
static P *add_proc(const char *name)
{
	P p;
	memset(&p, 0, sizeof p);
	p.proc = proc_new(name);
	p.w = R.make(); p.r = R.make();
	p.cur = -1;
	R.ps.push_back(p);
	return &R.ps.back();
}
static void connect_ok(IQ *q, Proc *p, const char *when)
{
	try { q->connect(KEYFILE, R.bs, R.len); }
	catch (const std::exception &e) { fail("connect", "connect of process %s failed %s: %s", p->name.c_str(), when, e.what()); }
}

// ------------------------------------------------------------------ operations with recording
static void do_flush(P &p, bool implicit, int nextid)
{
	int b = p.cur;
	Box x;
	if (b < 0) { x = Box(); x.writer = p.proc->id; x.killed = x.received = false; x.ub = x.ue = 0; b = R.boxes.size(); R.boxes.push_back(x); }
	p.cur = -1;
	if (R.boxes[b].msgs.empty()) ++R.empties_flushed;
	R.boxes[b].begin = seq(); R.boxes[b].tb = now_ns; R.boxes[b].end = 0;
	if (implicit)
	{
		// the message that does not fit any more flushes the box and starts the next one
		Box y = Box();
		y.writer = p.proc->id; y.killed = y.received = false; y.ub = y.ue = 0; y.begin = y.end = 0;
		y.msgs.push_back(nextid);
		int nb = R.boxes.size();
		R.msgs[nextid] = std::make_pair(nb, 0);
		R.boxes.push_back(y);
		bool r = p.w->put(nextid);
		if (!r) fail("put", "put into an emptied box is refused");
		p.cur = nb;
	}
	else p.w->flush();
	R.boxes[b].end = seq(); R.boxes[b].te = now_ns;
	ev("flushed", b, R.boxes[b].msgs.size());
}
static void do_put(P &p)
{
	int id = R.next++;
	int used = p.w->msize(id);
	if (p.cur >= 0) for (int m : R.boxes[p.cur].msgs) used += p.w->msize(m);
	if (p.cur >= 0 && used > R.bs) { do_flush(p, true, id); return; }
	if (p.cur < 0)
	{
		Box x = Box();
		x.writer = p.proc->id; x.killed = x.received = false; x.ub = x.ue = 0; x.begin = x.end = 0;
		p.cur = R.boxes.size();
		R.boxes.push_back(x);
	}
	R.msgs[id] = std::make_pair(p.cur, (int) R.boxes[p.cur].msgs.size());
	R.boxes[p.cur].msgs.push_back(id);
	if (!p.w->put(id)) fail("put", "put is refused although the box has room");
}
static void take_contents(P &p, Unf &u)
{
	std::vector<int> got;
	for (int i = 0; i < R.bs / 4 + 2; ++i)
	{
		int id = p.r->get();
		if (id == 0) break;
		if (id < 0 || !R.msgs.count(id)) fail("corrupt", "process %s got a damaged message (after %d good ones)", p.proc->name.c_str(), (int) got.size());
		got.push_back(id);
	}
	if (got.empty()) { u.box = -1; ++R.empties_got; return; }
	int b = R.msgs[got[0]].first;
	Box &x = R.boxes[b];
	if (!x.begin) fail("corrupt", "process %s got message %d, which was not flushed yet", p.proc->name.c_str(), got[0]);
	if (x.received) fail("duplicate", "process %s got box %d, which was received before", p.proc->name.c_str(), b);
	bool same = got == x.msgs;
	if (!same)
	{
		std::string g, w;
		for (size_t i = 0; i < got.size(); ++i) g += fmt(" %d", got[i]);
		for (size_t i = 0; i < x.msgs.size(); ++i) w += fmt(" %d", x.msgs[i]);
		fail("corrupt", "process %s got a box with messages%s, but the box was put together as%s", p.proc->name.c_str(), g.c_str(), w.c_str());
	}
	x.received = true; x.ub = u.begin; x.ue = u.end;
	u.box = b;
	ev("got", b, got.size());
}
// returns what unflush returned
static bool do_unflush(P &p, bool nowait, long usec)
{
	size_t i = R.unfs.size();
	Unf u = Unf();
	u.reader = p.proc->id; u.nowait = nowait; u.usec = usec; u.killed = u.result = u.intr = false; u.end = 0; u.box = -1;
	u.begin = seq(); u.tb = now_ns;
	int ic = cur()->intr_count;
	R.unfs.push_back(u);
	bool r = p.r->unflush(nowait, usec);
	Unf &v = R.unfs[i];
	v.end = seq(); v.te = now_ns; v.result = r; v.intr = cur()->intr_count != ic;
	ev("unflush", r);
	if (r) take_contents(p, v);
	return r;
}
static long draw_timeout()
{
	static const long t[] = { 100000, 1, 1000, 999999, 1000000, 1000001, 2500000, 60000000, 3600000000l };
	return t[draw(9)];
}

// ------------------------------------------------------------------ registers
static uint32_t regnum(int id) { return id == 0 ? 0 : (uint32_t) id * 2654435761u; }
static void reg_op(P &p, IQ *q, int nreg)
{
	bool set = draw(2);
	int reg = draw(12) < 11 ? (int) draw(nreg) : -1;
	if (reg < 0)
	{
		// outside: reads as zero, changes nothing
		static const int out[] = { 12, 13, 255, 128, 64 };
		int o = out[draw(5)];
		if (set) q->set_reg(o, regnum(200));
		else if (q->get_reg(o) != 0) fail("register", "register %d outside the range reads as non-zero", o);
		probe("probe.register-out-of-range");
		return;
	}
	size_t i = R.regs.size();
	lin::Op op;
	op.task = p.proc->id; op.all = lin::ANY; op.killed = false; op.ret = 0; op.call = seq();
	lin::Sub s;
	s.kind = set ? lin::INSERT : lin::READ; s.key = reg; s.val = 0; s.res = lin::ANY;
	int v = 0;
	if (set) { v = R.nextreg < 240 ? R.nextreg++ : 239; s.val = v; R.regval[regnum(v)] = v; }
	op.subs.push_back(s);
	R.regs.push_back(op);
	if (set) { q->set_reg(reg, regnum(v)); R.regs[i].subs[0].res = 1; }
	else
	{
		uint32_t x = q->get_reg(reg);
		int id = x == 0 ? (int) lin::ABSENT : R.regval.count(x) ? R.regval[x] : (int) lin::BAD;
		R.regs[i].subs[0].res = id;
	}
	R.regs[i].ret = seq();
	ev("reg", reg, set, R.regs[i].subs[0].res);
}
static void check_regs()
{
	lin::Spec sp = { 12, 12, R.crash };
	std::string e = lin::check(R.regs, sp);
	if (!e.empty()) fail("register", "registers: %s", e.c_str());
}

// ------------------------------------------------------------------ checks over the history
static std::string boxname(int b) { return fmt("box %d of process %s (flush @%llu-%llu)", b, proc_get(R.boxes[b].writer)->name.c_str(), (unsigned long long) R.boxes[b].begin, (unsigned long long) R.boxes[b].end); }

static void check_history()
{
	int n = R.boxes.size();
	int missing = 0;
	// boxes with content that were flushed and never came out
	std::vector<int> miss;
	for (int b = 0; b < n; ++b)
		if (R.boxes[b].begin && !R.boxes[b].msgs.empty() && !R.boxes[b].received && !R.boxes[b].killed) miss.push_back(b);
	missing = miss.size();
	int slack = R.crash ? R.dead_readers : 0;
	int lost = 0;
	for (size_t i = 0; i < miss.size(); ++i)
	{
		Box &x = R.boxes[miss[i]];
		// upper bound of the occupancy at any instant of its flush
		bool could = false;
		if (!R.nodrop)
		{
			std::vector<u64> ts(1, x.begin);
			for (int b = 0; b < n; ++b) if (R.boxes[b].begin > x.begin && R.boxes[b].begin < x.end) ts.push_back(R.boxes[b].begin + 1);
			for (size_t k = 0; k < ts.size() && !could; ++k)
			{
				int occ = 0;
				for (int b = 0; b < n; ++b)
				{
					Box &y = R.boxes[b];
					if (b == miss[i] || !y.begin || y.begin >= ts[k] + 0 || y.msgs.empty()) continue;
					if (y.received) { if (y.ue > ts[k]) ++occ; }
					else if (y.killed) ++occ;
				}
				occ += std::min(slack, missing - 1);
				if (occ >= R.len - 1) could = true;
			}
		}
		if (could) { stat("probe.box-dropped"); continue; }
		++lost;
		if (lost > slack)
			fail("lost", "%s never came out although the ring of %d had room%s", boxname(miss[i]).c_str(), R.len, R.crash ? " and no reader died taking it" : "");
	}
	// order
	for (int a = 0; a < n; ++a)
	{
		Box &x = R.boxes[a];
		if (!x.received || !x.end) continue;
		if (x.ue && x.ue < x.begin) fail("order", "%s came out before it was flushed", boxname(a).c_str());
		for (int b = 0; b < n; ++b)
		{
			Box &y = R.boxes[b];
			if (b == a || !y.received || y.begin < x.end) continue;
			if (y.ue < x.ub) fail("order", "%s came out before the earlier %s", boxname(b).c_str(), boxname(a).c_str());
		}
	}
	if (R.crash) return;
	// lower bound of the number of boxes in the ring: stored for certain, minus everything readers may have taken
	auto least = [n](u64 t, int except) {
		int occ = 0;
		for (int b = 0; b < n; ++b) if (b != except && R.boxes[b].received && R.boxes[b].end && R.boxes[b].end < t) ++occ;
		for (size_t j = 0; j < R.unfs.size(); ++j) if (R.unfs[j].result && R.unfs[j].begin < t) --occ;
		return occ;
	};
	// stored although the ring was full all the time
	for (int a = 0; a < n && !R.nodrop; ++a)
	{
		Box &x = R.boxes[a];
		if (!x.received || !x.end) continue;
		std::vector<u64> ts(1, x.begin);
		for (size_t k = 0; k < R.unfs.size(); ++k) if (R.unfs[k].result && R.unfs[k].begin > x.begin && R.unfs[k].begin < x.end) ts.push_back(R.unfs[k].begin + 1);
		bool room = false;
		for (size_t k = 0; k < ts.size() && !room; ++k) if (least(ts[k], a) < R.len - 1) room = true;
		if (!room) fail("overfull", "%s was stored although the ring of %d was full", boxname(a).c_str(), R.len);
	}
	// empty-handed although something was there
	for (size_t i = 0; i < R.unfs.size(); ++i)
	{
		Unf &u = R.unfs[i];
		if (u.result || u.intr || !u.end) continue;
		// when exactly it looked is unknown, so there must have been a box all the time
		bool bad = least(u.begin, -1) > 0;
		for (size_t j = 0; j < R.unfs.size() && bad; ++j) if (R.unfs[j].result && R.unfs[j].begin > u.begin && R.unfs[j].begin < u.end) bad = least(R.unfs[j].begin + 1, -1) > 0;
		if (R.idle_clock)
		{
			if (u.nowait && u.te != u.tb) fail("timeout", "a non-waiting unflush took %lld ns", (long long) (u.te - u.tb));
			// time only passes when everybody waits: it was waiting up to the last event before its limit
			u64 last = 0;
			for (int b = 0; b < n && !u.nowait; ++b) if (R.boxes[b].received && R.boxes[b].end > u.begin && R.boxes[b].end < u.end && R.boxes[b].te < u.tb + u.usec * 1000ll) last = std::max(last, R.boxes[b].end + 1);
			if (last)
			{
				for (size_t j = 0; j < R.unfs.size(); ++j) if (R.unfs[j].begin < u.end && R.unfs[j].tb < u.tb + u.usec * 1000ll) last = std::max(last, R.unfs[j].begin + 1);
				if (least(last, -1) > 0) bad = true;
			}
		}
		if (bad) fail("false-empty", "process %s found no box (unflush @%llu-%llu) although one was there", proc_get(u.reader)->name.c_str(), (unsigned long long) u.begin, (unsigned long long) u.end);
	}
}

static void mark_killed()
{
	for (size_t i = 0; i < R.ps.size(); ++i)
	{
		if (R.ps[i].proc->alive) continue;
		int id = R.ps[i].proc->id;
		for (size_t b = 0; b < R.boxes.size(); ++b) if (R.boxes[b].writer == id && R.boxes[b].begin && !R.boxes[b].end) { R.boxes[b].killed = true; ++R.dead_writers; }
		for (size_t u = 0; u < R.unfs.size(); ++u) if (R.unfs[u].reader == id && !R.unfs[u].end) { R.unfs[u].killed = true; ++R.dead_readers; }
		for (size_t r = 0; r < R.regs.size(); ++r) if (R.regs[r].task == id && !R.regs[r].ret) R.regs[r].killed = true;
	}
}

// ------------------------------------------------------------------ phases
struct Cfg { int nproc, nops, nreg; bool regs, empties; int w_put, w_flush, w_unfl, w_reg; };
static Cfg base_cfg()
{
	Cfg c;
	memset(&c, 0, sizeof c);
	c.nproc = range(2, 4);
	c.nops = range(3, c.nproc == 2 ? 14 : 9);
	c.w_put = range(1, 4); c.w_flush = range(1, 5); c.w_unfl = range(1, 5); c.w_reg = 0;
	c.nreg = range(1, 3);
	return c;
}
// what a process does to one queue concerns no other queue
static const char *OWNKEYS[] = { "/sim/own0.key", "/sim/own1.key", "/sim/own2.key", "/sim/own3.key" };
static std::deque<int> ownbox[4];
static std::map<int, uint32_t> ownreg[4];
static void own_op(P &p, int who)
{
	IQ *q = p.own;
	std::deque<int> &ref = ownbox[who];
	switch (draw(5))
	{
	case 0: case 1:
	{
		int id = R.next++;
		if (!q->put(id)) fail("put", "put is refused although the box has room");
		q->flush();
		if ((int) ref.size() < R.len - 1) ref.push_back(id);
		break;
	}
	case 2:
	{
		bool r = p.ownr->unflush(true, 0);
		if (r != !ref.empty()) fail("own", "the process's own queue %s", r ? "gives a box though none is there" : "gives no box though one is there");
		if (!r) break;
		int id = p.ownr->get();
		if (id != ref.front()) fail("own", "the process's own queue gives message %d instead of %d", id, ref.front());
		if (p.ownr->get()) fail("own", "the process's own queue gives a second message");
		ref.pop_front();
		break;
	}
	case 3: if (q->count() != (int) ref.size()) fail("own", "the process's own queue has %d boxes instead of %zu", q->count(), ref.size()); break;
	case 4:
	{
		int i = draw(12);
		if (q->get_reg(i) != ownreg[who][i]) fail("own", "register %d of the process's own queue reads otherwise", i);
		q->set_reg(i, ownreg[who][i] = regnum(1 + draw(200)));
	}
	}
	probe("probe.own-queue");
}
static void do_op(P &p, const Cfg &c, int role)
{
	if (p.own && draw(2)) own_op(p, &p - &R.ps[0]);
	// role 0 both, 1 writer, 2 reader
	int w[] = { role != 2 ? c.w_put : 0, role != 2 ? c.w_flush : 0, role != 1 ? c.w_unfl : 0, c.w_reg };
	int tot = w[0] + w[1] + w[2] + w[3];
	if (!tot) return;
	int x = draw(tot), k = 0;
	while (x >= w[k]) x -= w[k++];
	switch (k)
	{
	case 0: do_put(p); break;
	case 1:
		if (p.cur < 0 || R.boxes[p.cur].msgs.empty()) { if (!c.empties) do_put(p); else if (draw(3)) do_put(p); }
		do_flush(p, false, 0);
		break;
	case 2:
		if (draw(3) == 2) do_unflush(p, false, draw_timeout());
		else do_unflush(p, true, 0);
		break;
	case 3: reg_op(p, draw(2) ? p.w : p.r, c.nreg); break;
	}
}
static void serial(const char *what, P *p, const std::function<void()> &f)
{
	Sched keep = sched;
	bool kk = killing_allowed;
	killing_allowed = false;
	sched.switch_num = 0; sched.weak = 0; sched.intr_den = 0;
	spawn(p->proc, p->proc->name + what, f);
	Go g = go();
	sched = keep;
	killing_allowed = kk;
	if (g == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
}
static void connect_both(P *p, const char *when)
{
	connect_ok(p->w, p->proc, when);
	connect_ok(p->r, p->proc, when);
}
static void phase_connect()
{
	for (size_t i = 0; i < R.ps.size(); ++i) { P *p = &R.ps[i]; serial(".connect", p, [p]() { connect_both(p, "with nobody else connecting"); }); }
}
static void drain(P *p)
{
	for (int i = 0; i < 600; ++i) if (!do_unflush(*p, true, 0)) return;
	fail("drain", "the queue never becomes empty");
}
// a fresh process empties the queue; accounting must agree
static void phase_drain(const char *when)
{
	P *a = add_proc("auditor");
	faults_disable();
	int dead = R.crash ? kills() : 0;
	serial("", a, [a, dead, when]() {
		connect_both(a, when);
		int before = a->r->count();
		if (before < 0) fail("count", "the number of boxes cannot be read: %d", before);
		if (before != a->w->pages()) fail("count", "boxes_in_queue() is %d, pages_used() %d", before, a->w->pages());
		size_t n0 = R.unfs.size();
		drain(a);
		int got = R.unfs.size() - n0 - 1;
		if (got != before) fail("count", "%d boxes reported, %d obtained", before, got);
		if (a->r->count() != 0) fail("count", "%d boxes reported in the empty queue", a->r->count());
		// boxes held back by a death come out behind further ones
		for (int i = 0; i < dead; ++i)
		{
			do_put(*a);
			do_flush(*a, false, 0);
			drain(a);
		}
		a->r->disconnect();
		a->w->disconnect();
	});
	if (R.crash)
	{
		// the last boxes flushed may be the ones that are late now
		int late = 0;
		for (size_t b = R.boxes.size(); b-- > 0 && late < dead;)
			if (R.boxes[b].writer == R.ps.back().proc->id && R.boxes[b].begin && !R.boxes[b].received) { R.boxes[b].killed = true; ++late; }
	}
	else if (R.nodrop && R.empties_got != R.empties_flushed) fail("lost", "%d empty boxes flushed, %d received", R.empties_flushed, R.empties_got);
	if (!R.nodrop && R.empties_got > R.empties_flushed + R.dead_readers) fail("corrupt", "%d boxes without any message were received, %d flushed", R.empties_got, R.empties_flushed);
}
static void go_ok() { if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str()); }

static void spawn_all(const Cfg &c, int roles)
{
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		int role = roles == 0 ? 0 : i % 2 == 0 ? 1 : 2;
		p->t = spawn(p->proc, names[i], [p, &c, role]() { for (int k = 0; k < c.nops; ++k) do_op(*p, c, role); });
	}
}

// ------------------------------------------------------------------ Q01
static void run_q01()
{
	bool nodrop = draw(2) == 1;
	begin_run(nodrop ? 64 : 4, nodrop ? 64 : 12);
	R.nodrop = nodrop;
	Cfg c = base_cfg();
	c.empties = nodrop && draw(4) == 3;
	c.w_reg = draw(3) == 2;
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	if (draw(8) == 7)
		for (int i = 0; i < c.nproc; ++i)
		{
			P *p = &R.ps[i];
			ipc_keyfile(OWNKEYS[i], true);
			ownbox[i].clear(); ownreg[i].clear();
			p->own = R.make(); p->ownr = R.make();
			serial(".own", p, [p, i]() {
				try { p->own->connect(OWNKEYS[i], R.bs, R.len); p->ownr->connect(OWNKEYS[i], R.bs, R.len); }
				catch (const std::exception &e) { fail("own", "connect to a second queue failed: %s", e.what()); }
			});
		}
	int rounds = range(1, 2);
	for (int r = 0; r < rounds; ++r)
	{
		spawn_all(c, draw(2));
		go_ok();
		if (draw(2))
		{
			// everybody leaves, unread boxes stay
			probe("probe.all-disconnected");
			for (size_t i = 0; i < R.ps.size(); ++i)
			{
				P *p = &R.ps[i];
				serial(".leave", p, [p]() {
					if (p->cur >= 0) do_flush(*p, false, 0);
					if (draw(2)) { p->w->disconnect(); p->r->disconnect(); }
					else { p->w->destroy(); p->r->destroy(); p->w = R.make(); p->r = R.make(); }
				});
			}
			if (r + 1 < rounds) phase_connect();
		}
	}
	phase_drain("at rest");
	check_history();
	check_regs();
}
SIM_PROP(Q01, run_q01);

// ------------------------------------------------------------------ Q02
static void run_q02()
{
	begin_run(4, 10);
	R.crash = true;
	Cfg c = base_cfg();
	c.w_reg = draw(2);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	int nvict = range(1, c.nproc > 2 ? 2 : 1);
	killing_allowed = true;
	int roles = draw(2);
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		int role = roles == 0 ? 0 : i % 2 == 0 ? 1 : 2;
		int at = i < nvict ? (int) draw(c.nops) : -1;
		u32 g = i < nvict ? loggap(300) : 0;
		spawn(p->proc, names[i], [p, &c, role, at, g]() {
			for (int k = 0; k < c.nops; ++k)
			{
				if (k == at && g) arm_kill(p->proc, g - 1);
				do_op(*p, c, role);
			}
		});
	}
	Go g = go();
	mark_killed();
	if (g == STUCK) fail("stuck", "after %d deaths, blocked for ever: %s", kills(), stuck_list().c_str());
	if (kills()) probe("probe.crash-runs");
	killing_allowed = false;
	// the survivors go on working
	if (draw(2))
	{
		for (int i = 0; i < c.nproc; ++i)
		{
			P *p = &R.ps[i];
			if (!p->proc->alive) continue;
			spawn(p->proc, p->proc->name + "'", [p, &c]() { for (int k = 0; k < 3; ++k) do_op(*p, c, 0); });
		}
		go_ok();
	}
	phase_drain("after deaths");
	check_history();
	check_regs();
}
SIM_PROP(Q02, run_q02);

// ------------------------------------------------------------------ Q03
static void run_q03()
{
	begin_run(4, 10);
	Cfg c = base_cfg();
	c.w_reg = draw(3);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	bool early = draw(3) == 2;
	if (!early) phase_connect();
	sched.intr_den = range(1, 6);
	sched.intr_budget = range(1, 12);
	int roles = draw(2);
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		int role = roles == 0 ? 0 : i % 2 == 0 ? 1 : 2;
		spawn(p->proc, names[i], [p, &c, role, early]() {
			if (early)
			{
				// a connect that is interrupted either waits on or reports it and can be repeated
				IQ *q[2] = { p->w, p->r };
				for (int k = 0; k < 2; ++k)
					for (int tries = 0;; ++tries)
					{
						int ic = cur()->intr_count;
						try { q[k]->connect(KEYFILE, R.bs, R.len); break; }
						catch (const std::exception &e)
						{
							if (cur()->intr_count == ic) fail("connect", "connect failed although nothing went wrong: %s", e.what());
							stat("probe.connect-interrupted");
							if (tries > 40) fail("connect", "connect never succeeds");
						}
					}
			}
			for (int k = 0; k < c.nops; ++k)
			{
				int ic = cur()->intr_count;
				try { do_op(*p, c, role); }
				catch (const std::exception &e)
				{
					(void) ic;
					fail("error", "an operation threw after an interruption: %s", e.what());
				}
			}
		});
	}
	go_ok();
	sched.intr_den = 0;
	phase_drain("after interruptions");
	check_history();
	check_regs();
}
SIM_PROP(Q03, run_q03);

// ------------------------------------------------------------------ Q04
static void run_q04()
{
	begin_run(8, 32);
	Cfg c = base_cfg();
	c.empties = false;
	c.nproc = range(2, 4);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	int nw = range(1, c.nproc - 1);
	bool intr = draw(4) == 3;
	if (intr) { sched.intr_den = 4; sched.intr_budget = 4; }
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		if (i < nw)
		{
			int n = range(0, 5);
			p->proc->intr_ok = false;
			spawn(p->proc, names[i], [p, n]() {
				for (int k = 0; k < n; ++k)
				{
					static const i64 d[] = { 0, 1000, 999000, 1000000, 100000000, 99999000, 1000000000, 2500000000ll, 59999999000ll, 3600000000000ll };
					i64 s = d[draw(10)];
					if (s) sleep_ns(s);
					do_put(*p);
					do_flush(*p, false, 0);
				}
			});
		}
		else
		{
			int n = range(1, 5);
			spawn(p->proc, names[i], [p, n]() {
				for (int k = 0; k < n; ++k)
				{
					bool nowait = draw(5) == 4;
					long us = nowait ? 0 : draw(8) == 7 ? 0 : draw_timeout();
					size_t at = R.unfs.size();
					i64 t0 = now_ns;
					bool r = do_unflush(*p, nowait, us);
					// other readers may have appended meanwhile: find ours
					Unf *u = NULL;
					for (size_t j = at; j < R.unfs.size(); ++j) if (R.unfs[j].reader == p->proc->id) u = &R.unfs[j];
					if (!u) fail("harness", "lost record");
					if (!r && !u->intr && !nowait)
					{
						stat("probe.timed-out");
						i64 want = us * 1000ll;
						if (u->te - t0 < want) fail("timeout", "unflush gave up after %lld ns instead of %lld", (long long) (u->te - t0), (long long) want);
						if (R.idle_clock && u->te - t0 > want) fail("timeout", "unflush gave up only after %lld ns instead of %lld", (long long) (u->te - t0), (long long) want);
					}
					if (!r && u->intr && R.idle_clock && !nowait && u->te - t0 > us * 1000ll) fail("timeout", "an interrupted unflush took %lld ns, longer than its limit", (long long) (u->te - t0));
					if (r && R.idle_clock && u->box >= 0)
					{
						i64 since = std::max(t0, R.boxes[u->box].tb);
						if (u->te != since) fail("timeout", "a reader received a box %lld ns after it was there", (long long) (u->te - since));
					}
					if (r && u->te > t0) stat("probe.woken-by-arrival");
				}
			});
		}
	}
	go_ok();
	sched.intr_den = 0;
	phase_drain("at rest");
	check_history();
}
SIM_PROP(Q04, run_q04);

// ------------------------------------------------------------------ Q05
static void run_q05()
{
	begin_run(6, 16);
	Cfg c = base_cfg();
	c.nops = range(2, 5);
	c.w_reg = draw(3) == 2;
	int rounds = range(1, 2);
	int roles = draw(2);
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = add_proc(names[i]);
		p->proc->uid = draw(2) ? i : 0;
		int role = roles == 0 ? 0 : i % 2 == 0 ? 1 : 2;
		spawn(p->proc, names[i], [p, &c, rounds, role]() {
			for (int r = 0; r < rounds; ++r)
			{
				if (role != 2 || draw(2)) connect_both(p, "while others connect too");
				else { connect_ok(p->r, p->proc, "while others connect too"); connect_ok(p->w, p->proc, "while others connect too"); }
				for (int k = 0; k < c.nops; ++k) do_op(*p, c, role);
				if (r + 1 < rounds)
				{
					if (p->cur >= 0) do_flush(*p, false, 0);
					p->w->disconnect(); p->r->disconnect();
				}
			}
		});
	}
	go_ok();
	if (ipc_segments() > 1 || ipc_semsets() > 1) fail("split", "%d segments and %d semaphore sets for one queue", ipc_segments(), ipc_semsets());
	// the lock still excludes
	if (draw(2)) { spawn_all(c, roles); go_ok(); }
	phase_drain("after racing first connects");
	check_history();
	check_regs();
}
SIM_PROP(Q05, run_q05);

// ------------------------------------------------------------------ Q09
// processes die while they connect, the one that creates the queue among them
static void stuck_after_death()
{
	if (ipc_died_newborn())
	{
		// recorded as a known finding; one run in 64 reports it
		if (draw(64)) discard();
		fail("creator-died", "the process that created the semaphore set died before its next system call, and the queue stays locked for ever: %s", stuck_list().c_str());
	}
	fail("stuck", "after %d deaths while connecting, blocked for ever: %s", kills(), stuck_list().c_str());
}
static void run_q09()
{
	begin_run(4, 10);
	Cfg c = base_cfg();
	c.nproc = range(2, 4);
	c.nops = range(2, 5);
	c.w_reg = draw(2);
	bool exists = draw(2);
	if (exists)
	{
		P *o = add_proc("O");
		spawn(o->proc, "O", [o, &c]() { connect_both(o, "with nobody else connecting"); for (int k = 0; k < c.nops; ++k) do_op(*o, c, 0); if (o->cur >= 0) do_flush(*o, false, 0); if (draw(2)) { o->w->disconnect(); o->r->disconnect(); } });
		go_ok();
	}
	int nvict = range(1, c.nproc - 1);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	killing_allowed = true;
	bool serial_ = draw(3) == 2;
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[R.ps.size() - c.nproc + i];
		u32 g = i < nvict ? loggap(80) : 0;
		spawn(p->proc, names[i], [p, &c, g]() {
			if (g) arm_kill(p->proc, g - 1);
			connect_both(p, "while processes die connecting");
			p->proc->kill_in = INT64_MAX / 2;
			for (int k = 0; k < c.nops; ++k) do_op(*p, c, 0);
		});
		if (serial_ && go() == STUCK) stuck_after_death();
	}
	if (!serial_ && go() == STUCK) stuck_after_death();
	if (kills()) probe("probe.crash-runs");
	killing_allowed = false;
	if (ipc_segments() > 1 || ipc_semsets() > 1) fail("split", "%d segments and %d semaphore sets for one queue", ipc_segments(), ipc_semsets());
	phase_drain("after deaths while connecting");
	check_history();
	check_regs();
}
SIM_PROP(Q09, run_q09);

// ------------------------------------------------------------------ Q06
static void run_q06()
{
	begin_run(6, 12);
	Cfg c = base_cfg();
	c.nproc = range(1, 3);
	c.nops = range(2, 7);
	c.w_reg = draw(3) == 2;
	bool first = draw(3) == 2;                // the faulty process may be the creator
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i])->proc->intr_ok = false;
	ipc.faults = true;
	ipc.faulty_procs = 0;
	if (!first) phase_connect();
	sched.intr_den = draw(2) ? 4 : 0;
	sched.intr_budget = 3;
	faults_enable(range(1, 3), 12);
	int nf = range(1, 2);
	for (int f = 0; f < nf; ++f)
	{
		P *p = add_proc(f ? "Y" : "X");
		ipc.faulty_procs |= 1ull << p->proc->id;
		alloc_cfg.faults = true;
		alloc_cfg.procs = ipc.faulty_procs;
		int tries = range(1, 3);
		int odd = first ? 0 : draw(4);       // 0,1: same shape; 2: no key file; 3: other shape
		int obs = R.bs, olen = R.len;
		if (odd == 3)
			switch (draw(5))
			{
			case 0: obs += 1; break;
			case 1: obs = obs > 4 ? obs - 1 : obs + 2; break;
			case 2: olen += 1; break;
			case 3: olen -= 1; break;
			case 4: std::swap(obs, olen); if (obs == olen) ++olen; break;
			}
		spawn(p->proc, f ? "Y" : "X", [p, tries, odd, obs, olen, &c]() {
			IQ *q = p->w;
			bool ok = false;
			int t;
			for (t = 0; t < tries; ++t)
			{
				int f0 = faults.fired, i0 = cur()->intr_count;
				try
				{
					q->connect(odd == 2 ? KEYFILE2 : KEYFILE, obs, olen);
					if (odd >= 2) fail("connect", "connect to %s succeeded", odd == 2 ? "a missing key file" : "a queue of another shape");
					ok = true;
					break;
				}
				catch (const std::exception &e)
				{
					if (odd < 2 && faults.fired == f0 && cur()->intr_count == i0) fail("connect", "connect failed although nothing went wrong: %s", e.what());
					stat("probe.connect-failed");
					ev("connect-failed"); note(e.what());
					if (ipc_attached(p->proc)) fail("attachment", "%d attachment(s) left after a failed connect (%s)", ipc_attached(p->proc), e.what());
				}
			}
			ipc.faulty_procs &= ~(1ull << p->proc->id);
			alloc_cfg.procs = ipc.faulty_procs;
			alloc_cfg.faults = ipc.faulty_procs != 0;
			p->proc->intr_ok = false;
			if (!ok)
			{
				try { q->connect(KEYFILE, R.bs, R.len); }
				catch (const std::exception &e) { fail("connect", "connect after %d failed one(s) does not succeed any more: %s", t, e.what()); }
			}
			connect_ok(p->r, p->proc, "after failed connects");
			for (int k = 0; k < c.nops; ++k) do_op(*p, c, 0);
			if (p->cur >= 0) do_flush(*p, false, 0);
			if (ipc_attached(p->proc) != 2) fail("attachment", "%d attachments with two connected objects", ipc_attached(p->proc));
			if (draw(2)) { p->w->disconnect(); p->r->disconnect(); }
			else { p->w->destroy(); p->r->destroy(); p->w = R.make(); p->r = R.make(); }
			if (ipc_attached(p->proc)) fail("attachment", "%d attachment(s) left after disconnecting", ipc_attached(p->proc));
		});
	}
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		spawn(p->proc, names[i], [p, &c, first]() {
			if (first) connect_both(p, "while another process's connect fails");
			for (int k = 0; k < c.nops; ++k) do_op(*p, c, 0);
		});
	}
	go_ok();
	faults_disable();
	sched.intr_den = 0;
	phase_drain("after failed connects");
	check_history();
	check_regs();
}
SIM_PROP(Q06, run_q06);

// ------------------------------------------------------------------ Q07
static void run_q07()
{
	begin_run(3, 8);
	Cfg c = base_cfg();
	c.w_reg = 8; c.nreg = range(1, 12);
	c.nops = range(2, c.nproc == 2 ? 9 : 6);
	c.w_put = 1; c.w_flush = draw(4); c.w_unfl = draw(4);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	{
		IQ *q = R.ps[0].w;
		if (q->nregs() != 12) fail("register", "registers_number() is %d", q->nregs());
	}
	bool rejoin = draw(3) == 2;
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		spawn(p->proc, names[i], [p, &c, rejoin]() {
			for (int k = 0; k < c.nops; ++k)
			{
				do_op(*p, c, 0);
				if (rejoin && draw(4) == 3)
				{
					if (p->cur >= 0) do_flush(*p, false, 0);
					p->w->disconnect(); p->r->disconnect();
					connect_both(p, "again");
				}
			}
		});
	}
	go_ok();
	P *a = add_proc("late");
	serial("", a, [a]() {
		connect_both(a, "at rest");
		for (int r = 0; r < 12; ++r)
		{
			lin::Op op;
			op.task = a->proc->id; op.all = lin::ANY; op.killed = false; op.call = seq();
			lin::Sub s;
			s.kind = lin::READ; s.key = r; s.val = 0;
			uint32_t x = a->w->get_reg(r);
			s.res = x == 0 ? (int) lin::ABSENT : R.regval.count(x) ? R.regval[x] : (int) lin::BAD;
			op.subs.push_back(s);
			op.ret = seq();
			R.regs.push_back(op);
		}
	});
	phase_drain("at rest");
	check_regs();
	check_history();
}
SIM_PROP(Q07, run_q07);

// ------------------------------------------------------------------ Q08
// rings and boxes of realistic sizes, used in turns
static void big_q08()
{
	begin_run(2, 4);
	sched.switch_num = 0; sched.weak = 0; sched.jump_den = 0;
	sched.max_strong = sched.max_weak = ~0ull;
	static const int lens[] = { 257, 300, 1000, 20, 30000, 5, 129, 32766 }, bss[] = { 64, 300, DEFAULT_BOX_SIZE, 70000, 40, 200000, 4096, 40 };
	int pick = draw(8);
	R.len = lens[pick]; R.bs = bss[pick];
	if ((pick == 3 || pick == 5) && draw(2)) { R.make = mk<66004>; R.msz = 66004; }
	if (pick == 7) R.len += draw(2) ? (int) draw(4) : (int) draw(1000);
	static size_t most; most = std::min(R.len - 1, 32767);          // a semaphore counts up to 32767
	static std::deque<std::vector<int> > ring; ring.clear();
	static std::vector<uint32_t> regs; regs.assign(12, 0);
	static int next; next = 1;
	int np = range(1, 2), turns = range(2, R.len > 2000 ? 3 : 8);
	for (int i = 0; i < np; ++i) add_proc(names[i]);
	static bool on[4]; for (int i = 0; i < 4; ++i) on[i] = false;
	for (int t = 0; t < turns; ++t)
	{
		int pi = draw(np), what = t == 0 ? 0 : draw(3), cnt = draw(3) == 2 ? range(1, R.len) : R.len + 3, again = draw(4) == 3, reg = draw(12);
		P *p = &R.ps[pi];
		int cap = R.bs / R.msz, per = draw(2) ? 1 : range(1, std::min(cap, R.len > 2000 ? 2 : 12)), whole = cap * R.len < 100000 && R.len < 200 && draw(3) == 2;
		spawn(p->proc, p->proc->name, [=]() {
			if (again && on[pi]) { p->r->disconnect(); p->w->disconnect(); on[pi] = false; }
			if (!on[pi]) { connect_ok(p->w, p->proc, "with nobody else connecting"); connect_ok(p->r, p->proc, "with nobody else connecting"); on[pi] = true; }
			if (what != 1) for (int i = 0; i < cnt; ++i)
			{
				std::vector<int> b;
				int m = whole ? cap : per;
				for (int k = 0; k < m; ++k) { int id = next++; if (!p->w->put(id)) fail("put", "message %d of a box with room for %d is refused", k, cap); b.push_back(id); }
				p->w->flush();
				if (ring.size() < most) ring.push_back(b);
			}
			if (p->r->count() != (int) ring.size() || p->r->pages() != (int) ring.size()) fail("count", "%d boxes reported, %zu are in the ring of %d", p->r->count(), ring.size(), R.len);
			if (p->r->get_reg(reg) != regs[reg]) fail("register", "register %d changed", reg);
			regs[reg] = 0x10000 * (t + 1) + reg; p->r->set_reg(reg, regs[reg]);
			if (what != 0) for (int i = 0; i < cnt; ++i)
			{
				bool got = p->r->unflush(true, 0);
				if (got != !ring.empty()) fail("unflush", "unflush says %d with %zu boxes in the ring of %d", got, ring.size(), R.len);
				if (!got) break;
				for (size_t k = 0; k < ring.front().size(); ++k) { int id = p->r->get(); if (id != ring.front()[k]) fail("order", "message %d of a box is %d instead of %d", (int) k, id, ring.front()[k]); }
				if (p->r->get()) fail("value", "a message that was not put");
				ring.pop_front();
			}
		});
		if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
		ev("turn", what, ring.size());
	}
	stat("probe.big-ring");
	nontrivial();
}
// rings of more than 4 GB: a few boxes, or, rarely, once past the 4 GB
static void huge_q08(bool all)
{
	begin_run(2, 4);
	sched.switch_num = 0; sched.weak = 0; sched.jump_den = 0;
	sched.max_strong = sched.max_weak = ~0ull;
	static const int lens[] = { 515, 65537, 4100, 2051 }, bss[] = { 8 << 20, 65536, 1 << 20, 2 << 20 };
	int pick = draw(4);
	R.len = lens[pick]; R.bs = bss[pick];
	int np = all ? 1 : range(1, 2), cycles = range(1, 6), depth = range(1, 3);
	static int next, taken; next = taken = 0;
	for (int i = 0; i < np; ++i) add_proc(names[i]);
	P *w = &R.ps[0], *r = &R.ps[np - 1];
	spawn(w->proc, w->proc->name, [=]() { connect_ok(w->w, w->proc, "with nobody else connecting"); });
	go_ok();
	spawn(r->proc, r->proc->name, [=]() { connect_ok(r->r, r->proc, "with nobody else connecting"); });
	go_ok();
	auto writes = [=]() {
		for (int i = 0; i < depth && next - taken < depth + 1; ++i)
		{
			++next;
			if (!w->w->put(next)) fail("put", "a message is refused by an empty box");
			w->w->flush();
		}
	};
	auto reads = [=](int n) {
		if (r->r->count() != next - taken) fail("count", "%d boxes reported, %d are in the ring", r->r->count(), next - taken);
		for (; n; --n)
		{
			if (!r->r->unflush(true, 0)) fail("lost", "box %d is lost", taken + 1);
			int id = r->r->get();
			if (id != ++taken) fail("order", "box %d holds %d", taken, id);
		}
	};
	if (all) spawn(w->proc, w->proc->name, [=]() { for (int c = 0; c < R.len + 3; ++c) { writes(); reads(next - taken); ipc_compact(); } });
	else for (int c = 0; c < cycles; ++c)
	{
		spawn(w->proc, w->proc->name, writes);
		go_ok();
		int n = c + 1 < cycles ? range(1, next - taken) : next - taken;
		spawn(r->proc, r->proc->name, [=]() { reads(n); });
		go_ok();
		ipc_compact();
	}
	go_ok();
	stat(all ? "probe.huge-ring-whole" : "probe.huge-ring");
	nontrivial();
}
static void run_q08()
{
	int big = draw(250000);
	if (big >= 249998) return huge_q08(big == 249999);
	if (big % 2500 == 2499) return huge_q08(false);
	if (draw(400) == 399) return big_q08();
	begin_run(2, 4);
	Cfg c = base_cfg();
	c.nops = range(4, c.nproc == 2 ? 24 : 12);
	c.w_put = 1; c.w_flush = range(3, 8); c.w_unfl = range(1, 6);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	spawn_all(c, draw(2));
	go_ok();
	phase_drain("at rest");
	check_history();
	if (draw(2))
	{
		// room is usable again up to the last place
		P *a = add_proc("refill");
		bool nd = R.nodrop;
		serial("", a, [a]() {
			connect_both(a, "at rest");
			for (int round = 0; round < 2; ++round)
			{
				for (int i = 0; i < R.len - 1; ++i) { do_put(*a); do_flush(*a, false, 0); }
				if (a->r->count() != R.len - 1) fail("lost", "an empty ring of %d took only %d boxes", R.len, a->r->count());
				drain(a);
			}
		});
		R.nodrop = nd;
		check_history();
	}
}
SIM_PROP(Q08, run_q08);
