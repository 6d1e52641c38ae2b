// coda::synque under simulated threads: S01..S03
#include "../sim/sim.hpp"
#include "../sim/pth.hpp"
#include "../sim/alloc.hpp"
#include <sys/types.h>
#include <coda/synque.hpp>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <limits.h>
#ifndef SSIZE_MIN
#define SSIZE_MIN (-SSIZE_MAX - 1)
#endif
#include <string.h>
#include <unordered_set>

using namespace sim;

static bool copy_faults;
struct CopyError {};
static void maybe_throw()
{
	if (!copy_faults) return;
	OutSut o;
	if (inject_flag("element-copy")) throw CopyError();
}
// an element with a checksum, of a size that makes the deque allocate often
template <int PAD> struct Elem
{
	uint32_t id, sum;
	uint32_t pad[PAD];
	Elem() : id(0), sum(0) { memset(pad, 0, sizeof pad); }
	explicit Elem(uint32_t i) { set(i); }
	void set(uint32_t i) { id = i; sum = i * 2654435761u; for (int k = 0; k < PAD; ++k) pad[k] = i + k; }
	Elem(const Elem &o) { maybe_throw(); copy(o); }
	Elem &operator=(const Elem &o) { maybe_throw(); copy(o); return *this; }
	void copy(const Elem &o) { id = o.id; sum = o.sum; for (int k = 0; k < PAD; ++k) pad[k] = o.pad[k]; }
	bool good() const { if (sum != id * 2654435761u || !id) return false; for (int k = 0; k < PAD; ++k) if (pad[k] != id + k) return false; return true; }
};
enum Err { NONE, THROWN };
struct IQ
{
	virtual ~IQ() {}
	virtual int add(int id) = 0;                                   // 0, -2 thrown
	virtual void signal() = 0;
	virtual int get(int &id, int canwait) = 0;                     // 0, -1, -2 thrown; id -1 damaged
	virtual int getn(std::vector<int> &ids, ssize_t max, int canwait) = 0;
	virtual int size() = 0;
};
template <int PAD> struct QT : IQ
{
	typedef Elem<PAD> E;
	coda::synque<E> *q;
	QT() { InSut s; q = new coda::synque<E>; }
	~QT() { bool k = copy_faults; copy_faults = false; { InSut s; delete q; } copy_faults = k; }
	int add(int id)
	{
		E e(id);
		try { InSut s; q->add(e); return 0; }
		catch (const CopyError &) { return -2; }
		catch (const std::bad_alloc &) { return -2; }
	}
	void signal() { InSut s; q->signal(); }
	static int wait_arg(int canwait) { static const int W[] = { 1, 1, 1, 2, -1, 256 }; return canwait ? W[draw(6)] : 0; }   // any value but zero waits
	int get(int &id, int canwait)
	{
		E e;
		int r;
		canwait = wait_arg(canwait);
		try { InSut s; r = q->get(e, canwait); }
		catch (const CopyError &) { return -2; }
		catch (const std::bad_alloc &) { return -2; }
		id = r == 0 ? (e.good() ? (int) e.id : -1) : 0;
		return r;
	}
	int getn(std::vector<int> &ids, ssize_t max, int canwait)
	{
		int r = 0;
		// the container is the caller's, but grows inside the call
		std::deque<E> out;
		canwait = wait_arg(canwait);
		// it may hold something already
		int pre = chance(1, 4) ? (int) range(1, 3) : 0;
		{ bool k = alloc_cfg.faults; alloc_cfg.faults = false; try { for (int i = 0; i < pre; ++i) out.push_back(E(900000 + i)); } catch (const CopyError &) { out.clear(); pre = 0; } alloc_cfg.faults = k; }
		try { InSut s; r = q->get(out, max, canwait); }
		catch (const CopyError &) { r = -2; }
		catch (const std::bad_alloc &) { r = -2; }
		if (out.size() < (size_t) pre) fail("caller-elements", "a batch get removed elements from the caller's container");
		for (int i = 0; i < pre; ++i) if (!out[i].good() || (int) out[i].id != 900000 + i) fail("caller-elements", "a batch get changed elements already in the caller's container");
		for (size_t i = pre; i < out.size(); ++i) ids.push_back(out[i].good() ? (int) out[i].id : -1);
		{ bool k = alloc_cfg.faults; alloc_cfg.faults = false; out.clear(); alloc_cfg.faults = k; }
		return r;
	}
	int size() { InSut s; return q->size(); }
};
typedef IQ *(*mkq)();
template <int PAD> static IQ *mk() { return new QT<PAD>; }
static const mkq makers[] = { mk<1>, mk<30>, mk<200> };

// ------------------------------------------------------------------ history
enum Kind { ADD, GET, GETN, SIZE, SIGNAL };
struct Op
{
	Kind kind;
	int task, arg, wait, res;      // arg: element or maximum
	std::vector<int> out;
	u64 call, ret;
	bool intr;
};
static struct Run
{
	IQ *q;
	std::vector<Op> h;
	int next, nthreads;
	bool stop;                     // threads end after the call they are in
	std::set<int> failed;
} R;
static std::string opname(const Op &o)
{
	std::string s;
	switch (o.kind)
	{
	case ADD: s = fmt("add(%d)=%d", o.arg, o.res); break;
	case GET: s = fmt("get(%s)=%d", o.wait ? "wait" : "nowait", o.res); break;
	case GETN: s = fmt("get(max %d,%s)=%d", o.arg, o.wait ? "wait" : "nowait", o.res); break;
	case SIZE: s = fmt("size()=%d", o.res); break;
	case SIGNAL: s = "signal()"; break;
	}
	for (size_t i = 0; i < o.out.size(); ++i) s += fmt("%s%d", i ? "," : " -> ", o.out[i]);
	return fmt("[t%d @%llu-%llu ", o.task, (unsigned long long) o.call, (unsigned long long) o.ret) + s + "]";
}

// FIFO refinement: is there an order of the calls, respecting real time, in which a plain queue gives these results?
typedef std::vector<uint8_t> St;
struct Node { u64 m[2]; St s; bool operator==(const Node &o) const { return m[0] == o.m[0] && m[1] == o.m[1] && s == o.s; } };
struct NH { size_t operator()(const Node &n) const { u64 h = n.m[0] * 0x9E3779B97F4A7C15ull ^ n.m[1]; for (size_t i = 0; i < n.s.size(); ++i) h = (h ^ n.s[i]) * 1099511628211ull; return h; } };
struct Out { const Op *op; int pos; };
static std::vector<Out> outs;                 // per element: where it came out
static bool pure(const Op &o) { return o.kind == SIZE || o.res == -1 || (o.res == -2 && o.out.empty()); }
static bool step(const Op &o, St &s)
{
	switch (o.kind)
	{
	case ADD:
		if (o.res) return true;
		if (!s.empty())
		{
			// prune: the one in front has to come out first
			const Out &a = outs[s.back()], &b = outs[o.arg];
			if (a.op == b.op ? a.pos > b.pos : b.op->ret < a.op->call) return false;
		}
		s.push_back(o.arg);
		return true;
	case GET:
		if (o.res == -2) return true;
		if (o.res == -1) return s.empty();
		if (s.empty() || s[0] != o.out[0]) return false;
		s.erase(s.begin());
		return true;
	case GETN:
		if (o.res == -1) return s.empty();
		{
			size_t want = s.size();
			if (o.arg > 0 && (size_t) o.arg < want) want = o.arg;
			if (o.res == 0 && (o.out.size() != want || !want)) return false;
			if (o.res == -2 && o.out.size() > want) return false;
			for (size_t i = 0; i < o.out.size(); ++i) if (s[i] != o.out[i]) return false;
			s.erase(s.begin(), s.begin() + o.out.size());
		}
		return true;
	case SIZE: return (int) s.size() == o.res;
	case SIGNAL: return true;
	}
	return false;
}
static void check_fifo()
{
	std::vector<Op> h;
	for (size_t i = 0; i < R.h.size(); ++i) if (R.h[i].ret && R.h[i].kind != SIGNAL) h.push_back(R.h[i]);
	// adds in flight cannot exist at the end; blocked gets have no effect
	size_t n = h.size();
	outs.assign(256, Out());
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < h[i].out.size(); ++k) { outs[h[i].out[k]].op = &h[i]; outs[h[i].out[k]].pos = k; }
	if (n > 128) fail("harness", "history too long");
	std::unordered_set<Node, NH> seen;
	std::vector<Node> stack;
	Node s0; s0.m[0] = s0.m[1] = 0;
	stack.push_back(s0);
	seen.insert(s0);
	size_t best = 0; u64 steps = 0;
	while (!stack.empty())
	{
		Node x = stack.back();
		stack.pop_back();
		size_t done = __builtin_popcountll(x.m[0]) + __builtin_popcountll(x.m[1]);
		best = std::max(best, done);
		if (done == n) return;
		if (++steps > 400000) { stat("inconclusive.fifo"); return; }
		u64 lim = ~0ull;
		for (size_t i = 0; i < n; ++i) if (!(x.m[i >> 6] >> (i & 63) & 1)) lim = std::min(lim, h[i].ret);
		// calls without effect go first as soon as their result fits
		bool quick = false;
		for (size_t i = 0; i < n && !quick; ++i)
		{
			if ((x.m[i >> 6] >> (i & 63) & 1) || h[i].call > lim || !pure(h[i])) continue;
			Node y = x;
			if (!step(h[i], y.s)) continue;
			y.m[i >> 6] |= 1ull << (i & 63);
			if (seen.insert(y).second) stack.push_back(y);
			quick = true;
		}
		for (size_t i = n; i-- > 0 && !quick;)
		{
			if ((x.m[i >> 6] >> (i & 63) & 1) || h[i].call > lim) continue;
			Node y = x;
			if (!step(h[i], y.s)) continue;
			y.m[i >> 6] |= 1ull << (i & 63);
			if (seen.insert(y).second) stack.push_back(y);
		}
	}
	std::string d;
	for (size_t i = 0; i < n; ++i) d += (i ? "; " : "") + opname(h[i]);
	fail("fifo", "no order of the calls explains the results (best explains %zu of %zu): %s", best, n, d.substr(0, 3000).c_str());
}
// cheap checks first: clearer messages
static void check_basic()
{
	std::set<int> seen;
	for (size_t i = 0; i < R.h.size(); ++i)
		for (size_t k = 0; k < R.h[i].out.size(); ++k)
		{
			int id = R.h[i].out[k];
			if (id < 0 || id >= R.next) fail("corrupt", "a damaged element came out: %s", opname(R.h[i]).c_str());
			if (R.failed.count(id)) fail("corrupt", "element %d came out although its add failed", id);
			if (!seen.insert(id).second) fail("duplicate", "element %d came out twice", id);
		}
	for (size_t i = 0; i < R.h.size(); ++i) if (R.h[i].kind == ADD && R.h[i].ret && R.h[i].res == 0 && !seen.count(R.h[i].arg)) fail("lost", "element %d never came out", R.h[i].arg);
}
// a get that may wait comes back without an element only for a reason
static void check_waits()
{
	for (size_t i = 0; i < R.h.size(); ++i)
	{
		Op &o = R.h[i];
		if ((o.kind != GET && o.kind != GETN) || !o.wait || o.res != -1 || o.intr) continue;
		bool reason = false;
		for (size_t j = 0; j < R.h.size() && !reason; ++j) if ((R.h[j].kind == ADD || R.h[j].kind == SIGNAL) && R.h[j].call < o.ret && (!R.h[j].ret || R.h[j].ret > o.call)) reason = true;
		if (!reason) fail("wait", "a waiting get came back empty-handed without an element, a signal or a spurious wake-up: %s", opname(o).c_str());
	}
}

// ------------------------------------------------------------------ operations
static int rec(Kind k, int task)
{
	Op o;
	o.kind = k; o.task = task; o.arg = o.wait = o.res = 0; o.call = seq(); o.ret = 0; o.intr = false;
	R.h.push_back(o);
	return R.h.size() - 1;
}
static void do_add(int t)
{
	int id = R.next++;
	int i = rec(ADD, t);
	R.h[i].arg = id;
	int r = R.q->add(id);
	R.h[i].res = r; R.h[i].ret = seq();
	if (r) R.failed.insert(id);
	ev("add", id, r);
}
static int do_get(int t, int wait)
{
	int i = rec(GET, t);
	R.h[i].wait = wait;
	int ic = cur()->intr_count, id = 0;
	int r = R.q->get(id, wait);
	Op &o = R.h[i];
	o.res = r; o.ret = seq(); o.intr = cur()->intr_count != ic;
	if (r == 0) o.out.push_back(id);
	if (r != 0 && r != -1 && r != -2) fail("result", "get returned %d", r);
	ev("get", r, id);
	return r;
}
static int do_getn(int t, int max, int wait)
{
	int i = rec(GETN, t);
	R.h[i].wait = wait; R.h[i].arg = max;
	int ic = cur()->intr_count;
	std::vector<int> out;
	int r = R.q->getn(out, max, wait);
	Op &o = R.h[i];
	o.res = r; o.ret = seq(); o.intr = cur()->intr_count != ic; o.out = out;
	if (r == -1 && !out.empty()) fail("result", "a failing get returned elements");
	ev("getn", r, out.size());
	return r;
}
static void do_size(int t)
{
	int i = rec(SIZE, t);
	int r = R.q->size();
	R.h[i].res = r; R.h[i].ret = seq();
	ev("size", r);
}
static void do_signal(int t)
{
	int i = rec(SIGNAL, t);
	R.q->signal();
	R.h[i].ret = seq();
}
static void begin_run()
{
	sched_default();
	sched.hook_all = true;
	R.h.clear(); R.h.reserve(300); R.failed.clear();
	R.next = 1; R.stop = false;
	copy_faults = false;
	R.q = makers[draw(3)]();
}
static int draw_max() { static const int m[] = { 0, 1, 2, 3, 100, -1 }; return m[draw(6)]; }

static int waiters()
{
	int n = 0;
	for (int i = 0; i < task_count(); ++i) { Task *t = task_get(i); if (!task_done(t) && task_blocked(t)) ++n; }
	return n;
}
// everybody is finished or waits in get
static void at_rest(const char *when)
{
	std::string names;
	for (int i = 0; i < task_count(); ++i)
	{
		Task *t = task_get(i);
		if (task_done(t)) continue;
		if (!pth_in_cond(t)) fail("stuck", "%s, thread %s is blocked for ever in %s", when, t->name.c_str(), t->what ? t->what : "?");
		names += " " + t->name;
	}
	if (pth_held()) fail("stuck", "%s, a lock is still held", when);
}
static int one(const std::function<void()> &f)
{
	Sched keep = sched;
	sched.switch_num = 0; sched.weak = 0; sched.intr_den = 0;
	Task *t = spawn(proc_get(0), "main", f);
	go();
	if (!task_done(t)) fail("stuck", "a call that must not wait is blocked in %s", t->what ? t->what : "?");
	sched = keep;
	return 0;
}
// release all who still wait, empty the queue
static void finish(bool strand)
{
	at_rest("at rest");
	int left = waiters();
	one([]() { do_size(99); });
	int sz = R.h.back().res;
	if (left && sz && strand) fail("stranded", "%d element(s) are queued while %d thread(s) wait for ever", sz, left);
	if (left) stat("probe.waiters-at-end", left);
	int guard = 0;
	while ((left = waiters()))
	{
		one([]() { do_signal(99); });
		at_rest("after a signal");
		int now = waiters();
		if (now >= left) fail("signal", "a signal woke none of %d waiting threads", left);
		// an element must not be taken by the signal
		if (++guard > 64) fail("signal", "threads keep waiting");
	}
	one([]() { for (int i = 0; i < 200; ++i) { if (draw(2) ? do_getn(99, draw_max(), 0) : do_get(99, 0)) return; } });
	check_basic();
	check_waits();
	check_fifo();
	delete R.q;
	R.q = NULL;
	if (alloc_live()) fail("leak", "%zu block(s) left allocated after destruction: %s", alloc_live(), alloc_live_list().c_str());
}

// ------------------------------------------------------------------ S01
// many elements: threads that take turns
static void big_s01()
{
	begin_run();
	sched.switch_num = 0; sched.weak = 0;
	sched.max_strong = sched.max_weak = ~0ull;
	static std::deque<int> ref; ref.clear();
	static int next; next = 1;
	bool huge = chance(1, 20);
	int turns = range(2, huge ? 3 : 8);
	for (int t = 0; t < turns; ++t)
		one([huge]() {
			int n = huge ? range(65530, 66000) : chance(1, 2) ? range(250, 270) : range(1, 2000);
			int what = next == 1 ? 0 : draw(4);
			if (what < 2) for (int i = 0; i < n; ++i) { int id = next++; if (R.q->add(id)) fail("history", "add fails"); ref.push_back(id); }
			int sz = R.q->size();
			if (sz != (int) ref.size()) fail("history", "size() is %d, %zu elements are in the queue", sz, ref.size());
			if (what == 2) for (int i = 0; i < n; ++i)
			{
				int id = 0, r = R.q->get(id, 0);
				if ((r == 0) != !ref.empty()) fail("history", "get returns %d with %zu elements in the queue", r, ref.size());
				if (r) break;
				if (id != ref.front()) fail("history", "get delivers element %d instead of %d", id, ref.front());
				ref.pop_front();
			}
			if (what == 3)
			{
				static const ssize_t ALL[] = { -1, 0, 1l << 32, (1l << 40) + 1, SSIZE_MAX, SSIZE_MIN };
				ssize_t max = chance(1, 2) ? n : ALL[draw(6)];
				std::vector<int> out;
				int r = R.q->getn(out, max, 0);
				if ((r == 0) != !ref.empty()) fail("history", "a batch get returns %d with %zu elements in the queue", r, ref.size());
				size_t want = max > 0 && (size_t) max < ref.size() ? max : ref.size();
				if (out.size() != want) fail("history", "a batch get of up to %zd delivers %zu of %zu elements", max, out.size(), ref.size());
				for (int id : out) { if (id != ref.front()) fail("history", "a batch get delivers element %d instead of %d", id, ref.front()); ref.pop_front(); }
			}
		});
	delete R.q;
	R.q = NULL;
	sim::stat("probe.big-queue");
	nontrivial();
}
static void run_s01()
{
	if (chance(1, 3000)) return big_s01();
	begin_run();
	R.nthreads = range(2, 5);
	int nops = range(2, R.nthreads <= 3 ? 9 : 6);
	int wadd = range(1, 3), wget = range(1, 3), wgetn = draw(3), wsize = draw(3), wwait = draw(3) == 2 ? 1 : 0;
	int pre = draw(4);
	one([pre]() { for (int i = 0; i < pre; ++i) do_add(99); });
	for (int t = 0; t < R.nthreads; ++t)
	{
		spawn(proc_get(0), fmt("t%d", t), [=]() {
			for (int k = 0; k < nops && !R.stop; ++k)
			{
				int x = draw(wadd + wget + wgetn + wsize);
				if (x < wadd) do_add(t);
				else if (x < wadd + wget) do_get(t, wwait && draw(4) == 3);
				else if (x < wadd + wget + wgetn) do_getn(t, draw_max(), wwait && draw(4) == 3);
				else do_size(t);
			}
		});
	}
	go();
	R.stop = true;
	finish(true);
}
SIM_PROP(S01, run_s01);

// ------------------------------------------------------------------ S02
static void run_s02()
{
	begin_run();
	int nc = range(1, 4), np = range(1, 3);
	bool spurious = draw(3) == 2;
	if (spurious) { sched.intr_den = range(1, 6); sched.intr_budget = range(1, 6); }
	bool signals = draw(2);
	int want = range(1, 5);
	for (int t = 0; t < nc; ++t)
		spawn(proc_get(0), fmt("c%d", t), [=]() {
			for (int k = 0; k < want && !R.stop; ++k)
			{
				if (draw(3) == 2) do_getn(t, draw_max(), 1);
				else if (draw(6) == 5) do_get(t, 0);
				else do_get(t, 1);
			}
		});
	for (int t = 0; t < np; ++t)
	{
		int n = range(0, 6);
		spawn(proc_get(0), fmt("p%d", t), [=]() {
			for (int k = 0; k < n; ++k)
			{
				if (signals && draw(4) == 3) do_signal(10 + t);
				else do_add(10 + t);
			}
		});
	}
	go();
	R.stop = true;
	sched.intr_den = 0;
	at_rest("at rest");
	// one more element is enough for one waiter
	int left = waiters();
	if (left && draw(2))
	{
		int adds = range(1, 3);
		one([adds]() { for (int i = 0; i < adds; ++i) do_add(98); });
		int now = waiters();
		stat("probe.woken-by-add");
		if (now > left - 1) fail("stranded", "an element was added and none of %d waiting threads returned", left);
	}
	finish(true);
}
SIM_PROP(S02, run_s02);

// ------------------------------------------------------------------ S03
static void run_s03()
{
	begin_run();
	R.nthreads = range(1, 4);
	int nops = range(2, R.nthreads == 1 ? 20 : 8);
	bool waits = draw(3) == 2;
	alloc_cfg.faults = true;
	copy_faults = true;
	int pre = draw(6);
	bool fault_pre = draw(2);
	if (fault_pre) faults_enable(range(1, 4), 30);
	one([pre]() { for (int i = 0; i < pre; ++i) do_add(99); });
	if (!fault_pre) faults_enable(range(1, 4), 60);
	// waiting consumers, some of which fail to copy what they were woken for
	int nc = draw(4) == 3 ? range(2, 4) : 0;
	if (nc) { R.nthreads = nc + range(1, 2); faults_enable(range(1, 4), range(2, 12)); }
	for (int t = 0; t < nc; ++t)
		spawn(proc_get(0), fmt("t%d", t), [=]() { for (int k = range(1, 2); k && !R.stop; --k) if (draw(3) == 2) do_getn(t, draw_max(), 1); else do_get(t, 1); });
	for (int t = nc; t < R.nthreads; ++t)
		spawn(proc_get(0), fmt("t%d", t), [=]() {
			for (int k = 0; k < (nc ? 3 : nops) && !R.stop; ++k)
			{
				int x = draw(nc ? 4 : 6);
				if (x < 3) do_add(t);
				else if (x == 3) do_get(t, waits && draw(3) == 2);
				else if (x == 4) do_getn(t, draw_max(), waits && draw(3) == 2);
				else do_size(t);
			}
		});
	go();
	R.stop = true;
	faults_disable();
	alloc_cfg.faults = false;
	copy_faults = false;
	if (R.failed.size()) stat("probe.failed-add");
	finish(true);
}
SIM_PROP(S03, run_s03);
