// shm::hash_map under simulated processes: M01..M07
#include "../sim/sim.hpp"
#include "../sim/ipc.hpp"
#include "../sim/lin.hpp"
#include <map>
#include <coda/shm_hash_map.hpp>
#include <algorithm>
#include <errno.h>
#include <set>
#include <string.h>

using namespace sim;

// ------------------------------------------------------------------ values: a number spread over the whole object
static inline uint8_t vbyte(unsigned id, int i) { return (uint8_t) (id * 37 + i * 11 + 1); }

template <int SZ> struct Val
{
	uint32_t w[SZ / 4];
	Val() {}
	Val(const Val &o) { for (int i = 0; i < SZ / 4; ++i) w[i] = o.w[i]; }
	Val &operator=(const Val &o) { for (int i = 0; i < SZ / 4; ++i) w[i] = o.w[i]; return *this; }
	void set(unsigned id) { for (int i = 0; i < SZ / 4; ++i) w[i] = id * 2654435761u + i * 40503u; }
	// value id, or BAD
	int get(unsigned maxid) const
	{
		for (unsigned id = 1; id <= maxid; ++id)
			if (w[0] == id * 2654435761u)
			{
				for (int i = 1; i < SZ / 4; ++i) if (w[i] != id * 2654435761u + i * 40503u) return lin::BAD;
				return id;
			}
		return lin::BAD;
	}
};

static unsigned g_maxid;

struct IMap
{
	virtual ~IMap() {}
	virtual void connect(const char *f) = 0;
	virtual void disconnect() = 0;
	virtual bool is_connected() = 0;
	virtual int read(uint64_t k, bool raw) = 0;               // value id, ABSENT or BAD
	virtual bool insert(uint64_t k, int id, bool raw) = 0;
	virtual bool insertv(const std::vector<uint64_t> &k, const std::vector<int> &id) = 0;
	virtual bool erase(uint64_t k, bool raw) = 0;
	virtual bool erasev(const std::vector<uint64_t> &k) = 0;
	virtual void clear() = 0;
	virtual int size() = 0;
	virtual int capacity() = 0;
	virtual void lock(bool w) = 0;
	virtual void unlock(bool w) = 0;
	virtual bool iterate(std::vector<std::pair<uint64_t, int> > &out, int limit) = 0;
	virtual IMap *clone() = 0;                                  // what a forked child has
	virtual void destroy() = 0;                                 // runs the destructor
	virtual int n() = 0;
	virtual int h() = 0;
};

template <int N, int H, int SZ> struct MapT : IMap
{
	typedef Val<SZ> V;
	typedef shm::hash_map<V, N, H> M;
	M *m;
	MapT() { m = new M; }
	MapT(M *x) { m = x; }
	void connect(const char *f) { InSut s; m->connect(f); }
	void disconnect() { InSut s; m->disconnect(); }
	bool is_connected() { InSut s; return m->is_connected(); }
	int read(uint64_t k, bool raw)
	{
		V v; v.set(250); bool r;
		{ InSut s; r = raw ? m->unprotected_read(k, v) : m->read(k, v); }
		return r ? v.get(g_maxid) : (int) lin::ABSENT;
	}
	bool insert(uint64_t k, int id, bool raw) { V v; v.set(id); InSut s; return raw ? m->unprotected_insert(k, v) : m->insert(k, v); }
	bool insertv(const std::vector<uint64_t> &k, const std::vector<int> &id)
	{
		typename M::pair few[8], *p = few;
		std::vector<typename M::pair> many;
		if (k.size() > 8) { many.resize(k.size()); p = &many[0]; }
		for (size_t i = 0; i < k.size(); ++i) { p[i].key = k[i]; p[i].value.set(id[i]); }
		InSut s;
		return m->insert(p, k.size());
	}
	bool erase(uint64_t k, bool raw) { InSut s; return raw ? m->unprotected_erase(k) : m->erase(k); }
	bool erasev(const std::vector<uint64_t> &k)
	{
		uint64_t few[8], *p = few;
		std::vector<uint64_t> many;
		if (k.size() > 8) { many.resize(k.size()); p = &many[0]; }
		for (size_t i = 0; i < k.size(); ++i) p[i] = k[i];
		InSut s;
		return m->erase(p, k.size());
	}
	void clear() { InSut s; m->clear(); }
	int size() { InSut s; return m->size(); }
	int capacity() { InSut s; return m->capacity(); }
	void lock(bool w) { InSut s; if (w) m->lock_write_rw(); else m->lock_read_rw(); }
	void unlock(bool w) { InSut s; if (w) m->unlock_write_rw(); else m->unlock_read_rw(); }
	bool iterate(std::vector<std::pair<uint64_t, int> > &out, int limit)
	{
		InSut s;
		for (typename M::const_iterator i = m->begin(); i != m->end(); ++i)
		{
			if (limit-- == 0) return false;
			V v = i.value();
			uint64_t k = i.key();
			OutSut o;
			out.push_back(std::make_pair(k, v.get(g_maxid)));
		}
		return true;
	}
	IMap *clone() { M *x = (M *) operator new(sizeof(M)); memcpy((void *) x, (void *) m, sizeof(M)); return new MapT(x); }
	void destroy() { InSut s; delete m; m = NULL; }
	int n() { return N; }
	int h() { return H; }
};

typedef IMap *(*mkmap)();
template <int N, int H, int SZ> static IMap *mk() { return new MapT<N, H, SZ>; }
static const mkmap shapes[] = {
	mk<2, 1, 4>, mk<1, 1, 12>, mk<3, 2, 24>, mk<4, 3, 8>, mk<2, 2, 40>, mk<5, 1, 16>, mk<3, 7, 4>, mk<8, 4, 12> };
enum { NSHAPES = sizeof shapes / sizeof shapes[0] };
// shapes that differ from every one above, some needing less, some more room
static const mkmap others[] = { mk<6, 2, 4>, mk<2, 5, 4>, mk<2, 1, 20>, mk<200, 64, 40> };
// for each shape above one that differs only in buckets, value size or capacity
static const mkmap near[][6] = {
#define NEAR(N, H, S) { mk<N, (H > 1 ? H - 1 : 2), S>, mk<N, H, (S > 4 ? S - 4 : 8)>, mk<(N > 1 ? N - 1 : 2), H, S>, mk<N, H + 1, S>, mk<N, H, S + 4>, mk<N + 1, H, S> }
	NEAR(2, 1, 4), NEAR(1, 1, 12), NEAR(3, 2, 24), NEAR(4, 3, 8), NEAR(2, 2, 40), NEAR(5, 1, 16), NEAR(3, 7, 4), NEAR(8, 4, 12) };
enum { NOTHERS = sizeof others / sizeof others[0] };

// ------------------------------------------------------------------ one run
struct Cfg
{
	int nproc, nops, nkeys;
	bool kills, eintr, sections, batches, reconnect, iterate, precon;
	int w_read, w_insert, w_erase, w_clear, w_size, w_batch, w_section;
};
struct P
{
	Proc *proc;
	IMap *m;
	Task *t;
	bool in_wsec, in_rsec;
	uint64_t sec_from;
	IMap *own;                                   // a map of its own, under another key (M01)
	bool alive() { return proc->alive; }
};
static struct Run
{
	mkmap make;
	int shape, n;
	std::vector<uint64_t> keys;
	std::vector<lin::Op> hist;
	std::vector<P> ps;
	int nextval;
	bool sections_monitored;
} R;

static const char *KEYFILE = "/sim/map.key";
static const char *KEYFILE2 = "/sim/missing.key";

static int newval() { return R.nextval < 240 ? (g_maxid = R.nextval, R.nextval++) : 239; }
static int keyidx(uint64_t k) { for (size_t i = 0; i < R.keys.size(); ++i) if (R.keys[i] == k) return i; return -1; }

static void begin_run(bool full = false)
{
	sched_default();
	ipc.random_wake = draw(2);
	R.shape = draw(full ? NSHAPES - 1 : (int) NSHAPES);
	R.make = shapes[R.shape];
	R.hist.clear();
	R.hist.reserve(160);
	R.ps.clear();
	R.ps.reserve(MAXPROC);
	R.nextval = 1; g_maxid = 0;
	R.sections_monitored = true;
	IMap *x = R.make();
	R.n = x->n();
	int h = x->h();
	delete x;
	// keys: some collide in one bucket, some not, some have the same low half
	R.keys.clear();
	int nk = full ? R.n + range(1, 2) : range(2, 5);
	for (int i = 0; i < nk; ++i)
	{
		uint64_t k;
		switch (draw(4))
		{
		case 0: k = i * h; break;
		case 1: k = i; break;
		case 2: k = (uint64_t) i << 32; break;
		default: k = ~0ull - i * (draw(2) ? h : 1); break;
		}
		while (std::find(R.keys.begin(), R.keys.end(), k) != R.keys.end()) k += h;
		R.keys.push_back(k);
	}
	ipc_keyfile(KEYFILE, true);
	ipc_keyfile(KEYFILE2, false);
}

static P *add_proc(const char *name)
{
	P p;
	memset(&p, 0, sizeof p);
	p.proc = proc_new(name);
	p.m = R.make();
	R.ps.push_back(p);
	return &R.ps.back();
}

// ---- recording
static size_t op_begin(P &p)
{
	lin::Op o;
	o.task = p.proc->id; o.call = seq(); o.ret = 0; o.all = lin::ANY; o.killed = false;
	R.hist.push_back(o);
	return R.hist.size() - 1;
}
static lin::Sub sub(lin::Kind k, int key, int val, int res) { lin::Sub s; s.kind = k; s.key = key; s.val = val; s.res = res; return s; }

// an operation that ran entirely while another process was inside its write section
static void monitor(P &p, uint64_t call, const char *what, bool is_write_or_wlock)
{
	for (size_t i = 0; i < R.ps.size(); ++i)
	{
		P &q = R.ps[i];
		if (&q == &p || !q.alive()) continue;
		if (q.in_wsec && call > q.sec_from)
			fail("exclusion", "%s of process %s completed while process %s held the write lock", what, p.proc->name.c_str(), q.proc->name.c_str());
		if (q.in_rsec && is_write_or_wlock && call > q.sec_from)
			fail("exclusion", "%s of process %s completed while process %s held a read lock", what, p.proc->name.c_str(), q.proc->name.c_str());
	}
}
static void op_end(P &p, size_t i, const char *what, bool wr)
{
	R.hist[i].ret = seq();
	note(lin::show(std::vector<lin::Op>(1, R.hist[i])));
	ev("ret", R.hist[i].all, R.hist[i].subs.empty() ? 0 : R.hist[i].subs[0].res);
	monitor(p, R.hist[i].call, what, wr);
}

static void check_iter(const std::vector<std::pair<uint64_t, int> > &out, lin::Sub &u)
{
	u.iter.assign(R.keys.size(), lin::ABSENT);
	for (size_t i = 0; i < out.size(); ++i)
	{
		int k = keyidx(out[i].first);
		if (k < 0) fail("iteration", "iteration visits key %llu that was never stored", (unsigned long long) out[i].first);
		if (u.iter[k] != lin::ABSENT) fail("iteration", "iteration visits key %d twice", k);
		u.iter[k] = out[i].second;
	}
}

static bool expected_error;   // set by profiles in which operations may legitimately throw

// one ordinary operation
static void do_op(P &p, const Cfg &c)
{
	int w[] = { c.w_read, c.w_insert, c.w_erase, c.w_size, c.w_clear, c.batches ? c.w_batch : 0, c.sections ? c.w_section : 0 };
	int tot = 0;
	for (size_t i = 0; i < sizeof w / sizeof w[0]; ++i) tot += w[i];
	int x = draw(tot), k = 0;
	while (x >= w[k]) x -= w[k++];
	int key = draw(c.nkeys);
	size_t i = (size_t) -1;
	try
	{
		switch (k)
		{
		case 0:
			i = op_begin(p);
			R.hist[i].subs.push_back(sub(lin::READ, key, 0, lin::ANY));
			{ int r = p.m->read(R.keys[key], false); R.hist[i].subs[0].res = r; }
			op_end(p, i, "read", false);
			break;
		case 1:
		{
			int v = newval();
			i = op_begin(p);
			R.hist[i].subs.push_back(sub(lin::INSERT, key, v, lin::ANY));
			bool r = p.m->insert(R.keys[key], v, false);
			R.hist[i].subs[0].res = r;
			if (!r) probe("probe.insert-refused");
			op_end(p, i, "insert", true);
			break;
		}
		case 2:
			i = op_begin(p);
			R.hist[i].subs.push_back(sub(lin::ERASE, key, 0, lin::ANY));
			{ bool r = p.m->erase(R.keys[key], false); R.hist[i].subs[0].res = r; }
			op_end(p, i, "erase", true);
			break;
		case 3:
			i = op_begin(p);
			R.hist[i].subs.push_back(sub(lin::SIZE, 0, 0, lin::ANY));
			{ int r = p.m->size(); R.hist[i].subs[0].res = r; }
			op_end(p, i, "size", false);
			break;
		case 4:
			i = op_begin(p);
			R.hist[i].subs.push_back(sub(lin::CLEAR, 0, 0, lin::ANY));
			p.m->clear();
			op_end(p, i, "clear", true);
			break;
		case 5:
		{
			int n = range(1, 3);
			std::vector<uint64_t> ks;
			std::vector<int> vs;
			bool er = draw(3) == 2;
			i = op_begin(p);
			for (int j = 0; j < n; ++j)
			{
				int kk = draw(c.nkeys), v = er ? 0 : newval();
				ks.push_back(R.keys[kk]); vs.push_back(v);
				R.hist[i].subs.push_back(sub(er ? lin::ERASE : lin::INSERT, kk, v, lin::ANY));
			}
			bool r = er ? p.m->erasev(ks) : p.m->insertv(ks, vs);
			R.hist[i].all = r;
			op_end(p, i, er ? "batch erase" : "batch insert", true);
			break;
		}
		case 6:
		{
			bool wr = draw(2);
			int n = range(1, 3);
			i = op_begin(p);
			uint64_t call = R.hist[i].call;
			p.m->lock(wr);
			ev("section", wr);
			monitor(p, call, wr ? "write lock" : "read lock", wr);
			p.sec_from = seq();
			(wr ? p.in_wsec : p.in_rsec) = true;
			for (int j = 0; j < n; ++j)
			{
				int kk = draw(c.nkeys);
				int op = wr ? draw(4) : (draw(2) ? 3 : 0);
				if (op == 3 && !c.iterate) op = 0;
				lin::Sub u = sub(lin::READ, kk, 0, lin::ANY);
				if (op == 0) { R.hist[i].subs.push_back(u); int r = p.m->read(R.keys[kk], true); R.hist[i].subs.back().res = r; }
				else if (op == 1)
				{
					u.kind = lin::INSERT; u.val = newval();
					R.hist[i].subs.push_back(u);
					bool r = p.m->insert(R.keys[kk], u.val, true);
					R.hist[i].subs.back().res = r;
				}
				else if (op == 2) { u.kind = lin::ERASE; R.hist[i].subs.push_back(u); bool r = p.m->erase(R.keys[kk], true); R.hist[i].subs.back().res = r; }
				else
				{
					u.kind = lin::ITER;
					std::vector<std::pair<uint64_t, int> > out;
					if (!p.m->iterate(out, 64)) fail("iteration", "iteration does not end");
					check_iter(out, u);
					R.hist[i].subs.push_back(u);
					probe("probe.iterate");
				}
				if (draw(2)) point("in-section");
			}
			(wr ? p.in_wsec : p.in_rsec) = false;
			p.m->unlock(wr);
			R.hist[i].ret = seq();
			ev("section-end");
			note(lin::show(std::vector<lin::Op>(1, R.hist[i])));
			break;
		}
		}
	}
	catch (const std::exception &e)
	{
		if (!expected_error) fail("error", "operation threw although nothing failed: %s", e.what());
		// refused: no effect at all (the entry stays, unnumbered, until drop_refused)
		ev("refused");
		stat("probe.operation-refused");
		if (p.in_wsec || p.in_rsec) fail("error", "a call under a held lock failed: %s", e.what());
		R.hist[i].task = -1;
	}
}

static void connect_ok(P &p, const char *when)
{
	try { p.m->connect(KEYFILE); }
	catch (const std::exception &e) { fail("connect", "connect of process %s failed %s: %s", p.proc->name.c_str(), when, e.what()); }
	if (!p.m->is_connected()) fail("connect", "connect of process %s returned but the map is not connected", p.proc->name.c_str());
}

static void drop_refused()
{
	std::vector<lin::Op> h;
	for (size_t i = 0; i < R.hist.size(); ++i) if (R.hist[i].task >= 0) h.push_back(R.hist[i]);
	R.hist.swap(h);
}

static void finish(Go g, bool crash)
{
	drop_refused();
	if (g == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	lin::Spec sp = { (int) R.keys.size(), R.n, crash };
	std::string e = lin::check(R.hist, sp);
	if (!e.empty()) fail("history", "%s", e.c_str());
}

static void mix(Cfg &c)
{
	c.w_read = range(1, 6); c.w_insert = range(1, 6); c.w_erase = range(0, 4);
	c.w_size = draw(3); c.w_clear = draw(2); c.w_batch = draw(4); c.w_section = draw(4);
	c.nkeys = R.keys.size();
}


// ------------------------------------------------------------------ phases
// every process of R.ps connects, one after the other
static void phase_connect()
{
	Sched keep = sched;
	sched.switch_num = 0; sched.weak = 0;
	for (size_t i = 0; i < R.ps.size(); ++i)
	{
		P *p = &R.ps[i];
		spawn(p->proc, p->proc->name + ".connect", [p]() { connect_ok(*p, "with nobody else connecting"); });
		if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	}
	keep.max_strong = sched.max_strong; keep.max_weak = sched.max_weak;
	sched = keep;
}

static void audit(P *p, int rounds)
{
	// all keys, size, iteration
	size_t i = op_begin(*p);
	for (size_t k = 0; k < R.keys.size(); ++k)
	{
		R.hist[i].subs.push_back(sub(lin::READ, k, 0, lin::ANY));
	}
	p->m->lock(false);
	for (size_t k = 0; k < R.keys.size(); ++k) { int r = p->m->read(R.keys[k], true); R.hist[i].subs[k].res = r; }
	lin::Sub u = sub(lin::ITER, 0, 0, lin::ANY);
	std::vector<std::pair<uint64_t, int> > out;
	if (!p->m->iterate(out, 64)) fail("iteration", "iteration does not end");
	check_iter(out, u);
	R.hist[i].subs.push_back(u);
	p->m->unlock(false);
	op_end(*p, i, "audit", false);
	i = op_begin(*p);
	R.hist[i].subs.push_back(sub(lin::SIZE, 0, 0, lin::ANY));
	{ int r = p->m->size(); R.hist[i].subs[0].res = r; }
	op_end(*p, i, "size", false);
	for (int n = 0; n < rounds; ++n)
	{
		// insert every key, then erase every key
		for (size_t k = 0; k < R.keys.size(); ++k)
		{
			i = op_begin(*p);
			int v = newval();
			R.hist[i].subs.push_back(sub(lin::INSERT, k, v, lin::ANY));
			bool r = p->m->insert(R.keys[k], v, false);
			R.hist[i].subs[0].res = r;
			op_end(*p, i, "insert", true);
		}
		i = op_begin(*p);
		R.hist[i].subs.push_back(sub(lin::SIZE, 0, 0, lin::ANY));
		{ int r = p->m->size(); R.hist[i].subs[0].res = r; }
		op_end(*p, i, "size", false);
		for (size_t k = 0; k < R.keys.size(); ++k)
		{
			i = op_begin(*p);
			R.hist[i].subs.push_back(sub(lin::ERASE, k, 0, lin::ANY));
			bool r = p->m->erase(R.keys[k], false);
			R.hist[i].subs[0].res = r;
			op_end(*p, i, "erase", true);
		}
	}
}

// a process that was not there before connects when all is quiet and looks at everything
static void phase_audit(int rounds, const char *when)
{
	P *a = add_proc("auditor");
	sched.intr_den = 0;
	killing_allowed = false;
	bool save = expected_error;
	expected_error = false;
	spawn(a->proc, "auditor", [a, rounds, when]() {
		connect_ok(*a, when);
		if (a->m->capacity() != a->m->n()) fail("capacity", "capacity() is %d, not %d", a->m->capacity(), a->m->n());
		audit(a, rounds);
		a->m->disconnect();
		if (!strcmp(prop(), "M05") && ipc_attached(a->proc)) fail("attachment", "still attached after disconnect");
	});
	if (go() == STUCK) fail("stuck", "at rest: blocked for ever: %s", stuck_list().c_str());
	expected_error = save;
}

// what a process does to one map concerns no other map
static const char *OWNKEYS[] = { "/sim/own0.key", "/sim/own1.key", "/sim/own2.key", "/sim/own3.key" };
static std::map<uint64_t, int> ownref[4];
static void own_op(P &p, int who)
{
	IMap *m = p.own;
	std::map<uint64_t, int> &ref = ownref[who];
	uint64_t k = R.keys[draw(R.keys.size())];
	switch (draw(6))
	{
	case 0: case 1:
	{
		int v = newval();
		bool want = ref.count(k) || (int) ref.size() < R.n;
		if (m->insert(k, v, false) != want) fail("own", "insert into the process's own map %s", want ? "is refused" : "succeeds although it is full");
		if (want) ref[k] = v;
		break;
	}
	case 2: if (m->erase(k, false) != (ref.count(k) != 0)) fail("own", "erase from the process's own map says otherwise"); ref.erase(k); break;
	case 3: if (m->size() != (int) ref.size()) fail("own", "the process's own map has %d keys instead of %zu", m->size(), ref.size()); break;
	case 4: if (draw(3) == 2) { m->clear(); ref.clear(); break; }
		if (draw(3) == 2)
		{
			m->disconnect();
			try { m->connect(OWNKEYS[who]); } catch (const std::exception &e) { fail("own", "connect to the process's own map failed: %s", e.what()); }
			break;
		}
		// fall through
	case 5:
	{
		int r = m->read(k, false), w = ref.count(k) ? ref[k] : (int) lin::ABSENT;
		if (r != w) fail("own", "a key of the process's own map reads as %d instead of %d", r, w);
	}
	}
	probe("probe.own-map");
}
static void ops(P *p, const Cfg *c)
{
	for (int i = 0; i < c->nops; ++i)
	{
		if (p->own && draw(2)) own_op(*p, p - &R.ps[0]);
		do_op(*p, *c);
	}
	if (p->own)
	{
		std::vector<std::pair<uint64_t, int> > out;
		p->own->lock(false);
		if (!p->own->iterate(out, 64)) fail("iteration", "iteration does not end");
		p->own->unlock(false);
		std::map<uint64_t, int> &ref = ownref[p - &R.ps[0]];
		if (std::map<uint64_t, int>(out.begin(), out.end()) != ref || out.size() != ref.size()) fail("own", "iteration over the process's own map visits %zu keys, %zu are stored", out.size(), ref.size());
		p->own->disconnect();
	}
}

static Cfg base_cfg()
{
	Cfg c;
	memset(&c, 0, sizeof c);
	c.nproc = range(2, 4);
	c.nops = range(2, c.nproc == 2 ? 7 : 5);
	mix(c);
	c.batches = c.sections = c.iterate = true;
	expected_error = false;
	return c;
}
static const char *names[] = { "A", "B", "C", "D", "E", "F" };

// ------------------------------------------------------------------ M01
static void run_m01()
{
	begin_run();
	Cfg c = base_cfg();
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	if (draw(8) == 7)
		for (int i = 0; i < c.nproc; ++i)
		{
			P *p = &R.ps[i];
			ipc_keyfile(OWNKEYS[i], true);
			ownref[i].clear();
			p->own = R.make();
			spawn(p->proc, p->proc->name + ".own", [p, i]() {
				try { p->own->connect(OWNKEYS[i]); } catch (const std::exception &e) { fail("own", "connect to a second map failed: %s", e.what()); }
			});
			if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
		}
	for (int i = 0; i < c.nproc; ++i) { P *p = &R.ps[i]; p->t = spawn(p->proc, names[i], [p, &c]() { ops(p, &c); }); }
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	phase_audit(draw(2), "at rest");
	finish(DONE, false);
}
SIM_PROP(M01, run_m01);

// ------------------------------------------------------------------ M02
static void run_m02()
{
	begin_run();
	Cfg c = base_cfg();
	c.w_section = 8;
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	int kind = draw(3);
	if (kind == 0)
	{
		for (int i = 0; i < c.nproc; ++i) { P *p = &R.ps[i]; spawn(p->proc, names[i], [p, &c]() { ops(p, &c); }); }
	}
	else if (kind == 1)
	{
		// A keeps a read lock until every other reader is through; writers may queue meanwhile
		probe("probe.readers-meet");
		int nread = range(1, c.nproc - 1);
		int *left = new int(nread);
		bool *locked = new bool(false);
		P *a = &R.ps[0];
		bool outer_raw = draw(2);
		spawn(a->proc, "A", [a, left, locked, outer_raw]() {
			a->m->lock(false);
			a->sec_from = seq();
			a->in_rsec = true;
			*locked = true;
			if (outer_raw) a->m->read(R.keys[0], true);
			wait_until("@readers-admitted", [left]() { return *left == 0; });
			a->in_rsec = false;
			a->m->unlock(false);
		});
		for (int i = 1; i < c.nproc; ++i)
		{
			P *p = &R.ps[i];
			bool reader = i <= nread;
			spawn(p->proc, names[i], [p, &c, reader, left, locked]() {
				wait_until("@a-locked", [locked]() { return *locked; });
				if (!reader) { ops(p, &c); return; }
				size_t i = op_begin(*p);
				R.hist[i].subs.push_back(sub(lin::READ, 0, 0, lin::ANY));
				int r;
				if (draw(2)) r = p->m->read(R.keys[0], false);
				else { p->m->lock(false); r = p->m->read(R.keys[0], true); p->m->unlock(false); }
				R.hist[i].subs[0].res = r;
				op_end(*p, i, "read", false);
				--*left;
			});
		}
	}
	else
	{
		// A keeps the write lock for a while: nobody else gets anything done, everybody does afterwards
		P *a = &R.ps[0];
		int spins = range(1, 30);
		spawn(a->proc, "A", [a, spins]() {
			size_t i = op_begin(*a);
			a->m->lock(true);
			monitor(*a, R.hist[i].call, "write lock", true);
			a->sec_from = seq();
			a->in_wsec = true;
			for (int k = 0; k < spins; ++k)
			{
				if (draw(4) == 3)
				{
					int kk = draw(R.keys.size()), v = newval();
					R.hist[i].subs.push_back(sub(lin::INSERT, kk, v, lin::ANY));
					bool r = a->m->insert(R.keys[kk], v, true);
					R.hist[i].subs.back().res = r;
				}
				yield();
			}
			a->in_wsec = false;
			a->m->unlock(true);
			R.hist[i].ret = seq();
		});
		for (int i = 1; i < c.nproc; ++i) { P *p = &R.ps[i]; spawn(p->proc, names[i], [p, &c]() { ops(p, &c); }); }
	}
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	phase_audit(0, "at rest");
	finish(DONE, false);
}
SIM_PROP(M02, run_m02);

// ------------------------------------------------------------------ M03
static void run_m03()
{
	begin_run();
	Cfg c = base_cfg();
	c.w_clear = draw(3);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	int nvict = range(1, c.nproc > 2 ? 2 : 1);
	killing_allowed = true;
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		int at = i < nvict ? (int) draw(c.nops) : -1;
		u32 g = i < nvict ? loggap(300) : 0;
		spawn(p->proc, names[i], [p, &c, at, g]() {
			for (int k = 0; k < c.nops; ++k)
			{
				if (k == at && g) arm_kill(p->proc, g - 1);
				do_op(*p, c);
			}
		});
	}
	if (go() == STUCK) fail("stuck", "after %d deaths, blocked for ever: %s", kills(), stuck_list().c_str());
	if (kills()) probe("probe.crash-runs");
	phase_audit(range(0, 2), "after deaths");
	finish(DONE, true);
}
SIM_PROP(M03, run_m03);

// ------------------------------------------------------------------ M04
static void run_m04()
{
	begin_run();
	Cfg c = base_cfg();
	c.nops = range(1, 3);
	c.w_clear = 0;
	int rounds = range(1, 2);
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = add_proc(names[i]);
		p->proc->uid = draw(2) ? i : 0;
		spawn(p->proc, names[i], [p, &c, rounds]() {
			for (int r = 0; r < rounds; ++r)
			{
				connect_ok(*p, "while others connect too");
				ops(p, &c);
				if (r + 1 < rounds || draw(2))
				{
					if (draw(2)) p->m->disconnect();
					else { p->m->destroy(); p->m = R.make(); }
				}
			}
		});
	}
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	phase_audit(0, "after racing first connects");
	finish(DONE, false);
	// and the locks still exclude
	if (draw(2))
	{
		for (size_t i = 0; i < R.ps.size(); ++i)
		{
			P *p = &R.ps[i];
			spawn(p->proc, p->proc->name + "'", [p, &c]() { if (!p->m->is_connected()) connect_ok(*p, "again"); ops(p, &c); });
		}
		finish(go(), false);
	}
}
SIM_PROP(M04, run_m04);

// ------------------------------------------------------------------ M08
// processes die while they connect, the one that creates the map among them
static void run_m08()
{
	begin_run();
	Cfg c = base_cfg();
	c.nproc = range(2, 4);
	c.nops = range(1, 3);
	bool exists = draw(3) == 2;
	if (exists)
	{
		P *o = add_proc("O");
		spawn(o->proc, "O", [o, &c]() { connect_ok(*o, "with nobody else connecting"); ops(o, &c); if (draw(2)) o->m->disconnect(); });
		if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	}
	int nvict = range(1, c.nproc - 1);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	killing_allowed = true;
	bool serial = draw(3) == 2;       // one after the other
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[R.ps.size() - c.nproc + i];
		u32 g = i < nvict ? loggap(150) : 0;
		bool again = draw(3) == 2;
		spawn(p->proc, names[i], [p, &c, g, again]() {
			for (int r = 0; r <= (int) again; ++r)
			{
				if (g && r == (int) again) arm_kill(p->proc, g - 1);
				connect_ok(*p, "while processes die connecting");
				p->proc->kill_in = INT64_MAX / 2;
				ops(p, &c);
				if (r < (int) again) p->m->disconnect();
			}
		});
		if (serial && go() == STUCK) fail("stuck", "after %d deaths while connecting, blocked for ever: %s", kills(), stuck_list().c_str());
	}
	if (!serial && go() == STUCK) fail("stuck", "after %d deaths while connecting, blocked for ever: %s", kills(), stuck_list().c_str());
	if (kills()) probe("probe.crash-runs");
	killing_allowed = false;
	phase_audit(range(0, 2), "after deaths while connecting");
	finish(DONE, false);
}
SIM_PROP(M08, run_m08);

// ------------------------------------------------------------------ M05
static void run_m05()
{
	begin_run();
	Cfg c = base_cfg();
	c.nproc = range(1, 3);
	c.nops = range(1, 4);
	c.w_clear = 0;
	bool first = draw(3) == 2;     // the faulty process may be the creator
	int nf = range(1, 2);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i])->proc->intr_ok = false;
	ipc.faults = true;
	ipc.faulty_procs = 0;
	if (!first) phase_connect();
	sched.intr_den = draw(2) ? 4 : 0;
	sched.intr_budget = 3;
	faults_enable(range(1, 3), 12);
	for (int f = 0; f < nf; ++f)
	{
		P *p = add_proc(f ? "Y" : "X");
		ipc.faulty_procs |= 1ull << p->proc->id;
		int tries = range(1, 3);
		int odd = first ? 0 : draw(4);       // 0,1: same shape; 2: no key file; 3: other shape
		int which = draw(NOTHERS + 6);
		spawn(p->proc, f ? "Y" : "X", [p, tries, odd, which, first, &c]() {
			IMap *m = p->m;
			if (odd == 3) m = which < NOTHERS ? others[which]() : near[R.shape][which - NOTHERS]();
			bool ok = false;
			int t;
			for (t = 0; t < tries; ++t)
			{
				int f0 = faults.fired, i0 = sched.intr_budget;
				try
				{
					m->connect(odd == 2 ? KEYFILE2 : KEYFILE);
					if (odd >= 2) fail("connect", "connect to %s succeeded", odd == 2 ? "a missing key file" : "a map of another shape");
					if (!m->is_connected()) fail("connect", "connect returned but the map is not connected");
					ok = true;
					break;
				}
				catch (const std::exception &e)
				{
					if (odd < 2 && faults.fired == f0 && sched.intr_budget == i0) fail("connect", "connect failed although nothing went wrong: %s", e.what());
					stat("probe.connect-failed");
					ev("connect-failed"); note(e.what());
					if (m->is_connected()) fail("connect", "connected after a failed connect (%s)", e.what());
					if (ipc_attached(p->proc)) fail("attachment", "%d attachment(s) left after a failed connect (%s)", ipc_attached(p->proc), e.what());
				}
			}
			ipc.faulty_procs &= ~(1ull << p->proc->id);
			p->proc->intr_ok = false;
			if (!ok)
			{
				if (odd == 3)
				{
					m->destroy();
					m = p->m;
				}
				try { m->connect(KEYFILE); }
				catch (const std::exception &e) { fail("connect", "connect after %d failed one(s) does not succeed any more: %s", t, e.what()); }
				if (!m->is_connected()) fail("connect", "connect returned but the map is not connected");
			}
			ops(p, &c);
			if (draw(2)) m->disconnect();
			else { m->destroy(); p->m = R.make(); }
			if (ipc_attached(p->proc)) fail("attachment", "%d attachment(s) left after disconnecting", ipc_attached(p->proc));
			if (p->m->is_connected()) fail("attachment", "connected after disconnecting");
		});
	}
	for (int i = 0; i < c.nproc; ++i)
	{
		P *p = &R.ps[i];
		spawn(p->proc, names[i], [p, &c, first]() { if (first) connect_ok(*p, "while another process's connect fails"); ops(p, &c); });
	}
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	faults_disable();
	phase_audit(0, "after failed connects");
	finish(DONE, false);
}
SIM_PROP(M05, run_m05);

// ------------------------------------------------------------------ M06
static void run_m06()
{
	begin_run();
	Cfg c = base_cfg();
	bool fork = draw(3) == 2;
	bool rm = draw(8) == 7;
	int n = c.nproc;
	for (int i = 0; i < (fork ? 1 : n); ++i) add_proc(names[i]);
	phase_connect();
	if (fork)
		// children inherit the connected object and the attachment, but no undo structure
		for (int i = 1; i < n; ++i)
		{
			P *p = add_proc(names[i]);
			ipc_inherit(p->proc, R.ps[0].proc);
			p->m = R.ps[0].m->clone();
		}
	expected_error = true;
	ipc.faults = true;
	faults_enable(range(1, 3), 6);
	sched.intr_den = rm ? 0 : range(1, 6);
	sched.intr_budget = range(1, 6);
	bool *removed = new bool(false);
	for (int i = 0; i < n; ++i) { P *p = &R.ps[i]; spawn(p->proc, names[i], [p, &c, removed]() { for (int k = 0; k < c.nops && !*removed; ++k) do_op(*p, c); }); }
	if (rm)
	{
		// after the set is gone every operation is refused; nothing hangs
		int after = range(1, 40);
		spawn(proc_new("rm"), "ipcrm", [after, removed]() {
			for (int i = 0; i < after; ++i) yield();
			*removed = true;
			stat("fault.semaphores-removed");
			ipc_remove_sems();
		});
		R.sections_monitored = false;
		// a section holder cannot release a lock that does not exist any more
		c.sections = false;
		Go g = go();
		if (g == STUCK) fail("stuck", "blocked for ever on removed semaphores: %s", stuck_list().c_str());
		for (size_t i = 0; i < R.ps.size(); ++i)
		{
			P *p = &R.ps[i];
			spawn(p->proc, p->proc->name + "'", [p]() {
				bool threw = false;
				int v = newval();
				try { p->m->insert(R.keys[0], v, false); } catch (const std::exception &e) { threw = true; }
				if (!threw) fail("unlocked", "an insert went through although the lock does not exist any more");
			});
		}
		if (go() == STUCK) fail("stuck", "blocked for ever on removed semaphores: %s", stuck_list().c_str());
		return;
	}
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	faults_disable();
	expected_error = false;
	phase_audit(0, "after interruptions");
	finish(DONE, false);
}
SIM_PROP(M06, run_m06);

// ------------------------------------------------------------------ M07
// maps of realistic sizes: filled, emptied in part, refilled and read by processes that take turns
static const mkmap bigs[] = { mk<300, 97, 12>, mk<257, 5, 4>, mk<1500, 512, 8>, mk<1100, 300, 40>, mk<70000, 20011, 4>, mk<300, 70001, 4> };
static void big_m07()
{
	sched_default();
	sched.switch_num = 0; sched.weak = 0;
	sched.max_strong = sched.max_weak = ~0ull;
	ipc_keyfile(KEYFILE, true);
	R.make = bigs[draw(16) == 15 ? 4 : draw(8) == 7 ? 5 : draw(4)];
	R.ps.clear(); R.ps.reserve(MAXPROC);
	g_maxid = 239;
	int n, h; { IMap *x = R.make(); n = x->n(); h = x->h(); delete x; }
	static std::vector<uint64_t> keys; static std::vector<int> val;   // value, 0: not in the map
	keys.clear(); val.clear();
	int pat = draw(5);
	if (pat == 1 && n > 300) pat = 0;        // all in one chain
	for (int i = 0; i < n + 1; ++i) { keys.push_back(pat == 0 ? i : pat == 1 ? (uint64_t) i * h : pat == 2 ? ~0ull - i : pat == 4 ? (uint64_t) i * h + (i * 251u) % h : (uint64_t) i << 20 | (uint64_t) i % 7 << 40); val.push_back(0); }
	static int used; used = 0;
	int turns = range(2, n > 10000 ? 3 : 8);
	std::vector<P *> ps;
	int np = range(1, 2);
	for (int i = 0; i < np; ++i) ps.push_back(add_proc(names[i]));
	for (int t = 0; t < turns; ++t)
	{
		P *p = ps[draw(np)];
		int what = t == 0 ? draw(2) * 6 : draw(8), from = draw(n), step = range(1, 5), raw = draw(2);
		bool reconnect = draw(4) == 3;
		spawn(p->proc, p->proc->name, [p, n, what, from, step, raw, reconnect]() {
			IMap *m = p->m;
			if (reconnect && m->is_connected()) m->disconnect();
			if (!m->is_connected()) connect_ok(*p, "with nobody else connecting");
			if (raw) m->lock(true);
			switch (what)
			{
			case 0: case 1:          // fill up
				for (int i = 0; i <= n; ++i)
				{
					int k = (i + from) % (n + 1), v = 1 + (k * 7 + i + from) % 239;
					bool ok = m->insert(keys[k], v, raw), want = val[k] || used < n;
					if (ok != want) fail("capacity", "insert of %s key into a map of %d with %d keys %s", val[k] ? "a stored" : "a new", n, used, ok ? "succeeds" : "is refused");
					if (ok) { if (!val[k]) ++used; val[k] = v; }
				}
				break;
			case 2: case 3:          // erase some
				for (int i = from % step; i <= n; i += step)
				{
					bool ok = m->erase(keys[i], raw);
					if (ok != (val[i] != 0)) fail("erase", "erase of %s key says %d", val[i] ? "a stored" : "an absent", ok);
					if (ok) { val[i] = 0; --used; }
				}
				break;
			case 6: case 7:          // the same, many keys per call
				if (raw) m->unlock(true);
				for (int i = 0; i <= n; )
				{
					int b = std::min(n + 1 - i, (int) (chance(1, 2) ? range(1, 600) : range(200, 300))), good = 0;
					std::vector<uint64_t> ks; std::vector<int> vs;
					for (int j = 0; j < b; ++j)
					{
						int k = (i + j + from) % (n + 1), v = 1 + (k * 11 + i + from) % 239;
						if (what == 7 && k % step) continue;
						ks.push_back(keys[k]); vs.push_back(v);
						if (what == 6)
						{
							if (!val[k] && used == n) continue;
							if (!val[k]) ++used;
							val[k] = v; ++good;
						}
						else if (val[k]) { val[k] = 0; --used; ++good; }
					}
					bool ok = what == 6 ? m->insertv(ks, vs) : m->erasev(ks);
					if (ok != (good == (int) ks.size())) fail(what == 6 ? "capacity" : "erase", "a batch of %zu keys, %d of which could be %s, returns %d", ks.size(), good, what == 6 ? "stored" : "erased", ok);
					i += b;
				}
				if (raw) m->lock(true);
				break;
			case 4:
				if (!raw) { m->clear(); for (int i = 0; i <= n; ++i) val[i] = 0; used = 0; }
				break;
			}
			for (int i = 0; i <= n; ++i)
			{
				int r = m->read(keys[i], raw);
				if (r != (val[i] ? val[i] : (int) lin::ABSENT)) fail("value", "key %d of a map of %d reads as %d instead of %d", i, n, r, val[i]);
			}
			if (raw) m->unlock(true);
			int sz = m->size();
			if (sz != used) fail("size", "size() is %d, %d keys are stored", sz, used);
			std::vector<std::pair<uint64_t, int> > out;
			m->lock(false);
			if (!m->iterate(out, n + 5)) fail("iteration", "iteration does not end");
			m->unlock(false);
			if ((int) out.size() != used) fail("iteration", "iteration visits %zu of %d keys", out.size(), used);
			std::sort(out.begin(), out.end());
			for (size_t i = 1; i < out.size(); ++i) if (out[i].first == out[i - 1].first) fail("iteration", "a key is visited twice");
		});
		if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
		ev("turn", what, used);
	}
	stat("probe.big-map");
	nontrivial();
}
// maps of more than 2 and more than 4 GB, a few places of which are used
static const mkmap huges[] = { mk<40000, 211, 60000>, mk<75000, 211, 60000>, mk<80000, 3, 16000>, mk<300000, 70, 16000> };
static void huge_m07()
{
	sched_default();
	sched.switch_num = 0; sched.weak = 0;
	sched.max_strong = sched.max_weak = ~0ull;
	ipc_keyfile(KEYFILE, true);
	R.make = huges[draw(4)];
	R.ps.clear(); R.ps.reserve(MAXPROC);
	g_maxid = 239;
	static std::map<uint64_t, int> ref; ref.clear();
	std::vector<P *> ps;
	int np = range(1, 2), turns = range(1, 3);
	for (int i = 0; i < np; ++i) ps.push_back(add_proc(names[i]));
	for (int t = 0; t < turns; ++t)
	{
		P *p = ps[draw(np)];
		bool reconnect = draw(4) == 3;
		spawn(p->proc, p->proc->name, [p, reconnect, t]() {
			IMap *m = p->m;
			if (reconnect && m->is_connected()) m->disconnect();
			if (!m->is_connected()) connect_ok(*p, "with nobody else connecting");
			if (draw(8) == 7) { m->clear(); ref.clear(); }
			int n = range(1, 12);
			for (int i = 0; i < n; ++i)
			{
				uint64_t k = draw(3) == 2 ? ~0ull - draw(300) : draw(300);
				switch (draw(3))
				{
				case 0: case 1:
				{
					int v = range(1, 239);
					if (!m->insert(k, v, false)) fail("capacity", "insert into a map of %d with %zu keys is refused", m->n(), ref.size());
					ref[k] = v;
					break;
				}
				case 2:
					if (m->erase(k, false) != (ref.count(k) != 0)) fail("erase", "erase of %s key says otherwise", ref.count(k) ? "a stored" : "an absent");
					ref.erase(k);
				}
			}
			for (auto &x : ref) { int r = m->read(x.first, false); if (r != x.second) fail("value", "key %llu reads as %d instead of %d", (unsigned long long) x.first, r, x.second); }
			if (m->size() != (int) ref.size()) fail("size", "size() is %d, %zu keys are stored", m->size(), ref.size());
			std::vector<std::pair<uint64_t, int> > out;
			m->lock(false);
			if (!m->iterate(out, 1000)) fail("iteration", "iteration does not end");
			m->unlock(false);
			if (std::map<uint64_t, int>(out.begin(), out.end()) != ref || out.size() != ref.size()) fail("iteration", "iteration visits %zu keys, %zu are stored", out.size(), ref.size());
		});
		if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
		ev("turn", t, ref.size());
	}
	stat("probe.huge-map");
	nontrivial();
}
static void run_m07()
{
	if (draw(3000) == 2999) return huge_m07();
	if (draw(400) == 399) return big_m07();
	begin_run(true);
	Cfg c = base_cfg();
	c.nproc = range(1, 3);
	c.nops = range(4, c.nproc == 1 ? 20 : c.nproc == 2 ? 10 : 6);
	c.w_insert = 6; c.w_erase = range(1, 4); c.w_read = 1; c.w_clear = draw(3);
	for (int i = 0; i < c.nproc; ++i) add_proc(names[i]);
	phase_connect();
	for (int i = 0; i < c.nproc; ++i) { P *p = &R.ps[i]; spawn(p->proc, names[i], [p, &c]() { ops(p, &c); }); }
	if (go() == STUCK) fail("stuck", "blocked for ever: %s", stuck_list().c_str());
	phase_audit(range(1, 2), "at rest");
	finish(DONE, false);
}
SIM_PROP(M07, run_m07);
