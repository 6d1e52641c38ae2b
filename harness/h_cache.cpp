// coda_cache against a reference model on a simulated clock: C01..C03
#include "../sim/sim.hpp"
#include "../sim/clk.hpp"
#include "../sim/alloc.hpp"
#include <coda/cache.hpp>
#include <inttypes.h>
#include <list>
#include <memory>
#include <new>
#include <string.h>

using namespace sim;

static bool copy_faults;
struct CopyError {};
// a value with a declared size; copies own memory, and may fail half-way
struct Val
{
	int id;
	size_t weight;
	char *mem;
	Val() : id(0), weight(0), mem(NULL) {}
	Val(int i, size_t w) : id(i), weight(w), mem(NULL) { set(i); }
	~Val() { delete [] mem; }
	void set(int i) { mem = new char[8]; snprintf(mem, 8, "%d", i); }
	static void may_fail()
	{
		OutSut o;
		if (copy_faults && inject_flag("value-copy")) throw CopyError();
	}
	Val(const Val &o) : id(0), weight(0), mem(NULL) { may_fail(); id = o.id; weight = o.weight; if (o.mem) set(o.id); }
	Val &operator=(const Val &o)
	{
		if (this == &o) return *this;
		may_fail();
		// only the basic guarantee: neither the old nor the new value after a failure
		id = -1;
		char *m = o.mem ? new char[8] : NULL;
		if (m) memcpy(m, o.mem, 8);
		delete [] mem;
		mem = m; id = o.id; weight = o.weight;
		return *this;
	}
	size_t estimate_capacity() const { return weight; }
	bool good() const { return id > 0 && mem && atoi(mem) == id; }
};

// a uniform face over the instantiations
struct IC
{
	virtual ~IC() {}
	virtual int get(int k, bool byref) = 0;           // value id, 0: none, -1: damaged
	virtual bool set(int k, int id, size_t w, bool upd) = 0;    // false: threw
	virtual int copy(int from, int to, bool upd, size_t &w) = 0;
	virtual bool erase(int k) = 0;
	virtual std::string dbg() = 0;
	virtual size_t weight_of(int id, size_t w) = 0;   // estimate of a value
	virtual std::string keytext(int k) = 0;
};
template <class K> static K mkkey(int k);
template <> int mkkey<int>(int k) { return k; }
template <> std::string mkkey<std::string>(int k) { static const char *n[] = { "", "a", "a longer key that owns memory of its own 1", "a longer key that owns memory of its own 2", "zz", "k5", "k6", "k7", "k8", "k9" }; return k < 10 ? std::string(n[k]) : "key number " + std::to_string(k); }
template <class V> struct Conv;
template <> struct Conv<Val>
{
	static Val make(int id, size_t w) { return Val(id, w); }
	static int id(const Val &v) { return v.good() ? v.id : -1; }
	static Val none() { Val v; v.id = -5; return v; }
	static bool is_none(const Val &v) { return v.id == -5; }
};
template <> struct Conv<int>
{
	static int make(int id, size_t) { return id; }
	static int id(int v) { return v > 0 ? v : -1; }
	static int none() { return -5; }
	static bool is_none(int v) { return v == -5; }
};
template <> struct Conv<std::string>
{
	static std::string make(int id, size_t w) { char b[16]; snprintf(b, sizeof b, "%d", id); std::string s(b); s.append(w > 100 ? 100 : w < 20 ? 20 : w, '.'); return s; }
	static int id(const std::string &s) { int i = atoi(s.c_str()); return i > 0 && s.size() > 20 ? i : -1; }
	static std::string none() { return "none"; }
	static bool is_none(const std::string &s) { return s == "none"; }
};
template <class K, class V> struct CT : IC
{
	coda_cache<K, V> *c;
	CT(size_t smax, size_t tmax) { InSut s; c = new coda_cache<K, V>(smax, tmax); }
	~CT() { InSut s; delete c; }
	int get(int k, bool byref)
	{
		K key = mkkey<K>(k);
		if (byref)
		{
			V v = Conv<V>::none();
			bool f = copy_faults, a = alloc_cfg.faults;
			copy_faults = false; alloc_cfg.faults = false;
			{ InSut s; c->get(key, v); }
			copy_faults = f; alloc_cfg.faults = a;
			return Conv<V>::is_none(v) ? 0 : Conv<V>::id(v);
		}
		const V *p;
		{ InSut s; p = c->get(key); }
		return p ? Conv<V>::id(*p) : 0;
	}
	bool set(int k, int id, size_t w, bool upd)
	{
		K key = mkkey<K>(k);
		V v = Conv<V>::make(id, w);
		try { InSut s; c->set(key, v, upd); return true; }
		catch (const CopyError &) { return false; }
		catch (const std::bad_alloc &) { return false; }
	}
	// stores the value found under one key under another one, without a copy in between
	int copy(int from, int to, bool upd, size_t &w)
	{
		K f = mkkey<K>(from), t = mkkey<K>(to);
		const V *p;
		{ InSut s; p = c->get(f); }
		if (!p) return 0;
		int id = Conv<V>::id(*p);
		w = estimate_capacity(*p);
		{ InSut s; c->set(t, *p, upd); }
		return id;
	}
	bool erase(int k) { K key = mkkey<K>(k); InSut s; return c->erase(key); }
	std::string dbg()
	{
		std::string r;
		bool a = alloc_cfg.faults; alloc_cfg.faults = false;
		{ InSut s; c->dbg(r, 1); }
		alloc_cfg.faults = a;
		return std::string(r.c_str());
	}
	size_t weight_of(int id, size_t w) { V v = Conv<V>::make(id, w); return estimate_capacity(v); }
	std::string keytext(int k) { std::stringstream o; o << mkkey<K>(k); return o.str(); }
};

// ------------------------------------------------------------------ reference model
struct Ent { int key, id; size_t w; i64 stamp; };
static struct Run
{
	IC *c;
	std::list<Ent> l;            // least recently stored first
	size_t smax, tmax, cur;
	int next, nkeys, nosize;
	size_t scale;                // of declared sizes: from bytes to terabytes
	std::vector<size_t> weights;
} R;
static std::list<Ent>::iterator find(int k) { for (auto i = R.l.begin(); i != R.l.end(); ++i) if (i->key == k) return i; return R.l.end(); }
static bool expired(const Ent &e)
{
	i64 now = wall_sec();
	return R.tmax && now > e.stamp && (u64) (now - e.stamp) > R.tmax;
}
static void evict()
{
	while (R.cur > R.smax) { R.cur -= R.l.front().w; R.l.pop_front(); probe("probe.evicted"); nontrivial(); }
}
static void begin_run(bool timed)
{
	sched_default();
	sched.switch_num = 0;
	copy_faults = false;
	R.l.clear();
	R.cur = 0; R.next = 1;
	R.nkeys = range(2, 8);
	static const size_t tm[] = { 0, 1, 2, 10, 3600, 86400, (size_t) 1 << 31, (size_t) -1, (size_t) 1 << 63 };
	R.tmax = timed ? tm[draw(9)] : draw(3) == 2 ? 5 : 0;
	int kind = draw(4);
	bool tight = draw(4) != 0 || !timed;
	R.smax = !tight ? 1 << 20 : kind == 1 ? 4 * range(1, 6) : kind == 2 ? range(60, 400) : range(0, 60);
	// from the epoch, which the system's clock cannot precede, up to beyond 2038
	static const i64 t0[] = { 0, -1699999990ll, 447483647ll, -1700000001ll, 4000000000ll };
	wall_off_ns += t0[timed ? draw(5) : 0] * 1000000000ll;
	R.scale = 1;
	if ((kind == 0 || kind == 3) && draw(3) == 2)
	{
		static const size_t sc[] = { 7, 1000, 1ul << 16, 1ul << 30, (1ul << 32) - 1, 1ul << 40 };
		R.scale = sc[draw(6)];
		R.smax *= R.scale;
	}
	else if (!tight && draw(4) == 3) R.smax = (size_t) -1;
	switch (kind)
	{
	case 0: R.c = new CT<int, Val>(R.smax, R.tmax); break;
	case 1: R.c = new CT<std::string, int>(R.smax, R.tmax); break;
	case 2: R.c = new CT<std::string, std::string>(R.smax, R.tmax); break;
	default: R.c = new CT<std::string, Val>(R.smax, R.tmax); break;
	}
}
static void do_get(int k, bool byref)
{
	auto i = find(k);
	int want = i == R.l.end() || expired(*i) ? 0 : i->id;
	if (i != R.l.end() && expired(*i)) { R.cur -= i->w; R.l.erase(i); probe("probe.expired"); nontrivial(); }
	int got = R.c->get(k, byref);
	ev("get", k, got, want);
	if (got == want) return;
	const char *why = got < 0 ? "damaged" : want == 0 ? (got ? "value" : "") : got == 0 ? "missing" : "value";
	fail(why, "lookup of key %d gives %d instead of %d (%zu entries, %zu of %zu bytes, lifetime %zu)", k, got, want, R.l.size(), R.cur, R.smax, R.tmax);
}
static void model_set(int k, int id, size_t w, bool upd)
{
	auto i = find(k);
	Ent e = { k, id, w, wall_sec() };
	if (i != R.l.end())
	{
		if (!upd) e.stamp = i->stamp;
		R.cur -= i->w;
		R.l.erase(i);
	}
	R.l.push_back(e);
	R.cur += w;
	evict();
}
static size_t draw_w() { return draw(12) == 11 && R.smax != (size_t) -1 ? R.smax + draw(2) : draw(30) * R.scale; }
static void check_report()
{
	std::string r = R.c->dbg();
	const char *p = r.c_str();
	long n = -1, s = -1;
	if (const char *q = strstr(p, "nelt_cur=")) n = atol(q + 9);
	if (const char *q = strstr(p, "size_cur=")) s = atol(q + 9);
	if (n != (long) R.l.size()) fail("count", "%ld elements reported, %zu are stored", n, R.l.size());
	if (s != (long) R.cur) fail("size", "size %ld reported, %zu stored", s, R.cur);
	if ((size_t) s > R.smax) fail("limit", "size %ld exceeds the maximum of %zu", s, R.smax);
}
static void do_set(int k, bool upd)
{
	int id = R.next++;
	size_t d = draw_w(), w = R.c->weight_of(id, d);
	ev("set", k, id, w);
	bool ok = R.c->set(k, id, d, upd);
	if (!ok) fail("throw", "a store threw although nothing failed");
	model_set(k, id, w, upd);
}
static void do_copy(int from, int to, bool upd)
{
	auto i = find(from);
	int want = i == R.l.end() || expired(*i) ? 0 : i->id;
	if (i != R.l.end() && expired(*i)) { R.cur -= i->w; R.l.erase(i); probe("probe.expired"); nontrivial(); }
	size_t w = 0;
	int got;
	try { got = R.c->copy(from, to, upd, w); }
	catch (const std::exception &e) { fail("throw", "a store threw although nothing failed"); }
	ev("copy", from, to, got);
	probe("probe.copied-within");
	if (got != want) fail(got < 0 ? "damaged" : "value", "lookup of key %d gives %d instead of %d", from, got, want);
	if (got) model_set(to, got, w, upd);
}
static void do_erase(int k)
{
	auto i = find(k);
	bool want = i != R.l.end();
	if (want) { R.cur -= i->w; R.l.erase(i); }
	bool got = R.c->erase(k);
	ev("erase", k, got);
	if (got != want) fail("erase", "erase of key %d says %d, the key was %sstored", k, got, want ? "" : "not ");
}
static void move_clock()
{
	nontrivial();
	static const i64 d[] = { 0, 1, 2, 3, 9, 10, 11, 3599, 3600, 3601, 86400, 86401, 1ll << 31, (1ll << 31) + 1 };
	i64 s = draw(6) == 5 && R.tmax < (1ull << 40) ? (i64) R.tmax + (i64) draw(3) - 1 : d[draw(14)];
	if (draw(5) == 4) { s = -s; stat("fault.clock-step-back"); }
	else if (draw(3) == 2) { now_ns += draw(1000) * 1000000ll; stat("fault.clock-advance"); }
	else stat("fault.clock-jump");
	if (wall_sec() + s < 0) s = -wall_sec();
	wall_off_ns += s * 1000000000ll;
	ev("clock", s);
}
static void audit() { for (int k = 0; k < R.nkeys; ++k) do_get(k, false); check_report(); }
static void body(const std::function<void()> &f)
{
	spawn(proc_get(0), "main", f);
	go();
}
static void finish()
{
	delete R.c;
	R.c = NULL;
	if (alloc_live()) fail("leak", "%zu block(s) left allocated after destruction: %s", alloc_live(), alloc_live_list().c_str());
}

static void run_c01()
{
	begin_run(true);
	body([]() {
		int n = range(4, 60);
		for (int i = 0; i < n; ++i)
		{
			int k = draw(R.nkeys);
			switch (draw(9))
			{
			case 8: do_copy(k, draw(R.nkeys), draw(2)); break;
			case 0: case 1: do_set(k, true); break;
			case 2: do_set(k, false); break;
			case 3: do_get(k, false); break;
			case 4: do_get(k, true); break;
			case 5: case 6: move_clock(); break;
			case 7: do_erase(k); break;
			}
		}
		audit();
		finish();
	});
}
SIM_PROP(C01, run_c01);

// thousands of entries
static void big_c02()
{
	begin_run(false);
	R.nkeys = range(100, 3000);
	delete R.c;
	R.smax = range(50, 6000); R.scale = 1;
	switch (draw(3))
	{
	case 0: R.c = new CT<int, Val>(R.smax, R.tmax); break;
	case 1: R.c = new CT<std::string, int>(R.smax, R.tmax); break;
	default: R.c = new CT<std::string, Val>(R.smax, R.tmax); break;
	}
	body([]() {
		int n = range(R.nkeys / 2, R.nkeys * 2), sp = range(20, 2000);
		for (int i = 0; i < n; ++i)
		{
			int k = draw(4) == 3 ? (int) draw(R.nkeys) : i % R.nkeys;
			int id = R.next++;
			size_t d = draw(sp) == 0 ? draw(3) == 2 ? R.smax + 1 : range(0, R.smax) : draw(4), w = R.c->weight_of(id, d);
			bool upd = draw(2);
			if (!R.c->set(k, id, d, upd)) fail("throw", "a store threw although nothing failed");
			model_set(k, id, w, upd);
			if (draw(16) == 0) do_erase(draw(R.nkeys));
			if (draw(64) == 0) check_report();
			if (R.tmax && draw(300) == 0) move_clock();
		}
		check_report();
		audit();
		stat("probe.big-cache");
		nontrivial();
		finish();
	});
}
static void run_c02()
{
	if (draw(500) == 499) return big_c02();
	begin_run(false);
	body([]() {
		int n = range(4, 80);
		u32 ws = range(1, 6), wg = draw(3), we = draw(3), wc = R.tmax ? 1 : 0;
		for (int i = 0; i < n; ++i)
		{
			int k = draw(R.nkeys);
			u32 x = draw(ws + wg + we + wc);
			if (x < ws) { if (draw(6) == 5) do_copy(draw(R.nkeys), k, draw(2)); else do_set(k, draw(2)); }
			else if (x < ws + wg) do_get(k, draw(2));
			else if (x < ws + wg + we) do_erase(k);
			else move_clock();
			check_report();
		}
		audit();
		finish();
	});
}
SIM_PROP(C02, run_c02);

static void run_c03()
{
	begin_run(false);
	body([]() {
		alloc_cfg.faults = true;
		copy_faults = true;
		faults_enable(range(1, 5), 60);
		int n = range(4, 60);
		for (int i = 0; i < n; ++i)
		{
			int k = draw(R.nkeys);
			u32 x = draw(10);
			if (x < 7)
			{
				bool upd = draw(2);
				int f0 = faults.fired, id = R.next++;
				size_t d = draw_w(), w;
				{ bool a = alloc_cfg.faults; alloc_cfg.faults = false; w = R.c->weight_of(id, d); alloc_cfg.faults = a; }
				bool ok = R.c->set(k, id, d, upd);
				ev("set", k, id, ok);
				if (ok) { model_set(k, id, w, upd); check_report(); continue; }
				if (faults.fired == f0) fail("throw", "a store threw although nothing failed");
				stat("probe.failed-store");
				// what became of the key?
				bool aa = alloc_cfg.faults;
				alloc_cfg.faults = false; copy_faults = false;
				std::string r = R.c->dbg();
				long cnt = atol(strstr(r.c_str(), "nelt_cur=") + 9);
				auto e = find(k);
				bool exp = e != R.l.end() && expired(*e);
				int got = exp ? 0 : R.c->get(k, false);
				if (e == R.l.end())
				{
					if (got) fail("value", "a failed store made key %d return %d", k, got);
				}
				else if (exp) { if (cnt < (long) R.l.size()) { R.cur -= e->w; R.l.erase(e); } }
				else if (got == 0) { R.cur -= e->w; R.l.erase(e); }
				else if (got != e->id) fail("value", "a failed store made key %d return %d instead of %d or nothing", k, got, e->id);
				// its position may have been renewed already: both orders are fine, so fix one
				else { Ent x = *e; (void) x; if (R.c->erase(k)) { R.cur -= e->w; R.l.erase(e); } else fail("erase", "key %d cannot be erased", k); }
				{
					// it may have made room first, from the oldest on
					std::string r2 = R.c->dbg();
					long others = atol(strstr(r2.c_str(), "nelt_cur=") + 9);
					while ((long) R.l.size() > others) { R.cur -= R.l.front().w; R.l.pop_front(); }
				}
				check_report();
				alloc_cfg.faults = aa; copy_faults = true;
			}
			else if (x < 9) do_get(k, draw(2));
			else do_erase(k);
		}
		faults_disable();
		alloc_cfg.faults = false; copy_faults = false;
		audit();
		// still works
		for (int i = 0; i < 6; ++i) { do_set(draw(R.nkeys), true); check_report(); }
		audit();
		finish();
	});
}
SIM_PROP(C03, run_c03);
