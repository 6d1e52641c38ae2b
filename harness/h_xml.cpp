// Loading XML documents from simulated files: X01
#include "../sim/krn.hpp"
#include "../sim/alloc.hpp"
#include <coda/txml.hpp>
#include <coda/error.hpp>
#include <fcntl.h>
#include <new>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace sim;

// what the document's own code may throw while it takes values: one that is a std::exception and one that is not
struct Boom { int v; Boom(int x) : v(x) {} };
struct BoomStd : public std::exception { int v; BoomStd(int x) : v(x) {} const char *what() const throw() { return "boom"; } };
static int boom_at, boom_kind, boom_calls, boom_thrown;
static void boom()
{
	if (!boom_at || ++boom_calls != boom_at) return;
	boom_thrown = 1;
	if (boom_kind == 1) throw Boom(boom_at);
	throw BoomStd(boom_at);
}

struct Sub : public coda::txml_determination_object
{
	std::string name; int64_t num; std::vector<std::string> w;
	Sub() : num(0) {}
	void determine(coda::txml_parser *p) { boom(); txml_member(p, name); txml_member(p, num); txml_member(p, w); }
};
struct Doc : public coda::txml_determination_object
{
	std::string title, lang;
	int32_t count;
	uint32_t big;
	bool flag;
	std::list<std::string> tag;
	std::vector<Sub> sub;
	Sub one;
	std::list<Sub> lsub;
	std::vector<int64_t> nums;
	uint64_t huge; uint8_t small; double ratio; float part;
	Doc() : count(0), big(0), flag(false), huge(0), small(0), ratio(0), part(0) {}
	void determine(coda::txml_parser *p)
	{
		boom();
		txml_member(p, lsub); txml_member(p, nums); txml_member(p, huge); txml_member(p, small); txml_member(p, ratio); txml_member(p, part);
		txml_member(p, title); txml_member(p, lang); txml_member(p, count); txml_member(p, big); txml_member(p, flag);
		txml_member(p, tag); txml_member(p, sub); txml_member(p, one);
	}
};
struct Cfg : public coda::txml_determination_object
{
	Doc doc;
	void determine(coda::txml_parser *p) { txml_member(p, doc); }
};

// what a document means, kept apart from the code under test
struct MSub { std::string name; i64 num; std::vector<std::string> w; MSub() : num(0) {} };
struct MDoc
{
	std::string title, lang;
	int count; u32 big; bool flag;
	std::vector<std::string> tag;
	std::vector<MSub> sub;
	MSub one;
	std::vector<MSub> lsub;
	std::vector<int64_t> nums;
	uint64_t huge; uint8_t small; double ratio; float part;
	MDoc() : count(0), big(0), flag(false), huge(0), small(0), ratio(0), part(0) {}
};
static std::string hex(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += s[i] >= 32 && s[i] < 127 && s[i] != '\\' ? std::string(1, s[i]) : fmt("\\x%02x", (unsigned char) s[i]); return r; }
template <class T, class S> static std::string subs(const T &v, const S &) { std::string r; for (typename T::const_iterator i = v.begin(); i != v.end(); ++i) { r += "{" + hex(i->name) + fmt(",%lld,[", (long long) i->num); for (size_t j = 0; j < i->w.size(); ++j) r += hex(i->w[j]) + "|"; r += "]}"; } return r; }
template <class D> static std::string image(const D &d)
{
	std::string r = "title=" + hex(d.title) + " lang=" + hex(d.lang) + fmt(" count=%d big=%u flag=%d tag=[", (int) d.count, (unsigned) d.big, (int) d.flag);
	for (auto i = d.tag.begin(); i != d.tag.end(); ++i) r += hex(*i) + "|";
	r += "] sub=" + subs(d.sub, 0) + " one=";
	std::vector<typename std::decay<decltype(d.one)>::type> v(1, d.one);
	r += subs(v, 0) + " lsub=" + subs(d.lsub, 0) + " nums=[";
	for (auto i = d.nums.begin(); i != d.nums.end(); ++i) r += fmt("%lld|", (long long) *i);
	return r + fmt("] huge=%llu small=%d ratio=%.6f part=%.3f", (unsigned long long) d.huge, (int) d.small, (double) d.ratio, (double) d.part);
}

static struct Gen { std::string s; int pad; } G;
// text with its XML spelling
static std::string text(int len, bool attr)
{
	std::string v;
	for (int i = 0; i < len; ++i)
	{
		switch (draw(attr ? 12 : 16))
		{
		case 0: v += "&"; G.s += chance(1, 2) ? "&amp;" : "&#38;"; break;
		case 1: v += "<"; G.s += "&lt;"; break;
		case 2: v += "\xc3\xa9"; G.s += chance(1, 2) ? "\xc3\xa9" : "&#233;"; break;
		case 3: v += "\xe2\x82\xac"; G.s += "\xe2\x82\xac"; break;
		case 4: v += "\""; G.s += "&quot;"; break;
		case 13: v += "\n"; G.s += chance(1, 4) ? "\r\n" : "\n"; break;
		case 14: v += "x]y<z"; G.s += "<![CDATA[x]y<z]]>"; break;
		case 15: G.s += "<!-- a comment -->"; break;
		default: { char c = "abcdefghijklmnopqrstuvwxyz 0123456789-_.,"[draw(41)]; v += c; G.s += c; break; }
		}
	}
	return v;
}
static void space()
{
	switch (draw(5)) { case 0: G.s += "\n  "; break; case 1: G.s += "<!-- c -->"; break; case 2: G.s += "\r\n"; break; case 3: G.s += "<?pi data?>"; break; }
	if (G.pad > 0 && chance(1, 2)) { int n = 1 + draw(G.pad); G.pad -= n; G.s += chance(1, 2) ? std::string(n, ' ') : "<!--" + std::string(n, 'p') + "-->"; }
}
static int tlen() { return chance(1, 400) ? (int) draw(70000) : chance(1, 20) ? (int) draw(600) : (int) draw(12); }
static MSub gsub(const char *el)
{
	MSub m;
	G.s += std::string("<") + el;
	if (chance(1, 3)) { G.s += " name=\""; m.name = text(tlen(), true); G.s += "\""; }
	if (chance(1, 4)) { m.num = (i64) draw(1 << 30) - (1 << 29); G.s += fmt(" num='%lld'", (long long) m.num); }
	int n = draw(5);
	if (!n && chance(1, 2)) { G.s += "/>"; return m; }
	G.s += ">";
	for (int i = 0; i < n; ++i)
	{
		space();
		switch (draw(3))
		{
		case 0: G.s += "<name>"; m.name = text(tlen(), false); G.s += "</name>"; break;
		case 1: m.num = (i64) draw(1 << 30) * ((i64) draw(1 << 30)); G.s += fmt("<num>%lld</num>", (long long) m.num); break;
		case 2: G.s += "<w>"; m.w.push_back(text(tlen(), false)); G.s += "</w>"; break;
		}
	}
	G.s += std::string("</") + el + ">";
	return m;
}
static MDoc gdoc()
{
	MDoc d;
	G.s.clear();
	static const int PADS[] = { 0, 0, 0, 200, 4096, 8192, 20000 };
	G.pad = PADS[draw(7)];
	if (chance(1, 3)) G.s += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
	if (chance(1, 8)) G.s += "\n<!-- head -->\n";
	G.s += "<doc";
	if (chance(1, 3)) { G.s += " lang=\""; d.lang = text(tlen(), true); G.s += "\""; }
	if (chance(1, 6)) { d.count = draw(1000); G.s += fmt(" count=\"%d\"", d.count); }
	int n = draw(9);
	if (!n && chance(1, 2)) { G.s += "/>"; if (chance(1, 3)) G.s += "\n"; return d; }
	G.s += ">";
	for (int i = 0; i < n; ++i)
	{
		space();
		switch (draw(13))
		{
		case 0: if (chance(1, 6)) { G.s += "<title/>"; d.title.clear(); break; } G.s += "<title>"; d.title = text(tlen(), false); G.s += "</title>"; break;
		case 1: d.count = (int) draw(1u << 31); if (chance(1, 2)) d.count = -d.count; G.s += fmt("<count>%d</count>", d.count); break;
		case 2: d.big = draw(1u << 31) * 2u; G.s += fmt("<big>%u</big>", d.big); break;
		case 3: 
		{
			static const char *const FL[] = { "no", "yes", "off", "on", "false", "true", "0", "1", "NO", "Yes" };
			int f = draw(10);
			d.flag = f & 1; G.s += fmt("<flag>%s</flag>", FL[f]); break;
		}
		case 4:
			if (chance(1, 5)) { G.s += chance(1, 2) ? "<tag/>" : "<tag></tag>"; d.tag.push_back(""); break; }
			G.s += "<tag>"; d.tag.push_back(text(tlen(), false)); G.s += "</tag>"; break;
		case 5: for (int k = chance(1, 200) ? range(200, 700) : 1; k--; ) d.sub.push_back(gsub("sub")); break;
		case 6: if (d.one.name.empty() && !d.one.num && d.one.w.empty()) d.one = gsub("one"); break;
		case 8: d.lsub.push_back(gsub("lsub")); break;
		case 9: d.nums.push_back((i64) draw(1 << 30) - (1 << 29)); G.s += fmt("<nums>%lld</nums>", (long long) d.nums.back()); break;
		case 10: d.huge = (u64) draw(1u << 31) << 33 | draw(1u << 31); G.s += fmt("<huge>%llu</huge>", (unsigned long long) d.huge); break;
		case 11: d.small = draw(256); G.s += fmt("<small>%d</small>", d.small); break;
		case 12: { int a = draw(1000), b = draw(64); d.ratio = a + b / 64.0; d.part = d.ratio; G.s += fmt("<ratio>%.6f</ratio><part>%.6f</part>", d.ratio, d.ratio); break; }
		case 7:
			if (chance(1, 12))
			{
				// deeply nested, with elements of known names where they mean nothing, or with many attributes
				static const char *const EL[] = { "x", "title", "tag", "doc", "w", "num" };
				int depth = chance(1, 8) ? (int) draw(2000) : (int) draw(20), at = chance(1, 3) ? chance(1, 8) ? (int) draw(400) : (int) draw(10) : 0;
				G.s += "<unknown";
				for (int j = 0; j < at; ++j) G.s += fmt(" %s%d='%d'", j % 2 ? "title" : "a", j, j);
				G.s += ">";
				std::vector<const char *> open;
				for (int j = 0; j < depth; ++j) { open.push_back(EL[draw(6)]); G.s += std::string("<") + open.back() + ">"; if (chance(1, 8)) G.s += "7"; }
				while (!open.empty()) { G.s += std::string("</") + open.back() + ">"; open.pop_back(); }
				G.s += "</unknown>";
				sim::stat("probe.deep");
				break;
			}
			G.s += chance(1, 3) ? "<unknown a='1'/>" : "<unknown a='1'><x>y</x></unknown>"; break;
		}
	}
	space();
	G.s += "</doc>";
	if (chance(1, 4)) G.s += "\n";
	return d;
}
// 0: well-formed; breaks the document otherwise so that it certainly is malformed
static int spoil()
{
	int k = chance(1, 3) ? range(1, 5) : 0;
	size_t end = G.s.rfind("</doc>"), some = 4;
	if (end == std::string::npos) end = G.s.rfind("/>"), some = 0;
	switch (k)
	{
	case 1: G.s.resize(draw(end + 1 + some)); break;                                   // truncated before the end of the root
	case 2: G.s.resize(end); break;                                             // exactly the closing tag is missing
	case 3: G.s.insert(end, "<open>"); break;
	case 4: G.s += "<again/>"; break;                                           // a second root
	case 5: G.s.insert(G.s.rfind('<', end - 1) + 1, 1, '&'); break;
	}
	if (!k && chance(1, 3))
	{
		// the length at or next to a multiple of the read buffer
		size_t n = (G.s.size() / 4096 + 1) * 4096 + (int) draw(3) - 1;
		if (n > G.s.size()) G.s.append(n - G.s.size(), ' ');
	}
	if (k == 1 && chance(1, 2) && G.s.size() > 4096) G.s.resize(G.s.size() / 4096 * 4096);
	return k;
}
// documents in memory whose length does not fit 31 or 32 bits: the end of the document proper is near the beginning
static void huge_x01()
{
	static char *mem;
	if (!mem) mem = (char *) mmap(NULL, 9ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == (char *) MAP_FAILED) { mem = NULL; return; }
	MDoc m = gdoc();
	size_t n = G.s.size();
	memcpy(mem, G.s.data(), n);
	mem[n] = 'x';                        // this makes it malformed
	size_t len = n + ((u64) range(0, 2) << 32);
	switch (draw(3)) { case 0: if (len > n) break; /* fall through */ case 1: len += 1ull << 31; break; case 2: len += 1 + draw(1u << 31); break; }
	boom_at = chance(1, 2) ? range(1, 3) : 0; boom_kind = range(1, 2); boom_calls = boom_thrown = 0;
	size_t live = alloc_live();
	bool ok = false; int boomed = 0;
	std::string err;
	{
		Cfg *c;
		{ InSut s; c = new Cfg; }
		try { const char *p = mem; size_t l = len; InSut s; c->load_from_string(p, l); ok = true; }
		catch (const Abort &) { throw; }
		catch (const Boom &e) { boomed = e.v; err = "Boom"; }
		catch (const BoomStd &e) { boomed = e.v; err = "BoomStd"; }
		catch (const std::exception &e) { OutSut o; err = e.what(); }
		catch (...) { err = "unknown exception"; }
		{ InSut s; delete c; }
	}
	memset(mem, 0, n + 1);
	ev("huge", len, ok, boomed);
	note(fmt("from memory, %zu bytes, malformed after %zu: %s", len, n, ok ? "loaded" : err.c_str()));
	if (alloc_live() != live) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
	if (ok) fail("accepted", "%zu bytes that are no document after the first %zu were accepted", len, n);
	if (boom_at == 1 && !boom_thrown) fail("refused", "%zu bytes: the document's own code has not been called: %s", len, err.c_str());
	if (boom_thrown && boomed != boom_at) fail("other-exception", "the exception of the document's own code did not reach the caller: %s", err.c_str());
	sim::stat("probe.huge-document");
}
static void x01()
{
	if (draw(1500) == 1499)
	{
		sched_default();
		proc_new("p");
		spawn(proc_get(0), "main", huge_x01);
		if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
		return nontrivial();
	}
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		int n = range(1, 3);
		k_mkdirs("/etc/app");
		int cfg = chance(1, 8) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		for (int i = 0; i < n; ++i)
		{
			MDoc m = gdoc();
			int bad = spoil();
			std::string want = image(m);
			bool missing = chance(1, 20);
			k_mkfile("/etc/app/c.xml", G.s);
			const char *name = missing ? "/etc/app/none.xml" : "/etc/app/c.xml";
			std::map<int, Ofd *> before = k_table(k);
			size_t live = alloc_live();
			int how = draw(4);               // 0, 1, 2: file; 3: memory
			u64 readerr = krn.read_errors;
			int fault = draw(4);             // 0: none, 1: reads and opens, 2: memory, 3: both
			std::string got, err;
			bool ok = false, thrown = false;
			boom_at = chance(1, 8) ? range(1, chance(1, 2) ? 8 : 60) : 0; boom_kind = range(1, 2); boom_calls = boom_thrown = 0;
			int boomed = 0;
			{
				Cfg *c;
				{ InSut s; c = new Cfg; }
				krn.shorts = fault & 1;
				alloc_cfg.faults = fault & 2;
				krn.fault_procs = fault & 1 ? 0 : 1ull << 40;
				if (fault) faults_enable(range(1, fault & 1 ? 3 : 1), chance(1, 2) ? range(2, 20) : range(20, 400));
				try
				{
					const char *p = G.s.data(); size_t len = G.s.size(); const char *cs = G.s.c_str();
					InSut s;
					if (how < 3) c->load_from_file(name);
					else if (len & 1) c->load_from_string(p, len);
					else c->load_from_string(cs);
					ok = true;
				}
				catch (const Abort &) { throw; }
				catch (const Boom &e) { thrown = true; boomed = e.v; err = "Boom"; }
				catch (const BoomStd &e) { thrown = true; boomed = e.v; err = "BoomStd"; }
				catch (const std::exception &e) { thrown = true; OutSut o; err = e.what(); }
				catch (...) { thrown = true; err = "unknown exception"; }
				int fired = fault ? faults.fired : 0;
				faults_disable();
				ev("load", ok, bad, fired);
				note(fmt("%s, %zu bytes%s: %s", how < 3 ? "from file" : "from memory", G.s.size(), bad ? ", malformed" : "", ok ? "loaded" : err.c_str()));
				got = image(c->doc);
				{ InSut s; delete c; }
				if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
				if (alloc_live() != live) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
				if (ok && boom_thrown) fail("accepted", "the document's own code threw, but loading succeeded");
				if (boom_thrown && !fired && !bad && boomed != boom_at) fail("other-exception", "the exception of the document's own code did not reach the caller: %s", err.c_str());
				if (boomed && (!boom_thrown || (err == "Boom") != (boom_kind == 1))) fail("other-exception", "another exception than the one thrown: %s", err.c_str());
				if (boomed) sim::stat("probe.own-exception");
				if (ok)
				{
					if (missing && how < 3) fail("accepted", "loading a missing file succeeded");
					if (bad) fail("accepted", "a malformed document (kind %d, %zu bytes) was accepted", bad, G.s.size());
					if (krn.read_errors != readerr) fail("read-error-accepted", "a read of the file failed with an I/O error, but loading it succeeded");
					if (got != want) fail("wrong-values", "the document was loaded as\n %s\nbut means\n %s", got.c_str(), want.c_str());
					sim::stat("probe.loaded");
					if (fired) sim::stat("probe.loaded-despite-fault");
				}
				else
				{
					if (!thrown) fail("harness", "neither loaded nor thrown");
					if (!bad && !fired && !boom_thrown && !(missing && how < 3)) fail("refused", "a well-formed document of %zu bytes was refused: %s", G.s.size(), err.c_str());
					sim::stat(bad ? "probe.malformed-refused" : "probe.fault-reported");
				}
			}
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
SIM_PROP(X01, x01);
