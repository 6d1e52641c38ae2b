// Code that owns memory, with allocations failing at drawn points: A01..A04
#include "../sim/sim.hpp"
#include "../sim/alloc.hpp"
#include <coda/base58.h>
#include <coda/base64.h>
#include <coda/string.hpp>
#include <coda/stringstorage.h>
#include <coda/url.hpp>
#include <coda/url_parser.hpp>
#include <coda/vietnam.hpp>
#include <coda/web64.h>
#include <memory>
#include <map>
#include <new>
#include <set>
#include <string.h>

extern "C" void *string_storage_find(string_storage *, const char *) __attribute__((weak));

using namespace sim;

static std::string hexs(const std::string &s) { std::string r; for (size_t i = 0; i < s.size() && i < 60; ++i) r += s[i] > 32 && s[i] < 127 && s[i] != '\\' ? std::string(1, s[i]) : fmt("\\x%02x", (unsigned char) s[i]); return r + (s.size() > 60 ? fmt("...(%zu)", s.size()) : ""); }
static void arm() { alloc_cfg.faults = true; faults_enable(range(1, 4), chance(1, 2) ? range(1, 4) : range(4, 40)); }

// ---------------------------------------------------------------- A01
struct Ent { char *ud; std::string fill, full; int seen; };
static std::map<std::string, Ent> *ents;
static size_t UD;
static bool longkeys;
static std::vector<std::string> *keys;
static std::string rnd(int n, int alpha) { std::string r; while (n-- > 0) r += (char) ('a' + draw(alpha)); return r; }
static std::string newkey()
{
	std::string s;
	size_t nk = keys->size();
	switch (nk ? draw(7) : 0)
	{
	case 0: s = rnd(draw(24), 1 + draw(26)); break;
	case 1: { const std::string &k = (*keys)[draw(nk)]; s = k.substr(0, draw(k.size() + 1)) + rnd(draw(16), 2); break; }
	case 2: { const std::string &a = (*keys)[draw(nk)], &b = (*keys)[draw(nk)]; s = a.substr(0, draw(a.size() + 1)) + b.substr(draw(b.size() + 1)); break; }
	case 3: s = (*keys)[draw(nk)]; break;
	case 4: s = std::string(draw(longkeys ? 600 : 40), 'x') + rnd(draw(4), 3); break;
	case 5: { s = (*keys)[draw(nk)]; if (!s.empty()) s[draw(s.size())] = 'a' + draw(3); break; }
	case 6: { s = (*keys)[draw(nk)]; s += chance(1, 2) ? (char) ('\x80' + draw(100)) : '!'; break; }
	}
	if (longkeys && chance(1, 2))
	{
		// common beginnings around and far above what one byte can count
		int n = chance(1, 2) ? range(230, 290) : (int) draw(1200);
		if (chance(1, 2) || keys->empty()) s = std::string(n, 'x') + s;
		else { const std::string &k = (*keys)[draw(nk)]; s = k.substr(0, n) + s; }
	}
	size_t cap = longkeys ? 4094 - UD : 4094 - UD < 255 ? 4094 - UD : 255;
	if (s.size() > cap) s.resize(cap);
	if (keys->empty() || chance(1, 2)) { if ((int) keys->size() < 40) keys->push_back(s); else (*keys)[draw(keys->size())] = s; }
	return s;
}
static void enum_cb(void *u, const char *key, void *value)
{
	OutSut o;
	if (u != &UD) fail("enumerate", "the callback's own argument was not passed on");
	std::string k(key);
	auto i = ents->lower_bound(k);
	for (; i != ents->end() && i->second.ud != value; ++i) if (i->first.compare(0, k.size(), k)) { i = ents->end(); break; }
	if (i == ents->end() || i->first.substr(0, 255) != k)
	{
		if (ents->count(k)) fail("enumerate", "'%s' was enumerated with other user data than add returned", hexs(k).c_str());
		fail("enumerate", "'%s' was enumerated but is not in the storage", hexs(k).c_str());
	}
	if (i->second.seen++) fail("enumerate", "'%s' was enumerated twice", hexs(k).c_str());
}
static void audit(string_storage *ss)
{
	for (auto &e : *ents) e.second.seen = 0;
	{ InSut s; string_storage_enumerate(ss, enum_cb, &UD); }
	for (auto &e : *ents)
	{
		if (!e.second.seen) fail("lost", "'%s' was added but is not enumerated", hexs(e.first).c_str());
		if (UD && memcmp(e.second.ud, e.second.fill.data(), UD)) fail("user-data", "the user data of '%s' changed", hexs(e.first).c_str());
		if (string_storage_find)
		{
			void *p; const char *k = e.second.full.c_str();
			{ InSut s; p = string_storage_find(ss, k); }
			if (p != e.second.ud) fail("lost", "'%s' was added but is not found", hexs(e.first).c_str());
		}
	}
}
// hundreds to tens of thousands of strings
struct Big { std::map<std::string, char *> at; std::map<std::string, bool> seen; };
static Big *big;
static void big_cb(void *, const char *key, void *value)
{
	OutSut o;
	auto i = big->at.find(key);
	if (i == big->at.end()) fail("enumerate", "'%s' was enumerated but is not in the storage", hexs(key).c_str());
	if (i->second != value) fail("enumerate", "'%s' was enumerated with other user data than add returned", hexs(key).c_str());
	if (big->seen[key]) fail("enumerate", "'%s' was enumerated twice", hexs(key).c_str());
	big->seen[key] = true;
}
static void big_a01()
{
	Big b; big = &b;
	size_t live = alloc_live();
	int pat = draw(5), n = chance(1, 3) ? range(250, 270) : range(300, 2000);
	if (pat == 3 && chance(1, 2)) n = range(65530, 70000);
	UD = pat == 4 ? 4000 : 4;
	if (pat == 4 && chance(1, 8)) n = range(65530, 65600);
	string_storage ss;
	{ InSut s; string_storage_init(&ss, UD); }
	u32 mul = pat == 1 || pat == 2 ? 7919 : 1;              // in another order than the alphabet's
	for (int i = 0; i < n; ++i)
	{
		int v = (u64) i * mul % n;
		if (mul > 1 && n % 7919 == 0) v = i;
		std::string k = pat == 2 ? fmt("a common beginning %d %05d", v % 3, v) : fmt("k%05d", v);
		const char *c = k.c_str();
		char *p;
		{ InSut s; p = (char *) string_storage_add(&ss, c); }
		if (!p) fail("refused", "string %d was refused with memory available", i);
		int z; memcpy(&z, p, 4);
		if (z) fail("user-data", "new user data is not zeroed");
		memcpy(p, &v, 4);
		b.at[k] = p;
		if (i % 97 == 0)
		{
			auto j = b.at.begin();
			std::string o = chance(1, 2) ? j->first : k;
			const char *oc = o.c_str();
			char *q;
			{ InSut s; q = (char *) string_storage_add(&ss, oc); }
			if (q != b.at[o]) fail("identity", "adding '%s' again returned other user data", o.c_str());
		}
	}
	for (int t = 0; t < 2; ++t)
	{
		{ InSut s; string_storage_enumerate(&ss, big_cb, NULL); }
		for (auto &e : b.at)
		{
			if (!b.seen[e.first]) fail("lost", "'%s' was added but is not enumerated", e.first.c_str());
			int v; memcpy(&v, e.second, 4);
			if (v != atoi(e.first.c_str() + (pat == 2 ? 21 : 1))) fail("user-data", "the user data of '%s' changed", e.first.c_str());
		}
		b.seen.clear();
		if (t) break;
		for (auto &e : b.at) { const char *c = e.first.c_str(); char *q; { InSut s; q = (char *) string_storage_add(&ss, c); } if (q != e.second) fail("identity", "adding '%s' again returned other user data", c); }
	}
	{ InSut s; string_storage_free(&ss); }
	if (alloc_live() != live) fail("leak", "%d allocations are left", (int) (alloc_live() - live));
	sim::stat("probe.big-storage");
}
static void a01()
{
	sched_default();
	proc_new("p");
	if (chance(1, 2000)) { spawn(proc_get(0), "main", big_a01); go(); nontrivial(); return; }
	spawn(proc_get(0), "main", []() {
		std::map<std::string, Ent> es; ents = &es;
		std::vector<std::string> ks; keys = &ks;
		static const size_t UDS[] = { 0, 1, 4, 8, 8, 16, 40, 300, 1000, 2000, 4000 };
		UD = UDS[draw(11)];
		longkeys = chance(1, 9);
		size_t live = alloc_live();
		string_storage ss;
		size_t ud = UD;
		{ InSut s; string_storage_init(&ss, ud); }
		int ops = chance(1, 4) ? range(40, 160) : range(4, 40);
		bool faulty = !chance(1, 4);
		for (int i = 0; i < ops; ++i)
		{
			if (faulty && (i == 0 || chance(1, 40))) { alloc_cfg.faults = true; faults_enable(range(1, 6), chance(1, 2) ? range(1, 4) : range(4, 40)); }
			if (faulty && chance(1, 20)) faults_disable();
			std::string k = newkey();
			if (UD < 3000 && chance(1, 40))
			{
				k = fmt("L%06u", draw(1000000));
				int max = 4096 - 2 - (int) UD, n = chance(1, 2) ? max - 3 + (int) draw(6) : range(256, max);
				k.resize(n < 256 ? 256 : n, 'l');
			}
			auto it = es.find(k);
			int f0 = faults.fired;
			char *p; const char *c = k.c_str();
			{ InSut s; p = (char *) string_storage_add(&ss, c); }
			int fired = faults.fired - f0;
			ev("add", k.size(), p != NULL, fired);
			note(fmt("add '%s': %s", hexs(k).c_str(), p ? "stored" : "null"));
			if (it != es.end())
			{
				if (p != it->second.ud) fail("identity", "adding '%s' again returned other user data", hexs(k).c_str());
				sim::stat("probe.added-again");
				continue;
			}
			if (!p)
			{
				if (!fired && k.size() + 2 + UD <= 4096) fail("refused", "'%s' was refused with memory available", hexs(k).c_str());
				sim::stat(fired ? "probe.add-failed" : "probe.too-long");
				if (chance(1, 2)) audit(&ss);
				continue;
			}
			Ent e;
			e.ud = p; e.seen = 0; e.full = k;
			for (auto &o : es) if (p < o.second.ud + (UD ? UD : 1) && o.second.ud < p + (UD ? UD : 1)) fail("identity", "'%s' and '%s' share their user data", hexs(o.second.full).c_str(), hexs(k).c_str());
			for (size_t j = 0; j < UD; ++j) { if (p[j]) fail("user-data", "new user data is not zeroed"); e.fill += (char) draw(256); }
			if (UD) memcpy(p, e.fill.data(), UD);
			es[k] = e;
			if (chance(1, 10)) audit(&ss);
		}
		faults_disable();
		audit(&ss);
		// still usable
		for (int i = 0; i < 3; ++i)
		{
			std::string k = newkey();
			char *p; const char *c = k.c_str();
			{ InSut s; p = (char *) string_storage_add(&ss, c); }
			if (!p) fail("refused", "'%s' was refused with memory available", hexs(k).c_str());
			auto it = es.find(k);
			if (it != es.end() && it->second.ud != p) fail("identity", "adding '%s' again returned other user data", hexs(k).c_str());
			if (it == es.end()) { Ent e; e.ud = p; e.seen = 0; e.full = k; e.fill.assign(p, UD); es[k] = e; }
		}
		audit(&ss);
		{ InSut s; string_storage_free(&ss); }
		if (alloc_live() != live) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
	});
	go();
	nontrivial();
}
SIM_PROP(A01, a01);

// ---------------------------------------------------------------- A02
// buffers on the heap, of exactly the given size, so that every byte too much is noticed
struct Buf { char *p; size_t n; Buf(size_t n_, int c) : p((char *) malloc(n_ ? n_ : 1)), n(n_) { memset(p, c, n); } ~Buf() { free(p); } private: Buf(const Buf &); };
static std::string payload(int codec)
{
	std::string s;
	int n = chance(1, 8) ? (int) draw(400) : (int) draw(40), z = chance(1, 3) ? (int) draw(5) : 0;
	if (chance(1, 40))
	{
		// long ones; zeros are cheap in base 58, everything else takes quadratic time
		sim::stat("probe.long-payload");
		(codec ? n : z) = chance(1, 8) ? range(60000, 100000) : range(250, 3000);
	}
	s.assign(z, '\0');
	for (int i = 0; i < n; ++i) s += (char) (chance(1, 4) ? "\0\xff\x80\x7f"[draw(4)] : draw(256));
	return s;
}
static const char A58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char W64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string ref58(const std::string &in)
{
	std::vector<int> d;
	for (size_t i = 0; i < in.size(); ++i)
	{
		int c = (unsigned char) in[i];
		for (size_t j = 0; j < d.size(); ++j) { c += d[j] << 8; d[j] = c % 58; c /= 58; }
		for (; c; c /= 58) d.push_back(c % 58);
	}
	std::string r;
	for (size_t i = 0; i < in.size() && !in[i]; ++i) r += '1';
	for (size_t j = d.size(); j--;) r += A58[d[j]];
	return r;
}
static std::string ref64(const std::string &in, const char *a, char pad)
{
	std::string r;
	for (size_t i = 0; i < in.size(); i += 3)
	{
		unsigned v = 0, n = in.size() - i < 3 ? in.size() - i : 3;
		for (unsigned j = 0; j < 3; ++j) v = v << 8 | (j < n ? (unsigned char) in[i + j] : 0);
		for (unsigned j = 0; j < 4; ++j) r += j <= n ? a[v >> (18 - 6 * j) & 63] : pad;
	}
	return r;
}
static std::string foreign(std::string s, const char *alpha)
{
	// one character that belongs neither to the alphabet nor to the padding
	char c;
	do c = (char) draw(256); while (strchr(alpha, c) || c == '=' || c == '.');
	if (s.empty() || chance(1, 4)) s.insert(draw(s.size() + 1), 1, c); else s[draw(s.size())] = c;
	return s;
}
static void a02()
{
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		bool faulty = !chance(1, 4);
		int n = range(2, 10);
		for (int k = 0; k < n; ++k)
		{
			int codec = draw(2);                       // 58, 64
			std::string in = payload(codec);
			size_t live = alloc_live();
			if (faulty) arm(); else faults_disable();
			std::string enc = codec ? ref64(in, A64, '=') : ref58(in);
			int what = draw(5);
			int f0 = faults.fired;
			char *out = (char *) 0x5a5a;
			const char *ip = in.data(); size_t il = in.size();
			switch (what)
			{
			case 0:                                    // fixed-buffer encoding, also into less room than needed
			{
				size_t room = (!codec && in.size() > 4000) || chance(1, 2) ? enc.size() + 1 : draw(enc.size() + 3);
				Buf b(room, '#');
				{ InSut s; if (codec) coda_base64_encode(ip, il, b.p, room); else coda_base58_encode(ip, il, b.p, room); }
				int fired = faults.fired - f0;
				if (!fired)
				{
					size_t m = room < enc.size() ? room : enc.size();
					if (memcmp(b.p, enc.data(), m)) fail("wrong", "%zu bytes encoded as '%s', expected '%s'", il, hexs(std::string(b.p, m)).c_str(), enc.c_str());
					if (room > enc.size() && b.p[enc.size()]) fail("wrong", "the encoded text is not terminated");
				}
				else if (room && memchr(b.p, 0, room) && enc != b.p && *b.p && enc.compare(0, strlen(b.p), b.p)) fail("wrong", "garbage after a failed allocation: '%s'", hexs(b.p).c_str());
				break;
			}
			case 1:
			{
				size_t r;
				{ InSut s; r = codec ? coda_base64_encode_alloc(ip, il, &out) : coda_base58_encode_alloc(ip, il, &out); }
				int fired = faults.fired - f0;
				if (out == (char *) 0x5a5a) fail("output", "the output pointer was not set");
				if (!out && !fired) fail("output", "null without an allocation failure");
				if (out && enc != out) fail("wrong", "%zu bytes encoded as '%s', expected '%s'%s", il, hexs(out).c_str(), enc.c_str(), fired ? " (an allocation has failed)" : "");
				if (out && codec && r != enc.size()) fail("wrong", "length %zu returned for %zu characters", r, enc.size());
				if (out && r < enc.size()) fail("wrong", "length %zu returned for %zu characters", r, enc.size());
				if (!out) sim::stat("probe.encode-failed");
				{ InSut s; free(out); }
				break;
			}
			case 2: case 3:
			{
				bool bad = chance(1, 3) && (codec || in.size() < 4000);   // base 58 takes quadratic time
				if (bad) enc = foreign(enc, codec ? A64 : A58);
				Buf e(enc.size(), 0);
				memcpy(e.p, enc.data(), enc.size());
				const char *ep = e.p; size_t el = e.n;
				if (what == 2)
				{
					Buf b(in.size() + (codec ? 0 : 0), '#');
					bool ok; size_t len = b.n;
					Buf big(enc.size() + 1, '#');          // an invalid text may decode to something longer
					char *d = bad ? big.p : b.p; if (bad) len = big.n;
					ssize_t r = 0;
					{ InSut s; if (codec) ok = coda_base64_decode(ep, el, d, &len); else { r = coda_base58_decode(ep, el, d); ok = r >= 0; } }
					if (!codec) len = r;
					int fired = faults.fired - f0;
					ev("decode", ok, bad, fired);
					if (ok && bad) fail("accepted", "'%s' has a foreign character but was decoded", hexs(enc).c_str());
					if (ok && (len != in.size() || memcmp(d, in.data(), len))) fail("wrong", "'%s' decoded to other bytes%s", hexs(enc).c_str(), fired ? " although an allocation has failed" : "");
					if (!ok && !bad && !fired) fail("refused", "'%s' was refused", hexs(enc).c_str());
					if (fired && ok && !codec) fail("accepted", "success reported although the allocation has failed");
				}
				else
				{
					bool ok; size_t len = 4711; ssize_t r = 0;
					{ InSut s; if (codec) ok = coda_base64_decode_alloc(ep, el, &out, &len); else { r = coda_base58_decode_alloc(ep, el, &out); ok = r >= 0; } }
					if (!codec) len = r;
					int fired = faults.fired - f0;
					ev("decode_alloc", ok * 2 + (out != NULL), bad, fired);
					if (out == (char *) 0x5a5a) fail("output", "the output pointer was not set");
					if (out && (!ok || bad)) fail("accepted", "'%s' was refused or invalid but there is output", hexs(enc).c_str());
					if (!out && !bad && !fired) fail("refused", "'%s' was refused", hexs(enc).c_str());
					if (ok && bad && !fired) fail("accepted", "'%s' has a foreign character but was decoded", hexs(enc).c_str());
					if (out && (len != in.size() || memcmp(out, in.data(), len))) fail("wrong", "'%s' decoded to other bytes", hexs(enc).c_str());
					if (!codec && ok && !out) fail("accepted", "failure to allocate was reported as %zd decoded bytes", r);
					if (!out && fired) sim::stat("probe.decode-failed");
					{ InSut s; free(out); }
				}
				break;
			}
			case 4:
			{
				std::string w = ref64(in, W64, '.');
				Buf e(w.size() + 1, '#'), d(in.size(), '#');
				size_t len = d.n, wl = e.n; bool ok;
				{ InSut s; web64_encode(ip, il, e.p, wl); }
				if (w != e.p) fail("wrong", "%zu bytes encoded as '%s', expected '%s'", il, hexs(e.p).c_str(), w.c_str());
				{ InSut s; ok = web64_decode(e.p, wl - 1, d.p, &len); }
				if (!ok || len != in.size() || memcmp(d.p, in.data(), len)) fail("wrong", "'%s' did not decode to what was encoded", w.c_str());
				break;
			}
			}
			ev("codec", codec * 8 + what, il, faults.fired - f0);
			note(fmt("%s call %d with %zu bytes, %d failed allocations", codec ? "base64" : "base58", what, il, faults.fired - f0));
			faults_disable();
			if (alloc_live() != live) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
		}
	});
	go();
	nontrivial();
}
SIM_PROP(A02, a02);

// ---------------------------------------------------------------- A03
struct MUrl { bool empty; std::string url, dom; MUrl() : empty(true) {} };
static std::string host()
{
	static const char *H[] = { "example.com", "WWW.Example.COM", "a.b.c.d.org", "localhost", "sub.example.com:8080", "x-y.co.uk" };
	if (chance(1, 50)) { sim::stat("probe.long-host"); std::string s(chance(1, 10) ? range(65000, 70000) : range(200, 600), 'h'); if (chance(1, 2)) for (size_t i = 40; i < s.size(); i += 41) s[i] = '.'; return s + H[draw(2)]; }
	return H[draw(6)];
}
static std::string upath(bool abs)
{
	std::string s;
	static const char *P[] = { "a", "index.html", "..", ".", "", "foo", "b%20c", "long-directory-name-with-many-characters", "x.y.z" };
	int n = draw(5);
	for (int i = 0; i < n; ++i) { if (i || abs) s += "/"; s += P[draw(9)]; }
	if (chance(1, 50)) { sim::stat("probe.long-path"); s += (s.empty() && !abs ? "" : "/") + std::string(chance(1, 10) ? range(65000, 70000) : range(200, 5000), 'p'); }
	if (chance(1, 3)) s += "/";
	if (chance(1, 4)) s += "?q=1&r=/../s";
	if (chance(1, 6)) s += "#frag";
	return s;
}
static std::string absurl()
{
	static const char *S[] = { "http://", "https://", "" };
	return S[draw(3)] + host() + (chance(1, 4) ? "" : upath(true));
}
static std::string image(const coda_url &u) { return u.empty() ? std::string("(empty)") : fmt("%s [%s] %u/%u", u.get_url(), u.get_domain(), u.get_url_len(), u.get_domain_len()); }
static void urlcheck(const coda_url *u, const MUrl &m, const char *where, int i)
{
	bool e = u->empty();
	if (e != m.empty) fail("url", "%s: object %d is %s, expected %s", where, i, image(*u).c_str(), m.empty ? "empty" : m.url.c_str());
	std::string url = u->get_url(), dom = u->get_domain();
	if (e) { if (!url.empty() || !dom.empty() || u->get_url_len() || u->get_domain_len()) fail("url", "%s: the empty object %d has text '%s' (%u, %u)", where, i, url.c_str(), u->get_url_len(), u->get_domain_len()); return; }
	if (url != m.url || dom != m.dom || u->get_url_len() != url.size() || u->get_domain_len() != dom.size())
		fail("url", "%s: object %d is %s, expected %s [%s]", where, i, image(*u).c_str(), m.url.c_str(), m.dom.c_str());
}
static void a03()
{
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		size_t live = alloc_live();
		enum { N = 4 };
		coda_url *u[N];
		MUrl m[N];
		{ InSut s; for (int i = 0; i < N; ++i) u[i] = new coda_url; }
		bool faulty = !chance(1, 5);
		int ops = range(3, 30);
		for (int k = 0; k < ops; ++k)
		{
			int i = draw(N), j = draw(N), what = draw(8);
			std::string a;
			uint32_t flags = draw(4);
			MUrl was = m[j];
			// what the call yields with memory available, from objects of its own
			MUrl exp; int er = 0;
			if (what <= 4)
			{
				a = what <= 1 ? absurl() : chance(1, 5) ? absurl() : chance(1, 8) ? "mailto:x@y" : chance(1, 8) ? "#top" : upath(chance(1, 2));
				if (chance(1, 25)) a.clear();
				coda_url p, t;
				if (what >= 2 && !m[j].empty) p.create_absolute(m[j].url.c_str(), m[j].url.size(), CODA_URL_FETCHABLE);
				if (what >= 2 && !m[j].empty && m[j].url != p.get_url()) continue;  // not reproducible: normalisation is not this property's subject
				er = !m[i].empty ? -1 : what <= 1 ? t.create_absolute(a.c_str(), a.size(), flags) : t.create_relative(a.c_str(), a.size(), flags, p);
				if (!er && m[i].empty) { exp.empty = t.empty(); exp.url = t.get_url(); exp.dom = t.get_domain(); }
			}
			// exactly sized arguments
			Buf b(a.size(), 0); memcpy(b.p, a.data(), a.size());
			const char *ap = b.p; size_t al = a.size();
			if (faulty) arm();
			int f0 = faults.fired, r = 0;
			switch (what)
			{
			case 0: case 1: { InSut s; r = u[i]->create_absolute(ap, al, flags); } break;
			case 2: case 3: case 4: { InSut s; r = u[i]->create_relative(ap, al, flags, *u[j]); } break;
			case 5: case 6: { InSut s; *u[i] = *u[j]; } break;
			case 7:                                 // destroy, and copy-construct anew
			{
				if (i == j) { { InSut s; delete u[i]; u[i] = 0; } faults_disable(); { InSut s; u[i] = new coda_url; } m[i] = MUrl(); break; }
				{ InSut s; delete u[i]; }
				u[i] = 0;
				void *mem = operator new(sizeof(coda_url));
				{ InSut s; u[i] = new (mem) coda_url(*u[j]); }
				int fired = faults.fired - f0;
				faults_disable();
				m[i] = m[j];
				if (fired && u[i]->empty()) m[i] = MUrl();
				urlcheck(u[i], m[i], "after copy construction", i);
				// move it to memory of the code under test, as the others
				coda_url *v; { InSut s; v = new coda_url; *v = *u[i]; u[i]->~coda_url(); }
				operator delete(mem);
				u[i] = v;
				break;
			}
			}
			int fired = faults.fired - f0;
			faults_disable();
			ev("url", what, r, fired);
			note(fmt("call %d on object %d (with %d) '%s': %d, now %s", what, i, j, a.c_str(), r, image(*u[i]).c_str()));
			if (what <= 4)
			{
				if (!fired && r != er) fail("result", "returned %d, expected %d", r, er);
				if (fired && !r && u[i]->empty()) fail("result", "success reported but the object is empty after a failed allocation");
				if (r) { if (!u[i]->empty()) fail("result", "failure reported but the object holds %s", image(*u[i]).c_str()); m[i] = MUrl(); }
				else m[i] = exp;
			}
			else if (what <= 6)
			{
				if (i != j) m[i] = m[j];
				if (fired && u[i]->empty()) { m[i] = MUrl(); sim::stat("probe.assign-failed"); }
			}
			if (fired) sim::stat("probe.failed-allocation");
			if (i != j) m[j] = was;
			for (int q = 0; q < N; ++q) urlcheck(u[q], m[q], "after a call", q);
		}
		{ InSut s; for (int i = 0; i < N; ++i) delete u[i]; }
		if (alloc_live() != live) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
	});
	go();
	nontrivial();
}
SIM_PROP(A03, a03);

// ---------------------------------------------------------------- A04
static void a04()
{
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		size_t live0 = alloc_live();
		std::string *t;
		{ InSut s; t = new std::string; }
		std::string m;
		bool faulty = !chance(1, 4);
		int ops = range(1, 12);
		static const int NEAR[] = { 0, 1, 15, 16, 32766, 32767, 32768, 32769, 65535, 65536, 70000 };
		static const size_t HUGE_[] = { 2147483646u, 2147483647u, 2147483648u, 4294967295u, 1ul << 32, (1ul << 32) + 3, 1ul << 62, (size_t) -2, (size_t) -1 };
		for (int k = 0; k < ops; ++k)
		{
			int len = chance(1, 3) ? NEAR[draw(11)] : (int) draw(chance(1, 3) ? 40000 : 60);
			if (chance(1, 20000)) { len = range(9, 20) << 20; sim::stat("probe.very-long-result"); }      // no stack has room for it
			if (m.size() > 300000) { { InSut s; t->clear(); } m.clear(); }
			std::string x(len, 'a' + draw(26));
			for (int i = 0; i < 4 && len; ++i) x[draw(len)] = 'A' + draw(26);
			int num = (int) draw(2000) - 1000;
			int sep = chance(1, 6) ? 0 : 'A' + draw(26);
			bool self = chance(1, 15);           // a part of the target is an argument
			if (self) { x = m.c_str(); sim::stat("probe.target-is-argument"); }
			std::string full = x + std::string(1, (char) sep) + fmt("/%d", num);
			if (chance(1, 12)) full.clear(), x.clear(), num = 0, self = false;
			bool nothing = full.empty();
			size_t lim = chance(1, 3) ? (size_t) NEAR[draw(11)] : chance(1, 2) ? full.size() + draw(5) - 2 : draw(full.size() + 10);
			if ((long) lim < 0) lim = 0;
			bool huge = chance(1, 12);           // no limit, or one beyond any result
			if (huge) { lim = HUGE_[draw(9)]; sim::stat("probe.huge-limit"); }
			size_t pos = chance(1, 5) ? m.size() + draw(3) : draw(m.size() + 1);
			int what = draw(4), r = 0, thrown = 0;
			std::string cut = full.substr(0, lim), ret;
			size_t live = alloc_live();
			size_t before = t->capacity();
			const char *xs = self ? t->c_str() : x.c_str();
			std::string *rs = NULL;
			if (faulty) arm();
			int f0 = faults.fired;
			try
			{
				InSut s;
				switch (what)
				{
				case 0: rs = new std::string(nothing ? coda_strprintf("%s", "") : coda_strprintf("%s%c/%d", xs, sep, num)); break;
				case 1: r = nothing ? coda_strappend(*t, "%s", "") : coda_strappend(*t, "%s%c/%d", xs, sep, num); break;
				case 2: r = nothing ? coda_strnappend(*t, lim, "%s", "") : coda_strnappend(*t, lim, "%s%c/%d", xs, sep, num); break;
				case 3: r = nothing ? coda_strnprintf(*t, pos, lim, "%s", "") : coda_strnprintf(*t, pos, lim, "%s%c/%d", xs, sep, num); break;
				}
			}
			catch (const std::bad_alloc &) { thrown = 1; }
			catch (const std::exception &e) { fail("thrown", "%zu characters, limit %zu: an exception other than that of a failed allocation: %s", full.size(), lim, e.what()); }
			int fired = faults.fired - f0;
			faults_disable();
			if (rs) { ret = *rs; InSut s; delete rs; }
			ev("fmt", what * 2 + thrown, len, lim);
			note(fmt("call %d, %zu characters, limit %zu, at %zu of %zu: %s", what, full.size(), lim, pos, m.size(), thrown ? "bad_alloc" : "done"));
			if (thrown && !fired && !(huge && what > 1)) fail("thrown", "an exception without a failed allocation");
			if (fired && !thrown) fail("swallowed", "an allocation failed but no exception reached the caller");
			if (!thrown) switch (what)
			{
			case 0: if (ret != full) fail("wrong", "%zu characters were formatted to %zu", full.size(), ret.size()); break;
			case 1: m += full; if (r != (int) full.size()) fail("length", "%d returned for %zu characters", r, full.size()); break;
			case 2: m += cut; if (r != (int) cut.size()) fail("length", "%d returned for %zu characters", r, cut.size()); break;
			case 3:
				if (pos > m.size()) { if (r != -1) fail("length", "%d returned for a place beyond the end", r); break; }
				m.insert(pos, cut); if (r != (int) cut.size()) fail("length", "%d returned for %zu characters", r, cut.size()); break;
			}
			else sim::stat("probe.bad_alloc");
			if (*t != m) fail(thrown ? "not-atomic" : "wrong", "the string has %zu characters, expected %zu%s", t->size(), m.size(), thrown ? " after a failed call" : "");
			(void) before;
			if (alloc_live() > live + 1) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live), alloc_live_list().c_str());
		}
		{ InSut s; delete t; }
		if (alloc_live() != live0) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live0), alloc_live_list().c_str());
	});
	go();
	nontrivial();
}
SIM_PROP(A04, a04);

// ---------------------------------------------------------------- A05
// Functions that return or fill containers: the same call with memory available says what the result is; the caller's container already holds things
struct Res5 { std::string s; std::set<std::string> ss; std::set<uint64_t> us; std::vector<std::string> v; std::map<std::string, std::string> m; int rc; Res5() : rc(0) {} };
static std::string image5(const Res5 &r)
{
	std::string o = fmt("%d '", r.rc) + hexs(r.s) + "' {";
	for (auto &x : r.ss) o += hexs(x) + ",";
	o += "} {";
	for (auto x : r.us) o += fmt("%llu,", (unsigned long long) x);
	o += "} [";
	for (auto &x : r.v) o += hexs(x) + ",";
	o += "] {";
	for (auto &x : r.m) o += hexs(x.first) + "=" + hexs(x.second) + ",";
	return o + "}";
}
typedef std::map<std::string, std::set<std::string> > Parsed;
// independent definitions of the calls that split a text
static std::vector<std::string> parts5(const std::string &s, const char *del, bool ignore)
{
	std::vector<std::string> v(1);
	for (char c : s) if (strchr(del, c)) v.push_back(""); else v.back() += c;
	if (ignore) { std::vector<std::string> w; for (auto &x : v) if (!x.empty()) w.push_back(x); return w; }
	return v;
}
static void pairs5(const std::string &s, bool header, std::map<std::string, std::string> &last, Parsed &all)
{
	size_t i = 0;
	while (i < s.size())
	{
		size_t e = s.find(header ? "\r\n" : "&", i);
		if (e == std::string::npos) e = s.size();
		if (header && e == i) break;
		std::string part = s.substr(i, e - i);
		size_t q = part.find(header ? ':' : '=');
		if (q != std::string::npos) { last[part.substr(0, q)] = part.substr(q + 1); all[part.substr(0, q)].insert(part.substr(q + 1)); }
		i = e + (header ? 2 : 1);
	}
}
static void call5(int what, bool flag, const char *p, size_t n, const char *z, Res5 *r)
{
	InSut s;
	switch (what)
	{
	case 0: coda_get_stringset(z, r->ss); break;
	case 1: coda_get_uint64set(z, r->us); break;
	case 2: r->v = coda_split_string(p, n, ",;=&", flag); break;
	case 3: r->v = coda_split_string(z, ",;=&", flag); break;
	case 4: r->s = coda_urlenc(p, n); break;
	case 5: r->s = coda_urlenc_noplus(p, n); break;
	case 6: r->s = coda_urldec(p, n); break;
	case 7: r->rc = coda_get_params_buf(r->m, p, n); break;
	case 8: r->rc = coda_get_header_buf(r->m, p, n); break;
	case 9: r->rc = flag ? coda_get_params(r->m, z) : coda_get_header(r->m, z); break;
	case 10: r->s = coda_remove_tones_utf8(p, n); break;
	}
}
static void a05()
{
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		size_t live0 = alloc_live();
		bool faulty = !chance(1, 5);
		int ops = range(1, 8);
		for (int k = 0; k < ops; ++k)
		{
			int what = draw(11);
			bool flag = draw(2);
			std::string in;
			int parts = draw(chance(1, 8) ? 200 : 9), longpart = chance(1, 40) ? (int) draw(9) : -1;
			for (int i = 0; i < parts; ++i)
			{
				static const char *const SEP[] = { ",", ";", "&", "=", "\r\n", ":", "", "%2", "+", " " };
				static const char *const TONES[] = { "\xe1\xba\xbf", "\xc4\x91", "\xf0\x9f\x98\x80", "a\xcc\x81", "e" };
				if (what == 1) { in += fmt("%u%s", draw(1u << 31), chance(1, 8) ? " ,x," : ","); continue; }
				int len = draw(chance(1, 6) ? 60 : 6);
				if (i == longpart) { sim::stat("probe.long-part"); len = chance(1, 6) ? range(65000, 70000) : range(200, 3000); }
				for (int j = 0; j < len; ++j) in += what == 10 && chance(1, 3) ? std::string(TONES[draw(5)]) : std::string(1, "abcXYZ019 _-/%"[draw(14)]);
				in += what == 7 || what == 9 ? (i & 1 ? "&" : "=") : what == 8 ? (i & 1 ? "\r\n" : ":") : SEP[draw(10)];
			}
			Buf b(in.size(), 0); memcpy(b.p, in.data(), in.size());
			// exactly sized, terminated
			Buf z(in.size() + 1, 0); memcpy(z.p, in.c_str(), in.size() + 1);
			Res5 want, had;
			{
				Res5 *w;
				{ InSut s; w = new Res5; }
				call5(what, flag, b.p, in.size(), z.p, w);
				want = *w;
				{ InSut s; delete w; }
			}
			Parsed parsed;
			{
				Res5 ref = want;
				if (what == 0) { ref.ss.clear(); if (!in.empty()) for (auto &x : parts5(in, ",", false)) ref.ss.insert(x); }
				if (what == 2 || what == 3) ref.v = parts5(in, ",;=&", flag);
				if (what == 7 || what == 8 || what == 9) { ref.m.clear(); pairs5(in, what == 8 || (what == 9 && !flag), ref.m, parsed); }
				if (ref.ss != want.ss || ref.v != want.v || ref.m != want.m) fail("wrong", "call %d on '%s' gives %s, expected %s", what, hexs(in).c_str(), image5(want).c_str(), image5(ref).c_str());
			}
			// some of what the caller has is about to be replaced
			for (auto &x : want.m) if (chance(1, 4)) had.m[x.first] = "before";
			for (int i = draw(4); i > 0; --i) { had.ss.insert(fmt("old%d", i)); had.us.insert(i); had.m[fmt("old%d", i)] = fmt("v%d", i); }
			if (what == 2 || what == 3 || what == 4) had.v.push_back("old");
			Res5 full = had;
			full.ss.insert(want.ss.begin(), want.ss.end()); full.us.insert(want.us.begin(), want.us.end());
			for (auto &x : want.m) full.m[x.first] = x.second;
			if (what == 2 || what == 3) full.v = want.v;
			full.s = want.s; full.rc = want.rc;
			Res5 *r;
			{ InSut s; r = new Res5(had); }
			if (faulty) { alloc_cfg.faults = true; faults_enable(range(1, 3), chance(1, 2) ? range(1, 3) : range(3, 60)); }
			int f0 = faults.fired; bool thrown = false;
			try { call5(what, flag, b.p, in.size(), z.p, r); }
			catch (const std::bad_alloc &) { thrown = true; }
			int fired = faults.fired - f0;
			faults_disable();
			ev("container", what, in.size(), thrown);
			if (tracing()) note(fmt("call %d on '%s': %s", what, hexs(in).c_str(), thrown ? "bad_alloc" : image5(*r).c_str()));
			if (thrown && !fired) fail("thrown", "an exception without a failed allocation");
			if (memcmp(b.p, in.data(), in.size()) || memcmp(z.p, in.c_str(), in.size() + 1)) fail("input-changed", "call %d changed its input", what);
			if (!thrown)
			{
				// an allocation that failed may be made up for, but what is returned is complete
				if (r->rc == full.rc || !fired)
					if (r->rc != full.rc || r->s != full.s || r->ss != full.ss || r->us != full.us || r->v != full.v || r->m != full.m)
						fail("wrong", "call %d on '%s' with%s failed allocation gives %s, expected %s", what, hexs(in).c_str(), fired ? " a" : "out a", image5(*r).c_str(), image5(full).c_str());
			}
			else
			{
				sim::stat("probe.bad_alloc");
				for (auto &x : had.ss) if (!r->ss.count(x)) fail("lost", "call %d failed and '%s' is missing from the caller's set", what, x.c_str());
				for (auto x : had.us) if (!r->us.count(x)) fail("lost", "call %d failed and %llu is missing from the caller's set", what, (unsigned long long) x);
				for (auto &x : had.m) { auto i = r->m.find(x.first); if (i == r->m.end() || (i->second != x.second && !(parsed.count(x.first) && parsed[x.first].count(i->second)))) fail("lost", "call %d failed and '%s' changed in the caller's map", what, x.first.c_str()); }
				if (r->v != had.v) fail("lost", "call %d failed and the caller's vector changed", what);
				for (auto &x : r->m) if (!had.m.count(x.first) && (!parsed.count(x.first) || !(x.second.empty() || parsed[x.first].count(x.second)))) fail("invented", "call %d failed and put '%s' into the caller's map", what, hexs(x.first).c_str());
				for (auto &x : r->ss) if (!full.ss.count(x)) fail("invented", "call %d failed and put '%s' into the caller's set", what, hexs(x).c_str());
				for (auto x : r->us) if (!full.us.count(x)) fail("invented", "call %d failed and put %llu into the caller's set", what, (unsigned long long) x);
			}
			{ InSut s; delete r; }
		}
		if (alloc_live() != live0) fail("leak", "%d allocations are left: %s", (int) (alloc_live() - live0), alloc_live_list().c_str());
	});
	go();
	nontrivial();
}
SIM_PROP(A05, a05);
