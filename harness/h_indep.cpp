// Independence of calls on distinct objects: H01. Every call is made alone first, in a fresh process image, and then
// among other threads; it has to give the same result.
#include "../sim/sim.hpp"
#include "../sim/alloc.hpp"
#include "../sim/clk.hpp"
#include <coda/base58.h>
#include <coda/base64.h>
#include <coda/cache.hpp>
#include <coda/easy_parsing.hpp>
#include <coda/error.hpp>
#include <coda/estimate_capacity.hpp>
#include <coda/gmtime.h>
#include <coda/log_array.hpp>
#include <coda/logger.h>
#include <coda/socket.h>
#include <coda/string.h>
#include <coda/string.hpp>
#include <coda/stringstorage.h>
#include <coda/synque.hpp>
#include <coda/txml.hpp>
#include <coda/url.hpp>
#include <coda/url_parser.hpp>
#include <coda/vietnam.hpp>
#include <coda/web64.h>
#include <stdlib.h>
#include <string.h>

using namespace sim;

enum { K_B58, K_B64, K_W64, K_URLENC, K_URLDEC, K_ESC, K_PARAMS, K_HEADER, K_SEARCH, K_SPAN, K_SPLIT, K_SETS, K_FMT, K_URL, K_REL, K_TONES, K_WORDS, K_STORE, K_XML, K_CACHE,
	K_LOGARR, K_ERROR, K_LEVEL, K_ADDR, K_GMTIME, K_NUM, K_SYNQUE, K_ALL };
struct In { int k; std::string a, b; std::vector<std::string> v; int n; u64 t; };

static std::string hex(const std::string &s) { std::string r; char b[4]; for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 32 && s[i] < 127 && s[i] != '\\') r += s[i]; else { snprintf(b, 4, "%02x", (unsigned char) s[i]); r += "\\x"; r += b; } return r; }
static std::string num(i64 n) { char b[32]; snprintf(b, 32, "%lld", (long long) n); return b; }
static std::string off(const char *p, const char *base) { return p ? num(p - base) : std::string("-"); }

struct Item : public coda::txml_determination_object
{
	std::string name; int64_t id; std::vector<std::string> w;
	Item() : id(0) {}
	void determine(coda::txml_parser *p) { txml_member(p, name); txml_member(p, id); txml_member(p, w); }
};
struct Conf : public coda::txml_determination_object
{
	std::string title; uint32_t port; bool on; double f;
	std::list<Item> item;
	int32_t i32; uint64_t u64_; uint8_t u8; float fl; long double ld;
	Conf() : port(0), on(false), f(0), i32(0), u64_(0), u8(0), fl(0), ld(0) {}
	void determine(coda::txml_parser *p) { txml_member(p, i32); txml_member(p, u64_); txml_member(p, u8); txml_member(p, fl); txml_member(p, ld); txml_member(p, title); txml_member(p, port); txml_member(p, on); txml_member(p, f); txml_member(p, item); }
};
struct Root : public coda::txml_determination_object
{
	Conf conf;
	void determine(coda::txml_parser *p) { txml_member(p, conf); }
};
static void enumerated(void *u, const char *k, void *v) { std::string &r = *(std::string *) u; r += k; r += '='; r += num(*(int *) v); r += ' '; }
// a buffer of exactly n bytes with a guard behind it
struct Buf
{
	std::vector<char> b; size_t n;
	Buf(size_t n_) : b(n_ + 16, 0x5b), n(n_) {}
	char *p() { return &b[0]; }
	std::string s(size_t k) { return std::string(&b[0], k < b.size() ? k : b.size()); }
	const char *over() { for (size_t i = n; i < b.size(); ++i) if (b[i] != 0x5b) return "!overrun"; return ""; }
};

static std::string call(const In &i)
{
	std::string r;
	const char *a = i.a.data();
	size_t na = i.a.size();
	switch (i.k)
	{
	case K_B58:
	{
		char *o = NULL, *q = NULL;
		size_t n = coda_base58_encode_alloc(a, na, &o);
		r = o ? std::string(o, n) : "-";
		if (o) { ssize_t m = coda_base58_decode_alloc(o, n, &q); r += "|" + num(m); if (q && m >= 0) r += hex(std::string(q, m)); free(q); Buf d(n + 1); m = coda_base58_decode(o, n, d.p()); r += "|" + num(m); if (m >= 0) r += hex(d.s(m)); }
		free(o);
		q = NULL;
		ssize_t m = coda_base58_decode_alloc(a, na, &q);
		r += "|" + num(m); if (q && m >= 0) r += hex(std::string(q, m)); free(q);
		for (size_t j = 0; j < na; ++j) r += coda_isbase58(a[j]) ? '1' : '0';
		break;
	}
	case K_B64:
	{
		char *o = NULL, *q = NULL;
		size_t n = coda_base64_encode_alloc(a, na, &o), m = 0;
		r = o ? std::string(o, n) : "-";
		if (o) { bool ok = coda_base64_decode_alloc(o, n, &q, &m); r += ok ? "|1" : "|0"; if (q) r += hex(std::string(q, m)); free(q); }
		free(o);
		Buf e(CODA_BASE64_LENGTH(na)); coda_base64_encode(a, na, e.p(), e.n); r += "|" + e.s(e.n) + e.over();
		Buf d(CODA_BASE64_DECODE_LENGTH(na)); m = d.n; bool ok = coda_base64_decode(a, na, d.p(), &m); r += ok ? "|1" : "|0"; if (ok) r += hex(d.s(m)); r += d.over();
		for (size_t j = 0; j < na; ++j) r += coda_isbase64(a[j]) ? '1' : '0';
		break;
	}
	case K_W64:
	{
		Buf e(WEB64_LENGTH(na)); web64_encode(a, na, e.p(), e.n); r = e.s(e.n) + e.over();
		Buf d(WEB64_DECODE_LENGTH(e.n)); size_t m = d.n; bool ok = web64_decode(e.p(), e.n, d.p(), &m); r += ok ? "|1" : "|0"; if (ok) r += hex(d.s(m)); r += d.over();
		break;
	}
	case K_URLENC:
	{
		Buf e(na * 3 + 1); size_t n = coda_urlenc(e.p(), a, na); r = e.s(n) + e.over();
		r += "|" + coda_urlenc(a, na) + "|" + coda_urlenc_noplus(i.a) + "|" + hex(coda_urldec(coda_urlenc(i.a)));
		break;
	}
	case K_URLDEC:
	{
		std::string z = i.a + "%41+%2"; Buf e(z.size() + 1); size_t n = coda_urldec(e.p(), z.data(), z.size()); r = hex(e.s(n)) + e.over() + "|" + hex(coda_urldec(z));
		break;
	}
	case K_ESC:
	{
		std::string z = i.a.c_str(); z += "%20x";
		Buf e(z.size() * 3 + 1), u(z.size() * 3 + 1), p(z.size() * 3 + 1);
		coda_url_escape(z.c_str(), e.p(), e.n); coda_url_unescape(z.c_str(), u.p(), u.n); coda_url_preunescape(z.c_str(), p.p(), p.n);
		r = hex(e.p()) + e.over() + "|" + hex(u.p()) + u.over() + "|" + hex(p.p()) + p.over();
		break;
	}
	case K_PARAMS:
	{
		std::string z; for (size_t j = 0; j < i.v.size(); ++j) z += i.v[j] + (j % 3 == 2 ? "&" : "=") + coda_urlenc(i.a) + "&";
		coda_params_t m; r = num(coda_get_params_buf(m, z.data(), z.size())); for (auto &x : m) r += "|" + hex(x.first) + "=" + hex(x.second);
		break;
	}
	case K_HEADER:
	{
		std::string z; for (size_t j = 0; j < i.v.size(); ++j) z += i.v[j] + ": " + num(j * i.n) + "\r\n"; z += "\r\nrest: no\r\n";
		coda_header_t m; r = num(coda_get_header(m, z.c_str())); for (auto &x : m) r += "|" + hex(x.first) + "=" + hex(x.second);
		break;
	}
	case K_SEARCH:
	{
		const char *c = i.a.c_str(), *b = i.b.c_str(); char x = i.b.empty() ? 'a' : i.b[0];
		r = off(coda_strnchr(a, x, na), a) + off(coda_strxchr(a, x, na), a) + off(coda_revnchr(a, x, na), a) + off(coda_revxchr(a, x, na), a);
		r += off(coda_stristr(c, b), c) + off(coda_strnstr(a, b, na), a) + off(coda_strxstr(a, b, na), a);
		r += num(coda_strnchp(a, x, na)) + "," + num(coda_strxchp(a, x, na));
		break;
	}
	case K_SPAN:
	{
		const char *c = i.a.c_str(); static const char SET[] = "0123456789abcdef";
		r = num(coda_strispn(c, SET)) + "," + num(coda_strnspn(a, SET, na)) + "," + num(coda_strxspn(a, SET, na)) + "," + num(coda_revnspn(a, SET, na)) + "," + num(coda_revxspn(a, SET, na));
		r += "," + num(coda_strispc(c, SET)) + "," + num(coda_strnspc(a, SET, na)) + "," + num(coda_strxspc(a, SET, na)) + "," + num(coda_revnspc(a, SET, na)) + "," + num(coda_revxspc(a, SET, na));
		break;
	}
	case K_SPLIT:
	{
		std::vector<std::string> v = coda_split_string(a, na, " ,;", i.n & 1), w = coda_split_string(i.a.c_str(), "/&=", !(i.n & 1));
		for (auto &x : v) r += hex(x) + "|"; r += "#"; for (auto &x : w) r += hex(x) + "|";
		break;
	}
	case K_SETS:
	{
		std::string z; for (size_t j = 0; j < i.v.size(); ++j) z += i.v[j] + (j & 1 ? "," : " ") + num(j * i.n) + ",";
		std::set<std::string> s; std::set<uint64_t> u; coda_get_stringset(z.c_str(), s); z.clear(); for (size_t j = 0; j < i.v.size(); ++j) z += num(j * i.n) + ","; coda_get_uint64set(z.c_str(), u);
		for (auto &x : s) r += hex(x) + "|"; for (uint64_t x : u) r += num(x) + ",";
		break;
	}
	case K_FMT:
	{
		std::string o = i.b;
		r = hex(coda_strprintf("%s-%d-%s", i.a.c_str(), i.n, i.b.c_str()));
		r += num(coda_strappend(o, "<%s:%d>", i.a.c_str(), i.n)); r += num(coda_strnappend(o, i.n % 40 + 1, "%s+%x", i.b.c_str(), i.n)); r += num(coda_strnprintf(o, 0, i.n % 90 + 1, "%d.%s", i.n, i.a.c_str()));
		r += hex(o);
		break;
	}
	case K_URL:
	case K_REL:
	{
		std::string z = "http://" + (i.v.empty() ? std::string("www.Example.com") : i.v[0] + ".co.uk") + "/" + i.a.c_str() + "/../x y/./" + i.b.c_str() + "?q=" + num(i.n) + "#frag";
		uint32_t fl = i.n & 3;
		coda_url u; r = num(u.create_absolute(z.data(), z.size(), fl)) + u.get_url() + "|" + u.get_domain();
		coda_url c(u), e; e = c; r += num(e.get_url_len()) + e.get_url();
		if (i.k == K_REL) { coda_url p; std::string rel = std::string(i.n % 3 ? "../" : "/") + i.b.c_str() + "?z"; r += "|" + num(p.create_relative(rel.data(), rel.size(), fl, u)) + p.get_url() + "|" + p.get_domain(); }
		break;
	}
	case K_TONES: { std::string z = i.a + "Ti\xe1\xba\xbfng Vi\xe1\xbb\x87t \xc4\x91\xc6\xa1n" + i.b; r = hex(coda_remove_tones_utf8(z.data(), z.size())); break; }
	case K_WORDS: { std::string z; for (auto &x : i.v) z += "  " + x + "\t"; const char *be = z.c_str(), *en = be; while (get_next_word(be, en)) { r += std::string(be, en) + "|"; be = en; } break; }
	case K_STORE:
	{
		string_storage ss; string_storage_init(&ss, sizeof(int));
		for (size_t j = 0; j < i.v.size(); ++j) { int *p = (int *) string_storage_add(&ss, i.v[j].c_str()); if (!p) { r += "null "; continue; } *p = *p * 10 + (int) j + 1; }
		string_storage_enumerate(&ss, enumerated, &r);
		string_storage_free(&ss);
		break;
	}
	case K_XML:
	{
		std::string z = "<conf port=\"" + num(i.n) + "\"><title>T" + (i.v.empty() ? std::string("x") : i.v[0]) + "&amp;</title>";
		for (size_t j = 0; j < i.v.size(); ++j) z += "<item id='" + num(j * 7 + i.n) + "'><name>" + i.v[j] + "</name><w>" + num(j) + "</w><w>b</w></item>";
		static const char *const N[] = { "0", "7", "-12", "255", "2147483647", "4294967296", "99999999999999999999999", "-99999999999999999999999", "1e400", "1e-400", "x", "", " 3 ", "0.5" };
		z += std::string("<i32>") + N[i.n % 14] + "</i32><u64_>" + N[i.n / 14 % 14] + "</u64_><u8>" + N[i.n / 3 % 14] + "</u8><fl>" + N[i.n / 5 % 14] + "</fl><ld>" + N[i.n / 7 % 14] + "</ld>";
		z += i.n % 5 ? "<on>yes</on><f>1.5</f></conf>" : "<on>no</f></conf>";
		Root c;
		try { c.load_from_string(z.data(), z.size()); r = "ok"; } catch (const std::exception &x) { r = std::string("thrown ") + x.what(); }
		Conf &d = c.conf;
		r += hex(d.title) + num(d.port) + (d.on ? "+" : "-") + num((i64) (d.f * 100));
		r += num(d.i32) + "," + num((i64) d.u64_) + "," + num(d.u8) + "," + num((i64) (d.fl > 1e6 || d.fl < -1e6 ? 77 : d.fl * 100)) + "," + num((i64) (d.ld > 1e6 || d.ld < -1e6 ? 77 : d.ld * 100));
		for (auto &x : d.item) { r += "{" + hex(x.name) + num(x.id); for (auto &w : x.w) r += "," + hex(w); r += "}"; }
		break;
	}
	case K_CACHE:
	{
		coda_cache<std::string, int> c(4 * sizeof(int), 10);
		for (size_t j = 0; j < i.v.size(); ++j) { c.set(i.v[j], (int) j + i.n, j & 1); const int *p = c.get(i.v[j / 2]); r += p ? num(*p) + "," : "-,"; if (j % 5 == 4) c.erase(i.v[j - 1]); }
		std::string d; c.dbg(d, 0); r += d.substr(0, d.find("time_max"));
		break;
	}
	case K_LOGARR: { coda::log_array<int, 6> l; for (size_t j = 0; j < na; ++j) l.get_by_value((unsigned char) a[j]) += (int) j; for (int j = 0; j < 6; ++j) r += num(l.get_at(j)) + ","; r += num(estimate_capacity(i.a) - i.a.capacity()); break; }
	case K_ERROR:
	{
		try { throw coda_error("%s:%d:%s", i.a.c_str(), i.n, coda_strerror(i.n % 140)); } catch (const std::exception &x) { r = hex(x.what()); }
		try { throw coda_errno(i.n % 140, "cannot %s", i.b.c_str()); } catch (const std::exception &x) { r += "|" + hex(x.what()); }
		break;
	}
	case K_LEVEL: { static const char *const L[] = { "debug", "INFO", "notice", "Warn", "error", "crit", "alert", "emerg", "access", "?", "", "a" }; for (int j = 0; j < 12; ++j) r += num(log_levels(L[(j + i.n) % 12])) + ","; break; }
	case K_ADDR: { std::string z = num(i.n % 300) + "." + num(i.n % 7) + ".0." + num(i.t % 257); r = num(coda_inet_addr(z.data(), z.size())); break; }
	case K_GMTIME: { struct tm t; memset(&t, 0, sizeof t); coda_gmtime((time_t) i.t, &t); r = num(t.tm_year) + "-" + num(t.tm_mon) + "-" + num(t.tm_mday) + " " + num(t.tm_hour) + ":" + num(t.tm_min) + ":" + num(t.tm_sec) + " " + num(t.tm_wday); break; }
	case K_NUM: { std::string z = num(i.t); r = num(coda_atou(z.data(), z.size())) + num(coda_atoi(a, na)); z = "-" + num(i.n); r += num(coda_atoi(z.data(), z.size())); break; }
	case K_SYNQUE: { coda::synque<std::string> q; for (auto &x : i.v) q.add(x); std::string e; while (0 == q.get(e, 0)) r += e + "|"; break; }
	}
	return r;
}

static std::string blob(int max)
{
	std::string s; int n = draw(max + 1); int style = draw(3);
	for (int i = 0; i < n; ++i) s += style == 0 ? (char) draw(256) : style == 1 ? "abcXYZ0129/+=._ -%&;,"[draw(21)] : (char) (97 + draw(26));
	return s;
}
// what earlier calls left on the stack
__attribute__((noinline, no_sanitize("thread", "address"))) static void dirty_stack(int c)
{
	char b[48 * 1024];
	char *p = b;
	size_t n = sizeof b;
	__asm__ __volatile__ ("rep stosb" : "+D" (p), "+c" (n) : "a" (c) : "memory");
}
static void h01()
{
	sched_default();
	sched.hook_all = true;
	static const u32 W[] = { 4, 10, 25, 80, 250 };
	sched.weak = W[draw(5)];
	proc_new("p");
	int nt = range(2, 3);
	if (chance(1, 6)) nt = 1;
	// a few inputs, so that several threads make calls of the same kind at once
	std::vector<In> *in = new std::vector<In>;
	int kinds = range(1, 3), kk[3];
	for (int i = 0; i < kinds; ++i) kk[i] = draw(K_ALL);
	int nin = range(2, 6);
	for (int i = 0; i < nin; ++i)
	{
		In x;
		x.k = kk[draw(kinds)];
		x.a = blob(chance(1, 5) ? 90 : 20);
		x.b = blob(8);
		for (size_t j = 0; j < x.b.size(); ++j) if (!x.b[j]) x.b[j] = 'b';
		int nv = draw(7);
		for (int j = 0; j < nv; ++j) { std::string w; int n = range(1, 6); for (int l = 0; l < n; ++l) w += "abcxyz"[draw(6)]; x.v.push_back(w); }
		x.n = draw(1000);
		x.t = chance(1, 2) ? draw(1u << 31) : (u64) draw(100000) * 86400;
		in->push_back(x);
	}
	std::vector<std::string> *want = new std::vector<std::string>;
	putenv((char *) "TZ=UTC0");
	tzset();
	spawn(proc_get(0), "main", [=]() {
		for (size_t i = 0; i < in->size(); ++i)
		{
			sut_globals_reset();
			std::string r;
			dirty_stack(0);
			{ InSut s; r = call((*in)[i]); }
			evs("alone", r);
			want->push_back(std::string(r.data(), r.size()));
		}
		sut_globals_reset();
		static const char *const ZONES[] = { "TZ=UTC0", "TZ=SIM-5:45", "TZ=EST5EDT,M3.2.0,M11.1.0", "TZ=WST+9:30" };
		putenv((char *) ZONES[draw(4)]);
		tzset();
		std::vector<Task *> ts;
		for (int t = 0; t < nt; ++t) ts.push_back(spawn(proc_get(0), fmt("t%d", t), [=]() {
			int n = range(1, 4);
			for (int j = 0; j < n; ++j)
			{
				int k = draw(in->size());
				const In keep = (*in)[k];
				In mine = keep;
				std::string r;
				dirty_stack(0x11 * (1 + (k + j) % 15));
				{ InSut s; r = call(mine); }
				if (tracing()) note(fmt("call of kind %d gives %s", mine.k, r.c_str()));
				ev("call", k);
				if (r != (*want)[k]) fail("not-independent", "a call (kind %d) gives '%.200s' among other calls, but '%.200s' alone", mine.k, r.c_str(), (*want)[k].c_str());
				if (mine.a != keep.a || mine.b != keep.b || mine.v != keep.v) fail("input-changed", "a call (kind %d) changed its input", mine.k);
			}
		}));
		wait_until("@threads", [=]() { for (Task *t : ts) if (!task_done(t)) return false; return true; });
	});
	if (go() == STUCK) fail("stuck", "calls do not end: %s", stuck_list().c_str());
	delete in; delete want;
}
SIM_PROP(H01, h01);
