// Paths, descriptors and file mappings in the simulated kernel: F01..F03
#include "../sim/krn.hpp"
#include "../sim/alloc.hpp"
#include <unistd.h>
#include <coda/system.h>
#include <algorithm>
#include <fcntl.h>
#include <set>
#include <string.h>
#include <sys/mman.h>

using namespace sim;

// ------------------------------------------------------------------ F01
static struct F01R
{
	std::set<std::string> want;      // directories that must exist: parents of paths of successful calls
	std::set<std::string> may;       // directories that may exist
	std::set<std::string> obst;      // regular files in the way
	int fired[MAXPROC];
	std::string link, to;
} D;

static void parents(const std::string &path, std::vector<std::string> &out)
{
	std::vector<std::string> v;
	std::string cur;
	size_t i = 0;
	while (i < path.size())
	{
		size_t j = path.find('/', i);
		if (j == std::string::npos) break;             // the last component
		std::string c = path.substr(i, j - i);
		i = j + 1;
		if (c.empty() || c == ".") continue;
		if (c == "..") { size_t k = cur.rfind('/'); cur = k == std::string::npos ? "" : cur.substr(0, k); continue; }
		cur += "/" + c;
		out.push_back(cur);
	}
}
// a directory that is a symbolic link, as another name of one
static std::string real_dir(const std::string &d)
{
	if (!D.link.empty() && (d == D.link || d.compare(0, D.link.size() + 1, D.link + "/") == 0)) return D.to + d.substr(D.link.size());
	return d;
}
static void list_dirs(Inode *n, const std::string &at, std::vector<std::pair<std::string, Inode *> > &out)
{
	for (auto &e : n->ents) { std::string p = at + "/" + e.first; out.push_back(std::make_pair(p, e.second)); if (e.second->type == I_DIR) list_dirs(e.second, p, out); }
}
static std::string pick_path()
{
	static const char *const C[] = { "a", "b", "c", "long-component-name", "d.e" };
	std::string p = chance(1, 5) ? "" : "/";
	if (chance(1, 16)) return "";
	if (chance(1, 40))
	{
		// deep, with long names, up to what the system accepts; or with one name too long for it
		sim::stat("probe.long-path");
		int n = chance(1, 2) ? range(6, 60) : range(2, 15);
		for (int i = 0; i < n; ++i)
		{
			if (i) p += "/";
			p += chance(1, 3) ? std::string(C[draw(5)]) : std::string(chance(1, 2) ? 255 : 20 + draw(236), 'a' + draw(2));
			if (p.size() > 3700) break;
		}
		if (chance(1, 8)) p += "/" + std::string(256, 'c') + "/d";
		return p;
	}
	int n = range(1, 5);
	for (int i = 0; i < n; ++i)
	{
		if (i) p += chance(1, 12) ? "//" : "/";
		if (chance(1, 24)) p += D.link.empty() && D.obst.empty() && chance(1, 2) ? ".." : ".";
		else if (chance(1, 32)) { static const char *const O[] = { "..c", "b..", ".c", "...", "-p", " ", "%s" }; p += O[draw(7)]; }
		else p += C[draw(i < 2 ? 2 : 5)];
	}
	if (chance(1, 10)) p += "/";
	return p;
}
static void f01()
{
	sched_default();
	sched.hook_all = chance(1, 2);
	D = F01R();
	int np = range(1, 4);
	for (int i = 0; i < np; ++i) proc_new(fmt("p%d", i).c_str());
	bool faulty = chance(1, 3), obst = chance(1, 4);
	int kills = np > 1 && chance(1, 6);
	if (kills) { killing_allowed = true; arm_kill(proc_get(0), range(1, 12)); }
	spawn(proc_get(np - 1), "main", [=]() {
		if (obst)
		{
			int k = draw(3);
			std::string f = k == 0 ? "/a/b" : k == 1 ? "/a" : "/b/a";
			if (k == 0) { k_mkdirs("/a"); D.may.insert("/a"); }
			if (k == 2) { k_mkdirs("/b"); D.may.insert("/b"); }
			k_mkfile(f, "data");
			D.obst.insert(f);
		}
		else if (chance(1, 3))
		{
			// a symbolic link on the way: to a directory, or to nothing
			static const struct { const char *dir, *at, *text, *to; } L[] = {
				{ "/a/c", "/a/b", "c", "/a/c" }, { "/a/c", "/a/b", "./../a/c", "/a/c" }, { "/b", "/a", "b", "/b" }, { "/b", "/a", "/b/.", "/b" }, { "/t/u", "/b", "t/u", "/t/u" }, { "/t/u", "/a/c", "/t/u", "/t/u" }, { "/a", "/b", "a", "/a" } };
			int i = draw(7);
			bool dangling = chance(1, 5);
			std::string at = L[i].at;
			size_t q = at.rfind('/');
			if (q) { k_mkdirs(at.substr(0, q)); D.may.insert(at.substr(0, q)); }
			k_symlink(dangling ? "/no/such" : L[i].text, at);
			if (dangling) D.obst.insert(at);
			else
			{
				k_mkdirs(L[i].dir);
				std::vector<std::string> up;
				parents(std::string(L[i].dir) + "/", up);
				D.may.insert(up.begin(), up.end());
				D.link = at; D.to = L[i].to;
			}
			sim::stat(dangling ? "probe.dangling-link" : "probe.symbolic-link");
		}
		if (chance(1, 4)) { k_mkdirs("/a/c"); D.may.insert(real_dir("/a")); D.may.insert(real_dir("/a/c")); }
		if (faulty) faults_enable(range(1, 3), range(2, 12));
		for (int i = 0; i < np; ++i)
		{
			int nth = chance(1, 4) ? 2 : 1;
			for (int th = 0; th < nth; ++th)
			{
			int n = range(1, 3);
			spawn(proc_get(i), nth > 1 ? fmt("p%d.%d", i, th) : fmt("p%d", i), [=]() {
				for (int j = 0; j < n; ++j)
				{
					std::string path = pick_path();
					std::vector<std::string> par;
					parents(path, par);
					for (size_t q = 0; q < par.size(); ++q) D.may.insert(real_dir(par[q]));
					std::vector<char> buf(path.size() + 100, '/');
					buf[0] = 'q';
					char *b = buf.data() + 8;
					strcpy(b, path.c_str());
					memcpy(b + path.size() + 1, "/x/y/\0", 6);
					std::string image(buf.data(), buf.size());
					int f0 = faults.fired, r;
					{ InSut s; r = coda_mkpath(b); }
					int fired = faults.fired - f0;
					ev("mkpath", r);
					note(fmt("mkpath(\"%s\") = %d", path.c_str(), r));
					if (image != std::string(buf.data(), buf.size())) fail("path-modified", "the path \"%s\" is not the same after the call", path.c_str());
					bool blocked = false;
					for (size_t q = 0; q < par.size(); ++q) blocked |= D.obst.count(par[q]) || par[q].size() - par[q].rfind('/') > 256;
					if (r == 0)
					{
						sim::stat("probe.mkpath-succeeded");
						for (size_t q = 0; q < par.size(); ++q)
						{
							Inode *x = k_lookup(par[q]);
							if (!x) fail("missing", "success, but the directory %s of \"%s\" does not exist", par[q].c_str(), path.c_str());
							if (x->type != I_DIR) fail("missing", "success, but %s is not a directory", par[q].c_str());
						}
					}
					else
					{
						sim::stat("probe.mkpath-failed");
						if (r != -1) fail("bad-result", "the call returned %d", r);
						// other processes' faults are counted too: only a lower bound on the reasons to fail
						if (!fired && !blocked) fail("refused", "\"%s\" was refused although no system call failed and nothing is in the way", path.c_str());
					}
					if (chance(1, 3)) yield();
				}
				if (np > 1) nontrivial();
			});
			}
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	// nothing but parents was created, all of them usable
	std::vector<std::pair<std::string, Inode *> > all;
	list_dirs(k_lookup("/"), "", all);
	for (size_t i = 0; i < all.size(); ++i)
	{
		const std::string &p = all[i].first;
		if (p == "/dev" || p.compare(0, 5, "/dev/") == 0 || p == "/tmp") continue;
		if (all[i].second->type == I_LNK) { if (p != D.link && !D.obst.count(p)) fail("extra", "%s was created", p.c_str()); continue; }
		if (all[i].second->type != I_DIR) { if (!D.obst.count(p) || all[i].second->data != "data") fail("extra", "%s was created", p.c_str()); continue; }
		if (!D.may.count(p)) fail("extra", "the directory %s was created, which is no parent of any given path", p.c_str());
		if (all[i].second->mode && (all[i].second->mode & 0700) != 0700) fail("unusable", "the directory %s was created with mode %o: nobody can create anything in it", p.c_str(), all[i].second->mode);
	}
	for (std::set<std::string>::iterator i = D.obst.begin(); i != D.obst.end(); ++i) { bool there = false; for (size_t j = 0; j < all.size(); ++j) there |= all[j].first == *i; if (!there) fail("missing", "%s is gone", i->c_str()); }
	if (!D.link.empty() && k_lookup(D.link) != k_lookup(D.to)) fail("missing", "the link %s is gone", D.link.c_str());
	nontrivial();
}

// ------------------------------------------------------------------ F02
static struct F02R { std::map<std::string, std::vector<std::pair<u64, std::string> > > ver; } V;
static std::string filler(int n, u32 id) { std::string s(n, 0); for (int i = 0; i < n; ++i) s[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(id * 5 + i + i / 26) % 26]; return s; }
static int pick_size()
{
	switch (draw(6))
	{
	case 0: return range(1, 40);
	case 1: return 4096;
	case 2: return 4096 + (int) draw(3) - 1;
	case 3: return range(1, 20000);
	case 4: return 8192;
	}
	return 1;
}
static std::string *cdata(const char *p) { return k_data(p); }
// several threads of one process, each with a file of its own
static struct F02T { std::string want[3]; bool there[3]; } FT;
static void f02_threads()
{
	sched_default();
	sched.hook_all = true;
	proc_new("p");
	FT = F02T();
	int nt = range(2, 3);
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		k_mkdirs("/d");
		for (int t = 0; t < nt; ++t)
		{
			FT.there[t] = !chance(1, 6);
			FT.want[t] = chance(1, 8) ? "" : filler(chance(1, 2) ? (int) range(1, 40) : pick_size(), draw(100));
			if (FT.there[t]) k_mkfile(fmt("/d/f%d", t), FT.want[t]);
		}
		std::map<int, Ofd *> before = k_table(k);
		for (int t = 0; t < nt; ++t) spawn(proc_get(0), fmt("t%d", t), [=]() {
			std::string name = fmt("/d/f%d", t);
			const char *f = name.c_str();
			int n = range(1, 3);
			for (int i = 0; i < n; ++i)
			{
				bool anon = chance(1, 6);
				int prot = chance(1, 2) ? PROT_READ : PROT_READ | PROT_WRITE, fl = chance(1, 2) ? MAP_SHARED : MAP_PRIVATE, r;
				coda_strt a;
				a.data = NULL;
				a.size = anon || (prot & PROT_WRITE && chance(1, 3)) ? pick_size() : 0;
				if (anon) prot = PROT_READ | PROT_WRITE;
				size_t asked = a.size;
				{ InSut s; r = coda_mmap(&a, prot, fl, anon ? NULL : f); }
				ev("mmap-call", t, r, asked);
				note(fmt("coda_mmap(%s, size %zu, prot %d, %s) = %d", anon ? "anonymous" : f, asked, prot, fl == MAP_SHARED ? "shared" : "private", r));
				bool can = anon || (FT.there[t] && (asked || FT.want[t].size()));
				if (r && can) fail("refused", "mapping %s failed although no system call failed", anon ? "anonymous memory" : f);
				if (!r && !can) fail("wrong-contents", "mapping %s, which is missing or empty, succeeded", f);
				if (r) { if (r != -1) fail("bad-result", "the call returned %d", r); sim::stat("probe.mmap-failed"); continue; }
				sim::stat("probe.mapped");
				std::string w = anon ? std::string(asked, 0) : FT.want[t];
				if (asked) w.resize(asked);
				if (a.size != w.size()) fail("wrong-size", "%zu bytes are reported for %s, which has %zu", a.size, anon ? "anonymous memory" : f, w.size());
				if (std::string(a.data, a.size) != w) fail("wrong-contents", "the mapping of %s has other contents", f);
				if (!anon) FT.want[t] = w;
				if (chance(1, 2)) yield();
				if (prot & PROT_WRITE) { size_t at = draw(a.size); a.data[at] = '0' + i; w[at] = '0' + i; if (!anon && fl == MAP_SHARED) FT.want[t] = w; }
				if (!anon && *cdata(f) != FT.want[t]) fail("wrong-contents", "the file %s has the wrong contents afterwards", f);
				{ InSut s; r = coda_umap(&a); }
				if (r) fail("mapping-leak", "unmapping returned %d", r);
			}
		});
		wait_until("@threads", []() { for (int j = 1; j < task_count(); ++j) if (!task_done(task_get(j))) return false; return true; });
		if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
		if (k->maps.size()) fail("mapping-leak", "%zu mappings are left", k->maps.size());
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
// files and areas beyond the 32-bit range: sizes and cleaning up
static void f02_huge()
{
	sched_default();
	proc_new("p");
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		k_mkdirs("/d");
		int n = range(1, 4);
		for (int i = 0; i < n; ++i)
		{
			static const u64 near[] = { 1ull << 31, 1ull << 32, (1ull << 32) + 4096, 3ull << 31, 1ull << 40, 100u << 20 };
			u64 size = near[draw(6)] + draw(3) - 1;
			bool anon = draw(4) == 3, ask = anon || draw(2);
			std::string c = filler(range(1, 5000), draw(100)), name = fmt("/d/f%d", i);
			Inode *ino = k_mkfile(name.c_str(), c);
			if (!ask) ino->hole = size - c.size();
			int prot = ask || draw(2) ? PROT_READ | PROT_WRITE : PROT_READ, fl = draw(2) ? MAP_SHARED : MAP_PRIVATE, r;
			std::map<int, Ofd *> before = k_table(k);
			coda_strt a;
			a.data = NULL; a.size = ask ? size : 0;
			bool faulty = draw(3) == 2;
			if (faulty) faults_enable(1, range(1, 5));
			{ InSut s; r = coda_mmap(&a, prot, fl, anon ? NULL : name.c_str()); }
			int fired = faulty ? faults.fired : 0;
			faults_disable();
			ev("mmap-call", r, size);
			if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
			if (r)
			{
				if (!fired) fail("refused", "a mapping of %llu bytes failed although no system call failed", (unsigned long long) size);
				if (k->maps.size()) fail("mapping-leak", "%zu mappings are left", k->maps.size());
				continue;
			}
			if (k->maps.size() != 1) fail("no-mapping", "success with %zu mappings", k->maps.size());
			if (a.size != size) fail("wrong-size", "%zu bytes are reported, the %s %llu", a.size, anon ? "request was" : "file has", (unsigned long long) size);
			if (k->maps[0].len != size || k->maps[0].addr != a.data) fail("wrong-size", "the mapping has %zu bytes, but %zu are reported", k->maps[0].len, a.size);
			if (!anon && (ino->data != c || ino->data.size() + ino->hole != size)) fail("wrong-contents", "the file has %llu bytes afterwards instead of %llu", (unsigned long long) (ino->data.size() + ino->hole), (unsigned long long) size);
			if (!anon && std::string(a.data, c.size()) != c) fail("wrong-contents", "the mapping has other contents");
			{ InSut s; r = coda_umap(&a); }
			if (r || k->maps.size()) fail("mapping-leak", "unmapping returned %d", r);
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	sim::stat("probe.huge");
	nontrivial();
}
static void f02()
{
	if (draw(30) == 29) { f02_huge(); return; }
	if (chance(1, 5)) { f02_threads(); return; }
	sched_default();
	proc_new("p0");
	proc_new("mover");
	V = F02R();
	static const char *const F[] = { "/d/a", "/d/b", "/d/empty", "/d/missing", "/d" };
	static volatile bool over;
	over = false;
	bool moving = chance(1, 2);
	for (int i = 0; i < 3; ++i)
	{
		if (!i) { spawn(proc_get(1), "setup", []() {}); k_mkdirs("/d"); }
		std::string c = i == 2 ? "" : filler(pick_size(), draw(100));
		if (i < 2 && chance(1, 5)) k_symlink(i ? "real-b" : "/d/real-a", F[i]);
		k_mkfile(F[i], c);
		V.ver[F[i]].push_back(std::make_pair(seq(), c));
	}
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		int cfg = chance(1, 6) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		bool faulty = chance(1, 2);
		int n = range(1, 6);
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		std::vector<coda_strt> open;
		struct { bool on; int fi, prot, fl; bool anon; coda_strt a; size_t asked; } rp;   // a failed call to be repeated
		memset(&rp, 0, sizeof rp);
		for (int i = 0; i < n; ++i)
		{
			std::map<int, Ofd *> before = k_table(k);
			size_t maps = k->maps.size();
			int fi = chance(1, 4) ? 2 + (int) draw(3) : (int) draw(2);
			bool anon = chance(1, 5);
			int prot = chance(1, 2) ? PROT_READ : PROT_READ | PROT_WRITE;
			int fl = chance(1, 2) ? MAP_SHARED : MAP_PRIVATE;
			bool simple = !anon && chance(1, 4);
			coda_strt a;
			a.data = (char *) 0x1234;
			a.size = anon || chance(1, 3) ? pick_size() : 0;
			if (anon) prot = PROT_READ | PROT_WRITE;
			if (simple) { prot = PROT_READ; fl = MAP_PRIVATE; a.size = 0; }
			size_t asked = a.size;
			bool repeated = rp.on;
			if (rp.on)
			{
				// the same call again, with the same area
				fi = rp.fi; prot = rp.prot; fl = rp.fl; anon = rp.anon; a = rp.a; asked = rp.asked; simple = false;
				rp.on = false;
				sim::stat("probe.repeated");
			}
			const char *name = anon ? NULL : F[fi];
			bool inject = faulty && !repeated;
			if (inject) faults_enable(range(1, 2), range(1, 6));
			u64 s0 = seq();
			int r;
			if (simple) { coda_strp p = &a; InSut s; r = coda_mmap_file(p, name); }
			else { InSut s; r = coda_mmap(&a, prot, fl, name); }
			u64 s1 = seq();
			int fired = faults.fired;
			if (!inject) fired = 0;
			faults_disable();
			ev("mmap-call", r, fi, asked);
			note(fmt("coda_mmap(%s, size %zu, prot %d, %s) = %d, %zu mappings, descriptors %s", anon ? "anonymous" : name, asked, prot, fl == MAP_SHARED ? "shared" : "private", r, k->maps.size(), k_fds(k).c_str()));
			if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
			if (r == 0)
			{
				sim::stat("probe.mapped");
				if (k->maps.size() != maps + 1) fail("no-mapping", "success with %d new mappings", (int) (k->maps.size() - maps));
				Mapping &m = k->maps.back();
				if (m.addr != a.data) fail("no-mapping", "the reported address is not that of the mapping");
				if (m.span < a.size) fail("wrong-size", "the mapping has %zu bytes, but %zu are reported", m.span, a.size);
				if (asked && a.size != asked) fail("wrong-size", "%zu bytes were asked for, %zu reported", asked, a.size);
				if ((m.prot & prot) != prot) fail("wrong-access", "the mapping does not allow the requested access");
				if (anon)
				{
					for (size_t j = 0; j < a.size; ++j) if (a.data[j]) fail("wrong-contents", "anonymous memory is not zeroed at offset %zu", j);
					a.data[a.size - 1] = 1; a.data[0] = 1;
				}
				else
				{
					// the contents of some file that had this name during the call, resized if a size was given
					std::string got(a.data, a.size);
					std::vector<std::pair<u64, std::string> > &v = V.ver[name];
					bool ok = false;
					for (size_t j = 0; j < v.size(); ++j)
					{
						if (v[j].first > s1 || (j + 1 < v.size() && v[j + 1].first < s0)) continue;
						std::string w = v[j].second;
						if (asked) w.resize(asked);
						if (w == got) ok = true;
					}
					if (!ok) fail("wrong-contents", "the mapping has %zu bytes which are not the contents of %s", a.size, name);
					if (asked && v.size() == 1) { std::string w = v[0].second; w.resize(asked); v[0].second = w; if (*cdata(name) != w) fail("wrong-contents", "the file %s was not resized to %zu bytes", name, asked); }
					if (prot & PROT_WRITE && v.size() == 1)
					{
						int nw = range(1, 4);
						for (int j = 0; j < nw; ++j) { size_t at = j == 1 ? a.size - 1 : draw(a.size); a.data[at] = '0' + i; got[at] = '0' + i; }
						if (fl == MAP_SHARED) { v[0].second = got; sim::stat("probe.shared-write"); }
						if (chance(1, 2)) { std::string *d = cdata(name); if (*d != v[0].second) fail("wrong-contents", "after writing through a %s mapping the file has the wrong contents", fl == MAP_SHARED ? "shared" : "private"); }
					}
				}
				if (chance(2, 3))
				{
					int u;
					{ InSut s; u = coda_umap(&a); }
					if (u || k->maps.size() != maps) fail("mapping-leak", "unmapping returned %d and left %d of the mappings", u, (int) (k->maps.size() - maps));
				}
				else if (chance(1, 2)) open.push_back(a);
				if (!anon && V.ver[name].size() == 1 && *cdata(name) != V.ver[name][0].second) fail("wrong-contents", "the file %s has the wrong contents afterwards", name);
			}
			else
			{
				sim::stat("probe.mmap-failed");
				if (r != -1) fail("bad-result", "the call returned %d", r);
				if (k->maps.size() != maps) fail("mapping-leak", "the call failed, but %d mappings are left", (int) (k->maps.size() - maps));
				bool reason = fired || (!anon && (fi >= 3 || (fi == 2 && !asked) || (asked && !(prot & PROT_WRITE))));
				if (!anon && V.ver.count(name) && V.ver[name].back().second.empty()) reason = true;
				if (!reason) fail("refused", "mapping %s failed although no system call failed%s", anon ? "anonymous memory" : name, repeated ? " (repeated after a failure)" : "");
				if (!simple && chance(1, 2)) { rp.on = true; rp.fi = fi; rp.prot = prot; rp.fl = fl; rp.anon = anon; rp.a = a; rp.asked = asked; if (i == n - 1 && !repeated) ++n; }
				if (!anon && asked && V.ver.count(name) && V.ver[name].size() == 1)
				{
					// it may have been resized before the failure
					std::string *d = cdata(name), w = V.ver[name][0].second;
					if (d && *d != w) { std::string x = w; x.resize(asked); if (*d != x) fail("wrong-contents", "a failed mapping changed the file"); V.ver[name][0].second = x; }
				}
			}
			if (!anon && asked && V.ver.count(name) && *cdata(name) != V.ver[name].back().second) V.ver[name].push_back(std::make_pair(seq(), *cdata(name)));
			if (chance(1, 2)) yield();
		}
		over = true;
		nontrivial();
	});
	if (moving) spawn(proc_get(1), "mover", []() {
		// another process replaces the files atomically
		int n = range(1, 4);
		for (int i = 0; i < n && !over; ++i)
		{
			const char *f = F[draw(2)];
			std::string c = filler(pick_size(), draw(100));
			k_mkfile("/d/tmp", c);
			k_rename("/d/tmp", f);
			V.ver[f].push_back(std::make_pair(seq(), c));
			ev("replaced", c.size());
			point("replaced");
			if (chance(1, 2)) yield();
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
}

// ------------------------------------------------------------------ F03
struct Own { int task; Ofd *ofd; };
static struct F03R
{
	std::map<int, int> busy;             // descriptor -> task replacing it
	std::map<int, Own> own;              // descriptors the tasks hold between calls
	int in_call[MAXTASK];                // inside a call
} X;
static void f03_fd(KProc *, int fd, Ofd *o, Ofd *n)
{
	int me = cur() ? cur()->id : -1;
	std::map<int, int>::iterator b = X.busy.find(fd);
	if (b != X.busy.end())
	{
		if (!n) fail("target-closed", "descriptor %d was closed while it is being replaced", fd);
		if (b->second != me) fail("target-stolen", "descriptor %d was taken by somebody else while it is being replaced", fd);
		return;
	}
	std::map<int, Own>::iterator w = X.own.find(fd);
	if (w != X.own.end() && o && w->second.ofd == o && (!n || n != o))
		fail("foreign-fd", "descriptor %d, in use elsewhere, was %s", fd, n ? "replaced" : "closed");
}
static void f03()
{
	sched_default();
	sched.hook_all = chance(1, 2);
	proc_new("p");
	X = F03R();
	int nt = range(1, 3);
	bool faulty = chance(1, 2);
	bool one = nt == 1;
	static bool threads_busy;
	threads_busy = false;
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		k_mkdirs("/d");
		for (int i = 0; i < 3; ++i) k_mkfile(fmt("/d/f%d", i), fmt("file %d", i));
		int cfg = one && chance(1, 4) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		for (int t = 0; t < nt; ++t) if (chance(3, 4)) k_open(k, fmt("/d/t%d", t), O_CREAT | O_RDWR, 10 + t);
		krn.on_fd = f03_fd;
		if (faulty) faults_enable(range(1, 4), range(2, 12));
		for (int t = 0; t < nt; ++t)
		{
			int n = range(1, 5);
			spawn(proc_get(0), fmt("t%d", t), [=]() {
				KProc *k = kp();
				int me = cur()->id;
				std::vector<int> mine;
				if (k_ofd(k, 10 + t)) mine.push_back(10 + t);
				for (size_t j = 0; j < mine.size(); ++j) { Own o = { me, k_ofd(k, mine[j]) }; X.own[mine[j]] = o; }
				for (int i = 0; i < n; ++i)
				{
					// the target: one of this thread's descriptors, none, or (alone) any number
					int nd;
					switch (draw(4))
					{
					case 0: nd = -1 - (int) draw(2); break;
					case 1: if (one) { nd = draw(12); break; } // fall through
					default: nd = mine.empty() ? -1 : mine[draw(mine.size())]; break;
					}
					int kind = draw(3);          // 0, 1: fdopen; 2: fdmove
					std::map<int, Ofd *> before = k_table(k);
					Ofd *was = nd >= 0 ? k_ofd(k, nd) : NULL;
					bool existed = false;
					int src = -1;
					Ofd *sofd = NULL;
					std::string path;
					int flags = 0;
					int f0 = faults.fired;
					int r;
					if (kind == 2)
					{
						src = mine.empty() || chance(1, 8) ? 200 : mine[draw(mine.size())];
						sofd = k_ofd(k, src);
						X.own.erase(src);
					}
					if (nd >= 0) { X.own.erase(nd); if (kind != 2 || src != nd) X.busy[nd] = me; }
					if (kind == 2) { InSut s; r = coda_fdmove(src, nd); }
					else
					{
						static const int FL[] = { O_RDONLY, O_RDWR, O_CREAT | O_WRONLY | O_APPEND, O_CREAT | O_RDWR | O_TRUNC };
						flags = FL[draw(4)];
						path = chance(1, 8) ? "/d/none/x" : chance(1, 8) ? "/d/new" : fmt("/d/f%d", (int) draw(3));
						if (one && chance(1, 8)) flags = chance(1, 2) ? O_CREAT | O_EXCL | O_WRONLY : O_WRONLY | O_TRUNC;
						if (one) existed = k_lookup(path);
						const char *p = path.c_str();
						InSut s;
						r = coda_fdopen(nd, p, flags);
					}
					if (nd >= 0) X.busy.erase(nd);
					bool fired = faults.fired != f0;
					ev("fd-call", kind, nd, r);
					note(fmt("%s(%d%s, %d) = %d", kind == 2 ? "fdmove" : "fdopen", kind == 2 ? src : nd, path.c_str(), nd, r));
					Inode *f = kind == 2 ? NULL : k_lookup(path);
					if (r >= 0)
					{
						sim::stat("probe.fd-call-succeeded");
						Ofd *now = k_ofd(k, r);
						if (kind != 2)
						{
							if (nd >= 0 && r != nd) fail("wrong-fd", "opening onto %d returned %d", nd, r);
							if (!now || !f || now->ino != f) fail("wrong-file", "descriptor %d does not refer to %s", r, path.c_str());
							if ((now->flags & (O_ACCMODE | O_APPEND)) != (flags & (O_ACCMODE | O_APPEND))) fail("wrong-file", "%s was opened with other flags", path.c_str());
							if (k->cloexec[r]) fail("wrong-file", "descriptor %d would be closed by an exec, which was not asked for", r);
							if (one && (flags & O_TRUNC) && !f->data.empty()) fail("wrong-file", "%s was to be truncated", path.c_str());
							if (one && (flags & O_EXCL) && existed) fail("wrong-file", "the exclusive creation of the existing %s succeeded", path.c_str());
							if (nd < 0 && before.count(r) && before[r] == now) fail("wrong-fd", "the returned descriptor %d is not new", r);
						}
						else
						{
							int want = nd < 0 ? src : nd;
							if (r != want) fail("wrong-fd", "moving %d to %d returned %d", src, nd, r);
							if (nd >= 0 && nd != src && !sofd) fail("wrong-fd", "moving a closed descriptor succeeded");
							if (now != sofd) fail("wrong-file", "descriptor %d does not refer to what was moved", r);
							if (want != src && k_ofd(k, src) == sofd) fail("fd-leak", "the moved descriptor %d is still open", src);
							if (want != src) mine.erase(std::find(mine.begin(), mine.end(), src));
						}
						if (now && std::find(mine.begin(), mine.end(), r) == mine.end()) mine.push_back(r);
					}
					else
					{
						sim::stat("probe.fd-call-failed");
						if (nd >= 0 && k_ofd(k, nd) != was) fail("target-lost", "the call failed, but descriptor %d does not refer to what it did before", nd);
						if (kind == 2 && src < 1000 && sofd && k_ofd(k, src) != sofd) fail("target-lost", "the move failed, but its source is closed");
						bool reason = fired || faulty || (kind == 2 ? !sofd : !f || path == "/d/none/x" || (path == "/d/new" && !(flags & O_CREAT)) || ((flags & O_EXCL) && existed));
						if (!reason) fail("refused", "the call failed although no system call failed");
					}
					for (size_t j = 0; j < mine.size(); ++j) { Ofd *o = k_ofd(k, mine[j]); if (!o) fail("fd-closed", "descriptor %d has been closed", mine[j]); Own w = { me, o }; X.own[mine[j]] = w; }
					if (one)
					{
						// nothing else changed
						std::map<int, Ofd *> exp = before;
						if (r >= 0) { if (kind == 2 && r != src) exp.erase(src); if (k_ofd(k, r)) exp[r] = k_ofd(k, r); }
						if (k_table(k) != exp) fail("fd-leak", "other descriptors changed: %s", k_fds(k).c_str());
					}
					if (mine.size() > 1 && chance(1, 3)) { int q = draw(mine.size()); X.own.erase(mine[q]); k_close(k, mine[q]); mine.erase(mine.begin() + q); }
					if (chance(1, 3)) yield();
				}
			});
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	// exactly the descriptors the threads hold, and the standard ones, are open
	KProc *k = kp(proc_get(0));
	for (std::map<int, Ofd *>::iterator i = k->fds.begin(); i != k->fds.end(); ++i)
		if (i->first > 2 && !X.own.count(i->first)) fail("fd-leak", "descriptor %d is left open: %s", i->first, k_fds(k).c_str());
	nontrivial();
}
SIM_PROP(F01, f01);
SIM_PROP(F02, f02);
SIM_PROP(F03, f03);
