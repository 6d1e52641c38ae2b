// Files, descriptors, memory mappings, processes and standard streams.
#include "krn.hpp"
#include "simint.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);

namespace sim {
KrnCfg krn;
static std::vector<Inode *> inodes;
static std::vector<Ofd *> ofds;
static Inode *root;
static std::map<int, KProc> *kprocs;
static std::map<FILE *, int> *cookies;
static u32 rand_state;
struct ByFd { KProc *k; int fd; Ofd *o; bool moving; };
static std::vector<ByFd> *by;       // descriptors of the bystanders

static Inode *inode_new(int type)
{
	Inode *i = new Inode;
	i->ino = inodes.size() + 1; i->type = type; i->nlink = 0; i->plock = 0; i->mtime = now_ns; i->mode = 0;
	inodes.push_back(i);
	return i;
}
static Ofd *ofd_new(Inode *i, int flags)
{
	Ofd *o = new Ofd;
	o->ino = i; o->sock = NULL; o->flags = flags; o->pos = 0; o->refs = 0; o->lock = 0;
	ofds.push_back(o);
	return o;
}
Ofd *ofd_sock(Sock *s, int flags) { Ofd *o = ofd_new(NULL, flags); o->sock = s; return o; }

static void krn_reset()
{
	if (!kprocs) { kprocs = new std::map<int, KProc>; cookies = new std::map<FILE *, int>; setenv("TZ", "UTC0", 1); tzset(); }
	for (auto &k : *kprocs) for (Mapping &m : k.second.maps) __real_munmap(m.addr, m.span);
	kprocs->clear();
	cookies->clear();
	if (!by) by = new std::vector<ByFd>;
	by->clear();
	for (Inode *i : inodes) delete i;
	inodes.clear();
	for (Ofd *o : ofds) delete o;
	ofds.clear();
	krn = KrnCfg();
	krn.fork_role = -1;
	krn.pid_base = 1000;
	rand_state = 1;
	root = inode_new(I_DIR);
	root->nlink = 1;
	Inode *dev = inode_new(I_DIR); root->ents["dev"] = dev; dev->nlink = 1;
	dev->ents["null"] = inode_new(I_NULL); dev->ents["urandom"] = inode_new(I_URANDOM); dev->ents["random"] = dev->ents["urandom"];
	dev->ents["tty"] = inode_new(I_TTY);
	for (auto &e : dev->ents) e.second->nlink++;
	Inode *tmp = inode_new(I_DIR); root->ents["tmp"] = tmp; tmp->nlink = 1;
}
static void release(KProc *k, Ofd *o);
static void krn_exit(Proc *p)
{
	if (!kprocs || !kprocs->count(p->id)) return;
	k_proc_end(p, -1);
}
struct Init { Init() { on_reset(krn_reset); on_proc_exit(krn_exit); } } init_krn;

static void set_fd(KProc *k, int fd, Ofd *n);
KProc *kp(Proc *p)
{
	auto it = kprocs->find(p->id);
	if (it != kprocs->end()) return &it->second;
	KProc *k = &(*kprocs)[p->id];
	*k = KProc();
	k->p = p;
	k->pid = krn.pid_base + p->id * 7;
	k->ppid = 1;
	k->sid = 900; k->leader = false; k->exited = false; k->status = 0; k->forked = 0; k->umask = 022;
	k->cwd = "/";
	memset(k->act, 0, sizeof k->act);
	k->pending = 0; k->delivered = 0; k->sigpipes = 0;
	for (int i = 0; i < 3; ++i) { k->lock_owner[i] = k->lock_depth[i] = 0; k->bufmode[i] = i == 2 ? 0 : 2; }
	Ofd *t = ofd_new(root->ents["dev"]->ents["tty"], O_RDWR | O_APPEND);
	for (int i = 0; i < 3; ++i) { k->fds[i] = t; t->refs++; }
	return k;
}
Proc *proc_by_pid(int pid)
{
	for (auto &k : *kprocs) if (k.second.pid == pid) return k.second.p;
	return NULL;
}
bool sys_in() { return self()->sut > 0; }
bool fault_here() { return faults.on && (!krn.fault_procs || (curproc()->id >= 0 && (krn.fault_procs >> curproc()->id & 1))); }
template <int N> static int flt(const char *site, const int (&errs)[N]) { return fault_here() ? inject(site, errs) : 0; }

// ------------------------------------------------------------------ paths
static int split(const std::string &p, std::vector<std::string> &v, bool &slash)
{
	size_t i = 0;
	while (i < p.size())
	{
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		if (j > i) { if (j - i > 255) return ENAMETOOLONG; v.push_back(p.substr(i, j - i)); }
		i = j + 1;
	}
	slash = !p.empty() && p[p.size() - 1] == '/';
	return 0;
}
struct Walk { Inode *dir, *node; std::string last; bool slash; };
// resolves all but the last component strictly; node is NULL if the last one does not exist
static int walk(KProc *k, const char *path, Walk &w, bool follow = true)
{
	std::string p = path;
	w.dir = w.node = NULL; w.last.clear(); w.slash = false;
	if (p.empty()) return ENOENT;
	if (p.size() >= 4096) return ENAMETOOLONG;
	if (p[0] != '/') p = (k ? k->cwd : std::string("/")) + "/" + p;
	std::vector<std::string> v;
	int e = split(p, v, w.slash);
	if (e) return e;
	std::vector<Inode *> up(1, root);
	int links = 0;
	if (v.empty()) { w.dir = root; w.node = root; w.last = "."; return 0; }
	for (size_t i = 0; i < v.size(); ++i)
	{
		Inode *d = up.back();
		if (d->type != I_DIR) return ENOTDIR;
		bool last = i + 1 == v.size();
		if (v[i] == "." || v[i] == "..")
		{
			if (v[i] == ".." && up.size() > 1) up.pop_back();
			if (last) { w.dir = up.back(); w.node = up.back(); w.last = v[i]; return 0; }
			continue;
		}
		auto it = d->ents.find(v[i]);
		if (it != d->ents.end() && it->second->type == I_LNK && (!last || follow || w.slash))
		{
			if (++links > 40) return ELOOP;
			const std::string &t = it->second->data;
			std::vector<std::string> tv; bool ts;
			if ((e = split(t, tv, ts))) return e;
			if (last && ts) w.slash = true;
			if (t[0] == '/') up.resize(1);
			v.erase(v.begin(), v.begin() + i + 1);
			v.insert(v.begin(), tv.begin(), tv.end());
			if (v.empty()) { w.dir = w.node = up.back(); w.last = "."; return 0; }
			i = (size_t) -1;
			continue;
		}
		if (last)
		{
			w.dir = d; w.last = v[i]; w.node = it == d->ents.end() ? NULL : it->second;
			if (w.node && w.slash && w.node->type != I_DIR) return ENOTDIR;
			return 0;
		}
		if (it == d->ents.end()) return ENOENT;
		up.push_back(it->second);
	}
	return 0;
}
static int do_mkdir(KProc *k, const char *path, int mode)
{
	Walk w;
	int e = walk(k, path, w, false);
	if (e) return e;
	if (w.node) return EEXIST;
	Inode *n = inode_new(I_DIR);
	n->nlink = 1;
	n->mode = k ? mode & ~k->umask : 0;
	w.dir->ents[w.last] = n;
	return 0;
}
static int do_unlink(KProc *k, const char *path)
{
	Walk w;
	int e = walk(k, path, w, false);
	if (e) return e;
	if (!w.node) return ENOENT;
	if (w.node->type == I_DIR) return EISDIR;
	w.node->nlink--;
	w.dir->ents.erase(w.last);
	return 0;
}
static int do_rename(KProc *k, const char *a, const char *b)
{
	Walk x, y;
	int e = walk(k, a, x, false);
	if (!e) e = walk(k, b, y, false);
	if (e) return e;
	if (!x.node) return ENOENT;
	if (y.node == x.node) return 0;
	if (y.node)
	{
		if (y.node->type == I_DIR && x.node->type != I_DIR) return EISDIR;
		if (y.node->type != I_DIR && x.node->type == I_DIR) return ENOTDIR;
		if (y.node->type == I_DIR && !y.node->ents.empty()) return ENOTEMPTY;
		y.node->nlink--;
	}
	x.dir->ents.erase(x.last);
	y.dir->ents[y.last] = x.node;
	return 0;
}

// ------------------------------------------------------------------ descriptors
static void unlock_ofd(Ofd *o)
{
	if (!o->lock) return;
	o->lock = 0;
	std::vector<Ofd *> &l = o->ino->lockers;
	for (size_t i = 0; i < l.size(); ++i) if (l[i] == o) { l.erase(l.begin() + i); break; }
	for (int i = 0; i < task_count(); ++i) if (task_blocked(task_get(i)) && !strcmp(task_get(i)->what, "flock")) wake(task_get(i), WK_OK);
}
static void release(KProc *k, Ofd *o)
{
	if (o->ino && o->ino->plock && o->ino->plock == k->pid) { o->ino->plock = 0; for (int i = 0; i < task_count(); ++i) if (task_blocked(task_get(i)) && !strcmp(task_get(i)->what, "flock")) wake(task_get(i), WK_OK); }
	if (--o->refs) return;
	if (o->sock) { sock_release(o->sock); return; }
	unlock_ofd(o);
}
static void set_fd(KProc *k, int fd, Ofd *n)
{
	auto it = k->fds.find(fd);
	Ofd *o = it == k->fds.end() ? NULL : it->second;
	if (krn.on_fd) krn.on_fd(k, fd, o, n);
	for (ByFd &b : *by) if (b.k == k && b.fd == fd && !b.moving) fail("foreign-fd", "descriptor %d, which another thread has just opened, was %s", fd, n ? "replaced" : "closed");
	if (n) { n->refs++; k->fds[fd] = n; } else k->fds.erase(fd);
	k->cloexec[fd] = false;
	if (o) release(k, o);
}
int fd_new(KProc *k, Ofd *o, int least)
{
	int fd = least;
	while (k->fds.count(fd)) ++fd;
	if (fd >= 1024) return -1;
	set_fd(k, fd, o);
	return fd;
}
std::map<int, Ofd *> k_table(KProc *k)
{
	std::map<int, Ofd *> m = k->fds;
	for (ByFd &b : *by) if (b.k == k) m.erase(b.fd);
	return m;
}
void k_bystander(Proc *p)
{
	int n = range(2, 14), first = range(0, 2), mode = draw(3);
	spawn(p, "bystander", [=]() {
		KProc *k = kp();
		for (int i = 0; i < n; ++i)
		{
			if (mode == 0 || chance(1, 2)) for (int j = 0; j <= first; ++j) yield();
			int fd = 3;
			while (k->fds.count(fd)) ++fd;
			by->push_back(ByFd{ k, fd, NULL, true });
			size_t at = by->size() - 1;
			k_open(k, "/dev/null", O_RDWR, fd);
			(*by)[at].o = k->fds[fd];
			(*by)[at].moving = false;
			ev("other-open", fd);
			for (u32 j = range(0, 4); j; --j) yield();
			for (at = 0; at < by->size(); ++at) if ((*by)[at].k == k && (*by)[at].fd == fd) break;
			if (k->fds.count(fd) == 0 || k->fds[fd] != (*by)[at].o) fail("foreign-fd", "descriptor %d of another thread has changed", fd);
			(*by)[at].moving = true;
			k_close(k, fd);
			by->erase(by->begin() + at);
			ev("other-close", fd);
		}
	});
}
Ofd *k_ofd_sut(KProc *k, int fd)
{
	for (ByFd &b : *by) if (b.k == k && b.fd == fd) fail("foreign-fd", "descriptor %d, which another thread has just opened, was used", fd);
	return k_ofd(k, fd);
}
Ofd *k_ofd(KProc *k, int fd) { auto it = k->fds.find(fd); return it == k->fds.end() ? NULL : it->second; }

// returns a descriptor or -errno
static int do_open(KProc *k, const char *path, int flags, int mode, int at)
{
	Walk w;
	bool follow = !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL));
	int e = walk(k, path, w, follow);
	if (e) return -e;
	Inode *n = w.node;
	int acc = flags & O_ACCMODE;
	if (!n)
	{
		if (!(flags & O_CREAT)) return -ENOENT;
		if (w.slash) return -EISDIR;
		n = inode_new(I_REG);
		n->nlink = 1;
		n->mode = k ? mode & ~k->umask : 0;
		w.dir->ents[w.last] = n;
	}
	else
	{
		if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		if (n->type == I_LNK) return -ELOOP;
		if (n->type == I_DIR && (acc != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
		if (n->type != I_DIR && (flags & O_DIRECTORY)) return -ENOTDIR;
		if (n->type == I_REG && (flags & O_TRUNC) && acc != O_RDONLY) { k_sync(); n->data.clear(); }
	}
	Ofd *o = ofd_new(n, flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_NOCTTY | O_CLOEXEC));
	if (at >= 0) { set_fd(k, at, o); return at; }
	int fd = fd_new(k, o);
	if (fd < 0) return -EMFILE;
	k->cloexec[fd] = flags & O_CLOEXEC;
	return fd;
}
static void map_in(Inode *i, Mapping &m)
{
	if (i->data.size() > m.off)
	{
		size_t n = i->data.size() - m.off;
		if (n > m.span) n = m.span;
		mprotect(m.addr, (n + 4095) & ~(size_t) 4095, PROT_READ | PROT_WRITE);
		memcpy(m.addr, i->data.data() + m.off, n);
		if (m.shared) m.seen.assign(i->data, m.off, n);
		size_t live = (n + 4095) & ~(size_t) 4095;
		if (live) mprotect(m.addr, live, m.prot);
		if (live < m.span) mprotect(m.addr + live, m.span - live, PROT_NONE);
	}
	else mprotect(m.addr, m.span, PROT_NONE);
}
static void map_out(Mapping &m)
{
	if (!m.ino || !m.shared || !(m.prot & PROT_WRITE)) return;
	if (m.ino->data.size() <= m.off) return;
	size_t n = m.ino->data.size() - m.off;
	if (n > m.len) n = m.len;
	mprotect(m.addr, (n + 4095) & ~(size_t) 4095, PROT_READ | PROT_WRITE);
	if (m.seen.size() < n) m.seen.resize(n);
	for (size_t j = 0; j < n; ++j) if (m.addr[j] != m.seen[j]) m.seen[j] = m.ino->data[m.off + j] = m.addr[j];   // only what was changed through this mapping
	mprotect(m.addr, (n + 4095) & ~(size_t) 4095, m.prot);
}
void k_sync()
{
	int n = 0;
	for (auto &k : *kprocs) for (Mapping &m : k.second.maps) { map_out(m); n += m.ino && m.shared; }
	if (n > 1) for (auto &k : *kprocs) for (Mapping &m : k.second.maps) if (m.ino && m.shared) map_in(m.ino, m);
}
static void refresh(Inode *i) { for (auto &k : *kprocs) for (Mapping &m : k.second.maps) if (m.ino == i && m.shared) map_in(i, m); }
static bool mapped(Inode *i) { for (auto &k : *kprocs) for (Mapping &m : k.second.maps) if (m.ino == i && m.shared) return true; return false; }

static ssize_t do_write(KProc *k, int fd, const void *b, size_t n, i64 at = -1)
{
	Ofd *o = k_ofd_sut(k, fd);
	if (!o) return -EBADF;
	if (o->sock) { if (at >= 0) return -ESPIPE; return sock_send(o, b, n, 0); }
	if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
	static const int errs[] = { ENOSPC, EIO, EINTR, EDQUOT, EFBIG };
	if (int e = flt("write", errs)) { if (e == ENOSPC && chance(1, 2)) krn.enospc = true; return -e; }
	Inode *i = o->ino;
	if (i->type == I_NULL || i->type == I_URANDOM) return n;
	if (krn.enospc && n && i->type == I_REG) return -ENOSPC;
	if (n > 1 && krn.shorts && fault_here() && inject_flag("short-write")) n = 1 + draw(n - 1);
	bool m = mapped(i);
	if (m) k_sync();
	u64 pos = at >= 0 && !(o->flags & O_APPEND) ? (u64) at : o->flags & O_APPEND || i->type == I_TTY ? i->data.size() : o->pos;
	if (i->data.size() < pos + n) i->data.resize(pos + n);
	i->data.replace(pos, n, (const char *) b, n);
	if (at < 0) o->pos = pos + n;
	i->mtime = now_ns;
	if (m) refresh(i);
	return n;
}
static ssize_t do_read(KProc *k, int fd, void *b, size_t n, i64 at = -1)
{
	Ofd *o = k_ofd_sut(k, fd);
	if (!o) return -EBADF;
	if (o->sock) { if (at >= 0) return -ESPIPE; return sock_recv(o, b, n, 0); }
	if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
	Inode *i = o->ino;
	if (i->type == I_DIR) return -EISDIR;
	static const int errs[] = { EIO, EINTR };
	if (int e = flt("read", errs)) { if (e == EIO && i->type == I_REG) krn.read_errors++; return -e; }
	if (i->type == I_NULL || i->type == I_TTY) return 0;
	if (i->type == I_URANDOM)
	{
		if (n > 1 && krn.shorts && fault_here() && inject_flag("short-read")) n = draw(n);
		u32 x = draw(1 << 30) + 12345;
		std::string s(n, 0);
		for (size_t j = 0; j < n; ++j) { x = x * 1664525 + 1013904223; s[j] = x >> 24; }
		memcpy(b, s.data(), n);
		krn.random_served += n;
		krn.random_bytes += s;
		krn.random_reads.push_back(s);
		return n;
	}
	if (mapped(i)) k_sync();
	u64 pos = at >= 0 ? (u64) at : o->pos;
	u64 have = i->data.size() > pos ? i->data.size() - pos : 0;
	if (n > have) n = have;
	if (n > 1 && krn.shorts && fault_here() && inject_flag("short-read")) n = 1 + draw(n - 1);
	memcpy(b, i->data.data() + pos, n);
	if (at < 0) o->pos = pos + n;
	return n;
}
static int do_close(KProc *k, int fd)
{
	if (!k_ofd(k, fd)) return -EBADF;
	static const int errs[] = { EIO, EINTR, ENOSPC };
	int e = flt("close", errs);
	set_fd(k, fd, NULL);            // the descriptor is gone even if close fails
	return -e;
}
static void do_stat(Inode *i, struct stat *st)
{
	memset(st, 0, sizeof *st);
	st->st_dev = 1; st->st_ino = i ? i->ino : 99999; st->st_nlink = i ? i->nlink : 1;
	st->st_mode = !i ? S_IFSOCK | 0777 : i->type == I_REG ? S_IFREG | 0644 : i->type == I_DIR ? S_IFDIR | 0755 : i->type == I_LNK ? S_IFLNK | 0777 : S_IFCHR | 0666;
	if (i && (i->type == I_REG || i->type == I_LNK)) st->st_size = i->data.size() + i->hole;
	st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtime = i ? i->mtime / 1000000000 : 0;
}
static int do_trunc(Inode *i, off_t n)
{
	if (i->type != I_REG) return EINVAL;
	if (n < 0) return EINVAL;
	if (n > 1ll << 44) return EFBIG;
	bool m = mapped(i);
	if (m) k_sync();
	if (n > (64 << 20)) i->hole = n - i->data.size();
	else { i->data.resize(n); i->hole = 0; }
	if (m) refresh(i);
	return 0;
}
static int do_flock(KProc *k, int fd, int op)
{
	Ofd *o = k_ofd(k, fd);
	if (!o || !o->ino) return EBADF;
	int want = op & ~LOCK_NB;
	if (want == LOCK_UN) { unlock_ofd(o); return 0; }
	if (want != LOCK_SH && want != LOCK_EX) return EINVAL;
	if (o->lock == want) return 0;
	unlock_ofd(o);
	for (;;)
	{
		bool conflict = false;
		for (Ofd *x : o->ino->lockers) if (x != o && (want == LOCK_EX || x->lock == LOCK_EX)) conflict = true;
		if (!conflict) break;
		sim::stat("probe.flock-contended");
		if (op & LOCK_NB) return EWOULDBLOCK;
		if (kblock("flock", -1) == WK_INTR) return EINTR;
		if (k_ofd(k, fd) != o) return EBADF;
	}
	o->lock = want;
	o->ino->lockers.push_back(o);
	return 0;
}
static int do_plock(KProc *k, int fd, int type, bool wait)
{
	Ofd *o = k_ofd(k, fd);
	if (!o || !o->ino) return EBADF;
	if (type == F_UNLCK)
	{
		if (o->ino->plock == k->pid) { o->ino->plock = 0; for (int i = 0; i < task_count(); ++i) if (task_blocked(task_get(i)) && !strcmp(task_get(i)->what, "flock")) wake(task_get(i), WK_OK); }
		return 0;
	}
	for (;;)
	{
		if (!o->ino->plock || o->ino->plock == k->pid) { o->ino->plock = k->pid; return 0; }
		if (!wait) return EAGAIN;
		if (kblock("flock", -1) == WK_INTR) return EINTR;
	}
}
void k_proc_end(Proc *p, int status)
{
	KProc *k = kp(p);
	if (k->exited) return;
	k->exited = true; k->status = status;
	k_sync();
	while (!k->fds.empty()) { int fd = k->fds.begin()->first; Ofd *o = k->fds.begin()->second; k->fds.erase(fd); release(k, o); }
	for (Mapping &m : k->maps) __real_munmap(m.addr, m.span);
	k->maps.clear();
}

// ------------------------------------------------------------------ standard streams
static int std_index(FILE *f) { return f == stderr ? 2 : f == stdout ? 1 : -1; }
static bool std_flush(KProc *k, int s, size_t piece = 8192)
{
	std::string d;
	d.swap(k->buf[s]);
	size_t at = 0;
	while (at < d.size())
	{
		size_t n = d.size() - at;
		if (n > piece) n = piece;
		size_t end = at + n;
		while (at < end)
		{
			point("write");
			if (krn.on_sys) krn.on_sys("write");
			ssize_t r = do_write(k, s, d.data() + at, end - at);
			ev("stdio-write", s, r);
			if (r < 0) { errno = -r; return false; }
			if (r < (ssize_t) (end - at)) sim::stat("probe.log-short-write");
			at += r;
		}
	}
	return true;
}
static void std_lock(KProc *k, int s)
{
	int me = self()->id + 1;
	point("stdio-lock");
	if (k->lock_owner[s] && k->lock_owner[s] != me)
	{
		sim::stat("probe.stdio-contended");
		wait_until("@stdio lock", [k, s]() { return k->lock_owner[s] == 0; });
	}
	k->lock_owner[s] = me;
	k->lock_depth[s]++;
}
static void std_unlock(KProc *k, int s) { if (--k->lock_depth[s] == 0) k->lock_owner[s] = 0; }
// formatted output to an unbuffered stream goes through a buffer of 8 KB, plain output is written at once
static ssize_t std_out(int s, const char *p, size_t n, bool formatted = false)
{
	int err = errno;
	KProc *k = kp();
	std_lock(k, s);
	errno = err;
	bool ok = true;
	k->buf[s].append(p, n);
	int m = k->bufmode[s];
	if (m == 0 || (m == 1 && memchr(p, '\n', n)) || k->buf[s].size() >= 4096) ok = std_flush(k, s, formatted || m ? 8192 : 0x7ffff000);
	std_unlock(k, s);
	return ok ? (ssize_t) n : -1;
}
static int std_vprintf(int s, const char *f, va_list ap)
{
	int err = errno;
	char *b = NULL;
	int n = vasprintf(&b, f, ap);
	errno = err;
	if (n < 0) return -1;
	std::string t(b, n);
	free(b);
	errno = err;
	return std_out(s, t.data(), n, true) < 0 ? -1 : n;
}

// ------------------------------------------------------------------ FILE on simulated descriptors
static ssize_t ck_read(void *c, char *b, size_t n)
{
	OutSut o;
	point("read");
	if (krn.on_sys) krn.on_sys("read");
	ssize_t r = do_read(kp(), (int) (long) c, b, n);
	ev("read", r);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	OutSut o;
	point("write");
	ssize_t r = do_write(kp(), (int) (long) c, b, n);
	ev("write", r);
	if (r < 0) { errno = -r; return 0; }
	return r;
}
static int ck_seek(void *c, off64_t *off, int wh)
{
	OutSut o;
	Ofd *f = k_ofd(kp(), (int) (long) c);
	if (!f || !f->ino || f->ino->type != I_REG) { errno = ESPIPE; return -1; }
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : f->ino->data.size();
	if (b + *off < 0) { errno = EINVAL; return -1; }
	f->pos = b + *off;
	*off = f->pos;
	return 0;
}
static int ck_close(void *c)
{
	OutSut o;
	point("close");
	int r = do_close(kp(), (int) (long) c);
	ev("close", (long) c, r);
	for (auto it = cookies->begin(); it != cookies->end(); ++it) if (it->second == (int) (long) c) { cookies->erase(it); break; }
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
static FILE *cookie(int fd, const char *mode)
{
	cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
	FILE *fp = fopencookie((void *) (long) fd, mode, f);
	if (fp) (*cookies)[fp] = fd;
	return fp;
}
static int mode_flags(const char *m)
{
	int f = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
	if (m[0] == 'w') f |= O_CREAT | O_TRUNC;
	if (m[0] == 'a') f |= O_CREAT | O_APPEND;
	if (strchr(m, 'x')) f |= O_EXCL;
	if (strchr(m, 'e')) f |= O_CLOEXEC;
	return f;
}

// ------------------------------------------------------------------ harness access
Inode *k_lookup(const std::string &p) { OutSut o; Walk w; return walk(NULL, p.c_str(), w) ? NULL : w.node; }
std::string *k_data(const std::string &p) { OutSut o; k_sync(); Inode *i = k_lookup(p); return i && i->type == I_REG ? &i->data : NULL; }
void k_mkdirs(const std::string &p)
{
	OutSut o;
	for (size_t i = 1; i < p.size(); ++i) if (p[i] == '/') do_mkdir(NULL, p.substr(0, i).c_str(), 0);
	do_mkdir(NULL, p.c_str(), 0);
}
Inode *k_mkfile(const std::string &p, const std::string &d)
{
	OutSut o;
	Walk w;
	if (walk(NULL, p.c_str(), w)) return NULL;
	if (!w.node) { w.node = inode_new(I_REG); w.node->nlink = 1; w.dir->ents[w.last] = w.node; }
	w.node->data = d;
	return w.node;
}
bool k_symlink(const std::string &to, const std::string &p)
{
	OutSut o;
	Walk w;
	if (walk(NULL, p.c_str(), w, false) || w.node) return false;
	Inode *n = inode_new(I_LNK);
	n->nlink = 1; n->data = to;
	w.dir->ents[w.last] = n;
	return true;
}
bool k_rename(const std::string &a, const std::string &b) { OutSut o; ev("rename"); return do_rename(NULL, a.c_str(), b.c_str()) == 0; }
bool k_unlink(const std::string &a) { OutSut o; ev("unlink"); return do_unlink(NULL, a.c_str()) == 0; }
int k_open(KProc *k, const std::string &p, int flags, int at) { OutSut o; int r = do_open(k, p.c_str(), flags, 0644, at); return r < 0 ? -1 : r; }
void k_close(KProc *k, int fd) { OutSut o; if (k_ofd(k, fd)) set_fd(k, fd, NULL); }
bool k_locked(Inode *i) { return !i->lockers.empty() || i->plock; }
std::vector<Inode *> k_all() { return inodes; }
std::string k_fds(KProc *k)
{
	OutSut o;
	std::string s;
	for (auto &f : k->fds) s += fmt("%s%d:%s%d", s.empty() ? "" : " ", f.first, f.second->sock ? "socket" : "inode ", f.second->ino ? f.second->ino->ino : 0);
	return s;
}
} // namespace sim
using namespace sim;

// ------------------------------------------------------------------ the calls
#define ENTER(name) OutSut o_; int err_ = errno; point(name); if (krn.on_sys) krn.on_sys(name); errno = err_; KProc *k = kp(); (void) k
#define RET(r) do { long r_ = (r); ev("=", r_); if (r_ < 0) { errno = -r_; return -1; } errno = err_; return r_; } while (0)

extern "C" {
static int open_fault(int fl)
{
	static const int e1[] = { EMFILE, ENFILE, ENOMEM, EACCES, EIO, EINTR };
	static const int e2[] = { EMFILE, ENFILE, ENOMEM, EACCES, EIO, ENOSPC, EROFS };
	return fl & O_CREAT ? flt("open", e2) : flt("open", e1);
}
static int sim_open(const char *p, int fl, int mode)
{
	ENTER("open");
	ev("open", fl);
	note(fmt("open(\"%s\", %#x)", p, fl));
	if (int e = open_fault(fl)) RET(-e);
	RET(do_open(k, p, fl, mode, -1));
}
#define OPENW(name) \
int __real_##name(const char *, int, ...); \
int __wrap_##name(const char *p, int fl, ...) \
{ \
	int mode = 0; \
	if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); } \
	if (!sys_in()) return __real_##name(p, fl, mode); \
	return sim_open(p, fl, mode); \
}
OPENW(open) OPENW(open64)
#define OPENAT(name) \
int __real_##name(int, const char *, int, ...); \
int __wrap_##name(int d, const char *p, int fl, ...) \
{ \
	int mode = 0; \
	if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); } \
	if (!sys_in()) return __real_##name(d, p, fl, mode); \
	if (d != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; } \
	return sim_open(p, fl, mode); \
}
OPENAT(openat) OPENAT(openat64)
#define CREAT(name) \
int __real_##name(const char *, mode_t); \
int __wrap_##name(const char *p, mode_t m) { if (!sys_in()) return __real_##name(p, m); return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
CREAT(creat) CREAT(creat64)
int __real_close(int);
int __wrap_close(int fd)
{
	if (!sys_in()) return __real_close(fd);
	ENTER("close");
	ev("close", fd);
	RET(do_close(k, fd));
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!sys_in()) return __real_read(fd, b, n);
	ENTER("read");
	ev("read", fd, n);
	RET(do_read(k, fd, b, n));
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!sys_in()) return __real_write(fd, b, n);
	ENTER("write");
	ev("write", fd, n);
	RET(do_write(k, fd, b, n));
}
#define PRW(name, T, fn) \
ssize_t __real_##name(int, T *, size_t, off_t); \
ssize_t __wrap_##name(int fd, T *b, size_t n, off_t o) \
{ \
	if (!sys_in()) return __real_##name(fd, b, n, o); \
	ENTER(#name); \
	ev(#name, fd, n, o); \
	if (o < 0) RET(-EINVAL); \
	RET(fn(k, fd, b, n, o)); \
}
PRW(pread, void, do_read) PRW(pread64, void, do_read) PRW(pwrite, const void, do_write) PRW(pwrite64, const void, do_write)
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	if (!sys_in()) return __real_writev(fd, v, c);
	ENTER("writev");
	std::string s;
	for (int i = 0; i < c; ++i) s.append((const char *) v[i].iov_base, v[i].iov_len);
	ev("writev", fd, s.size());
	RET(do_write(k, fd, s.data(), s.size()));
}
#define LSEEK(name) \
off_t __real_##name(int, off_t, int); \
off_t __wrap_##name(int fd, off_t off, int wh) \
{ \
	if (!sys_in()) return __real_##name(fd, off, wh); \
	ENTER("lseek"); \
	Ofd *f = k_ofd_sut(k, fd); \
	if (!f) RET(-EBADF); \
	if (!f->ino) RET(-ESPIPE); \
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64) f->pos : (i64) f->ino->data.size(); \
	if (b + off < 0) RET(-EINVAL); \
	f->pos = b + off; \
	RET(f->pos); \
}
LSEEK(lseek) LSEEK(lseek64)
static int dup_to(int fd, int nd, int same_ok)
{
	ENTER("dup2");
	ev("dup2", fd, nd);
	Ofd *f = k_ofd_sut(k, fd);
	if (!f || nd < 0 || nd >= 1024) RET(-EBADF);
	if (fd == nd) RET(same_ok ? nd : -EINVAL);
	static const int errs[] = { EBUSY, EINTR, EIO };
	if (int e = flt("dup2", errs)) RET(-e);
	set_fd(k, nd, f);
	RET(nd);
}
int __real_dup2(int, int);
int __wrap_dup2(int a, int b) { if (!sys_in()) return __real_dup2(a, b); return dup_to(a, b, 1); }
int __real_dup3(int, int, int);
int __wrap_dup3(int a, int b, int f) { if (!sys_in()) return __real_dup3(a, b, f); int r = dup_to(a, b, 0); if (r >= 0) kp()->cloexec[r] = f & O_CLOEXEC; return r; }
int __real_dup(int);
int __wrap_dup(int a)
{
	if (!sys_in()) return __real_dup(a);
	ENTER("dup");
	Ofd *f = k_ofd_sut(k, a);
	if (!f) RET(-EBADF);
	static const int errs[] = { EMFILE };
	if (int e = flt("dup", errs)) RET(-e);
	int n = fd_new(k, f);
	RET(n < 0 ? -EMFILE : n);
}
static int sim_fcntl(int fd, int cmd, long arg)
{
	ENTER("fcntl");
	ev("fcntl", fd, cmd, cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK ? 0 : arg);
	Ofd *f = k_ofd_sut(k, fd);
	if (!f) RET(-EBADF);
	switch (cmd)
	{
	case F_DUPFD: case F_DUPFD_CLOEXEC: { static const int errs[] = { EMFILE }; if (int e = flt("fcntl", errs)) RET(-e); int n = fd_new(k, f, arg); if (n >= 0) k->cloexec[n] = cmd == F_DUPFD_CLOEXEC; RET(n < 0 ? -EMFILE : n); }
	case F_GETFD: RET(k->cloexec[fd] ? FD_CLOEXEC : 0);
	case F_SETFD: k->cloexec[fd] = arg & FD_CLOEXEC; RET(0);
	case F_GETFL: RET(f->flags);
	case F_SETFL: { static const int errs[] = { EPERM }; if (int e = flt("fcntl", errs)) RET(-e); int m = O_APPEND | O_NONBLOCK; f->flags = (f->flags & ~m) | (arg & m); RET(0); }
	case F_SETLK: case F_SETLKW:
	{
		static const int errs[] = { ENOLCK };
		if (int e = flt("fcntl", errs)) RET(-e);
		RET(-do_plock(k, fd, ((struct flock *) arg)->l_type, cmd == F_SETLKW));
	}
	}
	RET(-EINVAL);
}
#define FCNTL(name) \
int __real_##name(int, int, ...); \
int __wrap_##name(int fd, int cmd, ...) \
{ \
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); \
	if (!sys_in()) return __real_##name(fd, cmd, a); \
	return sim_fcntl(fd, cmd, a); \
}
FCNTL(fcntl) FCNTL(fcntl64)
#define LOCKF(name) \
int __real_##name(int, int, off_t); \
int __wrap_##name(int fd, int op, off_t n) \
{ \
	if (!sys_in()) return __real_##name(fd, op, n); \
	ENTER("lockf"); \
	RET(-do_plock(k, fd, op == F_ULOCK ? F_UNLCK : F_WRLCK, op == F_LOCK)); \
}
LOCKF(lockf) LOCKF(lockf64)
#define FSTAT(name) \
int __real_##name(int, struct stat *); \
int __wrap_##name(int fd, struct stat *st) \
{ \
	if (!sys_in()) return __real_##name(fd, st); \
	ENTER("fstat"); \
	Ofd *f = k_ofd_sut(k, fd); \
	if (!f) RET(-EBADF); \
	static const int errs[] = { EIO, ENOMEM }; \
	if (int e = flt("fstat", errs)) RET(-e); \
	do_stat(f->ino, st); \
	ev("fstat", fd, st->st_size); \
	RET(0); \
}
FSTAT(fstat) FSTAT(fstat64)
#define STAT(name, follow) \
int __real_##name(const char *, struct stat *); \
int __wrap_##name(const char *p, struct stat *st) \
{ \
	if (!sys_in()) return __real_##name(p, st); \
	ENTER("stat"); \
	static const int errs[] = { EIO, EACCES, ENOMEM }; \
	if (int e = flt("stat", errs)) RET(-e); \
	Walk w; int e = walk(k, p, w, follow); \
	if (!e && !w.node) e = ENOENT; \
	if (e) RET(-e); \
	do_stat(w.node, st); \
	ev("stat", st->st_size); \
	RET(0); \
}
STAT(stat, true) STAT(stat64, true) STAT(lstat, false) STAT(lstat64, false)
int __real_access(const char *, int);
int __wrap_access(const char *p, int m)
{
	if (!sys_in()) return __real_access(p, m);
	ENTER("access");
	Walk w; int e = walk(k, p, w);
	if (!e && !w.node) e = ENOENT;
	RET(-e);
}
#define FTRUNC(name) \
int __real_##name(int, off_t); \
int __wrap_##name(int fd, off_t n) \
{ \
	if (!sys_in()) return __real_##name(fd, n); \
	ENTER("ftruncate"); \
	ev("ftruncate", fd, n); \
	Ofd *f = k_ofd_sut(k, fd); \
	if (!f) RET(-EBADF); \
	if (!f->ino || (f->flags & O_ACCMODE) == O_RDONLY) RET(-EINVAL); \
	static const int errs[] = { EIO, EINTR, EFBIG, ENOSPC }; \
	if (int e = flt("ftruncate", errs)) RET(-e); \
	RET(-do_trunc(f->ino, n)); \
}
FTRUNC(ftruncate) FTRUNC(ftruncate64)
#define TRUNC(name) \
int __real_##name(const char *, off_t); \
int __wrap_##name(const char *p, off_t n) \
{ \
	if (!sys_in()) return __real_##name(p, n); \
	ENTER("truncate"); \
	static const int errs[] = { EIO, EACCES }; \
	if (int e = flt("truncate", errs)) RET(-e); \
	Walk w; int e = walk(k, p, w); \
	if (!e && !w.node) e = ENOENT; \
	if (!e) e = do_trunc(w.node, n); \
	RET(-e); \
}
TRUNC(truncate) TRUNC(truncate64)
#define SYNC(name) \
int __real_##name(int); \
int __wrap_##name(int fd) \
{ \
	if (!sys_in()) return __real_##name(fd); \
	ENTER(#name); \
	if (!k_ofd_sut(k, fd)) RET(-EBADF); \
	static const int errs[] = { EIO, ENOSPC }; \
	if (int e = flt(#name, errs)) RET(-e); \
	RET(0); \
}
SYNC(fsync) SYNC(fdatasync)
int __real_flock(int, int);
int __wrap_flock(int fd, int op)
{
	if (!sys_in()) return __real_flock(fd, op);
	ENTER("flock");
	ev("flock", fd, op);
	if (!k_ofd_sut(k, fd)) RET(-EBADF);
	static const int errs[] = { ENOLCK, EINTR };
	if (int e = flt("flock", errs)) RET(-e);
	RET(-do_flock(k, fd, op));
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p)
{
	if (!sys_in()) return __real_unlink(p);
	ENTER("unlink");
	ev("unlink");
	note(fmt("unlink(\"%s\")", p));
	static const int errs[] = { EACCES, EROFS, EBUSY, EIO };
	if (int e = flt("unlink", errs)) RET(-e);
	RET(-do_unlink(k, p));
}
int __real_remove(const char *);
int __wrap_remove(const char *p) { if (!sys_in()) return __real_remove(p); return __wrap_unlink(p); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m)
{
	if (!sys_in()) return __real_mkdir(p, m);
	ENTER("mkdir");
	ev("mkdir");
	note(fmt("mkdir(\"%s\")", p));
	static const int errs[] = { EACCES, ENOSPC, EROFS, EIO, EMLINK, ENOMEM };
	if (int e = flt("mkdir", errs)) RET(-e);
	RET(-do_mkdir(k, p, m));
}
int __real_mkdirat(int, const char *, mode_t);
int __wrap_mkdirat(int d, const char *p, mode_t m)
{
	if (!sys_in()) return __real_mkdirat(d, p, m);
	if (d != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; }
	return __wrap_mkdir(p, m);
}
int __wrap_rmdir(const char *);
int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char *p, int fl)
{
	if (!sys_in()) return __real_unlinkat(d, p, fl);
	if (d != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; }
	return fl & AT_REMOVEDIR ? __wrap_rmdir(p) : __wrap_unlink(p);
}
#define FSTATAT(name) \
int __real_##name(int, const char *, struct stat *, int); \
int __wrap_##name(int d, const char *p, struct stat *st, int fl) \
{ \
	if (!sys_in()) return __real_##name(d, p, st, fl); \
	if (!p[0] && fl & AT_EMPTY_PATH) return __wrap_fstat(d, st); \
	if (d != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; } \
	return fl & AT_SYMLINK_NOFOLLOW ? __wrap_lstat(p, st) : __wrap_stat(p, st); \
}
FSTATAT(fstatat) FSTATAT(fstatat64)
int __real_faccessat(int, const char *, int, int);
int __wrap_faccessat(int d, const char *p, int m, int fl)
{
	if (!sys_in()) return __real_faccessat(d, p, m, fl);
	if (d != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; }
	return __wrap_access(p, m);
}
int __real_rmdir(const char *);
int __wrap_rmdir(const char *p)
{
	if (!sys_in()) return __real_rmdir(p);
	ENTER("rmdir");
	Walk w; int e = walk(k, p, w);
	if (!e && !w.node) e = ENOENT;
	if (!e && w.node->type != I_DIR) e = ENOTDIR;
	if (!e && !w.node->ents.empty()) e = ENOTEMPTY;
	if (!e) w.dir->ents.erase(w.last);
	RET(-e);
}
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b)
{
	if (!sys_in()) return __real_rename(a, b);
	ENTER("rename");
	static const int errs[] = { EACCES, ENOSPC, EIO };
	if (int e = flt("rename", errs)) RET(-e);
	RET(-do_rename(k, a, b));
}
int __real_chdir(const char *);
int __wrap_chdir(const char *p)
{
	if (!sys_in()) return __real_chdir(p);
	ENTER("chdir");
	Walk w; int e = walk(k, p, w);
	if (!e && !w.node) e = ENOENT;
	if (!e && w.node->type != I_DIR) e = ENOTDIR;
	if (!e) k->cwd = p[0] == '/' ? p : k->cwd + "/" + p;
	RET(-e);
}
mode_t __real_umask(mode_t);
mode_t __wrap_umask(mode_t m) { if (!sys_in()) return __real_umask(m); OutSut o; KProc *k = kp(); mode_t r = k->umask; k->umask = m; return r; }
#define NOOPF(name, sig, args) \
int __real_##name sig; \
int __wrap_##name sig { if (!sys_in()) return __real_##name args; ENTER(#name); static const int errs[] = { EPERM, EIO }; if (int e = flt(#name, errs)) RET(-e); RET(0); }
NOOPF(chmod, (const char *p, mode_t m), (p, m))
NOOPF(fchmod, (int p, mode_t m), (p, m))
int __real_isatty(int);
int __wrap_isatty(int fd) { if (!sys_in()) return __real_isatty(fd); OutSut o; Ofd *f = k_ofd_sut(kp(), fd); errno = f ? ENOTTY : EBADF; return f && f->ino && f->ino->type == I_TTY; }

// memory mappings
static void *sim_mmap(void *at, size_t n, int prot, int fl, int fd, off_t off)
{
	OutSut o_; int err_ = errno; point("mmap"); if (krn.on_sys) krn.on_sys("mmap"); KProc *k = kp();
	ev("mmap", n, prot, fl);
	errno = err_;
#define MFAIL(e) do { errno = (e); ev("=", -(e)); return MAP_FAILED; } while (0)
	static const int errs[] = { ENOMEM, EAGAIN, ENODEV };
	if (int e = flt("mmap", errs)) MFAIL(e);
	if (n == 0 || off & 4095) MFAIL(EINVAL);
	bool sh = (fl & MAP_TYPE) == MAP_SHARED, pr = (fl & MAP_TYPE) == MAP_PRIVATE;
	if (!sh && !pr) MFAIL(EINVAL);
	if (n > (1ull << 44)) MFAIL(ENOMEM);
	Inode *i = NULL;
	if (!(fl & MAP_ANON))
	{
		Ofd *f = k_ofd_sut(k, fd);
		if (!f) MFAIL(EBADF);
		if (!f->ino || f->ino->type != I_REG) MFAIL(ENODEV);
		int acc = f->flags & O_ACCMODE;
		if (acc == O_WRONLY) MFAIL(EACCES);
		if (sh && (prot & PROT_WRITE) && acc != O_RDWR) MFAIL(EACCES);
		i = f->ino;
		k_sync();
	}
	Mapping m;
	m.len = n; m.span = (n + 4095) & ~(size_t) 4095; m.ino = i; m.off = off; m.prot = prot; m.flags = fl; m.shared = sh;
	m.addr = (char *) __real_mmap(NULL, m.span, n > (1u << 28) ? PROT_NONE : PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
	if (m.addr == MAP_FAILED) MFAIL(ENOMEM);
	if (i) map_in(i, m); else mprotect(m.addr, n > (1u << 28) ? 4096 : m.span, prot);
	k->maps.push_back(m);
	ev("=", k->maps.size());
	errno = err_;
	return m.addr;
}
#define MMAP(name) \
void *__real_##name(void *, size_t, int, int, int, off_t); \
void *__wrap_##name(void *a, size_t n, int p, int f, int fd, off_t o) { if (!sys_in()) return __real_##name(a, n, p, f, fd, o); return sim_mmap(a, n, p, f, fd, o); }
MMAP(mmap) MMAP(mmap64)
int __wrap_munmap(void *a, size_t n)
{
	if (!sys_in()) return __real_munmap(a, n);
	ENTER("munmap");
	ev("munmap", n);
	size_t span = (n + 4095) & ~(size_t) 4095;
	if (!n || (size_t) a & 4095) RET(-EINVAL);
	for (size_t i = 0; i < k->maps.size(); ++i)
	{
		Mapping &m = k->maps[i];
		if (m.addr != a || span > m.span) continue;
		map_out(m);
		if (span == m.span) { __real_munmap(m.addr, m.span); k->maps.erase(k->maps.begin() + i); }
		else { __real_munmap(m.addr, span); m.addr += span; m.span -= span; m.off += span; m.len -= span; }
		RET(0);
	}
	fail("foreign-munmap", "munmap of an address range that is not mapped");
}

// processes
static int sim_fork()
{
	ENTER("fork");
	static const int errs[] = { EAGAIN, ENOMEM };
	if (int e = flt("fork", errs)) RET(-e);
	Proc *c = proc_new(fmt("%s.child%d", curproc()->name.c_str(), ++k->forked).c_str());
	KProc *ck = kp(c);
	k = kp();
	for (auto f : std::map<int, Ofd *>(ck->fds)) { ck->fds.erase(f.first); f.second->refs--; }
	ck->fds = k->fds; ck->cloexec = k->cloexec;
	for (auto &f : ck->fds) f.second->refs++;
	ck->ppid = k->pid; ck->sid = k->sid; ck->leader = false; ck->umask = k->umask; ck->cwd = k->cwd;
	memcpy(ck->act, k->act, sizeof k->act);
	for (int i = 0; i < 3; ++i) { ck->bufmode[i] = k->bufmode[i]; ck->buf[i] = k->buf[i]; }
	c->parent = curproc()->id;
	int role = krn.fork_role >= 0 ? krn.fork_role : (int) draw(2);
	ev("fork", ck->pid, role);
	if (role == 0)
	{
		sim::stat("fork.followed-child");
		// the parent goes on by itself somewhere else: not followed
		cur()->proc = c;
		errno = err_;
		return 0;
	}
	sim::stat("fork.followed-parent");
	errno = err_;
	return ck->pid;
}
pid_t __real_fork();
pid_t __wrap_fork() { if (!sys_in()) return __real_fork(); return sim_fork(); }
pid_t __wrap_vfork() { return __wrap_fork(); }
pid_t __real_getpid();
pid_t __wrap_getpid() { if (!sys_in()) return __real_getpid(); OutSut o; return kp()->pid; }
pid_t __real_getppid();
pid_t __wrap_getppid() { if (!sys_in()) return __real_getppid(); OutSut o; return kp()->ppid; }
pid_t __real_setsid();
pid_t __wrap_setsid()
{
	if (!sys_in()) return __real_setsid();
	ENTER("setsid");
	ev("setsid");
	static const int errs[] = { EPERM };
	if (int e = flt("setsid", errs)) RET(-e);
	if (k->sid == k->pid || k->leader) RET(-EPERM);
	k->sid = k->pid; k->leader = true;
	RET(k->pid);
}
pid_t __real_getsid(pid_t);
pid_t __wrap_getsid(pid_t p) { if (!sys_in()) return __real_getsid(p); OutSut o; return kp()->sid; }
static void sim_exit(int st, bool flush)
{
	OutSut o;
	point("exit");
	KProc *k = kp();
	if (flush) for (int s = 1; s < 3; ++s) if (!k->buf[s].empty()) std_flush(k, s);
	note(fmt("exit(%d)", st));
	k_proc_end(k->p, st);
	k->status = st & 255;
	end_proc(k->p);
	abort();
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int st) { if (!sys_in()) __real_exit(st); sim_exit(st, true); __builtin_unreachable(); }
void __real__exit(int) __attribute__((noreturn));
void __wrap__exit(int st) { if (!sys_in()) __real__exit(st); sim_exit(st, false); __builtin_unreachable(); }
void __wrap__Exit(int st) { __wrap__exit(st); }
void __real_abort() __attribute__((noreturn));
void __wrap_abort() { if (!sys_in()) __real_abort(); fail("abort", "the code under test called abort()"); }

// random numbers
void __real_srandom(unsigned);
void __wrap_srandom(unsigned s) { if (!sys_in()) return __real_srandom(s); OutSut o; ev("srandom", s); krn.seeds.push_back(s); rand_state = s; }
void __real_srand(unsigned);
void __wrap_srand(unsigned s) { if (!sys_in()) return __real_srand(s); __wrap_srandom(s); }
long __real_random();
long __wrap_random() { if (!sys_in()) return __real_random(); rand_state = rand_state * 1103515245u + 12345u; return (rand_state ^ rand_state >> 13) & 0x7fffffff; }
int __real_rand();
int __wrap_rand() { if (!sys_in()) return __real_rand(); return __wrap_random(); }
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (!sys_in()) return __real_getrandom(b, n, f);
	ENTER("getrandom");
	static const int errs[] = { EINTR, ENOSYS, EAGAIN };
	if (int e = flt("getrandom", errs)) RET(-e);
	std::string s(n, 0);
	u32 x = draw(1 << 30) + 777;
	for (size_t j = 0; j < n; ++j) { x = x * 1664525 + 1013904223; s[j] = x >> 24; }
	memcpy(b, s.data(), n);
	krn.random_served += n; krn.random_bytes += s; krn.random_reads.push_back(s);
	RET(n);
}
int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *b, size_t n) { if (!sys_in()) return __real_getentropy(b, n); return __wrap_getrandom(b, n, 0) < 0 ? -1 : 0; }

// streams
static FILE *sim_fopen(const char *p, const char *m)
{
	OutSut o_; int err_ = errno; point("open"); if (krn.on_sys) krn.on_sys("open"); KProc *k = kp();
	errno = err_;
	int fl = mode_flags(m);
	ev("fopen", fl);
	if (int e = open_fault(fl)) { errno = e; return NULL; }
	int fd = do_open(k, p, fl, 0666, -1);
	if (fd < 0) { errno = -fd; return NULL; }
	FILE *f = cookie(fd, m);
	ev("=", fd);
	errno = err_;
	return f;
}
#define FOPEN(name) \
FILE *__real_##name(const char *, const char *); \
FILE *__wrap_##name(const char *p, const char *m) { if (!sys_in()) return __real_##name(p, m); return sim_fopen(p, m); }
FOPEN(fopen) FOPEN(fopen64)
FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int fd, const char *m)
{
	if (!sys_in()) return __real_fdopen(fd, m);
	OutSut o;
	if (!k_ofd_sut(kp(), fd)) { errno = EBADF; return NULL; }
	if (fault_here()) { static const int e[] = { ENOMEM }; if (int x = inject("fdopen", e)) { errno = x; return NULL; } }
	return cookie(fd, m);
}
#define FREOPEN(name) \
FILE *__real_##name(const char *, const char *, FILE *); \
FILE *__wrap_##name(const char *p, const char *m, FILE *f) \
{ \
	if (!sys_in() || std_index(f) < 0) return __real_##name(p, m, f); \
	int s = std_index(f); \
	int fd = sim_open(p, mode_flags(m), 0666); \
	if (fd < 0) { OutSut o; k_close(kp(), s); return NULL; } \
	if (fd != s) { __wrap_dup2(fd, s); __wrap_close(fd); } \
	return f; \
}
FREOPEN(freopen) FREOPEN(freopen64)
int __real_fileno(FILE *);
int __wrap_fileno(FILE *f)
{
	if (!sys_in()) return __real_fileno(f);
	if (std_index(f) >= 0) return std_index(f);
	if (f == stdin) return 0;
	auto it = cookies->find(f);
	return it == cookies->end() ? __real_fileno(f) : it->second;
}
int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE *f, const char *s, va_list ap)
{
	if (!sys_in() || std_index(f) < 0) return __real_vfprintf(f, s, ap);
	OutSut o;
	return std_vprintf(std_index(f), s, ap);
}
int __wrap_fprintf(FILE *f, const char *s, ...)
{
	va_list ap;
	va_start(ap, s);
	int r = __wrap_vfprintf(f, s, ap);
	va_end(ap);
	return r;
}
int __wrap_vprintf(const char *s, va_list ap) { return __wrap_vfprintf(stdout, s, ap); }
int __wrap_printf(const char *s, ...)
{
	va_list ap;
	va_start(ap, s);
	int r = __wrap_vfprintf(stdout, s, ap);
	va_end(ap);
	return r;
}
int __real_vdprintf(int, const char *, va_list);
int __wrap_vdprintf(int fd, const char *s, va_list ap)
{
	if (!sys_in()) return __real_vdprintf(fd, s, ap);
	char *b = NULL;
	int n;
	{ OutSut o; n = vasprintf(&b, s, ap); }
	if (n < 0) return -1;
	int r = 0;
	for (int done = 0; done < n; done += r)       // as glibc: goes on after a short write
	{
		r = __wrap_write(fd, b + done, n - done);
		if (r <= 0) break;
	}
	{ OutSut o; int e = errno; free(b); errno = e; }
	return n && r <= 0 ? -1 : n;
}
int __wrap_dprintf(int fd, const char *s, ...)
{
	va_list ap;
	va_start(ap, s);
	int r = __wrap_vdprintf(fd, s, ap);
	va_end(ap);
	return r;
}
#define FWRITE(name) \
size_t __real_##name(const void *, size_t, size_t, FILE *); \
size_t __wrap_##name(const void *p, size_t a, size_t b, FILE *f) \
{ \
	if (!sys_in() || std_index(f) < 0) return __real_##name(p, a, b, f); \
	OutSut o; \
	if (!(a * b)) return 0; \
	return std_out(std_index(f), (const char *) p, a * b) < 0 ? 0 : b; \
}
FWRITE(fwrite) FWRITE(fwrite_unlocked)
#define FPUTS(name) \
int __real_##name(const char *, FILE *); \
int __wrap_##name(const char *p, FILE *f) \
{ \
	if (!sys_in() || std_index(f) < 0) return __real_##name(p, f); \
	OutSut o; \
	size_t n = strlen(p); \
	return !n ? 1 : std_out(std_index(f), p, n) < 0 ? EOF : 1; \
}
FPUTS(fputs) FPUTS(fputs_unlocked)
#define FPUTC(name) \
int __real_##name(int, FILE *); \
int __wrap_##name(int c, FILE *f) \
{ \
	if (!sys_in() || std_index(f) < 0) return __real_##name(c, f); \
	OutSut o; \
	char x = c; \
	return std_out(std_index(f), &x, 1) < 0 ? EOF : (unsigned char) c; \
}
FPUTC(fputc) FPUTC(putc) FPUTC(fputc_unlocked) FPUTC(putc_unlocked) FPUTC(_IO_putc)
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
int __wrap_puts(const char *s)
{
	if (!sys_in()) { int r = __real_fputs(s, stdout); __real_fputc('\n', stdout); return r; }
	std::string t;
	{ OutSut o; t = std::string(s) + "\n"; }
	OutSut o;
	return std_out(1, t.data(), t.size()) < 0 ? EOF : 1;
}
void __wrap_perror(const char *s) { int e = errno; __wrap_fprintf(stderr, "%s: %s\n", s ? s : "", strerror(e)); }
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f)
{
	if (!sys_in() || (f && std_index(f) < 0)) return __real_fflush(f);
	OutSut o;
	KProc *k = kp();
	bool ok = true;
	for (int s = 1; s < 3; ++s) if (!f || std_index(f) == s) { std_lock(k, s); if (!k->buf[s].empty()) ok = std_flush(k, s) && ok; std_unlock(k, s); }
	return ok ? 0 : EOF;
}
int __real_setvbuf(FILE *, char *, int, size_t);
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n)
{
	if (!sys_in() || std_index(f) < 0) return __real_setvbuf(f, b, m, n);
	OutSut o;
	kp()->bufmode[std_index(f)] = m == _IONBF ? 0 : m == _IOLBF ? 1 : 2;
	return 0;
}
void __real_flockfile(FILE *);
void __wrap_flockfile(FILE *f) { if (!sys_in() || std_index(f) < 0) return __real_flockfile(f); OutSut o; std_lock(kp(), std_index(f)); }
void __real_funlockfile(FILE *);
void __wrap_funlockfile(FILE *f) { if (!sys_in() || std_index(f) < 0) return __real_funlockfile(f); OutSut o; std_unlock(kp(), std_index(f)); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f)
{
	if (!sys_in() || std_index(f) < 0) return __real_fclose(f);
	return __wrap_close(std_index(f));
}
}
