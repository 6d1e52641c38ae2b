// System V IPC as the kernel does it: atomic multi-operation semop, SEM_UNDO per process, IPC_NOWAIT,
// timeouts, EINTR on blocked calls only, segments attached at a different address in every process.
#include "ipc.hpp"
#include "simint.hpp"
#include <errno.h>
#include <map>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {
IpcCfg ipc;

struct Sem { int val; };
struct SemSet { key_t key; int n, id, mode, uid; bool removed, used; Sem s[32]; int adj[MAXPROC][32]; bool hasundo[MAXPROC]; };
struct Pend { SemSet *set; struct sembuf *ops; size_t n; Task *t; int result; };
struct Att { char *addr; size_t len; int proc; };
struct Seg { key_t key; int id, fd; size_t size, maplen; int mode, uid; bool removed; std::vector<Att> att; };

static std::vector<SemSet *> sets;
static std::vector<Seg *> segs;
static std::vector<Pend *> pend;
static std::map<std::string, bool> keyfiles;
static u64 next_addr;
static int next_id;
static u64 newborn;            // processes that have made no System V call since they created a semaphore set
// entry of a call: the process may die here
static void enter(const char *what) { point(what); newborn &= ~(1ull << (curproc()->id & 63)); }

static void seg_free(Seg *g)
{
	for (size_t j = 0; j < g->att.size(); ++j) munmap(g->att[j].addr, g->att[j].len);
	close(g->fd);
}
static bool valid_range(const void *a, size_t n)
{
	int me = curproc()->id;
	for (size_t i = 0; i < segs.size(); ++i)
		for (size_t j = 0; j < segs[i]->att.size(); ++j)
		{
			const Att &t = segs[i]->att[j];
			if (t.proc == me && (const char *) a >= t.addr && (const char *) a + n <= t.addr + segs[i]->size) return true;
		}
	return n == 0;
}
static void ipc_reset()
{
	shm_valid = valid_range;
	for (size_t i = 0; i < sets.size(); ++i) delete sets[i];
	for (size_t i = 0; i < segs.size(); ++i) { seg_free(segs[i]); delete segs[i]; }
	for (size_t i = 0; i < pend.size(); ++i) delete pend[i];
	sets.clear(); segs.clear(); pend.clear(); keyfiles.clear();
	next_addr = (u64) shm_base;
	next_id = 100;
	newborn = 0;
	memset(&ipc, 0, sizeof ipc);
	ipc.faulty_procs = ~0ull;
}
static bool allowed(int mode, int uid)
{
	int u = curproc()->uid;
	return ((u == uid ? mode >> 6 : mode) & 6) == 6;
}
static bool faulty() { return ipc.faults && (ipc.faulty_procs >> (curproc()->id & 63) & 1); }

static SemSet *sem_by_id(int id)
{
	for (size_t i = 0; i < sets.size(); ++i) if (sets[i]->id == id && !sets[i]->removed) return sets[i];
	return NULL;
}

// 0 done, 1 would block, <0 -errno
static int try_ops(SemSet *s, Proc *p, struct sembuf *ops, size_t n)
{
	int v[32], a[32];
	for (int i = 0; i < s->n; ++i) { v[i] = s->s[i].val; a[i] = s->adj[p->id][i]; }
	for (size_t i = 0; i < n; ++i)
	{
		int k = ops[i].sem_num, o = ops[i].sem_op;
		if (o == 0) { if (v[k] != 0) return (ops[i].sem_flg & IPC_NOWAIT) ? -EAGAIN : 1; continue; }
		if (o < 0 && v[k] + o < 0) return (ops[i].sem_flg & IPC_NOWAIT) ? -EAGAIN : 1;
		if (v[k] + o > 32767) return -ERANGE;
		v[k] += o;
		if (ops[i].sem_flg & SEM_UNDO) a[k] -= o;
	}
	for (int i = 0; i < s->n; ++i) { s->s[i].val = v[i]; s->adj[p->id][i] = a[i]; }
	s->used = true;
	return 0;
}
static void update(SemSet *s)
{
	bool again = true;
	while (again)
	{
		again = false;
		std::vector<size_t> idx;
		for (size_t i = 0; i < pend.size(); ++i) if (pend[i]->set == s) idx.push_back(i);
		if (ipc.random_wake && idx.size() > 1)
			for (size_t i = 0; i + 1 < idx.size(); ++i) std::swap(idx[i], idx[i + draw(idx.size() - i)]);
		for (size_t j = 0; j < idx.size(); ++j)
		{
			Pend *p = pend[idx[j]];
			if (!task_blocked(p->t)) continue;
			int r = s->removed ? -EIDRM : try_ops(s, p->t->proc, p->ops, p->n);
			if (r == 1) continue;
			p->result = r;
			pend.erase(pend.begin() + idx[j]);
			wake(p->t, WK_OK);
			again = true;
			break;
		}
	}
}
static void sem_exit(Proc *p)
{
	for (size_t i = 0; i < pend.size();)
		if (pend[i]->t->proc == p) pend.erase(pend.begin() + i); else ++i;
	for (size_t i = 0; i < sets.size(); ++i)
	{
		SemSet *s = sets[i];
		for (int k = 0; k < s->n; ++k)
		{
			if (s->adj[p->id][k]) { s->s[k].val += s->adj[p->id][k]; if (s->s[k].val < 0) s->s[k].val = 0; stat("probe.sem-undo-applied"); }
			s->adj[p->id][k] = 0;
		}
		s->hasundo[p->id] = false;
		update(s);
	}
	for (size_t i = 0; i < segs.size(); ++i)
		for (size_t j = 0; j < segs[i]->att.size(); ++j)
			if (segs[i]->att[j].proc == p->id) segs[i]->att[j].proc = -2; // mapping kept until reset, no longer counted
}
struct Init { Init() { on_reset(ipc_reset); on_proc_exit(sem_exit); } } init_ipc;

void ipc_keyfile(const char *path, bool exists) { keyfiles[path] = exists; }
int ipc_attached(Proc *p)
{
	int n = 0;
	for (size_t i = 0; i < segs.size(); ++i) for (size_t j = 0; j < segs[i]->att.size(); ++j) if (segs[i]->att[j].proc == p->id) ++n;
	return n;
}
void ipc_inherit(Proc *child, Proc *parent)
{
	for (size_t i = 0; i < segs.size(); ++i)
	{
		size_t n = segs[i]->att.size();
		for (size_t j = 0; j < n; ++j) if (segs[i]->att[j].proc == parent->id)
		{ Att a = segs[i]->att[j]; a.proc = child->id; a.len = 0; segs[i]->att.push_back(a); }
	}
}
int ipc_semval(int n) { return sets.size() == 1 ? sets[0]->s[n].val : -1; }
int ipc_segments() { return segs.size(); }
void ipc_compact()
{
	static const char zero[4096] = { 0 };
	for (size_t i = 0; i < segs.size(); ++i)
	{
		Seg *g = segs[i];
		if (g->att.empty()) continue;
		const char *m = g->att[0].addr;
		long at = 0;
		while ((at = syscall(SYS_lseek, g->fd, at, 3 /* SEEK_DATA */)) >= 0)
		{
			long end = syscall(SYS_lseek, g->fd, at, 4 /* SEEK_HOLE */), from = -1;
			for (at &= ~4095l; at < end; at += 4096)
			{
				bool z = !__builtin_memcmp(m + at, zero, 4096);
				if (z && from < 0) from = at;
				if (!z && from >= 0) { syscall(SYS_fallocate, g->fd, 3 /* KEEP_SIZE | PUNCH_HOLE */, from, at - from); from = -1; }
			}
			if (from >= 0) syscall(SYS_fallocate, g->fd, 3, from, at - from);
			at = end;
		}
	}
}
// a process that has died right after it created a semaphore set, before it could do anything else
bool ipc_died_newborn()
{
	for (int i = 0; i < MAXPROC; ++i) if (newborn >> i & 1) { Proc *p = proc_get(i); if (p && !p->alive) return true; }
	return false;
}
int ipc_semsets() { int n = 0; for (size_t i = 0; i < sets.size(); ++i) n += !sets[i]->removed; return n; }
void ipc_remove_sems()
{
	for (size_t i = 0; i < sets.size(); ++i) { sets[i]->removed = true; update(sets[i]); }
}

static int do_semop(int id, struct sembuf *ops, size_t n, const struct timespec *ts)
{
	OutSut o;
	enter("semop");
	if (n == 0 || id < 0) { errno = EINVAL; return -1; }
	if (n > 500) { errno = E2BIG; return -1; }
	i64 deadline = -1;
	if (ts)
	{
		if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000l) { errno = EINVAL; return -1; }
		deadline = ts->tv_sec > 9000000000ll ? -1 : now_ns + ts->tv_sec * 1000000000ll + ts->tv_nsec;
	}
	SemSet *s = sem_by_id(id);
	if (!s) { errno = EINVAL; return -1; }
	bool undo = false;
	for (size_t i = 0; i < n; ++i)
	{
		if (ops[i].sem_num >= s->n) { errno = EFBIG; return -1; }
		if (ops[i].sem_flg & SEM_UNDO) undo = true;
	}
	if (!allowed(s->mode, s->uid)) { errno = EACCES; return -1; }
	Proc *p = curproc();
	if (undo && !s->hasundo[p->id])
	{
		static const int e[] = { ENOSPC, ENOMEM };
		int x;
		if (faulty() && (x = inject("semop.first-undo", e))) { errno = x; return -1; }
		s->hasundo[p->id] = true;
	}
	int r = try_ops(s, p, ops, n);
	if (r < 0) { ev("semop-fail", -r); errno = -r; return -1; }
	if (r == 0)
	{
		ev("semop", ops[0].sem_num, ops[0].sem_op, n);
		update(s);
		point("semop-done");
		return 0;
	}
	if (ts && deadline >= 0 && deadline <= now_ns) { ev("semop-again"); errno = EAGAIN; return -1; }
	stat("probe.semop-blocked");
	Pend *q = new Pend;
	q->set = s; q->ops = ops; q->n = n; q->t = cur(); q->result = 0;
	if (!q->t) fail("harness", "driver blocks in semop");
	pend.push_back(q);
	int w = block("semop", deadline, true);
	for (size_t i = 0; i < pend.size(); ++i) if (pend[i] == q) { pend.erase(pend.begin() + i); break; }
	int res = q->result;
	delete q;
	if (w == WK_INTR) { ev("semop-eintr"); errno = EINTR; return -1; }
	if (w == WK_TIMEOUT) { ev("semop-timeout"); errno = EAGAIN; return -1; }
	if (res < 0) { ev("semop-fail", -res); errno = -res; return -1; }
	ev("semop-woken", ops[0].sem_num, ops[0].sem_op, n);
	update(s);
	point("semop-done");
	return 0;
}
} // namespace sim

using namespace sim;
extern "C" {

int semop(int id, struct sembuf *ops, size_t n) __THROW { return do_semop(id, ops, n, NULL); }
int semtimedop(int id, struct sembuf *ops, size_t n, const struct timespec *ts) __THROW { return do_semop(id, ops, n, ts); }

int semget(key_t key, int n, int flg) __THROW
{
	OutSut o;
	enter("semget");
	static const int e[] = { ENOSPC, ENOMEM, EACCES };
	int x;
	if (faulty() && (x = inject("semget", e))) { errno = x; return -1; }
	if (key != IPC_PRIVATE)
		for (size_t i = 0; i < sets.size(); ++i)
			if (sets[i]->key == key && !sets[i]->removed)
			{
				if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
				if (n > sets[i]->n) { errno = EINVAL; return -1; }
				if ((flg & 0666) && !allowed(sets[i]->mode, sets[i]->uid)) { errno = EACCES; return -1; }
				ev("semget", sets[i]->id);
				return sets[i]->id;
			}
	if (key != IPC_PRIVATE && !(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
	if (n <= 0 || n > 32) { errno = EINVAL; return -1; }
	SemSet *s = new SemSet();
	s->key = key; s->n = n; s->id = next_id++; s->mode = flg & 0777; s->uid = curproc()->uid;
	sets.push_back(s);
	ev("semget-new", s->id);
	newborn |= 1ull << (curproc()->id & 63);
	point("semget-done");
	return s->id;
}

int semctl(int id, int k, int cmd, ...) __THROW
{
	OutSut o;
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	enter("semctl");
	SemSet *s = sem_by_id(id);
	if (!s) { errno = EINVAL; return -1; }
	if (!allowed(s->mode, s->uid)) { errno = EACCES; return -1; }
	if ((cmd == GETVAL || cmd == SETVAL || cmd == GETNCNT || cmd == GETZCNT || cmd == GETPID) && (k < 0 || k >= s->n)) { errno = EINVAL; return -1; }
	int cnt = 0;
	switch (cmd)
	{
	case GETVAL: ev("semctl-getval", k, s->s[k].val); return s->s[k].val;
	case SETVAL:
		if ((int) arg < 0 || (int) arg > 32767) { errno = ERANGE; return -1; }
		s->s[k].val = (int) arg;
		for (int p = 0; p < MAXPROC; ++p) s->adj[p][k] = 0;
		ev("semctl-setval", k, (int) arg);
		update(s);
		point("semctl-done");
		return 0;
	case SETALL:
		for (int i = 0; i < s->n; ++i)
		{
			s->s[i].val = ((unsigned short *) arg)[i];
			for (int p = 0; p < MAXPROC; ++p) s->adj[p][i] = 0;
		}
		ev("semctl-setall");
		update(s);
		point("semctl-done");
		return 0;
	case GETALL:
		for (int i = 0; i < s->n; ++i) ((unsigned short *) arg)[i] = s->s[i].val;
		return 0;
	case GETNCNT: case GETZCNT:
		for (size_t i = 0; i < pend.size(); ++i)
			for (size_t j = 0; j < pend[i]->n; ++j)
				if (pend[i]->set == s && pend[i]->ops[j].sem_num == k && (cmd == GETZCNT) == (pend[i]->ops[j].sem_op == 0)) { ++cnt; break; }
		return cnt;
	case GETPID: return curproc()->id + 1000;
	case IPC_RMID:
		s->removed = true;
		ev("semctl-rmid");
		update(s);
		return 0;
	case IPC_STAT:
	{
		struct semid_ds *d = (struct semid_ds *) arg;
		memset(d, 0, sizeof *d);
		d->sem_nsems = s->n;
		d->sem_otime = s->used ? 1 : 0;
		d->sem_perm.mode = s->mode;
		return 0;
	}
	}
	errno = EINVAL;
	return -1;
}

int shmget(key_t key, size_t size, int flg) __THROW
{
	OutSut o;
	enter("shmget");
	static const int e[] = { ENOSPC, ENOMEM, EACCES, ENFILE };
	int x;
	if (faulty() && (x = inject("shmget", e))) { errno = x; return -1; }
	if (key != IPC_PRIVATE)
		for (size_t i = 0; i < segs.size(); ++i)
			if (segs[i]->key == key && !segs[i]->removed)
			{
				if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
				if (size > segs[i]->size) { errno = EINVAL; return -1; }
				if ((flg & 0666) && !allowed(segs[i]->mode, segs[i]->uid)) { errno = EACCES; return -1; }
				ev("shmget", segs[i]->id);
				return segs[i]->id;
			}
	if (key != IPC_PRIVATE && !(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
	if (size == 0 || size > 16ull << 30) { errno = EINVAL; return -1; }
	Seg *g = new Seg();
	g->key = key; g->id = next_id++; g->size = size; g->maplen = (size + 4095) & ~4095ul; g->mode = flg & 0777; g->uid = curproc()->uid;
	g->fd = syscall(SYS_memfd_create, "seg", 0);
	if (g->fd < 0 || syscall(SYS_ftruncate, g->fd, g->maplen)) { fprintf(stderr, "memfd failed\n"); abort(); }
	segs.push_back(g);
	ev("shmget-new", g->id, size);
	point("shmget-done");
	return g->id;
}

void *shmat(int id, const void *addr, int flg) __THROW
{
	OutSut o;
	enter("shmat");
	static const int e[] = { ENOMEM, EACCES, EINVAL };
	int x;
	if (faulty() && (x = inject("shmat", e))) { errno = x; return (void *) -1; }
	(void) addr;
	for (size_t i = 0; i < segs.size(); ++i)
		if (segs[i]->id == id && !segs[i]->removed)
		{
			Seg *g = segs[i];
			if (!allowed(g->mode, g->uid)) { errno = EACCES; return (void *) -1; }
			int prot = (flg & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE;
			void *m = mmap((void *) next_addr, g->maplen, prot, MAP_SHARED | MAP_FIXED_NOREPLACE, g->fd, 0);
			if (m == MAP_FAILED) { fprintf(stderr, "shmat: mmap failed\n"); abort(); }
			next_addr += g->maplen + 4096 * (1 + (next_addr >> 12) % 7);
			Att a = { (char *) m, g->maplen, curproc()->id };
			g->att.push_back(a);
			ev("shmat", id);
			return m;
		}
	errno = EINVAL;
	return (void *) -1;
}

int shmdt(const void *addr) __THROW
{
	OutSut o;
	enter("shmdt");
	for (size_t i = 0; i < segs.size(); ++i)
		for (size_t j = 0; j < segs[i]->att.size(); ++j)
		{
			Att &a = segs[i]->att[j];
			if (a.addr != addr || a.proc != curproc()->id) continue;
			bool alone = true;
			for (size_t k = 0; k < segs[i]->att.size(); ++k) if (k != j && segs[i]->att[k].addr == addr && segs[i]->att[k].proc >= -1) alone = false;
			size_t len = segs[i]->maplen;
			segs[i]->att.erase(segs[i]->att.begin() + j);
			if (alone)
			{
				// inherited duplicates share one mapping
				for (size_t k = 0; k < segs[i]->att.size();) if (segs[i]->att[k].addr == addr) segs[i]->att.erase(segs[i]->att.begin() + k); else ++k;
				munmap((void *) addr, len);
			}
			ev("shmdt", segs[i]->id);
			return 0;
		}
	errno = EINVAL;
	return -1;
}

int shmctl(int id, int cmd, struct shmid_ds *d) __THROW
{
	OutSut o;
	enter("shmctl");
	for (size_t i = 0; i < segs.size(); ++i)
		if (segs[i]->id == id && !segs[i]->removed)
		{
			if (cmd == IPC_RMID) { segs[i]->removed = true; return 0; }
			if (cmd == IPC_STAT)
			{
				memset(d, 0, sizeof *d);
				d->shm_segsz = segs[i]->size;
				for (size_t j = 0; j < segs[i]->att.size(); ++j) if (segs[i]->att[j].proc >= -1) ++d->shm_nattch;
				return 0;
			}
			break;
		}
	errno = EINVAL;
	return -1;
}

key_t ftok(const char *path, int id) __THROW
{
	OutSut o;
	enter("ftok");
	static const int e[] = { ENOENT, EACCES };
	int x;
	if (faulty() && (x = inject("ftok", e))) { errno = x; return -1; }
	auto it = keyfiles.find(path);
	if (it == keyfiles.end() || !it->second) { errno = ENOENT; return -1; }
	u32 h = 2166136261u;
	for (const char *s = path; *s; ++s) h = (h ^ (unsigned char) *s) * 16777619u;
	return ((id & 0xff) << 24) | (h & 0xffffff);
}
}
