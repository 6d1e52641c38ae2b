// Simulated kernel: files, descriptors, processes, signals, sockets.
#pragma once
#include "sim.hpp"
#include <map>
#include <signal.h>
#include <string>
#include <vector>

namespace sim {
enum { I_REG, I_DIR, I_NULL, I_URANDOM, I_TTY, I_SOCK, I_LNK };
struct Ofd;
struct Inode
{
	int ino, type, nlink;
	std::string data;
	u64 hole = 0;                     // zero bytes after them, not stored (very big files)
	std::map<std::string, Inode *> ents;
	std::vector<Ofd *> lockers;       // open files holding flock locks
	int plock;                        // pid holding a POSIX lock, 0: none
	i64 mtime;
	int mode;                         // permissions it was created with, umask applied; 0: by the harness
};
struct Sock;
struct Ofd
{
	Inode *ino;
	Sock *sock;
	int flags;
	u64 pos;
	int refs, lock;                   // lock: LOCK_SH, LOCK_EX or 0
};
struct Mapping { char *addr; size_t len, span; Inode *ino; u64 off; int prot, flags; bool shared; std::string seen; };
struct KProc
{
	Proc *p;
	std::map<int, Ofd *> fds;
	std::map<int, bool> cloexec;
	std::vector<Mapping> maps;
	int pid, ppid, sid, umask;
	bool exited, leader;
	int status;
	int forked;                       // children created
	std::string cwd;
	// signals
	struct Act { void (*h)(int); int flags; u64 mask; } act[65];
	u64 pending;
	int delivered;
	int sigpipes;
	// standard streams
	int lock_owner[3], lock_depth[3];
	int bufmode[3];
	std::string buf[3];
};
KProc *kp(Proc *p);
inline KProc *kp() { return kp(curproc()); }
Proc *proc_by_pid(int pid);

struct KrnCfg
{
	u64 fault_procs;                  // 0: all
	bool fork_child;                  // role: decided by a draw unless fork_role is set
	int pid_base;                     // the first process id
	int fork_role;                    // -1 draw, 0 child, 1 parent
	bool enospc;                      // disk full until cleared
	u64 conn_blocking;                // connects issued on a socket in blocking mode
	u64 read_errors;                  // failed reads of regular files (EIO)
	bool sig_faults;                  // failing signal and sigaction among the injected faults
	bool shorts;                      // short reads and writes among the injected faults
	void (*on_fd)(KProc *, int fd, Ofd *o, Ofd *n);   // descriptor fd changes from o to n
	void (*on_sys)(const char *name); // before each system call's effect
	u64 random_served;                // bytes handed out by the random device
	int connect_delay_den;
	std::vector<unsigned> seeds;      // arguments of srandom and the like
	std::string random_bytes;         // everything read from the random device
	std::vector<std::string> random_reads;
};
extern KrnCfg krn;

// direct, faultless access for harnesses
Inode *k_lookup(const std::string &path);
std::string *k_data(const std::string &path);          // NULL unless a regular file
Inode *k_mkfile(const std::string &path, const std::string &data);
bool k_symlink(const std::string &to, const std::string &path);
void k_mkdirs(const std::string &path);
bool k_rename(const std::string &a, const std::string &b);
bool k_unlink(const std::string &path);
int k_open(KProc *k, const std::string &path, int flags, int at = -1);   // at: this descriptor number
void k_close(KProc *k, int fd);
std::string k_fds(KProc *k);                            // printable descriptor table
Ofd *k_ofd(KProc *k, int fd);
Ofd *k_ofd_sut(KProc *k, int fd);                       // the same on behalf of the code under test
void k_bystander(Proc *p);                              // a thread that opens and closes descriptors of its own meanwhile
std::map<int, Ofd *> k_table(KProc *k);                 // descriptor table without the bystanders' descriptors
bool k_locked(Inode *i);
void k_sync();                                          // shared mappings -> files
void k_proc_end(Proc *p, int status);
std::vector<Inode *> k_all();

// signals
void k_signal(Proc *p, int sig);                        // somebody sends sig
bool sig_restart();                                     // after an interrupted block: resume the call?
int kblock(const char *what, i64 deadline);             // WK_OK: re-examine the condition; WK_INTR: fail with EINTR; WK_TIMEOUT
u64 task_sigmask(Task *t);
const char *signame(int sig);

// sockets
struct Sock
{
	int id;
	int state;                       // S_*
	bool nonblock_unused;
	bool bound; u32 addr; u16 port;  // local, host order
	u32 paddr; u16 pport;            // peer
	bool reuse;
	i64 rcvtimeo, sndtimeo;          // ns, 0: none
	int backlog;
	std::vector<Sock *> queue;       // pending connections
	Sock *peer;
	std::string rx;                  // bytes waiting to be received
	bool rx_eof, reset, shut_wr, closed;
	bool connecting;                 // connect in progress
	int err;
	size_t cap;
	std::map<std::pair<int, int>, long> opts;
	bool nosigpipe;
	u64 sent, received;
};
enum { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_CONN, S_CLOSED };
Sock *k_sock(KProc *k, int fd);
Sock *net_peer_connect(u32 addr, u16 port, u32 from, u16 fromport); // a remote client connects; NULL: refused
Sock *net_listen_remote(u32 addr, u16 port, int backlog);             // a remote server listens
Sock *net_accept_remote(Sock *l);                                     // takes a pending connection, NULL if none
void net_pair(KProc *k, int fd, Sock **remote);                       // connected socket at fd
void net_put(Sock *remote, const std::string &d);                     // the remote side sends
std::string net_take(Sock *remote, size_t max);                       // the remote side receives
void net_close_remote(Sock *s, bool rst);
void net_timewait(u16 port);
int net_open_count();
// used between vfs.cpp, net.cpp, sig.cpp
void sock_release(Sock *s);
ssize_t sock_recv(Ofd *o, void *b, size_t n, int flags);
ssize_t sock_send(Ofd *o, const void *b, size_t n, int flags);
int fd_new(KProc *k, Ofd *o, int least = 0);
Ofd *ofd_sock(Sock *s, int flags);
bool sys_in();
bool fault_here();
void proc_wake_all(KProc *k);
} // namespace sim
