// Stream sockets (AF_INET): connection set-up, byte streams, resets, time-outs.
#include "krn.hpp"
#include "simint.hpp"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <poll.h>
#include <sys/select.h>
#include <unistd.h>

namespace sim {
static std::vector<Sock *> socks;
static std::map<int, Sock *> *listeners;      // by port
static std::map<int, bool> *tw;
static int eport;
static void net_reset()
{
	if (!listeners) { listeners = new std::map<int, Sock *>; tw = new std::map<int, bool>; }
	for (Sock *s : socks) delete s;
	socks.clear();
	listeners->clear(); tw->clear();
	eport = 40000;
}
struct Init { Init() { on_reset(net_reset); } } init_net;
static Sock *sock_new()
{
	Sock *s = new Sock();
	s->id = socks.size() + 1;
	s->state = S_NEW;
	s->cap = 4096;
	socks.push_back(s);
	return s;
}
template <int N> static int flt(const char *site, const int (&errs)[N]) { return fault_here() ? inject(site, errs) : 0; }
static void wake_on(const char *what) { for (int i = 0; i < task_count(); ++i) { Task *t = task_get(i); if (task_blocked(t) && t->what == what) wake(t, WK_OK); } }
static const char *W_RECV = "recv", *W_SEND = "send", *W_ACCEPT = "accept", *W_CONNECT = "connect";
int net_open_count() { int n = 0; for (Sock *s : socks) n += !s->closed; return n; }
Sock *k_sock(KProc *k, int fd) { Ofd *o = k_ofd(k, fd); return o ? o->sock : NULL; }
void net_timewait(u16 port) { (*tw)[port] = true; }

static void drop(Sock *s, bool rst)
{
	if (s->closed) return;
	s->closed = true;
	if (s->state == S_LISTEN)
	{
		auto it = listeners->find(s->port);
		if (it != listeners->end() && it->second == s) listeners->erase(it);
		for (Sock *q : s->queue) drop(q, true);
		s->queue.clear();
	}
	else if (s->bound && s->state == S_BOUND) {}
	Sock *p = s->peer;
	if (p && !p->closed)
	{
		if (rst || !s->rx.empty()) { p->reset = true; p->rx.clear(); }
		p->rx_eof = true;
	}
	s->state = S_CLOSED;
	wake_on(W_RECV); wake_on(W_SEND); wake_on(W_CONNECT);
}
void sock_release(Sock *s) { drop(s, false); }

ssize_t sock_recv(Ofd *o, void *b, size_t n, int flags)
{
	Sock *s = o->sock;
	if (s->state != S_CONN) return -ENOTCONN;
	static const int errs[] = { EINTR, ECONNRESET, ENOMEM, ETIMEDOUT };
	if (int e = flt("recv", errs)) { if (e == ECONNRESET || e == ETIMEDOUT) { s->rx.clear(); s->rx_eof = true; if (s->peer) s->peer->reset = true; } return -e; }
	i64 deadline = s->rcvtimeo ? now_ns + s->rcvtimeo : -1;
	while (s->rx.empty() && !(n == 0))
	{
		if (s->reset) { s->reset = false; return -ECONNRESET; }
		if (s->rx_eof) return 0;
		if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) return -EAGAIN;
		if (deadline >= 0 && now_ns >= deadline) return -EAGAIN;
		sim::stat("probe.recv-blocked");
		int w = kblock(W_RECV, deadline);
		if (w == WK_TIMEOUT) return -EAGAIN;
		// a call with a time-out is never restarted
		if (w == WK_INTR || (w == WK_OK && deadline >= 0 && sig_restart() && s->rx.empty() && !s->rx_eof && !s->reset)) return -EINTR;
		if (s->closed) return -EBADF;
	}
	size_t k = s->rx.size() < n ? s->rx.size() : n;
	if (flags & MSG_WAITALL) while (s->rx.size() < n && !s->rx_eof && !s->reset) { int w = kblock(W_RECV, deadline); k = s->rx.size() < n ? s->rx.size() : n; if (w != WK_OK) break; k = s->rx.size() < n ? s->rx.size() : n; }
	if (k > 1 && krn.shorts && fault_here() && inject_flag("short-recv")) k = 1 + draw(k - 1);
	memcpy(b, s->rx.data(), k);
	if (!(flags & MSG_PEEK)) { s->rx.erase(0, k); s->received += k; wake_on(W_SEND); }
	return k;
}
ssize_t sock_send(Ofd *o, const void *b, size_t n, int flags)
{
	Sock *s = o->sock;
	bool pipe = false;
	int err = 0;
	if (s->state == S_CONNECTING) return -EAGAIN;
	if (s->state != S_CONN) { err = s->state == S_NEW || s->state == S_BOUND || s->state == S_LISTEN ? EPIPE : EPIPE; pipe = true; }
	static const int errs[] = { EINTR, ECONNRESET, ENOBUFS, EPIPE, ENOMEM };
	if (!pipe) if (int e = flt("send", errs)) { if (e == EPIPE) pipe = true; if (e == EPIPE || e == ECONNRESET) { s->rx_eof = true; s->shut_wr = true; } err = e; }
	size_t done = 0;
	while (!err)
	{
		Sock *p = s->peer;
		if (s->reset) { s->reset = false; s->shut_wr = true; err = ECONNRESET; break; }
		if (s->shut_wr || !p || p->closed) { err = EPIPE; pipe = true; s->shut_wr = true; break; }
		size_t room = p->cap > p->rx.size() ? p->cap - p->rx.size() : 0;
		if (room)
		{
			size_t k = n - done < room ? n - done : room;
			if (k > 1 && krn.shorts && fault_here() && inject_flag("short-send")) { k = 1 + draw(k - 1); p->rx.append((const char *) b + done, k); done += k; s->sent += k; wake_on(W_RECV); break; }
			p->rx.append((const char *) b + done, k);
			done += k; s->sent += k;
			wake_on(W_RECV);
			if (done == n) break;
			continue;
		}
		if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { if (done) break; err = EAGAIN; break; }
		sim::stat("probe.send-blocked");
		int w = kblock(W_SEND, s->sndtimeo ? now_ns + s->sndtimeo : -1);
		if (w == WK_TIMEOUT) { if (!done) err = EAGAIN; break; }
		if (w == WK_INTR) { if (!done) err = EINTR; break; }
	}
	if (done) return done;
	if (!err) return done;
	if (pipe && !(flags & MSG_NOSIGNAL) && !s->nosigpipe)
	{
		kp()->sigpipes++;
		ev("sigpipe");
		k_signal(curproc(), SIGPIPE);
		if (sig_hook) sig_hook();
	}
	return -err;
}

// ------------------------------------------------------------------ remote side
static Sock *join(Sock *l, u32 from, u16 fromport, Sock *client)
{
	Sock *c = client ? client : sock_new(), *s = sock_new();
	c->state = S_CONN; c->paddr = l->addr; c->pport = l->port; c->peer = s; c->addr = from; c->port = fromport; c->connecting = false;
	s->state = S_CONN; s->paddr = from; s->pport = fromport; s->peer = c; s->addr = l->addr; s->port = l->port;
	s->rcvtimeo = l->rcvtimeo;
	l->queue.push_back(s);
	wake_on(W_ACCEPT);
	return c;
}
Sock *net_peer_connect(u32 addr, u16 port, u32 from, u16 fromport)
{
	OutSut o;
	auto it = listeners->find(port);
	if (it == listeners->end()) return NULL;
	Sock *l = it->second;
	if (l->addr && l->addr != addr) return NULL;
	if ((int) l->queue.size() >= (l->backlog > 0 ? l->backlog : 0) + 1) return NULL;
	ev("remote-connect", from, fromport);
	return join(l, from, fromport, NULL);
}
Sock *net_listen_remote(u32 addr, u16 port, int backlog)
{
	OutSut o;
	Sock *l = sock_new();
	l->state = S_LISTEN; l->bound = true; l->addr = addr; l->port = port; l->backlog = backlog;
	(*listeners)[port] = l;
	wake_on(W_CONNECT);
	return l;
}
Sock *net_accept_remote(Sock *l)
{
	OutSut o;
	if (l->queue.empty()) return NULL;
	Sock *s = l->queue[0];
	l->queue.erase(l->queue.begin());
	return s;
}
void net_pair(KProc *k, int fd, Sock **remote)
{
	OutSut o;
	Sock *a = sock_new(), *b = sock_new();
	a->state = b->state = S_CONN; a->peer = b; b->peer = a;
	Ofd *f = ofd_sock(a, O_RDWR);
	if (fd_new(k, f, fd) != fd) fail("harness", "descriptor %d is taken", fd);
	*remote = b;
}
void net_put(Sock *r, const std::string &d) { OutSut o; ev("remote-put", d.size()); if (r->peer && !r->peer->closed) r->peer->rx += d; wake_on(W_RECV); }
std::string net_take(Sock *r, size_t max)
{
	OutSut o;
	std::string s = r->rx.substr(0, max);
	r->rx.erase(0, s.size());
	ev("remote-take", s.size());
	wake_on(W_SEND);
	return s;
}
void net_close_remote(Sock *s, bool rst) { OutSut o; ev("remote-close", rst); drop(s, rst); }
} // namespace sim
using namespace sim;

#define ENTER(name) OutSut o_; int err_ = errno; point(name); if (krn.on_sys) krn.on_sys(name); errno = err_; KProc *k = kp(); (void) k
#define RET(r) do { long r_ = (r); ev("=", r_); if (r_ < 0) { errno = -r_; return -1; } errno = err_; return r_; } while (0)
#define SOCK(s, o, fd) Ofd *o = k_ofd_sut(k, fd); if (!o) RET(-EBADF); if (!o->sock) RET(-ENOTSOCK); Sock *s = o->sock

extern "C" {
int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p)
{
	if (!sys_in()) return __real_socket(d, t, p);
	ENTER("socket");
	ev("socket", d, t);
	static const int errs[] = { EMFILE, ENFILE, ENOBUFS, ENOMEM };
	if (int e = flt("socket", errs)) RET(-e);
	if (d != AF_INET) RET(-EAFNOSUPPORT);
	if ((t & 15) != SOCK_STREAM) RET(-EPROTONOSUPPORT);
	Ofd *o = ofd_sock(sock_new(), O_RDWR | (t & SOCK_NONBLOCK ? O_NONBLOCK : 0));
	int fd = fd_new(k, o);
	if (fd >= 0) k->cloexec[fd] = t & SOCK_CLOEXEC;
	RET(fd < 0 ? -EMFILE : fd);
}
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	if (!sys_in()) return __real_bind(fd, a, n);
	ENTER("bind");
	SOCK(s, o, fd);
	const struct sockaddr_in *in = (const struct sockaddr_in *) a;
	if (n < sizeof *in) RET(-EINVAL);
	if (in->sin_family != AF_INET) RET(-EAFNOSUPPORT);
	static const int errs[] = { EADDRINUSE, EACCES, ENOMEM, EADDRNOTAVAIL };
	if (int e = flt("bind", errs)) RET(-e);
	u16 port = ntohs(in->sin_port);
	ev("bind", ntohl(in->sin_addr.s_addr), port);
	if (s->state != S_NEW) RET(-EINVAL);
	if (ntohl(in->sin_addr.s_addr) == 0xffffffffu) RET(-EADDRNOTAVAIL);
	if (port == 0) port = eport++;
	if (listeners->count(port)) RET(-EADDRINUSE);
	if (tw->count(port) && !s->reuse) { sim::stat("probe.bind-time-wait"); RET(-EADDRINUSE); }
	s->bound = true; s->addr = ntohl(in->sin_addr.s_addr); s->port = port; s->state = S_BOUND;
	RET(0);
}
int __real_listen(int, int);
int __wrap_listen(int fd, int bl)
{
	if (!sys_in()) return __real_listen(fd, bl);
	ENTER("listen");
	SOCK(s, o, fd);
	ev("listen", bl);
	static const int errs[] = { EADDRINUSE, ENOMEM };
	if (int e = flt("listen", errs)) RET(-e);
	if (s->state == S_LISTEN) { s->backlog = bl; RET(0); }
	if (s->state != S_BOUND && s->state != S_NEW) RET(-EINVAL);
	if (s->state == S_NEW) { s->bound = true; s->port = eport++; }
	if (listeners->count(s->port)) RET(-EADDRINUSE);
	s->state = S_LISTEN; s->backlog = bl;
	(*listeners)[s->port] = s;
	wake_on(W_CONNECT);
	RET(0);
}
static int sim_accept(int fd, struct sockaddr *a, socklen_t *n, int fl)
{
	ENTER("accept");
	SOCK(l, o, fd);
	if (l->state != S_LISTEN) RET(-EINVAL);
	static const int errs[] = { ECONNABORTED, EMFILE, ENFILE, ENOMEM, EPROTO, EINTR };
	if (int e = flt("accept", errs)) { if (e == ECONNABORTED && !l->queue.empty()) { drop(l->queue[0], true); l->queue.erase(l->queue.begin()); } RET(-e); }
	i64 deadline = l->rcvtimeo ? now_ns + l->rcvtimeo : -1;
	while (l->queue.empty())
	{
		if (o->flags & O_NONBLOCK) RET(-EAGAIN);
		sim::stat("probe.accept-blocked");
		int w = kblock(W_ACCEPT, deadline);
		if (w == WK_TIMEOUT) RET(-EAGAIN);
		if (w == WK_INTR) RET(-EINTR);
	}
	Sock *s = l->queue[0];
	l->queue.erase(l->queue.begin());
	Ofd *f = ofd_sock(s, O_RDWR | (fl & SOCK_NONBLOCK ? O_NONBLOCK : 0));
	int nd = fd_new(k, f);
	if (nd < 0) RET(-EMFILE);
	k->cloexec[nd] = fl & SOCK_CLOEXEC;
	if (a && n)
	{
		struct sockaddr_in in;
		memset(&in, 0, sizeof in);
		in.sin_family = AF_INET; in.sin_port = htons(s->pport); in.sin_addr.s_addr = htonl(s->paddr);
		memcpy(a, &in, *n < sizeof in ? *n : sizeof in);
		*n = sizeof in;
	}
	RET(nd);
}
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { if (!sys_in()) return __real_accept(fd, a, n); return sim_accept(fd, a, n, 0); }
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { if (!sys_in()) return __real_accept4(fd, a, n, f); return sim_accept(fd, a, n, f); }
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	if (!sys_in()) return __real_connect(fd, a, n);
	ENTER("connect");
	SOCK(s, o, fd);
	const struct sockaddr_in *in = (const struct sockaddr_in *) a;
	if (n < sizeof *in) RET(-EINVAL);
	if (in->sin_family != AF_INET) RET(-EAFNOSUPPORT);
	u32 addr = ntohl(in->sin_addr.s_addr); u16 port = ntohs(in->sin_port);
	ev("connect", addr, port);
	static const int errs[] = { ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EINTR, EADDRNOTAVAIL, EAGAIN };
	if (int e = flt("connect", errs)) RET(-e);
	if (s->state == S_CONN) RET(-EISCONN);
	if (s->state == S_CONNECTING) RET(-EALREADY);
	if (s->state != S_NEW && s->state != S_BOUND) RET(-EINVAL);
	s->paddr = addr; s->pport = port;
	auto it = listeners->find(port);
	bool refused = it == listeners->end() || (it->second->addr && it->second->addr != addr);
	bool full = !refused && (int) it->second->queue.size() > it->second->backlog;
	if (o->flags & O_NONBLOCK)
	{
		// usually in progress; local connections may complete or be refused at once
		if (!full && chance(1, 3)) { if (refused) RET(-ECONNREFUSED); join(it->second, 0x7f000001, eport++, s); RET(0); }
		s->state = S_CONNECTING; s->connecting = true;
		sim::stat("probe.connect-in-progress");
		RET(-EINPROGRESS);
	}
	krn.conn_blocking++;
	while (full)
	{
		sim::stat("probe.connect-blocked");
		int w = kblock(W_CONNECT, now_ns + 127000000000ll);
		if (w == WK_TIMEOUT) RET(-ETIMEDOUT);
		if (w == WK_INTR) { s->state = S_CONNECTING; RET(-EINTR); }
		it = listeners->find(port);
		refused = it == listeners->end();
		full = !refused && (int) it->second->queue.size() > it->second->backlog;
	}
	if (refused) RET(-ECONNREFUSED);
	join(it->second, 0x7f000001, eport++, s);
	RET(0);
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int f)
{
	if (!sys_in()) return __real_recv(fd, b, n, f);
	ENTER("recv");
	SOCK(s, o, fd);
	ev("recv", fd, n, f);
	RET(sock_recv(o, b, n, f));
}
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { if (!sys_in()) return __real_recvfrom(fd, b, n, f, a, l); return __wrap_recv(fd, b, n, f); }
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f)
{
	if (!sys_in()) return __real_send(fd, b, n, f);
	ENTER("send");
	SOCK(s, o, fd);
	ev("send", fd, n, f);
	RET(sock_send(o, b, n, f));
}
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { if (!sys_in()) return __real_sendto(fd, b, n, f, a, l); return __wrap_send(fd, b, n, f); }
static ssize_t sim_recvmsg(int fd, struct msghdr *m, int f)
{
	ENTER("recvmsg");
	SOCK(s, o, fd);
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
	std::string t(n, 0);
	ssize_t r = sock_recv(o, &t[0], n, f);
	if (r > 0) { size_t at = 0; for (size_t i = 0; i < m->msg_iovlen && at < (size_t) r; ++i) { size_t c = m->msg_iov[i].iov_len; if (c > r - at) c = r - at; memcpy(m->msg_iov[i].iov_base, t.data() + at, c); at += c; } }
	RET(r);
}
ssize_t __real_recvmsg(int, struct msghdr *, int);
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) { if (!sys_in()) return __real_recvmsg(fd, m, f); return sim_recvmsg(fd, m, f); }
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f)
{
	if (!sys_in()) return __real_sendmsg(fd, m, f);
	ENTER("sendmsg");
	SOCK(s, o, fd);
	std::string t;
	for (size_t i = 0; i < m->msg_iovlen; ++i) t.append((const char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	RET(sock_send(o, t.data(), t.size(), f));
}
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how)
{
	if (!sys_in()) return __real_shutdown(fd, how);
	ENTER("shutdown");
	SOCK(s, o, fd);
	if (s->state != S_CONN) RET(-ENOTCONN);
	if (how != SHUT_RD) { s->shut_wr = true; if (s->peer) s->peer->rx_eof = true; }
	if (how != SHUT_WR) s->rx_eof = true;
	wake_on(W_RECV);
	RET(0);
}
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int lev, int opt, const void *v, socklen_t n)
{
	if (!sys_in()) return __real_setsockopt(fd, lev, opt, v, n);
	ENTER("setsockopt");
	SOCK(s, o, fd);
	ev("setsockopt", lev, opt, n);
	static const int errs[] = { ENOMEM, ENOBUFS };
	if (int e = flt("setsockopt", errs)) RET(-e);
	if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
	{
		if (n < sizeof(struct timeval)) RET(-EINVAL);
		const struct timeval *tv = (const struct timeval *) v;
		if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) RET(-EDOM);
		i64 t = tv->tv_sec < 0 ? 0 : tv->tv_sec > 4000000000ll ? 0 : tv->tv_sec * 1000000000ll + tv->tv_usec * 1000;
		if (tv->tv_sec < 0) t = 1;
		(opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t;
		RET(0);
	}
	if (n < sizeof(int)) RET(-EINVAL);
	if (lev == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse = *(const int *) v != 0;
	s->opts[std::make_pair(lev, opt)] = *(const int *) v;
	RET(0);
}
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int fd, int lev, int opt, void *v, socklen_t *n)
{
	if (!sys_in()) return __real_getsockopt(fd, lev, opt, v, n);
	ENTER("getsockopt");
	SOCK(s, o, fd);
	if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
	{
		struct timeval tv;
		i64 t = opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo;
		tv.tv_sec = t / 1000000000; tv.tv_usec = t % 1000000000 / 1000;
		memcpy(v, &tv, *n < sizeof tv ? *n : sizeof tv);
		*n = sizeof tv;
		RET(0);
	}
	int x = 0;
	if (lev == SOL_SOCKET && opt == SO_ERROR) { x = s->err; s->err = 0; }
	else if (lev == SOL_SOCKET && opt == SO_TYPE) x = SOCK_STREAM;
	else if (s->opts.count(std::make_pair(lev, opt))) x = s->opts[std::make_pair(lev, opt)];
	memcpy(v, &x, *n < sizeof x ? *n : sizeof x);
	*n = sizeof x;
	RET(0);
}
static int name_of(u32 a, u16 p, struct sockaddr *sa, socklen_t *n)
{
	struct sockaddr_in in;
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET; in.sin_port = htons(p); in.sin_addr.s_addr = htonl(a);
	memcpy(sa, &in, *n < sizeof in ? *n : sizeof in);
	*n = sizeof in;
	return 0;
}
int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *n) { if (!sys_in()) return __real_getsockname(fd, a, n); ENTER("getsockname"); SOCK(s, o, fd); RET(name_of(s->addr, s->port, a, n)); }
int __real_getpeername(int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *n) { if (!sys_in()) return __real_getpeername(fd, a, n); ENTER("getpeername"); SOCK(s, o, fd); if (s->state != S_CONN) RET(-ENOTCONN); RET(name_of(s->paddr, s->pport, a, n)); }
int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
	if (!sys_in()) return __real_ioctl(fd, req, a);
	ENTER("ioctl");
	Ofd *o = k_ofd_sut(k, fd);
	if (!o) RET(-EBADF);
	ev("ioctl", fd, req);
	static const int errs[] = { ENOMEM, EIO };
	if (int e = flt("ioctl", errs)) RET(-e);
	if (req == FIONBIO) { if (*(int *) a) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; RET(0); }
	if (req == FIONREAD && o->sock) { *(int *) a = o->sock->rx.size(); RET(0); }
	if (req == FIOCLEX) { k->cloexec[fd] = true; RET(0); }
	if (req == FIONCLEX) { k->cloexec[fd] = false; RET(0); }
	RET(-ENOTTY);
}
int __real_poll(struct pollfd *, nfds_t, int);
static int sim_poll(struct pollfd *p, nfds_t n, i64 ns)
{
	ENTER("poll");
	i64 deadline = ns < 0 ? -1 : now_ns + ns;
	for (;;)
	{
		int c = 0;
		for (nfds_t i = 0; i < n; ++i)
		{
			p[i].revents = 0;
			if (p[i].fd < 0) continue;
			Ofd *o = k_ofd_sut(k, p[i].fd);
			if (!o) p[i].revents = POLLNVAL;
			else if (!o->sock) p[i].revents = p[i].events & (POLLIN | POLLOUT);
			else
			{
				Sock *s = o->sock;
				if (!s->rx.empty() || s->rx_eof || s->reset || !s->queue.empty()) p[i].revents |= p[i].events & POLLIN;
				if (s->state == S_CONN && s->peer && s->peer->rx.size() < s->peer->cap) p[i].revents |= p[i].events & POLLOUT;
				if (s->reset) p[i].revents |= POLLERR;
				if (s->rx_eof && s->shut_wr) p[i].revents |= POLLHUP;
			}
			c += p[i].revents != 0;
		}
		if (c || ns == 0) RET(c);
		int w = block(W_RECV, deadline, true);
		if (w == WK_TIMEOUT) RET(0);
		if (w == WK_INTR) RET(-EINTR);
	}
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { if (!sys_in()) return __real_poll(p, n, ms); return sim_poll(p, n, ms < 0 ? -1 : ms * 1000000ll); }
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m)
{
	if (!sys_in()) return __real_ppoll(p, n, t, m);
	return sim_poll(p, n, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1);
}
static int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, i64 ns)
{
	struct pollfd p[FD_SETSIZE];
	int c = 0;
	for (int i = 0; i < n && i < FD_SETSIZE; ++i)
	{
		short e = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0) | (x && FD_ISSET(i, x) ? POLLPRI : 0);
		if (e) { p[c].fd = i; p[c++].events = e; }
	}
	int z = sim_poll(p, c, ns);
	if (z < 0) return z;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (x) FD_ZERO(x);
	z = 0;
	for (int i = 0; i < c; ++i)
	{
		if (p[i].revents & POLLNVAL) { errno = EBADF; return -1; }
		if (r && p[i].events & POLLIN && p[i].revents & (POLLIN | POLLERR | POLLHUP)) { FD_SET(p[i].fd, r); ++z; }
		if (w && p[i].events & POLLOUT && p[i].revents & (POLLOUT | POLLERR)) { FD_SET(p[i].fd, w); ++z; }
	}
	return z;
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t)
{
	if (!sys_in()) return __real_select(n, r, w, x, t);
	i64 t0 = now_ns, d = t ? t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1;
	int z = sim_select(n, r, w, x, d);
	if (t) { d -= now_ns - t0; if (d < 0) d = 0; t->tv_sec = d / 1000000000; t->tv_usec = d / 1000 % 1000000; }
	return z;
}
int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *m)
{
	if (!sys_in()) return __real_pselect(n, r, w, x, t, m);
	return sim_select(n, r, w, x, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1);
}
}
