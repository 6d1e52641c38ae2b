// Sockets, sleeps and seeding in the simulated kernel: N01..N03, T01, R01
#include "../sim/krn.hpp"
#include "../sim/clk.hpp"
#include "../sim/alloc.hpp"
#include <unistd.h>
#include <coda/socket.h>
#include <coda/gmtime.h>
#include <coda/random.h>
#include <coda/string.hpp>
#include <fcntl.h>
#include <limits.h>
#include <map>
#include <set>
#include <string.h>

using namespace sim;

static void on_signal(int) {}
static void handlers(KProc *k, int flags)
{
	static const int S[] = { SIGUSR1, SIGUSR2, SIGALRM, SIGHUP };
	for (int i = 0; i < 4; ++i) { k->act[S[i]].h = on_signal; k->act[S[i]].flags = flags; k->act[S[i]].mask = 0; }
}
static int pick_sig() { static const int S[] = { SIGUSR1, SIGUSR2, SIGALRM, SIGHUP }; return S[draw(4)]; }
static std::string bytes(u64 from, int n) { std::string s(n, 0); for (int i = 0; i < n; ++i) { u64 j = from + i; s[i] = (char) (j * 131 + j / 251 + 7); } return s; }

// ------------------------------------------------------------------ N01
static struct N01R
{
	Sock *r;
	std::string put, got, sent, taken;
	bool closed, rst, done_tx, done_rx, nonblk, signals;
	int fired_recv;
	bool injected;
} N;
static void check_taken(const std::string &s)
{
	N.taken += s;
	// a send may still be in progress: what it has transferred is not reported yet
	if (N.taken.size() <= N.sent.size() ? N.sent.compare(0, N.taken.size(), N.taken) != 0 : false) fail("bad-bytes", "the peer received bytes that were not sent, at about %zu", N.taken.size());
}
// several threads of one process, each with a socket of its own
static struct N01T { Sock *r[3]; int done; } NT;
static void n01_threads()
{
	sched_default();
	sched.hook_all = chance(2, 3);
	proc_new("p");
	NT = N01T();
	int nt = range(2, 3);
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		for (int t = 0; t < nt; ++t) { net_pair(k, 10 + t, &NT.r[t]); k_sock(k, 10 + t)->cap = NT.r[t]->cap = 1 << 20; }
		for (int t = 0; t < nt; ++t) spawn(proc_get(0), fmt("t%d", t), [=]() {
			std::string put, got, sent;
			int n = range(1, 5);
			for (int i = 0; i < n; ++i)
			{
				if (chance(2, 3))
				{
					bool large = chance(1, 60);
					std::string d = bytes(1000 * t + put.size(), large ? range(1, 200000) : range(1, 40));
					net_put(NT.r[t], d);
					put += d;
					std::string buf(large ? 200000 : 64, '?');
					char *b = &buf[0];
					int want = large ? range(60000, 199999) : range(1, 60), r;
					{ InSut s; r = coda_unix_recv(10 + t, b, want); }
					ev("recv", t, r);
					note(fmt("receive of up to %d bytes = %d, %zu were available", want, r, put.size() - got.size()));
					if (r <= 0 || r > want) fail("bad-result", "a receive with %zu bytes available returned %d", put.size() - got.size(), r);
					if (std::string(b, r) != put.substr(got.size(), r)) fail("bad-bytes", "received bytes differ from those the peer sent");
					for (size_t j = r; j < buf.size(); ++j) if (b[j] != '?') fail("bad-bytes", "bytes behind the received ones were changed");
					got.append(b, r);
					sim::stat("probe.received");
				}
				else
				{
					std::string d = bytes(7000 * t + sent.size(), chance(1, 60) ? range(60000, 200000) : range(1, 40));
					int r;
					{ InSut s; r = coda_unix_send(10 + t, (void *) d.data(), d.size()); }
					ev("send", t, r);
					if (r != (int) d.size()) fail("bad-result", "a send of %zu bytes returned %d", d.size(), r);
					sent += d;
					if (net_take(NT.r[t], 1 << 20) != d) fail("bad-bytes", "other bytes arrived than were sent");
					sim::stat("probe.sent");
				}
			}
			++NT.done;
		});
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
static void n01()
{
	if (chance(1, 6)) { n01_threads(); return; }
	sched_default();
	proc_new("p");
	proc_new("world");
	N = N01R();
	bool faulty = chance(1, 3);
	int hflags = chance(1, 2) ? SA_RESTART : 0;
	N.nonblk = chance(1, 4);
	N.signals = chance(2, 3);
	bool rx = chance(4, 5), tx = !rx || chance(1, 2);
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		handlers(k, hflags);
		net_pair(k, 10, &N.r);
		if (N.nonblk) { int r; { InSut s; r = coda_set_nonblk(10, 1); } if (r || !(k_ofd(k, 10)->flags & O_NONBLOCK)) fail("not-nonblocking", "switching to non-blocking mode returned %d", r); }
		if (chance(1, 3)) { k_sock(k, 10)->cap = range(1, 64); }
		Sock *local = k_sock(k, 10);
		if (chance(1, 2)) N.r->cap = range(1, 200);
		if (faulty) { krn.shorts = true; krn.fault_procs = 1; faults_enable(range(1, 6), range(2, 12)); }
		if (rx) spawn(proc_get(0), "rx", [=]() {
			int idle = 0;
			for (int i = 0; i < 400; ++i)
			{
				char b[80];
				memset(b, 0x5a, sizeof b);
				int n = chance(1, 3) ? 1 : (int) range(1, 64);
				int f0 = faults.fired, r, e;
				u64 r0 = local->received;
				{ InSut s; r = coda_unix_recv(10, b, n); e = errno; }
				ev("recv", n, r, r < 0 ? e : 0);
				for (int j = r > 0 ? r : 0; j < 80; ++j) if (b[j] != 0x5a) fail("overrun", "receiving %d of %d bytes wrote byte %d of the buffer", r, n, j);
				if (r > n) fail("overrun", "%d bytes were received into %d", r, n);
				if (r > 0)
				{
					idle = 0;
					N.got.append(b, r);
					if (local->received - r0 != (u64) r) fail("bad-bytes", "%llu bytes were taken from the stream, %d returned", (unsigned long long) (local->received - r0), r);
					if (N.got.size() > N.put.size() || N.put.compare(0, N.got.size(), N.got) != 0) fail("bad-bytes", "the received bytes are not the ones sent, at about %zu", N.got.size());
					sim::stat("probe.received");
					continue;
				}
				if (local->received != r0) fail("bad-bytes", "bytes were taken from the stream, but %d returned", r);
				if (r == 0)
				{
					if (!N.closed && !faults.fired) fail("false-eof", "end of stream, but the peer has not closed");
					if (!N.rst && !faults.fired && N.got != N.put) fail("false-eof", "end of stream after %zu of %zu bytes", N.got.size(), N.put.size());
					break;
				}
				if (r != -1) fail("bad-result", "receiving returned %d", r);
				if (e == EINTR) fail("interrupted", "receiving reported an interruption");
				bool injected = faults.fired != f0 || (faulty && faults.fired);
				if (e == EAGAIN)
				{
					if (!N.nonblk) fail("bad-result", "a blocking receive returned EAGAIN");
					if (++idle < 20) yield(); else wait_until("@data", [=]() { return !local->rx.empty() || local->rx_eof || local->reset; });
					continue;
				}
				if (!N.rst && !injected) fail("bad-result", "receiving failed (%s) without a reason", strerror(e));
				if (N.rst || e == ECONNRESET || e == ETIMEDOUT) break;
			}
			N.done_rx = true;
		});
		else N.done_rx = true;
		if (tx) spawn(proc_get(0), "tx", [=]() {
			int n = range(1, 8);
			bool gone = false;
			for (int i = 0; i < n; ++i)
			{
				int len = chance(1, 3) ? (int) range(1, 400) : (int) range(1, 30);
				std::string d = bytes(N.sent.size() + 5000, len);
				size_t at = N.sent.size();
				int f0 = faults.fired, r, e;
				u64 s0 = local->sent;
				bool was_closed = N.closed;
				// reported bytes are known only when the call returns; the peer may see them before
				N.sent += d;
				{ void *q = &d[0]; InSut s; r = coda_unix_send(10, q, len); e = errno; }
				ev("send", len, r, r < 0 ? e : 0);
				if (r > len) fail("bad-result", "%d of %d bytes were sent", r, len);
				u64 went = local->sent - s0;
				if (r >= 0 ? went != (u64) r : went) fail("bad-bytes", "%llu bytes were given to the peer, but %d reported", (unsigned long long) went, r);
				N.sent.resize(at + (r > 0 ? r : 0));
				if (kp()->sigpipes) fail("sigpipe", "sending raised a pipe signal");
				if (N.taken.size() > N.sent.size() && !N.rst) fail("bad-bytes", "the peer received more than was sent");
				if (r < 0)
				{
					if (r != -1) fail("bad-result", "sending returned %d", r);
					if (e == EPIPE || e == ECONNRESET) { gone = true; sim::stat("probe.peer-gone"); }
					bool reason = N.closed || faults.fired || gone || (e == EAGAIN && N.nonblk) || (e == EINTR && N.signals);
					(void) f0;
					if (!reason) fail("bad-result", "sending failed (%s) without a reason", strerror(e));
					if (e == EAGAIN) yield();
				}
				else if (was_closed && r > 0 && N.rst) fail("bad-result", "sending to a peer that is gone succeeded");
				if (chance(1, 4)) yield();
			}
			N.done_tx = true;
		});
		else N.done_tx = true;
		// the peer
		spawn(proc_get(1), "peer", [=]() {
			int n = range(0, 8);
			for (int i = 0; i < n; ++i)
			{
				switch (draw(5))
				{
				case 4: if (rx) wait_until("@drained", []() { return N.done_rx || N.r->reset || N.got.size() >= N.put.size(); }); sim::stat("probe.drained"); break;   // wants an answer before it goes on
				case 0: case 1: { std::string d = bytes(N.put.size(), range(1, 100)); N.put += d; net_put(N.r, d); break; }
				case 2: check_taken(net_take(N.r, range(1, 300))); break;
				case 3: yield(); break;
				}
				if (chance(1, 4)) sleep_ns(draw(5000000));
				else if (chance(1, 2)) yield();
			}
			bool early = chance(1, 3);
			if (!early) for (int i = 0; i < 100 && !N.done_tx; ++i) { check_taken(net_take(N.r, 1 + draw(500))); yield(); }
			if (!early && !N.done_tx) wait_until("@tx", [=]() { check_taken(net_take(N.r, 4096)); return N.done_tx; });
			if (!early)
			{
				check_taken(net_take(N.r, 1 << 20));
				if (!faults.fired && N.taken != N.sent) fail("bad-bytes", "%zu bytes were reported as sent, %zu arrived", N.sent.size(), N.taken.size());
			}
			N.rst = early && (chance(1, 3) || !N.r->rx.empty());
			N.closed = true;
			net_close_remote(N.r, N.rst);
		});
		if (N.signals) spawn(proc_get(1), "signals", []() {
			int n = range(1, 8);
			for (int i = 0; i < n; ++i)
			{
				if (chance(1, 2)) wait_until("@blocked", []() { if (N.done_rx && N.done_tx) return true; for (int j = 0; j < task_count(); ++j) { Task *t = task_get(j); if (t->proc == proc_get(0) && task_blocked(t) && t->what[0] != '@') return true; } return false; });
				k_signal(proc_get(0), pick_sig());
				yield();
			}
		});
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}

// ------------------------------------------------------------------ N02
static const char *const HOSTS[] = { "127.0.0.1", "0.0.0.0", "10.1.2.3", "192.168.255.1", "not-an-address" };
static const u32 ADDR[] = { 0x7f000001, 0, 0x0a010203, 0xc0a8ff01 };
static struct N02R { int attempts; bool over; std::vector<Sock *> remotes; } O2;
// several threads of one process set up sockets at the same time
static struct N02T { std::map<int, Ofd *> fds; } OT;
static void n02_threads()
{
	sched_default();
	sched.hook_all = chance(2, 3);
	proc_new("p");
	OT = N02T();
	int nt = range(2, 3);
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		OT.fds = k_table(k);
		for (int t = 0; t < nt; ++t) spawn(proc_get(0), fmt("t%d", t), [=]() {
			int n = range(1, 3);
			for (int i = 0; i < n; ++i)
			{
				int h = draw(4), nb = draw(2), bl = range(1, 5);
				u16 port = 30000 + 1000 * t + 10 * i;
				std::string ps = fmt("%d", port);
				const char *p = ps.c_str();
				int what = draw(3), r, e, l = -1;
				Sock *rl = NULL;
				if (what == 2) rl = net_listen_remote(ADDR[h], port, 3);
				if (what < 2)
				{
					{ InSut s; l = coda_listen(HOSTS[h], p, bl, nb); e = errno; }
					ev("listen-call", t, l);
					note(fmt("coda_listen(%s, %d, %d, %d) = %d", HOSTS[h], port, bl, nb, l));
					if (l < 0) fail("refused", "listening on %s:%d failed (%s)", HOSTS[h], port, strerror(e));
					Sock *s = k_sock(k, l);
					if (OT.fds.count(l) || !s || s->state != S_LISTEN) fail("not-configured", "descriptor %d is not a new listening socket", l);
					OT.fds[l] = k_ofd(k, l);
					if (s->addr != ADDR[h] || s->port != port) fail("not-configured", "the socket is bound to %x:%d instead of %s:%d", s->addr, s->port, HOSTS[h], port);
					if (s->backlog != bl || !s->reuse) fail("not-configured", "backlog %d (asked for %d), address reuse %d", s->backlog, bl, s->reuse);
					if (!!(k_ofd(k, l)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the socket is %sblocking", nb ? "" : "non-");
					sim::stat("probe.listening");
				}
				if (what == 1)
				{
					u32 from = 0x0a000000 + 256 * t + i + 1;
					Sock *s = k_sock(k, l);
					if (!net_peer_connect(s->addr ? s->addr : 0x7f000001, s->port, from, 1024 + t)) fail("not-configured", "a client cannot connect to %x:%d", s->addr, s->port);
					struct in_addr ip;
					ip.s_addr = 0x12345678;
					{ InSut z; r = coda_accept(l, &ip, nb); e = errno; }
					ev("accept-call", t, r);
					note(fmt("coda_accept(%d, %d) = %d", l, nb, r));
					if (r < 0) fail("refused", "accepting failed (%s) without a reason", strerror(e));
					Sock *c = k_sock(k, r);
					if (OT.fds.count(r) || !c || c->state != S_CONN) fail("not-configured", "descriptor %d is not a new connected socket", r);
					OT.fds[r] = k_ofd(k, r);
					if (ntohl(ip.s_addr) != from || c->paddr != from) fail("wrong-peer", "accept reported the address %x, the peer is %x", ntohl(ip.s_addr), from);
					if (!!(k_ofd(k, r)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the accepted socket is %sblocking", nb ? "" : "non-");
					sim::stat("probe.accepted");
				}
				if (what == 2)
				{
					{ InSut z; r = coda_connect(HOSTS[h], p, nb); e = errno; }
					ev("connect-call", t, r);
					note(fmt("coda_connect(%s, %d, %d) = %d", HOSTS[h], port, nb, r));
					if (r < 0) fail("refused", "connecting to a listening server failed (%s)", strerror(e));
					Sock *c = k_sock(k, r);
					if (OT.fds.count(r) || !c || (c->state != S_CONN && !(nb && c->state == S_CONNECTING))) fail("not-configured", "descriptor %d is not a new connected socket", r);
					OT.fds[r] = k_ofd(k, r);
					if (c->paddr != ADDR[h] || c->pport != port) fail("wrong-peer", "connected to %x:%d instead of %s:%d", c->paddr, c->pport, HOSTS[h], port);
					if (!!(k_ofd(k, r)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the socket is %sblocking", nb ? "" : "non-");
					sim::stat("probe.connected");
				}
				(void) rl;
			}
		});
		wait_until("@threads", []() { for (int j = 1; j < task_count(); ++j) if (!task_done(task_get(j))) return false; return true; });
		if (k_table(k) != OT.fds) fail("fd-leak", "descriptors at the end: %s", k_fds(k).c_str());
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
static void n02()
{
	if (chance(1, 4)) { n02_threads(); return; }
	sched_default();
	proc_new("p");
	proc_new("world");
	O2 = N02R();
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		int hf = chance(1, 2) ? SA_RESTART : 0;
		handlers(k, hf);
		bool faulty = chance(1, 2);
		int n = range(1, 5);
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		std::vector<int> lis;
		for (int i = 0; i < n; ++i)
		{
			std::map<int, Ofd *> before = k_table(k);
			int what = draw(3);
			int h = chance(1, 12) ? 4 : (int) draw(4);
			u16 port = chance(1, 3) ? (u16) (8000 + draw(4)) : (u16) range(1, 65535);
			if (port >= 20000 && port < 20010) port += 10;    // those are the remote servers'
			std::string ps = fmt(chance(1, 8) ? "%05d" : "%d", port);
			const char *p = ps.c_str();
			int nb = chance(1, 2) ? (int) range(1, 3) : 0, bl = range(0, 5);
			if (what == 1 && lis.empty()) what = 0;
			if (what == 0)
			{
				bool used = false;
				for (size_t j = 0; j < lis.size(); ++j) used |= k_sock(k, lis[j])->port == port;
				for (size_t j = 0; j < O2.remotes.size(); ++j) used |= O2.remotes[j]->port == port;
				bool tw = chance(1, 4);
				if (tw) net_timewait(port);
				if (faulty) faults_enable(range(1, 2), range(1, 6));
				int r;
				{ InSut s; r = coda_listen(HOSTS[h], p, bl, nb); }
				int fired = faulty ? faults.fired : 0;
				faults_disable();
				ev("listen-call", r, h, port);
				note(fmt("coda_listen(%s, %d, %d, %d) = %d", HOSTS[h], port, bl, nb, r));
				if (r >= 0)
				{
					sim::stat("probe.listening");
					Sock *s = k_sock(k, r);
					std::map<int, Ofd *> exp = before;
					exp[r] = k_ofd(k, r);
					if (!s || before.count(r) || k_table(k) != exp) fail("fd-leak", "listening returned %d, descriptors %s", r, k_fds(k).c_str());
					if (s->state != S_LISTEN) fail("not-configured", "the socket is not listening");
					if (h == 4 || s->addr != ADDR[h] || s->port != port) fail("not-configured", "the socket is bound to %x:%d instead of %s:%d", s->addr, s->port, HOSTS[h], port);
					if (s->backlog != bl) fail("not-configured", "the backlog is %d instead of %d", s->backlog, bl);
					if (!s->reuse) fail("not-configured", "address reuse is not enabled");
					if (!!(k_ofd(k, r)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the socket is %sblocking", nb ? "" : "non-");
					if (used) fail("not-configured", "listening on a port in use succeeded");
					lis.push_back(r);
				}
				else
				{
					sim::stat("probe.listen-failed");
					if (r != -1) fail("bad-result", "listening returned %d", r);
					if (k_table(k) != before) fail("fd-leak", "listening failed, but descriptors are left open: %s", k_fds(k).c_str());
					if (!fired && h != 4 && !used) fail("refused", "listening on %s:%d failed although no system call failed%s", HOSTS[h], port, tw ? " (old connections in time-wait)" : "");
				}
			}
			else if (what == 1)
			{
				int l = lis[draw(lis.size())];
				Sock *s = k_sock(k, l);
				bool lnb = k_ofd(k, l)->flags & O_NONBLOCK;
				u32 from = draw(2) ? 0x0a000000 + (u32) draw(1 << 20) : 0xc6336401;
				u16 fp = range(1024, 65535);
				bool pending = chance(2, 3) || !s->queue.empty();
				bool sig = !lnb && chance(1, 2);
				if (s->queue.empty() && pending) { if (!net_peer_connect(s->addr ? s->addr : 0x7f000001, s->port, from, fp)) fail("not-configured", "a client cannot connect to %x:%d", s->addr, s->port); }
				u32 laddr = s->addr; u16 lport = s->port;
				static volatile bool over;
				over = false;
				bool late = !lnb && !pending;
				if (late || sig) spawn(proc_get(1), fmt("client%d", i), [=]() {
					Task *m = task_get(0);
					if (sig) { wait_until("@blocked", [=]() { return over || task_blocked(m); }); if (!over) { k_signal(proc_get(0), pick_sig()); yield(); } }
					if (late && !over) { if (!sig && chance(1, 2)) wait_until("@blocked", [=]() { return over || task_blocked(m); }); if (!over && s->queue.empty()) net_peer_connect(laddr ? laddr : 0x7f000001, lport, from, fp); }
				});
				struct in_addr ip;
				ip.s_addr = 0x12345678;
				if (faulty) faults_enable(range(1, 2), range(1, 3));
				u32 expect = 0; bool known = false;
				if (!s->queue.empty()) { expect = s->queue[0]->paddr; known = true; }
				int r, e;
				{ InSut z; r = coda_accept(l, &ip, nb); e = errno; }
				int fired = faulty ? faults.fired : 0;
				faults_disable();
				over = true;
				ev("accept-call", r);
				note(fmt("coda_accept(%d, %d) = %d (%s)", l, nb, r, r < 0 ? strerror(e) : ""));
				if (r >= 0)
				{
					sim::stat("probe.accepted");
					Sock *c = k_sock(k, r);
					std::map<int, Ofd *> exp = before;
					exp[r] = k_ofd(k, r);
					if (!c || before.count(r) || k_table(k) != exp) fail("fd-leak", "accepting returned %d, descriptors %s", r, k_fds(k).c_str());
					if (c->state != S_CONN) fail("not-configured", "the accepted socket is not connected");
					if (ntohl(ip.s_addr) != c->paddr || (known && c->paddr != expect)) fail("wrong-peer", "accept reported the address %x, the peer is %x", ntohl(ip.s_addr), c->paddr);
					if (!!(k_ofd(k, r)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the accepted socket is %sblocking", nb ? "" : "non-");
					if (chance(1, 2)) k_close(k, r);
				}
				else
				{
					sim::stat("probe.accept-failed");
					if (r != -1) fail("bad-result", "accepting returned %d", r);
					if (k_table(k) != before) fail("fd-leak", "accepting failed, but descriptors are left open: %s", k_fds(k).c_str());
					bool reason = fired || (lnb && !known && e == EAGAIN) || (sig && e == EINTR);
					if (!reason) fail("refused", "accepting failed (%s) without a reason", strerror(e));
				}
				wait_until("@clients", []() { for (int j = 1; j < task_count(); ++j) if (!task_done(task_get(j))) return false; return true; });
			}
			else
			{
				// connect to a remote listener, or to nobody
				bool there = chance(3, 4);
				if (h == 4) there = false;
				if (h == 4) nb = 0;
				u16 pt = 20000 + i;
				ps = fmt("%d", pt);
				p = ps.c_str();
				Sock *l = NULL;
				u32 a = h < 4 ? ADDR[h] : 0;
				if (there) { l = net_listen_remote(a, pt, 3); O2.remotes.push_back(l); }
				if (faulty) faults_enable(range(1, 2), range(1, 4));
				int r, e;
				u64 cb = krn.conn_blocking;
				{ InSut z; r = coda_connect(HOSTS[h], p, nb); e = errno; }
				if (nb && krn.conn_blocking != cb) fail("blocked", "a non-blocking connection was requested, but the socket was in blocking mode while connecting");
				int fired = faulty ? faults.fired : 0;
				faults_disable();
				ev("connect-call", r, h, pt);
				note(fmt("coda_connect(%s, %d, %d) = %d (%s)", HOSTS[h], pt, nb, r, r < 0 ? strerror(e) : ""));
				if (r >= 0)
				{
					sim::stat("probe.connected");
					Sock *c = k_sock(k, r);
					std::map<int, Ofd *> exp = before;
					exp[r] = k_ofd(k, r);
					if (!c || before.count(r) || k_table(k) != exp) fail("fd-leak", "connecting returned %d, descriptors %s", r, k_fds(k).c_str());
					if (c->state != S_CONN && !(nb && c->state == S_CONNECTING)) fail("not-configured", "the socket is not connected");
					if (c->paddr != a || c->pport != pt) fail("wrong-peer", "connected to %x:%d instead of %s:%d", c->paddr, c->pport, HOSTS[h], pt);
					if (!!(k_ofd(k, r)->flags & O_NONBLOCK) != !!nb) fail("not-configured", "the socket is %sblocking", nb ? "" : "non-");
					if (c->state == S_CONN)
					{
						Sock *s = net_accept_remote(l);
						if (!s) fail("wrong-peer", "the server sees no connection");
						net_put(s, "hello");
						char b[8];
						int q;
						if (!nb) { InSut z; q = coda_unix_recv(r, b, 8); OutSut o; if (q != 5 || memcmp(b, "hello", 5)) fail("wrong-peer", "the connection does not lead to the server"); }
					}
					if (chance(1, 2)) k_close(k, r);
				}
				else
				{
					sim::stat("probe.connect-failed");
					if (r != -1) fail("bad-result", "connecting returned %d", r);
					if (k_table(k) != before) fail("fd-leak", "connecting failed, but descriptors are left open: %s", k_fds(k).c_str());
					if (!fired && there) fail("refused", "connecting to a listening server failed (%s)", strerror(e));
				}
			}
			if (lis.size() > 1 && chance(1, 3)) { k_close(k, lis[0]); lis.erase(lis.begin()); }
		}
	});
	spawn(proc_get(1), "idle", []() {});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}

// ------------------------------------------------------------------ N03
static long pick_usec()
{
	if (chance(1, 12)) return (long) range(3600, 300000000) * 1000000 + draw(1000000);
	switch (draw(8))
	{
	case 0: return 0;
	case 1: return range(1, 1000);
	case 2: return 999999 + (long) draw(3);
	case 3: return (long) range(1, 60) * 1000000;
	case 4: return (long) range(1, 3600) * 1000000 + draw(1000000);
	case 5: return range(1000, 999999);
	case 6: return 2500000;
	}
	return range(1, 3000000);
}
static struct N03R { Sock *r[2]; bool over; } T3;
// several threads of one process, each with a socket and a timeout of its own
static struct N03T { Sock *r[3]; } TT;
static void n03_threads()
{
	sched_default();
	sched.hook_all = chance(2, 3);
	proc_new("p");
	TT = N03T();
	int nt = range(2, 3);
	spawn(proc_get(0), "main", [=]() {
		KProc *k = kp();
		for (int t = 0; t < nt; ++t) net_pair(k, 10 + t, &TT.r[t]);
		for (int t = 0; t < nt; ++t) spawn(proc_get(0), fmt("t%d", t), [=]() {
			int n = range(1, 3);
			for (int i = 0; i < n; ++i)
			{
				long us = 1 + pick_usec();
				int r, e;
				char b[4];
				{ InSut s; r = coda_set_socket_timeout(10 + t, us); }
				if (r) fail("not-set", "setting a receive timeout of %ld microseconds failed", us);
				i64 t0 = now_ns;
				{ InSut s; r = coda_unix_recv(10 + t, b, 4); e = errno; }
				i64 el = now_ns - t0;
				ev("recv-done", t, r, el);
				note(fmt("receive with a timeout of %ld us returned %d after %.3f us", us, r, el / 1000.0));
				if (r != -1 || e != EAGAIN) fail("bad-result", "a receive without data returned %d (%s)", r, strerror(e));
				if (el != us * 1000) fail(el < us * 1000 ? "early-timeout" : "late", "a receive timeout of %ld us expired after %lld us", us, (long long) el / 1000);
				sim::stat("probe.timed-out");
			}
		});
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
static void n03()
{
	if (chance(1, 4)) { n03_threads(); return; }
	sched_default();
	proc_new("p");
	proc_new("world");
	T3 = N03R();
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		net_pair(k, 10, &T3.r[0]);
		net_pair(k, 11, &T3.r[1]);
		long set[2] = { 0, 0 };
		int n = range(1, 5);
		bool faulty = chance(1, 4);
		for (int i = 0; i < n; ++i)
		{
			int w = draw(2), fd = 10 + w;
			if (chance(2, 3) || (!set[w] && i == 0))
			{
				long us = pick_usec();
				if (faulty) faults_enable(1, 2);
				int r;
				{ InSut s; r = coda_set_socket_timeout(fd, us); }
				int fired = faulty ? faults.fired : 0;
				faults_disable();
				ev("set", us, r);
				if (r == 0) set[w] = us;
				else if (!fired) fail("not-set", "setting a receive timeout of %ld microseconds failed", us);
				else sim::stat("probe.set-failed");
				if (r != 0 && r != -1) fail("bad-result", "setting the timeout returned %d", r);
			}
			// wait: no data, data before the timeout, data after it, or end of stream
			i64 lim = set[w] ? set[w] * 1000ll : -1;
			int how = draw(4);
			i64 at = 0;
			if (how == 1 || how == 2) at = lim < 0 ? (i64) draw(2000000) * 1000 : how == 1 ? (i64) (lim > 4000000000000ll ? lim / 1000000000 * draw(1000000000) / 1000 : draw(lim / 1000)) * 1000 : lim + 1 + draw(100000);
			if (lim < 0 && how == 0) { how = 1; at = (i64) range(1, 4000) * 1000000000ll; }
			if (how == 3) at = 0;
			Sock *rem = T3.r[w];
			i64 t0 = now_ns;
			if (how == 3) { net_put(rem, "x"); }
			else if (how) { i64 when = t0 + at; spawn(proc_get(1), fmt("peer%d", i), [=]() { if (when > now_ns) sleep_ns(when - now_ns); net_put(rem, "x"); }); }
			// the other socket may become readable, which must not matter
			if (chance(1, 3)) { Sock *o = T3.r[1 - w]; spawn(proc_get(1), fmt("other%d", i), [=]() { sleep_ns(draw(500000)); net_put(o, ""); }); }
			char b[4];
			int r, e;
			{ InSut s; r = coda_unix_recv(fd, b, 4); e = errno; }
			i64 el = now_ns - t0;
			ev("recv-done", r, el);
			note(fmt("receive on %d (timeout %ld us, data %s at %lld us) returned %d (%s) after %.3f us", fd, set[w], how ? "arriving" : "never", (long long) at / 1000, r, r < 0 ? strerror(e) : "", el / 1000.0));
			bool data = how == 3 || (how && (lim < 0 || at < lim));
			bool either = how && how != 3 && at == lim;
			if (data && !either)
			{
				if (r != 1 || b[0] != 'x') fail("early-timeout", "data arrived after %lld us, the timeout is %ld us, but the receive returned %d (%s) after %lld us", (long long) at / 1000, set[w], r, strerror(e), (long long) el / 1000);
				if (el != at) fail("late", "data arrived after %lld us but was returned after %lld us", (long long) at / 1000, (long long) el / 1000);
				sim::stat("probe.data-in-time");
			}
			else if (!either)
			{
				if (r != -1) fail("bad-result", "a receive without data returned %d", r);
				if (e != EAGAIN) fail("bad-result", "a receive timeout was reported as %s", strerror(e));
				if (el != lim) fail(el < lim ? "early-timeout" : "late", "a receive timeout of %ld us expired after %lld us", set[w], (long long) el / 1000);
				sim::stat("probe.timed-out");
			}
			wait_until("@peers", []() { for (int j = 1; j < task_count(); ++j) if (!task_done(task_get(j))) return false; return true; });
			k_sock(k, fd)->rx.clear();
		}
	});
	spawn(proc_get(1), "idle", []() {});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}

// ------------------------------------------------------------------ T01
static void t01()
{
	sched_default();
	sched.hook_all = chance(2, 3);
	proc_new("p");
	proc_new("world");
	static int sleeping[4];
	static u64 sent[4];
	static int nt;
	memset(sleeping, 0, sizeof sleeping);
	memset(sent, 0, sizeof sent);
	nt = range(1, 3);
	static int finished;
	finished = 0;
	bool signals = chance(1, 2), jumps = chance(1, 4);
	int hflags = chance(1, 2) ? SA_RESTART : 0;
	spawn(proc_get(0), "main", [=]() {
		handlers(kp(), hflags);
		for (int t = 0; t < nt; ++t) spawn(proc_get(0), fmt("t%d", t), [=]() {
			int n = range(1, 5);
			for (int i = 0; i < n; ++i)
			{
				int ms;
				switch (draw(7))
				{
				case 0: ms = 0; break;
				case 1: ms = range(1, 999); break;
				case 2: ms = 1000 * (int) range(1, 100); break;
				case 3: ms = 999 + (int) draw(3); break;
				case 4: ms = INT_MAX - (int) draw(1000); break;
				case 5: ms = range(1001, 10000000); break;
				default: ms = range(0, 5); break;
				}
				i64 t0 = now_ns;
				int c0 = cur()->intr_count, r, e;
				sleeping[t] = 1;
				{ InSut s; r = coda_msleep(ms); e = errno; }
				sleeping[t] = 0;
				i64 el = now_ns - t0, want = (i64) ms * 1000000;
				bool intr = cur()->intr_count != c0;
				ev("msleep", ms, r, el);
				note(fmt("msleep(%d) = %d after %.6f ms%s", ms, r, el / 1e6, intr ? ", interrupted" : ""));
				if (r == 0)
				{
					if (el < want) fail("short-sleep", "a sleep of %d ms ended after %.6f ms", ms, el / 1e6);
					if (el > want) fail("long-sleep", "a sleep of %d ms ended after %.6f ms", ms, el / 1e6);
					sim::stat("probe.slept");
				}
				else
				{
					if (r != -1) fail("bad-result", "a sleep returned %d", r);
					if (!intr) fail("bad-result", "a sleep of %d ms failed (%s) although nothing interrupted it", ms, strerror(e));
					if (e != EINTR) fail("bad-result", "an interrupted sleep reports %s", strerror(e));
					if (el > want) fail("long-sleep", "an interrupted sleep of %d ms lasted %.6f ms", ms, el / 1e6);
					sim::stat("probe.interrupted");
				}
				if (intr && r == 0 && el < want) fail("short-sleep", "an interrupted sleep reports success");
			}
			++finished;
		});
	});
	if (signals || jumps) spawn(proc_get(1), "world", [=]() {
		int n = range(1, 8);
		for (int i = 0; i < n && finished < nt; ++i)
		{
			sleep_ns(chance(1, 2) ? (i64) draw(2000) * 1000000 : (i64) draw(1 << 30) * 100);
			if (jumps) { wall_off_ns += ((i64) draw(2000000) - 1000000) * 1000000; ev("wall-jump"); sim::stat("fault.clock-jump"); }
			if (signals && chance(2, 3)) k_signal(proc_get(0), pick_sig());
		}
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}

// ------------------------------------------------------------------ R01
static void r01_threads()
{
	// several threads that all need the generator first
	sched.hook_all = true;
	KProc *k = kp(proc_get(0));
	std::map<int, Ofd *> before = k_table(k);
	bool faulty = chance(1, 2);
	krn.shorts = faulty;
	bool nodev = !faulty && chance(1, 6);
	if (nodev) k_lookup("/dev")->ents.erase("urandom");
	int n = range(2, 4);
	static int succ;
	succ = 0;
	if (faulty) faults_enable(range(1, 2), range(1, 6));
	for (int t = 0; t < n; ++t)
	{
		int m = range(1, 3);
		spawn(proc_get(0), fmt("t%d", t), [=]() {
			for (int i = 0; i < m; ++i)
			{
				if (chance(1, 4))
				{
					std::string s;
					{ InSut x; s = coda_random_string(8, "abc", 3); }
					OutSut o;
					if (s.size() != 8 || s.find_first_not_of("abc") != s.npos) fail("bad-string", "a random string of 8 characters out of abc is \"%s\"", s.c_str());
					continue;
				}
				int r;
				{ InSut s; r = coda_random_init(); }
				ev("init", r);
				if (r == 0 && krn.seeds.size() != 1) fail("not-seeded", "success is reported, but the generator was seeded %zu times", krn.seeds.size());
				if (r != 0 && r != -1) fail("bad-result", "initialisation returned %d", r);
				if (r == 0) ++succ;
				if (r == -1 && !faulty && !nodev) fail("refused", "initialisation failed although no system call failed");
				if (r == -1 && nodev) sim::stat("probe.init-failed");
			}
		});
	}
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	faults_disable();
	if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
	if (krn.seeds.size() > 1) fail("reseeded", "the generator was seeded again");
	if (succ) sim::stat("probe.threads-seeded");
	nontrivial();
}
static void r01()
{
	sched_default();
	proc_new("p");
	if (chance(1, 4)) { r01_threads(); return; }
	spawn(proc_get(0), "main", []() {
		KProc *k = kp();
		int cfg = chance(1, 6) ? (int) draw(8) : 0;
		for (int i = 0; i < 3; ++i) if (cfg >> i & 1) k_close(k, i);
		bool faulty = chance(3, 4);
		krn.shorts = faulty;
		if (chance(1, 3)) { k_bystander(curproc()); sim::stat("probe.bystander"); }
		bool ok = false;
		bool nodev = chance(1, 10);
		Inode *dev = k_lookup("/dev"), *ur = k_lookup("/dev/urandom");
		if (nodev) { dev->ents.erase("urandom"); }
		int n = range(1, 6);
		for (int i = 0; i < n; ++i)
		{
			if (nodev && chance(1, 3)) { dev->ents["urandom"] = ur; nodev = false; }
			std::map<int, Ofd *> before = k_table(k);
			size_t reads = krn.random_reads.size(), seeds = krn.seeds.size();
			if (faulty) faults_enable(1, range(1, 6));
			if (chance(1, 2))
			{
				int r;
				{ InSut s; r = coda_random_init(); }
				int fired = faulty ? faults.fired : 0;
				faults_disable();
				ev("init", r);
				if (r == 0) { if (!ok && krn.seeds.size() != 1) fail("not-seeded", "success is reported, but the generator was seeded %zu times", krn.seeds.size()); if (!ok) sim::stat("probe.seeded"); else sim::stat("probe.seeded-before"); }
				else
				{
					sim::stat("probe.init-failed");
					if (r != -1) fail("bad-result", "initialisation returned %d", r);
					if (ok) fail("refused", "initialisation fails after an earlier success");
					if (!fired && !nodev) fail("refused", "initialisation failed although no system call failed");
					if (krn.seeds.size()) fail("not-seeded", "initialisation failed but the generator has been seeded");
				}
				if (r == 0) ok = true;
			}
			else
			{
				static const char *const AL[] = { "0123456789abcdef", "a", "xy", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" };
				static char every[1000];
				for (int j = 0; j < 1000; ++j) every[j] = 1 + j % 255;
				bool wide = chance(1, 8);                    // a character may occur more than once
				const char *al = wide ? every : AL[draw(4)];
				size_t as = wide ? range(100, 1000) : range(1, strlen(al)), len = chance(1, 3) ? 0 : draw(200);
				{
					std::string s;
					{ InSut x; s = coda_random_string(len, al, as); }
					OutSut o;
					if (s.size() != len) fail("bad-string", "a random string of %zu characters has %zu", len, s.size());
					for (size_t j = 0; j < len; ++j) if (!s[j] || !memchr(al, s[j], as)) fail("bad-string", "a random string contains \\x%02x, which is not in the alphabet", (unsigned char) s[j]);
					if (len > 100 && as > 8) { std::set<char> u(s.begin(), s.end()); if (u.size() < 2) fail("bad-string", "%zu random characters out of %zu are all the same", len, as); }
				}
				faults_disable();
				if (krn.seeds.size()) ok = true;
				sim::stat("probe.random-string");
			}
			if (k_table(k) != before) fail("fd-leak", "the descriptors changed: %s", k_fds(k).c_str());
			if (krn.seeds.size() > 1) fail("reseeded", "the generator was seeded again");
			if (krn.seeds.size() > seeds)
			{
				std::string got;
				for (size_t j = reads; j < krn.random_reads.size(); ++j) got += krn.random_reads[j];
				if (got.size() < 4) fail("not-seeded", "the generator was seeded after reading %zu bytes", got.size());
				unsigned v;
				memcpy(&v, got.data(), 4);
				if (got.size() == 4 && v != krn.seeds.back()) fail("not-seeded", "the seed %08x is not what was read (%08x)", krn.seeds.back(), v);
			}
		}
		// without faults it works in the end
		if (nodev) dev->ents["urandom"] = ur;
		int r;
		{ InSut s; r = coda_random_init(); }
		if (r != 0 || krn.seeds.size() != 1) fail("refused", "initialisation without faults returned %d, seeded %zu times", r, krn.seeds.size());
	});
	if (go() != DONE) fail("stuck", "tasks blocked for ever: %s", stuck_list().c_str());
	nontrivial();
}
SIM_PROP(N01, n01);
SIM_PROP(N02, n02);
SIM_PROP(N03, n03);
SIM_PROP(T01, t01);
SIM_PROP(R01, r01);
