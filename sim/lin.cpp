#include "lin.hpp"
#include <algorithm>
#include <stdio.h>
#include <string.h>
#include <unordered_set>

namespace lin {

struct State { uint8_t v[15]; uint8_t leak; };   // v: ABSENT, value id, UNKNOWN (written by a killed operation)
static inline bool operator==(const State &a, const State &b) { return !memcmp(&a, &b, sizeof a); }

struct Node { uint64_t mask[2]; State s; };
struct H { size_t operator()(const Node &n) const { uint64_t h = 1469598103934665603ull; const unsigned char *p = (const unsigned char *) &n; for (size_t i = 0; i < sizeof(uint64_t) * 2 + sizeof(State); ++i) h = (h ^ p[i]) * 1099511628211ull; return h; } };
struct E { bool operator()(const Node &a, const Node &b) const { return a.mask[0] == b.mask[0] && a.mask[1] == b.mask[1] && a.s == b.s; } };

struct Ctx { const std::vector<Op> *h; Spec sp; std::unordered_set<Node, H, E> seen; size_t best; bool exploded; };

static void count(const State &s, int n, int &def, int &unk)
{
	def = unk = 0;
	for (int i = 0; i < n; ++i) { if (s.v[i] == UNKNOWN) ++unk; else if (s.v[i] != ABSENT) ++def; }
}
// possible (result, state) outcomes of one sub-operation
static void apply(const State &s, const Sub &u, const Spec &sp, std::vector<std::pair<int, State> > &out)
{
	int def, unk;
	count(s, sp.nkeys, def, unk);
	State t = s;
	switch (u.kind)
	{
	case READ:
		if (s.v[u.key] == UNKNOWN) out.push_back(std::make_pair((int) ANY, s));
		else out.push_back(std::make_pair((int) s.v[u.key], s));
		break;
	case INSERT:
		if (s.v[u.key] != ABSENT && s.v[u.key] != UNKNOWN) { t.v[u.key] = u.val; out.push_back(std::make_pair(1, t)); break; }
		{
			int others = unk - (s.v[u.key] == UNKNOWN ? 1 : 0);
			bool may_ok = def < sp.capacity || s.v[u.key] == UNKNOWN;
			bool may_fail = def + others + s.leak >= sp.capacity;
			if (may_ok) { t.v[u.key] = u.val; out.push_back(std::make_pair(1, t)); }
			if (may_fail) { State f = s; if (f.v[u.key] == UNKNOWN) f.v[u.key] = ABSENT; out.push_back(std::make_pair(0, f)); }
		}
		break;
	case ERASE:
		t.v[u.key] = ABSENT;
		if (s.v[u.key] == UNKNOWN) { out.push_back(std::make_pair(1, t)); out.push_back(std::make_pair(0, t)); }
		else out.push_back(std::make_pair(s.v[u.key] != ABSENT ? 1 : 0, t));
		break;
	case CLEAR:
		memset(t.v, ABSENT, sizeof t.v);
		t.leak = 0;
		out.push_back(std::make_pair((int) ANY, t));
		break;
	case SIZE:
		if (u.res == ANY || (u.res >= def && u.res <= std::min(def + unk + s.leak, sp.capacity))) out.push_back(std::make_pair(u.res, s));
		break;
	case ITER:
		for (int i = 0; i < sp.nkeys; ++i)
			if (s.v[i] != UNKNOWN && s.v[i] != u.iter[i]) return;
		out.push_back(std::make_pair((int) ANY, s));
		break;
	}
}

static bool rec_op(const Op &op, size_t i, State s, int conj, const Spec &sp, std::vector<State> &res)
{
	if (i == op.subs.size())
	{
		if (op.all == ANY || op.all == conj) res.push_back(s);
		return true;
	}
	std::vector<std::pair<int, State> > o;
	apply(s, op.subs[i], sp, o);
	for (size_t k = 0; k < o.size(); ++k)
	{
		int r = o[k].first;
		if (op.subs[i].res != ANY && r != ANY && r != op.subs[i].res) continue;
		rec_op(op, i + 1, o[k].second, conj & (r == 0 ? 0 : 1), sp, res);
	}
	return true;
}

static bool dfs(Ctx &c, Node n, size_t done, size_t must)
{
	const std::vector<Op> &h = *c.h;
	if (done > c.best) c.best = done;
	if (done == must)
		return true;
	if (c.seen.size() > 400000) { c.exploded = true; return true; }
	if (!c.seen.insert(n).second) return false;
	uint64_t minret = ~0ull;
	for (size_t i = 0; i < h.size(); ++i)
		if (!(n.mask[i >> 6] >> (i & 63) & 1) && h[i].ret && h[i].ret < minret) minret = h[i].ret;
	for (size_t i = 0; i < h.size(); ++i)
	{
		if (n.mask[i >> 6] >> (i & 63) & 1) continue;
		const Op &op = h[i];
		if (op.call > minret) continue;
		std::vector<State> next;
		if (op.ret) rec_op(op, 0, n.s, 1, c.sp, next);
		else
		{
			// in flight when its process died: its keys hold anything from now on, and room may be lost
			State t = n.s;
			bool mut = false;
			for (size_t k = 0; k < op.subs.size(); ++k)
			{
				const Sub &u = op.subs[k];
				if (u.kind == INSERT || u.kind == ERASE) { t.v[u.key] = UNKNOWN; mut = true; }
				if (u.kind == CLEAR) { for (int j = 0; j < c.sp.nkeys; ++j) t.v[j] = UNKNOWN; t.leak = c.sp.capacity; mut = true; }
			}
			if (!mut) continue;
			if (t.leak < c.sp.capacity) ++t.leak;
			next.push_back(t);
		}
		Node m = n;
		m.mask[i >> 6] |= 1ull << (i & 63);
		for (size_t k = 0; k < next.size(); ++k)
		{
			m.s = next[k];
			if (dfs(c, m, done + (op.ret ? 1 : 0), must)) return true;
		}
	}
	return false;
}

static const char *kn[] = { "read", "insert", "erase", "clear", "size", "iterate" };
std::string show(const std::vector<Op> &h)
{
	std::string s;
	char b[160];
	for (size_t i = 0; i < h.size(); ++i)
	{
		snprintf(b, sizeof b, "%s[p%d @%llu-%s", i ? "; " : "", h[i].task, (unsigned long long) h[i].call, h[i].ret ? "" : "never");
		s += b;
		if (h[i].ret) { snprintf(b, sizeof b, "%llu", (unsigned long long) h[i].ret); s += b; }
		for (size_t k = 0; k < h[i].subs.size(); ++k)
		{
			const Sub &u = h[i].subs[k];
			s += std::string(" ") + kn[u.kind];
			if (u.kind == READ) { snprintf(b, sizeof b, " k%d -> %d", u.key, u.res); s += b; }
			if (u.kind == INSERT) { snprintf(b, sizeof b, " k%d=%d -> %d", u.key, u.val, u.res); s += b; }
			if (u.kind == ERASE) { snprintf(b, sizeof b, " k%d -> %d", u.key, u.res); s += b; }
			if (u.kind == SIZE) { snprintf(b, sizeof b, " -> %d", u.res); s += b; }
			if (u.kind == ITER) { s += " ->"; for (size_t j = 0; j < u.iter.size(); ++j) { snprintf(b, sizeof b, " %d", u.iter[j]); s += b; } }
		}
		if (h[i].all != ANY) { snprintf(b, sizeof b, " => %d", h[i].all); s += b; }
		s += "]";
	}
	return s;
}

std::string check(const std::vector<Op> &h, const Spec &sp)
{
	if (h.size() > 128) return "";
	Ctx c;
	c.h = &h; c.sp = sp; c.best = 0; c.exploded = false;
	Node n;
	memset(&n, 0, sizeof n);
	size_t must = 0;
	for (size_t i = 0; i < h.size(); ++i) if (h[i].ret) ++must;
	if (dfs(c, n, 0, must)) return "";
	char b[80];
	snprintf(b, sizeof b, "no valid order (best explains %zu of %zu): ", c.best, must);
	return b + show(h);
}
}
