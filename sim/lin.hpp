// Linearizability of key/value histories with a bounded capacity, optionally with effects of killed processes.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
namespace lin {
enum Kind { READ, INSERT, ERASE, CLEAR, SIZE, ITER };
enum { ABSENT = 0, UNKNOWN = 255, BAD = 254, ANY = -1 };
struct Sub { Kind kind; int key; int val; int res; std::vector<int> iter; }; // val/res: value ids; res of READ: id or ABSENT; iter: value per key
struct Op
{
	int task;
	uint64_t call, ret;         // event numbers; ret==0: never returned
	std::vector<Sub> subs;      // executed atomically
	int all;                    // ANY, or the conjunction of the results (subs' own results then ANY)
	bool killed;                // in flight when its process died
};
struct Spec { int nkeys; int capacity; bool crash; };
// empty string: linearizable; otherwise a description
std::string check(const std::vector<Op> &h, const Spec &s);
std::string show(const std::vector<Op> &h);
}
