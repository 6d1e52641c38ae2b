#pragma once
#include "sim.hpp"
namespace sim {
struct AllocCfg { bool faults; u64 procs; int once; };   // procs: mask, 0 = all; once: the once-th allocation from now fails
extern AllocCfg alloc_cfg;
size_t alloc_live();               // blocks allocated by the code under test and not yet released
std::string alloc_live_list();
}
