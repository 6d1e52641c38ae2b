#pragma once
#include "sim.hpp"
struct timeval;
namespace sim {
Task *self();                          // never NULL
bool on_stack(const void *a);
void real_gettimeofday(struct timeval *tv);
extern void (*real_vtalrm)(int);
extern void (*sig_hook)();             // delivers pending signals to the current task
extern u64 sig_pending;                // some process may have pending signals
}
