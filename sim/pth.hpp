#pragma once
#include "sim.hpp"
namespace sim {
int pth_held();                         // mutexes held by anyone
bool pth_holds(Task *t);                // does this task hold a mutex
bool pth_in_cond(Task *t);              // is it blocked in a condition wait
}
