#pragma once
#include "sim.hpp"
namespace sim {
struct ClkCfg { bool step; };            // step: reading the wall clock may advance it (drawn)
extern ClkCfg clk_cfg;
i64 wall_sec();
}
