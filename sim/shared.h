#pragma once
#include "sim.h"
namespace sim {
struct RunState { u64 hash, ntrace, events; double simtime; int nontrivial; };
RunState *run_state();
void edge_hit(uint32_t g); void edge_total(uint32_t n);
std::map<std::string, u64> &counters();
Violation &violation();
void init_console(); void clear_closed(); void begin_run_counters();
}
