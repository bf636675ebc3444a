// Registry of the scenarios compiled into this node.so.
#include "../sim/sim.h"
static SimScenario g_s[256];
static size_t g_n;
SimReg::SimReg(const SimScenario &s) { g_s[g_n++] = s; }
extern "C" const SimScenario *sim_scenarios(size_t *n) { *n = g_n; return g_s; }

// Some runs have the library's own log switched on: what it writes about is in use by other threads, and the sink
// is the application's (here: one more scheduling point).
#include <maf/logging/Logger.h>
extern "C" void sim_node_init(int levels) {
  maf::logging::init((maf::logging::LogLevels)levels, [](const std::string &) { sim_yield(); });
}
