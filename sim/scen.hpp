#ifndef SCEN_HPP
#define SCEN_HPP
#include "sim.hpp"
namespace sim {
struct Scenario { const char *name; void (*fn)(); };
void reg_scenario(const char *n, void (*fn)());
struct RegScn { RegScn(const char *n, void (*fn)()) { reg_scenario(n, fn); } };
#define SCENARIO(name) static void scn_##name(); \
    static sim::RegScn reg_##name(#name, scn_##name); static void scn_##name()
}
#endif
