#pragma once
// Shared by the simulation programs: one program provides run_one() and crash_props(), the driver the rest.
#include "serpent_h.hpp"
namespace drv {
extern bool debug;
extern std::string head_json;  // prefix of the JSON line
extern hs::Scn* scn;
extern bool in_run, stopping;
double wall();
std::string esc(const std::string& s);
void result(const hs::Scn& s, const sim::World& w, const hs::Rec& rec, double simtime, double t_run, double t_check, bool want_choices);  // does not return
void run_one(const std::string& profile, uint64_t seed, const hs::Overrides& ov, bool want_choices);
std::set<std::string> crash_props(const hs::Scn& s, const std::string& topic, bool stopping);
}
