#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
struct VClock {
    std::vector<uint32_t> v;
    void tick(int i) { if (int(v.size()) <= i) v.resize(i + 1, 0); ++v[i]; }
    void join(const VClock& o) { if (v.size() < o.v.size()) v.resize(o.v.size(), 0); for (size_t i = 0; i < o.v.size(); ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
    uint32_t at(int i) const { return i < int(v.size()) ? v[i] : 0; }
};
// Data race detection (race_on.cpp; race_off.cpp makes all of this do nothing). The nodes' translation units are compiled
// with -fsanitize=thread and linked against race_on.cpp instead of the sanitizer's runtime.
// Tells the race detector which fiber's accesses follow (-1: none, accesses ignored) and to which process it belongs.
void race_set_fiber(int id, const void* proc, VClock* clock, char* stack, size_t stack_size);
// Depth counter of the running fiber: accesses count only at depth zero. Fibers start at depth one.
int& race_depth();
struct RaceIgnore { int& d; RaceIgnore() : d(race_depth()) { ++d; } ~RaceIgnore() { --d; } };           // inside the simulator
struct RaceEnable { int& d; int o; RaceEnable() : d(race_depth()), o(d) { d = 0; } ~RaceEnable() { d = o; } };  // inside user code
struct RaceReport { std::string cls, msg; };
std::vector<RaceReport> race_reports();
void race_start(uint64_t seed, uint64_t mean_accesses_between_switches);  // 0: no preemption at accesses
uint64_t race_accesses();
}
