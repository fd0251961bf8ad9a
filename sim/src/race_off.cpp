#include "race.hpp"
#include <cxxabi.h>
#include <cstdlib>
#include "sim.hpp"
namespace sim {
void race_set_fiber(int, const void*, VClock*, char*, size_t) {}
static int depth;
int& race_depth() { return depth; }
std::vector<RaceReport> race_reports() { return {}; }
void race_start(uint64_t, uint64_t) {}
uint64_t race_accesses() { return 0; }
}

// Initialisation of function-local statics, with simulated blocking.
extern "C" {
int __cxa_guard_acquire(abi::__guard* gp) {
    unsigned char* g = reinterpret_cast<unsigned char*>(gp);
    while (true) {
        if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
        unsigned char z = 0;
        if (__atomic_compare_exchange_n(g + 1, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
        if (!sim::current_process()) abort();
        sim::sleep_for(1000);
    }
}
void __cxa_guard_release(abi::__guard* gp) noexcept { unsigned char* g = reinterpret_cast<unsigned char*>(gp); __atomic_store_n(g, 1, __ATOMIC_RELEASE); g[1] = 0; }
void __cxa_guard_abort(abi::__guard* gp) noexcept { reinterpret_cast<unsigned char*>(gp)[1] = 0; }
}
