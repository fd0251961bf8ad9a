// Happens-before data race detector for the simulated threads: the runtime behind the compiler's -fsanitize=thread hooks.
#include <cxxabi.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <set>

#include "race.hpp"
#include "sim.hpp"

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

namespace sim {
namespace {
// ---------------------------------------------------------------- call contexts
struct Node { u32 parent, pc; };
constexpr u32 MAXN = 1 << 22;
Node* nodes; u32 n_nodes = 1;
struct NKey { u32 parent, pc, id; };
NKey* ntab; constexpr u32 NTAB = 1 << 23;
u32 child(u32 parent, u32 pc) {
    u32 h = (parent * 2654435761u ^ pc * 2246822519u); h ^= h >> 15;
    for (;; ++h) {
        NKey& k = ntab[h & (NTAB - 1)];
        if (!k.id) {
            if (n_nodes + 1 >= MAXN) return parent;
            k = {parent, pc, n_nodes}; nodes[n_nodes] = {parent, pc};
            return n_nodes++;
        }
        if (k.parent == parent && k.pc == pc) return k.id;
    }
}
// ---------------------------------------------------------------- shadow memory
constexpr int NE = 4;
struct Ent { u32 epoch, node, pc; u16 fid; u8 mask, write; };
struct Cell { Ent e[NE]; u32 sync; u8 n, rot; };
struct Page { Cell c[512]; };
constexpr u64 TOP = 1 << 18;  // 47-bit addresses: 18 + 17 + 12
Page*** top;
Page* page(u64 a, bool make) {
    const u64 p = a >> 12, i = p >> 17, j = p & 0x1ffff;
    if (i >= TOP) return nullptr;
    if (!top[i]) { if (!make) return nullptr; top[i] = static_cast<Page**>(mmap(nullptr, sizeof(Page*) << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); }
    if (!top[i][j] && make) top[i][j] = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return top[i][j];
}
bool ready = false;
void init() {
    if (ready) return;
    auto mm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    nodes = static_cast<Node*>(mm(sizeof(Node) * MAXN));
    ntab = static_cast<NKey*>(mm(sizeof(NKey) * NTAB));
    top = static_cast<Page***>(mm(sizeof(Page**) * TOP));
    ready = true;
}
void clear(u64 a, u64 n) {
    if (!ready || !n) return;
    const u64 e = a + n;
    for (u64 p = a & ~4095ull; p < e; p += 4096) {
        Page* g = page(p, false);
        if (!g) { if (!top[p >> 29]) p = ((p >> 29) + 1 << 29) - 4096; continue; }
        const u64 lo = std::max<u64>(p, a & ~7ull), hi = std::min<u64>(p + 4096, (e + 7) & ~7ull);
        if (lo == p && hi == p + 4096) madvise(g, sizeof(Page), MADV_DONTNEED);
        else memset(&g->c[(lo & 4095) >> 3], 0, ((hi - lo) >> 3) * sizeof(Cell));
    }
}
// ---------------------------------------------------------------- fibers
struct FS { u32 node = 0; int depth = 1; const void* proc = nullptr; u32* stack = nullptr; u32 sp = 0; };
constexpr int MAXF = 512;
constexpr u32 MAXS = 1 << 16;
FS fss[MAXF];
FS none;
FS* cf = &none;
int cid = -1;
VClock* cclock = nullptr;
u64 st_lo = 0, st_hi = 0;
int running = 0;  // inside the detector
std::deque<VClock>* syncs;
u64 n_access = 0, countdown = 0, mean_cd = 0;
Rng* cd_rng;
struct Rep { u32 n1, p1, n2, p2; u8 w1, w2; u64 addr; int f1, f2; };
std::vector<Rep>* reps;
std::set<std::pair<u64, u64>>* seen;
void report(const Ent& o, u32 pc, bool write, u64 a) {
    if (!reps) { reps = new std::vector<Rep>(); seen = new std::set<std::pair<u64, u64>>(); }
    if (reps->size() > 4000) return;
    u64 x = (u64(o.node) << 32) | o.pc, y = (u64(cf->node) << 32) | pc;
    if (!seen->insert({x, y}).second) return;
    reps->push_back({o.node, o.pc, cf->node, pc, o.write, u8(write), a, int(o.fid), cid});
}
inline void word(u64 a, u8 mask, bool write, u32 pc) {
    Page* g = page(a, true);
    if (!g) return;
    Cell& c = g->c[(a & 4095) >> 3];
    const u32 ep = cclock->at(cid);
    bool placed = false;
    for (int i = 0; i < c.n; ++i) {
        Ent& e = c.e[i];
        if (e.fid == cid) {
            if (e.mask == mask && e.write == write) { e.epoch = ep; e.node = cf->node; e.pc = pc; placed = true; }
            continue;
        }
        if ((e.mask & mask) && (e.write || write)) {
            const bool ordered = e.epoch <= cclock->at(e.fid);
            if (!ordered && fss[e.fid].proc == cf->proc) report(e, pc, write, a);
            if (ordered && write && (e.mask & ~mask) == 0) { c.e[i] = c.e[--c.n]; --i; }
        }
    }
    if (placed) return;
    if (c.n < NE) { c.e[c.n++] = {ep, cf->node, pc, u16(cid), mask, u8(write)}; return; }
    // full: prefer to forget reads
    int v = -1;
    for (int i = 0; i < NE; ++i) { const int k = (i + c.rot) % NE; if (!c.e[k].write) { v = k; break; } }
    if (v < 0) v = c.rot % NE;
    c.rot = u8((c.rot + 1) % NE);
    c.e[v] = {ep, cf->node, pc, u16(cid), mask, u8(write)};
}
inline void access(u64 a, u64 n, bool write, u32 pc) {
    if (cid < 0 || cf->depth > 0 || running || !n) return;
    if (a >= st_lo && a < st_hi) return;
    running = 1;
    ++n_access;
    const u64 e = a + n;
    for (u64 w = a & ~7ull; w < e; w += 8) {
        u8 mask = 0xff;
        if (w < a) mask &= u8(0xff << (a - w));
        if (w + 8 > e) mask &= u8(0xff >> (w + 8 - e));
        word(w, mask, write, pc);
    }
    running = 0;
    if (countdown && --countdown == 0) { running = 1; countdown = 1 + cd_rng->below(2 * mean_cd); running = 0; ++cf->depth; FS* me = cf; yield_point(9); --me->depth; }
}
u32& sync_of(u64 a) { Page* g = page(a, true); return g->c[(a & 4095) >> 3].sync; }
void acquire(u64 a) {
    if (cid < 0 || running) return;
    running = 1;
    const u32 s = sync_of(a);
    if (s) cclock->join((*syncs)[s]);
    running = 0;
}
void release(u64 a) {
    if (cid < 0 || running) return;
    running = 1;
    if (!syncs) { syncs = new std::deque<VClock>(); syncs->emplace_back(); }
    u32& s = sync_of(a);
    if (!s) { s = u32(syncs->size()); syncs->emplace_back(); }
    (*syncs)[s].join(*cclock);
    cclock->tick(cid);
    running = 0;
}
// ---------------------------------------------------------------- symbols
std::map<u64, std::pair<u64, const char*>>* symtab;
void load_symbols() {
    symtab = new std::map<u64, std::pair<u64, const char*>>();
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st; fstat(fd, &st);
    const char* b = static_cast<const char*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    auto* eh = reinterpret_cast<const Elf64_Ehdr*>(b);
    auto* sh = reinterpret_cast<const Elf64_Shdr*>(b + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        auto* s = reinterpret_cast<const Elf64_Sym*>(b + sh[i].sh_offset);
        const char* str = b + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
            if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_size) (*symtab)[s[k].st_value] = {s[k].st_value + s[k].st_size, str + s[k].st_name};
    }
}
// qualified name of the function without template and function arguments
std::string fn_name(u32 pc) {
    if (!symtab) load_symbols();
    auto it = symtab->upper_bound(pc - 1);
    if (it == symtab->begin()) return "?";
    --it;
    if (pc - 1 >= it->second.first) return "?";
    int st; char* d = abi::__cxa_demangle(it->second.second, nullptr, nullptr, &st);
    std::string s = d ? d : it->second.second;
    free(d);
    std::string r; int depth = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        const char c = s[i];
        if (c == '<' && !(r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0)) { ++depth; continue; }
        if (c == '>' && depth) { --depth; continue; }
        if (depth) continue;
        if (c == '(') { if (s.compare(i, 21, "(anonymous namespace)") == 0) { r += "anon"; i += 20; continue; } break; }
        r += c;
    }
    const size_t sp = r.rfind(' ');
    if (sp != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
    return r;
}
bool own(const std::string& n) {
    for (const char* p : {"serpent::", "eigen_ros::", "eigen_ext::", "eigen_gtsam::", "pct::", "camera_tools::", "imu_tools::", "navigation_tools::", "statistics_msgs::", "sim_main_"})
        if (n.compare(0, strlen(p), p) == 0) return true;
    return false;
}
// innermost function of the repository in a context
std::string where(u32 node, u32 pc, std::string* chain) {
    std::string best;
    int k = 0;
    for (u32 p = pc;;) {
        const std::string n = fn_name(p);
        if (best.empty() && own(n)) best = n;
        if (chain && ((own(n) && k++ < 6) || p == pc)) *chain += (chain->empty() ? "" : " < ") + n;
        if (!node) break;
        p = nodes[node].pc;
        node = nodes[node].parent;
    }
    return best;
}
}  // namespace

void race_set_fiber(int id, const void* proc, VClock* clock, char* stack, size_t n) {
    __libc_single_threaded = 0;
    init();
    cid = id; cclock = clock;
    if (id < 0) { cf = &none; st_lo = st_hi = 0; return; }
    if (id >= MAXF) abort();
    cf = &fss[id];
    if (!cf->stack) cf->stack = static_cast<u32*>(mmap(nullptr, MAXS * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cf->proc = proc;
    st_lo = reinterpret_cast<u64>(stack); st_hi = st_lo + n + 4096;
}
int& race_depth() { return cf->depth; }
uint64_t race_accesses() { return n_access; }
void race_start(uint64_t seed, uint64_t mean) { init(); cd_rng = new Rng(seed); mean_cd = mean; countdown = mean ? 1 + cd_rng->below(2 * mean) : 0; }
std::vector<RaceReport> race_reports() {
    cid = -1; cf = &none;
    std::map<std::string, std::string> m;
    if (reps) for (const Rep& r : *reps) {
        std::string c1, c2;
        std::string a = where(r.n1, r.p1, &c1), b = where(r.n2, r.p2, &c2);
        if (a.empty() || b.empty()) continue;
        a += r.w1 ? " (write)" : " (read)"; b += r.w2 ? " (write)" : " (read)";
        if (b < a) { std::swap(a, b); std::swap(c1, c2); }
        m.emplace("unsynchronised accesses in " + a + " and " + b, c1 + " || " + c2);
    }
    std::vector<RaceReport> v;
    for (auto& x : m) v.push_back({x.first, x.second});
    return v;
}
}  // namespace sim

using namespace sim;
#define PC u32(reinterpret_cast<u64>(__builtin_return_address(0)))
#define A(p) reinterpret_cast<u64>(p)
extern "C" {
void __tsan_init() { __libc_single_threaded = 0; init(); }
void __tsan_func_entry(void* pc) { if (cid >= 0 && !running) { if (cf->sp < MAXS) { cf->stack[cf->sp] = cf->node; cf->node = child(cf->node, u32(A(pc))); } ++cf->sp; } }
void __tsan_func_exit() { if (cid >= 0 && !running && cf->sp) { if (--cf->sp < MAXS) cf->node = cf->stack[cf->sp]; } }
#define RW(n) \
    void __tsan_read##n(void* p) { access(A(p), n, false, PC); } \
    void __tsan_write##n(void* p) { access(A(p), n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(A(p), n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(A(p), n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(A(p), n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(A(p), n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(A(p), n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(A(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(A(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(A(p), n, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(A(s), n, false, PC); access(A(d), n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(A(s), n, false, PC); access(A(d), n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(A(d), n, true, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// Atomics: a reference count's increment orders nothing, its decrement releases, and acquires when it reaches zero.
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { acquire(A(p)); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { release(A(p)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { acquire(A(p)); release(A(p)); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { const T o = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); \
        if (T(v + 1) == 0 || v != 1) { release(A(p)); if (T(o + v) == 0 || (v != 1 && T(v + 1) != 0)) acquire(A(p)); } return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { const T o = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); release(A(p)); if (o == v) acquire(A(p)); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { acquire(A(p)); release(A(p)); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { acquire(A(p)); release(A(p)); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { acquire(A(p)); release(A(p)); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { acquire(A(p)); release(A(p)); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { acquire(A(p)); release(A(p)); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { acquire(A(p)); release(A(p)); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { acquire(A(p)); release(A(p)); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Initialisation of function-local statics, with simulated blocking.
int __cxa_guard_acquire(abi::__guard* gp) {
    u8* g = reinterpret_cast<u8*>(gp);
    while (true) {
        if (g[0]) { acquire(A(g)); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        if (!W || !W->cur) abort();
        sim::sleep_for(1000);
    }
}
void __cxa_guard_release(abi::__guard* gp) noexcept { u8* g = reinterpret_cast<u8*>(gp); release(A(g)); g[0] = 1; g[1] = 0; }
void __cxa_guard_abort(abi::__guard* gp) noexcept { u8* g = reinterpret_cast<u8*>(gp); g[1] = 0; }

// Memory handed out again starts without history.
static void* fresh(void* p, bool) { if (p && ready) clear(A(p), malloc_usable_size(p)); return p; }
void* malloc(size_t n) { return fresh(__libc_malloc(n), true); }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), true); }
void* realloc(void* p, size_t n) { return fresh(__libc_realloc(p, n), true); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n), true); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n), true); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = fresh(__libc_memalign(a, n), true); if (!p) return ENOMEM; *r = p; return 0; }
}
