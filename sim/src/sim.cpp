#include "sim.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <exception>
#include <unordered_map>

#include "race.hpp"
#include "ros/ros.h"
#include "tf2_ros/buffer.h"

extern "C" char __executable_start, etext;

namespace sim {
World* W = nullptr;
int log_level = 0;
static thread_local bool tl_sim = false;  // true on the one OS thread that runs the simulation, while a fiber runs

const Nanos DELAYS[] = {0, 200 * US, 1 * MS, 4 * MS, 12 * MS, 35 * MS, 110 * MS, 250 * MS, 600 * MS, 1500 * MS};
const int N_DELAYS = 10;

// ---------------------------------------------------------------- PRNG (xoshiro256**)
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) { for (auto& x : s) x = splitmix(seed); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
double Rng::gauss() {
    double u = 1.0 - uni(), v = uni();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(2 * M_PI * v);
}

// ---------------------------------------------------------------- fibers
enum class St { Ready, Running, Sleep, Mutex, Queue, Cond, Shutdown, Join, Done };
struct Eh { void* caught; unsigned int uncaught; };
struct Fiber {
    int id;
    Process* proc;
    std::string name;
    ucontext_t ctx;
    char* stack = nullptr;
    size_t stack_size = 0;
    std::function<void()> fn;
    St st = St::Ready;
    uint64_t ready_seq = 0;
    void* wait_on = nullptr;
    uint64_t wake_token = 0;
    bool timed_out = false;
    Eh eh{nullptr, 0};
    double prio = 0;
    VClock clock;
    SubPtr current_sub;
    std::string current_topic;
};
static ucontext_t sched_ctx;
static Eh sched_eh{nullptr, 0};
static uint64_t ready_counter = 0;
static Fiber* next_hint = nullptr;
static Eh* eh_globals() { return reinterpret_cast<Eh*>(abi::__cxa_get_globals()); }

static void fiber_entry() {
    Fiber* f = W->cur;
    f->fn();
    f->st = St::Done;
    for (auto& o : W->fibers) if (o->st == St::Join) { o->st = St::Ready; o->ready_seq = ++ready_counter; }
    tl_sim = false;
    f->eh = *eh_globals();
    setcontext(&sched_ctx);
    abort();
}

static void to_scheduler() {
    Fiber* f = W->cur;
    f->eh = *eh_globals();
    tl_sim = false;
    swapcontext(&f->ctx, &sched_ctx);
}

static void switch_to(Fiber* f) {
    ++W->switches;
    W->hash_sched(uint64_t(f->id) * 1315423911u + (W->steps << 8));
    f->st = St::Running;
    W->cur = f;
    sched_eh = *eh_globals();
    *eh_globals() = f->eh;
    tl_sim = true;
    race_set_fiber(f->id, f->proc, &f->clock, f->stack, f->stack_size);
    swapcontext(&sched_ctx, &f->ctx);
    race_set_fiber(-1, nullptr, nullptr, nullptr, 0);
    tl_sim = false;
    *eh_globals() = sched_eh;
    W->cur = nullptr;
}

static Fiber* new_fiber(Process* p, const std::string& name, std::function<void()> fn) {
    W->fibers.emplace_back(new Fiber());
    Fiber* f = W->fibers.back().get();
    f->id = int(W->fibers.size()) - 1;
    f->proc = p;
    f->name = name;
    f->stack_size = 2 << 20;
    f->stack = static_cast<char*>(mmap(nullptr, f->stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (f->stack == MAP_FAILED) { perror("mmap"); _exit(70); }
    mprotect(f->stack, 4096, PROT_NONE);
    f->fn = std::move(fn);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack + 4096;
    f->ctx.uc_stack.ss_size = f->stack_size;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiber_entry, 0);
    f->ready_seq = ++ready_counter;
    f->prio = W->rng.uni();
    f->clock.tick(f->id);
    if (W->cur) { f->clock.join(W->cur->clock); W->cur->clock.tick(W->cur->id); }
    return f;
}
static void make_ready(Fiber* f) { f->st = St::Ready; f->ready_seq = ++ready_counter; ++f->wake_token; }

static void block(St st, void* on) {
    Fiber* f = W->cur;
    f->st = st;
    f->wait_on = on;
    to_scheduler();
    f->wait_on = nullptr;
}

static std::vector<Fiber*> ready_list(Fiber* first) {
    std::vector<Fiber*> r;
    for (auto& f : W->fibers) if (f->st == St::Ready && f.get() != first) r.push_back(f.get());
    std::sort(r.begin(), r.end(), [](Fiber* a, Fiber* b) { return a->ready_seq < b->ready_seq; });
    if (first) r.insert(r.begin(), first);
    return r;
}

// ---------------------------------------------------------------- choices
static uint32_t record_choice(uint32_t c) {
    if (c) W->recorded.emplace_back(W->decisions, c);
    ++W->decisions;
    return c;
}
uint32_t World::choose(Kind k, uint32_t n) {
    if (n <= 1) { return 0; }
    if (explicit_mode) {
        auto it = explicit_choices.find(decisions);
        uint32_t c = it == explicit_choices.end() ? 0 : it->second;
        if (c >= n) c = n - 1;
        return record_choice(c);
    }
    uint32_t c = 0;
    switch (k) {
        case K_PREEMPT: c = rng.chance(strat.p_switch) ? 1 + uint32_t(rng.below(n - 1)) : 0; break;
        case K_PICK: c = rng.chance(strat.p_pick) ? uint32_t(rng.below(n)) : 0; break;
        default: c = uint32_t(rng.below(n)); break;
    }
    return record_choice(c);
}
static uint32_t choose_fiber(Kind k, const std::vector<Fiber*>& c) {
    if (c.size() <= 1) return 0;
    if (W->strat.mode == 1 && !W->explicit_mode) {
        if (W->rng.chance(W->strat.p_change) && W->cur) W->cur->prio = W->rng.uni() - 1.0;
        if (W->rng.chance(W->strat.p_change)) c[W->rng.below(c.size())]->prio = W->rng.uni() + 0.5;
        uint32_t best = 0;
        for (uint32_t i = 1; i < c.size(); ++i) if (c[i]->prio > c[best]->prio) best = i;
        return record_choice(best);
    }
    return W->choose(k, uint32_t(c.size()));
}
uint32_t World::choose_delay(Kind k, double p) {
    if (explicit_mode) {
        auto it = explicit_choices.find(decisions);
        uint32_t c = it == explicit_choices.end() ? 0 : std::min<uint32_t>(it->second, N_DELAYS - 1);
        return record_choice(c);
    }
    uint32_t c = 0;
    if (p > 0 && rng.chance(p)) c = 1 + uint32_t(rng.below(uint64_t(std::max(1, strat.max_stall))));
    if (c >= uint32_t(N_DELAYS)) c = N_DELAYS - 1;
    return record_choice(c);
}

static void cur_sleep(Nanos d) {
    Fiber* f = W->cur;
    const uint64_t tok = ++f->wake_token;
    W->at(W->now_ + d, [f, tok]() { if (f->st == St::Sleep && f->wake_token == tok) make_ready(f); });
    block(St::Sleep, nullptr);
}

static Nanos last_step_time = -1;
static uint64_t steps_at_time = 0;
static void check_livelock() {
    ++W->steps;
    if (W->now_ != last_step_time) { last_step_time = W->now_; steps_at_time = 0; }
    if (++steps_at_time > 400000 || W->steps > W->max_steps) {
        W->fail("livelock", "no progress of virtual time after many steps");
        block(St::Cond, nullptr);
    }
}

void yield_point(int) {
    if (!W || !W->cur || !tl_sim) return;
    RaceIgnore ignore;
    check_livelock();
    Fiber* f = W->cur;
    auto c = ready_list(f);
    uint32_t i = choose_fiber(K_PREEMPT, c);
    if (i) {
        f->st = St::Ready;
        f->ready_seq = ++ready_counter;
        next_hint = c[i];
        to_scheduler();
    }
    if (W->strat.p_stall > 0 || W->explicit_mode) {
        if (W->stall_until < 0 || W->now_ < W->stall_until) {
            uint32_t d = W->choose_delay(K_STALL, W->strat.p_stall);
            if (d) { ++W->fault_counts["stall"]; cur_sleep(DELAYS[d]); }
        }
    }
}

// ---------------------------------------------------------------- world
World::World(uint64_t seed) : rng(seed) { W = this; }
World::~World() { W = nullptr; }
Process* World::make_process(const std::string& name) {
    procs.emplace_back(new Process());
    procs.back()->name = name;
    return procs.back().get();
}
static std::string demangle(const char* n) {
    int st; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n; free(d); return r;
}
static std::string normalise(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size() && r.size() < 160; ++i) {
        char c = s[i];
        if (isdigit((unsigned char)c)) { if (r.empty() || r.back() != '#') r += '#'; }
        else if ((c == '.' || c == '-' || c == '+') && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) { if (r.empty() || r.back() != '#') r += '#'; }
        else if (c == '\n') r += ' ';
        else r += c;
    }
    return r;
}
template<class F> static bool guarded(const std::string& what, F f) {
    try { f(); return true; }
    catch (const std::exception& e) { W->fail("exception in " + what + ": " + normalise(e.what()), std::string(e.what()) + " [" + demangle(typeid(e).name()) + "]"); }
    catch (...) { W->fail("exception in " + what, "unknown exception"); }
    return false;
}
void World::start_main(Process* p, std::function<int()> fn) {
    p->main = new_fiber(p, p->name + ".main", [this, p, fn]() {
        bool good = guarded("main of " + p->name, [&]() { RaceEnable on; p->exit_code = fn(); });
        (void)good;
        p->exited = true;
        p->exited_at = now_;
    });
}
void World::at(Nanos t, std::function<void()> fn) { events.emplace(std::make_pair(std::max(t, now_), event_seq++), std::move(fn)); }
void World::fail(const std::string& cls, const std::string& msg) {
    Failure f; f.cls = cls; f.msg = msg;
    if (cur) f.where = cur->current_topic;
    failures.push_back(f);
    stop_requested = true;
}
void World::emit(Event e) {
    RaceIgnore ignore;
    e.seq = ++ev_counter;
    e.t = now_;
    e.fiber = cur ? cur->id : -1;
    hash_hist((uint64_t(e.kind) << 56) ^ (uint64_t(e.stamp) * 31) ^ std::hash<std::string>()(e.topic) ^ (uint64_t(e.t) << 1));
    if (observer) observer(e);
}
void World::run_until(Nanos T) {
    while (!stop_requested) {
        while (!events.empty() && events.begin()->first.first <= now_) {
            auto fn = std::move(events.begin()->second);
            events.erase(events.begin());
            fn();
            if (stop_requested) return;
        }
        Fiber* f = nullptr;
        if (next_hint && next_hint->st == St::Ready) f = next_hint;
        next_hint = nullptr;
        if (!f) {
            auto c = ready_list(nullptr);
            if (c.empty()) {
                if (events.empty() || events.begin()->first.first > T) { now_ = std::max(now_, T); return; }
                now_ = std::max(now_, events.begin()->first.first);
                continue;
            }
            f = c[choose_fiber(K_PICK, c)];
        }
        switch_to(f);
    }
}
static void wake_queue(Process* p) { for (auto& f : W->fibers) if (f->proc == p && f->st == St::Queue) make_ready(f.get()); }
void World::request_shutdown(Process* p) {
    RaceIgnore ignore;
    if (!p->ok) return;
    p->ok = false;
    p->queue_enabled = false;
    p->shutdown_at = now_;
    wake_queue(p);
    for (auto& f : fibers) if (f->proc == p && f->st == St::Shutdown) make_ready(f.get());
}
std::string World::describe_blocked() const {
    std::string r;
    for (auto& f : fibers) {
        if (f->st == St::Done) continue;
        const char* n = f->st == St::Ready ? "ready" : f->st == St::Running ? "running" : f->st == St::Sleep ? "sleeping" : f->st == St::Mutex ? "mutex"
            : f->st == St::Queue ? "idle" : f->st == St::Cond ? "cond" : f->st == St::Shutdown ? "wait-shutdown" : "join";
        if (f->st == St::Queue || f->st == St::Shutdown) continue;
        r += f->name + ":" + n + "(" + f->current_topic + ") ";
    }
    return r;
}
std::string World::current_topic() const { return cur ? cur->current_topic : std::string(); }
bool World::idle() const {
    for (auto& f : fibers) if (f->st != St::Queue && f->st != St::Shutdown && f->st != St::Done) return false;
    for (auto& p : procs) if (p->ok && !p->queue.empty()) return false;
    return true;
}

// ---------------------------------------------------------------- transport
static void enqueue(const SubPtr& s, const AnyMsg& m, uint64_t pub_seq, const VClock& clk) {
    if (s->removed || !s->proc->queue_enabled) return;
    bool was_full = false;
    if (s->limit > 0 && s->q.size() >= s->limit) {
        was_full = true;
        Event e{}; e.kind = Ev::DropQueue; e.topic = s->topic; e.proc = s->proc; e.sub_id = s->id; e.pub_seq = s->q.front().pub_seq; e.m = s->q.front().m;
        e.ops = s->ops; e.stamp = s->ops->stamp(e.m.p.get());
        s->q.pop_front();
        ++s->dropped;
        ++W->fault_counts["queue_overflow"];
        W->emit(e);
    }
    s->q.push_back(Queued{m, pub_seq, clk.v});
    ++s->delivered;
    Event e{}; e.kind = Ev::Deliver; e.topic = s->topic; e.proc = s->proc; e.sub_id = s->id; e.pub_seq = pub_seq; e.m = m; e.ops = s->ops; e.stamp = s->ops->stamp(m.p.get());
    W->emit(e);
    if (!was_full) {
        s->proc->queue.push_back(QueueItem{s, nullptr, nullptr, {}});
        wake_queue(s->proc);
    }
}
static void send_async(const SubPtr& s, const TypeOps* ops, const AnyMsg& m, uint64_t pub_seq, const VClock& clk, Nanos delay) {
    const AnyMsg wire = *s->ops->type == *ops->type ? ops->clone(m) : s->ops->from_canon(ops->to_canon(m));
    Nanos t = std::max(W->now_ + delay, s->link_time);
    s->link_time = t;
    W->at(t, [s, wire, pub_seq, clk]() { enqueue(s, wire, pub_seq, clk); });
}
SubPtr subscribe(const std::string& topic, size_t limit, const TypeOps* ops, std::function<void(const AnyMsg&)> cb) {
    RaceIgnore ignore;
    auto s = std::make_shared<Subscription>();
    s->id = W->next_sub_id++;
    s->topic = topic;
    s->proc = current_process();
    s->ops = ops;
    s->limit = limit;
    s->cb = std::move(cb);
    W->subs[topic].push_back(s);
    VClock clk; if (W->cur) { clk = W->cur->clock; W->cur->clock.tick(W->cur->id); }
    s->clock = clk.v;
    for (auto& p : W->pubs[topic]) if (p->latch && p->has_last && *p->ops->canon == *ops->canon) send_async(s, p->ops, p->last, 0, clk, 0);
    return s;
}
void unsubscribe(const SubPtr& s) {
    RaceIgnore ignore;
    s->removed = true;
    if (W && W->cur) W->cur->clock.join(VClock{s->clock});
    s->cb = nullptr;
    s->q.clear();
    if (!W) return;
    auto& v = W->subs[s->topic];
    v.erase(std::remove(v.begin(), v.end(), s), v.end());
    auto& q = s->proc->queue;
    q.erase(std::remove_if(q.begin(), q.end(), [&](const QueueItem& i) { return i.sub == s; }), q.end());
}
PubPtr advertise(const std::string& topic, bool latch, const TypeOps* ops) {
    RaceIgnore ignore;
    auto p = std::make_shared<Publication>();
    p->topic = topic; p->latch = latch; p->ops = ops; p->proc = current_process();
    W->pubs[topic].push_back(p);
    return p;
}
void publish(const PubPtr& p, AnyMsg m, bool shared) {
    RaceIgnore ignore;
    if (!W) return;
    if (!current_process() || !current_process()->ok) {
        // roscpp drops publications after shutdown
        if (current_process()) { Event e{}; e.kind = Ev::LinkSend; e.topic = p->topic; e.proc = p->proc; e.m = m; e.ops = p->ops; e.stamp = p->ops->stamp(m.p.get()); W->emit(e); }
        return;
    }
    yield_point(1);
    if (!current_process()->ok) return;
    const uint64_t seq = ++W->pub_counter;
    if (p->latch) { p->has_last = true; p->last = m; }
    Event e{}; e.kind = Ev::Publish; e.topic = p->topic; e.proc = p->proc; e.sub_id = -1; e.pub_seq = seq; e.m = m; e.ops = p->ops; e.stamp = p->ops->stamp(m.p.get());
    W->emit(e);
    VClock clk = W->cur->clock;
    W->cur->clock.tick(W->cur->id);
    auto subs = W->subs[p->topic];
    for (auto& s : subs) {
        if (*s->ops->canon != *p->ops->canon) { W->fail("type mismatch on " + p->topic, "type mismatch"); return; }
        if (shared && s->proc == p->proc && *s->ops->type == *p->ops->type) enqueue(s, m, seq, clk);
        else {
            uint32_t d = W->choose_delay(K_LINK, W->strat.p_link);
            if (d) ++W->fault_counts["link_delay"];
            send_async(s, p->ops, m, seq, clk, DELAYS[d]);
        }
    }
    yield_point(2);
}
void World::inject(const std::string& topic, const TypeOps* ops, AnyMsg m) {
    const uint64_t seq = ++pub_counter;
    Event e{}; e.kind = Ev::Publish; e.topic = topic; e.proc = nullptr; e.sub_id = -1; e.pub_seq = seq; e.m = m; e.ops = ops; e.stamp = ops->stamp(m.p.get());
    emit(e);
    for (auto& s : subs[topic]) {
        if (*s->ops->canon != *ops->canon) { fail("type mismatch on " + topic, "type mismatch"); return; }
        const AnyMsg w = *s->ops->type == *ops->type ? m : s->ops->from_canon(ops->to_canon(m));
        enqueue(s, w, seq, VClock());
    }
}
SvcPtr advertise_service(const std::string& name, std::function<bool(void*, void*)> fn) {
    RaceIgnore ignore;
    auto s = std::make_shared<Service>();
    s->name = name; s->fn = std::move(fn); s->proc = current_process();
    W->services[name] = s;
    return s;
}
bool World::call_service(const std::string& name, std::function<void(Service&)> fn) {
    RaceIgnore ignore;
    auto it = services.find(name);
    if (it == services.end() || it->second->removed || !it->second->proc->queue_enabled) return false;
    SvcPtr s = it->second;
    QueueItem q;
    q.svc = s;
    q.call = [s, fn]() { if (!s->removed) fn(*s); };
    s->proc->queue.push_back(q);
    wake_queue(s->proc);
    return true;
}

// ---------------------------------------------------------------- spinning
static bool take_item(Process* p, QueueItem& out) {
    for (size_t n = p->queue.size(); n > 0; --n) {
        QueueItem it = p->queue.front();
        p->queue.pop_front();
        if (it.sub && (it.sub->removed || it.sub->q.empty())) continue;
        if ((it.sub && it.sub->busy) || (it.svc && it.svc->busy)) { p->queue.push_back(it); continue; }  // TryAgain
        out = it;
        return true;
    }
    return false;
}
static void run_item(QueueItem& it) {
    Fiber* f = W->cur;
    if (it.sub) {
        SubPtr s = it.sub;
        Queued m = std::move(s->q.front());
        s->q.pop_front();
        s->busy = true;
        f->current_topic = s->topic;
        f->current_sub = s;
        f->clock.join(VClock{m.clock});
        f->clock.join(VClock{s->clock});
        Event e{}; e.kind = Ev::CbStart; e.topic = s->topic; e.proc = s->proc; e.sub_id = s->id; e.pub_seq = m.pub_seq; e.m = m.m; e.ops = s->ops; e.stamp = s->ops->stamp(m.m.p.get());
        W->emit(e);
        if (W->strat.p_start > 0 || W->explicit_mode) {
            if (W->stall_until < 0 || W->now_ < W->stall_until) {
                uint32_t d = W->choose_delay(K_START, W->strat.p_start);
                if (d) { ++W->fault_counts["slow_callback"]; cur_sleep(DELAYS[d]); }
            }
        }
        yield_point(3);
        bool good = guarded("callback of " + s->topic, [&]() { if (s->cb) { auto cb = s->cb; RaceEnable on; cb(m.m); } });
        if (!good) { block(St::Cond, nullptr); return; }
        e.kind = Ev::CbEnd;
        W->emit(e);
        m.m.p.reset();
        s->busy = false;
        s->clock = f->clock.v;
        f->clock.tick(f->id);
        ++s->executed;
        f->current_sub.reset();
        f->current_topic.clear();
        wake_queue(f->proc);
    } else if (it.call) {
        f->current_topic = it.svc ? "service " + it.svc->name : "call";
        if (it.svc) it.svc->busy = true;
        yield_point(3);
        bool good = guarded("callback of " + f->current_topic, [&]() { RaceEnable on; it.call(); });
        if (!good) { block(St::Cond, nullptr); return; }
        if (it.svc) it.svc->busy = false;
        f->current_topic.clear();
        wake_queue(f->proc);
    }
    yield_point(4);
}
static void spin_loop(Process* p, const bool* stop) {
    while (!*stop && p->queue_enabled) {
        QueueItem it;
        if (take_item(p, it)) run_item(it);
        else block(St::Queue, p);
    }
}
struct SpinCtl { bool stop = false; std::vector<Fiber*> fs; };
static std::map<Process*, std::shared_ptr<SpinCtl>> spin_ctl;
void spinner_start(int threads) {
    RaceIgnore ignore;
    Process* p = current_process();
    auto ctl = std::make_shared<SpinCtl>();
    spin_ctl[p] = ctl;
    p->spinner_threads = threads;
    for (int i = 0; i < threads; ++i) {
        Fiber* f = new_fiber(p, p->name + "." + std::to_string(i), [p, ctl]() { spin_loop(p, &ctl->stop); });
        ctl->fs.push_back(f);
        p->spinners.push_back(f);
    }
}
void spinner_stop() {
    RaceIgnore ignore;
    Process* p = current_process();
    auto it = spin_ctl.find(p);
    if (it == spin_ctl.end()) return;
    auto ctl = it->second;
    ctl->stop = true;
    wake_queue(p);
    for (;;) {
        bool all = true;
        for (Fiber* f : ctl->fs) all = all && f->st == St::Done;
        if (all) break;
        block(St::Join, nullptr);
    }
    for (Fiber* f : ctl->fs) W->cur->clock.join(f->clock);
    spin_ctl.erase(p);
}
void wait_for_shutdown() {
    RaceIgnore ignore;
    Process* p = current_process();
    while (p->ok) block(St::Shutdown, p);
}
void spin() {
    RaceIgnore ignore;
    Process* p = current_process();
    bool stop = false;
    spin_loop(p, &stop);
}

// ---------------------------------------------------------------- misc API
Process* current_process() { RaceIgnore ignore; return W && W->cur ? W->cur->proc : nullptr; }
bool ok() { RaceIgnore ignore; return !W || !W->cur || W->cur->proc->ok; }
Nanos now() { RaceIgnore ignore; return W ? W->now_ : 0; }
void sleep_for(Nanos d) {
    RaceIgnore ignore;
    if (!W || !W->cur) return;
    check_livelock();
    cur_sleep(std::max<Nanos>(d, 0));
}
std::string resolve(const std::string& ns, const std::string& name) {
    RaceIgnore ignore;
    if (!name.empty() && name[0] == '/') return name;
    std::string n = ns;
    if (n == "~" || (!n.empty() && n[0] == '~')) {
        const Process* p = current_process();
        n = "/" + (p ? p->name : std::string("node")) + (n.size() > 1 ? "/" + n.substr(1) : "");
    }
    if (n.empty()) n = "/";
    if (n[0] != '/') n = "/" + n;
    if (n.size() > 1 && n.back() == '/') n.pop_back();
    return n == "/" ? "/" + name : n + "/" + name;
}
bool get_param(const std::string& name, XmlRpc::XmlRpcValue& out) {
    RaceIgnore ignore;
    auto it = W->params.find(name);
    if (it == W->params.end()) return false;
    out = it->second;
    return true;
}
void log(const char* level, const std::string& text) {
    RaceIgnore ignore;
    if (log_level == 0) return;
    int l = !strcmp(level, "DEBUG") ? 3 : !strcmp(level, "INFO") ? 2 : 1;
    if (l > log_level) return;
    fprintf(stderr, "[%s %.6f %s] %s\n", level, now() * 1e-9, W && W->cur ? W->cur->name.c_str() : "-", text.c_str());
}

bool log_gate(bool& hit) { const bool r = !hit; hit = true; return r; }
bool log_gate(double& last, double period) { const double t = now() * 1e-9; if (t - last < period) return false; last = t; return true; }

// ---------------------------------------------------------------- mutexes and condition variables
struct MState { Fiber* owner = nullptr; int depth = 0; VClock clk; int waiters = 0; };
static std::unordered_map<void*, MState>& mtab() { static auto* m = new std::unordered_map<void*, MState>(); return *m; }
static bool in_exe(void* ra) { return static_cast<char*>(ra) >= &__executable_start && static_cast<char*>(ra) < &etext; }

static int m_lock(pthread_mutex_t* m, bool yield, bool tr) {
    RaceIgnore ignore;
    if (yield) yield_point(5);
    for (;;) {
        MState& s = mtab()[m];
        if (!s.owner) { s.owner = W->cur; s.depth = 1; W->cur->clock.join(s.clk); return 0; }
        if (s.owner == W->cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; }
        if (tr) return EBUSY;
        ++s.waiters;
        block(St::Mutex, m);
        --mtab()[m].waiters;
    }
}
static int m_unlock(pthread_mutex_t* m, bool yield) {
    RaceIgnore ignore;
    MState& s = mtab()[m];
    if (!s.owner) { W->fail("unlock of a mutex that is not locked", "mutex misuse"); return 0; }
    if (s.owner != W->cur) { W->fail("unlock of a mutex held by another thread", "mutex misuse"); return 0; }
    if (--s.depth > 0) return 0;
    s.owner = nullptr;
    s.clk = W->cur->clock;
    W->cur->clock.tick(W->cur->id);
    if (s.waiters) for (auto& f : W->fibers) if (f->st == St::Mutex && f->wait_on == m) make_ready(f.get());
    if (yield) yield_point(6);
    return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, Nanos deadline) {
    RaceIgnore ignore;
    Fiber* f = W->cur;
    // release, sleep, reacquire
    MState& s = mtab()[m];
    int depth = s.depth;
    s.owner = nullptr; s.depth = 0; s.clk = f->clock; f->clock.tick(f->id);
    for (auto& o : W->fibers) if (o->st == St::Mutex && o->wait_on == m) make_ready(o.get());
    f->timed_out = false;
    if (deadline >= 0) {
        const uint64_t tok = ++f->wake_token;
        W->at(deadline, [f, tok]() { if (f->st == St::Cond && f->wake_token == tok) { f->timed_out = true; make_ready(f); } });
    }
    block(St::Cond, c);
    bool to = f->timed_out;
    m_lock(m, false, false);
    mtab()[m].depth = depth;
    return to ? ETIMEDOUT : 0;
}
static int c_signal(pthread_cond_t* c, bool all) {
    RaceIgnore ignore;
    std::vector<Fiber*> w;
    for (auto& f : W->fibers) if (f->st == St::Cond && f->wait_on == c) w.push_back(f.get());
    if (w.empty()) return 0;
    if (all) for (Fiber* f : w) make_ready(f);
    else make_ready(w[W->choose(K_PICK, uint32_t(w.size()))]);
    return 0;
}
// reader-writer locks (std::shared_mutex)
struct RState { Fiber* writer = nullptr; std::unordered_map<Fiber*, int> readers; VClock wclk, rclk; int waiters = 0; };
static std::unordered_map<void*, RState>& rtab() { static auto* m = new std::unordered_map<void*, RState>(); return *m; }
static int rw_lock(pthread_rwlock_t* m, bool write, bool yield, bool tr) {
    RaceIgnore ignore;
    if (yield) yield_point(5);
    for (;;) {
        RState& s = rtab()[m];
        if (!s.writer && (!write || s.readers.empty())) {
            W->cur->clock.join(s.wclk);
            if (write) { W->cur->clock.join(s.rclk); s.writer = W->cur; } else ++s.readers[W->cur];
            return 0;
        }
        if (tr) return EBUSY;
        ++s.waiters;
        block(St::Mutex, m);
        --rtab()[m].waiters;
    }
}
static int rw_unlock(pthread_rwlock_t* m, bool yield) {
    RaceIgnore ignore;
    RState& s = rtab()[m];
    if (s.writer == W->cur) { s.writer = nullptr; s.wclk = W->cur->clock; s.rclk = W->cur->clock; }
    else {
        auto it = s.readers.find(W->cur);
        if (it == s.readers.end()) { W->fail("unlock of a reader-writer lock that is not held", "mutex misuse"); return 0; }
        if (--it->second == 0) s.readers.erase(it);
        s.rclk.join(W->cur->clock);
    }
    W->cur->clock.tick(W->cur->id);
    if (s.waiters) for (auto& f : W->fibers) if (f->st == St::Mutex && f->wait_on == m) make_ready(f.get());
    if (yield) yield_point(6);
    return 0;
}
// Locking with a time limit: polled in virtual time.
static int m_timedlock(pthread_mutex_t* m, Nanos deadline) {
    while (m_lock(m, true, true)) { if (sim::now() >= deadline) return ETIMEDOUT; sim::sleep_for(std::min<Nanos>(deadline - sim::now(), 100 * US)); }
    return 0;
}
static int do_once(pthread_once_t* o, void (*fn)()) {
    struct OState { int st = 0; VClock clk; };
    static auto* tab = new std::unordered_map<void*, OState>();
    for (;;) {
        OState& s = (*tab)[o];
        if (s.st == 2) { RaceIgnore ignore; W->cur->clock.join(s.clk); return 0; }
        if (s.st == 0) {
            s.st = 1;
            try { fn(); } catch (...) { (*tab)[o].st = 0; throw; }
            RaceIgnore ignore;
            OState& e = (*tab)[o];
            e.st = 2; e.clk = W->cur->clock; W->cur->clock.tick(W->cur->id);
            return 0;
        }
        sim::sleep_for(1000);
    }
}
}  // namespace sim

// ---------------------------------------------------------------- interposed C library functions
using namespace sim;
template<class F> static F real(const char* n, F* slot) { if (!*slot) *slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); return *slot; }
#define REAL(n) static decltype(&n) r_##n; real(#n, &r_##n)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (tl_sim) return m_lock(m, in_exe(__builtin_return_address(0)), false);
    REAL(pthread_mutex_lock); return r_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (tl_sim) return m_lock(m, in_exe(__builtin_return_address(0)), true);
    REAL(pthread_mutex_trylock); return r_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (tl_sim) return m_unlock(m, in_exe(__builtin_return_address(0)));
    REAL(pthread_mutex_unlock); return r_pthread_mutex_unlock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept {
    if (tl_sim) return m_timedlock(m, Nanos(t->tv_sec) * SEC + t->tv_nsec);
    REAL(pthread_mutex_timedlock); return r_pthread_mutex_timedlock(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) noexcept {
    if (tl_sim) return m_timedlock(m, Nanos(t->tv_sec) * SEC + t->tv_nsec);
    REAL(pthread_mutex_clocklock); return r_pthread_mutex_clocklock(m, k, t);
}
#define RW(name, expr) int name(pthread_rwlock_t* m) noexcept { \
    const bool in = in_exe(__builtin_return_address(0)); (void)in; \
    if (tl_sim) return expr; \
    REAL(name); return r_##name(m); }
RW(pthread_rwlock_rdlock, rw_lock(m, false, in, false))
RW(pthread_rwlock_wrlock, rw_lock(m, true, in, false))
RW(pthread_rwlock_tryrdlock, rw_lock(m, false, in, true))
RW(pthread_rwlock_trywrlock, rw_lock(m, true, in, true))
RW(pthread_rwlock_unlock, rw_unlock(m, in))
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (tl_sim && in_exe(__builtin_return_address(0))) return do_once(o, f);
    REAL(pthread_once); return r_pthread_once(o, f);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (tl_sim) return c_wait(c, m, -1);
    REAL(pthread_cond_wait); return r_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (tl_sim) return c_wait(c, m, Nanos(t->tv_sec) * SEC + t->tv_nsec);
    REAL(pthread_cond_timedwait); return r_pthread_cond_timedwait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (tl_sim) return c_wait(c, m, Nanos(t->tv_sec) * SEC + t->tv_nsec);
    REAL(pthread_cond_clockwait); return r_pthread_cond_clockwait(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (tl_sim) return c_signal(c, false);
    REAL(pthread_cond_signal); return r_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (tl_sim) return c_signal(c, true);
    REAL(pthread_cond_broadcast); return r_pthread_cond_broadcast(c);
}
int nanosleep(const struct timespec* t, struct timespec* r) {
    if (tl_sim) { sim::sleep_for(Nanos(t->tv_sec) * SEC + t->tv_nsec); return 0; }
    REAL(nanosleep); return r_nanosleep(t, r);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* r) {
    if (tl_sim) { Nanos d = Nanos(t->tv_sec) * SEC + t->tv_nsec; sim::sleep_for(fl & TIMER_ABSTIME ? d - sim::now() : d); return 0; }
    REAL(clock_nanosleep); return r_clock_nanosleep(k, fl, t, r);
}
int usleep(useconds_t u) {
    if (tl_sim) { sim::sleep_for(Nanos(u) * US); return 0; }
    REAL(usleep); return r_usleep(u);
}
int sched_yield() noexcept { if (tl_sim) { sim::sleep_for(1); return 0; } REAL(sched_yield); return r_sched_yield(); }
int clock_gettime(clockid_t k, struct timespec* t) noexcept {
    if (tl_sim) { Nanos n = sim::now(); t->tv_sec = n / SEC; t->tv_nsec = n % SEC; return 0; }
    REAL(clock_gettime); return r_clock_gettime(k, t);
}
int gettimeofday(struct timeval* t, void* z) noexcept {
    if (tl_sim) { Nanos n = sim::now(); t->tv_sec = n / SEC; t->tv_usec = (n % SEC) / 1000; return 0; }
    static int (*r)(struct timeval*, void*); if (!r) r = reinterpret_cast<int (*)(struct timeval*, void*)>(dlsym(RTLD_NEXT, "gettimeofday")); return r(t, z);
}
time_t time(time_t* p) noexcept {
    if (tl_sim) { time_t t = sim::now() / SEC; if (p) *p = t; return t; }
    struct timespec ts; REAL(clock_gettime); r_clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec;
}
}

// ---------------------------------------------------------------- roscpp / tf2 pieces
namespace ros {
bool Duration::sleep() const { sim::sleep_for(toNSec()); return true; }
bool WallDuration::sleep() const { sim::sleep_for(toNSec()); return true; }
Time Time::now() { Time t; t.fromNSec(uint64_t(sim::now())); return t; }
WallTime WallTime::now() { WallTime t; t.fromNSec(uint64_t(sim::now())); return t; }
void shutdown() { if (auto* p = sim::current_process()) sim::W->request_shutdown(p); }
}
namespace tf2_ros {
geometry_msgs::TransformStamped Buffer::lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout) const {
    sim::RaceIgnore ignore;
    double x[7];
    const sim::Nanos end = sim::now() + timeout.toNSec();
    for (;;) {
        if (sim::W->tf && sim::W->tf(target, source, sim::Nanos(t.toNSec()), x)) break;
        if (sim::now() >= end || !sim::ok()) { ++sim::W->fault_counts["tf_lookup_failed"]; throw tf2::LookupException("transform " + target + " <- " + source + " unavailable"); }
        sim::sleep_for(10 * sim::MS);
    }
    geometry_msgs::TransformStamped r;
    r.header.stamp = t; r.header.frame_id = target; r.child_frame_id = source;
    r.transform.translation.x = x[0]; r.transform.translation.y = x[1]; r.transform.translation.z = x[2];
    r.transform.rotation.x = x[3]; r.transform.rotation.y = x[4]; r.transform.rotation.z = x[5]; r.transform.rotation.w = x[6];
    return r;
}
bool Buffer::canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout, std::string*) const {
    try { lookupTransform(target, source, t, timeout); return true; } catch (const tf2::TransformException&) { return false; }
}
}
