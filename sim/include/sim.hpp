#pragma once
// Deterministic simulator core: fibers as threads, virtual clock, seeded scheduler, simulated pub/sub transport.
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeinfo>
#include <vector>

#include "ros/xmlrpc.h"

namespace sim {
using Nanos = int64_t;
constexpr Nanos MS = 1000000, US = 1000, SEC = 1000000000;

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double range(double a, double b) { return a + (b - a) * uni(); }
    int irange(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
    bool chance(double p) { return uni() < p; }
    double gauss();
    template<class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- messages
struct AnyMsg {
    std::shared_ptr<const void> p;
    const std::type_info* type = nullptr;
};
struct TypeOps {
    const std::type_info* type;
    const std::type_info* canon;  // wire type
    AnyMsg (*to_canon)(const AnyMsg&);
    AnyMsg (*from_canon)(const AnyMsg&);
    AnyMsg (*clone)(const AnyMsg&);
    Nanos (*stamp)(const void*);
};

struct Fiber;
struct Process;
struct Queued {
    AnyMsg m;
    uint64_t pub_seq;
    std::vector<uint32_t> clock;  // happens-before clock of the publisher
};
struct Subscription {
    int id;
    std::string topic;
    Process* proc;
    const TypeOps* ops;
    size_t limit;
    std::deque<Queued> q;
    std::function<void(const AnyMsg&)> cb;
    bool busy = false, removed = false;
    Nanos link_time = 0;  // FIFO lower bound of the asynchronous link
    uint64_t delivered = 0, dropped = 0, executed = 0;
    std::vector<uint32_t> clock;  // serialisation of this subscription's callbacks
};
using SubPtr = std::shared_ptr<Subscription>;
struct Publication {
    std::string topic;
    Process* proc;
    const TypeOps* ops;
    bool latch = false;
    bool has_last = false;
    AnyMsg last;
};
using PubPtr = std::shared_ptr<Publication>;
struct Service {
    std::string name;
    Process* proc;
    std::function<bool(void*, void*)> fn;
    bool removed = false;
    bool busy = false;
};
using SvcPtr = std::shared_ptr<Service>;

struct QueueItem {  // entry of a process' global callback queue
    SubPtr sub;                    // either a subscription...
    std::function<void()> call;    // ...or a plain call (service request)
    SvcPtr svc;
    std::vector<uint32_t> clock;
};

struct Process {
    std::string name;
    bool ok = true, queue_enabled = true, exited = false;
    std::deque<QueueItem> queue;
    std::vector<Fiber*> spinners;
    Fiber* main = nullptr;
    int spinner_threads = 0;
    Nanos shutdown_at = -1, exited_at = -1;
    int exit_code = 0;
};

// ---------------------------------------------------------------- recorded events
enum class Ev { Publish, Deliver, DropQueue, CbStart, CbEnd, LinkSend, Sync };
struct Event {
    uint64_t seq;  // global event sequence number (total order)
    Nanos t;
    Ev kind;
    std::string topic;
    Process* proc;
    int fiber;
    int sub_id;  // Deliver/Drop/Cb
    uint64_t pub_seq;
    AnyMsg m;
    Nanos stamp;
    const TypeOps* ops;
};

// ---------------------------------------------------------------- scheduling
enum Kind : uint8_t { K_PREEMPT, K_PICK, K_STALL, K_LINK, K_START };
struct Strategy {
    double p_switch = 0.1;    // preemption at a yield point
    double p_pick = 0.5;      // random pick instead of oldest when a fiber blocks
    double p_stall = 0.0;     // virtual-time stall at a yield point
    double p_start = 0.0;     // virtual compute time at callback start
    double p_link = 0.2;      // non-zero asynchronous link delay
    int max_stall = 0;        // index limit into the delay table
    int mode = 0;             // 0 random walk, 1 priorities with change points
    double p_change = 0.002;  // priority change probability
};
extern const Nanos DELAYS[];
extern const int N_DELAYS;

struct Failure {
    std::string cls;   // stable class (used for minimisation and replay comparison)
    std::string msg;
    std::string where; // process/topic of the callback
};

struct World;
extern World* W;  // null outside simulation

struct World {
    explicit World(uint64_t seed);
    ~World();
    // configuration
    Strategy strat;
    Rng rng;                                  // schedule randomness only
    bool explicit_mode = false;
    std::map<uint64_t, uint32_t> explicit_choices;
    std::vector<std::pair<uint64_t, uint32_t>> recorded;  // non-default choices
    uint64_t decisions = 0;
    Nanos now_ = 0;
    std::map<std::string, XmlRpc::XmlRpcValue> params;
    std::function<void(const Event&)> observer;
    // TF provider: returns true and fills xyz,qxyzw; false = not available (yet)
    std::function<bool(const std::string&, const std::string&, Nanos, double*)> tf;
    std::map<std::string, uint64_t> fault_counts;
    std::vector<Failure> failures;
    bool stop_requested = false;
    Nanos stall_until = -1;  // stalls only injected before this time (-1: always)
    uint64_t max_steps = 20000000;
    uint64_t steps = 0;
    uint64_t switches = 0;
    uint64_t schedule_hash = 1469598103934665603ull;
    uint64_t history_hash = 1469598103934665603ull;
    uint64_t pub_counter = 0, ev_counter = 0;

    // API for harness
    Process* make_process(const std::string& name);
    void start_main(Process* p, std::function<int()> fn);
    void at(Nanos t, std::function<void()> fn);
    void run_until(Nanos t);  // runs events and fibers up to (and including) virtual time t, or until stop_requested
    void request_shutdown(Process* p);
    void inject(const std::string& topic, const TypeOps* ops, AnyMsg m);  // external publisher, delivery now
    bool call_service(const std::string& name, std::function<void(Service&)> fn);
    bool idle() const;  // no runnable fiber, no queued callback, nobody waiting
    std::string describe_blocked() const;

    // internals
    std::vector<std::unique_ptr<Fiber>> fibers;
    Fiber* cur = nullptr;
    std::map<std::string, std::vector<SubPtr>> subs;
    std::map<std::string, std::vector<PubPtr>> pubs;
    std::map<std::string, SvcPtr> services;
    std::multimap<std::pair<Nanos, uint64_t>, std::function<void()>> events;
    uint64_t event_seq = 0;
    std::vector<std::unique_ptr<Process>> procs;
    std::string current_topic() const;  // of the running fiber (crash reports)
    int next_sub_id = 0;
    uint32_t choose(Kind k, uint32_t n);
    uint32_t choose_delay(Kind k, double p);
    void fail(const std::string& cls, const std::string& msg);
    void emit(Event e);
    void hash_hist(uint64_t x) { history_hash = (history_hash ^ x) * 1099511628211ull; }
    void hash_sched(uint64_t x) { schedule_hash = (schedule_hash ^ x) * 1099511628211ull; }
};

// ---------------------------------------------------------------- API for the ROS stubs
Process* current_process();
bool ok();
Nanos now();
void sleep_for(Nanos d);
void yield_point(int kind_tag);
SubPtr subscribe(const std::string& topic, size_t limit, const TypeOps* ops, std::function<void(const AnyMsg&)> cb);
void unsubscribe(const SubPtr& s);
PubPtr advertise(const std::string& topic, bool latch, const TypeOps* ops);
void publish(const PubPtr& p, AnyMsg m, bool shared);
SvcPtr advertise_service(const std::string& name, std::function<bool(void*, void*)> fn);
bool get_param(const std::string& name, XmlRpc::XmlRpcValue& out);
void spinner_start(int threads);
void spinner_stop();
void wait_for_shutdown();
void spin();
std::string resolve(const std::string& ns, const std::string& name);
void log(const char* level, const std::string& text);
bool log_gate(bool& hit);
bool log_gate(double& last, double period);
extern int log_level;  // 0 none, 1 warn+, 2 info, 3 debug
}
