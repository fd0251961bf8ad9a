// Command line, process isolation, crash handling and result lines shared by the simulation programs.
#include "driver.hpp"

#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <tbb/global_control.h>
#include <tbb/info.h>
#include <tbb/parallel_for.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <opencv2/core.hpp>
#include <sstream>

namespace hs {
const char* oracle_props = nullptr;
std::string fmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
}
using namespace hs;
namespace drv {
bool debug = false;
std::string head_json;
Scn* scn = nullptr;
bool in_run = false, stopping = false;
static int out_fd = 1;
double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}
static void write_all(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(out_fd, s.data() + o, s.size() - o); if (k <= 0) break; o += size_t(k); } }

static void crash_handler(int sig) {
    static volatile int once = 0;
    if (once++) _exit(98);
    std::string topic = sim::W ? sim::W->current_topic() : std::string("harness");
    std::ostringstream o;
    o << head_json << ",\"crash\":\"" << (sig == SIGXCPU ? "cpu-limit" : sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : "signal") << "\",\"topic\":\"" << esc(topic)
      << "\",\"simtime\":" << (sim::W && scn ? (sim::W->now_ - scn->epoch) * 1e-9 : -1)
      << ",\"loss\":" << (scn && scn->has_loss() ? 1 : 0) << ",\"decisions\":" << (sim::W ? sim::W->decisions : 0) << ",\"choices\":\"";
    if (sim::W) for (auto& c : sim::W->recorded) o << c.first << ":" << c.second << " ";
    o << "\",\"viol\":[";
    bool first = true;
    auto add = [&](const std::string& p, const std::string& c, const std::string& m) { o << (first ? "" : ",") << "{\"p\":\"" << p << "\",\"c\":\"" << esc(c) << "\",\"m\":\"" << esc(m) << "\"}"; first = false; };
    if (oracle_props) { std::istringstream is(oracle_props); for (std::string p; is >> p;) add(p, "malformed output", "the recorded history cannot be judged"); }
    else if (sim::W && scn && in_run) for (auto& p : crash_props(*scn, topic, stopping)) add(p, "crash @" + topic, std::string(sig == SIGXCPU ? "endless loop" : "crash") + " in " + topic);
    o << "]}\n";
    write_all(o.str());
    _exit(99);
}

void result(const Scn& s, const sim::World& w, const Rec& rec, double simtime, double t_run, double t_check, bool want_choices) {
    std::ostringstream o;
    o << head_json << ",\"hist\":\"" << std::hex << w.history_hash << "\",\"sched\":\"" << w.schedule_hash << std::dec << "\",\"steps\":" << w.steps << ",\"switches\":" << w.switches
      << ",\"decisions\":" << w.decisions << ",\"nchoices\":" << w.recorded.size() << ",\"simtime\":" << simtime << ",\"wall\":[" << t_run << "," << t_check << "],\"loss\":" << (s.has_loss() ? 1 : 0);
    o << ",\"faults\":{";
    bool first = true;
    for (auto& f : w.fault_counts) { o << (first ? "" : ",") << "\"" << f.first << "\":" << f.second; first = false; }
    o << "},\"cov\":{";
    first = true;
    for (auto& c : rec.counters) { o << (first ? "" : ",") << "\"" << c.first << "\":" << c.second; first = false; }
    o << "},\"viol\":[";
    first = true;
    for (auto& v : rec.viol) { o << (first ? "" : ",") << "{\"p\":\"" << v.prop << "\",\"c\":\"" << esc(v.cls) << "\",\"m\":\"" << esc(v.msg) << "\"}"; first = false; }
    o << "]";
    if (want_choices) { o << ",\"choices\":\""; for (auto& c : w.recorded) o << c.first << ":" << c.second << " "; o << "\",\"faultlist\":\""; for (auto& f : s.faults) o << f.kind << "/" << f.topic << "/" << fmt("%.3f-%.3f", f.t0, f.t1) << "/" << f.index << (f.on ? "" : "(off)") << "; "; o << "\""; }
    o << "}\n";
    write_all(o.str());
    _exit(0);
}

static void child_setup() {
    stack_t ss;
    ss.ss_size = 1 << 18;
    ss.ss_sp = malloc(ss.ss_size);
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash_handler;
    sa.sa_flags = SA_ONSTACK;
    for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGXCPU}) sigaction(g, &sa, nullptr);
    rlimit rl{120, 125};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit rm{3ull << 30, 3ull << 30};
    setrlimit(RLIMIT_AS, &rm);
    rlimit rc{0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    if (!debug) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
}

}  // namespace drv
using namespace drv;

int main(int argc, char** argv) {
    if (!getenv("SIM_NO_ASLR")) {
        setenv("SIM_NO_ASLR", "1", 1);
        setenv("OMP_NUM_THREADS", "1", 1);
        // The solver library sizes its thread pool from the CPU affinity mask when it is loaded: one CPU, hence no worker threads.
        cpu_set_t all, one;
        CPU_ZERO(&one);
        if (sched_getaffinity(0, sizeof all, &all) == 0) {
            for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all)) { CPU_SET(c, &one); break; }
            sched_setaffinity(0, sizeof one, &one);
        }
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string profile = "c01";
    uint64_t from = 1, count = 1, stride = 1;
    double seconds = 1e9;
    bool choices = false;
    Overrides ov;
    std::string replay;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto nx = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--profile") profile = nx();
        else if (a == "--seed") { from = strtoull(nx().c_str(), nullptr, 10); count = 1; }
        else if (a == "--from") from = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--seconds") seconds = atof(nx().c_str());
        else if (a == "--choices") choices = true;
        else if (a == "--debug") { debug = true; sim::log_level = 2; }
        else if (a == "--replay") replay = nx();
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string k;
        while (f >> k) {
            if (k == "profile") f >> profile;
            else if (k == "seed") f >> from;
            else if (k == "nscans") f >> ov.n_scans;
            else if (k == "no_jitter") ov.no_jitter = true;
            else if (k == "fault_off") { int x; f >> x; ov.faults_off.insert(x); }
            else if (k == "explicit") ov.quiet_sched = true;
            else if (k == "choice") { uint64_t x; uint32_t y; f >> x >> y; ov.choices[x] = y; }
            else { std::string rest; std::getline(f, rest); }
        }
        count = 1;
    }
    cv::setNumThreads(1);
    volatile int concurrency = tbb::info::default_concurrency();
    tbb::parallel_for(0, 4, [](int) {});
    (void)concurrency;
    cpu_set_t all;
    memset(&all, 0xff, sizeof all);
    sched_setaffinity(0, sizeof all, &all);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
    const double t0 = wall();
    for (uint64_t i = 0; i < count && wall() - t0 < seconds; ++i) {
        const uint64_t seed = from + i * stride;
        int p[2];
        if (pipe(p)) return 3;
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            out_fd = p[1];
            child_setup();
            run_one(profile, seed, ov, choices);
            _exit(0);
        }
        close(p[1]);
        std::string out;
        char b[65536];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, size_t(k));
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (out.empty() || out.back() != '\n') out = fmt("{\"seed\":%llu,\"profile\":\"%s\",\"dead\":%d}\n", (unsigned long long)seed, profile.c_str(), st);
        fputs(out.c_str(), stdout);
        fflush(stdout);
    }
    return 0;
}
