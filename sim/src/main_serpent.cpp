// Entry point of the SERPENT simulation: runs seeds in forked children and prints one JSON line per run.
#include <sstream>

#include "driver.hpp"
#include "race.hpp"
#include "serpent_cv.hpp"
#include "serpent_h.hpp"
#include "sim_registration.hpp"
#include "std_srvs/Empty.h"

int sim_main_node(int, char**);
int sim_main_frontend_node(int, char**);
int sim_main_backend_node(int, char**);
int sim_main_stereo_pipeline_node(int, char**);
namespace sim { extern std::deque<AlignRecord> align_records; }

using namespace hs;
using namespace drv;
namespace drv {
std::set<std::string> crash_props(const Scn& s, const std::string& topic, bool stopping) { return failure_set(s, topic, stopping); }

void run_one(const std::string& profile, uint64_t seed, const Overrides& ov, bool want_choices) {
    head_json = fmt("{\"seed\":%llu,\"profile\":\"%s\"", (unsigned long long)seed, profile.c_str());
    const double t_begin = wall();
    Scn s;
    scn = &s;
    generate(s, profile, seed, ov);
    head_json += fmt(",\"nfaults\":%zu,\"nscans\":%d,\"config\":\"", s.faults.size(), s.n_scans) + (s.imu ? "I" : "") + (s.reg ? (s.s2m ? "M" : "R") : "") + (s.stereo ? "S" : "") + (s.baro ? "B" : "") + (s.split ? "/split" : "") + (s.marg ? "/marg" : "") + "\"";
    if (getenv("SIM_PARAMS")) for (auto& x : s.params) {
        std::string v; double d; bool b;
        fprintf(stderr, "PARAM %s=%s\n", x.first.c_str(), ros::Conv::get(x.second, v) ? v.c_str() : ros::Conv::get(x.second, d) ? fmt("%g", d).c_str() : ros::Conv::get(x.second, b) ? (b ? "true" : "false") : "?");
    }
    cv_scn = &s;
    sim::World w(seed * 2654435761ull + 17);
    sim::W = &w;
    w.strat = s.strat;
    w.params = s.params;
    w.now_ = s.epoch - 600 * sim::MS;
    if (ov.quiet_sched) { w.explicit_mode = true; w.explicit_choices = ov.choices; }
    Rec rec;
    static const std::string ns = "/serpent/";
    w.observer = [&](const sim::Event& e) {
        E r;
        r.seq = e.seq; r.t = e.t; r.kind = e.kind;
        r.topic = e.topic.compare(0, ns.size(), ns) == 0 ? e.topic.substr(ns.size()) : e.topic;
        r.proc = e.proc ? e.proc->name : "ext";
        r.fiber = e.fiber; r.sub = e.sub_id; r.pub = e.pub_seq; r.stamp = e.stamp;
        if (e.kind == sim::Ev::Publish && e.m.p && e.ops && r.topic.find("image") == std::string::npos) {
            sim::AnyMsg c = e.ops->to_canon(e.m);
            r.m = c.p == e.m.p ? e.ops->clone(e.m).p : c.p;
            if (r.topic == "/tf" || r.topic == "/tf_static") rec.tf.push_back({r.seq, r.t, r.topic == "/tf_static", *static_cast<const geometry_msgs::TransformStamped*>(r.m.get()), r.proc});
        }
        if (e.kind == sim::Ev::Publish && e.m.p && r.topic.find("image") != std::string::npos && *e.m.type == typeid(sensor_msgs::Image)) {
            const auto& im = *static_cast<const sensor_msgs::Image*>(e.m.p.get());
            uint64_t h = 1469598103934665603ull;
            for (uint8_t b : im.data) h = (h ^ b) * 1099511628211ull;
            r.aux = h ^ (uint64_t(im.width) << 32) ^ im.height;
        }
        const size_t i = rec.ev.size();
        switch (e.kind) {
            case sim::Ev::Publish: rec.pub[r.topic].push_back(i); break;
            case sim::Ev::CbStart: rec.start[r.topic].push_back(i); break;
            case sim::Ev::CbEnd: rec.end[r.topic].push_back(i); break;
            case sim::Ev::Deliver: rec.deliver[r.topic].push_back(i); break;
            case sim::Ev::Sync: rec.sync[r.topic].push_back(i); break;
            case sim::Ev::DropQueue: rec.drop[r.topic].push_back(i); break;
            default: break;
        }
        rec.ev.push_back(std::move(r));
    };
    // TF tree: only the dynamic base_link needs external TF
    const XmlRpc::XmlRpcValue& bf = s.params["/serpent/body_frames"];
    const XmlRpc::XmlRpcValue& top = bf.m.begin()->second;
    const std::string body_id = top.hasMember("frame_id") ? top["frame_id"].s : bf.m.begin()->first;
    std::string base_id = body_id;
    if (s.body != "base_link") { const auto& n = top["frames"]["base_link"]; base_id = n.hasMember("frame_id") ? n["frame_id"].s : "base_link"; }
    w.tf = [&](const std::string& target, const std::string& source, sim::Nanos t, double* x) {
        for (auto& f : s.faults) if (f.on && f.kind == "tf" && s.rel(w.now_) >= f.t0 && s.rel(w.now_) < f.t1) return false;
        if (t == 0) t = w.now_;
        Iso T;
        if (target == body_id && source == base_id) T = s.base_mount(t);
        else if (target == base_id && source == body_id) T = s.base_mount(t).inverse();
        else return false;
        Qd q(T.rotation());
        x[0] = T.translation().x(); x[1] = T.translation().y(); x[2] = T.translation().z();
        x[3] = q.x(); x[4] = q.y(); x[5] = q.z(); x[6] = q.w();
        return true;
    };
    static char arg0[] = "node";
    static char* argv[] = {arg0, nullptr};
    std::vector<sim::Process*> procs;
    if (s.stereo_only) {
        procs.push_back(w.make_process("serpent"));
        w.start_main(procs[0], [] { return sim_main_stereo_pipeline_node(1, argv); });
    } else if (s.split) {
        procs.push_back(w.make_process("frontend"));
        procs.push_back(w.make_process("backend"));
        w.start_main(procs[0], [] { return sim_main_frontend_node(1, argv); });
        w.start_main(procs[1], [] { return sim_main_backend_node(1, argv); });
    } else {
        procs.push_back(w.make_process("serpent"));
        w.start_main(procs[0], [] { return sim_main_node(1, argv); });
    }
    static const std::map<std::string, std::string> names{{"imu", "input/imu"}, {"pointcloud", "input/pointcloud"}, {"left_image", "input/stereo/left/image"},
        {"right_image", "input/stereo/right/image"}, {"left_info", "input/stereo/left/camera_info"}, {"right_info", "input/stereo/right/camera_info"}, {"barometer", "input/barometer"}};
    for (const Input& in : s.inputs) {
        if (in.dropped) { ++w.fault_counts["lost_input"]; continue; }
        const std::string topic = ns + names.at(in.topic).substr(s.stereo_only ? 6 : 0);
        w.at(in.arrive, [&w, topic, &in] { w.inject(topic, in.ops, in.m); });
    }
    for (const Fault& f : s.faults) {
        if (!f.on) continue;
        ++w.fault_counts["fault_" + f.kind];
        if (f.kind == "service") w.at(s.epoch + sim::Nanos(f.t0 * 1e9), [&w, &f, &rec] {
            if (!w.call_service("/serpent/" + f.topic, [&rec](sim::Service& sv) { std_srvs::Empty::Request q; std_srvs::Empty::Response r; sv.fn(&q, &r); ++rec.counters["service_done"]; })) ++rec.counters["service_absent"];
        });
    }
    double shutdown_at = -1;
    for (const Fault& f : s.faults) if (f.on && f.kind == "shutdown") shutdown_at = f.t0;
    const double horizon = s.last_input + 9.0;
    w.stall_until = s.epoch + sim::Nanos((s.last_input + 1.0) * 1e9);
    Outcome oc;
    if (profile == "c12") sim::race_start(seed ^ 0x5eed, seed % 3 ? (seed % 3 == 1 ? 4000 : 60000) : 0);
    in_run = true;
    w.run_until(s.epoch + sim::Nanos((shutdown_at >= 0 ? shutdown_at : horizon) * 1e9));
    oc.horizon_reached = !w.stop_requested;
    oc.end = w.now_;
    oc.blocked = w.describe_blocked();
    rec.counters["shutdown_index"] = rec.ev.size();
    if (!w.stop_requested) {
        rec.counters["blocked_at_shutdown"] = oc.blocked.empty() ? 0 : 1;
        stopping = true;
        for (auto* p : procs) w.request_shutdown(p);
        w.run_until(w.now_ + 8 * sim::SEC);
        for (auto* p : procs) if (!p->exited) oc.exited_all = false;
        if (!oc.exited_all) oc.blocked += " | after shutdown: " + w.describe_blocked();
    }
    in_run = false;
    oc.failures = w.failures;
    const double simtime = double(w.now_ - s.epoch) * 1e-9;
    const double t_sim = wall();
    sim::World* keep = sim::W;
    if (profile == "c12") {
        rec.counters["C12.accesses"] = sim::race_accesses();
        for (auto& r : sim::race_reports()) rec.add("C12", r.cls, r.msg);
    }
    else check_all(s, rec, oc);
    sim::W = keep;
    const double t_end = wall();
    drv::result(s, w, rec, simtime, t_sim - t_begin, t_end - t_sim, want_choices);
}

}
