// Oracles over the recorded history: common context, C01 (progress), C02 (consistent chain), C11 (shutdown), C13 (losses).
#include <algorithm>
#include <cstring>
#include <deque>

#include "serpent_orc.hpp"
#include "sim_registration.hpp"

namespace sim { extern std::deque<AlignRecord> align_records; }

namespace hs {
std::vector<V3> Cloud::xyz() const {
    std::vector<V3> r(n);
    const auto &x = f.at("x"), &y = f.at("y"), &z = f.at("z");
    for (size_t i = 0; i < n; ++i) r[i] = V3(x[i], y[i], z[i]);
    return r;
}
template<class M> static Cloud decode_any(const M& m) {
    Cloud c;
    c.n = size_t(m.width) * m.height;
    if (!m.point_step || m.data.size() < c.n * m.point_step) { c.n = m.point_step ? m.data.size() / m.point_step : 0; }
    for (const auto& f : m.fields) {
        auto& v = c.f[f.name];
        v.resize(c.n);
        for (size_t i = 0; i < c.n; ++i) {
            const uint8_t* p = m.data.data() + i * m.point_step + f.offset;
            auto g = [&](auto z) { memcpy(&z, p, sizeof z); v[i] = double(z); };
            switch (f.datatype) {
                case 1: g(int8_t()); break;
                case 2: g(uint8_t()); break;
                case 3: g(int16_t()); break;
                case 4: g(uint16_t()); break;
                case 5: g(int32_t()); break;
                case 6: g(uint32_t()); break;
                case 7: g(float()); break;
                case 8: g(double()); break;
                default: break;
            }
        }
    }
    return c;
}
Cloud decode(const pcl::PCLPointCloud2& m) { return decode_any(m); }
Cloud decode(const sensor_msgs::PointCloud2& m) { return decode_any(m); }

Ctx::Ctx(const Scn& s, Rec& r, const Outcome& o) : s(s), r(r), o(o) {
    cut = s.has_fault("shutdown");
    complete = !cut && o.failures.empty() && o.horizon_reached;
    std::map<std::pair<int, uint64_t>, const E*> open;  // (sub, pub) -> CbStart
    for (const E& e : r.ev) {
        if (e.kind == sim::Ev::Publish) pubs[e.pub] = &e;
        else if (e.kind == sim::Ev::CbStart) open[{e.sub, e.pub}] = &e;
        else if (e.kind == sim::Ev::CbEnd) {
            auto it = open.find({e.sub, e.pub});
            if (it != open.end()) start_end[it->second->seq] = &e;
        }
    }
    const auto& bf = s.params.at("/serpent/body_frames");
    const auto& top = bf.m.begin()->second;
    body_id = top.hasMember("frame_id") ? top["frame_id"].s : bf.m.begin()->first;
    base_id = body_id;
    const auto& fr = top["frames"];
    auto fid = [](const XmlRpc::XmlRpcValue& n, const char* d) { return n.hasMember("frame_id") ? n["frame_id"].s : std::string(d); };
    if (s.body != "base_link") base_id = fid(fr["base_link"], "base_link");
    lidar_id = fr.hasMember("lidar") ? fid(fr["lidar"], "lidar") : fid(fr["mount"]["frames"]["lidar"], "lidar");
    map_id = par<std::string>("map_frame_id", "map");
    TBL = s.ext.at("lidar");
    TBI = s.ext.at("imu");
    TBC = s.ext.at("stereo");
    for (const E* e : cb("input/imu")) {
        const E* p = content(e);
        if (!p) continue;
        const auto& m = p->as<sensor_msgs::Imu>();
        imu.push_back({e->stamp, vec(m.linear_acceleration), vec(m.angular_velocity), &m, e, end_of(e)});
    }
    for (const E* e : cb("formatter/formatted_pointcloud")) {
        const E* p = content(e);
        if (!p) continue;
        Scan sc;
        sc.t = e->stamp;
        sc.start = e;
        sc.cbend = end_of(e);
        sc.pub = p;
        sc.c = decode(p->as<pcl::PCLPointCloud2>());
        if (sc.c.has("t") && sc.c.n) {
            float mx = float(sc.c.f["t"][0]);
            for (double x : sc.c.f["t"]) mx = std::max(mx, float(x));
            ros::Duration d{double(mx)};
            sc.sweep = d.toSec();
            sc.end = sc.t + Nanos(d.toNSec());
        } else sc.end = sc.t;
        scans.push_back(std::move(sc));
    }
    for (const E* e : r.list(r.sync, "input/stereo/left/image")) frames.push_back(us(e->stamp));
    pim = gtsam::PreintegrationCombinedParams::MakeSharedU(par<double>("gravity", 9.81));
    auto sq = [](double x) { return x * x; };
    pim->setIntegrationCovariance(Eigen::Matrix3d::Identity() * sq(par<double>("imu/noise/integration", 1e-3)));
    pim->setBiasAccOmegaInit(Eigen::Matrix<double, 6, 6>::Identity() * sq(par<double>("imu/noise/integration_bias", 1e-3)));
    pim->setBiasAccCovariance(Eigen::Matrix3d::Identity() * sq(par<double>("imu/noise/accelerometer_bias", 1e-3)));
    pim->setBiasOmegaCovariance(Eigen::Matrix3d::Identity() * sq(par<double>("imu/noise/gyroscope_bias", 1e-3)));
    pim->setBodyPSensor(gp(TBI));
    // Required states
    while (skip + 1 < int(scans.size()) && !imu.empty() && imu.front().t > scans[skip].t) ++skip;
    if (!imu.empty()) {
        for (size_t j = skip; j + 1 < scans.size(); ++j) {
            Nanos t = scans[j].t;
            if (s.stereo) {
                auto it = std::find_if(frames.begin(), frames.end(), [&](Nanos f) { return f >= scans[j].t; });
                if (it == frames.end()) break;
                if (*it < scans[j + 1].t) t = *it;
            }
            if (j == size_t(skip) && imu.back().t <= t) break;
            if (imu.back().t < std::max(scans[j].end, t)) break;
            want.push_back(t);
        }
    }
    // States as created by the front end
    for (const E* e : pub("frontend/initial_odometry")) created.push_back(e->stamp);
    for (const E* e : pub("frontend/imu_s2s")) created.push_back(ns(e->as<serpent::ImuArray>().end_timestamp));
    // Optimised states
    auto od = pub("optimisation/odometry"), bi = pub("optimisation/imu_biases"), pa = pub("output/path"), ch = pub("optimisation/path_changes");
    std::map<Nanos, std::pair<const E*, const E*>> cbo, cbb;
    for (const E* e : cb("optimisation/odometry")) cbo[e->stamp] = {e, end_of(e)};
    for (const E* e : cb("optimisation/imu_biases")) cbb[e->stamp] = {e, end_of(e)};
    for (size_t k = 0; k < od.size(); ++k) {
        State x;
        x.t = od[k]->stamp;
        x.odom = od[k];
        const auto& m = od[k]->as<nav_msgs::Odometry>();
        x.pose = iso(m.pose.pose);
        x.vel = vec(m.twist.twist.linear);
        if (k < bi.size()) {
            x.bias = bi[k];
            const auto& b = bi[k]->as<serpent::ImuBiases>();
            x.b = gtsam::imuBias::ConstantBias(vec(b.accelerometer_bias), vec(b.gyroscope_bias));
        }
        if (k < pa.size()) x.path = pa[k];
        if (k < ch.size()) x.changes = ch[k];
        auto a = cbo.find(x.t), b = cbb.find(x.t);
        if (a != cbo.end() && b != cbb.end()) {
            const E* e0 = a->second.first->seq > b->second.first->seq ? a->second.first : b->second.first;
            x.ad0 = e0->seq;
            x.adt0 = e0->t;
            const E *f0 = a->second.second, *f1 = b->second.second;
            const E* f = !f0 || !f1 ? nullptr : f0->seq > f1->seq ? f0 : f1;
            x.ad1 = f ? f->seq : UINT64_MAX;
            x.adt1 = f ? f->t : o.end + 1000 * sim::SEC;
        }
        states.push_back(x);
    }
}

gtsam::NavState Ctx::forward(const gtsam::NavState& x, const gtsam::imuBias::ConstantBias& b, Nanos from, Nanos to, gtsam::PreintegratedCombinedMeasurements* out) const {
    gtsam::PreintegratedCombinedMeasurements p(pim, b);
    gtsam::PreintegratedCombinedMeasurements& q = out ? *out : p;
    for (size_t i = 0; i < imu.size(); ++i) {
        const Nanos a = std::max(imu[i].t, from), e = i + 1 < imu.size() ? std::min(imu[i + 1].t, to) : to;
        if (imu[i].t >= to) break;
        if (e > a) q.integrateMeasurement(imu[i].acc, imu[i].gyr, double(e - a) * 1e-9);
    }
    return q.predict(x, b);
}

// ---------------------------------------------------------------- C01
static void check_progress(Ctx& c) {
    const size_t want = c.want.size();
    // A state (other than the first) needs stereo observations at or after it to be handed over, when stereo is on
    size_t expect = want;
    if (c.s.stereo) {
        Nanos newest = -1;
        for (const E* e : c.cb("stereo/features")) newest = std::max(newest, e->stamp);
        while (expect > 1 && c.want[expect - 1] > newest) --expect;
        if (expect > 1 && expect < want) {
            // the estimator may not run ahead of an unfinished state
        }
    }
    c.cov("C01.states", c.states.size());
    if (c.complete) {
        c.cov("C01.checked");
        if (c.states.size() < expect)
            c.v("C01", "state missing", fmt("%zu of %zu required states were optimised by %.1f s after the last input (next required state t=%s); %s", c.states.size(), expect, 9.0, c.T(c.want[c.states.size()]).c_str(), c.o.blocked.c_str()));
        if (c.states.size() > expect && c.states.size() > want)
            c.v("C01", "state extra", fmt("%zu states optimised, only %zu scans call for one", c.states.size(), want));
    }
    for (size_t k = 0; k < c.states.size() && k < want; ++k)
        if (c.states[k].t != c.want[k]) {
            c.v(c.s.stereo ? "C10" : "C02", "state time", fmt("state %zu is at t=%s, expected t=%s", k, c.T(c.states[k].t).c_str(), c.T(c.want[k]).c_str()));
            if (!c.s.stereo) c.v("C05", "state time", fmt("state %zu is at t=%s, its scan starts at t=%s", k, c.T(c.states[k].t).c_str(), c.T(c.want[k]).c_str()));
            break;
        }
}
std::set<std::string> failure_set(const Scn& s, const std::string& where, bool after_shutdown) {
    std::set<std::string> p{"C01"};
    auto has = [&](const char* k) { return where.find(k) != std::string::npos; };
    if (after_shutdown) p.insert("C11");
    if (s.has_loss()) p.insert("C13");
    if (s.marg) p.insert("C18");
    if (has("barometer")) p.insert("C09");
    if (has("stereo")) { p.insert("C10"); p.insert("C14"); }
    if (has("local_map") || has("path_changes") || has("publish_map") || has("pose_graph")) p.insert("C08");
    if (has("local_map") || has("imu_transform") || has("normal_estimation")) p.insert("C07");
    if (has("registration/transform") || has("imu_s2s") || has("initial_odometry")) p.insert("C06");
    if (has("input/imu")) p.insert("C04");
    if (has("optimisation/odometry") || has("imu_biases")) { p.insert("C15"); p.insert("C04"); }
    if (has("formatted_pointcloud")) { p.insert("C03"); p.insert("C05"); }
    if (has("filter") || has("format") || has("input/pointcloud") || has("unit_vectors") || has("deskewed")) p.insert("C17");
    return p;
}
static void failure_props(Ctx& c, const std::string& where, const std::string& cls, const std::string& msg, bool after_shutdown) {
    for (auto& q : failure_set(c.s, where, after_shutdown)) c.v(q, "failure " + cls, msg + " @" + where);
}

// ---------------------------------------------------------------- C02
static void check_chain(Ctx& c) {
    auto od = c.pub("optimisation/odometry"), bi = c.pub("optimisation/imu_biases"), pa = c.pub("output/path"), ch = c.pub("optimisation/path_changes");
    const size_t n = od.size();
    auto count = [&](const char* name, size_t m) {
        if (m == n) return;
        if ((c.cut || !c.o.failures.empty()) && m + 1 == n) return;  // cut off between the publications of one state
        c.v("C02", std::string("count ") + name, fmt("%zu optimised odometry messages but %zu %s", n, m, name));
    };
    count("imu_biases", bi.size());
    count("path", pa.size());
    count("path_changes", ch.size());
    for (size_t k = 0; k < n; ++k) {
        const Nanos t = od[k]->stamp;
        if (k && t <= od[k - 1]->stamp) c.v("C02", "order", fmt("state %zu at t=%s follows state at t=%s", k, c.T(t).c_str(), c.T(od[k - 1]->stamp).c_str()));
        if (k < c.created.size() && t != c.created[k]) c.v("C02", "skipped state", fmt("optimised state %zu has t=%s but state %zu was created at t=%s", k, c.T(t).c_str(), k, c.T(c.created[k]).c_str()));
        if (k >= c.created.size()) c.v("C02", "uncreated state", fmt("optimised state %zu (t=%s) was never created", k, c.T(t).c_str()));
        auto stamp = [&](const std::vector<const E*>& l, const char* name) {
            if (k < l.size() && l[k]->stamp != t) c.v("C02", std::string("stamp ") + name, fmt("%s %zu has stamp %s, odometry %s", name, k, c.T(l[k]->stamp).c_str(), c.T(t).c_str()));
        };
        stamp(bi, "imu_biases");
        stamp(pa, "path");
        stamp(ch, "path_changes");
        if (!finite(c.states[k].pose)) c.v("C02", "not finite", fmt("pose of state %zu is not finite", k));
        if (k < pa.size()) {
            const auto& p = pa[k]->as<nav_msgs::Path>();
            if (p.poses.size() != k + 1) { c.v("C02", "path length", fmt("path of state %zu has %zu poses", k, p.poses.size())); continue; }
            for (size_t i = 0; i <= k; ++i)
                if (i < c.created.size() && ns(p.poses[i].header.stamp) != c.created[i])
                    c.v("C02", "path stamps", fmt("pose %zu of the path of state %zu has stamp %s, state %zu is at %s", i, k, c.T(ns(p.poses[i].header.stamp)).c_str(), i, c.T(c.created[i]).c_str()));
            const Iso last = iso(p.poses.back().pose);
            if (!(dtr(last, c.states[k].pose) < 1e-9 && drot(last, c.states[k].pose) < 1e-8))
                c.v("C02", "path end", fmt("last pose of the path of state %zu differs from its odometry by %.3g m %.3g", k, dtr(last, c.states[k].pose), drot(last, c.states[k].pose)));
            if (p.header.frame_id != c.map_id) c.v("C02", "frame", "path frame " + p.header.frame_id);
            c.cov("C02.checked");
            if (k < ch.size()) {
                const auto& q = ch[k]->as<nav_msgs::Path>();
                std::map<Nanos, Iso> qm;
                for (auto& x : q.poses) qm[ns(x.header.stamp)] = iso(x.pose);
                if (qm.size() != q.poses.size()) c.v("C02", "changes duplicate", fmt("path changes of state %zu repeat a pose", k));
                std::map<Nanos, Iso> pm;
                for (auto& x : p.poses) pm[ns(x.header.stamp)] = iso(x.pose);
                for (auto& x : qm) {
                    auto it = pm.find(x.first);
                    if (it == pm.end() || !(dtr(it->second, x.second) < 1e-9 && drot(it->second, x.second) < 1e-8))
                        c.v("C02", "changes differ", fmt("path changes of state %zu hold a pose at t=%s that the path does not", k, c.T(x.first).c_str()));
                }
                std::map<Nanos, Iso> prev;
                if (k && k - 1 < pa.size()) for (auto& x : pa[k - 1]->as<nav_msgs::Path>().poses) prev[ns(x.header.stamp)] = iso(x.pose);
                for (auto& x : pm) {
                    auto it = prev.find(x.first);
                    const bool changed = it == prev.end() || dtr(it->second, x.second) > 1e-6 || drot(it->second, x.second) > 1e-6;
                    if (changed && !qm.count(x.first)) c.v("C02", "change missing", fmt("pose at t=%s changed with state %zu but is not in the path changes", c.T(x.first).c_str(), k));
                }
            }
        }
        const auto& m = od[k]->as<nav_msgs::Odometry>();
        if (m.header.frame_id != c.map_id || m.child_frame_id != c.body_id) c.v("C02", "frame", "odometry frames " + m.header.frame_id + " -> " + m.child_frame_id);
    }
}

// ---------------------------------------------------------------- C11
static void check_shutdown(Ctx& c) {
    c.cov("C11.checked");
    if (c.cut) c.cov("C11.midrun");
    if (!c.o.exited_all && c.o.failures.empty()) c.v("C11", "no exit", "a node did not return from main within 8 s of the shutdown request: " + c.o.blocked);
}

void check_all(const Scn& s, Rec& r, const Outcome& o) {
    Ctx c(s, r, o);
    // A registration that overlaps its target in a handful of points determines no pose: what becomes of the run is not judged.
    if (s.reg && c.par<std::string>("registration_covariance/method", "CONSTANT") != "CONSTANT")
        for (auto& a : sim::align_records) if (a.matched < 12) { c.cov("discarded.degenerate_registration"); return; }
    for (auto& p : r.pub) r.counters["pub " + p.first] = p.second.size();
    for (auto& f : o.failures) failure_props(c, f.where, f.cls, f.msg, o.horizon_reached);  // reached: the failure came after the shutdown request
    auto run = [&](const char* props, void (*f)(Ctx&)) {
        oracle_props = props;
        try { f(c); }
        catch (const std::exception& e) {
            std::istringstream is(props);
            for (std::string p; is >> p;) c.v(p, "malformed output", std::string("the recorded history cannot be judged: ") + e.what());
        }
        oracle_props = nullptr;
    };
    if (s.stereo_only) {
        run("C14", check_stereo);
        return;
    }
    run("C01", check_progress);
    run("C02", check_chain);
    run("C11", check_shutdown);
    run("C03 C04", check_imu);
    run("C05", check_deskew);
    run("C17", check_cloud);
    run("C07", check_reg);
    run("C08", check_map);
    run(s.marg ? "C18" : "C06", check_opt);
    run("C10 C14", check_stereo);
    run("C09", check_baro);
    run("C15", check_tf);
    if (s.has_loss()) {
        c.cov("C13.checked");
        const auto vs = r.viol;
        for (auto& v : vs)
            for (const char* p : {"C01", "C02", "C03", "C05", "C06", "C09", "C10"})
                if (v.prop == p) r.add("C13", v.cls, v.msg);
    }
}
}  // namespace hs
