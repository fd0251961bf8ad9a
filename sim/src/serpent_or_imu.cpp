// C03: conservation of IMU data between states.  C04: IMU-rate odometry.  C05: deskewing.
#include <algorithm>

#include "serpent_orc.hpp"

namespace hs {
static V3 diag(const boost::array<double, 9>& a) { return V3(a[0], a[4], a[8]); }

static void check_windows(Ctx& c) {
    auto w = c.pub("frontend/imu_s2s");
    auto init = c.pub("frontend/initial_odometry");
    auto tr = c.pub("optimisation/imu_transform");
    if (init.size() > 1) c.v("C03", "initialised twice", fmt("%zu initial states", init.size()));
    if (!w.empty() && init.empty()) { c.v("C03", "no initial state", "an IMU window without an initial state"); return; }
    Nanos prev = init.empty() ? 0 : init[0]->stamp;
    for (size_t k = 0; k < w.size(); ++k) {
        const auto& m = w[k]->as<serpent::ImuArray>();
        const Nanos a = ns(m.start_timestamp), b = ns(m.end_timestamp);
        if (a != prev) c.v("C03", "windows do not abut", fmt("window %zu starts at %s, the previous state is at %s", k, c.T(a).c_str(), c.T(prev).c_str()));
        if (b <= a) c.v("C03", "empty window", fmt("window %zu ends at %s, before its start", k, c.T(b).c_str()));
        prev = b;
        std::vector<const ImuS*> want;
        const ImuS* before = nullptr;
        for (auto& i : c.imu) {
            if (i.t <= a) before = &i;
            else if (i.t < b) want.push_back(&i);
        }
        if (before) want.insert(want.begin(), before);
        bool same = want.size() == m.measurements.size();
        std::string diff;
        for (size_t i = 0; i < std::min(want.size(), m.measurements.size()) && same; ++i)
            if (ns(m.measurements[i].header.stamp) != want[i]->t) { same = false; diff = fmt(" (measurement %zu is at %s instead of %s)", i, c.T(ns(m.measurements[i].header.stamp)).c_str(), c.T(want[i]->t).c_str()); }
        if (!same) c.v("C03", "measurements", fmt("window %zu [%s, %s] has %zu measurements, %zu received%s", k, c.T(a).c_str(), c.T(b).c_str(), m.measurements.size(), want.size(), diff.c_str()));
        else {
            for (size_t i = 0; i < want.size(); ++i) {
                const auto &x = m.measurements[i], &y = *want[i]->m;
                bool ok = (vec(x.linear_acceleration) - want[i]->acc).norm() < 1e-12 && (vec(x.angular_velocity) - want[i]->gyr).norm() < 1e-12;
                if (!ok) { c.v("C03", "measurement altered", fmt("measurement at %s in window %zu was altered", c.T(want[i]->t).c_str(), k)); break; }
                V3 ea = diag(y.linear_acceleration_covariance), eg = diag(y.angular_velocity_covariance);
                if (c.s.imu_overwrite) {
                    const double na = c.par<double>("imu/noise/accelerometer", 1e-3), ng = c.par<double>("imu/noise/gyroscope", 1e-3);
                    ea = V3::Constant(na * na);
                    eg = V3::Constant(ng * ng);
                }
                if ((diag(x.linear_acceleration_covariance) - ea).norm() > 1e-12 || (diag(x.angular_velocity_covariance) - eg).norm() > 1e-12)
                    c.v("C03", "covariance", fmt("covariance of the measurement at %s in window %zu", c.T(want[i]->t).c_str(), k));
                const Qd qx = quat(x.orientation), qy = quat(y.orientation);
                if ((qx.coeffs() - qy.coeffs()).norm() > 1e-9 && (qx.coeffs() + qy.coeffs()).norm() > 1e-9) c.v("C03", "orientation", fmt("orientation of the measurement at %s in window %zu", c.T(want[i]->t).c_str(), k));
            }
        }
        c.cov("C03.windows");
    }
    // Relative motion predicted over each window
    for (size_t k = 0; k < tr.size(); ++k) {
        const auto& m = tr[k]->as<geometry_msgs::TransformStamped>();
        if (k < c.created.size() && tr[k]->stamp != c.created[k]) { c.v("C03", "prediction stamp", fmt("prediction %zu has stamp %s, state %s", k, c.T(tr[k]->stamp).c_str(), c.T(c.created[k]).c_str())); break; }
        Iso want = Iso::Identity();
        if (k) {
            if (k - 1 >= c.states.size() || k >= c.created.size()) break;
            const State& x = c.states[k - 1];
            const gtsam::NavState e = c.forward(gtsam::NavState(gp(x.pose), x.vel), x.b, c.created[k - 1], c.created[k]);
            const Iso rel = x.pose.inverse() * iso(e.pose());
            want = c.TBL.inverse() * rel * c.TBL;
        }
        const Iso got = iso(m.transform);
        if (!(dtr(got, want) < 1e-6 && drot(got, want) < 1e-6))
            c.v("C03", "prediction", fmt("motion predicted for state %zu differs from integration of the received IMU data by %.3g m, %.3g", k, dtr(got, want), drot(got, want)));
        c.cov("C03.predictions");
    }
    if (c.complete && tr.size() != c.created.size()) c.v("C03", "prediction count", fmt("%zu predictions for %zu states", tr.size(), c.created.size()));
}

static void check_rate(Ctx& c) {
    auto out = c.pub("output/odometry");
    std::map<Nanos, std::vector<const E*>> by;
    for (size_t i = 0; i < out.size(); ++i) {
        by[out[i]->stamp].push_back(out[i]);
        if (i && out[i]->stamp <= out[i - 1]->stamp) c.v("C04", "order", fmt("IMU-rate odometry at %s follows %s", c.T(out[i]->stamp).c_str(), c.T(out[i - 1]->stamp).c_str()));
    }
    std::set<Nanos> imu_stamps;
    size_t lo = 0;  // newest state already used
    const size_t si = size_t(c.r.counters["shutdown_index"]);  // nothing can be published once shutdown was requested
    const uint64_t stop = si < c.r.ev.size() ? c.r.ev[si].seq : UINT64_MAX;
    const size_t n = c.states.size();
    for (size_t i = 0; i < c.imu.size(); ++i) {
        const ImuS& m = c.imu[i];
        imu_stamps.insert(m.t);
        const uint64_t s0 = m.start->seq, s1 = m.end ? m.end->seq : UINT64_MAX;
        int newest_before = -1;
        std::vector<size_t> cand;
        for (size_t k = 0; k < n; ++k) {
            const State& x = c.states[k];
            if (!x.ad0) continue;
            if (x.ad1 < s0) newest_before = int(k);
            else if (x.ad0 < s1) cand.push_back(k);
        }
        if (newest_before >= 0) cand.insert(cand.begin(), size_t(newest_before));
        auto it = by.find(m.t);
        const size_t cnt = it == by.end() ? 0 : it->second.size();
        if (cnt > 1) c.v("C04", "repeated", fmt("%zu IMU-rate odometry messages for the IMU message at %s", cnt, c.T(m.t).c_str()));
        if (!cnt) {
            if (newest_before >= 0 && m.end && m.end->seq < stop) c.v("C04", "missing", fmt("no IMU-rate odometry for the IMU message at %s though state %d was adopted", c.T(m.t).c_str(), newest_before));
            continue;
        }
        if (cand.empty()) { c.v("C04", "too early", fmt("IMU-rate odometry at %s before any state was adopted", c.T(m.t).c_str())); continue; }
        const auto& od = it->second[0]->as<nav_msgs::Odometry>();
        const Iso got = iso(od.pose.pose);
        const V3 gv = vec(od.twist.twist.linear), gw = vec(od.twist.twist.angular);
        std::string why;
        bool ok = false;
        for (size_t k : cand) {
            if (k < lo) continue;
            const State& x = c.states[k];
            gtsam::PreintegratedCombinedMeasurements p(c.pim, x.b);
            Nanos last = x.t;
            for (size_t j = 0; j <= i; ++j)
                if (c.imu[j].t > last) { p.integrateMeasurement(c.imu[j].acc, c.imu[j].gyr, double(c.imu[j].t - last) * 1e-9); last = c.imu[j].t; }
            const gtsam::NavState e = p.predict(gtsam::NavState(gp(x.pose), x.vel), x.b);
            const V3 w = c.TBI.linear() * (m.gyr - x.b.gyroscope());
            const double dp = dtr(got, iso(e.pose())), dr = drot(got, iso(e.pose())), dv = (gv - e.velocity()).norm(), dw = (gw - w).norm();
            if (dp < 2e-6 && dr < 2e-6 && dv < 2e-6 && dw < 1e-9) { ok = true; lo = k; break; }
            why += fmt(" [state %zu: position %.3g velocity %.3g rotation %.3g rate %.3g]", k, dp, dv, dr, dw);
        }
        if (!ok) c.v("C04", "wrong state", fmt("IMU-rate odometry at %s is not the extrapolation of the newest adopted state:%s", c.T(m.t).c_str(), why.c_str()));
        if (od.header.frame_id != c.map_id || od.child_frame_id != c.body_id) c.v("C04", "frame", "frames " + od.header.frame_id + " -> " + od.child_frame_id);
        c.cov("C04.checked");
        if (cand.size() > 1) c.cov("C04.concurrent_adoption");
    }
    for (const E* e : out) if (!imu_stamps.count(e->stamp)) c.v("C04", "stamp", fmt("IMU-rate odometry at %s: no such IMU message", c.T(e->stamp).c_str()));
}
void check_imu(Ctx& c) { check_windows(c); check_rate(c); }

// ---------------------------------------------------------------- C05
static Iso scaled(const Iso& T, double f) {
    Iso R = Iso::Identity();
    R.linear() = Qd::Identity().slerp(f, Qd(T.linear())).toRotationMatrix();
    R.translation() = T.translation() * f;
    return R;
}
void check_deskew(Ctx& c) {
    auto out = c.pub("frontend/deskewed_pointcloud");
    if (c.complete && out.size() != c.want.size()) c.v("C05", "count", fmt("%zu deskewed scans, %zu expected", out.size(), c.want.size()));
    for (size_t k = 0; k < out.size(); ++k) {
        const auto& m = out[k]->as<pcl::PCLPointCloud2>();
        if (k >= c.want.size() || c.skip + k >= c.scans.size()) { c.v("C05", "extra", fmt("%zu deskewed scans, %zu expected", out.size(), c.want.size())); break; }
        if (out[k]->stamp != c.want[k]) c.v("C05", "stamp", fmt("scan %zu is stamped %s, its state is at %s", k, c.T(out[k]->stamp).c_str(), c.T(c.want[k]).c_str()));
        if (k < c.created.size() && out[k]->stamp != c.created[k]) c.v("C05", "stamp", fmt("scan %zu is stamped %s, its state was created at %s", k, c.T(out[k]->stamp).c_str(), c.T(c.created[k]).c_str()));
        const Scan& sc = c.scans[c.skip + k];
        const Cloud d = decode(m);
        if (d.n != sc.c.n) { c.v("C05", "points", fmt("scan %zu has %zu points, %zu after deskewing", k, sc.c.n, d.n)); continue; }
        if (m.header.frame_id != c.lidar_id) c.v("C05", "frame", "frame " + m.header.frame_id);
        const size_t prev = k ? k - 1 : 0;
        if (prev >= c.states.size()) { c.v("C05", "state unknown", fmt("scan %zu deskewed before state %zu was optimised", k, prev)); break; }
        const State& x = c.states[prev];
        if (x.odom->seq > out[k]->seq) c.v("C05", "state unknown", fmt("scan %zu deskewed before state %zu was optimised", k, prev));
        gtsam::NavState st(gp(x.pose), x.vel);
        if (k) st = c.forward(st, x.b, x.t, sc.t);
        const gtsam::NavState en = c.forward(st, x.b, sc.t, sc.end);
        Iso skew = iso(st.pose()).inverse() * iso(en.pose());
        skew = c.TBL.inverse() * skew * c.TBL;
        if (sc.sweep <= 0) skew = Iso::Identity();
        if (!c.s.mdc_t) skew.translation().setZero();
        if (!c.s.mdc_r) skew.linear().setIdentity();
        const bool timed = sc.c.has("t") && sc.sweep > 0;
        Iso TNS = Iso::Identity();
        if (timed) TNS = scaled(skew, double(c.want[k] - sc.t) * 1e-9 / sc.sweep).inverse();
        const auto p = sc.c.xyz(), q = d.xyz();
        double worst = 0;
        size_t wi = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            const V3 e = timed ? V3(TNS * scaled(skew, sc.c.f.at("t")[i] / sc.sweep) * p[i]) : p[i];
            const double err = (e - q[i]).norm();
            if (!(err <= worst)) { worst = err; wi = i; }
        }
        if (!(worst < 3e-4)) c.v("C05", "points moved wrongly", fmt("scan %zu: point %zu (t=%.4f s) is %.3g m from where the LiDAR's motion puts it", k, wi, timed ? sc.c.f.at("t")[wi] : 0.0, worst));
        for (auto& f : sc.c.f) {
            if (f.first == "x" || f.first == "y" || f.first == "z" || f.first == "t") continue;
            auto it = d.f.find(f.first);
            if (it == d.f.end()) { c.v("C05", "field lost", "field " + f.first); continue; }
            for (size_t i = 0; i < d.n; ++i) if (std::abs(it->second[i] - f.second[i]) > 1e-6 * (1 + std::abs(f.second[i]))) { c.v("C05", "field changed", fmt("field %s of point %zu of scan %zu: %.6g -> %.6g", f.first.c_str(), i, k, f.second[i], it->second[i])); break; }
        }
        c.cov("C05.checked");
        if (timed) c.cov("C05.moved");
    }
}
}  // namespace hs
