// C09 (barometer readings at the states) and C15 (base_link pose and TF).
#include <algorithm>

#include <geometry_msgs/PoseWithCovarianceStamped.h>

#include "serpent_orc.hpp"

namespace hs {
// ---------------------------------------------------------------- C09
void check_baro(Ctx& c) {
    auto out = c.pub("frontend/barometer");
    if (!c.s.baro) {
        if (!out.empty()) c.v("C09", "unexpected", fmt("%zu barometer readings published with the barometer disabled", out.size()));
        return;
    }
    struct R { Nanos t; double p, var; uint64_t seq; };
    std::vector<R> in;
    const bool over = c.par<bool>("barometer/noise/overwrite", false);
    const double ov = std::pow(c.par<double>("barometer/noise/barometer", 0.01), 2);
    for (const E* e : c.cb("input/barometer")) {
        const E* p = c.content(e);
        if (!p) continue;
        const auto& m = p->as<sensor_msgs::FluidPressure>();
        in.push_back({e->stamp, m.fluid_pressure, over ? ov : m.variance, e->seq});
    }
    // States whose scan was handed on; each asks for one reading
    std::vector<Nanos> ask;
    for (const E* e : c.pub("frontend/deskewed_pointcloud")) ask.push_back(e->stamp);
    size_t j = 0;
    for (const E* e : out) {
        c.cov("C09.checked");
        const auto& m = e->as<sensor_msgs::FluidPressure>();
        const Nanos t = e->stamp;
        if (j >= c.created.size() || t != c.created[j]) {
            c.v("C09", "stamp", fmt("barometer reading %zu is stamped %s, state %zu is at %s", j, c.T(t).c_str(), j, j < c.created.size() ? c.T(c.created[j]).c_str() : "-"));
            break;
        }
        ++j;
        // reference value
        auto it = std::find_if(in.begin(), in.end(), [&](const R& r) { return r.t > t; });
        if (it == in.end()) { c.v("C09", "value", fmt("reading for t=%s published although no reading after it was received", c.T(t).c_str())); continue; }
        if (it->seq > e->seq) { c.v("C09", "early", fmt("reading for t=%s published before a reading after it was received", c.T(t).c_str())); continue; }
        double p, var;
        if (it == in.begin()) { p = it->p; var = it->var; c.cov("C09.before_first"); }
        else {
            const R &a = *(it - 1), &b = *it;
            const double f = double(t - a.t) / double(b.t - a.t);
            p = a.p + f * (b.p - a.p);
            var = a.var + f * (b.var - a.var);
            c.cov("C09.interpolated");
        }
        if (!(std::abs(m.fluid_pressure - p) < 1e-4)) c.v("C09", "value", fmt("reading for t=%s is %.6f Pa, interpolation of the received readings gives %.6f", c.T(t).c_str(), m.fluid_pressure, p));
        if (!(std::abs(m.variance - var) < 1e-9 + 1e-6 * var)) c.v("C09", "variance", fmt("variance for t=%s is %.9f, expected %.9f", c.T(t).c_str(), m.variance, var));
    }
    if (c.complete) {
        size_t need = 0;
        for (Nanos t : ask) if (!in.empty() && in.back().t > t) ++need;
        if (out.size() < need) c.v("C09", "missing", fmt("%zu of %zu states for which later readings were received got a barometer value", out.size(), need));
        // the back end must have consumed every reading
        if (c.cb("frontend/barometer").size() + c.r.list(c.r.drop, "frontend/barometer").size() < out.size())
            c.v("C09", "not consumed", fmt("%zu readings published, %zu reached the optimiser", out.size(), c.cb("frontend/barometer").size()));
    }
}

// ---------------------------------------------------------------- C15
void check_tf(Ctx& c) {
    // static transforms
    std::map<std::string, const TfSent*> st;
    std::vector<const TfSent*> dyn;
    for (auto& t : c.r.tf) {
        if (t.is_static) st[t.tf.header.frame_id + ">" + t.tf.child_frame_id + "@" + t.proc] = &t;
        else dyn.push_back(&t);
    }
    for (auto& x : st) {
        const auto& tf = x.second->tf;
        // every sensor frame is checked where the scenario knows it relative to the body
        auto known = [&](const std::string& id, Iso& T) {
            if (id == c.body_id) { T = Iso::Identity(); return true; }
            if (id == c.lidar_id) { T = c.TBL; return true; }
            if (id == c.base_id && !c.s.base_dynamic) { T = c.s.base_mount(0); return true; }
            return false;
        };
        if (c.s.base_dynamic && (tf.child_frame_id == c.base_id || tf.header.frame_id == c.base_id))
            c.v("C15", "dynamic as static", fmt("dynamic frame %s was broadcast as static", tf.child_frame_id.c_str()));
        Iso A, B;
        if (known(tf.header.frame_id, A) && known(tf.child_frame_id, B)) {
            const Iso want = A.inverse() * B, got = iso(tf.transform);
            c.cov("C15.static");
            if (!(dtr(want, got) < 1e-6 && drot(want, got) < 1e-6)) c.v("C15", "static value", fmt("static transform %s is off by %.3g m %.3g", x.first.c_str(), dtr(want, got), drot(want, got)));
        }
    }
    auto po = c.pub("output/pose");
    size_t a = 0, b = 0;
    for (size_t k = 0; k < c.states.size(); ++k) {
        const State& x = c.states[k];
        const bool is_body = c.base_id == c.body_id;
        // may the lookup fail?
        bool may_fail = false;
        if (c.s.base_dynamic && !is_body)
            for (auto& f : c.s.faults)
                if (f.on && f.kind == "tf" && !(c.s.rel(x.adt1) < f.t0 - 1e-6 || c.s.rel(x.adt0) > f.t1 + 1e-6)) may_fail = true;
        const Iso want = x.pose * (is_body ? Iso(Iso::Identity()) : c.s.base_mount(x.t));
        const bool settled = x.ad0 && x.ad1 != UINT64_MAX;
        // TF
        if (a < dyn.size() && ns(dyn[a]->tf.header.stamp) == x.t) {
            const auto& tf = dyn[a]->tf;
            ++a;
            c.cov("C15.tf");
            if (!x.ad0) c.v("C15", "early", fmt("TF for t=%s broadcast before the state was received", c.T(x.t).c_str()));
            if (tf.header.frame_id != c.map_id || tf.child_frame_id != c.base_id) c.v("C15", "tf frames", tf.header.frame_id + " -> " + tf.child_frame_id);
            const Iso got = iso(tf.transform);
            if (!(dtr(want, got) < 1e-6 && drot(want, got) < 1e-6)) c.v("C15", "tf value", fmt("TF of state %zu is off by %.3g m %.3g", k, dtr(want, got), drot(want, got)));
        } else if (settled && !may_fail && !c.cut && c.o.failures.empty())
            c.v("C15", "tf missing", fmt("no TF for adopted state %zu (t=%s)", k, c.T(x.t).c_str()));
        else if (may_fail) c.cov("C15.lookup_failed");
        if (b < po.size() && po[b]->stamp == x.t) {
            const auto& m = po[b]->as<geometry_msgs::PoseWithCovarianceStamped>();
            ++b;
            c.cov("C15.pose");
            if (!is_body) c.cov(c.s.base_dynamic ? "C15.dynamic_base" : "C15.mounted_base");
            if (m.header.frame_id != c.map_id) c.v("C15", "pose frame", m.header.frame_id);
            const Iso got = iso(m.pose.pose);
            if (!(dtr(want, got) < 1e-6 && drot(want, got) < 1e-6)) c.v("C15", "pose value", fmt("output pose of state %zu is off by %.3g m %.3g", k, dtr(want, got), drot(want, got)));
            // covariance: that of the optimised pose, expressed at base_link
            Eigen::Matrix<double, 6, 6> S, G, P = Eigen::Matrix<double, 6, 6>::Zero();
            P.block<3, 3>(0, 3).setIdentity();
            P.block<3, 3>(3, 0).setIdentity();  // ROS (t, r) <-> (r, t)
            const auto& om = x.odom->as<nav_msgs::Odometry>();
            for (int i = 0; i < 36; ++i) { S(i / 6, i % 6) = om.pose.covariance[i]; G(i / 6, i % 6) = m.pose.covariance[i]; }
            const Eigen::Matrix<double, 6, 6> Ad = gp(is_body ? Iso(Iso::Identity()) : c.s.base_mount(x.t)).inverse().AdjointMap();
            const Eigen::Matrix<double, 6, 6> W = P * Ad * P * S * P * Ad.transpose() * P;
            if (!((W - G).cwiseAbs().maxCoeff() <= 1e-6 * W.cwiseAbs().maxCoeff() + 1e-18)) c.v("C15", "pose covariance", fmt("covariance of output pose %zu is off by %.3g of %.3g", k, (W - G).cwiseAbs().maxCoeff(), W.cwiseAbs().maxCoeff()));
        } else if (settled && !may_fail && !c.cut && c.o.failures.empty())
            c.v("C15", "pose missing", fmt("no output pose for adopted state %zu (t=%s)", k, c.T(x.t).c_str()));
    }
    if (a < dyn.size()) c.v("C15", "tf extra", fmt("TF broadcast for t=%s does not belong to the next adopted state", c.T(ns(dyn[a]->tf.header.stamp)).c_str()));
    if (b < po.size()) c.v("C15", "pose extra", fmt("output pose for t=%s does not belong to the next adopted state", c.T(po[b]->stamp).c_str()));
    if (c.complete && !c.states.empty()) {
        size_t adopted = 0;
        for (auto& x : c.states) adopted += x.ad0 != 0;
        if (adopted < c.states.size()) c.v("C15", "not adopted", fmt("%zu of %zu optimised states were adopted by the front end", adopted, c.states.size()));
    }
}
}  // namespace hs
