// C10 (stereo frames and states) and C14 (track identities).
#include <algorithm>

#include "serpent_cv.hpp"
#include "serpent_orc.hpp"

namespace hs {
static void check_frames(Ctx& c) {
    const char* tp[4] = {"left/image", "right/image", "left/camera_info", "right/camera_info"};
    // inputs by microsecond stamp
    std::map<Nanos, const E*> in[4];
    for (int i = 0; i < 4; ++i) for (const E* e : c.pub(std::string("input/stereo/") + tp[i])) in[i][us(e->stamp)] = e;
    std::vector<Nanos> pub[4];
    for (int i = 0; i < 4; ++i) {
        Nanos last = -1;
        for (const E* e : c.pub(std::string("stereo/") + tp[i])) {
            const Nanos t = e->stamp;
            pub[i].push_back(t);
            if (t <= last) c.v("C10", "frame repeated", fmt("%s at t=%s republished after t=%s", tp[i], c.T(t).c_str(), c.T(last).c_str()));
            last = t;
            auto it = in[i].find(t);
            if (it == in[i].end()) { c.v("C10", "frame stamp", fmt("%s republished with stamp t=%s, which no frame has", tp[i], c.T(t).c_str())); continue; }
            c.cov("C10.frames");
            if (i < 2) { if (e->aux != it->second->aux) c.v("C10", "frame content", fmt("%s republished at t=%s differs from the frame received", tp[i], c.T(t).c_str())); }
            else {
                const auto &a = e->as<sensor_msgs::CameraInfo>(), &b = it->second->as<sensor_msgs::CameraInfo>();
                if (!(a.K == b.K && a.P == b.P)) c.v("C10", "frame content", fmt("%s republished at t=%s differs from the one received", tp[i], c.T(t).c_str()));
            }
        }
    }
    const bool settled = c.complete;
    for (int i = 1; i < 4; ++i)
        if (settled ? pub[i] != pub[0] : !std::equal(pub[i].begin(), pub[i].end(), pub[0].begin(), pub[0].begin() + std::min(pub[0].size(), pub[i].size())))
            c.v("C10", "frame parts", fmt("frames republished on %s differ from those on %s", tp[i], tp[0]));
    if (!c.s.only_graph) {
        if (settled && pub[0] != c.frames) c.v("C10", "frame lost", fmt("%zu complete frames received, %zu republished", c.frames.size(), pub[0].size()));
    } else {
        // only frames that a state could use: the first one at or after the start of some scan; and all that a state uses
        for (Nanos t : pub[0]) {
            bool ok = false;
            for (auto& sc : c.scans) {
                auto it = std::find_if(c.frames.begin(), c.frames.end(), [&](Nanos f) { return f >= sc.t; });
                if (it != c.frames.end() && *it == t) ok = true;
            }
            if (!ok) c.v("C10", "frame not selected", fmt("frame at t=%s was republished but no scan selects it", c.T(t).c_str()));
        }
        if (settled)
            for (Nanos t : c.created)
                if (std::find(c.frames.begin(), c.frames.end(), t) != c.frames.end() && std::find(pub[0].begin(), pub[0].end(), t) == pub[0].end())
                    c.v("C10", "graph frame lost", fmt("the frame of the state at t=%s was not republished", c.T(t).c_str()));
    }
    // tracker output: one list of features per synchronised frame, stamped alike
    std::vector<Nanos> sy, fe;
    for (const E* e : c.r.list(c.r.sync, "stereo/left/image")) sy.push_back(e->stamp);
    for (const E* e : c.pub("stereo/features")) {
        fe.push_back(e->stamp);
        const auto& m = e->as<serpent::StereoFeatures>();
        for (int i = 2; i < 4; ++i) {
            auto it = in[i].find(e->stamp);
            if (it == in[i].end()) continue;
            const auto& b = it->second->as<sensor_msgs::CameraInfo>();
            const auto& a = i == 2 ? m.left_info : m.right_info;
            if (!(a.K == b.K && a.P == b.P)) c.v("C10", "features camera", fmt("features at t=%s carry another camera model", c.T(e->stamp).c_str()));
        }
    }
    if (settled ? fe != sy : !(fe.size() <= sy.size() && std::equal(fe.begin(), fe.end(), sy.begin())))
        c.v("C10", "features", fmt("%zu frames reached the tracker, %zu feature lists were published (or stamps differ)", sy.size(), fe.size()));
    // no frame serves two states
    for (size_t k = 1; k < c.created.size(); ++k)
        if (c.created[k] <= c.created[k - 1]) c.v("C10", "frame reused", fmt("states %zu and %zu are both at t=%s", k - 1, k, c.T(c.created[k]).c_str()));
}

static void check_tracks(Ctx& c) {
    std::map<Nanos, const StereoFrame*> fr;
    for (auto& f : c.s.frames) fr[us(f.stamp)] = &f;
    const bool df = c.par<bool>("stereo_tracking/stereo_distance_filter/enabled", false);
    const double dmax = c.par<double>("stereo_tracking/stereo_distance_filter/max_distance", 1e9), dmin = c.par<double>("stereo_tracking/stereo_distance_filter/min_distance", 0);
    const bool mask = c.par<bool>("stereo_mask/enabled", false);
    const int mx = c.par<int>("stereo_mask/top_left_x", 0), my = c.par<int>("stereo_mask/top_left_y", 0), mw = c.par<int>("stereo_mask/width", 0), mh = c.par<int>("stereo_mask/height", 0);
    std::map<int64_t, int> owner;     // id -> landmark, for ever
    std::map<int64_t, int> alive;     // tracks of the previous list
    for (const E* e : c.pub("stereo/features")) {
        const auto& m = e->as<serpent::StereoFeatures>();
        auto fi = fr.find(e->stamp);
        if (fi == fr.end()) continue;  // judged by C10
        const StereoFrame& f = *fi->second;
        std::map<int64_t, int> now;
        std::set<int> seen;
        c.cov("C14.lists");
        for (auto& ft : m.features) {
            c.cov("C14.features");
            const std::string at = fmt("t=%s id %ld", c.T(e->stamp).c_str(), long(ft.id));
            if (now.count(ft.id)) { c.v("C14", "id twice", at + " appears twice in one list"); continue; }
            int j = -1;
            for (auto& [k, q] : f.px)
                if (std::abs(q[0] - ft.left_x) < 0.01 && std::abs(q[2] - ft.left_y) < 0.01) j = k;
            if (j < 0) { c.v("C14", "not on a point", at + fmt(": left (%.2f %.2f) is no point of the frame", ft.left_x, ft.left_y)); now[ft.id] = -1; continue; }
            const V3& q = f.px.at(j);
            if (!(std::abs(q[1] - ft.right_x) < 0.01 && std::abs(q[2] - ft.right_y) < 0.01))
                c.v("C14", "mismatched pair", at + fmt(": left is point %d but right (%.2f %.2f) is not (%.2f %.2f)", j, ft.right_x, ft.right_y, q[1], q[2]));
            if (!seen.insert(j).second) c.v("C14", "point twice", at + fmt(": point %d has two ids in one list", j));
            now[ft.id] = j;
            auto ow = owner.find(ft.id);
            if (ow == owner.end()) {
                c.cov("C14.new");
                auto inside = [&](double u) { return int(u) >= mx && int(u) < mx + mw && int(q[2]) >= my && int(q[2]) < my + mh; };
                if (mask && !(inside(q[0]) && inside(q[1]))) c.v("C14", "outside mask", at + " was detected outside the region of interest");
            }
            else if (ow->second != j) c.v("C14", "swapped", at + fmt(" was point %d, is now point %d", ow->second, j));
            else if (!alive.count(ft.id)) c.v("C14", "resurrected", at + " had ended");
            else c.cov("C14.continued");
            if (df) {
                const double depth = c.s.fx * c.s.baseline / (q[0] - q[1]);
                if (depth > dmax * 1.0001 || depth < dmin * 0.9999) c.v("C14", "distance", at + fmt(" has depth %.3f outside [%.3f, %.3f]", depth, dmin, dmax));
            }
        }
        // a track found again in both images goes on
        for (auto& [id, j] : alive) {
            if (j < 0 || !f.px.count(j)) continue;
            const V3& q = f.px.at(j);
            const double depth = c.s.fx * c.s.baseline / (q[0] - q[1]);
            const bool lost = flow_lost(f.index, 0, j) || flow_lost(f.index, 1, j), off = flow_err(f.index, j), far = df && (depth > dmax * 0.9999 || depth < dmin * 1.0001);
            if (!lost && !off && !far && !now.count(id)) c.v("C14", "track dropped", fmt("t=%s id %ld (point %d) was found again in both images but ended", c.T(e->stamp).c_str(), long(id), j));
            if ((lost || off) && now.count(id)) c.v("C14", "lost track continued", fmt("t=%s id %ld continues although the point was lost", c.T(e->stamp).c_str(), long(id)));
            if (lost || off) c.cov("C14.lost");
        }
        for (auto& [id, j] : now) if (!owner.count(id)) owner[id] = j;
        alive = now;
    }
}
void check_match(Ctx& c);
// the stereo pipeline alone: one list per synchronised frame, and the tracker against its reference
static void check_stereo_only(Ctx& c) {
    std::vector<Nanos> sy, fe;
    for (const E* e : c.r.list(c.r.sync, "stereo/left/image")) sy.push_back(e->stamp);
    for (const E* e : c.pub("stereo/features")) fe.push_back(e->stamp);
    const bool settled = c.o.horizon_reached && c.o.failures.empty();
    if (settled ? fe != sy : !(fe.size() <= sy.size() && std::equal(fe.begin(), fe.end(), sy.begin())))
        c.v("C14", "lists", fmt("%zu frames reached the tracker, %zu feature lists were published (or stamps differ)", sy.size(), fe.size()));
    check_match(c);
}
void check_stereo(Ctx& c) {
    if (c.s.stereo_only) { check_stereo_only(c); return; }
    if (!c.s.stereo) {
        if (!c.pub("stereo/features").empty() || !c.pub("stereo/left/image").empty()) c.v("C10", "unexpected", "stereo data published with stereo disabled");
        return;
    }
    check_frames(c);
    check_tracks(c);
    check_match(c);
}
}  // namespace hs
