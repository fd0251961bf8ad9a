// C07: registration pairing.  C08: map content.
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>

#include "serpent_orc.hpp"
#include "sim_registration.hpp"

namespace sim { extern std::deque<AlignRecord> align_records; }

namespace hs {
static bool same_xyz(const std::vector<float>& a, const Cloud& c) {
    if (a.size() != 3 * c.n) return false;
    const auto &x = c.f.at("x"), &y = c.f.at("y"), &z = c.f.at("z");
    for (size_t i = 0; i < c.n; ++i) if (std::abs(a[3 * i] - x[i]) > 1e-5 || std::abs(a[3 * i + 1] - y[i]) > 1e-5 || std::abs(a[3 * i + 2] - z[i]) > 1e-5) return false;
    return true;
}
static Iso iso4(const Eigen::Matrix4f& m) { Iso T; T.matrix() = m.cast<double>(); return T; }

// ---------------------------------------------------------------- C07
void check_reg(Ctx& c) {
    if (!c.s.reg) return;
    auto out = c.pub("registration/transform");
    auto cl = c.pub("normal_estimation/pointcloud");
    auto lm = c.pub("mapping/local_map");
    auto it = c.pub("optimisation/imu_transform");
    // Each processed scan after the first, with its prediction, gives one measurement
    const size_t n = out.size();
    if (c.complete) {
        size_t want = std::min(cl.size(), it.size());
        want = want ? want - 1 : 0;
        if (c.s.s2m) want = std::min(want, lm.size());
        if (n != want) c.v("C07", "count", fmt("%zu registration measurements, %zu consecutive pairs", n, want));
    }
    std::vector<Cloud> clouds;
    for (auto* e : cl) clouds.push_back(decode(e->as<pcl::PCLPointCloud2>()));
    // alignments in order of execution, split by registration object
    std::vector<const sim::AlignRecord*> s2s, s2m;
    const void *o0 = nullptr, *o1 = nullptr;
    for (auto& r : sim::align_records) {
        if (!o0) o0 = r.self;
        if (r.self == o0) s2s.push_back(&r);
        else { if (!o1) o1 = r.self; if (r.self == o1) s2m.push_back(&r); else c.v("C07", "third aligner", "more than two registration objects"); }
    }
    for (size_t k = 0; k < s2s.size(); ++k) {
        const auto& r = *s2s[k];
        if (k + 1 >= clouds.size()) { c.v("C07", "extra alignment", fmt("%zu scan-to-scan alignments of %zu scans", s2s.size(), clouds.size())); break; }
        if (!same_xyz(r.source, clouds[k + 1])) { c.v("C07", "s2s source", fmt("scan-to-scan alignment %zu does not align scan %zu", k, k + 1)); break; }
        if (!same_xyz(r.target, clouds[k])) { c.v("C07", "s2s target", fmt("scan %zu was not aligned to scan %zu", k + 1, k)); break; }
        if (k + 1 < it.size()) {
            const Iso g = iso(it[k + 1]->as<geometry_msgs::TransformStamped>().transform), a = iso4(r.guess);
            if (!(dtr(g, a) < 1e-4 && drot(g, a) < 1e-4)) c.v("C07", "s2s guess", fmt("alignment of scan %zu does not start from its inertial prediction (%.3g m, %.3g)", k + 1, dtr(g, a), drot(g, a)));
        }
        c.cov("C07.s2s");
    }
    if (c.s.s2m) {
        for (size_t k = 0; k < s2m.size(); ++k) {
            const auto& r = *s2m[k];
            if (k + 1 >= clouds.size() || k >= lm.size()) { c.v("C07", "extra s2m", fmt("%zu scan-to-map alignments", s2m.size())); break; }
            if (!same_xyz(r.source, clouds[k + 1])) { c.v("C07", "s2m source", fmt("scan-to-map alignment %zu does not align scan %zu", k, k + 1)); break; }
            if (!same_xyz(r.target, decode(lm[k]->as<pcl::PCLPointCloud2>()))) { c.v("C07", "s2m target", fmt("scan %zu was not aligned to the map as of scan %zu", k + 1, k)); break; }
            if (lm[k]->stamp != cl[k]->stamp) c.v("C07", "s2m target stamp", fmt("scan %zu was aligned to the map of t=%s, scan %zu is at %s", k + 1, c.T(lm[k]->stamp).c_str(), k, c.T(cl[k]->stamp).c_str()));
            if (k < s2s.size()) {
                const Iso g = iso4(s2s[k]->result), a = iso4(r.guess);
                if (!(dtr(g, a) < 1e-4 && drot(g, a) < 1e-4)) c.v("C07", "s2m guess", fmt("map alignment of scan %zu does not start from its scan alignment", k + 1));
            }
            c.cov("C07.s2m");
        }
    } else if (!s2m.empty()) c.v("C07", "unexpected s2m", "a second registration object was used");
    const auto& fin = c.s.s2m ? s2m : s2s;
    for (size_t k = 0; k < n; ++k) {
        const auto& m = out[k]->as<geometry_msgs::PoseWithCovarianceStamped>();
        if (k + 1 < cl.size() && out[k]->stamp != cl[k + 1]->stamp) { c.v("C07", "stamp", fmt("measurement %zu has stamp %s, its scan %s", k, c.T(out[k]->stamp).c_str(), c.T(cl[k + 1]->stamp).c_str())); break; }
        if (k + 1 < c.created.size() && out[k]->stamp != c.created[k + 1]) { c.v("C07", "stamp", fmt("measurement %zu has stamp %s, state %zu is at %s", k, c.T(out[k]->stamp).c_str(), k + 1, c.T(c.created[k + 1]).c_str())); break; }
        if (k >= fin.size()) { c.v("C07", "no alignment", fmt("measurement %zu without an alignment", k)); break; }
        const Iso w = c.TBL * iso4(fin[k]->result) * c.TBL.inverse(), g = iso(m.pose.pose);
        if (!(dtr(w, g) < 1e-4 && drot(w, g) < 1e-4)) c.v("C07", "value", fmt("measurement %zu is not its alignment's result in the body frame (%.3g m, %.3g)", k, dtr(w, g), drot(w, g)));
        Eigen::Matrix<double, 6, 6> C;
        for (int i = 0; i < 36; ++i) C(i / 6, i % 6) = m.pose.covariance[i];
        if (!C.allFinite()) c.v("C07", "covariance", fmt("covariance of measurement %zu is not finite", k));
        if (c.par<std::string>("registration_covariance/method", "CENSI") == "CONSTANT") {
            const double sr = c.par<double>("registration_covariance/constant/rotation", 0.0174533), stt = c.par<double>("registration_covariance/constant/translation", 1e-2);
            Eigen::Matrix<double, 6, 6> L = Eigen::Matrix<double, 6, 6>::Zero();
            L.topLeftCorner<3, 3>().diagonal().setConstant(sr * sr);
            L.bottomRightCorner<3, 3>().diagonal().setConstant(stt * stt);
            const Eigen::Matrix<double, 6, 6> A = gp(c.TBL).AdjointMap();
            const Eigen::Matrix<double, 6, 6> B = A * L * A.transpose();  // (rotation, translation)
            Eigen::Matrix<double, 6, 6> R;                                  // ROS order (translation, rotation)
            R << B.bottomRightCorner<3, 3>(), B.bottomLeftCorner<3, 3>(), B.topRightCorner<3, 3>(), B.topLeftCorner<3, 3>();
            if (!((R - C).norm() < 1e-6 * (1e-6 + R.norm()))) c.v("C07", "covariance", fmt("covariance of measurement %zu is not the configured one in the body frame", k));
            c.cov("C07.covariance");
        }
        c.cov("C07.checked");
    }
}

// ---------------------------------------------------------------- C08
struct KeyScan { Nanos t; Iso T; size_t cloud; };
struct P { V3 p, n; };
static std::vector<P> pts(const Cloud& c) {
    std::vector<P> r(c.n);
    const bool nn = c.has("normal_x");
    for (size_t i = 0; i < c.n; ++i) {
        r[i].p = V3(c.f.at("x")[i], c.f.at("y")[i], c.f.at("z")[i]);
        r[i].n = nn ? V3(c.f.at("normal_x")[i], c.f.at("normal_y")[i], c.f.at("normal_z")[i]) : V3::Zero();
    }
    return r;
}
static std::vector<P> moved(const std::vector<P>& a, const Iso& T) {
    std::vector<P> r = a;
    for (auto& x : r) { x.p = T * x.p; x.n = T.linear() * x.n; }
    return r;
}
// Compares a published (possibly voxel-averaged) cloud with the expected union of points. Empty string: equal.
static std::string compare(const std::vector<P>& want, const std::vector<P>& got, double leaf, size_t least = 1) {
    const double tol = 2e-4;
    if (leaf <= 0) {
        if (want.size() != got.size()) return fmt("%zu points, %zu expected", got.size(), want.size());
        double worst = 0, wn = 0;
        bool ordered = true;
        for (size_t i = 0; i < want.size(); ++i) {
            worst = std::max(worst, (want[i].p - got[i].p).norm());
            const double d = (want[i].n - got[i].n).norm();
            if (d == d) wn = std::max(wn, d);
        }
        if (worst < tol && wn < 1e-3) return "";
        ordered = worst < tol;
        if (ordered) return fmt("normals differ by up to %.3g", wn);
        // any order
        std::vector<char> used(got.size(), 0);
        double far = 0;
        for (auto& w : want) {
            size_t b = got.size();
            double bd = 1e300;
            for (size_t j = 0; j < got.size(); ++j) if (!used[j]) { const double d = (got[j].p - w.p).norm(); if (d < bd) { bd = d; b = j; } }
            if (b == got.size()) return "points missing";
            used[b] = 1;
            far = std::max(far, bd);
        }
        return far < tol ? "" : fmt("points up to %.3g m from where they belong", far);
    }
    std::map<std::array<long, 3>, std::vector<size_t>> g;
    std::set<std::array<long, 3>> amb;
    const double e = tol / leaf;
    for (size_t i = 0; i < want.size(); ++i) {
        std::array<long, 3> key, lo, hi;
        bool edge = false;
        for (int d = 0; d < 3; ++d) {
            const double u = want[i].p[d] / leaf;
            key[d] = long(std::floor(u)); lo[d] = long(std::floor(u - e)); hi[d] = long(std::floor(u + e));
            edge = edge || lo[d] != hi[d];
        }
        g[key].push_back(i);
        if (edge) for (long a = lo[0]; a <= hi[0]; ++a) for (long b = lo[1]; b <= hi[1]; ++b) for (long q = lo[2]; q <= hi[2]; ++q) amb.insert({a, b, q});
    }
    size_t missing = 0, checked = 0;
    for (auto it = g.begin(); it != g.end();) it = it->second.size() < least && !amb.count(it->first) ? g.erase(it) : std::next(it);
    for (auto& x : g) {
        if (amb.count(x.first)) continue;
        V3 m = V3::Zero();
        for (size_t i : x.second) m += want[i].p;
        m /= double(x.second.size());
        double bd = 1e300;
        for (auto& q : got) bd = std::min(bd, (q.p - m).norm());
        ++checked;
        if (!(bd < 2 * tol)) ++missing;
    }
    if (missing) return fmt("%zu of %zu voxel averages are not in the map", missing, checked);
    if (got.size() > g.size() + amb.size()) return fmt("%zu points for %zu voxels", got.size(), g.size());
    if (got.size() + amb.size() < g.size()) return fmt("%zu points for %zu voxels", got.size(), g.size());
    return "";
}
void check_map(Ctx& c) {
    if (!c.s.reg) return;
    auto lm = c.pub("mapping/local_map"), ch = c.pub("optimisation/path_changes"), cl = c.pub("normal_estimation/pointcloud");
    // Map updates pair scan k with the path of state k
    const size_t n = std::min(ch.size(), cl.size());
    if (c.complete && lm.size() != n) c.v("C08", "count", fmt("%zu local maps after %zu scans with paths", lm.size(), n));
    const double thr_d = c.par<double>("mapping/distance_threshold", 1), thr_r = c.par<double>("mapping/rotation_threshold", M_PI / 6);
    const size_t num = size_t(c.par<int>("mapping/frame_extraction_number", 10));
    const bool past = c.par<std::string>("mapping/frame_extraction_method", "NEARBY") == "PAST";
    const double leaf_l = c.par<bool>("mapping/voxel_grid_filter/enabled_local", true) ? c.par<double>("mapping/voxel_grid_filter/leaf_size", 0.05) : 0;
    const double leaf_g = c.par<bool>("mapping/voxel_grid_filter/enabled_global", true) ? c.par<double>("mapping/voxel_grid_filter/leaf_size", 0.05) : 0;
    const size_t least = size_t(c.par<double>("mapping/voxel_grid_filter/minimum_points_number_per_voxel", 1));
    std::vector<std::vector<P>> clouds;
    for (auto* e : cl) clouds.push_back(pts(decode(e->as<pcl::PCLPointCloud2>())));
    std::vector<std::vector<KeyScan>> hist;  // key scans after each update
    std::vector<KeyScan> keys;
    size_t valid = 0;  // updates for which the set of key scans is certain
    for (size_t k = 0; k < n; ++k) {
        if (cl[k]->stamp != ch[k]->stamp) break;
        std::map<Nanos, Iso> pm;
        for (auto& x : ch[k]->as<nav_msgs::Path>().poses) pm[ns(x.header.stamp)] = iso(x.pose) * c.TBL;
        for (auto& y : keys) { auto f = pm.find(y.t); if (f != pm.end()) y.T = f->second; }
        auto f = pm.find(cl[k]->stamp);
        if (f == pm.end()) break;
        if (keys.empty()) keys.push_back({cl[k]->stamp, f->second, k});
        else {
            const double d = dtr(f->second, keys.back().T), a = Qd(f->second.linear()).angularDistance(Qd(keys.back().T.linear()));
            if (std::abs(d - thr_d) < 1e-6 || std::abs(a - thr_r) < 1e-5) break;
            if (d > thr_d || a > thr_r) keys.push_back({cl[k]->stamp, f->second, k});
        }
        hist.push_back(keys);
        ++valid;
        if (k >= lm.size()) continue;
        if (lm[k]->stamp != cl[k]->stamp) { c.v("C08", "local map stamp", fmt("local map %zu has stamp %s, scan %s", k, c.T(lm[k]->stamp).c_str(), c.T(cl[k]->stamp).c_str())); break; }
        const Iso L = f->second;
        std::vector<size_t> idx(keys.size());
        for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
        bool tie = false;
        const size_t take = std::min(num, keys.size());
        if (past) std::reverse(idx.begin(), idx.end());
        else {
            auto d2 = [&](size_t i) { return (keys[i].T.translation() - L.translation()).squaredNorm(); };
            std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return d2(a) < d2(b); });
            if (take < idx.size() && d2(idx[take]) - d2(idx[take - 1]) < 1e-5) tie = true;
        }
        if (tie) { c.cov("C08.tie"); continue; }
        std::vector<P> want;
        for (size_t i = 0; i < take; ++i) { auto m = moved(clouds[keys[idx[i]].cloud], L.inverse() * keys[idx[i]].T); want.insert(want.end(), m.begin(), m.end()); }
        const auto& lmm = lm[k]->as<pcl::PCLPointCloud2>();
        const std::string e = compare(want, pts(decode(lmm)), leaf_l, least);
        if (!e.empty()) c.v("C08", "local map content", fmt("local map of scan %zu (%zu of %zu key scans): %s", k, take, keys.size(), e.c_str()));
        if (lmm.header.frame_id != c.lidar_id) c.v("C08", "local map frame", lmm.header.frame_id);
        c.cov("C08.local_maps");
        if (take < keys.size()) c.cov("C08.selected");
    }
    c.cov("C08.key_scans", keys.size());
    // Requested maps: the key scans as of the newest update whose local map was out, or as of the update under way
    auto cp = c.cb("optimisation/path_changes");
    auto candidates = [&](uint64_t q) {
        std::vector<size_t> r;  // number of updates applied
        size_t done = 0;
        while (done < lm.size() && lm[done]->seq < q) ++done;
        r.push_back(done);
        if (done < cp.size() && cp[done]->seq < q && done < valid) r.push_back(done + 1);
        return r;
    };
    for (const E* e : c.pub("output/global_map")) {
        std::string why;
        bool ok = false, skip = false;
        for (size_t u : candidates(e->seq)) {
            if (u > hist.size()) { skip = true; continue; }
            std::vector<P> want;
            if (u) for (auto& y : hist[u - 1]) { auto m = moved(clouds[y.cloud], y.T); want.insert(want.end(), m.begin(), m.end()); }
            const std::string w = compare(want, pts(decode(e->as<pcl::PCLPointCloud2>())), leaf_g, least);
            if (w.empty()) { ok = true; break; }
            why += fmt(" [after %zu updates: %s]", u, w.c_str());
        }
        if (!ok && !skip) c.v("C08", "global map", "requested map is not the current key scans at their newest poses:" + why);
        if (ok && e->as<pcl::PCLPointCloud2>().width && e->as<pcl::PCLPointCloud2>().header.frame_id != c.map_id) c.v("C08", "global map frame", e->as<pcl::PCLPointCloud2>().header.frame_id);
        c.cov("C08.global_maps");
    }
    for (const E* e : c.pub("output/pose_graph")) {
        const auto& m = e->as<serpent::PoseGraph>();
        std::string why;
        bool ok = false, skip = false;
        for (size_t u : candidates(e->seq)) {
            if (u > hist.size()) { skip = true; continue; }
            const std::vector<KeyScan> ks = u ? hist[u - 1] : std::vector<KeyScan>();
            std::string w;
            if (m.clouds.size() != ks.size() || m.poses.size() != ks.size()) w = fmt("%zu clouds, %zu poses, %zu key scans", m.clouds.size(), m.poses.size(), ks.size());
            for (size_t i = 0; i < ks.size() && w.empty(); ++i) {
                const Iso T = iso(m.poses[i].pose.pose);
                if (ns(m.poses[i].header.stamp) != ks[i].t) w = fmt("pose %zu has stamp %s, key scan %s", i, c.T(ns(m.poses[i].header.stamp)).c_str(), c.T(ks[i].t).c_str());
                else if (!(dtr(T, ks[i].T) < 1e-6 && drot(T, ks[i].T) < 1e-6)) w = fmt("pose %zu is %.3g m, %.3g from the newest estimate", i, dtr(T, ks[i].T), drot(T, ks[i].T));
                else w = compare(clouds[ks[i].cloud], pts(decode(m.clouds[i])), 0);
            }
            if (w.empty()) { ok = true; break; }
            why += fmt(" [after %zu updates: %s]", u, w.c_str());
        }
        if (!ok && !skip) c.v("C08", "pose graph", "requested pose graph is not the current key scans at their newest poses:" + why);
        c.cov("C08.pose_graphs");
    }
}
}  // namespace hs
