// C17: point cloud processing stages.
#include <algorithm>
#include <cmath>

#include "serpent_orc.hpp"

namespace hs {
typedef std::vector<std::string> Names;
static bool same_point(const Cloud& a, size_t i, const Cloud& b, size_t j, const Names& f) {
    for (auto& n : f) {
        const double x = a.f.at(n)[i], y = b.f.at(n)[j];
        if (!(std::abs(x - y) <= 1e-6 * (1 + std::abs(x))) && !(std::isnan(x) && std::isnan(y))) return false;
    }
    return true;
}
// Position in the input of every output point (order preserved), or false if the output is not an ordered selection.
static bool selection(const Cloud& in, const Cloud& out, const Names& f, std::vector<int>& pos) {
    size_t i = 0;
    pos.clear();
    for (size_t j = 0; j < out.n; ++j) {
        while (i < in.n && !same_point(in, i, out, j, f)) ++i;
        if (i == in.n) return false;
        pos.push_back(int(i++));
    }
    return true;
}
struct Stage { std::string name, in, out; int kind; };

static void judge(Ctx& c, const Stage& st, size_t k, const pcl::PCLPointCloud2& im, const pcl::PCLPointCloud2& om) {
    const Cloud in = decode(im), out = decode(om);
    auto bad = [&](const std::string& cls, const std::string& msg) { c.v("C17", st.name + " " + cls, fmt("scan %zu: ", k) + msg); };
    Names f;
    for (auto& x : in.f) if (!x.first.empty() && x.first != "_") f.push_back(x.first);
    Names missing;
    if (st.kind != 6) {
        for (auto& n : f) if (!out.has(n)) { bad("field lost", n); return; }
    }
    if (!in.has("x") || !out.has("x")) { bad("field lost", "x"); return; }
    c.cov("C17." + st.name);
    if (st.kind == 1) {  // voxel grid
        const double leaf = c.par<double>("voxel_grid_filter/leaf_size", 0.1);
        const auto p = in.xyz(), q = out.xyz();
        std::map<std::array<long, 3>, std::vector<size_t>> g;
        std::set<std::array<long, 3>> amb;
        for (size_t i = 0; i < p.size(); ++i) {
            std::array<long, 3> key;
            bool edge = false;
            std::array<long, 3> lo, hi;
            for (int d = 0; d < 3; ++d) {
                const double u = p[i][d] / leaf;
                key[d] = long(std::floor(u));
                lo[d] = long(std::floor(u - 1e-4));
                hi[d] = long(std::floor(u + 1e-4));
                edge = edge || lo[d] != hi[d];
            }
            g[key].push_back(i);
            if (edge) for (long a = lo[0]; a <= hi[0]; ++a) for (long b = lo[1]; b <= hi[1]; ++b) for (long e = lo[2]; e <= hi[2]; ++e) amb.insert({a, b, e});
        }
        const double mpp = c.par<double>("voxel_grid_filter/minimum_points_number_per_voxel", 1);
        const size_t full = size_t(std::count_if(g.begin(), g.end(), [&](auto& x) { return x.second.size() >= size_t(mpp); }));
        if (mpp > 1) c.cov("C17.voxel_minimum");
        if (amb.empty() && out.n != full) bad("count", fmt("%zu voxels occupied, %zu points out", full, out.n));
        std::vector<char> used(out.n, 0);
        size_t loose = 0;
        for (auto& x : g) {
            if (amb.count(x.first)) { ++loose; continue; }
            if (x.second.size() < size_t(mpp)) continue;
            V3 m = V3::Zero();
            double r = 0;
            for (size_t i : x.second) { m += p[i]; if (in.has("range")) r += in.f.at("range")[i]; }
            m /= double(x.second.size());
            r /= double(x.second.size());
            size_t best = out.n;
            double bd = 1e-3;
            for (size_t j = 0; j < out.n; ++j) { const double d = (q[j] - m).norm(); if (d < bd) { bd = d; best = j; } }
            if (best == out.n) { bad("average", fmt("no output point at the mean of the %zu points of a voxel near (%.3f %.3f %.3f)", x.second.size(), m.x(), m.y(), m.z())); break; }
            used[best] = 1;
            if (in.has("range") && std::abs(out.f.at("range")[best] - r) > 1e-3 * (1 + r)) { bad("range average", fmt("%.4f instead of %.4f", out.f.at("range")[best], r)); break; }
        }
        size_t extra = 0;
        for (char u : used) extra += !u;
        if (extra > loose * 2 + amb.size()) bad("stray points", fmt("%zu output points are not voxel means", extra));
        return;
    }
    std::vector<int> pos;
    std::vector<char> kept(in.n, 0);
    if (st.kind == 5) {  // random sample: any selection without repetition
        std::vector<char> used(in.n, 0);
        for (size_t j = 0; j < out.n; ++j) {
            size_t i = 0;
            while (i < in.n && (used[i] || !same_point(in, i, out, j, f))) ++i;
            if (i == in.n) { bad("foreign point", fmt("output point %zu is not (or not once) among the input points", j)); return; }
            used[i] = 1;
        }
        const size_t want = std::min<size_t>(in.n, size_t(c.par<int>("random_sample_filter/sample_size", 3000)));
        if (out.n != want) bad("count", fmt("%zu points, %zu expected", out.n, want));
        return;
    }
    if (st.kind == 2 || st.kind == 3 || st.kind == 4) {
        if (!selection(in, out, f, pos)) { bad("not a selection", fmt("the %zu output points are not a selection of the %zu input points", out.n, in.n)); return; }
        for (int i : pos) kept[i] = 1;
        const auto p = in.xyz();
        std::vector<int> want(in.n, -1);  // -1: too close to call
        if (st.kind == 2) {
            Eigen::Vector3d lo, hi, tr, ro;
            const char* ax[] = {"x", "y", "z"};
            for (int d = 0; d < 3; ++d) {
                lo[d] = c.par<double>(std::string("body_filter/min/") + ax[d], 0);
                hi[d] = c.par<double>(std::string("body_filter/max/") + ax[d], 0);
                tr[d] = c.par<double>(std::string("body_filter/translation/") + ax[d], 0);
                ro[d] = c.par<double>(std::string("body_filter/rotation/r") + ax[d], 0);
            }
            const Eigen::Matrix3d R = (Eigen::AngleAxisd(ro[2], V3::UnitZ()) * Eigen::AngleAxisd(ro[1], V3::UnitY()) * Eigen::AngleAxisd(ro[0], V3::UnitX())).toRotationMatrix();
            for (size_t i = 0; i < in.n; ++i) {
                const V3 q = R.transpose() * (p[i] - tr);
                bool inside = true, edge = false;
                for (int d = 0; d < 3; ++d) {
                    inside = inside && q[d] > lo[d] && q[d] < hi[d];
                    edge = edge || std::abs(q[d] - lo[d]) < 1e-4 || std::abs(q[d] - hi[d]) < 1e-4;
                }
                if (!edge) want[i] = !inside;
            }
        } else if (st.kind == 3) {
            const double lo = c.par<double>("range_filter/min", 0), hi = c.par<double>("range_filter/max", 1e300);
            for (size_t i = 0; i < in.n; ++i) {
                const double r = in.f.at("range")[i];
                if (std::abs(r - lo) > 1e-5 && std::abs(r - hi) > 1e-5) want[i] = r >= lo && r <= hi;
            }
        } else {
            const int mk = c.par<int>("statistical_outlier_removal/mean_k", 1);
            const double mul = c.par<double>("statistical_outlier_removal/stddev_mul_thresh", 0);
            std::vector<double> dist(in.n, 0);
            double sum = 0, sq = 0;
            if (int(in.n) > mk + 1) {
                for (size_t i = 0; i < in.n; ++i) {
                    std::vector<double> d;
                    for (size_t j = 0; j < in.n; ++j) if (j != i) d.push_back((p[i] - p[j]).norm());
                    // PCL's filter on blobs counts the point itself among the mean_k neighbours
                    std::nth_element(d.begin(), d.begin() + mk - 1, d.end());
                    for (int a = 0; a < mk - 1; ++a) dist[i] += d[a];
                    dist[i] /= mk - 1;
                    sum += dist[i];
                    sq += dist[i] * dist[i];
                }
                const double n = double(in.n), mean = sum / n, var = (sq - sum * sum / n) / (n - 1), thr = mean + mul * std::sqrt(var);
                for (size_t i = 0; i < in.n; ++i) if (std::abs(dist[i] - thr) > 1e-3 * thr) want[i] = dist[i] <= thr;
            }
        }
        for (size_t i = 0; i < in.n; ++i)
            if (want[i] >= 0 && want[i] != kept[i]) { bad(want[i] ? "point lost" : "point kept", fmt("point %zu (%.3f %.3f %.3f)", i, p[i].x(), p[i].y(), p[i].z())); break; }
        return;
    }
    if (st.kind == 6 && c.par<std::string>("normal_estimation/method", "knn") == "radius") {  // points without a normal are left out
        const double radius = c.par<double>("normal_estimation/radius", 1.0);
        const auto p = in.xyz();
        std::vector<char> is(in.n, 0);
        Names g{"x", "y", "z"};
        if (!selection(in, out, g, pos)) { bad("not a selection", fmt("the %zu output points are not a selection of the %zu input points", out.n, in.n)); return; }
        for (int i : pos) is[i] = 1;
        for (size_t i = 0; i < in.n; ++i) {
            int sure = 0, maybe = 0;
            for (size_t j = 0; j < in.n; ++j) { const double d = (p[i] - p[j]).norm(); sure += d < radius - 1e-4; maybe += d < radius + 1e-4; }
            if (sure >= 3 ? !is[i] : maybe < 3 && is[i]) { bad(is[i] ? "point without a normal" : "point lost", fmt("point %zu with %d neighbours", i, sure)); return; }
            if (maybe < 3) c.cov("C17.no_normal");
        }
    }
    // one-to-one stages
    else if (out.n != in.n) { bad("count", fmt("%zu points in, %zu out", in.n, out.n)); return; }
    if (pos.empty()) for (size_t i = 0; i < in.n; ++i) pos.push_back(int(i));
    const auto p = in.xyz(), q = out.xyz();
    if (st.kind == 7) {  // unit vectors
        for (size_t i = 0; i < in.n; ++i) {
            if (!same_point(in, i, out, i, f)) { bad("point altered", fmt("point %zu", i)); break; }
            const V3 u(out.f.at("ux")[i], out.f.at("uy")[i], out.f.at("uz")[i]);
            if (p[i].norm() > 1e-6 && !((u - p[i].normalized()).norm() < 1e-5)) { bad("direction", fmt("point %zu", i)); break; }
        }
    } else if (st.kind == 6) {  // normals
        const bool unit = in.has("ux"), by_radius = c.par<std::string>("normal_estimation/method", "knn") == "radius";
        const double radius = c.par<double>("normal_estimation/radius", 1.0);
        int kk = std::min<int>(c.par<int>("normal_estimation/k", 30), int(in.n));
        const V3 vp(c.par<double>("normal_estimation/viewpoint/x", 0), c.par<double>("normal_estimation/viewpoint/y", 0), c.par<double>("normal_estimation/viewpoint/z", 0));
        for (size_t o = 0; o < out.n; ++o) {
            const size_t i = size_t(pos[o]);
            if (!((p[i] - q[o]).norm() < 1e-6)) { bad("point altered", fmt("point %zu", i)); break; }
            if (unit && !same_point(in, i, out, o, {"ux", "uy", "uz"})) { bad("direction", fmt("point %zu", i)); break; }
            std::vector<std::pair<double, size_t>> d;
            for (size_t j = 0; j < in.n; ++j) d.push_back({(p[i] - p[j]).norm(), j});
            std::sort(d.begin(), d.end());
            if (by_radius) {
                kk = 0;
                bool edge = false;
                for (auto& q : d) { edge = edge || std::abs(q.first - radius) < 1e-4; kk += q.first <= radius; }
                if (edge) continue;
                c.cov("C17.normals_by_radius");
            }
            else if (int(in.n) > kk && d[kk].first - d[kk - 1].first < 1e-3) continue;
            V3 m = V3::Zero();
            for (int a = 0; a < kk; ++a) m += p[d[a].second];
            m /= kk;
            Eigen::Matrix3d C = Eigen::Matrix3d::Zero();
            for (int a = 0; a < kk; ++a) C += (p[d[a].second] - m) * (p[d[a].second] - m).transpose();
            Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(C);
            const V3 ev = es.eigenvalues();
            if (kk < 4 || ev[2] <= 0 || (ev[1] - ev[0]) / ev[2] < 0.02) continue;
            V3 n = es.eigenvectors().col(0);
            const double side = (vp - p[i]).dot(n);
            if (side < 0) n = -n;
            const V3 g(out.f.at("normal_x")[o], out.f.at("normal_y")[o], out.f.at("normal_z")[o]);
            const bool facing_clear = std::abs(side) > 1e-2 * (vp - p[i]).norm();
            const double dot = facing_clear ? g.dot(n) : std::abs(g.dot(n));
            if (!(dot > 0.99)) { bad("normal", fmt("point %zu: cosine to the normal of its %d nearest points is %.4f", i, kk, g.dot(n))); break; }
            c.cov("C17.normals");
            if (out.has("curvature")) {
                const double cu = ev[0] / ev.sum();
                if (!(std::abs(out.f.at("curvature")[o] - cu) < 1e-2)) { bad("curvature", fmt("point %zu", i)); break; }
            }
        }
    }
}

static void formatter(Ctx& c) {
    auto in = c.cb("input/pointcloud"), out = c.pub("formatter/formatted_pointcloud");
    const bool drop_first = c.par<bool>("first_pointcloud_removal/enabled", false);
    const bool tf = c.par<bool>("time_field_filter/enabled", false);
    const double tmax = c.par<double>("time_field_filter/max", 0.1);
    if (drop_first && !in.empty()) in.erase(in.begin());
    if (c.complete && in.size() != out.size()) c.v("C17", "formatter count", fmt("%zu scans in, %zu out", in.size(), out.size()));
    for (size_t k = 0; k < out.size() && k < in.size(); ++k) {
        const E* p = c.content(in[k]);
        if (!p) continue;
        const auto& om = out[k]->as<pcl::PCLPointCloud2>();
        if (out[k]->stamp != us(in[k]->stamp)) { c.v("C17", "formatter stamp", fmt("scan %zu has stamp %s, input %s", k, c.T(out[k]->stamp).c_str(), c.T(in[k]->stamp).c_str())); break; }
        if (om.header.frame_id != c.lidar_id) c.v("C17", "formatter frame", om.header.frame_id);
        Cloud a = decode(p->as<pcl::PCLPointCloud2>());
        const Cloud b = decode(om);
        if (c.s.cloud_type == "OUSTER") {
            for (auto& x : a.f["t"]) x *= 1e-9;
            for (auto& x : a.f["range"]) x *= 1e-3;
        } else if (!a.has("t") && a.has("time")) { a.f["t"] = a.f["time"]; a.f.erase("time"); }
        Names f;
        for (auto& x : a.f) if (!x.first.empty() && x.first != "_") f.push_back(x.first);
        bool ok = true;
        for (auto& n : f) if (!b.has(n)) { c.v("C17", "formatter field lost", n); ok = false; }
        if (!ok) break;
        for (auto& fl : om.fields) if ((fl.name == "t" || fl.name == "range") && fl.datatype != 7) c.v("C17", "formatter type", fl.name + " is not a float");
        std::vector<int> pos;
        if (!selection(a, b, f, pos)) { c.v("C17", "formatter points", fmt("scan %zu: the %zu output points are not the %zu input points", k, b.n, a.n)); break; }
        std::vector<char> kept(a.n, 0);
        for (int i : pos) kept[i] = 1;
        for (size_t i = 0; i < a.n; ++i) {
            const double t = a.has("t") ? a.f["t"][i] : 0;
            if (tf && std::abs(t - tmax) < 1e-6) continue;
            const bool want = !tf || t <= tmax;
            if (want != bool(kept[i])) { c.v("C17", want ? "formatter point lost" : "formatter point kept", fmt("scan %zu point %zu t=%.6f", k, i, t)); break; }
        }
        c.cov("C17.formatter");
        if (tf) c.cov("C17.time_field_filter");
    }
}

void check_cloud(Ctx& c) {
    formatter(c);
    if (!c.s.reg) return;
    const bool vox = c.par<bool>("voxel_grid_filter/enabled", true), body = c.par<bool>("body_filter/enabled", false), range = c.par<bool>("range_filter/enabled", true),
               sor = c.par<bool>("statistical_outlier_removal/enabled", false), rs = c.par<bool>("random_sample_filter/enabled", false);
    const std::string pm = c.par<std::string>("registration_covariance/point_covariance/method", "RANGE");
    const bool unit = c.par<std::string>("registration_covariance/method", "CENSI") == "CENSI" && (pm == "RANGE" || pm == "RANGE_BIAS");
    std::vector<Stage> st;
    std::string in = "frontend/deskewed_pointcloud";
    const std::string fin = "filter/filtered_pointcloud";
    if (vox) { st.push_back({"voxel", in, body || range || sor || rs ? "filter/voxel_filtered_pointcloud" : fin, 1}); in = st.back().out; }
    if (body) { st.push_back({"body", in, range || sor || rs ? "filter/body_filtered_pointcloud" : fin, 2}); in = st.back().out; }
    if (range) { st.push_back({"range", in, sor || rs ? "filter/range_filtered_pointcloud" : fin, 3}); in = st.back().out; }
    if (sor) { st.push_back({"outlier", in, rs ? "filter/sor_filtered_pointcloud" : fin, 4}); in = st.back().out; }
    if (rs) { st.push_back({"sample", in, fin, 5}); in = fin; }
    if (unit) { st.push_back({"directions", in, "add_unit_vectors/pointcloud", 7}); in = st.back().out; }
    st.push_back({"normals", in, "normal_estimation/pointcloud", 6});
    for (auto& s : st) {
        auto pi = c.pub(s.in);
        auto ci = c.cb(s.in), po = c.pub(s.out);
        const size_t dropped = c.r.list(c.r.drop, s.in).size();
        if (c.complete) {
            if (ci.size() + dropped != pi.size()) c.v("C17", s.name + " lost", fmt("%zu scans published on %s, %zu processed and %zu overtaken", pi.size(), s.in.c_str(), ci.size(), dropped));
            if (po.size() != ci.size()) c.v("C17", s.name + " count", fmt("%zu scans in, %zu out", ci.size(), po.size()));
        }
        for (size_t k = 0; k < std::min(ci.size(), po.size()); ++k) {
            const E* p = c.content(ci[k]);
            if (!p) continue;
            if (po[k]->stamp != ci[k]->stamp) { c.v("C17", s.name + " stamp", fmt("output %zu has stamp %s, input %s", k, c.T(po[k]->stamp).c_str(), c.T(ci[k]->stamp).c_str())); break; }
            const auto &im = p->as<pcl::PCLPointCloud2>(), &om = po[k]->as<pcl::PCLPointCloud2>();
            if (om.header.frame_id != im.header.frame_id) c.v("C17", s.name + " frame", om.header.frame_id);
            judge(c, s, k, im, om);
        }
    }
}
}  // namespace hs
