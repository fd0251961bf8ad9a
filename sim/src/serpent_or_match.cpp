// C14: every list of features against a reference tracker: tracks followed by the flow in both images, new pairs by the
// configured stereo matcher on the points that no followed track covers.
#include <algorithm>

#include "serpent/StereoTrackerStatistics.h"
#include "serpent_cv.hpp"
#include "serpent_orc.hpp"

namespace hs {
namespace {
struct Matcher {
    std::string cost, filter;
    int w, h;
    double dv, ratio, limit;
    cv::Mat im[2];
    bool murky = false;  // some comparison is too close to call
    cv::Point corner(cv::Point2f c) const { return {int(std::floor(c.x)) - (w - 1) / 2, int(std::floor(c.y)) - (h - 1) / 2}; }
    bool inside(cv::Point o) const { return o.x >= 0 && o.y >= 0 && o.x + w <= im[0].cols && o.y + h <= im[0].rows; }
    double of(int a_lr, cv::Point a, cv::Point b) const {
        std::vector<double> x, y;
        for (int r = 0; r < h; ++r) for (int q = 0; q < w; ++q) {
            x.push_back(im[a_lr].at<unsigned char>(a.y + r, a.x + q));
            y.push_back(im[1 - a_lr].at<unsigned char>(b.y + r, b.x + q));
        }
        double mx = 0, my = 0, s = 0, xx = 0, yy = 0, xy = 0;
        for (size_t i = 0; i < x.size(); ++i) { mx += x[i] / x.size(); my += y[i] / x.size(); xx += x[i] * x[i]; yy += y[i] * y[i]; xy += x[i] * y[i]; }
        if (cost == "NNCC") return -xy / std::sqrt(xx * yy);
        for (size_t i = 0; i < x.size(); ++i) {
            const double d = x[i] - y[i];
            if (cost == "SAD") s += std::abs(d);
            else if (cost == "SSD") s += d * d;
            else if (cost == "ZMSAD") s += std::abs((x[i] - mx) - (y[i] - my));
            else s += std::abs(x[i] - mx / my * y[i]);
        }
        return s;
    }
    static double eps(double c) { return 1e-7 * (1e-3 + std::abs(c)); }
    // the indices that may be the answer (-1: none); more than one when costs tie
    std::set<int> find(const std::vector<cv::Point2f>& from, const std::vector<cv::Point2f>& in, int lr, int i, std::map<int, double>* costs = nullptr) {
        const cv::Point a = corner(from[i]);
        if (!inside(a)) return {-1};
        std::vector<std::pair<double, int>> c;
        for (int k = 0; k < int(in.size()); ++k) {
            const double dy = std::abs(double(in[k].y) - from[i].y), dx = lr ? double(in[k].x) - from[i].x : double(from[i].x) - in[k].x;
            if (std::abs(dy - dv) < 1e-4 || std::abs(dx) < 1e-4) murky = true;
            if (dy > dv || dx < 0 || !inside(corner(in[k]))) continue;
            c.push_back({of(lr, a, corner(in[k])), k});
        }
        if (c.empty()) return {-1};
        std::sort(c.begin(), c.end());
        std::set<int> r;
        for (auto& [v, k] : c) if (v <= c[0].first + eps(c[0].first)) { r.insert(k); if (costs) (*costs)[k] = v; }
        if (filter == "RATIO_TEST" && c.size() > 1) {
            if (c[1].first < 1e-6) r.insert(-1);  // 0/0
            else if (std::abs(c[0].first / c[1].first - ratio) < 1e-9) r.insert(-1);
            else if (c[0].first / c[1].first > ratio) r = {-1};
        }
        return r;
    }
    std::set<int> match(const std::vector<cv::Point2f>& L, const std::vector<cv::Point2f>& R, int i) {
        std::map<int, double> costs;
        std::set<int> out;
        for (int k : find(L, R, 0, i, &costs)) {
            if (k < 0) { out.insert(-1); continue; }
            if (costs[k] > limit + eps(limit)) { out.insert(-1); continue; }
            if (costs[k] > limit - eps(limit)) out.insert(-1);
            if (filter == "BIDIRECTIONAL") {
                const auto back = find(R, L, 1, k);
                if (!back.count(i)) { out.insert(-1); continue; }
                if (back.size() > 1) out.insert(-1);
            }
            out.insert(k);
        }
        return out;
    }
};
}  // namespace

void check_match(Ctx& c) {
    std::map<Nanos, const StereoFrame*> fr;
    for (auto& f : c.s.frames) fr[us(f.stamp)] = &f;
    std::map<Nanos, cv::Mat> img[2];
    for (auto& in : c.s.inputs)
        if (in.topic == "left_image" || in.topic == "right_image") {
            auto& m = *static_cast<const sensor_msgs::Image*>(in.m.p.get());
            img[in.topic == "right_image"][us(in.stamp)] = cv::Mat(m.height, m.width, CV_8U, const_cast<uint8_t*>(m.data.data()), m.step);
        }
    const std::string M = "stereo_tracking/stereo_keypoint_matcher/";
    Matcher mt;
    mt.cost = c.par<std::string>(M + "cost_function", "SAD");
    mt.filter = c.par<std::string>(M + "matching_filter", "RATIO_TEST");
    mt.w = c.par<int>(M + "window_size/width", 3);
    mt.h = c.par<int>(M + "window_size/height", 3);
    mt.dv = c.par<double>(M + "vertical_pixel_threshold", 1.0);
    mt.ratio = c.par<double>(M + "ratio", 0.5);
    mt.limit = c.par<double>(M + "cost_threshold", 1.0);
    const double track_dv = c.par<double>("stereo_tracking/stereo_match_filter/vertical_pixel_threshold", 1.0), near = c.par<double>("stereo_tracking/new_feature_dist_threshold", 5.0);
    const bool df = c.par<bool>("stereo_tracking/stereo_distance_filter/enabled", false);
    const double dmax = c.par<double>("stereo_tracking/stereo_distance_filter/max_distance", 1e9), dmin = c.par<double>("stereo_tracking/stereo_distance_filter/min_distance", 0);
    const bool use_mask = c.par<bool>("stereo_mask/enabled", false);
    cv::Mat mask;
    if (use_mask) {
        mask = cv::Mat::zeros(c.s.img_h, c.s.img_w, CV_8U);
        mask(cv::Rect(c.par<int>("stereo_mask/top_left_x", 0), c.par<int>("stereo_mask/top_left_y", 0), c.par<int>("stereo_mask/width", 0), c.par<int>("stereo_mask/height", 0))) = 1;
    }
    const double fb = c.s.fx * c.s.baseline;
    // +1 passes, -1 does not, 0 too close to call
    auto margin = [](double slack, double tol) { return slack > tol ? 1 : slack < -tol ? -1 : 0; };
    auto depth_ok = [&](cv::Point2f l, cv::Point2f r) {
        if (!df) return 1;
        const double d = double(l.x) - r.x;
        if (d <= 1e-4) return d < -1e-4 || fb / 1e-4 > dmax ? -1 : 0;
        return std::min(margin(fb / d - dmin, 1e-4 * fb / d), margin(dmax - fb / d, 1e-4 * fb / d));
    };
    auto near_to = [](cv::Point2f a, double x, double y) { return std::abs(a.x - x) < 2e-3 && std::abs(a.y - y) < 2e-3; };

    struct Track { int64_t id; cv::Point2f p[2]; };
    std::vector<Track> prev;
    const StereoFrame* pf = nullptr;
    std::set<int64_t> ever;
    int index = -1;
    std::map<Nanos, const E*> stats, points;
    for (const E* e : c.pub("stereo/statistics")) stats[e->stamp] = e;
    for (const E* e : c.pub("stereo/track_points")) points[e->stamp] = e;
    for (const E* e : c.pub("stereo/features")) {
        ++index;
        const Nanos t = us(e->stamp);
        const auto& m = e->as<serpent::StereoFeatures>();
        auto fi = fr.find(t);
        const std::string at = "t=" + c.T(e->stamp);
        if (fi == fr.end() || !img[0].count(t) || !img[1].count(t)) {
            if (c.s.stereo_only) c.v("C14", "no such frame", at + ": features for no frame received");
            return;
        }
        const StereoFrame& f = *fi->second;
        mt.im[0] = img[0][t];
        mt.im[1] = img[1][t];
        mt.murky = false;
        c.cov("C14.frames");
        std::map<int64_t, const serpent::StereoFeature*> now;
        for (auto& ft : m.features)
            if (!now.emplace(ft.id, &ft).second) c.v("C14", "id twice", at + fmt(" id %ld appears twice in one list", long(ft.id)));
        // tracks of the previous list
        std::vector<cv::Point2f> hyp[2];
        std::set<int64_t> old;
        size_t kept = 0;
        for (auto& k : prev) {
            old.insert(k.id);
            const auto l = sim_flow(*pf, f, 0, 0, k.p[0]), r = sim_flow(*pf, f, 1, 1, k.p[1]);
            const auto it = now.find(k.id);
            const bool is = it != now.end();
            kept += is;
            const std::string who = at + fmt(" id %ld", long(k.id));
            if (!l || !r) {
                c.cov("C14.lost");
                if (is) c.v("C14", "lost track continued", who + " continues although its point was lost in the " + (l ? "right" : "left") + " image");
                continue;
            }
            hyp[0].push_back(*l);
            hyp[1].push_back(*r);
            const int ok = std::min({margin(track_dv - std::abs(double(l->y) - r->y), 1e-4), margin(double(l->x) - r->x, 1e-4), depth_ok(*l, *r)});
            if (ok > 0 && !is) c.v("C14", "track dropped", who + " was found again in both images but ended");
            if (ok < 0 && is) c.v("C14", "inconsistent track continued", who + " continues although the positions found are no stereo pair");
            if (ok < 0) c.cov("C14.inconsistent");
            if (is) {
                if (ok > 0) c.cov("C14.continued");
                if (!near_to(*l, it->second->left_x, it->second->left_y) || !near_to(*r, it->second->right_x, it->second->right_y))
                    c.v("C14", "swapped", who + fmt(" is at (%.2f %.2f | %.2f %.2f), its points are at (%.2f %.2f | %.2f %.2f)", it->second->left_x, it->second->left_y, it->second->right_x, it->second->right_y, l->x, l->y, r->x, r->y));
            }
        }
        // new pairs
        std::vector<cv::Point2f> det[2];
        size_t detected[2];
        for (int lr = 0; lr < 2; ++lr) {
            const auto all = sim_detect(f, lr, mask);
            detected[lr] = all.size();
            for (auto& p : all) {
                bool close = false;
                for (auto& q : hyp[lr]) {
                    const double d2 = std::pow(double(p.x) - q.x, 2) + std::pow(double(p.y) - q.y, 2) - near * near;
                    if (std::abs(d2) < 1e-3) mt.murky = true;
                    if (d2 <= 0) close = true;
                }
                if (!close) det[lr].push_back(p);
            }
        }
        std::vector<const serpent::StereoFeature*> fresh;
        for (auto& ft : m.features)
            if (!old.count(ft.id)) {
                fresh.push_back(&ft);
                if (ever.count(ft.id)) c.v("C14", "id reused", at + fmt(" id %ld had ended", long(ft.id)));
            }
        std::vector<std::set<int>> want;
        for (int i = 0; i < int(det[0].size()); ++i) {
            want.push_back(mt.match(det[0], det[1], i));
            std::set<int> w;
            for (int k : want.back()) {
                const int ok = k < 0 ? 1 : depth_ok(det[0][i], det[1][k]);
                if (ok >= 0) w.insert(k);
                if (ok <= 0) w.insert(-1);
            }
            want.back() = w;
        }
        if (mt.murky) c.cov("C14.murky");
        else {
            std::set<const serpent::StereoFeature*> used;
            for (int i = 0; i < int(det[0].size()); ++i) {
                const serpent::StereoFeature* got = nullptr;
                for (auto* ft : fresh) if (!used.count(ft) && near_to(det[0][i], ft->left_x, ft->left_y)) { got = ft; break; }
                if (got) used.insert(got);
                int k = -1;
                if (got) {
                    k = -2;
                    for (int q = 0; q < int(det[1].size()); ++q) if (near_to(det[1][q], got->right_x, got->right_y)) k = q;
                }
                c.cov("C14.candidates");
                if (want[i].size() > 1) c.cov("C14.ties");
                if (k >= 0) c.cov("C14.new");
                if (want[i].count(k)) continue;
                const std::string who = at + fmt(" left point (%.2f %.2f)", det[0][i].x, det[0][i].y);
                const int w = *want[i].rbegin();
                if (!got) c.v("C14", "pair missed", who + fmt(" has the match (%.2f %.2f) but starts no track", det[1][w].x, det[1][w].y));
                else if (w < 0) c.v("C14", "false pair", who + fmt(" has no acceptable match but was paired with (%.2f %.2f)", got->right_x, got->right_y));
                else c.v("C14", "wrong pair", who + fmt(" matches (%.2f %.2f) but was paired with (%.2f %.2f)", det[1][w].x, det[1][w].y, got->right_x, got->right_y));
            }
            for (auto* ft : fresh)
                if (!used.count(ft)) c.v("C14", "not a new point", at + fmt(" id %ld starts at (%.2f %.2f), where no new point was detected", long(ft->id), ft->left_x, ft->left_y));
        }
        for (auto& ft : m.features) ever.insert(ft.id);
        // statistics and points published beside the list
        auto st = stats.find(e->stamp);
        if (st != stats.end()) {
            c.cov("C14.statistics");
            const auto& q = st->second->as<serpent::StereoTrackerStatistics>();
            auto num = [&](const char* n, long got, long want_n) { if (got != want_n) c.v("C14", std::string("statistics ") + n, at + fmt(": %s is %ld, not %ld", n, got, want_n)); };
            num("frame_number", q.frame_number, index);
            num("max_match_id", q.max_match_id, ever.empty() ? -1 : std::max<long>(*ever.rbegin(), q.max_match_id));
            num("longest_tracked_match_id", q.longest_tracked_match_id, [&] { long v = -1; for (auto& k : prev) if (now.count(k.id) && (v < 0 || k.id < v)) v = k.id; return v; }());
            num("tracked_match_count", q.tracked_match_count, long(kept));
            num("new_match_count", q.new_match_count, long(fresh.size()));
            num("total_match_count", q.total_match_count, long(m.features.size()));
            for (int lr = 0; lr < 2; ++lr) {
                num("extracted_kp_count", q.extracted_kp_count[lr], long(detected[lr]));
                num("tracked_kp_count", q.tracked_kp_count[lr], long(hyp[lr].size()));
                if (!mt.murky) num("filtered_extracted_kp_count", q.filtered_extracted_kp_count[lr], long(det[lr].size()));
            }
            std::multiset<long> a(q.match_ids.begin(), q.match_ids.end()), b;
            for (auto& ft : m.features) b.insert(ft.id);
            if (a != b) c.v("C14", "statistics match_ids", at + ": the ids in the statistics differ from the ids in the list");
        }
        auto pc = points.find(us(e->stamp));
        if (pc == points.end()) pc = points.find(e->stamp);
        if (pc != points.end()) {
            c.cov("C14.points");
            const std::vector<V3> cl = decode(pc->second->as<pcl::PCLPointCloud2>()).xyz();
            std::vector<V3> wp;
            for (auto& ft : m.features) {
                const double d = double(ft.left_x) - ft.right_x, z = fb / d;
                wp.push_back(V3((ft.left_x - c.s.cx) * z / c.s.fx, (0.5 * (double(ft.left_y) + ft.right_y) - c.s.cy) * z / c.s.fy, z));
            }
            if (cl.size() != wp.size()) c.v("C14", "track points", at + fmt(": %zu points for %zu features", cl.size(), wp.size()));
            else
                for (size_t i = 0; i < wp.size(); ++i) {
                    const V3& g = cl[i];
                    const double disp = double(m.features[i].left_x) - m.features[i].right_x;
                    if ((g - wp[i]).norm() > 1e-3 + 1e-4 * wp[i].norm() * (1 + 1 / std::max(disp, 1e-3)))
                        c.v("C14", "track points", at + fmt(": point %zu is (%.3f %.3f %.3f), its feature is at (%.3f %.3f %.3f)", i, g[0], g[1], g[2], wp[i][0], wp[i][1], wp[i][2]));
                }
        }
        prev.clear();
        for (auto& ft : m.features) prev.push_back({ft.id, {cv::Point2f(ft.left_x, ft.left_y), cv::Point2f(ft.right_x, ft.right_y)}});
        pf = &f;
    }
}
}  // namespace hs
