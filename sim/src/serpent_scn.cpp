// Scenario generation: configuration, ground-truth world, sensor streams, arrival times and injected faults, all from one seed.
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>

#include "serpent_h.hpp"

namespace hs {
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (char c : s) h = (h ^ uint8_t(c)) * 1099511628211ull;
    return h;
}
static double huni(uint64_t seed, const std::string& topic, int i, int salt) {
    return double(mix(mix(seed, hstr(topic)), uint64_t(i) * 1000 + salt) >> 11) * (1.0 / 9007199254740992.0);
}
Iso Traj::pose(double t) const {
    V3 p, r;
    for (int i = 0; i < 3; ++i) {
        p[i] = p0[i] + v[i] * t + amp[i] * std::sin(w[i] * t + ph[i]);
        r[i] = rrate[i] * t + ramp[i] * std::sin(rw[i] * t + rph[i]);
    }
    Iso T = Iso::Identity();
    T.linear() = (Eigen::AngleAxisd(r[2], V3::UnitZ()) * Eigen::AngleAxisd(r[1], V3::UnitY()) * Eigen::AngleAxisd(r[0], V3::UnitX())).toRotationMatrix();
    T.translation() = p;
    return T;
}
Iso Scn::base_mount(Nanos t) const {
    auto it = ext.find("base_link");
    Iso T = it == ext.end() ? Iso::Identity() : it->second;
    if (base_dynamic) {
        const double x = rel(t);
        Iso D = Iso::Identity();
        D.translation() = V3(base_dyn_amp[0] * std::sin(2 * x), base_dyn_amp[1] * std::cos(3 * x), base_dyn_amp[2] * x);
        D.linear() = Eigen::AngleAxisd(0.3 * std::sin(1.7 * x), V3(0.6, 0, 0.8)).toRotationMatrix();
        T = T * D;
    }
    return T;
}
static Iso rand_iso(sim::Rng& g, double tr, double rot) {
    Iso T = Iso::Identity();
    V3 ax(g.gauss(), g.gauss(), g.gauss());
    if (ax.norm() < 1e-9) ax = V3::UnitX();
    T.linear() = Eigen::AngleAxisd(g.range(0, rot), ax.normalized()).toRotationMatrix();
    T.translation() = V3(g.range(-tr, tr), g.range(-tr, tr), g.range(-tr, tr));
    return T;
}
static XmlRpc::XmlRpcValue frame_node(const Iso& T, const std::string& frame_id) {
    XmlRpc::XmlRpcValue n;
    Qd q(T.rotation());
    n["translation"]["x"] = T.translation().x();
    n["translation"]["y"] = T.translation().y();
    n["translation"]["z"] = T.translation().z();
    n["rotation"]["w"] = q.w();
    n["rotation"]["x"] = q.x();
    n["rotation"]["y"] = q.y();
    n["rotation"]["z"] = q.z();
    if (!frame_id.empty()) n["frame_id"] = frame_id;
    return n;
}
static Iso frame_iso(const XmlRpc::XmlRpcValue& n) {  // what the configuration text says, as doubles
    Iso T = Iso::Identity();
    const auto &rn = n["rotation"], &tn = n["translation"];
    Qd q(rn["w"].d, rn["x"].d, rn["y"].d, rn["z"].d);
    q.normalize();
    T.linear() = q.toRotationMatrix();
    T.translation() = V3(tn["x"].d, tn["y"].d, tn["z"].d);
    return T;
}
template<class M> static Input mk(const std::string& topic, int index, Nanos stamp, std::shared_ptr<M> m) {
    Input in;
    in.topic = topic;
    in.stamp = stamp;
    in.index = index;
    in.ops = ros::OpsFor<M>::get();
    in.m = sim::AnyMsg{m, &typeid(M)};
    return in;
}
static void put(std::vector<uint8_t>& d, size_t off, const void* p, size_t n) { memcpy(d.data() + off, p, n); }

static void build_frames(Scn& s, sim::Rng& g, int style, bool small) {
    const double tr = small ? 0.05 : 0.8, rot = small ? 0.05 : 3.0;
    XmlRpc::XmlRpcValue bf;
    const bool ids = g.chance(0.4);
    auto fid = [&](const char* n) { return ids ? std::string("robot/") + n : std::string(); };
    Iso imu = rand_iso(g, tr * 0.5, rot), lidar = rand_iso(g, tr, rot), base = rand_iso(g, tr, rot);
    if (g.chance(0.15)) lidar = Iso::Identity();
    if (g.chance(0.15)) imu = Iso::Identity();
    // Camera looking along +x of the body, up to a small rotation
    Iso cam = Iso::Identity();
    Eigen::Matrix3d R;
    R << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    cam.linear() = R * Eigen::AngleAxisd(g.range(-0.1, 0.1), V3::UnitX()).toRotationMatrix();
    cam.translation() = V3(g.range(-0.3, 0.3), g.range(-0.3, 0.3), g.range(-0.3, 0.3));
    if (style == 0) {
        s.body = "base_link";
        auto& b = bf["base_link"];
        if (ids) b["frame_id"] = fid("base");
        b["frames"]["imu"] = frame_node(imu, fid("imu"));
        b["frames"]["lidar"] = frame_node(lidar, fid("lidar"));
        b["frames"]["stereo"] = frame_node(cam, fid("cam"));
        s.ext["imu"] = frame_iso(b["frames"]["imu"]);
        s.ext["lidar"] = frame_iso(b["frames"]["lidar"]);
        s.ext["stereo"] = frame_iso(b["frames"]["stereo"]);
        s.ext["base_link"] = Iso::Identity();
    } else if (style == 1 || style == 2) {
        s.body = "imu";
        s.base_dynamic = style == 2;
        auto& b = bf["imu"];
        if (ids) b["frame_id"] = fid("imu");
        b["frames"]["lidar"] = frame_node(lidar, fid("lidar"));
        b["frames"]["stereo"] = frame_node(cam, fid("cam"));
        XmlRpc::XmlRpcValue bn = frame_node(base, fid("base"));
        s.ext["base_link"] = frame_iso(bn);
        if (style == 2) {
            XmlRpc::XmlRpcValue dn;
            dn["dynamic"] = true;
            if (ids) dn["frame_id"] = fid("base");
            b["frames"]["base_link"] = dn;
            s.base_dyn_amp = V3(0.3, 0.2, 0.1);
        } else b["frames"]["base_link"] = bn;
        s.ext["imu"] = Iso::Identity();
        s.ext["lidar"] = frame_iso(b["frames"]["lidar"]);
        s.ext["stereo"] = frame_iso(b["frames"]["stereo"]);
    } else {
        s.body = "base_link";
        auto& b = bf["base_link"];
        const Iso mount = rand_iso(g, tr, rot);
        b["frames"]["mount"] = frame_node(mount, "");
        b["frames"]["mount"]["frames"]["imu"] = frame_node(mount.inverse() * imu, fid("imu"));
        b["frames"]["mount"]["frames"]["lidar"] = frame_node(mount.inverse() * lidar, fid("lidar"));
        b["frames"]["stereo"] = frame_node(cam, fid("cam"));
        const Iso m = frame_iso(b["frames"]["mount"]);
        s.ext["imu"] = m * frame_iso(b["frames"]["mount"]["frames"]["imu"]);
        s.ext["lidar"] = m * frame_iso(b["frames"]["mount"]["frames"]["lidar"]);
        s.ext["stereo"] = frame_iso(b["frames"]["stereo"]);
        s.ext["base_link"] = Iso::Identity();
    }
    s.params["/serpent/body_frames"] = bf;
}

static void imu_truth(const Scn& s, double t, V3& acc, V3& gyr, Qd& ori) {
    const double h = 1e-3;
    const Iso E = s.ext.at("imu");
    const Iso a = s.traj.pose(t - h) * E, b = s.traj.pose(t) * E, c = s.traj.pose(t + h) * E;
    const Eigen::AngleAxisd aa(Eigen::Matrix3d(a.linear().transpose() * c.linear()));
    gyr = aa.axis() * aa.angle() / (2 * h);
    const V3 pa = (a.translation() - 2 * b.translation() + c.translation()) / (h * h);
    acc = b.linear().transpose() * (pa + V3(0, 0, s.gravity));
    ori = Qd(b.linear());
}

void generate(Scn& s, const std::string& profile, uint64_t seed, const Overrides& o) {
    s.profile = profile;
    s.seed = seed;
    s.rng = sim::Rng(mix(seed, hstr("serpent")));
    sim::Rng& g = s.rng;
    auto is = [&](const char* p) { return profile == p; };
    auto P = [&](const std::string& n, const XmlRpc::XmlRpcValue& v) { s.params["/serpent/" + n] = v; };

    // ------------------------------------------------------------ modalities
    double p_reg = 0.85, p_imu = 0.85, p_st = 0.25, p_baro = 0.3, p_loss = 0.25, p_hold = 0.5, p_tf = 0.1, p_split = 0.2, p_stall = 0.4;
    double p_marg = 0.08, p_service = 0.2, p_shutdown = 0.0, p_tight = 0.3;
    if (is("c01")) { p_st = 0.4; p_baro = 0.4; p_stall = 0.7; p_loss = 0; p_hold = 0.7; p_split = 0.3; }
    if (is("c02")) { p_st = 0.3; p_loss = 0.1; }
    if (is("c03")) { p_hold = 0.9; p_st = 0.35; p_loss = 0.2; }
    if (is("c04")) { p_hold = 0.6; p_stall = 0.8; p_loss = 0.1; }
    if (is("c05")) { p_hold = 0.6; p_st = 0.3; p_loss = 0.05; }
    if (is("c06")) { p_tight = 1.0; p_st = 0.3; p_baro = 0.4; p_loss = 0.1; p_marg = 0; }
    if (is("c07")) { p_reg = 1; p_stall = 0.7; p_st = 0.15; }
    if (is("c08")) { p_reg = 1; p_service = 0.9; p_st = 0.1; p_baro = 0.1; }
    if (is("c09")) { p_baro = 1; p_hold = 0.7; p_loss = 0.4; p_st = 0.15; }
    if (is("c10")) { p_st = 1; p_hold = 0.7; p_loss = 0.5; p_baro = 0.15; }
    if (is("c11")) { p_shutdown = 1; p_st = 0.35; p_baro = 0.4; p_stall = 0.7; p_hold = 0.8; p_loss = 0.4; }
    if (is("c12")) { p_st = 0.35; p_baro = 0.4; p_service = 0.5; p_stall = 0.6; }
    if (is("c13")) { p_loss = 1; p_st = 0.35; p_baro = 0.4; p_hold = 0.6; }
    if (is("c14")) { p_st = 1; p_loss = 0.6; p_hold = 0.5; p_baro = 0.1; p_reg = 0.6; }
    if (is("c15")) { p_tf = 0.6; p_st = 0.2; p_loss = 0.1; }
    if (is("c17")) { p_reg = 1; p_st = 0.1; p_baro = 0.1; }
    if (is("c18")) { p_marg = 1; p_tight = 0.7; p_st = 0.3; p_baro = 0.3; p_loss = 0.05; }
    s.reg = g.chance(p_reg);
    s.imu = g.chance(p_imu);
    s.stereo = g.chance(p_st);
    s.baro = g.chance(p_baro);
    if (!s.reg && !s.imu) (g.chance(0.5) ? s.reg : s.imu) = true;
    s.s2m = g.chance(0.75);
    s.split = g.chance(p_split);
    s.marg = g.chance(p_marg);
    s.tight_solver = g.chance(p_tight);
    s.service_calls = g.chance(p_service) && s.reg;
    s.shutdown = g.chance(p_shutdown);
    P("optimisation/factors/imu", s.imu);
    P("optimisation/factors/registration", s.reg);
    P("optimisation/factors/stereo", s.stereo);
    P("optimisation/factors/barometer", s.baro);
    P("s2m/enabled", s.s2m);
    s.threads = g.chance(0.5) ? 0 : g.irange(6, 9);  // 0: shipped default
    if (s.threads) P("threads", s.threads);

    // ------------------------------------------------------------ frames, motion, streams
    double r = g.uni();
    const bool small_ext = g.chance(0.2);
    const double p_dyn = is("c15") ? 0.4 : 0.12;
    const int style = r < p_dyn ? 2 : r < p_dyn + 0.25 ? 1 : r < p_dyn + 0.4 ? 3 : 0;
    build_frames(s, g, style, small_ext);
    s.gravity = g.chance(0.2) ? g.range(9.7, 9.9) : 9.81;
    if (s.gravity != 9.81) P("gravity", s.gravity);
    s.ned = g.chance(0.6);
    P("imu/reference_frame", s.ned ? "NED" : "NWU");
    s.imu_orientation = g.chance(0.85);
    s.imu_overwrite = g.chance(0.3);
    s.cloud_type = g.chance(0.6) ? "OUSTER" : "CUSTOM";
    P("pointcloud_type", s.cloud_type);
    if (g.chance(0.2)) P("map_frame_id", "world");
    s.n_scans = g.irange(7, 12);
    if (s.stereo) s.n_scans = g.irange(6, 9);
    if (is("c18")) s.n_scans = g.irange(8, 13);
    if (o.n_scans > 0) s.n_scans = o.n_scans;
    s.n_points = g.irange(70, 120);
    s.scan_rate = g.range(8, 12);
    s.sweep = g.chance(0.85) ? g.range(0.6, 0.98) / s.scan_rate : 0.0;
    s.imu_rate = g.range(80, 160);
    s.stereo_rate = g.range(6, 22);
    s.baro_rate = g.range(4, 25);
    s.epoch = (g.chance(0.5) ? 100ll : 1600000000ll) * sim::SEC;
    s.aligned = g.chance(0.3);
    if (s.aligned) {
        s.scan_rate = 10;
        s.imu_rate = 100;
        s.sweep = s.sweep > 0 ? (g.chance(0.5) ? 0.08 : 0.09) : 0.0;
        s.stereo_rate = g.chance(0.5) ? 20 : 10;
        s.baro_rate = g.chance(0.5) ? 10 : 20;
    }
    Traj& T = s.traj;
    for (int i = 0; i < 3; ++i) {
        T.p0[i] = g.range(-3, 3);
        T.v[i] = g.range(-1.2, 1.2) * (i == 2 ? 0.2 : 1);
        T.amp[i] = g.range(0, 0.3);
        T.w[i] = g.range(1, 4);
        T.ph[i] = g.range(0, 6.28);
        T.ramp[i] = g.range(0, 0.25);
        T.rw[i] = g.range(1, 4);
        T.rph[i] = g.range(0, 6.28);
        T.rrate[i] = i == 2 ? g.range(-0.6, 0.6) : 0;
    }
    if (!s.imu_orientation) for (int i = 0; i < 3; ++i) { T.ramp[i] = 0; T.rrate[i] = i == 2 ? T.rrate[i] * 0.5 : 0; }
    if (g.chance(0.4)) {
        for (int i = 0; i < 3; ++i) { s.acc_bias[i] = g.range(-0.05, 0.05); s.gyr_bias[i] = g.range(-0.02, 0.02); }
        P("prior_noise/accelerometer_bias", 0.05);
        P("prior_noise/gyroscope_bias", 0.02);
        P("imu/noise/accelerometer_bias", 0.01);
        P("imu/noise/gyroscope_bias", 0.003);
    }
    if (g.chance(0.5)) { s.acc_noise = g.range(0, 0.05); s.gyr_noise = g.range(0, 0.01); }
    s.mdc_t = s.stereo || g.chance(0.9);
    s.mdc_r = s.stereo || g.chance(0.9);
    if (!s.mdc_t) P("mdc/translation", false);
    if (!s.mdc_r) P("mdc/rotation", false);
    s.only_graph = s.stereo && g.chance(0.35);
    if (s.only_graph) P("stereo_tracking/only_graph_frames", true);
    // ------------------------------------------------------------ processing parameters
    const bool voxel = g.chance(0.4), range = g.chance(0.6), body = g.chance(0.3), sor = g.chance(0.12), rs = g.chance(0.2);
    P("voxel_grid_filter/enabled", voxel);
    P("voxel_grid_filter/leaf_size", g.range(0.2, 0.6));
    P("range_filter/enabled", range);
    P("range_filter/min", g.range(0.1, 2.5));
    P("range_filter/max", g.range(12, 30));
    P("body_filter/enabled", body);
    for (const char* c : {"x", "y", "z"}) {
        P(std::string("body_filter/min/") + c, -g.range(0.5, 3));
        P(std::string("body_filter/max/") + c, g.range(0.5, 3));
    }
    P("statistical_outlier_removal/enabled", sor);
    P("statistical_outlier_removal/mean_k", 4);
    P("statistical_outlier_removal/stddev_mul_thresh", 3.0);
    P("random_sample_filter/enabled", rs);
    P("random_sample_filter/sample_size", g.irange(50, 100));
    P("random_sample_filter/random_seed", g.irange(0, 1000));
    P("normal_estimation/k", g.irange(4, 8));
    if (g.chance(0.2)) { P("normal_estimation/viewpoint/x", g.range(-1, 1)); P("normal_estimation/viewpoint/z", g.range(-1, 1)); }
    const char* methods[] = {"CENSI", "CONSTANT", "LLS"};
    const std::string cm = methods[g.below(3)];
    P("registration_covariance/method", cm);
    const char* models[] = {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
    const std::string model = models[cm == "LLS" ? 2 * int(g.below(2)) : int(g.below(4))];
    P("registration_covariance/model", model);
    const char* pcm[] = {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
    std::string pm = pcm[g.below(4)];
    if (pm == "VOXEL_SIZE" && !voxel) pm = "CONSTANT";
    // Range noise cannot turn a point-to-point alignment: that covariance is singular by construction, and Serpent rejects it.
    if (model.find("POINT_TO_POINT") == 0 && (pm == "RANGE" || pm == "RANGE_BIAS")) pm = "CONSTANT";
    if (cm == "LLS" && (pm == "RANGE" || pm == "RANGE_BIAS")) pm = "CONSTANT";
    P("registration_covariance/point_covariance/method", pm);
    const char* rm[] = {"fast_gicp", "icp", "gicp", "ndt", "fast_vgicp", "fast_gicp_st"};
    P("s2s/method", rm[g.below(6)]);
    P("s2m/method", rm[g.below(6)]);
    P("s2s/base/max_correspondence_distance", g.range(1, 3));
    P("s2m/base/max_correspondence_distance", g.range(1, 3));
    P("mapping/distance_threshold", g.range(0.02, 0.3));
    P("mapping/rotation_threshold", g.chance(0.5) ? g.range(0.02, 0.2) : 0.5);
    P("mapping/frame_extraction_number", g.irange(1, 5));
    P("mapping/frame_extraction_method", g.chance(0.6) ? "NEARBY" : "PAST");
    P("mapping/voxel_grid_filter/enabled_local", g.chance(0.4));
    P("mapping/voxel_grid_filter/enabled_global", g.chance(0.4));
    P("mapping/voxel_grid_filter/leaf_size", g.range(0.1, 0.4));
    if (s.tight_solver) {
        P("isam2/relinearize_skip", 1);
        P("isam2/relinearize_threshold", 1e-4);
        P("isam2/gauss_newton_params/wildfire_threshold", 1e-7);
    }
    if (g.chance(0.15)) P("isam2/factorization", "QR");
    if (s.imu_overwrite) {
        P("imu/noise/overwrite", true);
        P("imu/noise/accelerometer", g.range(0.005, 0.02));
        P("imu/noise/gyroscope", g.range(0.001, 0.004));
    }
    P("prior_noise/position", g.range(1e-3, 1e-2));
    P("prior_noise/rotation", g.range(1e-3, 1e-2));
    P("prior_noise/linear_velocity", g.range(1e-2, 1e-1));
    if (s.baro) {
        P("prior_noise/barometer_bias", g.range(0.01, 0.3));
        P("barometer/noise/barometer_bias", g.range(0.001, 0.02));
        if (g.chance(0.4)) { P("barometer/noise/overwrite", true); P("barometer/noise/barometer", g.range(0.02, 0.2)); }
    }
    if (s.marg) {
        P("optimisation/marginalisation/enabled", true);
        s.marg_window = g.irange(2, 6);
        P("optimisation/marginalisation/window_size", s.marg_window);
    }
    if (is("c14")) s.stereo_only = g.chance(0.65);
    struct { int textures = 0, amp = 0, side = 0, gain = 0, rows = 0; double own = 0, dv = 0; } hard;  // ambiguity of the images
    if (s.stereo) {
        P("stereo_tracking/detector/type", "FAST");
        P("stereo_tracking/new_feature_dist_threshold", g.range(3, 6));
        const char* mf[] = {"RATIO_TEST", "UNIDIRECTIONAL", "BIDIRECTIONAL"};
        P("stereo_tracking/stereo_keypoint_matcher/matching_filter", mf[g.below(3)]);
        P("stereo_tracking/stereo_keypoint_matcher/cost_function", g.chance(0.6) ? "SAD" : "SSD");
        P("stereo_tracking/stereo_distance_filter/enabled", g.chance(0.3));
        P("stereo_tracking/stereo_distance_filter/max_distance", g.range(5, 12));
        P("stereo_tracking/stereo_distance_filter/min_distance", g.chance(0.5) ? 0.0 : g.range(2, 3.5));
        if (g.chance(0.2)) {
            P("stereo_mask/enabled", true);
            P("stereo_mask/top_left_x", g.irange(0, 40));
            P("stereo_mask/top_left_y", g.irange(0, 20));
            P("stereo_mask/width", g.irange(90, 119));
            P("stereo_mask/height", g.irange(50, 75));
        }
        P("stereo_factors/noise/left_x", g.range(1, 5));
        P("stereo_factors/noise/right_x", g.range(1, 5));
        P("stereo_factors/noise/y", g.range(1, 8));
        if (g.chance(0.4)) P("stereo_factors/robust/enabled", false);
        if (is("c14")) {
            P("debug/stereo/publish_stats", g.chance(0.5));
            P("debug/stereo/print_stats", g.chance(0.2));
            P("debug/stereo/publish_points", g.chance(0.5));
            P("debug/stereo/publish_intermediate_results", g.chance(0.15));
        }
        if (s.stereo_only) {
            P("threads", g.irange(1, 4));
            hard.textures = g.irange(2, 25);
            hard.amp = g.chance(0.25) ? 0 : g.irange(1, 6);
            hard.side = g.chance(0.3);
            hard.gain = g.chance(0.3);
            hard.rows = g.irange(3, 9);
            hard.own = g.chance(0.4) ? 0 : g.range(2, 30);
            hard.dv = g.chance(0.4) ? 0 : g.range(0.2, 1.2);
            const std::string M = "stereo_tracking/stereo_keypoint_matcher/";
            const char* cf[] = {"SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"};
            const std::string cost = cf[g.below(5)];
            P(M + "cost_function", cost);
            if (cost == "NNCC") P(M + "matching_filter", g.chance(0.5) ? "UNIDIRECTIONAL" : "BIDIRECTIONAL");  // the ratio of negative costs means nothing
            const int lo = cost == "SAD" || cost == "SSD" ? 0 : 1, ww = 2 * g.irange(lo, 3) + 1, wh = 2 * g.irange(lo, 3) + 1;
            P(M + "window_size/width", ww);
            P(M + "window_size/height", wh);
            P(M + "ratio", g.range(0.25, 0.95));
            if (!g.chance(0.15)) P(M + "vertical_pixel_threshold", g.range(0.3, 6));
            if (!g.chance(0.1)) P("stereo_tracking/stereo_match_filter/vertical_pixel_threshold", g.range(0.3, 2.9));
            const double A = ww * wh, m = hard.amp + 0.3 * hard.own;
            const double th = cost == "NNCC" ? -g.range(0.9, 0.9999) : cost == "SSD" ? A * g.range(0.2, 2.5) * m * m + 0.37 : A * g.range(0.2, 2.5) * m + 0.37;
            P(M + "cost_threshold", th);
            if (g.chance(0.3)) P("stereo_tracking/stereo_distance_filter/enabled", true);
        }
    }
    // Options beyond the ones above, from a stream of their own: a seed keeps everything else it had without them.
    sim::Rng x(mix(s.seed, hstr("ext")));
    int rows = 1;  // of a scan: more for organised clouds
    if (x.chance(0.65)) {
        if (x.chance(0.35)) rows = x.irange(2, 5);
        if (body && x.chance(0.5)) for (const char* c : {"x", "y", "z"}) {
            P(std::string("body_filter/translation/") + c, x.range(-1.5, 1.5));
            P(std::string("body_filter/rotation/r") + c, x.range(-1.5, 1.5));
        }
        if (x.chance(0.1)) P("first_pointcloud_removal/enabled", true);
        if (s.sweep > 0 && x.chance(0.15)) { P("time_field_filter/enabled", true); P("time_field_filter/max", s.sweep * x.range(0.6, 1.02)); }
        const bool coarse = voxel && !range && !body && !sor && !rs && x.chance(0.4);  // still leaving enough points
        if (coarse) {
            P("voxel_grid_filter/leaf_size", x.range(6.0, 8.0));
            P("voxel_grid_filter/minimum_points_number_per_voxel", x.irange(1, 2));
        }
        if (x.chance(0.15)) { P("mapping/voxel_grid_filter/leaf_size", x.range(5.0, 7.0)); P("mapping/voxel_grid_filter/minimum_points_number_per_voxel", coarse ? 1 : x.irange(1, 2)); P("s2m/base/max_correspondence_distance", x.range(5.0, 7.0)); }
        if (!coarse && x.chance(0.25)) { P("normal_estimation/method", "radius"); P("normal_estimation/radius", x.range(4.0, 7.0)); for (const char* c : {"s2s", "s2m"}) P(std::string(c) + "/base/max_correspondence_distance", x.range(4.0, 6.0)); }
        if (x.chance(0.2)) P("normal_estimation/viewpoint/y", x.range(-1, 1));
        if (x.chance(0.3)) P("normal_estimation/threads", x.irange(1, 3));
        if (x.chance(0.4)) { P("registration_covariance/constant/rotation", x.range(0.005, 0.05)); P("registration_covariance/constant/translation", x.range(0.005, 0.05)); }
        if (x.chance(0.3)) P("registration_covariance/point_covariance/constant", x.range(0.02, 0.1));
        if (x.chance(0.3)) P("registration_covariance/point_covariance/range_noise", x.range(0.02, 0.1));
        if (x.chance(0.3)) P("registration_covariance/point_covariance/range_bias_noise", x.range(0.01, 0.05));
        if (x.chance(0.3)) { P("imu/noise/integration", x.range(2e-4, 4e-3)); P("imu/noise/integration_bias", x.range(2e-4, 4e-3)); }
        if (x.chance(0.25)) { P("debug/registration/publish_clouds", true); P("debug/registration/publish_clouds_alt", x.chance(0.5)); }
        if (x.chance(0.1)) P("debug/registration/check_normals", true);
        if (x.chance(0.15)) P("isam2/evaluate_nonlinear_error", true);
        if (x.chance(0.15)) P("isam2/cache_linearized_factors", false);
        if (x.chance(0.15)) {
            P("isam2/optimization", "Dogleg");
            P("isam2/dogleg_params/initial_delta", x.range(0.5, 2.0));
            P("isam2/dogleg_params/wildfire_threshold", s.tight_solver ? 1e-7 : 1e-5);
            if (x.chance(0.5)) P("isam2/dogleg_params/trust_region_adaptation_mode", "ONE_STEP_PER_ITERATION");
        }
        if (s.stereo) {
            if (x.chance(0.4)) {
                const char* rt[] = {"cauchy", "dcs", "fair", "geman_mcclure", "huber", "huber", "null", "cauchy", "welsch"};
                const std::string t = rt[x.below(9)], R = "stereo_factors/robust/" + t + "/";
                P("stereo_factors/robust/enabled", true);
                P("stereo_factors/robust/type", t);
                P(R + (t == "cauchy" || t == "huber" ? "k" : "c"), x.range(1.0, 5.0));
                if (x.chance(0.4)) P(R + "reweight_scheme", "SCALAR");
            }
            if (x.chance(0.3)) P("debug/optimisation/publish_stereo_points", true);
        }
    }
    s.duration = s.n_scans / s.scan_rate + 0.3;

    // ------------------------------------------------------------ faults (parameters drawn before use, so each can be switched off)
    const double D = s.duration;
    std::vector<std::string> topics{"imu", "pointcloud"};
    if (s.stereo) for (const char* c : {"left_image", "right_image", "left_info", "right_info", "stereo"}) topics.push_back(c);
    if (s.baro) topics.push_back("barometer");
    auto bias_topic = [&]() -> std::string {
        if (is("c09") && g.chance(0.7)) return "barometer";
        if ((is("c10") || is("c14")) && g.chance(0.7)) return topics[2 + g.below(5)];
        if (is("c03") && g.chance(0.6)) return "imu";
        return topics[g.below(topics.size())];
    };
    s.faults.push_back({"jitter", "*", 0, 0, -1, true});
    if (g.chance(p_hold)) {
        const int n = g.irange(1, 3);
        for (int i = 0; i < n; ++i) { const double a = g.range(0, D); s.faults.push_back({"hold", bias_topic(), a, a + g.range(0.02, 0.6), -1, true}); }
    }
    if (g.chance(p_loss)) {
        const int n = g.irange(1, 3);
        for (int i = 0; i < n; ++i) {
            const std::string t = bias_topic();
            const double a = g.range(0, D);
            const double u = g.uni();
            if (u < 0.35) s.faults.push_back({"drop", t, 0, 0, g.irange(0, int(D * 15)), true});
            else if (u < 0.75) s.faults.push_back({"gap", t, a, a + g.range(0.02, 0.45), -1, true});
            else s.faults.push_back({"late_start", t, 0, g.range(0.02, 0.5), -1, true});
        }
    }
    if (g.chance(p_tf)) { const int n = g.irange(1, 2); for (int i = 0; i < n; ++i) { const double a = g.range(-0.2, D); s.faults.push_back({"tf", "*", a, a + g.range(0.05, 1.5), -1, true}); } }
    if (s.service_calls) { const int n = g.irange(1, 4); for (int i = 0; i < n; ++i) { const double a = g.range(0.05, D + 1.0); s.faults.push_back({"service", g.chance(0.6) ? "publish_map" : "publish_pose_graph", a, a, -1, true}); } }
    if (s.shutdown) { const double a = g.chance(0.1) ? 0.0 : g.range(0.0, D + 1.5); s.faults.push_back({"shutdown", "*", a, a, -1, true}); }
    if (s.stereo) {
        if (g.chance(0.5)) s.faults.push_back({"track_loss", "*", 0, g.range(0.02, 0.3), -1, true});
        if (g.chance(0.25)) s.faults.push_back({"track_err", "*", 0, g.range(0.02, 0.15), -1, true});
        if (g.chance(0.3)) { const double a = g.range(0, D); s.faults.push_back({"no_features", "*", a, a + g.range(0.03, 0.3), -1, true}); }
    }
    for (size_t i = 0; i < s.faults.size(); ++i) if (o.faults_off.count(int(i))) s.faults[i].on = false;
    if (o.no_jitter) s.faults[0].on = false;
    const bool jitter = s.faults[0].on;
    // ------------------------------------------------------------ schedule strategy
    const bool stall = g.chance(p_stall);
    sim::Strategy& st = s.strat;
    r = g.uni();
    st.mode = g.chance(0.3) ? 1 : 0;
    st.p_switch = r < 0.25 ? 0.01 : r < 0.7 ? 0.1 : 0.35;
    st.p_pick = g.range(0.2, 0.9);
    st.p_change = g.range(0.001, 0.02);
    st.p_stall = stall ? g.range(0.0005, 0.01) : 0;
    st.p_start = stall ? g.range(0.01, 0.15) : 0;
    st.p_link = g.range(0, 0.4);
    st.max_stall = stall ? g.irange(3, 8) : 2;

    // ------------------------------------------------------------ world
    sim::Rng wg(mix(seed, hstr("world")));
    const Iso mid = s.traj.pose(D / 2);
    for (int i = 0; i < s.n_points; ++i) {
        V3 d(wg.gauss(), wg.gauss(), wg.gauss());
        if (d.norm() < 1e-6) d = V3::UnitX();
        s.world.push_back(mid.translation() + d.normalized() * wg.range(2.5, 15));
    }
    const double phase_scan = s.aligned ? 0.05 : g.range(0.02, 0.12);
    const double phase_imu = s.aligned ? 0 : g.range(0, 0.01);
    const double phase_st = s.aligned ? (g.chance(0.5) ? 0.05 : 0.06) : g.range(0, 0.1);
    const double phase_baro = s.aligned ? 0.05 : g.range(0, 0.25);
    const double end = D + 0.4;
    auto stamp_at = [&](double t, uint64_t topic_h, int i) {
        Nanos n = Nanos(std::llround(t * 1e9));
        if (s.aligned) n = n / sim::MS * sim::MS;
        else n += Nanos(mix(mix(seed, topic_h), uint64_t(i)) % 400000);  // sub-millisecond stamping jitter
        return s.epoch + n;
    };
    // --- IMU
    const double cov_acc = g.range(1e-4, 4e-4), cov_gyr = g.range(1e-6, 1e-5);
    const bool zero_cov = s.imu_overwrite && g.chance(0.5);
    {
        sim::Rng n(mix(seed, hstr("imu")));
        const Qd ned(Eigen::AngleAxisd(M_PI, V3::UnitX()));
        int i = 0;
        for (double t = phase_imu; t < end; t += 1 / s.imu_rate, ++i) {
            auto m = std::make_shared<sensor_msgs::Imu>();
            const Nanos ns = stamp_at(t, hstr("imu"), i);
            m->header.stamp.fromNSec(ns);
            m->header.frame_id = "imu";
            m->header.seq = i;
            V3 a, w;
            Qd q;
            imu_truth(s, s.rel(ns), a, w, q);
            for (int k = 0; k < 3; ++k) { a[k] += s.acc_bias[k] + s.acc_noise * n.gauss(); w[k] += s.gyr_bias[k] + s.gyr_noise * n.gauss(); }
            if (s.ned) q = ned.inverse() * q;
            q.normalize();
            m->linear_acceleration.x = a[0]; m->linear_acceleration.y = a[1]; m->linear_acceleration.z = a[2];
            m->angular_velocity.x = w[0]; m->angular_velocity.y = w[1]; m->angular_velocity.z = w[2];
            if (s.imu_orientation) { m->orientation.w = q.w(); m->orientation.x = q.x(); m->orientation.y = q.y(); m->orientation.z = q.z(); }
            else { m->orientation.w = m->orientation.x = m->orientation.y = m->orientation.z = 0; }
            for (int k = 0; k < 3; ++k) {
                m->linear_acceleration_covariance[4 * k] = zero_cov ? 0 : cov_acc * (1 + 0.4 * ((i * 7) % 5) / 5.0);
                m->angular_velocity_covariance[4 * k] = zero_cov ? 0 : cov_gyr * (1 + 0.4 * ((i * 7) % 5) / 5.0);
                m->orientation_covariance[4 * k] = 1e-4;
            }
            s.inputs.push_back(mk("imu", i, ns, m));
        }
    }
    // --- LiDAR
    double first_scan = -1;
    {
        const bool with_range = g.chance(0.7), uneven = mix(seed, hstr("uneven")) % 10 < 6;
        const std::string tf = g.chance(0.5) ? "time" : "t";
        const Iso L = s.ext["lidar"];
        for (int i = 0; i < s.n_scans; ++i) {
            const double t0 = phase_scan + i / s.scan_rate;
            const Nanos ns = stamp_at(t0, hstr("pointcloud"), i);
            if (first_scan < 0) first_scan = s.rel(ns);
            sim::Rng n(mix(mix(seed, hstr("scan")), uint64_t(i)));
            const double sweep = s.sweep * (uneven && i % 2 ? 1 - 0.5 * n.uni() : 1.0);
            auto m = std::make_shared<sensor_msgs::PointCloud2>();
            m->header.stamp.fromNSec(ns);
            m->header.frame_id = "sensor_raw";
            m->header.seq = i;
            struct F { const char* n; uint32_t off; uint8_t type; };
            std::vector<F> fs;
            uint32_t step;
            const bool ouster = s.cloud_type == "OUSTER";
            if (ouster) {
                fs = {{"x", 0, 7}, {"y", 4, 7}, {"z", 8, 7}, {"intensity", 16, 7}, {"t", 20, 6}, {"reflectivity", 24, 4}, {"ring", 26, 2}, {"ambient", 28, 4}, {"range", 32, 6}};
                step = 48;
            } else {
                fs = {{"x", 0, 7}, {"y", 4, 7}, {"z", 8, 7}, {tf.c_str(), 12, 7}};
                step = 16;
                if (with_range) { fs.push_back({"range", 16, 7}); step = 20; }
            }
            for (auto& f : fs) { sensor_msgs::PointField pf; pf.name = f.n; pf.offset = f.off; pf.datatype = f.type; pf.count = 1; m->fields.push_back(pf); }
            m->point_step = step;
            m->is_bigendian = false;
            m->is_dense = true;
            std::vector<uint8_t> d;
            uint32_t k = 0;
            for (size_t j = 0; j < s.world.size(); ++j) {
                if (n.chance(0.05)) continue;  // not every point is seen in every scan
                double frac = n.uni();
                if (k == 0) frac = 1.0;  // the sweep's last firing
                const double tp = sweep * frac;
                const uint32_t t_ns = uint32_t(std::llround(tp * 1e9));
                const float t_f = float(tp);
                const double tt = s.rel(ns) + (ouster ? t_ns * 1e-9 : double(t_f));
                const V3 p = (s.traj.pose(tt) * L).inverse() * s.world[j];
                std::vector<uint8_t> q(step, 0);
                const float xyz[3] = {float(p[0]), float(p[1]), float(p[2])};
                put(q, 0, xyz, 12);
                if (ouster) {
                    const float in = float(j);
                    const uint16_t refl = uint16_t(j * 3), amb = uint16_t(i);
                    const uint8_t ring = uint8_t(j % 16);
                    const uint32_t rng_mm = uint32_t(std::llround(p.norm() * 1000));
                    put(q, 16, &in, 4); put(q, 20, &t_ns, 4); put(q, 24, &refl, 2); put(q, 26, &ring, 1); put(q, 28, &amb, 2); put(q, 32, &rng_mm, 4);
                } else {
                    put(q, 12, &t_f, 4);
                    const float rr = float(p.norm());
                    if (with_range) put(q, 16, &rr, 4);
                }
                d.insert(d.end(), q.begin(), q.end());
                ++k;
            }
            while (rows > 1 && k % rows) { d.resize(d.size() - step); --k; }
            m->height = rows;
            m->width = k / rows;
            m->row_step = m->width * step;
            m->data = d;
            s.inputs.push_back(mk("pointcloud", i, ns, m));
        }
        if (s.cloud_type != "OUSTER" && !with_range) s.params["/serpent/range_filter/enabled"] = false;  // filters on the range field
    }
    // --- barometer
    if (s.baro) {
        sim::Rng n(mix(seed, hstr("baro")));
        int i = 0;
        const double var = g.range(0.001, 0.05);
        for (double t = phase_baro; t < end; t += 1 / s.baro_rate, ++i) {
            auto m = std::make_shared<sensor_msgs::FluidPressure>();
            const Nanos ns = stamp_at(t, hstr("baro"), i);
            m->header.stamp.fromNSec(ns);
            m->header.frame_id = "baro";
            const double h = s.traj.pose(s.rel(ns)).translation().z() + 100;
            m->fluid_pressure = 101325.0 * std::pow(1 - 2.25577e-5 * h, 5.25588) + 0.5 * n.gauss();
            m->variance = var * (1 + 0.3 * n.uni());
            s.inputs.push_back(mk("barometer", i, ns, m));
        }
    }
    // --- stereo
    if (s.stereo) {
        sim::Rng n(mix(seed, hstr("stereo")));
        const Iso C = s.ext["stereo"];
        s.baseline = 0.4;
        for (int i = 0; i < 60; ++i) {  // landmarks in the frustum of some pose of the trajectory
            const Iso Tc = s.traj.pose(n.range(0, D)) * C;
            const double z = n.range(2.5, 9);
            const V3 pc((n.range(10, s.img_w - 10) - s.cx) / s.fx * z, (n.range(10, s.img_h - 10) - s.cy) / s.fy * z, z);
            s.landmarks.push_back({Tc * pc, uint32_t(mix(seed, 7000 + i))});
        }
        int i = 0;
        for (double t = phase_st; t < end; t += 1 / s.stereo_rate, ++i) {
            const Nanos ns = stamp_at(t, hstr("stereo"), i);
            StereoFrame f;
            f.index = i;
            f.stamp = ns;
            for (auto& ft : s.faults) if (ft.on && ft.kind == "no_features" && s.rel(ns) >= ft.t0 && s.rel(ns) <= ft.t1) f.featureless = true;
            const Iso Ti = (s.traj.pose(s.rel(ns)) * C).inverse();
            std::vector<std::pair<double, int>> order;
            std::vector<V3> pc(s.landmarks.size());
            for (size_t j = 0; j < s.landmarks.size(); ++j) { pc[j] = Ti * s.landmarks[j].p; order.push_back({pc[j].z(), int(j)}); }
            std::sort(order.begin(), order.end());
            for (auto& [z, j] : order) {
                if (f.featureless || z < 1.0) continue;
                sim::Rng pn(mix(mix(seed, 5000 + i), uint64_t(j)));
                const double e0 = 0.4 * pn.gauss(), e1 = 0.4 * pn.gauss(), e2 = 0.4 * pn.gauss();  // detection noise
                const double u = s.fx * pc[j].x() / z + s.cx + e0, v = s.fy * pc[j].y() / z + s.cy + e1, ur = u - s.fx * s.baseline / z + 0.3 * e2;
                if (u < 6 || ur < 6 || v < 6 || u > s.img_w - 7 || ur > s.img_w - 7 || v > s.img_h - 7) continue;
                bool clear = true;
                for (auto& [k, q] : f.px) if (std::abs(q[2] - v) < 8 && (std::abs(q[0] - u) < 8 || std::abs(q[1] - ur) < 8)) { clear = false; break; }
                if (clear) f.px[j] = V3(double(float(u)), double(float(ur)), double(float(v)));
            }
            for (auto& [j, q] : f.px) { f.pt[0][j] = {float(q[0]), float(q[2])}; f.pt[1][j] = {float(q[1]), float(q[2])}; }
            if (s.stereo_only) {  // points on few rows with similar textures, some in one image only, in front of no real scene
                f.px.clear();
                f.pt[0].clear();
                f.pt[1].clear();
                const double tau = s.rel(ns);
                for (int j = 0; !f.featureless && j < 60; ++j) {
                    sim::Rng a(mix(seed, 9000 + j)), pn(mix(mix(seed, 6000 + i), uint64_t(j)));
                    const int W = s.img_w, H = s.img_h;
                    const double vx = a.range(-25, 25), vy = a.range(-6, 6), d = a.chance(0.15) ? a.range(0.2, 4) : a.range(4, 36);
                    auto wrap = [](double x, double n) { x = std::fmod(x, n); return x < 0 ? x + n : x; };
                    const double u = wrap(a.range(0, W + 20) + vx * tau, W + 20) - 5, v = wrap((H - 4) * (0.5 + a.below(uint64_t(hard.rows))) / hard.rows + 0.8 * a.gauss() + vy * tau, H - 1);
                    const double x[2] = {u + 0.3 * pn.gauss(), u - d + 0.3 * pn.gauss()}, y[2] = {v + 0.3 * pn.gauss(), v + hard.dv * pn.gauss()};
                    for (int lr = 0; lr < 2; ++lr) {
                        const bool hidden = hard.side && a.chance(0.15), blink = pn.chance(0.04);
                        if (hidden || blink || x[lr] < 0 || y[lr] < 0 || x[lr] >= W - 0.01 || y[lr] >= H - 0.01 || (y[lr] < 5 && x[lr] < 9)) continue;
                        bool clear = true;
                        for (auto& [k, q] : f.pt[lr]) if (std::abs(q.first - x[lr]) < 4.5 && std::abs(q.second - y[lr]) < 4.5) clear = false;
                        if (clear) f.pt[lr][j] = {float(x[lr]), float(y[lr])};
                    }
                }
            }
            for (int lr = 0; lr < 2; ++lr) {
                auto im = std::make_shared<sensor_msgs::Image>();
                im->header.stamp.fromNSec(ns);
                im->header.frame_id = lr ? "right_cam" : "left_cam";
                im->header.seq = i;
                im->width = s.img_w;
                im->height = s.img_h;
                im->encoding = "mono8";
                im->step = s.img_w;
                im->data.assign(size_t(s.img_w) * s.img_h, 10);
                im->data[0] = uint8_t(i & 255);
                im->data[1] = uint8_t(i >> 8);
                im->data[2] = uint8_t(lr);
                if (s.stereo_only) {
                    sim::Rng nz(mix(mix(seed, 8000 + i), uint64_t(lr)));
                    auto put = [&](int x, int y, double val) {
                        if (x < 0 || y < 0 || x >= s.img_w || y >= s.img_h || (y == 0 && x < 3)) return;
                        val += hard.amp ? nz.irange(-hard.amp, hard.amp) : 0;
                        if (lr && hard.gain) val = 1.15 * val + 6;
                        im->data[size_t(y) * s.img_w + x] = uint8_t(std::clamp(val, 2.0, 255.0));
                    };
                    for (int y = 0; y < s.img_h; ++y) for (int x = 0; x < s.img_w; ++x) put(x, y, 10);
                    for (auto& [j, q] : f.pt[lr]) {
                        sim::Rng tx(mix(seed, 7700 + j % hard.textures)), ow(mix(seed, 7900 + j));
                        const int x = int(std::floor(q.first)), y = int(std::floor(q.second));
                        for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) put(x + dx, y + dy, 40 + 150 * tx.uni() + hard.own * ow.range(-1, 1));
                    }
                }
                else for (auto& [j, q] : f.px) {
                    sim::Rng tx(s.landmarks[j].tex);
                    const int x = int(std::floor(lr ? q[1] : q[0])), y = int(std::floor(q[2]));
                    for (int dy = -2; dy <= 2; ++dy) for (int dx = -2; dx <= 2; ++dx) im->data[size_t(y + dy) * s.img_w + x + dx] = uint8_t(30 + tx.below(220));
                }
                auto ci = std::make_shared<sensor_msgs::CameraInfo>();
                ci->header = im->header;
                ci->width = s.img_w;
                ci->height = s.img_h;
                ci->K = {s.fx, 0, s.cx, 0, s.fy, s.cy, 0, 0, 1};
                ci->P = {s.fx, 0, s.cx, lr ? -s.fx * s.baseline : 0, 0, s.fy, s.cy, 0, 0, 0, 1, 0};
                s.inputs.push_back(mk(lr ? "right_image" : "left_image", i, ns, im));
                s.inputs.push_back(mk(lr ? "right_info" : "left_info", i, ns, ci));
            }
            s.frames.push_back(f);
        }
    }
    // ------------------------------------------------------------ initial state
    const Iso X0 = s.traj.pose(first_scan);
    const V3 v0 = (s.traj.pose(first_scan + 1e-4).translation() - s.traj.pose(first_scan - 1e-4).translation()) / 2e-4;
    P("pose/position/x", X0.translation().x());
    P("pose/position/y", X0.translation().y());
    P("pose/position/z", X0.translation().z());
    P("velocity/linear/x", v0.x());
    P("velocity/linear/y", v0.y());
    P("velocity/linear/z", v0.z());

    if (s.stereo_only) {
        s.split = false;
        s.inputs.erase(std::remove_if(s.inputs.begin(), s.inputs.end(), [](const Input& in) { return in.topic == "imu" || in.topic == "pointcloud" || in.topic == "barometer"; }), s.inputs.end());
    }
    // ------------------------------------------------------------ arrival times and losses
    std::map<std::string, double> base;
    for (const char* c : {"imu", "pointcloud", "left_image", "right_image", "left_info", "right_info", "barometer"}) {
        sim::Rng lg(mix(seed, hstr(std::string("lat") + c)));
        base[c] = lg.chance(0.3) ? lg.range(0.02, 0.25) : lg.range(0.0, 0.02);
        if (std::string(c) == "imu") base[c] *= 0.5;
    }
    const double jit_p = g.range(0.0, 0.3), jit_d = g.range(0.005, 0.2);
    std::map<std::string, Nanos> fifo;
    std::map<std::string, std::string> cls;
    s.last_input = 0;
    auto applies = [&](const Fault& f, const Input& in) {
        if (f.topic == in.topic || f.topic == "*") return true;
        return f.topic == "stereo" && in.topic != "imu" && in.topic != "pointcloud" && in.topic != "barometer";
    };
    for (Input& in : s.inputs) {
        double t = s.rel(in.stamp) + base[in.topic];
        if (in.topic == "pointcloud") t += s.sweep;
        if (jitter && huni(seed, in.topic, in.index, 1) < jit_p) t += jit_d * huni(seed, in.topic, in.index, 2);
        for (const Fault& f : s.faults) {
            if (!f.on || !applies(f, in)) continue;
            if (f.kind == "hold" && t >= f.t0 && t < f.t1) t = f.t1;
            if (f.kind == "drop" && in.index == f.index) in.dropped = true;
            if (f.kind == "gap" && s.rel(in.stamp) >= f.t0 && s.rel(in.stamp) < f.t1) in.dropped = true;
            if (f.kind == "late_start" && s.rel(in.stamp) < f.t1) in.dropped = true;
        }
        Nanos a = s.epoch + Nanos(std::llround(t * 1e9));
        Nanos& lo = fifo[in.topic];
        a = std::max(a, lo + 1000);
        lo = a;
        in.arrive = a;
        s.last_input = std::max(s.last_input, s.rel(a));
    }
    std::stable_sort(s.inputs.begin(), s.inputs.end(), [](const Input& a, const Input& b) { return a.arrive < b.arrive; });
}
}  // namespace hs
