// Simulation of the stand-alone stream nodes (C16): every node runs as its own simulated process on randomly generated
// streams with losses, bursts, duplicates, reordering, delays and restarts; each output is judged against a reference model.
#include <cstdarg>
#include <cstring>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/navigation/NavState.h>

#include "driver.hpp"
#include "eigen_ros/lookup_transform.h"
#include "geometry_msgs/PoseStamped.h"
#include "geometry_msgs/PoseWithCovarianceStamped.h"
#include "nav_msgs/Odometry.h"
#include "nav_msgs/Path.h"
#include "statistics_msgs/SummaryStatisticsArray.h"

int sim_main_imu_transform_main(int, char**);
int sim_main_imu_analysis_main(int, char**);
int sim_main_odometry_to_tf_node(int, char**);
int sim_main_combine_transforms_node(int, char**);
int sim_main_integrate_imu_node(int, char**);
int sim_main_publish_info_main(int, char**);
int sim_main_change_frame_id_main(int, char**);
int sim_main_split_image_main(int, char**);
int sim_main_pointcloud_analyser_main(int, char**);
int sim_main_body_frames_tf_node(int, char**);

using namespace hs;
using namespace drv;
typedef Eigen::Matrix3d M3;
typedef XmlRpc::XmlRpcValue X;

namespace {
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x165667B19E3779F9ull;
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
    return x;
}
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static Qd rand_q(sim::Rng& g) { return Qd(g.gauss(), g.gauss(), g.gauss(), g.gauss()).normalized(); }
static V3 rand_v(sim::Rng& g, double s) { return V3(g.gauss(), g.gauss(), g.gauss()) * s; }
static Iso make_iso(const V3& p, const Qd& q) { Iso T = Iso::Identity(); T.linear() = q.toRotationMatrix(); T.translation() = p; return T; }
template<class Q> static void setq(Q& m, const Qd& q) { m.w = q.w(); m.x = q.x(); m.y = q.y(); m.z = q.z(); }
template<class P> static void setv(P& m, const V3& v) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
template<class Q> static Qd getq(const Q& m) { return Qd(m.w, m.x, m.y, m.z); }
template<class P> static V3 getv(const P& m) { return V3(m.x, m.y, m.z); }
static double qdist(const Qd& a, const Qd& b) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()); }

// ---------------------------------------------------------------- scenario
struct ImageCfg { std::string topic, frame, info_topic, model; int u, v, w, h; double k[5]; double fx, fy; int cx, cy; std::vector<std::pair<std::string, std::string>> ops; };
struct Node {
    std::string name;
    int (*main)(int, char**);
    std::vector<std::pair<std::string, size_t>> in;  // topic, queue capacity the node promises
    bool on = false;
    Nanos start = 0, restart_down = -1, restart_up = -1;
};
struct FrameNode { std::string name, id, parent; Iso T_parent, T_body; bool dynamic = false, lookup = false; std::vector<std::string> aliases; V3 amp{0, 0, 0}; };
struct Tools {
    std::vector<Node> nodes;
    bool rotation_param = false; M3 imu_rotation = M3::Identity(); bool overwrite = false; std::string new_frame;
    std::string fixed = "fixed", transformed = "fixed"; bool apply = false; V3 an_t{0, 0, 0}; M3 an_R = M3::Identity();
    std::string transform_type = "TransformStamped";
    double gravity = 9.81, na = 1e-3, ng = 1e-3, ni = 1e-3, nb = 1e-3, nba = 1e-3, nbg = 1e-3; V3 p0{0, 0, 0}, v0{0, 0, 0}; Iso body_imu = Iso::Identity();
    std::string frame_id = "CHANGED_FRAME_ID_DEFAULT";
    std::string model; std::vector<double> D; double K[4] = {0, 0, 0, 0}, P[5] = {0, 0, 0, 0, 0};
    std::vector<ImageCfg> images;
    std::vector<FrameNode> frames;
    std::string body, body_id;
} T;
Node* node(const std::string& n) { for (auto& x : T.nodes) if (x.name == n && x.on) return &x; return nullptr; }

template<class M> static Input mk(const std::string& topic, int index, Nanos stamp, std::shared_ptr<M> m) {
    Input in;
    in.topic = topic; in.stamp = stamp; in.index = index; in.ops = ros::OpsFor<M>::get(); in.m = sim::AnyMsg{m, &typeid(M)};
    return in;
}
static X mat_param(const M3& R) { std::vector<double> v; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) v.push_back(R(r, c)); return X(v); }

void gen_frames(Scn& s, sim::Rng& g) {
    X& bf = s.params["/body_frames_tf/body_frames"];
    T.body = g.chance(0.5) ? "base_link" : "imu";
    T.body_id = g.chance(0.5) ? "robot/" + T.body : T.body;
    X top;
    if (T.body_id != T.body) top["frame_id"] = X(T.body_id);
    T.frames.clear();
    FrameNode root; root.name = T.body; root.id = T.body_id; root.T_parent = root.T_body = Iso::Identity();
    T.frames.push_back(root);
    int budget = g.irange(0, 8), id = 0;
    std::function<X(const FrameNode&, int)> make = [&](const FrameNode& parent, int depth) {
        X fr;
        const int n = depth == 0 ? std::max(1, g.irange(1, 3)) : g.irange(1, 2);
        for (int i = 0; i < n && budget >= 0; ++i) {
            --budget;
            FrameNode f;
            f.name = fmt("f%d", id++);
            f.id = g.chance(0.5) ? "robot/" + f.name : f.name;
            f.parent = parent.name;
            X v;
            v.t = X::TypeStruct;
            if (f.id != f.name) v["frame_id"] = X(f.id);
            f.T_parent = make_iso(rand_v(g, 0.7), rand_q(g));
            f.dynamic = g.chance(0.15);
            if (f.dynamic) { v["dynamic"] = X(true); f.amp = rand_v(g, 0.2); if (parent.dynamic) f.T_parent = Iso::Identity(); }
            else {
                f.lookup = g.chance(0.2);
                const Qd q(f.T_parent.linear());
                if (f.lookup) v["lookup_tf"] = X(true);
                if (!f.lookup || g.chance(0.3)) {
                    // entries beside lookup_tf are ignored
                    const V3 t = f.lookup ? rand_v(g, 1) : V3(f.T_parent.translation());
                    const double scale = g.chance(0.2) ? g.range(0.5, 2) : 1;
                    if (!f.lookup && g.chance(0.2)) f.T_parent.translation() = V3::Zero();
                    else for (int k = 0; k < 3; ++k) {
                        if (!f.lookup && g.chance(0.1)) { f.T_parent.translation()[k] = 0; v["translation"].t = X::TypeStruct; continue; }
                        v["translation"][k == 0 ? "x" : k == 1 ? "y" : "z"] = X(t[k]);
                    }
                    if (!f.lookup && g.chance(0.2)) f.T_parent.linear() = M3::Identity();
                    else { v["rotation"]["w"] = X(q.w() * scale); v["rotation"]["x"] = X(q.x() * scale); v["rotation"]["y"] = X(q.y() * scale); v["rotation"]["z"] = X(q.z() * scale); }
                }
                for (int k = g.chance(0.3) ? g.irange(1, 3) : 0; k > 0; --k) { f.aliases.push_back(fmt("alias_%s_%d", f.name.c_str(), k)); }
                if (!f.aliases.empty()) v["aliases"] = X(f.aliases);
            }
            f.T_body = parent.T_body * f.T_parent;
            T.frames.push_back(f);
            if (!f.dynamic && depth < 3 && g.chance(0.4)) v["frames"] = make(f, depth + 1);
            fr[f.name] = v;
        }
        if (fr.t == X::TypeInvalid) fr.t = X::TypeStruct;
        return fr;
    };
    X fr = make(root, 0);
    top["frames"] = fr;
    bf[T.body] = top;
}
Iso frame_pose(const FrameNode& f, double t) {
    Iso r = f.T_body;
    if (f.dynamic) r.translation() += f.amp * std::sin(t);
    return r;
}
}  // namespace

namespace hs {
void generate(Scn& s, const std::string& profile, uint64_t seed, const Overrides& o) {
    s.profile = profile;
    s.seed = seed;
    s.rng = sim::Rng(mix(seed, hstr(profile)));
    sim::Rng& g = s.rng;
    auto P = [&](const std::string& n, const X& v) { s.params["/" + n] = v; };
    s.epoch = Nanos(1600000000) * sim::SEC + Nanos(g.below(1000000000ull));
    T = Tools();
    T.nodes = {{"imu_transform", sim_main_imu_transform_main, {{"/imu_transform/imu", 1000}}}, {"imu_analysis", sim_main_imu_analysis_main, {{"/imu_analysis/imu", 1000}}},
        {"odometry_to_tf", sim_main_odometry_to_tf_node, {{"/odometry_to_tf/input", 1}}}, {"combine_transforms", sim_main_combine_transforms_node, {{"/combine_transforms/input", 100}}},
        {"integrate_imu", sim_main_integrate_imu_node, {{"/integrate_imu/input", 100}}}, {"publish_info", sim_main_publish_info_main, {{"/publish_info/input/image", 10}}},
        {"change_frame_id", sim_main_change_frame_id_main, {{"/change_frame_id/input/image", 10}, {"/change_frame_id/input/camera_info", 10}}},
        {"split_image", sim_main_split_image_main, {{"/split_image/input/image", 10}}}, {"pointcloud_analyser", sim_main_pointcloud_analyser_main, {{"/pointcloud_analyser/input", 100}}},
        {"body_frames_tf", sim_main_body_frames_tf_node, {}}};
    int on = 0;
    for (auto& n : T.nodes) on += n.on = g.chance(0.35);
    if (!on) T.nodes[g.below(T.nodes.size())].on = true;
    if (g.chance(0.4)) { s.strat.mode = 1; s.strat.p_change = 0.02; }
    s.strat.p_switch = g.range(0.02, 0.4);
    s.strat.p_pick = g.range(0.1, 0.9);
    s.strat.p_stall = g.chance(0.6) ? g.range(0.001, 0.05) : 0;
    s.strat.p_start = g.chance(0.6) ? g.range(0.01, 0.4) : 0;
    s.strat.p_link = g.range(0, 0.5);
    s.strat.max_stall = g.irange(1, sim::N_DELAYS - 1);
    const int N = o.n_scans > 0 ? o.n_scans : g.irange(4, 30);
    s.n_scans = N;
    const double D = g.range(0.2, 3.0);
    s.duration = D;

    // ------------------------------------------------------------ configuration
    if (g.chance(0.75)) { T.rotation_param = true; T.imu_rotation = rand_q(g).toRotationMatrix(); P("imu_transform/rotation", mat_param(T.imu_rotation)); }
    T.overwrite = g.chance(0.5);
    T.new_frame = g.chance(0.8) ? "new_imu" : "";
    if (T.overwrite || g.chance(0.3)) P("imu_transform/overwrite_frame", X(T.overwrite));
    if (!T.new_frame.empty()) P("imu_transform/new_frame", X(T.new_frame));
    if (g.chance(0.3)) { P("imu_transform/imu_topic", X("other_imu")); P("imu_transform/imu_transformed_topic", X("other_out")); T.nodes[0].in[0].first = "/imu_transform/other_imu"; }
    if (g.chance(0.5)) { T.fixed = "world"; P("imu_analysis/fixed_frame", X(T.fixed)); }
    T.apply = g.chance(0.7);
    P("imu_analysis/apply_transform", X(T.apply));
    if (g.chance(0.7)) { T.transformed = "sensor"; P("imu_analysis/transformed_frame", X(T.transformed)); }
    if (g.chance(0.7)) { T.an_t = rand_v(g, 1); P("imu_analysis/translation", X(std::vector<double>{T.an_t.x(), T.an_t.y(), T.an_t.z()})); }
    if (g.chance(0.7)) { T.an_R = rand_q(g).toRotationMatrix(); P("imu_analysis/rotation", mat_param(T.an_R)); }
    const char* types[] = {"TransformStamped", "PoseStamped", "PoseWithCovarianceStamped"};
    T.transform_type = types[g.below(3)];
    if (T.transform_type != types[0] || g.chance(0.5)) P("combine_transforms/transform_type", X(T.transform_type));
    // integrate_imu
    if (g.chance(0.5)) { T.gravity = g.range(9.7, 9.9); P("integrate_imu/gravity", X(T.gravity)); }
    auto noise = [&](const char* n, double& v) { if (g.chance(0.6)) { v = std::pow(10.0, g.range(-4, -1)); P(std::string("integrate_imu/imu/noise/") + n, X(v)); } };
    noise("accelerometer", T.na); noise("gyroscope", T.ng); noise("integration", T.ni); noise("integration_bias", T.nb); noise("accelerometer_bias", T.nba); noise("gyroscope_bias", T.nbg);
    for (int k = 0; k < 3; ++k) {
        const char* ax[] = {"x", "y", "z"};
        if (g.chance(0.7)) { T.p0[k] = g.range(-5, 5); P(std::string("integrate_imu/pose/position/") + ax[k], X(T.p0[k])); }
        if (g.chance(0.7)) { T.v0[k] = g.range(-2, 2); P(std::string("integrate_imu/velocity/linear/") + ax[k], X(T.v0[k])); }
    }
    if (g.chance(0.7)) T.body_imu = make_iso(rand_v(g, 0.4), rand_q(g));
    {
        X f, top, all;
        const Qd q(T.body_imu.linear());
        f["translation"]["x"] = X(T.body_imu.translation().x()); f["translation"]["y"] = X(T.body_imu.translation().y()); f["translation"]["z"] = X(T.body_imu.translation().z());
        f["rotation"]["w"] = X(q.w()); f["rotation"]["x"] = X(q.x()); f["rotation"]["y"] = X(q.y()); f["rotation"]["z"] = X(q.z());
        top["frames"]["imu"] = f;
        all["base_link"] = top;
        P("integrate_imu/body_frames", all);
    }
    if (g.chance(0.8)) { T.frame_id = "renamed"; P("change_frame_id/frame_id", X(T.frame_id)); }
    if (g.chance(0.8)) { T.model = "plumb_bob"; P("publish_info/distortion_model", X(T.model)); }
    if (g.chance(0.8)) { for (int k = g.irange(0, 8); k > 0; --k) T.D.push_back(g.gauss()); P("publish_info/distortion_coefficients", X(T.D)); if (T.D.empty()) s.params["/publish_info/distortion_coefficients"].t = X::TypeArray; }
    const char* kn[] = {"fx", "cx", "fy", "cy"};
    for (int k = 0; k < 4; ++k) {
        if (g.chance(0.9)) { T.K[k] = g.range(10, 900); P(std::string("publish_info/K/") + kn[k], X(T.K[k])); }
        if (g.chance(0.9)) { T.P[k] = g.range(10, 900); P(std::string("publish_info/P/") + kn[k], X(T.P[k])); }
    }
    if (g.chance(0.6)) { T.P[4] = g.range(0.05, 1); P("publish_info/P/baseline", X(T.P[4])); }
    const int iw = g.irange(4, 24), ih = g.irange(4, 24);
    {
        X arr;
        arr.t = X::TypeArray;
        for (int i = 0, n = g.irange(1, 3); i < n; ++i) {
            ImageCfg c;
            c.topic = fmt("cam%d/image", i); c.info_topic = fmt("cam%d/info", i); c.frame = fmt("cam%d_frame", i); c.model = "plumb_bob";
            c.w = g.irange(1, iw); c.h = g.irange(1, ih); c.u = g.irange(0, iw - c.w); c.v = g.irange(0, ih - c.h);
            for (double& k : c.k) k = g.gauss();
            c.fx = g.range(10, 900); c.fy = g.range(10, 900); c.cx = g.irange(0, c.w); c.cy = g.irange(0, c.h);
            X v;
            v["topic"] = X(c.topic); v["info_topic"] = X(c.info_topic); v["frame_id"] = X(c.frame);
            v["region"]["u"] = X(c.u); v["region"]["v"] = X(c.v); v["region"]["w"] = X(c.w); v["region"]["h"] = X(c.h);
            v["distortion"]["model"] = X(c.model);
            const char* dn[] = {"k1", "k2", "t1", "t2", "k3"};
            for (int k = 0; k < 5; ++k) v["distortion"][dn[k]] = X(c.k[k]);
            v["intrinsic"]["fx"] = X(c.fx); v["intrinsic"]["fy"] = X(c.fy); v["intrinsic"]["cx"] = X(c.cx); v["intrinsic"]["cy"] = X(c.cy);
            std::map<std::string, std::string> ops;  // a parameter struct is ordered by name
            if (g.chance(0.35)) { const char* d[] = {"horiz", "vert", "both"}; ops["flip"] = d[g.below(3)]; v["operations"]["flip"] = X(ops["flip"]); }
            for (const char* r : {"rotate_acw", "rotate_cw"}) if (g.chance(0.35)) { const int deg = 90 * g.irange(0, 3); ops[r] = std::to_string(deg); v["operations"][r] = X(deg); }
            c.ops.assign(ops.begin(), ops.end());
            T.images.push_back(c);
            arr.a.push_back(v);
        }
        P("split_image/images", arr);
    }
    gen_frames(s, g);

    // ------------------------------------------------------------ streams
    const bool disorder = g.chance(0.2);  // stamps do not follow the order of sending
    const char* encs[] = {"mono8", "rgb8", "mono16", "bgr8", "32FC1"};
    const std::string enc = encs[g.below(5)];
    const int esz = enc == "mono8" ? 1 : enc == "mono16" ? 2 : enc == "32FC1" ? 4 : 3;
    auto image = [&](sim::Rng& r, Nanos t, int i) {
        auto m = std::make_shared<sensor_msgs::Image>();
        m->header.stamp.fromNSec(t); m->header.frame_id = r.chance(0.8) ? "camera" : "camera2"; m->header.seq = i;
        m->width = iw; m->height = ih; m->encoding = enc; m->step = iw * esz + (r.chance(0.3) ? 8 : 0);
        m->data.resize(size_t(m->step) * ih);
        for (auto& b : m->data) b = uint8_t(r.below(256));
        if (enc == "32FC1") for (size_t k = 0; k + 4 <= m->data.size(); k += 4) { const float v = float(r.gauss()); memcpy(&m->data[k], &v, 4); }
        return m;
    };
    auto imu = [&](sim::Rng& r, Nanos t, int i, bool zero_q) {
        auto m = std::make_shared<sensor_msgs::Imu>();
        m->header.stamp.fromNSec(t); m->header.frame_id = r.chance(0.9) ? "imu" : "imu2"; m->header.seq = i;
        setq(m->orientation, zero_q ? Qd(0, 0, 0, 0) : rand_q(r));
        setv(m->angular_velocity, rand_v(r, 0.5)); setv(m->linear_acceleration, rand_v(r, 1) + V3(0, 0, 9.8));
        for (auto* c : {&m->orientation_covariance, &m->angular_velocity_covariance, &m->linear_acceleration_covariance}) {
            M3 A; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) A(a, b) = r.gauss();
            const M3 S = A * A.transpose();
            for (int k = 0; k < 9; ++k) (*c)[k] = S(k / 3, k % 3);
        }
        return m;
    };
    const bool zero_q = g.chance(0.25);
    for (auto& n : T.nodes) {
        if (!n.on) continue;
        sim::Rng ng(mix(mix(seed, hstr(n.name)), 3));
        const int cnt = n.name == "imu_transform" || n.name == "imu_analysis" || n.name == "integrate_imu" ? N * 3 : N;
        const double dt = D / cnt;
        double t = ng.range(0, 0.05);
        for (int i = 0; i < cnt; ++i) {
            sim::Rng r(mix(mix(seed, hstr(n.name)), 100 + i));
            t += dt * r.range(0.2, 1.8);
            Nanos st = s.epoch + Nanos(t * 1e9);
            if (disorder && n.name != "integrate_imu") st += Nanos(r.range(-4, 4) * dt * 1e9);
            for (size_t k = 0; k < n.in.size(); ++k) {
                const std::string& tp = n.in[k].first;
                Input in;
                if (n.name == "imu_transform" || n.name == "imu_analysis" || n.name == "integrate_imu") in = mk(tp, i, st, imu(r, st, i, zero_q && n.name == "integrate_imu"));
                else if (n.name == "odometry_to_tf") {
                    auto m = std::make_shared<nav_msgs::Odometry>();
                    m->header.stamp.fromNSec(st); m->header.frame_id = "map"; m->child_frame_id = r.chance(0.8) ? "base" : "base2"; m->header.seq = i;
                    setv(m->pose.pose.position, rand_v(r, 3)); setq(m->pose.pose.orientation, rand_q(r));
                    in = mk(tp, i, st, m);
                } else if (n.name == "combine_transforms") {
                    const V3 p = rand_v(r, 1); const Qd q = r.chance(0.1) ? Qd::Identity() : rand_q(r);
                    if (T.transform_type == "TransformStamped") {
                        auto m = std::make_shared<geometry_msgs::TransformStamped>();
                        m->header.stamp.fromNSec(st); m->header.frame_id = "a"; m->child_frame_id = "b"; setv(m->transform.translation, p); setq(m->transform.rotation, q);
                        in = mk(tp, i, st, m);
                    } else if (T.transform_type == "PoseStamped") {
                        auto m = std::make_shared<geometry_msgs::PoseStamped>();
                        m->header.stamp.fromNSec(st); m->header.frame_id = "a"; setv(m->pose.position, p); setq(m->pose.orientation, q);
                        in = mk(tp, i, st, m);
                    } else {
                        auto m = std::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
                        m->header.stamp.fromNSec(st); m->header.frame_id = "a"; setv(m->pose.pose.position, p); setq(m->pose.pose.orientation, q);
                        for (int a = 0; a < 6; ++a) m->pose.covariance[a * 7] = r.range(0.01, 1);
                        in = mk(tp, i, st, m);
                    }
                } else if (k == 1) {
                    auto m = std::make_shared<sensor_msgs::CameraInfo>();
                    m->header.stamp.fromNSec(st); m->header.frame_id = "camera"; m->header.seq = i; m->width = iw; m->height = ih; m->distortion_model = "plumb_bob";
                    for (int a = 0; a < 5; ++a) m->D.push_back(r.gauss());
                    for (auto& v : m->K) v = r.gauss();
                    for (auto& v : m->R) v = r.gauss();
                    for (auto& v : m->P) v = r.gauss();
                    in = mk(tp, i, st, m);
                } else if (n.name == "pointcloud_analyser") {
                    auto m = std::make_shared<sensor_msgs::PointCloud2>();
                    m->header.stamp.fromNSec(st); m->header.frame_id = "lidar"; m->header.seq = i;
                    m->height = r.irange(1, 3); m->width = r.irange(1, 20); m->is_dense = true;
                    static const int dts[] = {1, 2, 3, 4, 5, 6, 7, 8}, sz[] = {0, 1, 1, 2, 2, 4, 4, 4, 8};
                    std::vector<std::pair<std::string, int>> fs;
                    if (r.chance(0.7)) for (const char* f : {"x", "y", "z"}) fs.push_back({f, 7});
                    if (r.chance(0.3)) for (const char* f : {"normal_x", "normal_y", "normal_z"}) fs.push_back({f, 7});
                    for (int f = r.irange(fs.empty() ? 1 : 0, 4); f > 0; --f) fs.push_back({fmt("e%d", f), dts[r.below(8)]});
                    uint32_t off = 0;
                    for (auto& f : fs) {
                        sensor_msgs::PointField pf;
                        off += r.chance(0.2) ? 4 : 0;
                        pf.name = f.first; pf.datatype = uint8_t(f.second); pf.count = 1; pf.offset = off;
                        off += sz[f.second];
                        m->fields.push_back(pf);
                    }
                    m->point_step = off + (r.chance(0.3) ? 4 : 0);
                    m->row_step = m->point_step * m->width;
                    m->data.assign(size_t(m->row_step) * m->height, 0xAB);
                    const double centre = r.chance(0.5) ? 0 : r.range(-60, 60);
                    for (size_t p = 0; p < size_t(m->width) * m->height; ++p) for (size_t f = 0; f < fs.size(); ++f) {
                        uint8_t* d = &m->data[p * m->point_step + m->fields[f].offset];
                        const double v = centre + r.gauss() * 10;
                        switch (fs[f].second) {
                            case 1: { int8_t x = int8_t(std::max(-128.0, std::min(127.0, v))); memcpy(d, &x, 1); break; }
                            case 2: { uint8_t x = uint8_t(std::abs(v)); memcpy(d, &x, 1); break; }
                            case 3: { int16_t x = int16_t(v * 100); memcpy(d, &x, 2); break; }
                            case 4: { uint16_t x = uint16_t(std::abs(v) * 100); memcpy(d, &x, 2); break; }
                            case 5: { int32_t x = int32_t(v * 1e6); memcpy(d, &x, 4); break; }
                            case 6: { uint32_t x = uint32_t(std::abs(v) * 2e7); memcpy(d, &x, 4); break; }
                            case 7: { float x = float(v); memcpy(d, &x, 4); break; }
                            case 8: memcpy(d, &v, 8); break;
                        }
                    }
                    in = mk(tp, i, st, m);
                } else in = mk(tp, i, st, image(r, st, i));
                in.arrive = s.epoch + Nanos(t * 1e9);
                s.inputs.push_back(in);
            }
        }
    }
    // ------------------------------------------------------------ faults
    const std::vector<std::string> topics = [&] { std::vector<std::string> v; for (auto& n : T.nodes) if (n.on) for (auto& i : n.in) v.push_back(i.first); return v; }();
    s.faults.push_back({"jitter", "*", 0, 0, -1, true});
    if (!topics.empty()) {
        if (g.chance(0.6)) for (int i = g.irange(1, 4); i > 0; --i) { const double a = g.range(0, D); s.faults.push_back({"hold", g.pick(topics), a, a + g.range(0.05, 1.0), -1, true}); }
        if (g.chance(0.5)) for (int i = g.irange(1, 6); i > 0; --i) s.faults.push_back({"drop", g.pick(topics), 0, 0, g.irange(0, N - 1), true});
        if (g.chance(0.2)) { const double a = g.range(0, D); s.faults.push_back({"gap", g.pick(topics), a, a + g.range(0.05, 0.5) * D, -1, true}); }
        if (g.chance(0.3)) for (int i = g.irange(1, 3); i > 0; --i) s.faults.push_back({"duplicate", g.pick(topics), 0, 0, g.irange(0, N - 1), true});
        if (g.chance(0.3)) for (int i = g.irange(1, 3); i > 0; --i) s.faults.push_back({"swap", g.pick(topics), 0, 0, g.irange(0, N - 2), true});
        if (g.chance(0.3)) { std::vector<std::string> ns; for (auto& n : T.nodes) if (n.on) ns.push_back(n.name); const double a = g.range(0, D); s.faults.push_back({"restart", g.pick(ns), a, a + g.range(0.05, 0.5), -1, true}); }
    }
    if (g.chance(0.3)) s.faults.push_back({"tf", "*", -3.5, -3.5 + g.range(0.05, 0.9), -1, true});
    for (int i = 0; i < 3; ++i) s.faults.push_back({"service", "body_frames_tf", g.range(0, D), 0, i, true});
    for (size_t i = 0; i < s.faults.size(); ++i) if (o.faults_off.count(int(i))) s.faults[i].on = false;
    if (o.no_jitter) s.faults[0].on = false;
    // ------------------------------------------------------------ arrival
    std::map<std::string, double> lat;
    for (auto& t : topics) { sim::Rng lg(mix(seed, hstr(t))); lat[t] = lg.chance(0.3) ? lg.range(0.02, 0.4) : lg.range(0, 0.01); }
    std::map<std::string, Nanos> fifo;
    std::vector<Input> extra;
    for (const Fault& f : s.faults) if (f.on && f.kind == "swap") {
        Input *a = nullptr, *b = nullptr;
        for (auto& in : s.inputs) if (in.topic == f.topic) { if (in.index == f.index) a = &in; if (in.index == f.index + 1) b = &in; }
        if (a && b && f.topic.find("integrate") == std::string::npos) { std::swap(a->arrive, b->arrive); }
    }
    std::stable_sort(s.inputs.begin(), s.inputs.end(), [](const Input& a, const Input& b) { return a.arrive < b.arrive; });
    for (Input& in : s.inputs) {
        double t = s.rel(in.arrive) + lat[in.topic];
        sim::Rng jr(mix(mix(seed, hstr(in.topic)), 7000 + in.index));
        if (s.faults[0].on && jr.chance(0.2)) t += jr.range(0, 0.2);
        bool dup = false;
        for (const Fault& f : s.faults) {
            if (!f.on || f.topic != in.topic) continue;
            if (f.kind == "hold" && t >= f.t0 && t < f.t1) t = f.t1;
            if (f.kind == "drop" && in.index == f.index) in.dropped = true;
            if (f.kind == "gap" && s.rel(in.stamp) >= f.t0 && s.rel(in.stamp) < f.t1) in.dropped = true;
            if (f.kind == "duplicate" && in.index == f.index) dup = true;
        }
        Nanos a = std::max(s.epoch + Nanos(std::llround(t * 1e9)), fifo[in.topic] + 1000);
        fifo[in.topic] = a;
        in.arrive = a;
        if (dup && in.topic.find("integrate") == std::string::npos) { Input e = in; e.arrive = a + 500; extra.push_back(e); }
        s.last_input = std::max(s.last_input, s.rel(a));
    }
    s.inputs.insert(s.inputs.end(), extra.begin(), extra.end());
    std::stable_sort(s.inputs.begin(), s.inputs.end(), [](const Input& a, const Input& b) { return a.arrive < b.arrive; });
}
}  // namespace hs

// ---------------------------------------------------------------- recording and oracle
namespace {
struct TE { uint64_t seq; Nanos t; sim::Ev kind; std::string topic; const sim::Process* proc; int sub; uint64_t pub; Nanos stamp; std::shared_ptr<const void> m; const std::type_info* type; };
struct Inst { sim::Process* p; Node* n; };
struct Call { Inst* inst = nullptr; std::string source, target; bool done = false, ok = false; Nanos t_lookup = 0; Iso result; };
std::vector<TE> ev;
std::map<uint64_t, const TE*> by_pub;

struct Judge {
    const Scn& s; Rec& rec; const Inst& in; bool stopped_early;
    std::vector<const TE*> accepted(const std::string& topic, bool ended = false) const {
        std::vector<const TE*> r;
        for (auto& e : ev) if (e.kind == (ended ? sim::Ev::CbEnd : sim::Ev::CbStart) && e.proc == in.p && e.topic == topic) r.push_back(&e);
        return r;
    }
    std::vector<const TE*> out(const std::string& topic) const {
        std::vector<const TE*> r;
        for (auto& e : ev) if (e.kind == sim::Ev::Publish && e.proc == in.p && e.topic == topic) r.push_back(&e);
        return r;
    }
    template<class M> static const M& msg(const TE* accepted) { return *static_cast<const M*>(by_pub.at(accepted->pub)->m.get()); }
    template<class M> const M* body(const TE* o) const {
        if (*o->type != typeid(M)) { const_cast<Judge*>(this)->v("type", fmt("%s has the wrong message type", o->topic.c_str())); return nullptr; }
        return static_cast<const M*>(o->m.get());
    }
    void v(const std::string& cls, const std::string& m) { rec.add("C16", in.n->name + ": " + cls, m); }
    // number of outputs for `n` accepted inputs, given that `done` callbacks completed before any shutdown
    bool count(const std::string& topic, size_t got, size_t n, size_t per = 1) {
        const size_t lo = in.p->shutdown_at >= 0 || stopped_early ? (n ? (n - 1) * per : 0) : n * per;
        if (got > n * per) { v("extra output", fmt("%zu messages on %s for %zu accepted inputs", got, topic.c_str(), n)); return false; }
        if (got < lo) { v("missing output", fmt("%zu messages on %s for %zu accepted inputs", got, topic.c_str(), n)); return false; }
        rec.counters["C16.outputs"] += got;
        return true;
    }
    bool stamp(const char* what, size_t i, const ros::Time& got, Nanos want) {
        if (Nanos(got.toNSec()) == want) return true;
        v("stamp", fmt("%s %zu is stamped %+.9f s from its input", what, i, double(Nanos(got.toNSec()) - want) * 1e-9));
        return false;
    }
};

void judge_transport(Judge& j) {
    for (auto& [topic, cap] : j.in.n->in) {
        std::vector<const TE*> del;
        std::map<uint64_t, std::vector<size_t>> idx;
        size_t run = 0, dropped = 0, k = 0, first_live = 0;
        for (auto& e : ev) {
            if (e.proc != j.in.p || e.topic != topic) continue;
            if (e.kind == sim::Ev::Deliver) del.push_back(&e);
            if (e.kind == sim::Ev::DropQueue) {
                ++dropped;
                // the oldest waiting message gave way: at least `cap` messages must have been waiting
                const size_t waiting = del.size() - run - (dropped - 1);
                if (waiting < cap) { j.v("lost input", fmt("a message on %s was discarded with %zu waiting; the node promises room for %zu", topic.c_str(), waiting, cap)); break; }
            }
            if (e.kind == sim::Ev::CbStart) ++run;
            (void)k; (void)first_live;
        }
        j.rec.counters["C16.delivered"] += del.size();
        j.rec.counters["C16.accepted"] += run;
        j.rec.counters["C16.queue_dropped"] += dropped;
        if (j.in.p->shutdown_at < 0 && !j.stopped_early && run + dropped != del.size()) j.v("stuck", fmt("%zu of %zu messages delivered on %s were never processed", del.size() - run - dropped, del.size(), topic.c_str()));
        // everything sent while the node was up reaches it
        size_t sent = 0;
        for (auto& e : ev) if (e.kind == sim::Ev::Publish && !e.proc && e.topic == topic && e.t >= j.in.n->start && (j.in.p->shutdown_at < 0 || e.t < j.in.p->shutdown_at)) {
            const bool second = j.in.n->restart_up >= 0 && j.in.p->shutdown_at < 0;
            if (second && e.t < j.in.n->restart_up + 2 * sim::SEC) continue;
            ++sent;
        }
        if (!j.stopped_early && del.size() < sent) j.v("not listening", fmt("%zu messages were sent on %s, %zu reached the node", sent, topic.c_str(), del.size()));
    }
}
void judge_imu_transform(Judge& j) {
    const std::string topic = j.in.n->in[0].first, ot = topic.find("other") != std::string::npos ? "/imu_transform/other_out" : "/imu_transform/imu_transformed";
    auto in = j.accepted(topic), out = j.out(ot);
    if (!j.count(ot, out.size(), in.size())) return;
    const Qd R(T.imu_rotation);
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::Imu>(in[i]);
        const auto* b = j.body<sensor_msgs::Imu>(out[i]);
        if (!b) return;
        if (!j.stamp("transformed IMU", i, b->header.stamp, in[i]->stamp)) return;
        if (!(qdist(getq(b->orientation), R * getq(a.orientation)) < 1e-9)) j.v("orientation", fmt("transformed orientation %zu is not the rotated input orientation", i));
        if (!((getv(b->angular_velocity) - getv(a.angular_velocity)).norm() < 1e-12 && (getv(b->linear_acceleration) - getv(a.linear_acceleration)).norm() < 1e-12)) j.v("measurement", fmt("measurements of message %zu changed", i));
        for (int k = 0; k < 9; ++k) if (!(b->angular_velocity_covariance[k] == a.angular_velocity_covariance[k] && b->linear_acceleration_covariance[k] == a.linear_acceleration_covariance[k])) { j.v("measurement", fmt("measurement covariances of message %zu changed", i)); break; }
        const std::string want = T.overwrite ? T.new_frame : a.header.frame_id;
        if (b->header.frame_id != want) j.v("frame", fmt("frame of message %zu is '%s', expected '%s'", i, b->header.frame_id.c_str(), want.c_str()));
    }
}
void judge_imu_analysis(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/tf");
    const size_t per = T.apply ? 2 : 1;
    if (!j.count("/tf", out.size(), in.size(), per)) return;
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::Imu>(in[i / per]);
        const auto* b = j.body<geometry_msgs::TransformStamped>(out[i]);
        if (!b) return;
        const bool second = i % per;
        if (!j.stamp("transform", i, b->header.stamp, in[i / per]->stamp)) return;
        const Qd q = second ? getq(a.orientation) * Qd(T.an_R) : getq(a.orientation);
        const V3 t = second ? T.an_t : V3::Zero();
        if (b->header.frame_id != T.fixed || b->child_frame_id != (second ? T.transformed : a.header.frame_id)) j.v("frame", fmt("transform %zu is %s -> %s", i, b->header.frame_id.c_str(), b->child_frame_id.c_str()));
        if (!(qdist(getq(b->transform.rotation), q) < 1e-9 && (getv(b->transform.translation) - t).norm() < 1e-12)) j.v("value", fmt("transform %zu has the wrong value", i));
    }
}
void judge_odometry_to_tf(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/tf");
    if (!j.count("/tf", out.size(), in.size())) return;
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& a = Judge::msg<nav_msgs::Odometry>(in[i]);
        const auto* b = j.body<geometry_msgs::TransformStamped>(out[i]);
        if (!b) return;
        if (!j.stamp("transform", i, b->header.stamp, in[i]->stamp)) return;
        if (b->header.frame_id != a.header.frame_id || b->child_frame_id != a.child_frame_id) j.v("frame", fmt("transform %zu is %s -> %s", i, b->header.frame_id.c_str(), b->child_frame_id.c_str()));
        if (!(qdist(getq(b->transform.rotation), getq(a.pose.pose.orientation)) < 1e-9 && (getv(b->transform.translation) - getv(a.pose.pose.position)).norm() < 1e-12)) j.v("value", fmt("transform %zu is not the pose of its odometry", i));
    }
}
void judge_combine(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/combine_transforms/odometry"), paths = j.out("/combine_transforms/path");
    if (!j.count("odometry", out.size(), in.size()) || !j.count("path", paths.size(), in.size())) return;
    Iso X = Iso::Identity();
    std::vector<std::pair<Iso, Nanos>> hist;
    for (size_t i = 0; i < out.size(); ++i) {
        V3 p; Qd q;
        if (T.transform_type == "TransformStamped") { const auto& m = Judge::msg<geometry_msgs::TransformStamped>(in[i]); p = getv(m.transform.translation); q = getq(m.transform.rotation); }
        else if (T.transform_type == "PoseStamped") { const auto& m = Judge::msg<geometry_msgs::PoseStamped>(in[i]); p = getv(m.pose.position); q = getq(m.pose.orientation); }
        else { const auto& m = Judge::msg<geometry_msgs::PoseWithCovarianceStamped>(in[i]); p = getv(m.pose.pose.position); q = getq(m.pose.pose.orientation); }
        X = X * make_iso(p, q);
        hist.push_back({X, in[i]->stamp});
        const auto* b = j.body<nav_msgs::Odometry>(out[i]);
        if (!b) return;
        if (!j.stamp("odometry", i, b->header.stamp, in[i]->stamp)) return;
        if (!((getv(b->pose.pose.position) - X.translation()).norm() < 1e-6 && qdist(getq(b->pose.pose.orientation), Qd(X.linear())) < 1e-6)) { j.v("value", fmt("odometry %zu is not the product of the first %zu transforms", i, i + 1)); return; }
    }
    for (size_t i = 0; i < paths.size(); ++i) {
        const auto* b = j.body<nav_msgs::Path>(paths[i]);
        if (!b) return;
        if (!j.stamp("path", i, b->header.stamp, in[i]->stamp)) return;
        if (b->poses.size() != i + 1) { j.v("path length", fmt("path %zu holds %zu poses", i, b->poses.size())); return; }
        for (size_t k = 0; k <= i && k < hist.size(); ++k) {
            if (!j.stamp("path pose", k, b->poses[k].header.stamp, hist[k].second)) return;
            if (!((getv(b->poses[k].pose.position) - hist[k].first.translation()).norm() < 1e-6 && qdist(getq(b->poses[k].pose.orientation), Qd(hist[k].first.linear())) < 1e-6)) { j.v("path value", fmt("pose %zu of path %zu is not the odometry of that time", k, i)); return; }
        }
    }
}
void judge_integrate(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/integrate_imu/odometry"), paths = j.out("/integrate_imu/path");
    const size_t n = in.empty() ? 0 : in.size() - 1;
    if (!j.count("odometry", out.size(), n) || !j.count("path", paths.size(), n)) return;
    auto par = gtsam::PreintegrationCombinedParams::MakeSharedU(T.gravity);
    par->setAccelerometerCovariance(M3::Identity() * T.na * T.na);
    par->setGyroscopeCovariance(M3::Identity() * T.ng * T.ng);
    par->setIntegrationCovariance(M3::Identity() * T.ni * T.ni);
    par->setBiasAccOmegaInit(Eigen::Matrix<double, 6, 6>::Identity() * T.nb * T.nb);
    par->setBiasAccCovariance(M3::Identity() * T.nba * T.nba);
    par->setBiasOmegaCovariance(M3::Identity() * T.nbg * T.nbg);
    par->setBodyPSensor(gtsam::Pose3(gtsam::Rot3(T.body_imu.linear()), T.body_imu.translation()));
    gtsam::PreintegratedCombinedMeasurements pim(par, gtsam::imuBias::ConstantBias());
    gtsam::NavState x0;
    for (size_t i = 0; i < in.size(); ++i) {
        const auto& m = Judge::msg<sensor_msgs::Imu>(in[i]);
        if (i == 0) {
            const Qd q = getq(m.orientation);
            const M3 R = q.norm() < 0.5 ? M3(M3::Identity()) : M3(q.toRotationMatrix() * T.body_imu.linear().transpose());
            x0 = gtsam::NavState(gtsam::Rot3(R), T.p0, T.v0);
            continue;
        }
        if (i > out.size()) break;
        pim.integrateMeasurement(getv(m.linear_acceleration), getv(m.angular_velocity), (ros::Duration().fromNSec(in[i]->stamp - in[i - 1]->stamp)).toSec());
        const gtsam::NavState x = pim.predict(x0, gtsam::imuBias::ConstantBias());
        const auto* b = j.body<nav_msgs::Odometry>(out[i - 1]);
        if (!b) return;
        if (!j.stamp("odometry", i, b->header.stamp, in[i]->stamp)) return;
        const double e = (getv(b->pose.pose.position) - x.position()).norm(), eq = qdist(getq(b->pose.pose.orientation), x.attitude().toQuaternion()), ev_ = (getv(b->twist.twist.linear) - x.v()).norm();
        const double sc = 1 + x.position().norm() + x.v().norm();
        if (!(e < 1e-6 * sc && eq < 1e-6 && ev_ < 1e-6 * sc)) { j.v("value", fmt("odometry %zu is off the integration of the received measurements by %.3g m, %.3g, %.3g m/s", i, e, eq, ev_)); return; }
        const Eigen::MatrixXd C = pim.preintMeasCov();
        for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) {
            const double want = C((r + 3) % 6, (c + 3) % 6), got = b->pose.covariance[r * 6 + c];
            if (!(std::abs(want - got) < 1e-9 + 1e-6 * std::abs(want))) { j.v("covariance", fmt("pose covariance (%d,%d) of odometry %zu is %.6g, expected %.6g", r, c, i, got, want)); return; }
        }
        if (i - 1 >= paths.size()) break;
        const auto* p = j.body<nav_msgs::Path>(paths[i - 1]);
        if (!p) return;
        if (!j.stamp("path", i, p->header.stamp, in[i]->stamp)) return;
        if (p->poses.size() != i) { j.v("path length", fmt("path %zu holds %zu poses", i, p->poses.size())); return; }
        if (!((getv(p->poses.back().pose.position) - x.position()).norm() < 1e-6 * sc && qdist(getq(p->poses.back().pose.orientation), x.attitude().toQuaternion()) < 1e-6)) { j.v("path value", fmt("last pose of path %zu is not its odometry", i)); return; }
        for (size_t k = 0; k < i; ++k) {
            if (!j.stamp("path pose", k, p->poses[k].header.stamp, in[k + 1]->stamp)) return;
            const auto* o = j.body<nav_msgs::Odometry>(out[k]);
            if (o && !((getv(p->poses[k].pose.position) - getv(o->pose.pose.position)).norm() < 1e-9)) { j.v("path value", fmt("pose %zu of path %zu is not the odometry of that time", k, i)); return; }
        }
    }
}
bool same_info(const sensor_msgs::CameraInfo& a, const sensor_msgs::CameraInfo& b) {
    return a.width == b.width && a.height == b.height && a.distortion_model == b.distortion_model && a.D == b.D && std::equal(a.K.begin(), a.K.end(), b.K.begin()) && std::equal(a.R.begin(), a.R.end(), b.R.begin()) && std::equal(a.P.begin(), a.P.end(), b.P.begin());
}
void judge_publish_info(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/publish_info/output/camera_info");
    if (!j.count("camera_info", out.size(), in.size())) return;
    sensor_msgs::CameraInfo w;
    w.distortion_model = T.model; w.D = T.D;
    w.K[0] = T.K[0]; w.K[2] = T.K[1]; w.K[4] = T.K[2]; w.K[5] = T.K[3]; w.K[8] = 1;
    w.R[0] = w.R[4] = w.R[8] = 1;
    w.P[0] = T.P[0]; w.P[2] = T.P[1]; w.P[3] = -T.P[0] * T.P[4]; w.P[5] = T.P[2]; w.P[6] = T.P[3]; w.P[10] = 1;
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::Image>(in[i]);
        const auto* b = j.body<sensor_msgs::CameraInfo>(out[i]);
        if (!b) return;
        if (!j.stamp("camera info", i, b->header.stamp, in[i]->stamp)) return;
        if (b->header.frame_id != a.header.frame_id) j.v("frame", fmt("camera info %zu has frame %s", i, b->header.frame_id.c_str()));
        w.width = a.width; w.height = a.height;
        if (!same_info(*b, w)) j.v("content", fmt("camera info %zu does not hold the configured calibration and the size of its image", i));
    }
}
void judge_change_frame(Judge& j) {
    // Exact-time synchronisation over ten pending stamps, replayed over the order in which the messages were processed
    struct Tup { const TE *im = nullptr, *ci = nullptr; };
    std::map<Nanos, Tup> pend;
    std::vector<Tup> want;
    for (auto& e : ev) {
        if (e.kind != sim::Ev::CbStart || e.proc != j.in.p) continue;
        const bool im = e.topic == j.in.n->in[0].first, ci = e.topic == j.in.n->in[1].first;
        if (!im && !ci) continue;
        Tup& t = pend[e.stamp];
        (im ? t.im : t.ci) = &e;
        if (t.im && t.ci) { want.push_back(t); pend.erase(pend.begin(), pend.upper_bound(e.stamp)); }
        while (pend.size() > 10) pend.erase(pend.begin());
    }
    auto oi = j.out("/change_frame_id/output/image"), oc = j.out("/change_frame_id/output/camera_info");
    if (!j.count("output/image", oi.size(), want.size()) || !j.count("output/camera_info", oc.size(), want.size())) return;
    j.rec.counters["C16.synchronised_sets"] += want.size();
    for (size_t i = 0; i < oi.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::Image>(want[i].im);
        const auto* b = j.body<sensor_msgs::Image>(oi[i]);
        if (!b || !j.stamp("image", i, b->header.stamp, want[i].im->stamp)) return;
        if (b->header.frame_id != T.frame_id) j.v("frame", fmt("image %zu has frame '%s'", i, b->header.frame_id.c_str()));
        if (!(b->width == a.width && b->height == a.height && b->encoding == a.encoding && b->step == a.step && b->data == a.data)) j.v("content", fmt("image %zu changed", i));
    }
    for (size_t i = 0; i < oc.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::CameraInfo>(want[i].ci);
        const auto* b = j.body<sensor_msgs::CameraInfo>(oc[i]);
        if (!b || !j.stamp("camera info", i, b->header.stamp, want[i].ci->stamp)) return;
        if (b->header.frame_id != T.frame_id) j.v("frame", fmt("camera info %zu has frame '%s'", i, b->header.frame_id.c_str()));
        if (!same_info(*b, a)) j.v("content", fmt("camera info %zu changed", i));
    }
}
struct Px { int w, h, n; std::vector<uint8_t> d; const uint8_t* at(int r, int c) const { return &d[(size_t(r) * w + c) * n]; } };
Px remap(const Px& a, bool transpose, std::function<std::pair<int, int>(int, int)> src) {
    Px o; o.w = transpose ? a.h : a.w; o.h = transpose ? a.w : a.h; o.n = a.n; o.d.resize(a.d.size());
    for (int r = 0; r < o.h; ++r) for (int c = 0; c < o.w; ++c) { auto q = src(r, c); memcpy(&o.d[(size_t(r) * o.w + c) * o.n], a.at(q.first, q.second), o.n); }
    return o;
}
void judge_split(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first);
    for (auto& c : T.images) {
        auto oi = j.out("/split_image/" + c.topic), oc = j.out("/split_image/" + c.info_topic);
        if (!j.count(c.topic, oi.size(), in.size()) || !j.count(c.info_topic, oc.size(), in.size())) return;
        for (size_t i = 0; i < std::max(oi.size(), oc.size()); ++i) {
            const auto& a = Judge::msg<sensor_msgs::Image>(in[i]);
            const int esz = a.encoding == "mono8" ? 1 : a.encoding == "mono16" ? 2 : a.encoding == "32FC1" ? 4 : 3;
            Px p; p.w = c.w; p.h = c.h; p.n = esz;
            for (int r = 0; r < c.h; ++r) p.d.insert(p.d.end(), a.data.begin() + size_t(c.v + r) * a.step + size_t(c.u) * esz, a.data.begin() + size_t(c.v + r) * a.step + size_t(c.u + c.w) * esz);
            double fx = c.fx, fy = c.fy, cx = c.cx, cy = c.cy, tol = 1e-9;
            for (auto& [op, arg] : c.ops) {
                int turn = 0;
                if (op == "rotate_cw") turn = std::stoi(arg) / 90;
                if (op == "rotate_acw") turn = (4 - std::stoi(arg) / 90) % 4;
                const int W = p.w, H = p.h;
                if (op != "flip" && turn == 0) continue;
                tol += 1.0;  // either convention for the position of a pixel's centre
                if (op == "flip" ? arg == "horiz" : false) { p = remap(p, false, [&](int r, int q) { return std::make_pair(r, W - 1 - q); }); cx = W - cx; }
                else if (op == "flip" && arg == "vert") { p = remap(p, false, [&](int r, int q) { return std::make_pair(H - 1 - r, q); }); cy = H - cy; }
                else if (op == "flip" || turn == 2) { p = remap(p, false, [&](int r, int q) { return std::make_pair(H - 1 - r, W - 1 - q); }); cx = W - cx; cy = H - cy; }
                else if (turn == 1) { p = remap(p, true, [&](int r, int q) { return std::make_pair(H - 1 - q, r); }); const double ox = cx; cx = H - cy; cy = ox; std::swap(fx, fy); }
                else { p = remap(p, true, [&](int r, int q) { return std::make_pair(q, W - 1 - r); }); const double ox = cx; cx = cy; cy = W - ox; std::swap(fx, fy); }
            }
            if (i < oi.size()) {
                const auto* b = j.body<sensor_msgs::Image>(oi[i]);
                if (!b || !j.stamp("image", i, b->header.stamp, in[i]->stamp)) return;
                if (b->header.frame_id != c.frame) j.v("frame", fmt("image %zu of %s has frame '%s'", i, c.topic.c_str(), b->header.frame_id.c_str()));
                bool good = int(b->width) == p.w && int(b->height) == p.h && b->encoding == a.encoding && b->data.size() >= size_t(b->step) * b->height;
                for (int r = 0; good && r < p.h; ++r) good = memcmp(b->data.data() + size_t(r) * b->step, p.at(r, 0), size_t(p.w) * esz) == 0;
                if (!good) { j.v("pixels", fmt("image %zu of %s is not the configured region and orientation of its input", i, c.topic.c_str())); return; }
            }
            if (i < oc.size()) {
                const auto* b = j.body<sensor_msgs::CameraInfo>(oc[i]);
                if (!b || !j.stamp("camera info", i, b->header.stamp, in[i]->stamp)) return;
                if (b->header.frame_id != c.frame) j.v("frame", fmt("camera info %zu of %s has frame '%s'", i, c.topic.c_str(), b->header.frame_id.c_str()));
                if (int(b->width) != p.w || int(b->height) != p.h) { j.v("info size", fmt("camera info %zu of %s says %ux%u for a %dx%d image", i, c.topic.c_str(), b->width, b->height, p.w, p.h)); return; }
                const double e = std::max({std::abs(b->K[0] - fx), std::abs(b->K[4] - fy), std::max(0.0, std::abs(b->K[2] - cx) - tol), std::max(0.0, std::abs(b->K[5] - cy) - tol), std::abs(b->K[8] - 1)});
                if (!(e < 1e-6)) { j.v("intrinsics", fmt("intrinsics of %s are (%.3f %.3f %.3f %.3f), expected (%.3f %.3f %.3f %.3f)", c.info_topic.c_str(), b->K[0], b->K[4], b->K[2], b->K[5], fx, fy, cx, cy)); return; }
                if (!(b->distortion_model == c.model && b->D.size() == 5 && std::equal(b->D.begin(), b->D.end(), c.k))) { j.v("distortion", fmt("distortion of %s is not the configured one", c.info_topic.c_str())); return; }
            }
        }
    }
}
void judge_analyser(Judge& j) {
    auto in = j.accepted(j.in.n->in[0].first), out = j.out("/pointcloud_analyser/output_statistics");
    if (!j.count("output_statistics", out.size(), in.size())) return;
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& a = Judge::msg<sensor_msgs::PointCloud2>(in[i]);
        const auto* b = j.body<statistics_msgs::SummaryStatisticsArray>(out[i]);
        if (!b || !j.stamp("statistics", i, b->header.stamp, us(in[i]->stamp))) return;
        if (b->header.frame_id != a.header.frame_id) j.v("frame", "frame of the statistics");
        if (b->statistics.size() != a.fields.size()) { j.v("fields", fmt("statistics %zu cover %zu of %zu fields", i, b->statistics.size(), a.fields.size())); return; }
        const size_t n = size_t(a.width) * a.height;
        for (size_t f = 0; f < a.fields.size(); ++f) {
            std::vector<double> v;
            for (size_t p = 0; p < n; ++p) {
                const uint8_t* d = &a.data[p * a.point_step + a.fields[f].offset];
                double x = 0;
                switch (a.fields[f].datatype) {
                    case 1: x = *(const int8_t*)d; break;
                    case 2: x = *d; break;
                    case 3: { int16_t y; memcpy(&y, d, 2); x = y; break; }
                    case 4: { uint16_t y; memcpy(&y, d, 2); x = y; break; }
                    case 5: { int32_t y; memcpy(&y, d, 4); x = y; break; }
                    case 6: { uint32_t y; memcpy(&y, d, 4); x = y; break; }
                    case 7: { float y; memcpy(&y, d, 4); x = y; break; }
                    case 8: memcpy(&x, d, 8); break;
                }
                v.push_back(x);
            }
            double mean = 0, var = 0, mn = v[0], mx = v[0];
            for (double x : v) { mean += x / n; mn = std::min(mn, x); mx = std::max(mx, x); }
            for (double x : v) var += (x - mean) * (x - mean) / n;
            const auto& st = b->statistics[f];
            const double sc = 1 + std::abs(mn) + std::abs(mx);
            if (st.label != a.fields[f].name || st.count != n || !(std::abs(st.min - mn) < 1e-9 * sc) || !(std::abs(st.max - mx) < 1e-9 * sc) || !(std::abs(st.mean - mean) < 1e-6 * sc) || !(std::abs(st.variance - var) < 1e-6 * sc * sc)) {
                j.v("statistics", fmt("field %s (type %d) of cloud %zu: min %.6g max %.6g mean %.6g var %.6g count %llu, expected %.6g %.6g %.6g %.6g %zu", a.fields[f].name.c_str(), a.fields[f].datatype, i, st.min, st.max, st.mean, st.variance, (unsigned long long)st.count, mn, mx, mean, var, n));
                return;
            }
        }
    }
}
void judge_body_frames(Judge& j) {
    std::map<std::string, const geometry_msgs::TransformStamped*> got;
    for (auto* o : j.out("/tf_static")) { const auto* b = j.body<geometry_msgs::TransformStamped>(o); if (!b) return; got[b->child_frame_id] = b; }
    if ((j.in.p->shutdown_at >= 0 || j.stopped_early) && got.empty()) return;
    for (auto& f : T.frames) {
        const bool want = f.name != T.body && !f.lookup && !f.dynamic;
        auto it = got.find(f.id);
        if (!want) { if (it != got.end()) j.v("static unwanted", fmt("frame %s is looked up in TF and yet broadcast", f.id.c_str())); }
        else if (it == got.end()) { j.v("static missing", fmt("frame %s was not broadcast", f.id.c_str())); continue; }
        else {
            const Iso E = make_iso(getv(it->second->transform.translation), getq(it->second->transform.rotation));
            if (it->second->header.frame_id != T.body_id) j.v("static parent", fmt("frame %s was broadcast under %s", f.id.c_str(), it->second->header.frame_id.c_str()));
            if (!((E.translation() - f.T_body.translation()).norm() < 1e-6 && qdist(Qd(E.linear()), Qd(f.T_body.linear())) < 1e-6)) j.v("static value", fmt("frame %s was broadcast with the wrong transform", f.id.c_str()));
            got.erase(it);
        }
        for (auto& a : f.aliases) {
            auto ai = got.find(a);
            if (ai == got.end()) { j.v("alias missing", fmt("alias %s was not broadcast", a.c_str())); continue; }
            if (!(ai->second->header.frame_id == f.id && getv(ai->second->transform.translation).norm() < 1e-12 && qdist(getq(ai->second->transform.rotation), Qd::Identity()) < 1e-12)) j.v("alias value", fmt("alias %s is not its frame", a.c_str()));
            got.erase(ai);
        }
    }
    for (auto& x : got) j.v("static unwanted", fmt("unknown frame %s was broadcast", x.first.c_str()));
    ++j.rec.counters["C16.body_frame_trees"];
}
}  // namespace

namespace drv {
std::set<std::string> crash_props(const Scn&, const std::string&, bool) { return {"C16"}; }

void run_one(const std::string& profile, uint64_t seed, const Overrides& ov, bool want_choices) {
    head_json = fmt("{\"seed\":%llu,\"profile\":\"%s\"", (unsigned long long)seed, profile.c_str());
    const double t_begin = wall();
    Scn s;
    scn = &s;
    generate(s, profile, seed, ov);
    std::string cfg;
    for (auto& n : T.nodes) if (n.on) cfg += (cfg.empty() ? "" : "+") + n.name;
    head_json += fmt(",\"nfaults\":%zu,\"nscans\":%d,\"config\":\"", s.faults.size(), s.n_scans) + cfg + "\"";
    sim::World w(seed * 2654435761ull + 17);
    sim::W = &w;
    w.strat = s.strat;
    w.params = s.params;
    const Nanos startup = s.epoch - 4 * sim::SEC;
    w.now_ = startup;
    if (ov.quiet_sched) { w.explicit_mode = true; w.explicit_choices = ov.choices; }
    Rec rec;
    ev.clear();
    w.observer = [&](const sim::Event& e) {
        TE r{e.seq, e.t, e.kind, e.topic, e.proc, e.sub_id, e.pub_seq, e.stamp, nullptr, nullptr};
        if (e.kind == sim::Ev::Publish && e.m.p && e.ops) {
            sim::AnyMsg c = e.ops->to_canon(e.m);
            if (c.p == e.m.p) c = e.ops->clone(e.m);
            r.m = c.p;
            r.type = e.ops->canon;
        }
        ev.push_back(std::move(r));
    };
    Nanos last_lookup = 0;
    w.tf = [&](const std::string& target, const std::string& source, sim::Nanos t, double* x) {
        for (auto& f : s.faults) if (f.on && f.kind == "tf" && s.rel(w.now_) >= f.t0 && s.rel(w.now_) < f.t1) { ++w.fault_counts["tf_unavailable"]; return false; }
        if (t == 0) t = w.now_;
        const FrameNode *a = nullptr, *b = nullptr;
        for (auto& f : T.frames) { if (f.id == target) a = &f; if (f.id == source) b = &f; }
        if (!a || !b) return false;
        last_lookup = t;
        const Iso E = frame_pose(*a, s.rel(t)).inverse() * frame_pose(*b, s.rel(t));
        const Qd q(E.linear());
        x[0] = E.translation().x(); x[1] = E.translation().y(); x[2] = E.translation().z();
        x[3] = q.x(); x[4] = q.y(); x[5] = q.z(); x[6] = q.w();
        return true;
    };
    static char arg0[] = "node";
    static char* argv[] = {arg0, nullptr};
    std::deque<Inst> inst;
    auto launch = [&](Node& n) {
        inst.push_back({w.make_process(n.name), &n});
        Node* np = &n;
        w.start_main(inst.back().p, [np] { return np->main(1, argv); });
    };
    for (auto& n : T.nodes) if (n.on) { n.start = s.epoch; launch(n); }
    for (const Fault& f : s.faults) if (f.on && f.kind == "restart") {
        Node* n = node(f.topic);
        if (!n || n->restart_down >= 0) continue;
        n->restart_down = s.epoch + Nanos(f.t0 * 1e9);
        n->restart_up = s.epoch + Nanos(f.t1 * 1e9);
        sim::Process* p = nullptr;
        for (auto& i : inst) if (i.n == n) p = i.p;
        w.at(n->restart_down, [&w, p] { w.request_shutdown(p); });
        w.at(n->restart_up, [&launch, n] { launch(*n); });
        s.last_input = std::max(s.last_input, s.rel(n->restart_up));
    }
    for (const Input& in : s.inputs) {
        if (in.dropped) { ++w.fault_counts["lost_input"]; continue; }
        w.at(in.arrive, [&w, &in] { w.inject(in.topic, in.ops, in.m); });
    }
    std::deque<Call> calls;
    for (const Fault& f : s.faults) {
        if (!f.on) continue;
        ++w.fault_counts["fault_" + f.kind];
        if (f.kind != "service" || !node("body_frames_tf")) continue;
        sim::Rng g(mix(mix(seed, 99), uint64_t(f.index)));
        calls.emplace_back();
        Call* c = &calls.back();
        c->source = T.frames[g.below(T.frames.size())].name;
        c->target = T.frames[g.below(T.frames.size())].name;
        w.at(s.epoch + Nanos(f.t0 * 1e9), [&w, c, &last_lookup] {
            w.call_service("/body_frames_tf/lookup_transform", [c, &last_lookup](sim::Service& sv) {
                eigen_ros::lookup_transform::Request q; eigen_ros::lookup_transform::Response r;
                q.source_frame = c->source; q.target_frame = c->target;
                c->ok = sv.fn(&q, &r);
                c->t_lookup = last_lookup;
                c->result = make_iso(getv(r.transform.translation), getq(r.transform.rotation));
                c->done = true;
            });
        });
    }
    w.stall_until = s.epoch + Nanos((s.last_input + 1.0) * 1e9);
    in_run = true;
    w.run_until(s.epoch + Nanos((s.last_input + 20.0) * 1e9));
    const bool early = w.stop_requested;
    const std::string blocked = w.describe_blocked();
    const size_t n_live = inst.size();
    (void)n_live;
    std::map<const sim::Process*, Nanos> down;
    for (auto& i : inst) down[i.p] = i.p->shutdown_at;
    if (!early) {
        stopping = true;
        for (auto& i : inst) w.request_shutdown(i.p);
        w.run_until(w.now_ + 8 * sim::SEC);
        for (auto& i : inst) if (!i.p->exited) rec.add("C16", i.n->name + ": does not exit", "after shutdown: " + w.describe_blocked());
    }
    for (auto& i : inst) i.p->shutdown_at = down[i.p];
    in_run = false;
    for (auto& f : w.failures) {
        // a look-up that finds no transform is reported to the caller
        rec.add("C16", f.cls, f.msg + " @" + f.where);
    }
    if (!early && !blocked.empty()) rec.add("C16", "blocked", "at the end of the run: " + blocked);
    const double simtime = double(w.now_ - startup) * 1e-9;
    const double t_sim = wall();
    oracle_props = "C16";
    for (auto& e : ev) if (e.kind == sim::Ev::Publish) by_pub[e.pub] = &e;
    static const std::map<std::string, void (*)(Judge&)> judges{{"imu_transform", judge_imu_transform}, {"imu_analysis", judge_imu_analysis}, {"odometry_to_tf", judge_odometry_to_tf}, {"combine_transforms", judge_combine},
        {"integrate_imu", judge_integrate}, {"publish_info", judge_publish_info}, {"change_frame_id", judge_change_frame}, {"split_image", judge_split}, {"pointcloud_analyser", judge_analyser}, {"body_frames_tf", judge_body_frames}};
    for (auto& i : inst) {
        Judge j{s, rec, i, early};
        judge_transport(j);
        judges.at(i.n->name)(j);
        ++rec.counters["C16.node_" + i.n->name];
        if (i.p->shutdown_at >= 0) ++rec.counters["C16.restarted"];
    }
    for (auto& c : calls) {
        if (!c.done) continue;
        const FrameNode *a = nullptr, *b = nullptr;
        for (auto& f : T.frames) { if (f.name == c.source) a = &f; if (f.name == c.target) b = &f; }
        const double t = s.rel(c.t_lookup);
        const Iso E = frame_pose(*a, t).inverse() * frame_pose(*b, t);
        ++rec.counters["C16.lookups"];
        if (!c.ok) rec.add("C16", "body_frames_tf: lookup failed", fmt("looking up %s -> %s failed", c.source.c_str(), c.target.c_str()));
        else if (!((E.translation() - c.result.translation()).norm() < 1e-6 && qdist(Qd(E.linear()), Qd(c.result.linear())) < 1e-6)) rec.add("C16", "body_frames_tf: lookup value", fmt("the transform %s -> %s is wrong", c.source.c_str(), c.target.c_str()));
    }
    oracle_props = nullptr;
    drv::result(s, w, rec, simtime, t_sim - t_begin, wall() - t_sim, want_choices);
}
}  // namespace drv
