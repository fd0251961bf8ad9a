#pragma once
// Scenario, recording and oracle interfaces of the SERPENT simulation.
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "geometry_msgs/PoseWithCovarianceStamped.h"
#include "geometry_msgs/TransformStamped.h"
#include "nav_msgs/Odometry.h"
#include "nav_msgs/Path.h"
#include <pcl/PCLPointCloud2.h>
#include "ros/ros.h"
#include "sensor_msgs/CameraInfo.h"
#include "sensor_msgs/FluidPressure.h"
#include "sensor_msgs/Image.h"
#include "sensor_msgs/Imu.h"
#include "sensor_msgs/PointCloud2.h"
#include "serpent/ImuArray.h"
#include "serpent/ImuBiases.h"
#include "serpent/PoseGraph.h"
#include "serpent/StereoFeatures.h"
#include "sim.hpp"

namespace hs {
using sim::Nanos;
typedef Eigen::Isometry3d Iso;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Qd;

struct Fault {
    std::string kind, topic;  // drop | hold | gap | late_start | tf | service | shutdown | jitter | track_loss | no_features
    double t0 = 0, t1 = 0;    // seconds relative to the scenario epoch
    int index = -1;
    bool on = true;
};
struct Input {
    std::string topic;
    Nanos stamp = 0, arrive = 0;
    int index = 0;
    bool dropped = false;
    sim::AnyMsg m;
    const sim::TypeOps* ops = nullptr;
};
struct Traj {
    V3 p0{0, 0, 0}, v{0, 0, 0}, amp{0, 0, 0}, w{1, 1, 1}, ph{0, 0, 0};
    V3 ramp{0, 0, 0}, rw{1, 1, 1}, rph{0, 0, 0}, rrate{0, 0, 0};
    Iso pose(double t) const;  // T_W^B
};
struct Landmark { V3 p; uint32_t tex; };
struct StereoFrame {  // ground truth of one rendered stereo pair
    int index;
    Nanos stamp;
    std::map<int, Eigen::Vector3d> px;  // landmark -> (left u, right u, v), pixel-exact
    std::map<int, std::pair<float, float>> pt[2];  // landmark -> position in the left and in the right image
    bool featureless = false;
};
struct Scn {
    std::string profile;
    uint64_t seed = 0;
    sim::Rng rng{1};
    // configuration
    bool imu = true, reg = true, stereo = false, baro = false, split = false, s2m = true;
    int threads = 4;
    std::string body = "base_link";
    bool base_dynamic = false;
    std::map<std::string, Iso> ext;  // T_B^frame for imu, lidar, stereo, base_link (static part)
    V3 base_dyn_amp{0, 0, 0};
    double gravity = 9.81;
    bool ned = true, imu_orientation = true, imu_overwrite = false;
    std::string cloud_type = "OUSTER";
    bool mdc_t = true, mdc_r = true;
    bool only_graph = false;
    bool marg = false;
    int marg_window = 5;
    bool service_calls = false, shutdown = false;
    bool tight_solver = false;
    V3 acc_bias{0, 0, 0}, gyr_bias{0, 0, 0};
    double acc_noise = 0, gyr_noise = 0;
    // streams
    double imu_rate = 100, scan_rate = 10, stereo_rate = 15, baro_rate = 10, sweep = 0.09;
    int n_scans = 8, n_points = 100;
    double duration = 1.0;
    Nanos epoch = 0;
    bool aligned = false;
    Traj traj;
    std::vector<V3> world;
    std::vector<Landmark> landmarks;
    std::vector<StereoFrame> frames;
    bool stereo_only = false;  // stereo pipeline alone, with ambiguous images (profile c14)
    int img_w = 160, img_h = 96;
    double fx = 100, fy = 100, cx = 80, cy = 48, baseline = 0.2;
    std::vector<Fault> faults;
    std::vector<Input> inputs;
    std::map<std::string, XmlRpc::XmlRpcValue> params;
    sim::Strategy strat;
    double last_input = 0;  // seconds relative to epoch
    bool has_fault(const std::string& k) const { for (auto& f : faults) if (f.on && f.kind == k) return true; return false; }
    bool has_loss() const { return has_fault("drop") || has_fault("gap") || has_fault("late_start"); }
    Iso base_mount(Nanos t) const;  // T_B^{base_link} at time t
    double rel(Nanos t) const { return double(t - epoch) * 1e-9; }
    template<class T> T param(const std::string& n, const T& def) const {
        auto it = params.find("/serpent/" + n);
        T v; return it != params.end() && ros::Conv::get(it->second, v) ? v : def;
    }
};
// Options applied on top of the seed (minimisation and replay)
struct Overrides {
    int n_scans = -1;
    std::set<int> faults_off;
    bool no_jitter = false;
    bool quiet_sched = false;  // use explicit choices
    std::map<uint64_t, uint32_t> choices;
};
void generate(Scn& s, const std::string& profile, uint64_t seed, const Overrides& o);

// ---------------------------------------------------------------- recording
struct E {
    uint64_t seq;
    Nanos t;
    sim::Ev kind;
    std::string topic;
    std::string proc;
    int fiber, sub;
    uint64_t pub;
    Nanos stamp;
    uint64_t aux = 0;  // content hash of images
    std::shared_ptr<const void> m;  // canonical deep copy for Publish events
    template<class T> const T& as() const { return *static_cast<const T*>(m.get()); }
};
struct Violation { std::string prop, cls, msg; };
struct TfSent { uint64_t seq; Nanos t; bool is_static; geometry_msgs::TransformStamped tf; std::string proc; };
struct Rec {
    std::vector<E> ev;
    std::map<std::string, std::vector<size_t>> pub, start, end, deliver, drop, sync;  // indices into ev by topic
    std::vector<TfSent> tf;
    std::map<std::string, uint64_t> counters;  // coverage counters
    std::vector<Violation> viol;
    void add(const std::string& p, const std::string& cls, const std::string& msg) {
        for (auto& v : viol) if (v.prop == p && v.cls == cls) return;
        viol.push_back({p, cls, msg});
    }
    std::vector<const E*> list(const std::map<std::string, std::vector<size_t>>& m, const std::string& topic) const {
        std::vector<const E*> r;
        auto it = m.find(topic);
        if (it != m.end()) for (size_t i : it->second) r.push_back(&ev[i]);
        return r;
    }
};
struct Outcome {
    bool horizon_reached = false;
    std::vector<sim::Failure> failures;
    std::string blocked;
    bool exited_all = true;
    Nanos end = 0;
};
void check_all(const Scn& s, Rec& r, const Outcome& o);

// ---------------------------------------------------------------- clouds
struct Cloud {
    size_t n = 0;
    std::map<std::string, std::vector<double>> f;
    std::vector<V3> xyz() const;
    bool has(const std::string& k) const { return f.count(k) > 0; }
};
Cloud decode(const pcl::PCLPointCloud2& m);
Cloud decode(const sensor_msgs::PointCloud2& m);

inline Nanos us(Nanos t) { return t / 1000 * 1000; }  // resolution of PCL stamps
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
extern const char* oracle_props;  // the properties whose oracle is running
std::set<std::string> failure_set(const Scn& s, const std::string& where, bool after_shutdown);
}  // namespace hs
