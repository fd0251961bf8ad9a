#pragma once
// Shared context of the oracles: the recorded history of one run, indexed the way the properties talk about it.
#include <gtsam/geometry/Pose3.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/navigation/ImuBias.h>
#include <gtsam/navigation/NavState.h>

#include <unordered_map>

#include "serpent_h.hpp"

namespace hs {
struct ImuS { Nanos t; V3 acc, gyr; const sensor_msgs::Imu* m; const E *start, *end; };
struct Scan { Nanos t, end; const E *start, *cbend; const E* pub; Cloud c; double sweep = 0; };
struct State {
    Nanos t = 0;
    const E *odom = nullptr, *bias = nullptr, *path = nullptr, *changes = nullptr;
    Iso pose; V3 vel; gtsam::imuBias::ConstantBias b;
    // adoption by the front end (interval of event sequence numbers; 0 if it did not happen)
    uint64_t ad0 = 0, ad1 = 0;
    Nanos adt0 = 0, adt1 = 0;
};
struct Ctx {
    const Scn& s;
    Rec& r;
    const Outcome& o;
    bool cut;       // the run was cut short by an injected shutdown
    bool complete;  // the run ended on its own terms: completeness can be judged
    std::unordered_map<uint64_t, const E*> pubs;
    std::unordered_map<uint64_t, const E*> start_end;  // CbStart seq -> CbEnd
    std::vector<ImuS> imu;        // in order of reception by the front end
    std::vector<Scan> scans;      // accepted by the front end
    std::vector<Nanos> frames;    // stereo frames completed at the front end (microsecond stamps), in order
    int skip = 0;                 // leading scans that precede the IMU data
    std::vector<Nanos> want;      // required state times
    std::vector<State> states;    // optimised states, as published
    std::vector<Nanos> created;   // state times as created by the front end
    boost::shared_ptr<gtsam::PreintegrationCombinedParams> pim;
    std::string lidar_id, base_id, body_id, map_id;
    Iso TBL, TBI, TBC;

    Ctx(const Scn& s, Rec& r, const Outcome& o);
    void v(const std::string& p, const std::string& cls, const std::string& msg) { r.add(p, cls, msg); }
    void cov(const std::string& k, uint64_t n = 1) { r.counters[k] += n; }
    std::vector<const E*> pub(const std::string& t) const { return r.list(r.pub, t); }
    std::vector<const E*> cb(const std::string& t) const { return r.list(r.start, t); }
    const E* end_of(const E* start) const { auto it = start_end.find(start->seq); return it == start_end.end() ? nullptr : it->second; }
    const E* content(const E* e) const { auto it = pubs.find(e->pub); return it == pubs.end() ? nullptr : it->second; }
    template<class T> T par(const std::string& n, const T& d) const { return s.param<T>(n, d); }
    // Forward-hold integration: measurement i holds from its stamp until the next one's.
    gtsam::NavState forward(const gtsam::NavState& x, const gtsam::imuBias::ConstantBias& b, Nanos from, Nanos to, gtsam::PreintegratedCombinedMeasurements* out = nullptr) const;
    std::string T(Nanos t) const { return fmt("%.6f", s.rel(t)); }
};
inline V3 vec(const geometry_msgs::Vector3& v) { return V3(v.x, v.y, v.z); }
inline V3 vec(const geometry_msgs::Point& v) { return V3(v.x, v.y, v.z); }
inline Qd quat(const geometry_msgs::Quaternion& q) { return Qd(q.w, q.x, q.y, q.z); }
inline Iso iso(const V3& p, const Qd& q) { Iso T = Iso::Identity(); T.linear() = q.normalized().toRotationMatrix(); T.translation() = p; return T; }
inline Iso iso(const geometry_msgs::Pose& p) { return iso(vec(p.position), quat(p.orientation)); }
inline Iso iso(const geometry_msgs::Transform& p) { return iso(vec(p.translation), quat(p.rotation)); }
inline Iso iso(const gtsam::Pose3& p) { Iso T; T.matrix() = p.matrix(); return T; }
inline gtsam::Pose3 gp(const Iso& T) { return gtsam::Pose3(gtsam::Rot3(Eigen::Matrix3d(T.linear())), T.translation()); }
inline double dtr(const Iso& a, const Iso& b) { return (a.translation() - b.translation()).norm(); }
inline double drot(const Iso& a, const Iso& b) { return (a.linear() - b.linear()).norm(); }
inline Nanos ns(const ros::Time& t) { return Nanos(t.toNSec()); }
inline bool finite(const Iso& T) { return T.matrix().allFinite(); }

void check_imu(Ctx& c);      // C03, C04
void check_deskew(Ctx& c);   // C05
void check_cloud(Ctx& c);    // C17
void check_reg(Ctx& c);      // C07
void check_map(Ctx& c);      // C08
void check_opt(Ctx& c);      // C06, C18
void check_stereo(Ctx& c);   // C10, C14
void check_baro(Ctx& c);     // C09
void check_tf(Ctx& c);       // C15
}  // namespace hs
