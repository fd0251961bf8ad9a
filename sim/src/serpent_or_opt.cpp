// C06 (each measurement constrains the trajectory once, at its states) and C18 (bounded window): the published estimates
// are compared with a one-shot batch solution over factors rebuilt from the recorded messages.
#include <algorithm>
#include <cstdlib>

#include <gtsam/geometry/Cal3_S2Stereo.h>
#include <gtsam/geometry/StereoCamera.h>
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/nonlinear/ISAM2.h>
#include <gtsam/nonlinear/LevenbergMarquardtOptimizer.h>
#include <gtsam/nonlinear/Marginals.h>
#include <gtsam/nonlinear/NonlinearFactorGraph.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>

#include "serpent_orc.hpp"

namespace hs {
using gtsam::symbol_shorthand::B;
using gtsam::symbol_shorthand::P;
using gtsam::symbol_shorthand::S;
using gtsam::symbol_shorthand::V;
using gtsam::symbol_shorthand::X;
typedef Eigen::Matrix<double, 6, 6> M6;

static M6 ros_cov(const boost::array<double, 36>& c) {  // ROS (t, r) -> GTSAM (r, t)
    M6 m, r;
    for (int i = 0; i < 36; ++i) m(i / 6, i % 6) = c[i];
    r << m.block<3, 3>(3, 3), m.block<3, 3>(3, 0), m.block<3, 3>(0, 3), m.block<3, 3>(0, 0);
    return r;
}
struct Baro { Nanos t; double p, var; const E *start, *end; };
struct Batch {
    gtsam::NonlinearFactorGraph g;
    gtsam::Values v;
    bool ok = true;
};
struct Opt {
    Ctx& c;
    std::vector<const E*> s2s, reg, feat;
    std::vector<Baro> baro;
    gtsam::SharedNoiseModel stereo_noise;
    gtsam::Cal3_S2Stereo::shared_ptr K;
    explicit Opt(Ctx& c) : c(c) {
        auto contents = [&](const char* t) { std::vector<const E*> l; for (const E* e : c.cb(t)) if (const E* p = c.content(e)) l.push_back(p); return l; };
        s2s = contents("frontend/imu_s2s");
        reg = contents("registration/transform");
        feat = contents("stereo/features");
        for (const E* e : c.cb("frontend/barometer")) {
            const E* p = c.content(e);
            if (!p) continue;
            const auto& m = p->as<sensor_msgs::FluidPressure>();
            baro.push_back({e->stamp, m.fluid_pressure, m.variance, e, c.end_of(e)});
        }
        gtsam::SharedNoiseModel d = gtsam::noiseModel::Diagonal::Sigmas((gtsam::Vector(3) << c.par<double>("stereo_factors/noise/left_x", 5), c.par<double>("stereo_factors/noise/right_x", 5), c.par<double>("stereo_factors/noise/y", 10)).finished());
        stereo_noise = d;
        if (c.par<bool>("stereo_factors/robust/enabled", true)) {
            namespace me = gtsam::noiseModel::mEstimator;
            const std::string type = c.par<std::string>("stereo_factors/robust/type", "huber");
            auto kp = [&](const char* n, double def) { return c.par<double>("stereo_factors/robust/" + type + "/" + n, def); };
            const std::string rw = c.par<std::string>("stereo_factors/robust/" + type + "/reweight_scheme", "BLOCK");
            const auto w = rw == "SCALAR" ? me::Base::Scalar : me::Base::Block;
            me::Base::shared_ptr r;
            if (type == "cauchy") r = me::Cauchy::Create(kp("k", 0.1), w);
            else if (type == "dcs") r = me::DCS::Create(kp("c", 1.0), w);
            else if (type == "fair") r = me::Fair::Create(kp("c", 1.3998), w);
            else if (type == "geman_mcclure") r = me::GemanMcClure::Create(kp("c", 1.0), w);
            else if (type == "l2_with_dead_zone") r = me::L2WithDeadZone::Create(kp("k", 1.0), w);
            else if (type == "null") r = me::Null::Create();
            else if (type == "tukey") r = me::Tukey::Create(kp("c", 4.6851), w);
            else if (type == "welsch") r = me::Welsch::Create(kp("c", 2.9846), w);
            else r = me::Huber::Create(kp("k", 1.345), w);
            stereo_noise = gtsam::noiseModel::Robust::Create(r, d);
        }
        K = boost::make_shared<gtsam::Cal3_S2Stereo>(c.s.fx, c.s.fy, 0, c.s.cx, c.s.cy, c.s.baseline);
    }
    // All constraints on the states 0..k with the first nb barometer readings
    Batch build(size_t k, size_t nb) {
        Batch b;
        auto& g = b.g;
        auto& v = b.v;
        const auto& path = c.states[k].path->as<nav_msgs::Path>().poses;
        std::vector<gtsam::Pose3> pose(k + 1);
        for (size_t i = 0; i <= k; ++i) { pose[i] = gp(iso(path[i].pose)); v.insert(X(i), pose[i]); }
        const E* io = c.pub("frontend/initial_odometry").at(0);
        const auto& m0 = io->as<nav_msgs::Odometry>();
        g.emplace_shared<gtsam::PriorFactor<gtsam::Pose3>>(X(0), gp(iso(m0.pose.pose)), gtsam::noiseModel::Gaussian::Covariance(ros_cov(m0.pose.covariance)));
        if (c.s.imu) {
            Eigen::Matrix3d vc;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc(i, j) = m0.twist.covariance[6 * i + j];
            g.emplace_shared<gtsam::PriorFactor<gtsam::Velocity3>>(V(0), vec(m0.twist.twist.linear), gtsam::noiseModel::Gaussian::Covariance(vc));
            const double a = c.par<double>("prior_noise/accelerometer_bias", 1e-3), w = c.par<double>("prior_noise/gyroscope_bias", 1e-3);
            g.emplace_shared<gtsam::PriorFactor<gtsam::imuBias::ConstantBias>>(B(0), gtsam::imuBias::ConstantBias(), gtsam::noiseModel::Diagonal::Sigmas((gtsam::Vector(6) << a, a, a, w, w, w).finished()));
            for (size_t i = 0; i <= k; ++i) { v.insert(V(i), gtsam::Velocity3(c.states[i].vel)); v.insert(B(i), c.states[i].b); }
            for (size_t i = 1; i <= k; ++i) {
                const E* e = find(s2s, c.states[i].t, true);
                if (!e) { b.ok = false; return b; }
                const auto& m = e->as<serpent::ImuArray>();
                auto p = boost::make_shared<gtsam::PreintegrationCombinedParams>(*c.pim);
                Eigen::Matrix3d ca, cg;
                for (int q = 0; q < 9; ++q) { ca(q / 3, q % 3) = m.measurements[0].linear_acceleration_covariance[q]; cg(q / 3, q % 3) = m.measurements[0].angular_velocity_covariance[q]; }
                p->setAccelerometerCovariance(ca);
                p->setGyroscopeCovariance(cg);
                gtsam::PreintegratedCombinedMeasurements pim(p, c.states[i - 1].b);
                const Nanos s0 = c.states[i - 1].t, s1 = c.states[i].t;
                for (size_t j = 0; j < m.measurements.size(); ++j) {
                    const Nanos a0 = std::max(ns(m.measurements[j].header.stamp), s0), a1 = j + 1 < m.measurements.size() ? std::min(ns(m.measurements[j + 1].header.stamp), s1) : s1;
                    if (a1 > a0) pim.integrateMeasurement(vec(m.measurements[j].linear_acceleration), vec(m.measurements[j].angular_velocity), double(a1 - a0) * 1e-9);
                }
                g.emplace_shared<gtsam::CombinedImuFactor>(X(i - 1), V(i - 1), X(i), V(i), B(i - 1), B(i), pim);
            }
        }
        if (c.s.reg)
            for (size_t i = 1; i <= k; ++i) {
                const E* e = find(reg, c.states[i].t, false);
                if (!e) { b.ok = false; return b; }
                const auto& m = e->as<geometry_msgs::PoseWithCovarianceStamped>();
                g.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(i - 1), X(i), gp(iso(m.pose.pose)), gtsam::noiseModel::Gaussian::Covariance(ros_cov(m.pose.covariance)));
            }
        if (c.s.stereo) {
            std::map<int64_t, std::map<size_t, gtsam::StereoPoint2>> obs;
            std::map<int64_t, size_t> prev;  // id -> ordinal of the last feature-bearing state that saw it
            size_t ord = 0, last = 0;
            std::map<int64_t, gtsam::StereoPoint2> before;
            for (size_t i = 0; i <= k; ++i) {
                const E* e = find(feat, c.states[i].t, false);
                if (!e) continue;
                ++ord;
                std::map<int64_t, gtsam::StereoPoint2> now;
                for (auto& f : e->as<serpent::StereoFeatures>().features) now[f.id] = gtsam::StereoPoint2(f.left_x, f.right_x, 0.5 * (f.left_y + f.right_y));
                if (ord > 1)
                    for (auto& x : now) {
                        auto it = before.find(x.first);
                        if (it == before.end()) continue;
                        obs[x.first][last] = it->second;
                        obs[x.first][i] = x.second;
                    }
                before = now;
                last = i;
            }
            for (auto& o : obs) {
                for (auto& x : o.second) { g.emplace_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(x.second, stereo_noise, X(x.first), S(o.first), K, gp(c.TBC)); }
                const auto& l = *o.second.rbegin();
                landmark_obs[uint64_t(o.first)] = l.second;
                v.insert(S(o.first), gtsam::StereoCamera(pose[l.first] * gp(c.TBC), K).backproject(l.second));
            }
        }
        if (nb) {
            int next = 0;
            for (size_t j = 0; j < nb; ++j) {
                const int key = int(std::find_if(c.states.begin(), c.states.end(), [&](const State& s) { return s.t == baro[j].t; }) - c.states.begin());
                auto f = boost::make_shared<gtsam::BarometricFactor>(X(key), P(key), baro[j].p * 1e-3, gtsam::noiseModel::Isotropic::Variance(1, baro[j].var));
                const double h = f->heightOut(baro[j].p * 1e-3);
                if (key > int(k)) break;
                g.push_back(f);
                if (next == 0) {
                    g.emplace_shared<gtsam::PriorFactor<double>>(P(key), h, gtsam::noiseModel::Isotropic::Sigma(1, c.par<double>("prior_noise/barometer_bias", 1e-6)));
                    v.insert(P(0), h);
                }
                for (int q = std::max(1, next); q <= key; ++q) {
                    g.emplace_shared<gtsam::BetweenFactor<double>>(P(q - 1), P(q), 0.0, gtsam::noiseModel::Isotropic::Sigma(1, c.par<double>("barometer/noise/barometer_bias", 1e-6)));
                    v.insert(P(q), v.at<double>(P(q - 1)));
                }
                next = key + 1;
            }
        }
        return b;
    }
    static const E* find(const std::vector<const E*>& l, Nanos t, bool imu) {
        for (const E* e : l) if ((imu ? ns(e->as<serpent::ImuArray>().end_timestamp) : e->stamp) == t) return e;
        return nullptr;
    }
    // The same solver on the reference constraints, state by state: its distance from the batch solution is the
    // linearisation error that the solver itself brings.
    struct RefState { gtsam::Pose3 pose; gtsam::Velocity3 vel; gtsam::imuBias::ConstantBias b; };
    std::vector<gtsam::Values> ref_est;
    std::vector<M6> ref_cov;
    std::vector<size_t> ref_nb;  // readings in at each state
    void run_reference(size_t upto) {
        gtsam::ISAM2Params p;
        if (c.par<std::string>("isam2/optimization", "GaussNewton") == "Dogleg")
            p.optimizationParams = gtsam::ISAM2DoglegParams(c.par<double>("isam2/dogleg_params/initial_delta", 1.0), c.par<double>("isam2/dogleg_params/wildfire_threshold", 1e-5),
                c.par<std::string>("isam2/dogleg_params/trust_region_adaptation_mode", "SEARCH_EACH_ITERATION") == "ONE_STEP_PER_ITERATION" ? gtsam::DoglegOptimizerImpl::ONE_STEP_PER_ITERATION : gtsam::DoglegOptimizerImpl::SEARCH_EACH_ITERATION);
        else
            p.optimizationParams = gtsam::ISAM2GaussNewtonParams(c.par<double>("isam2/gauss_newton_params/wildfire_threshold", 0.001));
        p.relinearizeThreshold = c.par<double>("isam2/relinearize_threshold", 0.1);
        p.relinearizeSkip = c.par<int>("isam2/relinearize_skip", 10);
        gtsam::ISAM2 isam(p);
        size_t nf = 0;
        gtsam::KeySet have;
        for (size_t k = 0; k <= upto; ++k) {
            // the graph of state k minus that of state k - 1, matched by order of construction within each kind
            Batch b = build(k, ref_nb[k]);
            if (!b.ok) return;
            gtsam::NonlinearFactorGraph add;
            for (auto& f : b.g) {
                auto id = ident(*f);
                if (seen.insert(id).second) add.push_back(f);
            }
            (void)nf;
            gtsam::Values nv;
            gtsam::NavState pred;
            if (k) {
                const gtsam::Values& e = ref_est.back();
                const gtsam::Pose3 x0 = e.at<gtsam::Pose3>(X(k - 1));
                const gtsam::Velocity3 v0 = c.s.imu ? e.at<gtsam::Velocity3>(V(k - 1)) : c.states[k - 1].vel;
                const gtsam::imuBias::ConstantBias b0 = c.s.imu ? e.at<gtsam::imuBias::ConstantBias>(B(k - 1)) : gtsam::imuBias::ConstantBias();
                pred = c.forward(gtsam::NavState(x0, v0), b0, c.states[k - 1].t, c.states[k].t);
                // the estimator starts from the registration, where there is one
                if (c.s.reg) pred = gtsam::NavState(x0 * gp(iso(find(reg, c.states[k].t, false)->as<geometry_msgs::PoseWithCovarianceStamped>().pose.pose)), pred.velocity());
            }
            for (auto kv : b.v) {
                if (have.count(kv.key)) continue;
                const gtsam::Symbol s(kv.key);
                if (k && s.chr() == 'x' && s.index() == k) nv.insert(kv.key, pred.pose());
                else if (k && s.chr() == 'v' && s.index() == k) nv.insert(kv.key, gtsam::Velocity3(pred.velocity()));
                else if (k && s.chr() == 'b' && s.index() == k) nv.insert(kv.key, ref_est.back().at<gtsam::imuBias::ConstantBias>(B(k - 1)));
                else if (k && s.chr() == 's' && landmark_obs.count(s.index())) nv.insert(kv.key, gtsam::StereoCamera(pred.pose() * gp(c.TBC), K).backproject(landmark_obs.at(s.index())));
                else nv.insert(kv.key, kv.value);
                have.insert(kv.key);
            }
            isam.update(add, nv);
            ref_est.push_back(isam.calculateEstimate());
            ref_cov.push_back(c.s.stereo ? M6(M6::Identity()) : M6(isam.marginalCovariance(X(k))));
        }
    }
    std::set<std::string> seen;
    std::map<uint64_t, gtsam::StereoPoint2> landmark_obs;
    static std::string ident(const gtsam::NonlinearFactor& f) {
        std::string s = typeid(f).name();
        for (auto k : f.keys()) s += "," + std::to_string(k);
        if (auto p = dynamic_cast<const gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>*>(&f)) s += fmt("/%.17g", p->measured().uL());
        return s;
    }
    struct D { double pose = 0, last = 0, vel = 0, bias = 0, cov = 0; double rpose = 0, rlast = 0, rvel = 0, rbias = 0, rcov = 0; bool ok = false; std::string what; };
    D compare(size_t k, size_t nb) {
        D d;
        try {
            Batch b = build(k, nb);
            if (!b.ok) { d.what = "messages missing"; return d; }
            gtsam::LevenbergMarquardtParams p;
            p.setMaxIterations(60);
            p.setRelativeErrorTol(1e-12);
            p.setAbsoluteErrorTol(1e-14);
            p.setlambdaInitial(1e-9);
            p.setLinearSolverType("MULTIFRONTAL_QR");
            gtsam::LevenbergMarquardtOptimizer lm(b.g, b.v, p);
            const gtsam::Values r = lm.optimize();
            gtsam::Marginals mg(b.g, r, gtsam::Marginals::QR);
            auto sig = [&](gtsam::Key key) { return gtsam::Vector(mg.marginalCovariance(key).diagonal().cwiseSqrt()); };
            const gtsam::Values* q = k < ref_est.size() ? &ref_est[k] : nullptr;
            auto worst = [](const gtsam::Vector& e, const gtsam::Vector& s, double abs) { double w = 0; for (int j = 0; j < e.size(); ++j) w = std::max(w, std::max(0.0, std::abs(e[j]) - abs) / s[j]); return std::isfinite(w) ? w : 1e100; };
            for (size_t i = 0; i <= k; ++i) {
                const gtsam::Pose3 x = r.at<gtsam::Pose3>(X(i));
                const gtsam::Vector s = sig(X(i));
                const double w = worst(x.localCoordinates(b.v.at<gtsam::Pose3>(X(i))), s, 1e-7);
                d.pose = std::max(d.pose, w);
                if (i == k) d.last = w;
                if (q) { const double z = worst(x.localCoordinates(q->at<gtsam::Pose3>(X(i))), s, 1e-7); d.rpose = std::max(d.rpose, z); if (i == k) d.rlast = z; }
            }
            if (c.s.imu) {
                d.vel = worst(r.at<gtsam::Velocity3>(V(k)) - c.states[k].vel, sig(V(k)), 1e-7);
                d.bias = worst(r.at<gtsam::imuBias::ConstantBias>(B(k)).vector() - c.states[k].b.vector(), sig(B(k)), 1e-9);
                if (q) {
                    d.rvel = worst(r.at<gtsam::Velocity3>(V(k)) - q->at<gtsam::Velocity3>(V(k)), sig(V(k)), 1e-7);
                    d.rbias = worst(r.at<gtsam::imuBias::ConstantBias>(B(k)).vector() - q->at<gtsam::imuBias::ConstantBias>(B(k)).vector(), sig(B(k)), 1e-9);
                }
            }
            if (!c.s.stereo) {  // published covariance of the pose
                const M6 w = mg.marginalCovariance(X(k)), o = ros_cov(c.states[k].odom->as<nav_msgs::Odometry>().pose.covariance);
                for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
                    d.cov = std::max(d.cov, std::abs(w(i, j) - o(i, j)) / std::sqrt(w(i, i) * w(j, j)));
                    if (q) d.rcov = std::max(d.rcov, std::abs(w(i, j) - ref_cov[k](i, j)) / std::sqrt(w(i, i) * w(j, j)));
                }
            }
            d.ok = true;
        } catch (const std::exception& ex) { d.what = ex.what(); }
        return d;
    }
};
// The prior: configured position, velocity and uncertainty, and the attitude the IMU reports at the first state's time.
static void initial_state(Ctx& c, const E* io) {
    const auto& m = io->as<nav_msgs::Odometry>();
    auto num = [&](const std::string& n, double d) { return c.par<double>(n, d); };
    const V3 p(num("pose/position/x", 0), num("pose/position/y", 0), num("pose/position/z", 0)), v(num("velocity/linear/x", 0), num("velocity/linear/y", 0), num("velocity/linear/z", 0));
    if (!((iso(m.pose.pose).translation() - p).norm() < 1e-9)) c.v("C06", "initial position", "the first state does not start at the configured position");
    if (!((vec(m.twist.twist.linear) - v).norm() < 1e-9)) c.v("C06", "initial velocity", "the first state does not start with the configured velocity");
    const M6 cv = ros_cov(m.pose.covariance);
    M6 want = M6::Zero();
    for (int i = 0; i < 3; ++i) { want(i, i) = std::pow(num("prior_noise/rotation", 1e-3), 2); want(i + 3, i + 3) = std::pow(num("prior_noise/position", 1e-3), 2); }
    double vd = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vd = std::max(vd, std::abs(m.twist.covariance[6 * i + j] - (i == j ? std::pow(num("prior_noise/linear_velocity", 1e-3), 2) : 0.0)));
    if (!((cv - want).cwiseAbs().maxCoeff() < 1e-12) || !(vd < 1e-12)) c.v("C06", "initial uncertainty", "the first state's covariance is not the configured one");
    if (m.header.frame_id != c.map_id || m.child_frame_id != c.body_id) c.v("C06", "initial frames", m.header.frame_id + " " + m.child_frame_id);
    for (size_t i = 1; i < c.imu.size(); ++i) {
        const ImuS &a = c.imu[i - 1], &b = c.imu[i];
        if (b.t < io->stamp) continue;
        if (a.t > io->stamp) break;
        const auto &qa = a.m->orientation, &qb = b.m->orientation;
        Qd want_q = Qd::Identity();
        if (qa.w * qa.w + qa.x * qa.x + qa.y * qa.y + qa.z * qa.z > 0.5) {
            const double u = double(io->stamp - a.t) / double(b.t - a.t);
            want_q = Qd(qa.w, qa.x, qa.y, qa.z).slerp(u, Qd(qb.w, qb.x, qb.y, qb.z)) * Qd(c.TBI.linear().transpose());
            if (c.s.ned) want_q = Qd(0, 1, 0, 0) * want_q;
        }
        const double e = Qd(iso(m.pose.pose).linear()).angularDistance(want_q);
        if (!(e < 1e-6)) c.v("C06", "initial attitude", fmt("the first state is turned %.3g rad from the attitude the IMU reported at its time", e));
        c.cov("C06.initial_state");
        break;
    }
}

void check_opt(Ctx& c) {
    if (c.states.empty()) return;
    Opt o(c);
    auto io = c.pub("frontend/initial_odometry");
    if (io.size() != 1) { c.v("C06", "initial odometry", fmt("%zu initial states", io.size())); return; }
    initial_state(c, io[0]);
    // ---- a state is optimised only after what it needs has arrived
    auto started = [&](const char* topic, auto pred) { uint64_t first = UINT64_MAX; for (const E* e : c.cb(topic)) if (pred(e)) first = std::min(first, e->seq); return first; };
    for (size_t k = 1; k < c.states.size(); ++k) {
        const Nanos t = c.states[k].t;
        const uint64_t q = c.states[k].odom->seq;
        if (started("frontend/imu_s2s", [&](const E* e) { const E* p = c.content(e); return p && ns(p->as<serpent::ImuArray>().end_timestamp) == t; }) > q) c.v("C06", "before imu", fmt("state %zu optimised before its inertial data arrived", k));
        if (c.s.reg && started("registration/transform", [&](const E* e) { return e->stamp == t; }) > q) c.v("C06", "before registration", fmt("state %zu optimised before its registration arrived", k));
        if (c.s.stereo && started("stereo/features", [&](const E* e) { return e->stamp >= t; }) > q) c.v("C06", "before stereo", fmt("state %zu optimised before stereo was decided", k));
        c.cov("C06.order");
    }
    // ---- barometer readings in each solution
    std::vector<size_t> los(c.states.size()), his(c.states.size());
    for (size_t k = 0; k < c.states.size(); ++k) {
        // barometer readings that were certainly / possibly in
        const E* od = c.states[k].odom;
        uint64_t trig = k ? c.states[k - 1].odom->seq : 0;
        for (const char* tp : {"frontend/imu_s2s", "registration/transform", "stereo/features"})
            for (const E* e : c.cb(tp)) if (e->fiber == od->fiber && e->proc == od->proc && e->seq < od->seq) trig = std::max(trig, e->seq);
        size_t &lo = los[k], &hi = his[k];
        for (size_t j = 0; j < o.baro.size(); ++j) {
            if (o.baro[j].t > c.states[k].t) break;
            if (o.baro[j].start->seq < od->seq) hi = j + 1;
            if (o.baro[j].end && o.baro[j].end->seq < trig) lo = j + 1;
        }
    }
    const bool one_step = c.par<std::string>("isam2/optimization", "GaussNewton") == "Dogleg" &&
        c.par<std::string>("isam2/dogleg_params/trust_region_adaptation_mode", "SEARCH_EACH_ITERATION") == "ONE_STEP_PER_ITERATION";
    // ---- which states to compare
    std::vector<size_t> ks;
    const size_t n = c.states.size();
    for (size_t k : {n - 1, n / 2, size_t(1)}) if (k < n && c.states[k].path && c.states[k].bias && c.states[k].path->as<nav_msgs::Path>().poses.size() == k + 1 && std::find(ks.begin(), ks.end(), k) == ks.end()) ks.push_back(k);
    o.ref_nb = his;
    try { if (!ks.empty()) o.run_reference(ks[0]); } catch (const std::exception& ex) { c.cov("C06.reference_failed"); }
    for (size_t k : ks) {
        // velocity without inertial constraints: the difference of the poses
        if (!c.s.imu && k) {
            const auto& p = c.states[k].path->as<nav_msgs::Path>().poses;
            const V3 w = (vec(p[k].pose.position) - vec(p[k - 1].pose.position)) / (double(c.states[k].t - c.states[k - 1].t) * 1e-9);
            if (!((w - c.states[k].vel).norm() < 1e-6 * (1 + w.norm()))) c.v("C06", "velocity", fmt("velocity of state %zu is off the pose difference by %.3g m/s", k, (w - c.states[k].vel).norm()));
        }
        const size_t lo = los[k], hi = his[k];
        if (c.s.baro) c.cov(hi ? "C06.with_barometer" : "C06.without_barometer");
        Opt::D best;
        double score = 1e300;
        size_t nbest = 0;
        for (size_t nb = hi;; --nb) {
            Opt::D d = o.compare(k, nb);
            const double s = d.ok ? std::max({d.pose, d.vel, d.bias}) : 1e200;
            if (s < score) { score = s; best = d; nbest = nb; }
            if (nb == lo || score < 0.01) break;
        }
        if (one_step) { c.cov("C06.one_step_dogleg"); continue; }  // a trust region that moves one step per update need not be at the optimum
        if (!best.ok) { c.cov("C06.not_comparable"); c.cov("C06.not_comparable " + best.what.substr(0, 30)); continue; }
        const std::string at = fmt("state %zu of %zu", k, n);
        if (!c.s.marg) {
            c.cov("C06.compared");
            if (c.s.stereo) c.cov("C06.compared_stereo");
            // what a solver that rarely relinearises and propagates no small change ends up with depends on where it started
            const double tol = c.s.tight_solver ? 0.2 : c.s.stereo ? 1.5 : 0.5;
            auto judge = [&](const char* what, double d, double ref) { if (d > tol + 4 * ref) c.v("C06", what, fmt("%s: %s differs from the batch solution over the received measurements by %.2f standard deviations (the solver itself: %.2f)", at.c_str(), what, d, ref)); };
            judge("trajectory", best.pose, best.rpose);
            judge("velocity estimate", best.vel, best.rvel);
            judge("bias estimate", best.bias, best.rbias);
            judge("pose covariance", best.cov, best.rcov);
        } else {
            c.cov("C18.compared");
            if (k >= size_t(c.s.marg_window)) c.cov("C18.compared_marginalised");
            auto judge = [&](const char* what, double d, double ref) { if (d > (c.s.stereo ? 2.5 : 1.0) + 5 * ref) c.v("C18", what, fmt("%s: %s differs from the full-history solution by %.2f standard deviations (the solver itself: %.2f)", at.c_str(), what, d, ref)); };
            judge("newest pose", best.last, best.rlast);
            judge("newest velocity", best.vel, best.rvel);
            judge("newest bias", best.bias, best.rbias);
        }
        if (const char* log = getenv("SIM_C06")) { FILE* lf = fopen(log, "a"); fprintf(lf, "C06 seed %lu k %zu/%zu tight %d marg %d st %d nb %zu in [%zu,%zu] pose %.4g last %.4g vel %.4g bias %.4g cov %.3g ref %.4g %.4g %.4g %.4g %.4g %s\n", c.s.seed, k, n, c.s.tight_solver, c.s.marg, c.s.stereo, nbest, lo, hi, best.pose, best.last, best.vel, best.bias, best.cov, best.rpose, best.rlast, best.rvel, best.rbias, best.rcov, best.what.c_str()); fclose(lf); }
    }
}
}  // namespace hs
