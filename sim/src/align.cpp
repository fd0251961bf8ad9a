// Deterministic stand-in alignment: point-to-point ICP with brute-force neighbours.
#include <Eigen/Dense>
#include <cmath>
#include <deque>

#include "race.hpp"
#include "sim.hpp"
#include "sim_registration.hpp"
namespace sim {
std::deque<AlignRecord> align_records;
Eigen::Matrix4f align_points(const void* self, const std::vector<float>& src, unsigned long long ss, const std::vector<float>& tgt, unsigned long long ts,
        const Eigen::Matrix4f& guess, int iterations, double max_dist) {
    RaceIgnore ignore;
    AlignRecord r;
    r.self = self; r.source = src; r.target = tgt; r.source_stamp = ss; r.target_stamp = ts; r.guess = guess;
    Eigen::Matrix4d T = guess.cast<double>();
    const size_t n = src.size() / 3, m = tgt.size() / 3;
    const double md2 = std::min(max_dist, 1e3) * std::min(max_dist, 1e3);
    const size_t step = std::max<size_t>(1, n / 150), tstep = std::max<size_t>(1, m / 400);
    for (int it = 0; it < std::min(iterations, 4) && n && m; ++it) {
        Eigen::Vector3d cs(0, 0, 0), ct(0, 0, 0);
        std::vector<Eigen::Vector3d> a, b;
        for (size_t i = 0; i < n; i += step) {
            const Eigen::Vector3d p(src[3 * i], src[3 * i + 1], src[3 * i + 2]);
            if (!p.allFinite()) continue;
            const Eigen::Vector3d q = T.topLeftCorner<3, 3>() * p + T.topRightCorner<3, 1>();
            double best = 1e300; Eigen::Vector3d bt(0, 0, 0);
            for (size_t j = 0; j < m; j += tstep) {
                const Eigen::Vector3d t(tgt[3 * j], tgt[3 * j + 1], tgt[3 * j + 2]);
                const double d = (t - q).squaredNorm();
                if (d < best) { best = d; bt = t; }
            }
            if (best > md2 || !(best < 1e300)) continue;
            a.push_back(q); b.push_back(bt); cs += q; ct += bt;
        }
        if (a.size() < 6) break;
        cs /= double(a.size()); ct /= double(a.size());
        Eigen::Matrix3d H = Eigen::Matrix3d::Zero();
        for (size_t i = 0; i < a.size(); ++i) H += (a[i] - cs) * (b[i] - ct).transpose();
        Eigen::JacobiSVD<Eigen::Matrix3d> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
        Eigen::Matrix3d R = svd.matrixV() * svd.matrixU().transpose();
        if (R.determinant() < 0) { Eigen::Matrix3d V = svd.matrixV(); V.col(2) *= -1; R = V * svd.matrixU().transpose(); }
        Eigen::Matrix4d D = Eigen::Matrix4d::Identity();
        D.topLeftCorner<3, 3>() = R;
        D.topRightCorner<3, 1>() = ct - R * cs;
        T = D * T;
    }
    // Stay near the guess: the stand-in models a well-behaved registration, not an arbitrary one.
    const Eigen::Matrix4d G = guess.cast<double>();
    const Eigen::Matrix3d dR = G.topLeftCorner<3, 3>().transpose() * T.topLeftCorner<3, 3>();
    const double ang = std::acos(std::max(-1.0, std::min(1.0, (dR.trace() - 1) / 2)));
    if (!T.allFinite() || ang > 0.2 || (T.topRightCorner<3, 1>() - G.topRightCorner<3, 1>()).norm() > 1.0) T = G;
    Eigen::Quaterniond q(Eigen::Matrix3d(T.topLeftCorner<3, 3>()));
    q.normalize();
    T.topLeftCorner<3, 3>() = q.toRotationMatrix();
    r.result = T.cast<float>();
    for (size_t i = 0; i < n && r.matched < 12; ++i) {
        const Eigen::Vector3d p = T.topLeftCorner<3, 3>() * Eigen::Vector3d(src[3 * i], src[3 * i + 1], src[3 * i + 2]) + T.topRightCorner<3, 1>();
        for (size_t j = 0; j < m; ++j) if ((p - Eigen::Vector3d(tgt[3 * j], tgt[3 * j + 1], tgt[3 * j + 2])).squaredNorm() < md2) { ++r.matched; break; }
    }
    if (W) { r.seq = W->ev_counter; r.t = W->now_; }
    align_records.push_back(r);
    return r.result;
}
}
