#pragma once
// Stand-in for the external scan-alignment algorithms (pcl ICP/GICP/NDT, fast_gicp): the pcl::Registration base class is
// real, the solver is one small deterministic point-to-point alignment, and every alignment is recorded.
#include <pcl/registration/registration.h>

#include <Eigen/Core>
#include <vector>
namespace sim {
struct AlignRecord {
    uint64_t seq = 0;
    int fiber = -1;
    long long t = 0;
    const void* self = nullptr;
    unsigned long long source_stamp = 0, target_stamp = 0;  // pcl stamps (microseconds)
    std::vector<float> source, target;                      // xyz triples
    Eigen::Matrix4f guess, result;
    int matched = 0;                                        // points with a target point within range of the result, counted up to 12
};
Eigen::Matrix4f align_points(const void* self, const std::vector<float>& src, unsigned long long src_stamp, const std::vector<float>& tgt,
        unsigned long long tgt_stamp, const Eigen::Matrix4f& guess, int iterations, double max_dist);
}
namespace pcl {
template<class S, class T> class SimRegistration : public Registration<S, T, float> {
public:
    typedef std::shared_ptr<SimRegistration<S, T>> Ptr;
    typedef typename Registration<S, T, float>::PointCloudSource Out;
protected:
    void computeTransformation(Out& output, const Eigen::Matrix4f& guess) override {
        std::vector<float> s, t;
        s.reserve(this->indices_->size() * 3); t.reserve(this->target_->size() * 3);
        for (auto i : *this->indices_) { const auto& p = (*this->input_)[i]; s.push_back(p.x); s.push_back(p.y); s.push_back(p.z); }
        for (const auto& p : *this->target_) { t.push_back(p.x); t.push_back(p.y); t.push_back(p.z); }
        this->final_transformation_ = sim::align_points(this, s, this->input_->header.stamp, t, this->target_->header.stamp, guess, this->max_iterations_, this->corr_dist_threshold_);
        this->transformation_ = this->final_transformation_;
        this->converged_ = true;
        for (auto& p : output.points) {
            const Eigen::Vector4f v = this->final_transformation_ * Eigen::Vector4f(p.x, p.y, p.z, 1.0f);
            p.x = v[0]; p.y = v[1]; p.z = v[2];
        }
    }
};
template<class S, class T, class Sc = float> class IterativeClosestPoint : public SimRegistration<S, T> {
public:
    typedef std::shared_ptr<IterativeClosestPoint<S, T, Sc>> Ptr;
    void setUseReciprocalCorrespondences(bool) {}
};
template<class S, class T, class Sc = float> class GeneralizedIterativeClosestPoint : public IterativeClosestPoint<S, T, Sc> {
public:
    typedef std::shared_ptr<GeneralizedIterativeClosestPoint<S, T, Sc>> Ptr;
    void setRotationEpsilon(double) {}
    void setCorrespondenceRandomness(int) {}
    void setMaximumOptimizerIterations(int) {}
    void setTranslationGradientTolerance(double) {}
    void setRotationGradientTolerance(double) {}
};
template<class S, class T, class Sc = float> class NormalDistributionsTransform : public SimRegistration<S, T> {
public:
    typedef std::shared_ptr<NormalDistributionsTransform<S, T, Sc>> Ptr;
    void setResolution(float) {}
    void setStepSize(double) {}
    void setOulierRatio(double) {}
    void setOutlierRatio(double) {}
};
}
