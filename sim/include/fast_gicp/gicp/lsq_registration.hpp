#pragma once
// Stand-in for the external fast_gicp library (not installed): the same interface on top of the simulator's alignment.
#include <sim_registration.hpp>
namespace fast_gicp {
enum class RegularizationMethod { NONE, MIN_EIG, NORMALIZED_MIN_EIG, PLANE, FROBENIUS };
enum class NeighborSearchMethod { DIRECT27, DIRECT7, DIRECT1, DIRECT_RADIUS };
enum class VoxelAccumulationMode { ADDITIVE, ADDITIVE_WEIGHTED, MULTIPLICATIVE };
template<class S, class T> class LsqRegistration : public pcl::SimRegistration<S, T> {
public:
    typedef std::shared_ptr<LsqRegistration<S, T>> Ptr;
    void setRotationEpsilon(double) {}
    void setInitialLambdaFactor(double) {}
    void setDebugPrint(bool) {}
};
template<class S, class T> class FastGICP : public LsqRegistration<S, T> {
public:
    typedef std::shared_ptr<FastGICP<S, T>> Ptr;
    void setNumThreads(int) {}
    void setCorrespondenceRandomness(int) {}
    void setRegularizationMethod(RegularizationMethod) {}
};
template<class S, class T> class FastGICPSingleThread : public FastGICP<S, T> { public: typedef std::shared_ptr<FastGICPSingleThread<S, T>> Ptr; };
template<class S, class T> class FastVGICP : public FastGICP<S, T> {
public:
    typedef std::shared_ptr<FastVGICP<S, T>> Ptr;
    void setResolution(double) {}
    void setVoxelAccumulationMode(VoxelAccumulationMode) {}
    void setNeighborSearchMethod(NeighborSearchMethod) {}
};
}
