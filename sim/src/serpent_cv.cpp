// Stand-ins for the two external image algorithms (FAST detection, pyramidal Lucas-Kanade flow): the rendered frames carry
// their index, so the stand-ins answer from the ground truth, with injected track losses and vertical tracking errors.
#include <opencv2/features2d.hpp>
#include <opencv2/video/tracking.hpp>

#include "race.hpp"
#include "serpent_cv.hpp"

namespace hs {
const Scn* cv_scn = nullptr;
std::vector<FlowRecord> flow_records;
static const StereoFrame* frame_of(const cv::Mat& m, int& lr) {
    const int i = m.at<unsigned char>(0, 0) | (m.at<unsigned char>(0, 1) << 8);
    lr = m.at<unsigned char>(0, 2);
    return cv_scn && i < int(cv_scn->frames.size()) ? &cv_scn->frames[i] : nullptr;
}
static double chance(uint64_t seed, int a, int b, int c) {
    sim::Rng r(seed * 1000003ull + uint64_t(a) * 7919 + uint64_t(b) * 104729 + uint64_t(c) * 31);
    return r.uni();
}
static double fault_p(const char* kind) { double p = 0; for (auto& f : cv_scn->faults) if (f.on && f.kind == kind) p = f.t1; return p; }
bool flow_lost(int frame, int lr, int landmark) { return chance(cv_scn->seed, frame * 2 + lr, landmark, 1) < fault_p("track_loss"); }
bool flow_err(int frame, int landmark) { return chance(cv_scn->seed, frame, landmark, 2) < fault_p("track_err"); }
std::vector<cv::Point2f> sim_detect(const StereoFrame& f, int lr, const cv::Mat& mk) {
    std::vector<cv::Point2f> out;
    for (auto& [j, q] : f.pt[lr]) {
        const cv::Point2f p(q.first, q.second);
        if (mk.empty() || mk.at<unsigned char>(int(p.y), int(p.x))) out.push_back(p);
    }
    return out;
}
std::optional<cv::Point2f> sim_flow(const StereoFrame& fa, const StereoFrame& fb, int la, int lb, cv::Point2f q, bool* lost, bool* err) {
    int best = -1;
    double bd = 4.0;
    for (auto& [j, p] : fa.pt[la]) {
        const double d = std::hypot(p.first - q.x, p.second - q.y);
        if (d < bd) { bd = d; best = j; }
    }
    if (best < 0 || !fb.pt[lb].count(best)) return std::nullopt;
    if (flow_lost(fb.index, lb, best)) { if (lost) *lost = true; return std::nullopt; }
    auto& p = fb.pt[lb].at(best);
    cv::Point2f o(p.first, p.second);
    if (lb && flow_err(fb.index, best)) { o.y += 3.f; if (err) *err = true; }
    return o;
}
class SimFast : public cv::FastFeatureDetector {
public:
    void detect(cv::InputArray image, std::vector<cv::KeyPoint>& kps, cv::InputArray mask) override {
        sim::RaceIgnore ignore;
        kps.clear();
        const cv::Mat m = image.getMat();
        const cv::Mat mk = mask.empty() ? cv::Mat() : mask.getMat();
        int lr;
        const StereoFrame* f = frame_of(m, lr);
        if (!f) return;
        for (auto& p : sim_detect(*f, lr, mk)) kps.emplace_back(p, 7.f);
    }
    void setThreshold(int) override {}
    int getThreshold() const override { return 0; }
    void setNonmaxSuppression(bool) override {}
    bool getNonmaxSuppression() const override { return true; }
    void setType(cv::FastFeatureDetector::DetectorType) override {}
    cv::FastFeatureDetector::DetectorType getType() const override { return cv::FastFeatureDetector::TYPE_9_16; }
};
class SimFlow : public cv::SparsePyrLKOpticalFlow {
public:
    void calc(cv::InputArray prev, cv::InputArray next, cv::InputArray prevPts, cv::InputOutputArray nextPts, cv::OutputArray status, cv::OutputArray err) override {
        sim::RaceIgnore ignore;
        const cv::Mat a = prev.getMat(), b = next.getMat(), pp = prevPts.getMat();
        int la, lb;
        const StereoFrame *fa = frame_of(a, la), *fb = frame_of(b, lb);
        const int n = pp.checkVector(2, CV_32F, true);
        nextPts.create(pp.size(), pp.type(), -1, true);
        cv::Mat np = nextPts.getMat();
        status.create(n, 1, CV_8U, -1, true);
        cv::Mat st = status.getMat();
        if (err.needed()) { err.create(n, 1, CV_32F, -1, true); err.getMat().setTo(0); }
        FlowRecord r;
        r.lr_prev = la; r.lr_next = lb; r.prev = fa ? fa->index : -1; r.next = fb ? fb->index : -1;
        for (int i = 0; i < n; ++i) {
            const cv::Point2f q = pp.ptr<cv::Point2f>()[i];
            st.at<unsigned char>(i) = 0;
            np.ptr<cv::Point2f>()[i] = cv::Point2f(-1.f, -1.f);
            if (!fa || !fb) continue;
            bool lost = false, off = false;
            const auto o = sim_flow(*fa, *fb, la, lb, q, &lost, &off);
            if (lost) { ++r.lost; if (sim::W) ++sim::W->fault_counts["track_loss"]; }
            if (!o) continue;
            if (off && sim::W) ++sim::W->fault_counts["track_err"];
            np.ptr<cv::Point2f>()[i] = *o;
            st.at<unsigned char>(i) = 1;
        }
        flow_records.push_back(r);
    }
    cv::Size getWinSize() const override { return cv::Size(21, 21); }
    void setWinSize(cv::Size) override {}
    int getMaxLevel() const override { return 3; }
    void setMaxLevel(int) override {}
    cv::TermCriteria getTermCriteria() const override { return cv::TermCriteria(); }
    void setTermCriteria(cv::TermCriteria&) override {}
    int getFlags() const override { return 0; }
    void setFlags(int) override {}
    double getMinEigThreshold() const override { return 0; }
    void setMinEigThreshold(double) override {}
};
}  // namespace hs
namespace cv {
Ptr<FastFeatureDetector> FastFeatureDetector::create(int, bool, FastFeatureDetector::DetectorType) { return makePtr<hs::SimFast>(); }
Ptr<SparsePyrLKOpticalFlow> SparsePyrLKOpticalFlow::create(Size, int, TermCriteria, int, double) { return makePtr<hs::SimFlow>(); }
}
