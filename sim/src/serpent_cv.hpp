#pragma once
#include <optional>
#include <opencv2/core.hpp>
#include "serpent_h.hpp"
namespace hs {
extern const Scn* cv_scn;
struct FlowRecord { int prev, next, lr_prev, lr_next, lost = 0; };
extern std::vector<FlowRecord> flow_records;
// what the stand-ins answer: points detected in one image, and where a point of the frame `from` is in the frame `to`
std::vector<cv::Point2f> sim_detect(const StereoFrame& f, int lr, const cv::Mat& mask);
std::optional<cv::Point2f> sim_flow(const StereoFrame& from, const StereoFrame& to, int lr_from, int lr_to, cv::Point2f q, bool* lost = nullptr, bool* err = nullptr);
bool flow_lost(int frame, int lr, int landmark);  // injected loss of a track
bool flow_err(int frame, int landmark);           // injected vertical error of a track in the right image
}
