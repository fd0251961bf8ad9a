#pragma once
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
namespace cv_bridge {
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
inline int type_of(const std::string& e) {
    if (e == "rgb8" || e == "bgr8") return CV_8UC3;
    if (e == "rgba8" || e == "bgra8") return CV_8UC4;
    if (e == "mono16") return CV_16UC1;
    if (e == "32FC1") return CV_32FC1;
    if (e == "mono8" || e == "8UC1") return CV_8UC1;
    throw Exception("encoding " + e);
}
class CvImage {
public:
    std_msgs::Header header; std::string encoding; cv::Mat image;
    CvImage() = default;
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
    sensor_msgs::ImagePtr toImageMsg() const { auto p = boost::make_shared<sensor_msgs::Image>(); toImageMsg(*p); return p; }
    void toImageMsg(sensor_msgs::Image& r) const {
        r.header = header; r.height = image.rows; r.width = image.cols; r.encoding = encoding; r.is_bigendian = 0; r.step = image.cols * image.elemSize();
        r.data.resize(size_t(r.step) * image.rows);
        for (int i = 0; i < image.rows; ++i) memcpy(r.data.data() + size_t(i) * r.step, image.ptr(i), r.step);
    }
    typedef boost::shared_ptr<CvImage> Ptr; typedef boost::shared_ptr<CvImage const> ConstPtr;
    boost::shared_ptr<void const> tracked;
};
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& = std::string()) {
    auto p = boost::make_shared<CvImage>();
    p->header = s->header; p->encoding = s->encoding; p->tracked = s;
    p->image = cv::Mat(int(s->height), int(s->width), type_of(s->encoding), const_cast<uint8_t*>(s->data.data()), s->step);
    return p;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& = std::string()) {
    auto p = boost::make_shared<CvImage>(*toCvShare(s)); p->image = p->image.clone(); return p;
}
}
