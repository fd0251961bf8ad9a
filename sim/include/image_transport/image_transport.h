#pragma once
#include <ros/ros.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/Image.h>
namespace image_transport {
class Publisher {
public:
    Publisher() = default;
    explicit Publisher(ros::Publisher p) : p(p) {}
    void publish(const sensor_msgs::ImageConstPtr& m) const { p.publish(m); }
    void publish(const sensor_msgs::ImagePtr& m) const { p.publish(m); }
    void publish(const sensor_msgs::Image& m) const { p.publish(m); }
    std::string getTopic() const { return p.getTopic(); }
    uint32_t getNumSubscribers() const { return 1; }
private:
    ros::Publisher p;
};
class Subscriber { public: Subscriber() = default; explicit Subscriber(ros::Subscriber s) : s(s) {} std::string getTopic() const { return s.getTopic(); } ros::Subscriber s; };
class ImageTransport {
public:
    explicit ImageTransport(const ros::NodeHandle& nh) : nh(nh) {}
    Publisher advertise(const std::string& t, uint32_t q, bool latch = false) { return Publisher(nh.advertise<sensor_msgs::Image>(t, q, latch)); }
    template<class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const sensor_msgs::ImageConstPtr&), T* o) { return Subscriber(nh.subscribe(t, q, fp, o)); }
private:
    ros::NodeHandle nh;
};
}
