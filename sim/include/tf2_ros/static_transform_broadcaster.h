#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf2_ros {
class StaticTransformBroadcaster {
public:
    StaticTransformBroadcaster() : pub(ros::NodeHandle("/").advertise<geometry_msgs::TransformStamped>("/tf_static", 100)) {}
    void sendTransform(const geometry_msgs::TransformStamped& t) { pub.publish(t); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (const auto& t : v) pub.publish(t); }
private:
    ros::Publisher pub;
};
}
