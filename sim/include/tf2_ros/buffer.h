#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <tf2/exceptions.h>
namespace tf2_ros {
class Buffer {
public:
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0.0)) const;
    bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0.0), std::string* = nullptr) const;
};
}
