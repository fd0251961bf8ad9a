#pragma once
#include <pcl/PCLHeader.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/PCLPointField.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t& pcl_stamp, ros::Time& stamp) { stamp.fromNSec(pcl_stamp * 1000ull); }
inline void toPCL(const ros::Time& stamp, std::uint64_t& pcl_stamp) { pcl_stamp = stamp.toNSec() / 1000ull; }
inline ros::Time fromPCL(const std::uint64_t& pcl_stamp) { ros::Time t; fromPCL(pcl_stamp, t); return t; }
inline std::uint64_t toPCL(const ros::Time& stamp) { std::uint64_t s; toPCL(stamp, s); return s; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
inline void copyPointCloud2MetaData(const pcl::PCLPointCloud2& a, sensor_msgs::PointCloud2& b) {
    fromPCL(a.header, b.header); b.height = a.height; b.width = a.width; b.fields.clear();
    for (const auto& f : a.fields) { sensor_msgs::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; b.fields.push_back(g); }
    b.is_bigendian = a.is_bigendian; b.point_step = a.point_step; b.row_step = a.row_step; b.is_dense = a.is_dense;
}
inline void copyPointCloud2MetaData(const sensor_msgs::PointCloud2& a, pcl::PCLPointCloud2& b) {
    toPCL(a.header, b.header); b.height = a.height; b.width = a.width; b.fields.clear();
    for (const auto& f : a.fields) { pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; b.fields.push_back(g); }
    b.is_bigendian = a.is_bigendian; b.point_step = a.point_step; b.row_step = a.row_step; b.is_dense = a.is_dense;
}
inline void fromPCL(const pcl::PCLPointCloud2& a, sensor_msgs::PointCloud2& b) { copyPointCloud2MetaData(a, b); b.data = a.data; }
inline void moveFromPCL(pcl::PCLPointCloud2& a, sensor_msgs::PointCloud2& b) { copyPointCloud2MetaData(a, b); b.data.swap(a.data); }
inline void toPCL(const sensor_msgs::PointCloud2& a, pcl::PCLPointCloud2& b) { copyPointCloud2MetaData(a, b); b.data = a.data; }
inline void moveToPCL(sensor_msgs::PointCloud2& a, pcl::PCLPointCloud2& b) { copyPointCloud2MetaData(a, b); b.data.swap(a.data); }
}
namespace pcl {
template<class T> void toROSMsg(const pcl::PointCloud<T>& c, sensor_msgs::PointCloud2& m) { pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::moveFromPCL(p, m); }
template<class T> void fromROSMsg(const sensor_msgs::PointCloud2& m, pcl::PointCloud<T>& c) { pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); pcl::fromPCLPointCloud2(p, c); }
}
