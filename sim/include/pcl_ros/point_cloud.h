#pragma once
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <pcl_conversions/pcl_conversions.h>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
namespace ros {
namespace message_traits {
template<class T> struct StampOf<pcl::PointCloud<T>, void> { static sim::Nanos get(const void* p) { return sim::Nanos(static_cast<const pcl::PointCloud<T>*>(p)->header.stamp * 1000ull); } };
template<> struct StampOf<pcl::PCLPointCloud2, void> { static sim::Nanos get(const void* p) { return sim::Nanos(static_cast<const pcl::PCLPointCloud2*>(p)->header.stamp * 1000ull); } };
}
template<class T> struct Wire<pcl::PointCloud<T>, void> {
    typedef pcl::PCLPointCloud2 Canon;
    static std::shared_ptr<const Canon> to(const std::shared_ptr<const pcl::PointCloud<T>>& m) { auto r = std::make_shared<Canon>(); pcl::toPCLPointCloud2(*m, *r); return r; }
    static std::shared_ptr<const pcl::PointCloud<T>> from(const std::shared_ptr<const Canon>& m) { auto r = std::make_shared<pcl::PointCloud<T>>(); pcl::fromPCLPointCloud2(*m, *r); return r; }
};
template<> struct Wire<sensor_msgs::PointCloud2, void> {
    typedef pcl::PCLPointCloud2 Canon;
    static std::shared_ptr<const Canon> to(const std::shared_ptr<const sensor_msgs::PointCloud2>& m) { auto r = std::make_shared<Canon>(); pcl_conversions::toPCL(*m, *r); return r; }
    static std::shared_ptr<const sensor_msgs::PointCloud2> from(const std::shared_ptr<const Canon>& m) { auto r = std::make_shared<sensor_msgs::PointCloud2>(); pcl_conversions::fromPCL(*m, *r); return r; }
};
}
