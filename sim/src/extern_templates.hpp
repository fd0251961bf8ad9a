#pragma once
// The heavy class templates are instantiated in translation units of their own, to build in parallel.
#include <pointcloud_tools/point_types.hpp>
#include "serpent/front_end/lidar/pointcloud_normal_estimation.hpp"
#include "serpent/front_end/lidar/registration.hpp"
#include "serpent/mapping/mapping.hpp"
extern template class serpent::Registration<pcl::PointNormal>;
extern template class serpent::Registration<PointNormalUnit>;
extern template class serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>;
extern template class serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>;
extern template class serpent::Mapping<pcl::PointNormal>;
extern template class serpent::Mapping<PointNormalUnit>;
