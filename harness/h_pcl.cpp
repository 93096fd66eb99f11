#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
template class small_gicp::RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ>;
template struct small_gicp::traits::Traits<pcl::PointCloud<pcl::PointNormalCovariance>>;
template struct small_gicp::traits::Traits<small_gicp::PointCloudProxy<pcl::PointXYZ>>;
#include "spec_pcl.hpp"
