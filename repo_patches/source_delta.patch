From 25b5e3156d0748c088dfa468464ab0f7203ff24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 01/13] fix: LM optimizer adds the general factor's trial error
 to the trial error

update_error() was given the current error, so a general factor's error made
every trial look better and bad steps were accepted.
---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From 02d03fb56cc580075e24c927cec47693c8e78b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 02/13] fix: voxelgrid sampling emitted points whose voxel
 coords are out of range

The first point of each scanned range was always accumulated even when its
coord was invalid, so that a point set (or block) consisting only of
out-of-range points produced an output point.
---
 include/small_gicp/util/downsampling.hpp     | 5 +++++
 include/small_gicp/util/downsampling_omp.hpp | 5 +++++
 include/small_gicp/util/downsampling_tbb.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..6f6cccb 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  // Invalid coords are sorted to the end. No valid points if the first one is invalid.
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..f0181ff 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    // Invalid coords are sorted to the end. No valid points in this block if the first one is invalid.
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..bb43f62 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    // Invalid coords are sorted to the end. No valid points in this block if the first one is invalid.
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From 9f7823f94fce875b09171a1212c9430135f69f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 03/13] fix: KdTree search on an empty tree read an
 uninitialized root and a non-existent node

---
 include/small_gicp/ann/kdtree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..4cee0ae 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,6 +171,10 @@ public:
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<-1> result(k_indices, k_sq_dists, k);
+    if (nodes.empty()) {
+      return 0;
+    }
+
     knn_search(query, root, result, setting);
     return result.num_found();
   }
@@ -184,6 +188,10 @@ public:
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<N> result(k_indices, k_sq_dists);
+    if (nodes.empty()) {
+      return 0;
+    }
+
     knn_search(query, root, result, setting);
     return result.num_found();
   }
-- 
2.43.0


From 0c26975a28349c10d4f220fa0f88cdefeaf75f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 04/13] fix: KdTree builders wrote nodes out of bounds for
 small max_leaf_size

A tree with N leaves has 2N-1 nodes, which exceeds the N nodes allocated
when max_leaf_size is 1 or 2.
---
 include/small_gicp/ann/kdtree.hpp     | 2 +-
 include/small_gicp/ann/kdtree_omp.hpp | 2 +-
 include/small_gicp/ann/kdtree_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index 4cee0ae..b14eb9b 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points) - 1);  // Max number of nodes when every leaf has one point
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..eb395f2 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points) - 1);  // Max number of nodes when every leaf has one point
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..289c9bc 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points) - 1);  // Max number of nodes when every leaf has one point
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From 4ed97eaae1bc18c7946e72df84aa736653d18b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 05/13] fix: set_search_offsets(27) kept the previous offsets
 and resulted in duplicates

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From 16e21b9099193019f9656c602ee0788f6c49ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 06/13] fix: max_correspondence_distance was ignored by align()
 with GaussianVoxelMap

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From f35cc3be1ae6d5aec831cb58fef05e6814b6b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 07/13] fix: preprocess_points did not pass num_threads to
 voxelgrid_sampling_omp

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 2168d9c..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0


From a00c210fbfa549e2787ef46c82d18252cebc2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 08/13] fix: setVoxelResolution validated the previous
 resolution instead of the argument

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..9d5ba79 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -159,7 +159,7 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
-- 
2.43.0


From 502cb42add256e59477fcc6d6de2c777b1607393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 09/13] fix: RegistrationPCL reused voxelmaps built with the
 previous resolution or covariances

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 9d5ba79..d90277d 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -165,6 +167,8 @@ void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
   }
 
   voxel_resolution_ = r;
+  source_voxelmap_.reset();
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From eade2ce0343ce019aba4cb98a26259b1e2703052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 10/13] fix: swapSourceAndTarget left the PCL search trees on
 the clouds before the swap

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index d90277d..a018055 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -117,6 +117,8 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+  this->source_cloud_updated_ = true;
+  this->target_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 743c3e0f0d5a907a5ac053af65cc0bfebcbb6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 11/13] fix: read_ply overran its buffer when the number of
 properties is not four

The number of bytes to read did not depend on the number of properties, and
files with less than three properties were read out of bounds.
---
 include/small_gicp/benchmark/read_points.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index 0a7296d..d480e54 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -89,16 +89,17 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
   }
 
   if (
-    line.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
+    properties.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
     std::tolower(properties[1][0]) != 'y' || std::tolower(properties[2][0]) != 'z') {
     std::cerr << "warning: invalid properties!!" << std::endl;
     for (const auto& prop : properties) {
       std::cerr << " - " << prop << std::endl;
     }
+    return {};
   }
 
   std::vector<float> buffer(properties.size() * points.size());
-  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(Eigen::Vector4f) * points.size());
+  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(float) * buffer.size());
 
   for (size_t i = 0; i < points.size(); i++) {
     const int stride = properties.size();
-- 
2.43.0


From 4292e2df164f5167862355442a92e9d579bf2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 12/13] fix: Python accessors read out of bounds for invalid
 indices and empty objects

---
 src/python/pointcloud.cpp | 10 +++++-----
 src/python/voxelmap.cpp   |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 39197f8..ecd1a45 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -74,7 +74,7 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "points",
-      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.points[0].data(), points.size(), 4); },
+      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.empty() ? nullptr : points.points[0].data(), points.size(), 4); },
       R"pbdoc(
         Get the points as a Nx4 matrix.
 
@@ -85,7 +85,7 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "normals",
-      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.normals[0].data(), points.size(), 4); },
+      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.empty() ? nullptr : points.normals[0].data(), points.size(), 4); },
       R"pbdoc(
         Get the normals as a Nx4 matrix.
 
@@ -107,7 +107,7 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "point",
-      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.point(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.points.at(i); },
       py::arg("i"),
       R"pbdoc(
         Get the i-th point.
@@ -124,7 +124,7 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "normal",
-      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.normal(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.normals.at(i); },
       py::arg("i"),
       R"pbdoc(
         Get the i-th normal.
@@ -141,7 +141,7 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "cov",
-      [](const PointCloud& points, size_t i) -> Eigen::Matrix4d { return points.cov(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Matrix4d { return points.covs.at(i); },
       py::arg("i"),
       R"pbdoc(
         Get the i-th covariance matrix.
diff --git a/src/python/voxelmap.cpp b/src/python/voxelmap.cpp
index 380b0f9..cdca140 100644
--- a/src/python/voxelmap.cpp
+++ b/src/python/voxelmap.cpp
@@ -97,7 +97,7 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_points",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto points = traits::voxel_points(voxelmap);
-        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points[0].data(), points.size(), 4);
+        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.empty() ? nullptr : points[0].data(), points.size(), 4);
       },
       R"pbdoc(
         Get the voxel points.
@@ -113,7 +113,7 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_normals",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto normals = traits::voxel_normals(voxelmap);
-        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(normals[0].data(), normals.size(), 4);
+        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(normals.empty() ? nullptr : normals[0].data(), normals.size(), 4);
       },
       R"pbdoc(
         Get the voxel normals.
@@ -130,7 +130,7 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_covs",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto covs = traits::voxel_covs(voxelmap);
-        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(covs[0].data(), covs.size(), 16);
+        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(covs.empty() ? nullptr : covs[0].data(), covs.size(), 16);
       },
       R"pbdoc(
         Get the voxel normals.
-- 
2.43.0


From 7bdb0a94a8d84944aa4fe857dacd1c2311c43109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 13/13] Revert "fix: read_ply overran its buffer when the
 number of properties is not four"

read_points.hpp lies under benchmark/, which is left as it is.
---
 include/small_gicp/benchmark/read_points.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index d480e54..0a7296d 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -89,17 +89,16 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
   }
 
   if (
-    properties.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
+    line.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
     std::tolower(properties[1][0]) != 'y' || std::tolower(properties[2][0]) != 'z') {
     std::cerr << "warning: invalid properties!!" << std::endl;
     for (const auto& prop : properties) {
       std::cerr << " - " << prop << std::endl;
     }
-    return {};
   }
 
   std::vector<float> buffer(properties.size() * points.size());
-  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(float) * buffer.size());
+  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(Eigen::Vector4f) * points.size());
 
   for (size_t i = 0; i < points.size(); i++) {
     const int stride = properties.size();
-- 
2.43.0

