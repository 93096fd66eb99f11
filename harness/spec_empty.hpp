// Empty inputs: what the operations do when there is nothing to work on.
namespace vpw {
namespace em {
using small_gicp::PointCloud;
using Tree = small_gicp::UnsafeKdTree<PointCloud>;
using STree = small_gicp::KdTree<PointCloud>;
using Rows = std::vector<Eigen::Vector4d>;
}
// --- downsampling
size_t empty_voxelgrid(double leaf) { PointCloud c; return voxelgrid_sampling(c, leaf)->points.size(); }
size_t empty_voxelgrid_omp(double leaf, int n) { PointCloud c; return voxelgrid_sampling_omp(c, leaf, n)->points.size(); }
size_t empty_voxelgrid_tbb(double leaf) { PointCloud c; return voxelgrid_sampling_tbb(c, leaf)->points.size(); }
size_t empty_random(size_t n, std::mt19937& rng) { PointCloud c; return random_sampling(c, n, rng)->points.size(); }
// --- feature estimation
size_t empty_normals(int k) { PointCloud c; estimate_normals(c, k); return c.normals.size(); }
size_t empty_covs(int k) { PointCloud c; estimate_covariances(c, k); return c.covs.size(); }
size_t empty_both(int k) { PointCloud c; estimate_normals_covariances(c, k); return c.normals.size() + c.covs.size(); }
size_t empty_normals_omp(int k, int n) { PointCloud c; estimate_normals_omp(c, k, n); return c.normals.size(); }
size_t empty_covs_omp(int k, int n) { PointCloud c; estimate_covariances_omp(c, k, n); return c.covs.size(); }
size_t empty_both_omp(int k, int n) { PointCloud c; estimate_normals_covariances_omp(c, k, n); return c.normals.size() + c.covs.size(); }
size_t empty_normals_tbb(int k) { PointCloud c; estimate_normals_tbb(c, k); return c.normals.size(); }
size_t empty_covs_tbb(int k) { PointCloud c; estimate_covariances_tbb(c, k); return c.covs.size(); }
size_t empty_both_tbb(int k) { PointCloud c; estimate_normals_covariances_tbb(c, k); return c.normals.size() + c.covs.size(); }
// --- trees and searches
size_t empty_tree() { PointCloud c; em::Tree t(c, KdTreeBuilder()); return t.indices.size(); }
size_t empty_tree_omp(int n) { PointCloud c; em::Tree t(c, KdTreeBuilderOMP(n)); return t.indices.size(); }
size_t empty_tree_tbb() { PointCloud c; em::Tree t(c, KdTreeBuilderTBB()); return t.indices.size(); }
size_t empty_tree_normal() { PointCloud c; UnsafeKdTree<PointCloud, NormalProjection> t(c, KdTreeBuilder()); return t.indices.size(); }
size_t empty_tree_knn(const Eigen::Vector4d& q, int k, size_t* ki, double* kd) { PointCloud c; em::Tree t(c, KdTreeBuilder()); return t.knn_search(q, k, ki, kd); }
size_t empty_tree_knn4(const Eigen::Vector4d& q, size_t* ki, double* kd) { PointCloud c; em::Tree t(c, KdTreeBuilder()); return t.knn_search<4>(q, ki, kd); }
size_t empty_tree_nn(const Eigen::Vector4d& q, size_t* ki, double* kd) { PointCloud c; em::Tree t(c, KdTreeBuilder()); return t.nearest_neighbor_search(q, ki, kd); }
size_t empty_omp_knn(const Eigen::Vector4d& q, int k, size_t* ki, double* kd, int n) { PointCloud c; em::Tree t(c, KdTreeBuilderOMP(n)); return t.knn_search(q, k, ki, kd); }
size_t empty_omp_nn(const Eigen::Vector4d& q, size_t* ki, double* kd, int n) { PointCloud c; em::Tree t(c, KdTreeBuilderOMP(n)); return t.nearest_neighbor_search(q, ki, kd); }
size_t empty_tbb_knn(const Eigen::Vector4d& q, int k, size_t* ki, double* kd) { PointCloud c; em::Tree t(c, KdTreeBuilderTBB()); return t.knn_search(q, k, ki, kd); }
size_t empty_tbb_nn(const Eigen::Vector4d& q, size_t* ki, double* kd) { PointCloud c; em::Tree t(c, KdTreeBuilderTBB()); return t.nearest_neighbor_search(q, ki, kd); }
size_t empty_stree_knn(const Eigen::Vector4d& q, size_t k, size_t* ki, double* kd) { em::STree t(std::make_shared<PointCloud>()); return t.knn_search(q, k, ki, kd); }
size_t empty_stree_nn(const Eigen::Vector4d& q, size_t* ki, double* kd) { em::STree t(std::make_shared<PointCloud>()); return t.nearest_neighbor_search(q, ki, kd); }
// --- voxel maps
#define VP_EMPTY_MAP(NAME, V) \
  size_t empty_insert_##NAME(double leaf, const Eigen::Isometry3d& T) { PointCloud c; V m(leaf); m.insert(c, T); return m.flat_voxels.size(); } \
  size_t empty_knn_##NAME(double leaf, const Eigen::Vector4d& q, size_t k, size_t* ki, double* kd) { V m(leaf); return m.knn_search(q, k, ki, kd); } \
  size_t empty_nn_##NAME(double leaf, const Eigen::Vector4d& q, size_t* ki, double* kd) { V m(leaf); return m.nearest_neighbor_search(q, ki, kd); } \
  size_t empty_points_##NAME(double leaf) { V m(leaf); return traits::voxel_points(m).size(); }
VP_EMPTY_MAP(flat, IncrementalVoxelMap<FlatContainerPoints>)
VP_EMPTY_MAP(flatcov, IncrementalVoxelMap<FlatContainerNormalCov>)
VP_EMPTY_MAP(gauss, GaussianVoxelMap)
#undef VP_EMPTY_MAP
size_t empty_flat_knn(const Eigen::Vector4d& q, size_t k, size_t* ki, double* kd) { FlatContainerPoints f; return f.knn_search(q, k, ki, kd); }
size_t empty_flat_nn(const Eigen::Vector4d& q, size_t* ki, double* kd) { FlatContainerNormalCov f; return f.nearest_neighbor_search(q, ki, kd); }
// --- sorting
size_t empty_quick(const vp::Less& less, int n) { std::vector<vp::Item> v; quick_sort_omp(v.begin(), v.end(), less, n); return v.size(); }
size_t empty_merge(const vp::Less& less, int n) { std::vector<vp::Item> v; merge_sort_omp(v.begin(), v.end(), less, n); return v.size(); }
size_t empty_radix(const vp::KeyFn& key) { std::vector<vp::Item> v; radix_sort_tbb(v.data(), v.data() + v.size(), key); return v.size(); }
// --- clouds
size_t empty_resize(size_t n) { PointCloud c; c.resize(n); return c.points.size() + c.normals.size() + c.covs.size(); }
size_t empty_copy() { em::Rows p; PointCloud c(p); return c.points.size(); }
}  // namespace vpw
