// Python functions: what each binding has to do (vps::py_<name>, parameters named after the Python arguments).
#pragma once
namespace vps {
using namespace small_gicp;
void assume(bool);
void reject();   // an exception
using Tree = KdTree<PointCloud>;
using TreePtr = std::shared_ptr<Tree>;
using Mat = Eigen::MatrixXd;
using M4 = Eigen::Matrix4d;
inline bool shaped(const Mat& m) { return m.cols() == 3 || m.cols() == 4; }
inline Eigen::Vector4d homogeneous(const Mat& m, size_t i) { return Eigen::Vector4d(m(i, 0), m(i, 1), m(i, 2), m.cols() == 3 ? 1.0 : m(i, 3)); }
inline RegistrationSetting settings(RegistrationSetting::RegistrationType type, double corr, int n, int it, double re, double te, bool verbose) {
  RegistrationSetting s;
  s.type = type;
  s.verbose = verbose;
  s.translation_eps = te;
  s.rotation_eps = re;
  s.max_iterations = it;
  s.num_threads = n;
  s.max_correspondence_distance = corr;
  return s;
}
// --- align
RegistrationResult py_align(const Mat& target_points, const Mat& source_points, const M4& init_T_target_source, const std::string& registration_type, double voxel_resolution, double downsampling_resolution,
                            double max_correspondence_distance, int num_threads, int max_iterations, double rotation_epsilon, double translation_epsilon, bool verbose) {
  const RegistrationResult none(Eigen::Isometry3d::Identity());
  if (!shaped(target_points) || !shaped(source_points)) return none;
  RegistrationSetting::RegistrationType type;
  if (registration_type == "ICP") type = RegistrationSetting::ICP;
  else if (registration_type == "PLANE_ICP") type = RegistrationSetting::PLANE_ICP;
  else if (registration_type == "GICP") type = RegistrationSetting::GICP;
  else if (registration_type == "VGICP") type = RegistrationSetting::VGICP;
  else return none;
  RegistrationSetting s = settings(type, max_correspondence_distance, num_threads, max_iterations, rotation_epsilon, translation_epsilon, verbose);
  s.voxel_resolution = voxel_resolution;
  s.downsampling_resolution = downsampling_resolution;
  std::vector<Eigen::Vector4d> t(target_points.rows()), u(source_points.rows());
  for (size_t i = 0; i < target_points.rows(); i++) t[i] = homogeneous(target_points, i);
  for (size_t i = 0; i < source_points.rows(); i++) u[i] = homogeneous(source_points, i);
  return small_gicp::align(t, u, Eigen::Isometry3d(init_T_target_source), s);
}
RegistrationResult py_align(const PointCloud::ConstPtr& target, const PointCloud::ConstPtr& source, Tree::ConstPtr target_tree, const M4& init_T_target_source, const std::string& registration_type,
                            double max_correspondence_distance, int num_threads, int max_iterations, double rotation_epsilon, double translation_epsilon, bool verbose) {
  RegistrationSetting::RegistrationType type;
  if (registration_type == "ICP") type = RegistrationSetting::ICP;
  else if (registration_type == "PLANE_ICP") type = RegistrationSetting::PLANE_ICP;
  else if (registration_type == "GICP") type = RegistrationSetting::GICP;
  else return RegistrationResult(Eigen::Isometry3d::Identity());
  const RegistrationSetting s = settings(type, max_correspondence_distance, num_threads, max_iterations, rotation_epsilon, translation_epsilon, verbose);
  if (target_tree == nullptr) target_tree = std::make_shared<Tree>(target, KdTreeBuilderOMP(num_threads));
  return small_gicp::align(*target, *source, *target_tree, Eigen::Isometry3d(init_T_target_source), s);
}
RegistrationResult py_align(const GaussianVoxelMap& target_voxelmap, const PointCloud& source, const M4& init_T_target_source, double max_correspondence_distance, int num_threads, int max_iterations,
                            double rotation_epsilon, double translation_epsilon, bool verbose) {
  return small_gicp::align(target_voxelmap, source, Eigen::Isometry3d(init_T_target_source),
                           settings(RegistrationSetting::VGICP, max_correspondence_distance, num_threads, max_iterations, rotation_epsilon, translation_epsilon, verbose));
}
// --- preprocessing
PointCloud::Ptr py_voxelgrid_sampling(const PointCloud& points, double downsampling_resolution, int num_threads) {
  if (num_threads == 1) return voxelgrid_sampling(points, downsampling_resolution);
  return voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
}
PointCloud::Ptr py_voxelgrid_sampling(const Mat& points, double downsampling_resolution, int num_threads) {
  if (!shaped(points)) return nullptr;
  if (num_threads == 1) return voxelgrid_sampling<Mat, PointCloud>(points, downsampling_resolution);
  return voxelgrid_sampling_omp<Mat, PointCloud>(points, downsampling_resolution, num_threads);
}
void py_estimate_normals(PointCloud::Ptr points, TreePtr tree, int num_neighbors, int num_threads) {
  if (tree == nullptr) tree = std::make_shared<Tree>(points, KdTreeBuilderOMP(num_threads));
  if (num_threads == 1) estimate_normals(*points, *tree, num_neighbors);
  else estimate_normals_omp(*points, *tree, num_neighbors, num_threads);
}
void py_estimate_covariances(PointCloud::Ptr points, TreePtr tree, int num_neighbors, int num_threads) {
  if (tree == nullptr) tree = std::make_shared<Tree>(points, KdTreeBuilderOMP(num_threads));
  if (num_threads == 1) estimate_covariances(*points, *tree, num_neighbors);
  else estimate_covariances_omp(*points, *tree, num_neighbors, num_threads);
}
void py_estimate_normals_covariances(PointCloud::Ptr points, TreePtr tree, int num_neighbors, int num_threads) {
  if (tree == nullptr) tree = std::make_shared<Tree>(points, KdTreeBuilderOMP(num_threads));
  if (num_threads == 1) estimate_normals_covariances(*points, *tree, num_neighbors);
  else estimate_normals_covariances_omp(*points, *tree, num_neighbors, num_threads);
}
inline PointCloud::Ptr cloud(const Mat& m) {
  PointCloud::Ptr p(new PointCloud());
  const size_t n = m.rows();
  p->points.resize(n);
  p->normals.resize(n);
  p->covs.resize(n);
  for (size_t i = 0; i < n; i++) p->points[i] = homogeneous(m, i);
  return p;
}
std::pair<PointCloud::Ptr, TreePtr> py_preprocess_points(const Mat& points, double downsampling_resolution, int num_neighbors, int num_threads) {
  if (!shaped(points)) return {nullptr, nullptr};
  const PointCloud::Ptr q = voxelgrid_sampling_omp(*cloud(points), downsampling_resolution, num_threads);
  TreePtr tree = std::make_shared<Tree>(q, KdTreeBuilderOMP(num_threads));
  estimate_normals_covariances_omp(*q, *tree, num_neighbors, num_threads);
  return {q, tree};
}
std::pair<PointCloud::Ptr, TreePtr> py_preprocess_points(const PointCloud& points, double downsampling_resolution, int num_neighbors, int num_threads) {
  if (points.points.empty()) return {nullptr, nullptr};
  const PointCloud::Ptr q = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
  TreePtr tree = std::make_shared<Tree>(q, KdTreeBuilderOMP(num_threads));
  estimate_normals_covariances_omp(*q, *tree, num_neighbors, num_threads);
  return {q, tree};
}
// --- point cloud
PointCloud::Ptr py_init(const Mat& points) {
  if (!shaped(points)) return PointCloud::Ptr(new PointCloud());
  return cloud(points);
}
size_t py___len__(const PointCloud& self) { return self.points.size(); }
size_t py_size(const PointCloud& self) { return self.points.size(); }
bool py_empty(const PointCloud& self) { return self.points.size() == 0; }
Eigen::Vector4d py_point(const PointCloud& self, size_t i) { if (!(i < self.points.size())) throw std::out_of_range(""); return self.points[i]; }
Eigen::Vector4d py_normal(const PointCloud& self, size_t i) { if (!(i < self.normals.size())) throw std::out_of_range(""); return self.normals[i]; }
Eigen::Matrix4d py_cov(const PointCloud& self, size_t i) { if (!(i < self.covs.size())) throw std::out_of_range(""); return self.covs[i]; }
std::vector<Eigen::Matrix4d> py_covs(const PointCloud& self) { return self.covs; }
using RowMajor = Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>;
Mat py_points(const PointCloud& self) {
  if (self.points.empty()) return RowMajor(nullptr, 0, 4);
  return RowMajor(self.points[0].data(), self.points.size(), 4);
}
Mat py_normals(const PointCloud& self) {
  assume(self.normals.size() == self.points.size());
  if (self.normals.empty()) return RowMajor(nullptr, 0, 4);
  return RowMajor(self.normals[0].data(), self.normals.size(), 4);
}
template <class V> Mat voxel_points(const V& m) {
  const std::vector<Eigen::Vector4d> v = traits::voxel_points(m);
  if (v.empty()) return RowMajor(nullptr, 0, 4);
  return RowMajor(v[0].data(), v.size(), 4);
}
template <class V> Mat voxel_normals(const V& m) {
  const std::vector<Eigen::Vector4d> v = traits::voxel_normals(m);
  if (v.empty()) return RowMajor(nullptr, 0, 4);
  return RowMajor(v[0].data(), v.size(), 4);
}
template <class V> Mat voxel_covs(const V& m) {
  const std::vector<Eigen::Matrix4d> v = traits::voxel_covs(m);
  if (v.empty()) return RowMajor(nullptr, 0, 16);
  return RowMajor(v[0].data(), v.size(), 16);
}
Mat py_voxel_points(const IncrementalVoxelMap<FlatContainerPoints>& self) { return voxel_points(self); }
Mat py_voxel_points(const IncrementalVoxelMap<FlatContainerNormal>& self) { return voxel_points(self); }
Mat py_voxel_points(const IncrementalVoxelMap<FlatContainerCov>& self) { return voxel_points(self); }
Mat py_voxel_points(const IncrementalVoxelMap<FlatContainerNormalCov>& self) { return voxel_points(self); }
Mat py_voxel_points(const GaussianVoxelMap& self) { return voxel_points(self); }
Mat py_voxel_normals(const IncrementalVoxelMap<FlatContainerNormal>& self) { return voxel_normals(self); }
Mat py_voxel_normals(const IncrementalVoxelMap<FlatContainerNormalCov>& self) { return voxel_normals(self); }
Mat py_voxel_covs(const IncrementalVoxelMap<FlatContainerCov>& self) { return voxel_covs(self); }
Mat py_voxel_covs(const IncrementalVoxelMap<FlatContainerNormalCov>& self) { return voxel_covs(self); }
Mat py_voxel_covs(const GaussianVoxelMap& self) { return voxel_covs(self); }
// --- kd-tree
TreePtr py_init(const Mat& points, int num_threads) {
  if (!shaped(points)) throw std::invalid_argument("");
  PointCloud::Ptr p(new PointCloud());
  const size_t n = points.rows();
  p->points.resize(n);
  p->normals.resize(n);
  p->covs.resize(n);
  for (size_t i = 0; i < n; i++) p->points[i] = Eigen::Vector4d(points(i, 0), points(i, 1), points(i, 2), 1.0);
  return std::make_shared<Tree>(p, KdTreeBuilderOMP(num_threads));
}
TreePtr py_init(const PointCloud::ConstPtr& points, int num_threads) { return std::make_shared<Tree>(points, KdTreeBuilderOMP(num_threads)); }
std::tuple<size_t, size_t, double> py_nearest_neighbor_search(const Tree& self, const Eigen::Vector3d& pt) {
  size_t index = -1;
  double dist = std::numeric_limits<double>::max();
  const size_t n = self.kdtree.nearest_neighbor_search(Eigen::Vector4d(pt[0], pt[1], pt[2], 1.0), &index, &dist);
  return std::make_tuple(n, index, dist);
}
std::pair<std::vector<size_t>, std::vector<double>> py_knn_search(const Tree& self, const Eigen::Vector3d& pt, int k) {
  std::vector<size_t> index(k, -1);
  std::vector<double> dist(k, std::numeric_limits<double>::max());
  self.kdtree.knn_search(Eigen::Vector4d(pt[0], pt[1], pt[2], 1.0), k, index.data(), dist.data());
  return std::make_pair(index, dist);
}
std::pair<std::vector<size_t>, std::vector<double>> py_batch_nearest_neighbor_search(const Tree& self, const Mat& pts, int num_threads) {
  if (!shaped(pts)) throw std::invalid_argument("");
  std::vector<size_t> index(pts.rows(), -1);
  std::vector<double> dist(pts.rows(), std::numeric_limits<double>::max());
  for (int i = 0; i < pts.rows(); i++) {
    if (!self.kdtree.nearest_neighbor_search(Eigen::Vector4d(pts(i, 0), pts(i, 1), pts(i, 2), 1.0), &index[i], &dist[i])) {
      index[i] = -1;
      dist[i] = std::numeric_limits<double>::max();
    }
  }
  return std::make_pair(index, dist);
}
std::pair<Eigen::Matrix<size_t, -1, -1, Eigen::RowMajor>, Eigen::Matrix<double, -1, -1, Eigen::RowMajor>> py_batch_knn_search(const Tree& self, const Mat& pts, int k, int num_threads) {
  if (!shaped(pts)) throw std::invalid_argument("");
  Eigen::Matrix<size_t, -1, -1, Eigen::RowMajor> index(pts.rows(), k);
  Eigen::Matrix<double, -1, -1, Eigen::RowMajor> dist(pts.rows(), k);
  index.setConstant(-1);
  dist.setConstant(std::numeric_limits<double>::max());
  for (int i = 0; i < pts.rows(); i++) {
    size_t* a = index.data() + i * k;
    double* b = dist.data() + i * k;
    const size_t n = self.kdtree.knn_search(Eigen::Vector4d(pts(i, 0), pts(i, 1), pts(i, 2), 1.0), k, a, b);
    if (n < k) for (size_t j = n; j < k; j++) { a[j] = -1; b[j] = std::numeric_limits<double>::max(); }
  }
  return std::make_pair(index, dist);
}
// --- voxel maps
template <class V> void set_lru(V& m, size_t horizon, size_t cycle) { m.lru_horizon = horizon; m.lru_clear_cycle = cycle; }
#define VP_MAP(V) \
  void py_insert(V& self, const PointCloud& points, const M4& T) { self.insert(points, Eigen::Isometry3d(T)); } \
  void py_set_lru(V& self, size_t horizon, size_t clear_cycle) { set_lru(self, horizon, clear_cycle); } \
  size_t py_size(const V& self) { return self.flat_voxels.size(); } \
  size_t py___len__(const V& self) { return self.flat_voxels.size(); }
VP_MAP(IncrementalVoxelMap<FlatContainerPoints>)
VP_MAP(IncrementalVoxelMap<FlatContainerNormal>)
VP_MAP(IncrementalVoxelMap<FlatContainerCov>)
VP_MAP(IncrementalVoxelMap<FlatContainerNormalCov>)
VP_MAP(GaussianVoxelMap)
// --- factors
void py_set_max_distance(DistanceRejector& self, double dist) { self.max_dist_sq = dist * dist; }
#define VP_FACTOR(F) \
  std::tuple<bool, Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> py_linearize(F& self, const PointCloud& target, const PointCloud& source, const Tree& kdtree, const M4& T, size_t source_index, const DistanceRejector& rejector) { \
    Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero(); \
    Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero(); \
    double e = 0.0; \
    const bool ok = self.linearize(target, source, kdtree, Eigen::Isometry3d(T), source_index, rejector, &H, &b, &e); \
    return std::make_tuple(ok, H, b, e); \
  }
VP_FACTOR(ICPFactor)
VP_FACTOR(PointToPlaneICPFactor)
VP_FACTOR(GICPFactor)
// --- results, files
Eigen::Matrix4d py_T_target_source(const RegistrationResult& self) { return self.T_target_source.matrix(); }
PointCloud::Ptr py_read_ply(const std::string& filename) {
  const std::vector<Eigen::Vector4f> points = read_ply(filename);
  return std::make_shared<PointCloud>(points);
}
}  // namespace vps

// empty objects the accessors are analysed with
namespace vpe {
using namespace small_gicp;
inline PointCloud made_cloud() { return PointCloud(); }
inline IncrementalVoxelMap<FlatContainerPoints> made_points(double leaf) { return IncrementalVoxelMap<FlatContainerPoints>(leaf); }
inline IncrementalVoxelMap<FlatContainerNormal> made_normal(double leaf) { return IncrementalVoxelMap<FlatContainerNormal>(leaf); }
inline IncrementalVoxelMap<FlatContainerCov> made_cov(double leaf) { return IncrementalVoxelMap<FlatContainerCov>(leaf); }
inline IncrementalVoxelMap<FlatContainerNormalCov> made_normal_cov(double leaf) { return IncrementalVoxelMap<FlatContainerNormalCov>(leaf); }
inline GaussianVoxelMap made_gaussian(double leaf) { return GaussianVoxelMap(leaf); }
}  // namespace vpe
