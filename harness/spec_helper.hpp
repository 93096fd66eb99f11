// C++ convenience functions: code under analysis (vpw) and where every setting has to arrive (vps).
#pragma once
namespace vps { void assume(bool); }
namespace vpw {
using namespace small_gicp;
using Tree = KdTree<PointCloud>;
using Prep = std::pair<PointCloud::Ptr, std::shared_ptr<Tree>>;
RegistrationResult h_align(const PointCloud& t, const PointCloud& s, const Tree& tr, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align(t, s, tr, T, st); }
RegistrationResult h_align_voxel(const GaussianVoxelMap& t, const PointCloud& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align(t, s, T, st); }
RegistrationResult h_align_vec(const std::vector<Eigen::Vector3f>& t, const std::vector<Eigen::Vector3f>& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align(t, s, T, st); }
RegistrationResult h_align_vec4(const std::vector<Eigen::Vector4d>& t, const std::vector<Eigen::Vector4d>& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align(t, s, T, st); }
Prep h_prep(const PointCloud& p, double res, int k, int n) { return preprocess_points(p, res, k, n); }
Prep h_prep_vec(const std::vector<Eigen::Vector3d>& p, double res, int k, int n) { return preprocess_points(p, res, k, n); }
GaussianVoxelMap::Ptr h_voxel(const PointCloud& p, double res) { return create_gaussian_voxelmap(p, res); }
}  // namespace vpw
namespace vps {
using namespace small_gicp;
using vpw::Tree;
using vpw::Prep;
template <class F, class T, class S>
RegistrationResult run(const T& target, const PointCloud& source, const S& tree, const Eigen::Isometry3d& init, const RegistrationSetting& st) {
  ParallelReductionOMP reduction;
  DistanceRejector rejector;
  TerminationCriteria criteria;
  LevenbergMarquardtOptimizer optimizer;
  NullFactor general;
  typename F::Setting fs;
  rejector.max_dist_sq = st.max_correspondence_distance * st.max_correspondence_distance;
  criteria.translation_eps = st.translation_eps;
  criteria.rotation_eps = st.rotation_eps;
  optimizer.verbose = st.verbose;
  optimizer.max_iterations = st.max_iterations;
  reduction.num_threads = st.num_threads;
  std::vector<F> factors(source.points.size(), F(fs));
  return optimizer.optimize(target, source, tree, rejector, criteria, reduction, init, factors, general);
}
RegistrationResult h_align(const PointCloud& t, const PointCloud& s, const Tree& tr, const Eigen::Isometry3d& T, const RegistrationSetting& st) {
  assume(st.type == RegistrationSetting::ICP || st.type == RegistrationSetting::PLANE_ICP || st.type == RegistrationSetting::GICP);
  if (st.type == RegistrationSetting::ICP) return run<ICPFactor>(t, s, tr, T, st);
  if (st.type == RegistrationSetting::PLANE_ICP) return run<PointToPlaneICPFactor>(t, s, tr, T, st);
  return run<GICPFactor>(t, s, tr, T, st);
}
RegistrationResult h_align_voxel(const GaussianVoxelMap& t, const PointCloud& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) {
  assume(st.type == RegistrationSetting::VGICP);
  return run<GICPFactor>(t, s, t, T, st);
}
Prep h_prep(const PointCloud& p, double res, int k, int n) {
  if (n == 1) {
    PointCloud::Ptr q = voxelgrid_sampling(p, res);
    std::shared_ptr<Tree> tree(new Tree(q));
    estimate_normals_covariances(*q, *tree, k);
    return Prep(q, tree);
  }
  PointCloud::Ptr q = voxelgrid_sampling_omp(p, res, n);
  std::shared_ptr<Tree> tree(new Tree(q));
  estimate_normals_covariances_omp(*q, *tree, k, n);
  return Prep(q, tree);
}
template <class V> Prep prep_vec(const std::vector<V>& p, double res, int k, int n) {
  PointCloud c(p);
  return h_prep(c, res, k, n);
}
Prep h_prep_vec(const std::vector<Eigen::Vector3d>& p, double res, int k, int n) { return prep_vec(p, res, k, n); }
template <class V>
RegistrationResult align_vec(const std::vector<V>& t, const std::vector<V>& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) {
  assume(st.type == RegistrationSetting::ICP || st.type == RegistrationSetting::PLANE_ICP || st.type == RegistrationSetting::GICP || st.type == RegistrationSetting::VGICP);
  const Prep a = prep_vec(t, st.downsampling_resolution, 10, st.num_threads), b = prep_vec(s, st.downsampling_resolution, 10, st.num_threads);
  if (st.type == RegistrationSetting::VGICP) {
    GaussianVoxelMap map(st.voxel_resolution);
    map.insert(*a.first, Eigen::Isometry3d::Identity());
    return run<GICPFactor>(map, *b.first, map, T, st);
  }
  if (st.type == RegistrationSetting::ICP) return run<ICPFactor>(*a.first, *b.first, *a.second, T, st);
  if (st.type == RegistrationSetting::PLANE_ICP) return run<PointToPlaneICPFactor>(*a.first, *b.first, *a.second, T, st);
  return run<GICPFactor>(*a.first, *b.first, *a.second, T, st);
}
RegistrationResult h_align_vec(const std::vector<Eigen::Vector3f>& t, const std::vector<Eigen::Vector3f>& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align_vec(t, s, T, st); }
RegistrationResult h_align_vec4(const std::vector<Eigen::Vector4d>& t, const std::vector<Eigen::Vector4d>& s, const Eigen::Isometry3d& T, const RegistrationSetting& st) { return align_vec(t, s, T, st); }
GaussianVoxelMap::Ptr h_voxel(const PointCloud& p, double res) {
  GaussianVoxelMap::Ptr m(new GaussianVoxelMap(res));
  m->insert(p, Eigen::Isometry3d::Identity());
  return m;
}
}  // namespace vps
