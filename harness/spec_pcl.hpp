// PCL interface: every setter's effect on the settings and on the derived data (trees, covariances, voxel maps).
#pragma once
namespace vps { void assume(bool); }
namespace vpw {
using namespace small_gicp;
using PT = pcl::PointXYZ;
using Reg = RegistrationPCL<PT, PT>;
using PC = pcl::PointCloud<PT>;
using CP = PC::ConstPtr;
using Covs = std::vector<Eigen::Matrix4d>;
void pcl_set_source(Reg& r, const CP& c) { r.setInputSource(c); }
void pcl_set_target(Reg& r, const CP& c) { r.setInputTarget(c); }
void pcl_set_source_covs(Reg& r, const Covs& c) { r.setSourceCovariances(c); }
void pcl_set_target_covs(Reg& r, const Covs& c) { r.setTargetCovariances(c); }
void pcl_swap(Reg& r) { r.swapSourceAndTarget(); }
void pcl_clear_source(Reg& r) { r.clearSource(); }
void pcl_clear_target(Reg& r) { r.clearTarget(); }
void pcl_threads(Reg& r, int n) { r.setNumThreads(n); }
void pcl_randomness(Reg& r, int k) { r.setCorrespondenceRandomness(k); }
void pcl_neighbors(Reg& r, int k) { r.setNumNeighborsForCovariance(k); }
void pcl_voxel(Reg& r, double v) { r.setVoxelResolution(v); }
void pcl_rotation(Reg& r, double e) { r.setRotationEpsilon(e); }
void pcl_type(Reg& r, const std::string& t) { r.setRegistrationType(t); }
void pcl_verbose(Reg& r, bool v) { r.setVerbosity(v); }
const Covs& pcl_get_source_covs(const Reg& r) { return r.getSourceCovariances(); }
const Covs& pcl_get_target_covs(const Reg& r) { return r.getTargetCovariances(); }
Eigen::Matrix<double, 6, 6> pcl_hessian(const Reg& r) { return r.getFinalHessian(); }
RegistrationResult pcl_result(const Reg& r) { return r.getRegistrationResult(); }
void pcl_align(Reg& r, PC& output, const Reg::Matrix4& guess) { r.computeTransformation(output, guess); }
// attributes of PCL clouds and of the cloud proxy through the generic interface
using FC = pcl::PointCloud<pcl::PointNormalCovariance>;
using QC = pcl::PointCloud<pcl::PointCovariance>;
using XC = pcl::PointCloud<pcl::PointNormal>;
using Proxy = PointCloudProxy<PT>;
using V4 = Eigen::Vector4d;
using M4 = Eigen::Matrix4d;
size_t pf_size(const FC& c) { return traits::size(c); }
void pf_resize(FC& c, size_t n) { traits::resize(c, n); }
bool pf_has_points(const FC& c) { return traits::has_points(c); }
bool pf_has_normals(const FC& c) { return traits::has_normals(c); }
bool pf_has_covs(const FC& c) { return traits::has_covs(c); }
V4 pf_point(const FC& c, size_t i) { return traits::point(c, i); }
V4 pf_normal(const FC& c, size_t i) { return traits::normal(c, i); }
M4 pf_cov(const FC& c, size_t i) { return traits::cov(c, i); }
void pf_set_point(FC& c, size_t i, const V4& v) { traits::set_point(c, i, v); }
void pf_set_normal(FC& c, size_t i, const V4& v) { traits::set_normal(c, i, v); }
void pf_set_cov(FC& c, size_t i, const M4& v) { traits::set_cov(c, i, v); }
M4 pq_cov(const QC& c, size_t i) { return traits::cov(c, i); }
void pq_set_cov(QC& c, size_t i, const M4& v) { traits::set_cov(c, i, v); }
V4 px_point(const XC& c, size_t i) { return traits::point(c, i); }
V4 px_normal(const XC& c, size_t i) { return traits::normal(c, i); }
void px_set_normal(XC& c, size_t i, const V4& v) { traits::set_normal(c, i, v); }
V4 pz_point(const PC& c, size_t i) { return traits::point(c, i); }
void pz_set_point(PC& c, size_t i, const V4& v) { traits::set_point(c, i, v); }
size_t pp_size(const Proxy& c) { return traits::size(c); }
bool pp_has_points(const Proxy& c) { return traits::has_points(c); }
bool pp_has_covs(const Proxy& c) { return traits::has_covs(c); }
V4 pp_point(const Proxy& c, size_t i) { return traits::point(c, i); }
M4 pp_cov(const Proxy& c, size_t i) { return traits::cov(c, i); }
void pp_resize(Proxy& c, size_t n) { traits::resize(c, n); }
void pp_set_cov(Proxy& c, size_t i, const M4& v) { traits::set_cov(c, i, v); }
Proxy pp_make(const PC& c, std::vector<M4>& m) { return Proxy(c, m); }
}  // namespace vpw
namespace vps {
using namespace vpw;
using Tree = KdTree<PC>;

void pcl_set_source(Reg& r, const CP& c) {
  if (r.input_ == c) return;
  r.pcl::Registration<PT, PT, float>::setInputSource(c);
  r.source_tree_ = std::make_shared<Tree>(r.input_, KdTreeBuilderOMP(r.num_threads_));
  r.source_covs_ = Covs();
  r.source_voxelmap_ = nullptr;
}
void pcl_set_target(Reg& r, const CP& c) {
  if (r.target_ == c) return;
  r.pcl::Registration<PT, PT, float>::setInputTarget(c);
  r.target_tree_ = std::make_shared<Tree>(r.target_, KdTreeBuilderOMP(r.num_threads_));
  r.target_covs_ = Covs();
  r.target_voxelmap_ = nullptr;
}
void pcl_set_source_covs(Reg& r, const Covs& c) {
  if (r.input_ == nullptr || c.size() != r.input_->points.size()) return;
  r.source_covs_ = c;
  r.source_voxelmap_ = nullptr;
}
void pcl_set_target_covs(Reg& r, const Covs& c) {
  if (r.target_ == nullptr || c.size() != r.target_->points.size()) return;
  r.target_covs_ = c;
  r.target_voxelmap_ = nullptr;
}
void pcl_swap(Reg& r) {
  const CP a = r.input_;
  r.input_ = r.target_;
  r.target_ = a;
  const std::shared_ptr<Tree> b = r.source_tree_;
  r.source_tree_ = r.target_tree_;
  r.target_tree_ = b;
  const Covs c = r.source_covs_;
  r.source_covs_ = r.target_covs_;
  r.target_covs_ = c;
  const std::shared_ptr<GaussianVoxelMap> d = r.source_voxelmap_;
  r.source_voxelmap_ = r.target_voxelmap_;
  r.target_voxelmap_ = d;
  r.source_cloud_updated_ = true;
  r.target_cloud_updated_ = true;
}
void pcl_clear_source(Reg& r) {
  r.input_ = nullptr;
  r.source_tree_ = nullptr;
  r.source_covs_ = Covs();
  r.source_voxelmap_ = nullptr;
}
void pcl_clear_target(Reg& r) {
  r.target_ = nullptr;
  r.target_tree_ = nullptr;
  r.target_covs_ = Covs();
  r.target_voxelmap_ = nullptr;
}
void pcl_threads(Reg& r, int n) { r.num_threads_ = n <= 0 ? 1 : n; }
void pcl_neighbors(Reg& r, int k) { r.k_correspondences_ = k < 5 ? 5 : k; }
void pcl_randomness(Reg& r, int k) { r.k_correspondences_ = k < 5 ? 5 : k; }
void pcl_voxel(Reg& r, double v) {
  r.voxel_resolution_ = v <= 0 ? 1.0 : v;
  r.source_voxelmap_ = nullptr;
  r.target_voxelmap_ = nullptr;
}
void pcl_rotation(Reg& r, double e) { r.rotation_epsilon_ = e; }
void pcl_type(Reg& r, const std::string& t) { if (t == "GICP" || t == "VGICP") r.registration_type_ = t; }
void pcl_verbose(Reg& r, bool v) { r.verbose_ = v; }
const Covs& pcl_get_source_covs(const Reg& r) { return r.source_covs_; }
const Covs& pcl_get_target_covs(const Reg& r) { return r.target_covs_; }
Eigen::Matrix<double, 6, 6> pcl_hessian(const Reg& r) { return r.result_.H; }
RegistrationResult pcl_result(const Reg& r) { return r.result_; }
void pcl_align(Reg& r, PC& output, const Reg::Matrix4& guess) {
  if (output.points.data() == r.input_->points.data() || output.points.data() == r.target_->points.data()) throw std::invalid_argument("");
  PointCloudProxy<PT> source(*r.input_, r.source_covs_);
  PointCloudProxy<PT> target(*r.target_, r.target_covs_);
  if (r.source_covs_.size() != r.input_->points.size()) estimate_covariances_omp(source, *r.source_tree_, r.k_correspondences_, r.num_threads_);
  if (r.target_covs_.size() != r.target_->points.size()) estimate_covariances_omp(target, *r.target_tree_, r.k_correspondences_, r.num_threads_);
  Registration<GICPFactor, ParallelReductionOMP> reg;
  reg.criteria.rotation_eps = r.rotation_epsilon_;
  reg.criteria.translation_eps = r.transformation_epsilon_;
  reg.reduction.num_threads = r.num_threads_;
  reg.rejector.max_dist_sq = r.corr_dist_threshold_ * r.corr_dist_threshold_;
  reg.optimizer.verbose = r.verbose_;
  reg.optimizer.max_iterations = r.max_iterations_;
  const Eigen::Isometry3d T(guess.cast<double>());
  if (r.registration_type_ == "GICP") {
    r.result_ = reg.align(target, source, *r.target_tree_, T);
  } else {
    assume(r.registration_type_ == "VGICP");
    if (r.target_voxelmap_ == nullptr) {
      r.target_voxelmap_ = std::make_shared<GaussianVoxelMap>(r.voxel_resolution_);
      r.target_voxelmap_->insert(target);
    }
    if (r.source_voxelmap_ == nullptr) {
      r.source_voxelmap_ = std::make_shared<GaussianVoxelMap>(r.voxel_resolution_);
      r.source_voxelmap_->insert(source);
    }
    r.result_ = reg.align(*r.target_voxelmap_, source, *r.target_voxelmap_, T);
  }
  r.converged_ = r.result_.converged;
  r.final_transformation_ = r.result_.T_target_source.matrix().cast<float>();
  pcl::transformPointCloud(*r.input_, output, r.final_transformation_);
}

inline V4 widen(const Eigen::Vector4f& v) { return V4(v(0), v(1), v(2), v(3)); }
inline Eigen::Vector4f narrow(const V4& v) { return Eigen::Vector4f(static_cast<float>(v(0)), static_cast<float>(v(1)), static_cast<float>(v(2)), static_cast<float>(v(3))); }
size_t pf_size(const FC& c) { return c.points.size(); }
void pf_resize(FC& c, size_t n) { c.resize(n); }
bool pf_has_points(const FC& c) { return c.points.size() != 0; }
bool pf_has_normals(const FC& c) { return c.points.size() != 0; }
bool pf_has_covs(const FC& c) { return c.points.size() != 0; }
V4 pf_point(const FC& c, size_t i) { assume(i < c.points.size()); return widen(c.points[i].getVector4fMap()); }
V4 pf_normal(const FC& c, size_t i) { assume(i < c.points.size()); return widen(c.points[i].getNormalVector4fMap()); }
M4 pf_cov(const FC& c, size_t i) {
  assume(i < c.points.size());
  M4 m;
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++) m(a, b) = c.points[i].cov(a, b);
  return m;
}
void pf_set_point(FC& c, size_t i, const V4& v) {
  assume(i < c.points.size());
  c.points[i].getVector4fMap() = narrow(v);
}
void pf_set_normal(FC& c, size_t i, const V4& v) {
  assume(i < c.points.size());
  c.points[i].getNormalVector4fMap() = narrow(v);
}
void pf_set_cov(FC& c, size_t i, const M4& v) {
  assume(i < c.points.size());
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++) c.points[i].cov(a, b) = static_cast<float>(v(a, b));
}
M4 pq_cov(const QC& c, size_t i) {
  assume(i < c.points.size());
  M4 m;
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++) m(a, b) = c.points[i].cov(a, b);
  return m;
}
void pq_set_cov(QC& c, size_t i, const M4& v) {
  assume(i < c.points.size());
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++) c.points[i].cov(a, b) = static_cast<float>(v(a, b));
}
V4 px_point(const XC& c, size_t i) { assume(i < c.points.size()); return widen(c.points[i].getVector4fMap()); }
V4 px_normal(const XC& c, size_t i) { assume(i < c.points.size()); return widen(c.points[i].getNormalVector4fMap()); }
void px_set_normal(XC& c, size_t i, const V4& v) {
  assume(i < c.points.size());
  c.points[i].getNormalVector4fMap() = narrow(v);
}
V4 pz_point(const PC& c, size_t i) { assume(i < c.points.size()); return widen(c.points[i].getVector4fMap()); }
void pz_set_point(PC& c, size_t i, const V4& v) {
  assume(i < c.points.size());
  c.points[i].getVector4fMap() = narrow(v);
}
size_t pp_size(const Proxy& c) { return c.cloud.points.size(); }
bool pp_has_points(const Proxy& c) { return c.cloud.points.size() != 0; }
bool pp_has_covs(const Proxy& c) { return c.covs.size() != 0; }
V4 pp_point(const Proxy& c, size_t i) { assume(i < c.cloud.points.size()); return widen(c.cloud.points[i].getVector4fMap()); }
M4 pp_cov(const Proxy& c, size_t i) { assume(i < c.covs.size()); return c.covs[i]; }
void pp_resize(Proxy& c, size_t n) { c.covs.resize(n); }
void pp_set_cov(Proxy& c, size_t i, const M4& v) { assume(i < c.covs.size()); c.covs[i] = v; }
Proxy pp_make(const PC& c, std::vector<M4>& m) { return Proxy{c, m}; }
}  // namespace vps
