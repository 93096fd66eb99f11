// Point clouds, voxel contents, voxel maps, flooring and hashing.
#pragma once
namespace vpx {
using M4 = Eigen::Matrix4d;
using Iso = Eigen::Isometry3d;
template <class T> using VM = IncrementalVoxelMap<T>;
using FP = FlatContainerPoints;
using FN = FlatContainerNormal;
using FC = FlatContainerCov;
using FNC = FlatContainerNormalCov;
using GV = GaussianVoxel;
using std::vector;
// what a Gaussian voxel stands for: sums over everything added
inline V4 sum_mean(const GV& v) { return v.finalized ? V4(v.mean * double(v.num_points)) : v.mean; }
inline M4 sum_cov(const GV& v) { return v.finalized ? M4(v.cov * double(v.num_points)) : v.cov; }
}  // namespace vpx

namespace vpw {
// ---- point cloud
void pc_resize(PointCloud& c, size_t n) { c.resize(n); }
PointCloud pc_empty() { return PointCloud(); }
PointCloud pc_from_3f(const vector<Eigen::Vector3f>& p) { return PointCloud(p); }
PointCloud pc_from_4f(const vector<Eigen::Vector4f>& p) { return PointCloud(p); }
PointCloud pc_from_3d(const vector<Eigen::Vector3d>& p) { return PointCloud(p); }
PointCloud pc_from_4d(const vector<Eigen::Vector4d>& p) { return PointCloud(p); }
size_t pc_size(const PointCloud& c) { return c.size(); }
bool pc_isempty(const PointCloud& c) { return c.empty(); }
V4* pc_point(PointCloud& c, size_t i) { return &c.point(i); }
V4* pc_normal(PointCloud& c, size_t i) { return &c.normal(i); }
M4* pc_cov(PointCloud& c, size_t i) { return &c.cov(i); }
const V4* pc_cpoint(const PointCloud& c, size_t i) { return &c.point(i); }
const V4* pc_cnormal(const PointCloud& c, size_t i) { return &c.normal(i); }
const M4* pc_ccov(const PointCloud& c, size_t i) { return &c.cov(i); }
size_t pt_size(const PointCloud& c) { return traits::size(c); }
bool pt_has_points(const PointCloud& c) { return traits::has_points(c); }
bool pt_has_normals(const PointCloud& c) { return traits::has_normals(c); }
bool pt_has_covs(const PointCloud& c) { return traits::has_covs(c); }
V4 pt_point(const PointCloud& c, size_t i) { return traits::point(c, i); }
V4 pt_normal(const PointCloud& c, size_t i) { return traits::normal(c, i); }
M4 pt_cov(const PointCloud& c, size_t i) { return traits::cov(c, i); }
void pt_resize(PointCloud& c, size_t n) { traits::resize(c, n); }
void pt_set_point(PointCloud& c, size_t i, const V4& v) { traits::set_point(c, i, v); }
void pt_set_normal(PointCloud& c, size_t i, const V4& v) { traits::set_normal(c, i, v); }
void pt_set_cov(PointCloud& c, size_t i, const M4& v) { traits::set_cov(c, i, v); }
size_t mx_size(const Eigen::MatrixXd& m) { return traits::size(m); }
bool mx_has(const Eigen::MatrixXd& m) { return traits::has_points(m); }
V4 mx_point(const Eigen::MatrixXd& m, size_t i) { return traits::point(m, i); }
// ---- flooring, hashing
Eigen::Array4i floor4(const Eigen::Array4d& p) { return fast_floor(p); }
size_t hash3(const Eigen::Vector3i& c) { return XORVector3iHash()(c); }
size_t hash3s(const Eigen::Vector3i& c) { return XORVector3iHash::hash(c); }
bool equal3(const Eigen::Vector3i& a, const Eigen::Vector3i& b) { return XORVector3iHash::equal(a, b); }
// ---- Gaussian voxel
GV gv_make() { return GV(); }
V4 gv_add_mean(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { v.add(GV::Setting(), p, c, i, T); return sum_mean(v); }
M4 gv_add_cov(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { v.add(GV::Setting(), p, c, i, T); return sum_cov(v); }
size_t gv_add_count(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { v.add(GV::Setting(), p, c, i, T); return v.num_points; }
V4 gv_fin_mean(GV& v) { v.finalize(); return v.mean; }
M4 gv_fin_cov(GV& v) { v.finalize(); return v.cov; }
size_t gv_fin_count(GV& v) { v.finalize(); return v.num_points; }
bool gv_fin_flag(GV& v) { v.finalize(); return v.finalized; }
V4 gv_fin2_mean(GV& v) { v.finalize(); v.finalize(); return v.mean; }
M4 gv_fin2_cov(GV& v) { v.finalize(); v.finalize(); return v.cov; }
V4 gv_cont_mean(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { v.finalize(); v.add(GV::Setting(), p, c, i, T); v.finalize(); return v.mean; }
M4 gv_cont_cov(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { v.finalize(); v.add(GV::Setting(), p, c, i, T); v.finalize(); return v.cov; }
size_t gv_size(const GV& v) { return v.size(); }
size_t gvt_size(const GV& v) { return traits::size(v); }
bool gvt_has_points(const GV& v) { return traits::has_points(v); }
bool gvt_has_covs(const GV& v) { return traits::has_covs(v); }
V4 gvt_point(const GV& v, size_t i) { return traits::point(v, i); }
M4 gvt_cov(const GV& v, size_t i) { return traits::cov(v, i); }
size_t gvt_nn(const GV& v, const V4& q, size_t* ki, double* kd) { return traits::Traits<GV>::nearest_neighbor_search(v, q, ki, kd); }
size_t gvt_knn(const GV& v, const V4& q, size_t k, size_t* ki, double* kd) { return traits::Traits<GV>::knn_search(v, q, k, ki, kd); }
void gvt_offer(const GV& v, const V4& q, Result& r) { traits::Traits<GV>::knn_search(v, q, r); }
// ---- point-list voxel
template <class F> F fl_make() { return F(); }
FP fp_make() { return FP(); }
FNC fnc_make() { return FNC(); }
double fl_min() { FNC::Setting s; return s.min_sq_dist_in_cell; }
size_t fl_max() { FNC::Setting s; return s.max_num_points_in_cell; }
#define VP_FLAT(N, F) \
  void N##_add(F& f, const F::Setting& s, const V4& p, const Cloud& c, size_t i, const Iso& T) { f.add(s, p, c, i, T); } \
  void N##_fin(F& f) { f.finalize(); } \
  size_t N##_size(const F& f) { return f.size(); } \
  size_t N##_tsize(const F& f) { return traits::size(f); } \
  bool N##_hasp(const F& f) { return traits::has_points(f); } \
  bool N##_hasn(const F& f) { return traits::has_normals(f); } \
  bool N##_hasc(const F& f) { return traits::has_covs(f); } \
  V4 N##_point(const F& f, size_t i) { return traits::point(f, i); } \
  size_t N##_nn(const F& f, const V4& q, size_t* ki, double* kd) { return f.nearest_neighbor_search(q, ki, kd); } \
  size_t N##_knn(const F& f, const V4& q, int k, size_t* ki, double* kd) { return f.knn_search(q, k, ki, kd); } \
  void N##_offer(const F& f, const V4& q, Result& r) { f.knn_search(q, r); } \
  size_t N##_tnn(const F& f, const V4& q, size_t* ki, double* kd) { return traits::Traits<F>::nearest_neighbor_search(f, q, ki, kd); } \
  size_t N##_tknn(const F& f, const V4& q, size_t k, size_t* ki, double* kd) { return traits::Traits<F>::knn_search(f, q, k, ki, kd); } \
  void N##_toffer(const F& f, const V4& q, Result& r) { traits::Traits<F>::knn_search(f, q, r); }
VP_FLAT(fp, FP)
VP_FLAT(fn, FN)
VP_FLAT(fc, FC)
VP_FLAT(fnc, FNC)
#undef VP_FLAT
V4 fn_normal(const FN& f, size_t i) { return traits::normal(f, i); }
V4 fnc_normal(const FNC& f, size_t i) { return traits::normal(f, i); }
M4 fc_cov(const FC& f, size_t i) { return traits::cov(f, i); }
M4 fnc_cov(const FNC& f, size_t i) { return traits::cov(f, i); }
// ---- incremental voxel map
using VX = VM<vp::Voxel>;
using GM = VM<GV>;
using FM = VM<FNC>;
VX vm_make(double leaf) { return VX(leaf); }
size_t vm_size(const VX& m) { return m.size(); }
void vm_insert(VX& m, const Cloud& c, const Iso& T) { m.insert(c, T); }
size_t vm_calc(const VX& m, size_t v, size_t p) { return m.calc_index(v, p); }
size_t vm_vid(const VX& m, size_t v, size_t p) { return m.voxel_id(m.calc_index(v, p)); }
size_t vm_pid(const VX& m, size_t v, size_t p) { return m.point_id(m.calc_index(v, p)); }
size_t gm_nn(const GM& m, const V4& q, size_t* ki, double* kd) { return m.nearest_neighbor_search(q, ki, kd); }
size_t gm_knn(const GM& m, const V4& q, size_t k, size_t* ki, double* kd) { return m.knn_search(q, k, ki, kd); }
size_t fm_nn(const FM& m, const V4& q, size_t* ki, double* kd) { return m.nearest_neighbor_search(q, ki, kd); }
size_t fm_knn(const FM& m, const V4& q, size_t k, size_t* ki, double* kd) { return m.knn_search(q, k, ki, kd); }
size_t gmt_nn(const GM& m, const V4& q, size_t* ki, double* kd) { return traits::nearest_neighbor_search(m, q, ki, kd); }
size_t gmt_knn(const GM& m, const V4& q, size_t k, size_t* ki, double* kd) { return traits::knn_search(m, q, k, ki, kd); }
size_t vmt_size(const VX& m) { return traits::size(m); }
V4 vmt_point(const VX& m, size_t i) { return traits::point(m, i); }
V4 vmt_normal(const VX& m, size_t i) { return traits::normal(m, i); }
M4 vmt_cov(const VX& m, size_t i) { return traits::cov(m, i); }
vector<size_t> vm_indices(const VX& m) { return traits::point_indices(m); }
vector<V4> vm_points(const VX& m) { return traits::voxel_points(m); }
vector<V4> vm_normals(const VX& m) { return traits::voxel_normals(m); }
vector<M4> vm_covs(const VX& m) { return traits::voxel_covs(m); }
void off_1(VX& m) { m.set_search_offsets(1); }
void off_7(VX& m) { m.set_search_offsets(7); }
void off_27(VX& m) { m.set_search_offsets(27); }
void off_n(VX& m, int n) { m.set_search_offsets(n); }
VoxelInfo vinfo(const Eigen::Vector3i& c, size_t t) { return VoxelInfo(c, t); }
}  // namespace vpw

namespace vps {
// ---- point cloud
void pc_resize(PointCloud& c, size_t n) { c.points.resize(n); c.normals.resize(n); c.covs.resize(n); }
PointCloud pc_empty() { PointCloud c; c.points.resize(0); c.normals.resize(0); c.covs.resize(0); return c; }
template <class P> PointCloud pc_from(const vector<P>& p) {
  PointCloud c;
  c.covs.resize(p.size());
  c.normals.resize(p.size());
  c.points.resize(p.size());
  for (size_t i = 0; i < p.size(); i++) {
    c.points[i] = V4((double)p[i][0], (double)p[i][1], (double)p[i][2], 1.0);
  }
  return c;
}
PointCloud pc_from_3f(const vector<Eigen::Vector3f>& p) { return pc_from(p); }
PointCloud pc_from_4f(const vector<Eigen::Vector4f>& p) { return pc_from(p); }
PointCloud pc_from_3d(const vector<Eigen::Vector3d>& p) { return pc_from(p); }
PointCloud pc_from_4d(const vector<Eigen::Vector4d>& p) { return pc_from(p); }
size_t pc_size(const PointCloud& c) { return c.points.size(); }
bool pc_isempty(const PointCloud& c) { return c.points.size() == 0; }
V4* pc_point(PointCloud& c, size_t i) { return &c.points[i]; }
V4* pc_normal(PointCloud& c, size_t i) { return &c.normals[i]; }
M4* pc_cov(PointCloud& c, size_t i) { return &c.covs[i]; }
const V4* pc_cpoint(const PointCloud& c, size_t i) { return &c.points[i]; }
const V4* pc_cnormal(const PointCloud& c, size_t i) { return &c.normals[i]; }
const M4* pc_ccov(const PointCloud& c, size_t i) { return &c.covs[i]; }
size_t pt_size(const PointCloud& c) { return c.points.size(); }
bool pt_has_points(const PointCloud& c) { return c.points.size() != 0; }
bool pt_has_normals(const PointCloud& c) { return c.normals.size() != 0; }
bool pt_has_covs(const PointCloud& c) { return c.covs.size() != 0; }
V4 pt_point(const PointCloud& c, size_t i) { return c.points[i]; }
V4 pt_normal(const PointCloud& c, size_t i) { return c.normals[i]; }
M4 pt_cov(const PointCloud& c, size_t i) { return c.covs[i]; }
void pt_resize(PointCloud& c, size_t n) { pc_resize(c, n); }
void pt_set_point(PointCloud& c, size_t i, const V4& v) { c.points[i] = v; }
void pt_set_normal(PointCloud& c, size_t i, const V4& v) { c.normals[i] = v; }
void pt_set_cov(PointCloud& c, size_t i, const M4& v) { c.covs[i] = v; }
size_t mx_size(const Eigen::MatrixXd& m) { return m.rows(); }
bool mx_has(const Eigen::MatrixXd& m) { return m.rows() != 0; }
V4 mx_point(const Eigen::MatrixXd& m, size_t i) { return V4(m(i, 0), m(i, 1), m(i, 2), 1.0); }
// ---- flooring, hashing
Eigen::Array4i floor4(const Eigen::Array4d& p) {
  Eigen::Array4i r;
  for (int i = 0; i < 4; i++) r[i] = (int)std::floor(p[i]);
  return r;
}
bool equal3(const Eigen::Vector3i& a, const Eigen::Vector3i& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
// ---- Gaussian voxel
inline M4 turned(const M4& m, const Iso& T) { return T.matrix() * m * T.matrix().transpose(); }
GV gv_make() { GV v; v.finalized = false; v.num_points = 0; v.mean = V4::Zero(); v.cov = M4::Zero(); return v; }
V4 gv_add_mean(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { assume(v.num_points >= 1); return sum_mean(v) + p; }
M4 gv_add_cov(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { return sum_cov(v) + turned(traits::cov(c, i), T); }
size_t gv_add_count(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { return v.num_points + 1; }
V4 gv_fin_mean(GV& v) { return v.finalized ? v.mean : V4(v.mean / double(v.num_points)); }
M4 gv_fin_cov(GV& v) { return v.finalized ? v.cov : M4(v.cov / double(v.num_points)); }
size_t gv_fin_count(GV& v) { return v.num_points; }
bool gv_fin_flag(GV& v) { return true; }
V4 gv_fin2_mean(GV& v) { return gv_fin_mean(v); }
M4 gv_fin2_cov(GV& v) { return gv_fin_cov(v); }
V4 gv_cont_mean(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { assume(v.num_points >= 1); return (sum_mean(v) + p) / double(v.num_points + 1); }
M4 gv_cont_cov(GV& v, const V4& p, const Cloud& c, size_t i, const Iso& T) { assume(v.num_points >= 1); return (sum_cov(v) + turned(traits::cov(c, i), T)) / double(v.num_points + 1); }
size_t gv_size(const GV& v) { return 1; }
size_t gvt_size(const GV& v) { return 1; }
bool gvt_has_points(const GV& v) { return true; }
bool gvt_has_covs(const GV& v) { return true; }
V4 gvt_point(const GV& v, size_t i) { return v.mean; }
M4 gvt_cov(const GV& v, size_t i) { return v.cov; }
size_t gvt_nn(const GV& v, const V4& q, size_t* ki, double* kd) { *ki = 0; *kd = sqd(v.mean, q); return 1; }
size_t gvt_knn(const GV& v, const V4& q, size_t k, size_t* ki, double* kd) { *ki = 0; *kd = sqd(v.mean, q); return 1; }
void gvt_offer(const GV& v, const V4& q, Result& r) { r.push(0, sqd(v.mean, q)); }
// ---- point-list voxel
FP fp_make() { FP f; f.points.resize(0); return f; }
FNC fnc_make() { FNC f; f.points.resize(0); f.normals.resize(0); f.covs.resize(0); return f; }
double fl_min() { return 0.1 * 0.1; }
size_t fl_max() { return 10; }
template <bool N, bool C> void fl_add(FlatContainer<N, C>& f, const typename FlatContainer<N, C>::Setting& s, const V4& p, const Cloud& c, size_t i, const Iso& T) {
  if (f.points.size() >= s.max_num_points_in_cell) return;
  bool close = false;
  for (size_t j = 0; j < f.points.size() && !close; j++) close = sqd(f.points[j], p) < s.min_sq_dist_in_cell;
  if (close) return;
  f.points.push_back(p);
  if constexpr (N) f.normals.push_back(T.matrix() * traits::normal(c, i));
  if constexpr (C) f.covs.push_back(turned(traits::cov(c, i), T));
}
template <class F, class R> void fl_offer(const F& f, const V4& q, R& r) {
  for (size_t i = 0; i < f.points.size(); i++) r.push(i, sqd(f.points[i], q));
}
template <class F> size_t fl_nn(const F& f, const V4& q, size_t* ki, double* kd) {
  if (f.points.size() == 0) return 0;
  KnnResult<1> r(ki, kd);
  fl_offer(f, q, r);
  return r.num_found();
}
template <class F> size_t fl_knn(const F& f, const V4& q, int k, size_t* ki, double* kd) {
  if (f.points.size() == 0) return 0;
  KnnResult<-1> r(ki, kd, k);
  fl_offer(f, q, r);
  return r.num_found();
}
#define VP_FLAT(N, F, HN, HC) \
  void N##_add(F& f, const F::Setting& s, const V4& p, const Cloud& c, size_t i, const Iso& T) { fl_add(f, s, p, c, i, T); } \
  void N##_fin(F& f) {} \
  size_t N##_size(const F& f) { return f.points.size(); } \
  size_t N##_tsize(const F& f) { return f.points.size(); } \
  bool N##_hasp(const F& f) { return f.points.size() != 0; } \
  bool N##_hasn(const F& f) { return HN && f.points.size() != 0; } \
  bool N##_hasc(const F& f) { return HC && f.points.size() != 0; } \
  V4 N##_point(const F& f, size_t i) { return f.points[i]; } \
  size_t N##_nn(const F& f, const V4& q, size_t* ki, double* kd) { return fl_nn(f, q, ki, kd); } \
  size_t N##_knn(const F& f, const V4& q, int k, size_t* ki, double* kd) { return fl_knn(f, q, k, ki, kd); } \
  void N##_offer(const F& f, const V4& q, Result& r) { fl_offer(f, q, r); } \
  size_t N##_tnn(const F& f, const V4& q, size_t* ki, double* kd) { return fl_nn(f, q, ki, kd); } \
  size_t N##_tknn(const F& f, const V4& q, size_t k, size_t* ki, double* kd) { return fl_knn(f, q, k, ki, kd); } \
  void N##_toffer(const F& f, const V4& q, Result& r) { fl_offer(f, q, r); }
VP_FLAT(fp, FP, false, false)
VP_FLAT(fn, FN, true, false)
VP_FLAT(fc, FC, false, true)
VP_FLAT(fnc, FNC, true, true)
#undef VP_FLAT
V4 fn_normal(const FN& f, size_t i) { return f.normals[i]; }
V4 fnc_normal(const FNC& f, size_t i) { return f.normals[i]; }
M4 fc_cov(const FC& f, size_t i) { return f.covs[i]; }
M4 fnc_cov(const FNC& f, size_t i) { return f.covs[i]; }
// ---- incremental voxel map
using VX = VM<vp::Voxel>;
using GM = VM<GV>;
using FM = VM<FNC>;
using VC = std::pair<VoxelInfo, vp::Voxel>;
inline Eigen::Vector3i cell(const V4& p, double inv) { return Eigen::Vector3i((int)std::floor(p[0] * inv), (int)std::floor(p[1] * inv), (int)std::floor(p[2] * inv)); }
size_t vm_size(const VX& m) { return m.flat_voxels.size(); }
void vm_insert(VX& m, const Cloud& c, const Iso& T) {
  for (size_t i = 0; i < traits::size(c); i++) {
    const V4 p = T * traits::point(c, i);
    const Eigen::Vector3i k = cell(p, m.inv_leaf_size);
    auto at = m.voxels.find(k);
    size_t n;
    if (at == m.voxels.end()) {
      n = m.flat_voxels.size();
      m.flat_voxels.push_back(std::make_shared<VC>(VoxelInfo(k, m.lru_counter), vp::Voxel()));
      m.voxels.emplace(k, n);
    } else {
      n = at->second;
    }
    m.flat_voxels[n]->first.lru = m.lru_counter;
    m.flat_voxels[n]->second.add(m.voxel_setting, p, c, i, T);
  }
  m.lru_counter = m.lru_counter + 1;
  if (m.lru_counter % m.lru_clear_cycle == 0) {
    m.flat_voxels.erase(std::remove_if(m.flat_voxels.begin(), m.flat_voxels.end(), [&](const std::shared_ptr<VC>& v) { return v->first.lru + m.lru_horizon < m.lru_counter; }), m.flat_voxels.end());
    m.voxels.clear();
    for (size_t i = 0; i < m.flat_voxels.size(); i++) m.voxels[m.flat_voxels[i]->first.coord] = i;
  }
  for (size_t i = 0; i < m.flat_voxels.size(); i++) m.flat_voxels[i]->second.finalize();
}
size_t vm_calc(const VX& m, size_t v, size_t p) { return (v << 32) | p; }
size_t vm_vid(const VX& m, size_t v, size_t p) { assume(v < (1ull << 32)); assume(p < (1ull << 32)); return v; }
size_t vm_pid(const VX& m, size_t v, size_t p) { assume(v < (1ull << 32)); assume(p < (1ull << 32)); return p; }
template <class M, class R, class O> void around(const M& m, const V4& q, R& r, size_t& at, O&& offer) {
  const Eigen::Vector3i k = cell(q, m.inv_leaf_size);
  for (size_t i = 0; i < m.search_offsets.size(); i++) {
    const auto f = m.voxels.find(k + m.search_offsets[i]);
    if (f != m.voxels.end()) {
      at = f->second;
      offer(m.flat_voxels[at]->second);
    }
  }
}
template <class M> size_t map_nn(const M& m, const V4& q, size_t* ki, double* kd) {
  size_t at = 0;
  const auto tf = [&](size_t i) { return (at << 32) | i; };
  KnnResult<1, decltype(tf)> r(ki, kd, -1, tf);
  around(m, q, r, at, [&](const auto& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, GV>) r.push(0, sqd(v.mean, q)); else fl_offer(v, q, r); });
  return r.num_found();
}
template <class M> size_t map_knn(const M& m, const V4& q, size_t k, size_t* ki, double* kd) {
  size_t at = 0;
  const auto tf = [&](size_t i) { return (at << 32) | i; };
  KnnResult<-1, decltype(tf)> r(ki, kd, k, tf);
  around(m, q, r, at, [&](const auto& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, GV>) r.push(0, sqd(v.mean, q)); else fl_offer(v, q, r); });
  return r.num_found();
}
size_t gm_nn(const GM& m, const V4& q, size_t* ki, double* kd) { return map_nn(m, q, ki, kd); }
size_t gm_knn(const GM& m, const V4& q, size_t k, size_t* ki, double* kd) { return map_knn(m, q, k, ki, kd); }
size_t fm_nn(const FM& m, const V4& q, size_t* ki, double* kd) { return map_nn(m, q, ki, kd); }
size_t fm_knn(const FM& m, const V4& q, size_t k, size_t* ki, double* kd) { return map_knn(m, q, k, ki, kd); }
size_t gmt_nn(const GM& m, const V4& q, size_t* ki, double* kd) { return map_nn(m, q, ki, kd); }
size_t gmt_knn(const GM& m, const V4& q, size_t k, size_t* ki, double* kd) { return map_knn(m, q, k, ki, kd); }
size_t vmt_size(const VX& m) { return m.flat_voxels.size(); }
inline const vp::Voxel& vox(const VX& m, size_t i) { return m.flat_voxels[i >> 32]->second; }
V4 vmt_point(const VX& m, size_t i) { return traits::point(vox(m, i), i & 0xffffffffull); }
V4 vmt_normal(const VX& m, size_t i) { return traits::normal(vox(m, i), i & 0xffffffffull); }
M4 vmt_cov(const VX& m, size_t i) { return traits::cov(vox(m, i), i & 0xffffffffull); }
template <class T, class F> vector<T> every(const VX& m, F&& f) {
  vector<T> r;
  for (size_t v = 0; v < m.flat_voxels.size(); v++)
    for (size_t p = 0; p < traits::size(m.flat_voxels[v]->second); p++) r.push_back(f(v, p));
  return r;
}
vector<size_t> vm_indices(const VX& m) { return every<size_t>(m, [&](size_t v, size_t p) { return (v << 32) | p; }); }
vector<V4> vm_points(const VX& m) { return every<V4>(m, [&](size_t v, size_t p) { return traits::point(m.flat_voxels[v]->second, p); }); }
vector<V4> vm_normals(const VX& m) { return every<V4>(m, [&](size_t v, size_t p) { return traits::normal(m.flat_voxels[v]->second, p); }); }
vector<M4> vm_covs(const VX& m) { return every<M4>(m, [&](size_t v, size_t p) { return traits::cov(m.flat_voxels[v]->second, p); }); }
VoxelInfo vinfo(const Eigen::Vector3i& c, size_t t) { VoxelInfo i(c, t); i.coord = c; i.lru = t; return i; }
VX vm_make(double leaf) {
  VX m(leaf);
  m.lru_horizon = 100;
  m.lru_clear_cycle = 10;
  m.lru_counter = 0;
  return m;
}
}  // namespace vps
