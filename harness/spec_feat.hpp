// Normal and covariance estimation.
#pragma once
namespace vpx {
using PTree = UnsafeKdTree<PointCloud>;
}

namespace vpw {
using namespace vpx;
void ft_point(Cloud& c, const vp::Tree& t, int k, size_t i) { estimate_local_features<vp::Setter>(c, t, k, i); }
void ft_normal(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { NormalSetter<PointCloud>::set(c, i, ev); }
void ft_cov(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { CovarianceSetter<PointCloud>::set(c, i, ev); }
void ft_both(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { NormalCovarianceSetter<PointCloud>::set(c, i, ev); }
void ft_no_normal(PointCloud& c, size_t i) { NormalSetter<PointCloud>::set_invalid(c, i); }
void ft_no_cov(PointCloud& c, size_t i) { CovarianceSetter<PointCloud>::set_invalid(c, i); }
void ft_no_both(PointCloud& c, size_t i) { NormalCovarianceSetter<PointCloud>::set_invalid(c, i); }
void ft_normals(PointCloud& c, int k) { estimate_normals(c, k); }
void ft_normals_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_normals(c, t, k); }
void ft_normals_omp(PointCloud& c, int k, int n) { estimate_normals_omp(c, k, n); }
void ft_normals_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { estimate_normals_omp(c, t, k, n); }
void ft_normals_tbb(PointCloud& c, int k) { estimate_normals_tbb(c, k); }
void ft_normals_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_normals_tbb(c, t, k); }
void ft_covs(PointCloud& c, int k) { estimate_covariances(c, k); }
void ft_covs_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_covariances(c, t, k); }
void ft_covs_omp(PointCloud& c, int k, int n) { estimate_covariances_omp(c, k, n); }
void ft_covs_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { estimate_covariances_omp(c, t, k, n); }
void ft_covs_tbb(PointCloud& c, int k) { estimate_covariances_tbb(c, k); }
void ft_covs_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_covariances_tbb(c, t, k); }
void ft_boths(PointCloud& c, int k) { estimate_normals_covariances(c, k); }
void ft_boths_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_normals_covariances(c, t, k); }
void ft_boths_omp(PointCloud& c, int k, int n) { estimate_normals_covariances_omp(c, k, n); }
void ft_boths_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { estimate_normals_covariances_omp(c, t, k, n); }
void ft_boths_tbb(PointCloud& c, int k) { estimate_normals_covariances_tbb(c, k); }
void ft_boths_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { estimate_normals_covariances_tbb(c, t, k); }
}  // namespace vpw

namespace vps {
using namespace vpx;
// features of one point from the neighbours found
template <class S, class C, class Tr>
void feature(C& c, const Tr& t, int k, size_t i) {
  std::vector<size_t> idx(k);
  std::vector<double> dist(k);
  const size_t n = t.knn_search(traits::point(c, i), k, idx.data(), dist.data());
  if (n < 5) {
    S::set_invalid(c, i);
  } else {
    V4 sum = V4::Zero();
    M4 cross = M4::Zero();
    for (size_t j = 0; j < n; j++) {
      const V4 p = traits::point(c, idx[j]);
      sum = sum + p;
      cross = cross + p * p.transpose();
    }
    const V4 mean = sum / n;
    const M4 cov = cross / n - mean * mean.transpose();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> eig;
    eig.computeDirect(cov.block<3, 3>(0, 0));
    S::set(c, i, eig.eigenvectors());
  }
}
struct Normal {
  static void set_invalid(PointCloud& c, size_t i) { c.normals[i] = V4(0, 0, 0, 0); }
  static void set(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) {
    const Eigen::Vector3d u = ev.col(0).normalized();
    const V4 n(u[0], u[1], u[2], 0.0);
    c.normals[i] = c.points[i].dot(n) > 0 ? V4(-n) : n;
  }
};
struct Cov {
  static void set_invalid(PointCloud& c, size_t i) { c.covs[i] = V4(1, 1, 1, 0).asDiagonal(); }
  static void set(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) {
    M4 m = M4::Zero();
    for (int a = 0; a < 3; a++) {
      for (int b = 0; b < 3; b++) m(a, b) = 1e-3 * ev(a, 0) * ev(b, 0) + ev(a, 1) * ev(b, 1) + ev(a, 2) * ev(b, 2);
    }
    c.covs[i] = m;
  }
};
struct Both {
  static void set_invalid(PointCloud& c, size_t i) { Normal::set_invalid(c, i); Cov::set_invalid(c, i); }
  static void set(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { Normal::set(c, i, ev); Cov::set(c, i, ev); }
};
template <class S, class Tr>
void features(PointCloud& c, const Tr& t, int k) {
  traits::resize(c, traits::size(c));
  for (size_t i = 0; i < traits::size(c); i++) feature<S>(c, t, k, i);
}
template <class S>
void features(PointCloud& c, int k) {
  traits::resize(c, traits::size(c));
  PTree t(c);
  for (size_t i = 0; i < traits::size(c); i++) feature<S>(c, t, k, i);
}
template <class S, class Tr>
void features_tbb(PointCloud& c, const Tr& t, int k) {
  traits::resize(c, traits::size(c));
  tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(c)), [&](const tbb::blocked_range<size_t>& r) {
    for (size_t i = r.begin(); i < r.end(); i++) feature<S>(c, t, k, i);
  });
}
template <class S>
void features_tbb(PointCloud& c, int k) {
  traits::resize(c, traits::size(c));
  PTree t(c);
  tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(c)), [&](const tbb::blocked_range<size_t>& r) {
    for (size_t i = r.begin(); i < r.end(); i++) feature<S>(c, t, k, i);
  });
}
void ft_point(Cloud& c, const vp::Tree& t, int k, size_t i) { feature<vp::Setter>(c, t, k, i); }
void ft_normal(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { Normal::set(c, i, ev); }
void ft_cov(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { Cov::set(c, i, ev); }
void ft_both(PointCloud& c, size_t i, const Eigen::Matrix3d& ev) { Both::set(c, i, ev); }
void ft_no_normal(PointCloud& c, size_t i) { Normal::set_invalid(c, i); }
void ft_no_cov(PointCloud& c, size_t i) { Cov::set_invalid(c, i); }
void ft_no_both(PointCloud& c, size_t i) { Both::set_invalid(c, i); }
void ft_normals(PointCloud& c, int k) { features<Normal>(c, k); }
void ft_normals_tree(PointCloud& c, const vp::Tree& t, int k) { features<Normal>(c, t, k); }
void ft_normals_omp(PointCloud& c, int k, int n) { features<Normal>(c, k); }
void ft_normals_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { features<Normal>(c, t, k); }
void ft_normals_tbb(PointCloud& c, int k) { features_tbb<Normal>(c, k); }
void ft_normals_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { features_tbb<Normal>(c, t, k); }
void ft_covs(PointCloud& c, int k) { features<Cov>(c, k); }
void ft_covs_tree(PointCloud& c, const vp::Tree& t, int k) { features<Cov>(c, t, k); }
void ft_covs_omp(PointCloud& c, int k, int n) { features<Cov>(c, k); }
void ft_covs_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { features<Cov>(c, t, k); }
void ft_covs_tbb(PointCloud& c, int k) { features_tbb<Cov>(c, k); }
void ft_covs_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { features_tbb<Cov>(c, t, k); }
void ft_boths(PointCloud& c, int k) { features<Both>(c, k); }
void ft_boths_tree(PointCloud& c, const vp::Tree& t, int k) { features<Both>(c, t, k); }
void ft_boths_omp(PointCloud& c, int k, int n) { features<Both>(c, k); }
void ft_boths_omp_tree(PointCloud& c, const vp::Tree& t, int k, int n) { features<Both>(c, t, k); }
void ft_boths_tbb(PointCloud& c, int k) { features_tbb<Both>(c, k); }
void ft_boths_tbb_tree(PointCloud& c, const vp::Tree& t, int k) { features_tbb<Both>(c, t, k); }
}  // namespace vps
