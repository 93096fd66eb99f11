// Registration: code under analysis (vpw) and what it has to compute (vps).
// Nothing here is ever executed: both sides are analysed and their value
// summaries compared.
#pragma once
namespace vps { void assume(bool); }

namespace vpx {
using H6 = Eigen::Matrix<double, 6, 6>;
using B6 = Eigen::Matrix<double, 6, 1>;
using Sys = std::tuple<H6, B6, double>;
constexpr size_t NONE = std::numeric_limits<size_t>::max();
}  // namespace vpx

namespace vpw {
using namespace vpx;
using namespace vp;
using namespace small_gicp;
Sys reduce_serial(const SerialReduction& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.linearize(t, s, tr, rej, T, f); }
Sys reduce_omp(const ParallelReductionOMP& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.linearize(t, s, tr, rej, T, f); }
Sys reduce_tbb(const ParallelReductionTBB& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.linearize(t, s, tr, rej, T, f); }
double error_serial(const SerialReduction& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.error(t, s, T, f); }
double error_omp(const ParallelReductionOMP& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.error(t, s, T, f); }
double error_tbb(const ParallelReductionTBB& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return r.error(t, s, T, f); }

bool icp_linearize(ICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) { return f.linearize(t, s, tr, T, i, r, H, b, e); }
bool plane_linearize(PointToPlaneICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) { return f.linearize(t, s, tr, T, i, r, H, b, e); }
bool gicp_linearize(GICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) { return f.linearize(t, s, tr, T, i, r, H, b, e); }
double icp_error(const ICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) { return f.error(t, s, T); }
double plane_error(const PointToPlaneICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) { return f.error(t, s, T); }
double gicp_error(const GICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) { return f.error(t, s, T); }
bool icp_inlier(const ICPFactor& f) { return f.inlier(); }
bool plane_inlier(const PointToPlaneICPFactor& f) { return f.inlier(); }
bool gicp_inlier(const GICPFactor& f) { return f.inlier(); }
size_t icp_fresh(const ICPFactor::Setting& st) { ICPFactor f(st); return f.target_index; }
size_t plane_fresh(const PointToPlaneICPFactor::Setting& st) { PointToPlaneICPFactor f(st); return f.target_index; }
size_t gicp_fresh(const GICPFactor::Setting& st) { GICPFactor f(st); return f.target_index; }
Eigen::Matrix4d gicp_fresh_m(const GICPFactor::Setting& st) { GICPFactor f(st); return f.mahalanobis; }

using RF = RobustFactor<Kernel, Factor>;
bool robust_linearize(RF& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) { return f.linearize(t, s, tr, T, i, r, H, b, e); }
double robust_error(const RF& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) { return f.error(t, s, T); }
bool robust_inlier(const RF& f) { return f.inlier(); }
Kernel robust_ctor_kernel(const RF::Setting& st) { RF f(st); return f.robust_kernel; }
Factor robust_ctor_factor(const RF::Setting& st) { RF f(st); return f.factor; }
double huber_weight(const Huber& k, double e) { return k.weight(e); }
double cauchy_weight(const Cauchy& k, double e) { return k.weight(e); }
double huber_ctor(const Huber::Setting& st) { Huber k(st); return k.c; }
double cauchy_ctor(const Cauchy::Setting& st) { Cauchy k(st); return k.c; }

RegistrationResult gn_optimize(const GaussNewtonOptimizer& o, const Target& t, const Source& s, const Tree& tr, const Rejector& r, const Criteria& c, Reduction& red, const Eigen::Isometry3d& T, std::vector<Factor>& fs, General& g) { return o.optimize(t, s, tr, r, c, red, T, fs, g); }
RegistrationResult lm_optimize(const LevenbergMarquardtOptimizer& o, const Target& t, const Source& s, const Tree& tr, const Rejector& r, const Criteria& c, Reduction& red, const Eigen::Isometry3d& T, std::vector<Factor>& fs, General& g) { return o.optimize(t, s, tr, r, c, red, T, fs, g); }
RegistrationResult result_ctor(const Eigen::Isometry3d& T) { return RegistrationResult(T); }

bool crit_converged(const TerminationCriteria& c, const B6& d) { return c.converged(d); }
void dof_linearize(const RestrictDoFFactor& g, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, H6* H, B6* b, double* e) { g.update_linearized_system(t, s, tr, T, H, b, e); }
void dof_error(const RestrictDoFFactor& g, const Target& t, const Source& s, const Eigen::Isometry3d& T, double* e) { g.update_error(t, s, T, e); }
void null_linearize(const NullFactor& g, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, H6* H, B6* b, double* e) { g.update_linearized_system(t, s, tr, T, H, b, e); }
void null_error(const NullFactor& g, const Target& t, const Source& s, const Eigen::Isometry3d& T, double* e) { g.update_error(t, s, T, e); }
void dof_rot(RestrictDoFFactor& g, const Eigen::Array3d& m) { g.set_rotation_mask(m); }
void dof_trans(RestrictDoFFactor& g, const Eigen::Array3d& m) { g.set_translation_mask(m); }
Eigen::Array<double, 6, 1> dof_default() { RestrictDoFFactor f; return f.mask; }
double dof_lambda() { RestrictDoFFactor f; return f.lambda; }
bool reject_distance(const DistanceRejector& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, size_t ti, size_t si, double sq) { return r(t, s, T, ti, si, sq); }
bool reject_null(const NullRejector& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, size_t ti, size_t si, double sq) { return r(t, s, T, ti, si, sq); }

Eigen::Matrix3d lie_skew(const Eigen::Vector3d& x) { return skew(x); }
Eigen::Quaterniond lie_so3(const Eigen::Vector3d& w) { return so3_exp(w); }
Eigen::Isometry3d lie_se3(const B6& a) { return se3_exp(a); }

RegistrationResult reg_align(const small_gicp::Registration<Factor, Reduction, General, Rejector, Optimizer>& reg, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T) { return reg.align(t, s, tr, T); }
}  // namespace vpw

namespace vps {
using namespace vpx;
using namespace vp;
using namespace small_gicp;
// ---- reductions
inline Sys total(const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) {
  H6 H = H6::Zero();
  B6 b = B6::Zero();
  double e = 0;
  for (size_t i = 0; i < f.size(); i++) {
    H6 Hi; B6 bi; double ei;
    if (f[i].linearize(t, s, tr, T, i, rej, &Hi, &bi, &ei)) { H += Hi; b += bi; e += ei; }
  }
  return {H, b, e};
}
inline double total_error(const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) {
  double e = 0;
  for (size_t i = 0; i < f.size(); i++) e += f[i].error(t, s, T);
  return e;
}
Sys reduce_serial(const SerialReduction& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return total(t, s, tr, rej, T, f); }
Sys reduce_omp(const ParallelReductionOMP& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { assume(r.num_threads >= 1); return total(t, s, tr, rej, T, f); }
Sys reduce_tbb(const ParallelReductionTBB& r, const Target& t, const Source& s, const Tree& tr, const Rejector& rej, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return total(t, s, tr, rej, T, f); }
double error_serial(const SerialReduction& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return total_error(t, s, T, f); }
double error_omp(const ParallelReductionOMP& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { assume(r.num_threads >= 1); return total_error(t, s, T, f); }
double error_tbb(const ParallelReductionTBB& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, std::vector<Factor>& f) { return total_error(t, s, T, f); }

// ---- point factors
inline Eigen::Vector3d xyz(const Eigen::Vector4d& p) { return Eigen::Vector3d(p[0], p[1], p[2]); }
template <class F> bool correspond(F& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, size_t& k) {
  f.source_index = i;
  f.target_index = NONE;
  const Eigen::Vector4d q = T * traits::point(s, i);
  double d;
  const size_t n = traits::nearest_neighbor_search(tr, q, &k, &d);
  if (n == 0) return false;
  if (r(t, s, T, k, i, d)) return false;
  f.target_index = k;
  return true;
}
// J of the residual q - T exp(d) p, rotation first
inline Eigen::Matrix<double, 3, 6> jac(const Eigen::Isometry3d& T, const Eigen::Vector4d& p) {
  Eigen::Matrix<double, 3, 6> J;
  for (int i = 0; i < 3; i++) {
    const double a = T.matrix()(i, 0), b = T.matrix()(i, 1), c = T.matrix()(i, 2);
    J(i, 0) = b * p[2] - c * p[1];
    J(i, 1) = c * p[0] - a * p[2];
    J(i, 2) = a * p[1] - b * p[0];
    J(i, 3) = -a; J(i, 4) = -b; J(i, 5) = -c;
  }
  return J;
}
bool icp_linearize(ICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) {
  size_t k;
  if (!correspond(f, t, s, tr, T, i, r, k)) return false;
  const Eigen::Vector4d v = traits::point(t, k) - T * traits::point(s, i);
  const auto J = jac(T, traits::point(s, i));
  *H = J.transpose() * J;
  *b = J.transpose() * xyz(v);
  *e = 0.5 * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]);
  return true;
}
bool plane_linearize(PointToPlaneICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) {
  size_t k;
  if (!correspond(f, t, s, tr, T, i, r, k)) return false;
  const Eigen::Vector4d n = traits::normal(t, k);
  const Eigen::Vector4d v = traits::point(t, k) - T * traits::point(s, i);
  Eigen::Matrix<double, 3, 6> J = jac(T, traits::point(s, i));
  Eigen::Vector3d w;
  for (int a = 0; a < 3; a++) {
    w[a] = n[a] * v[a];
    for (int c = 0; c < 6; c++) J(a, c) = n[a] * J(a, c);
  }
  *H = J.transpose() * J;
  *b = J.transpose() * w;
  *e = 0.5 * (w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + n[3] * v[3] * n[3] * v[3]);
  return true;
}
bool gicp_linearize(GICPFactor& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) {
  size_t k;
  if (!correspond(f, t, s, tr, T, i, r, k)) return false;
  const Eigen::Matrix4d C = traits::cov(t, k) + T.matrix() * traits::cov(s, i) * T.matrix().transpose();
  f.mahalanobis.block<3, 3>(0, 0) = C.block<3, 3>(0, 0).inverse();
  const Eigen::Vector4d v = traits::point(t, k) - T * traits::point(s, i);
  Eigen::Matrix<double, 4, 6> J = Eigen::Matrix<double, 4, 6>::Zero();
  J.block<3, 6>(0, 0) = jac(T, traits::point(s, i));
  *H = J.transpose() * f.mahalanobis * J;
  *b = J.transpose() * f.mahalanobis * v;
  double x = 0;
  for (int p = 0; p < 4; p++) for (int q = 0; q < 4; q++) x += v[p] * f.mahalanobis(p, q) * v[q];
  *e = 0.5 * x;
  return true;
}
double icp_error(const ICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) {
  if (f.target_index == NONE) return 0.0;
  const Eigen::Vector4d v = traits::point(t, f.target_index) - T * traits::point(s, f.source_index);
  return 0.5 * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]);
}
double plane_error(const PointToPlaneICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) {
  if (f.target_index == NONE) return 0.0;
  const Eigen::Vector4d n = traits::normal(t, f.target_index);
  const Eigen::Vector4d v = traits::point(t, f.target_index) - T * traits::point(s, f.source_index);
  double x = 0;
  for (int a = 0; a < 4; a++) x += n[a] * v[a] * n[a] * v[a];
  return 0.5 * x;
}
double gicp_error(const GICPFactor& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) {
  if (f.target_index == NONE) return 0.0;
  const Eigen::Vector4d v = traits::point(t, f.target_index) - T * traits::point(s, f.source_index);
  double x = 0;
  for (int p = 0; p < 4; p++) for (int q = 0; q < 4; q++) x += v[p] * f.mahalanobis(p, q) * v[q];
  return 0.5 * x;
}
bool icp_inlier(const ICPFactor& f) { return f.target_index != NONE; }
bool plane_inlier(const PointToPlaneICPFactor& f) { return f.target_index != NONE; }
bool gicp_inlier(const GICPFactor& f) { return f.target_index != NONE; }
size_t icp_fresh(const ICPFactor::Setting& st) { return NONE; }
size_t plane_fresh(const PointToPlaneICPFactor::Setting& st) { return NONE; }
size_t gicp_fresh(const GICPFactor::Setting& st) { return NONE; }
Eigen::Matrix4d gicp_fresh_m(const GICPFactor::Setting& st) { return Eigen::Matrix4d::Zero(); }

// ---- robust kernels
using RF = RobustFactor<Kernel, Factor>;
bool robust_linearize(RF& f, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, size_t i, const Rejector& r, H6* H, B6* b, double* e) {
  const bool ok = f.factor.linearize(t, s, tr, T, i, r, H, b, e);
  if (ok) {
    const double w = f.robust_kernel.weight(std::sqrt(*e));
    *H = w * *H;
    *b = w * *b;
    *e = w * *e;
  }
  return ok;
}
double robust_error(const RF& f, const Target& t, const Source& s, const Eigen::Isometry3d& T) {
  const double e = f.factor.error(t, s, T);
  return e * f.robust_kernel.weight(std::sqrt(e));
}
bool robust_inlier(const RF& f) { return f.factor.inlier(); }
Kernel robust_ctor_kernel(const RF::Setting& st) { return Kernel(st.robust_kernel); }
Factor robust_ctor_factor(const RF::Setting& st) { return Factor(st.factor); }
double huber_weight(const Huber& k, double e) { const double a = e < 0 ? -e : e; if (a < k.c) return 1.0; return k.c / a; }
double cauchy_weight(const Cauchy& k, double e) { return k.c / (k.c + e * e); }
double huber_ctor(const Huber::Setting& st) { return st.c; }
double cauchy_ctor(const Cauchy::Setting& st) { return st.c; }

// ---- optimisers
inline size_t inliers(const std::vector<Factor>& fs) { size_t n = 0; for (size_t i = 0; i < fs.size(); i++) if (fs[i].inlier()) n++; return n; }
RegistrationResult gn_optimize(const GaussNewtonOptimizer& o, const Target& t, const Source& s, const Tree& tr, const Rejector& r, const Criteria& c, Reduction& red, const Eigen::Isometry3d& T, std::vector<Factor>& fs, General& g) {
  RegistrationResult x;
  x.T_target_source = T;
  for (int i = 0; i < o.max_iterations; i++) {
    if (x.converged) break;
    Sys y = red.linearize(t, s, tr, r, x.T_target_source, fs);
    H6 H = std::get<0>(y);
    B6 b = std::get<1>(y);
    double e = std::get<2>(y);
    g.update_linearized_system(t, s, tr, x.T_target_source, &H, &b, &e);
    H6 D = H;
    for (int k = 0; k < 6; k++) D(k, k) += o.lambda;
    const B6 d = D.ldlt().solve(-b);
    x.converged = c.converged(d);
    x.T_target_source = x.T_target_source * se3_exp(d);
    x.iterations = i;
    x.H = H; x.b = b; x.error = e;
  }
  x.num_inliers = inliers(fs);
  return x;
}
RegistrationResult lm_optimize(const LevenbergMarquardtOptimizer& o, const Target& t, const Source& s, const Tree& tr, const Rejector& r, const Criteria& c, Reduction& red, const Eigen::Isometry3d& T, std::vector<Factor>& fs, General& g) {
  RegistrationResult x;
  x.T_target_source = T;
  double lambda = o.init_lambda;
  for (int i = 0; i < o.max_iterations; i++) {
    if (x.converged) break;
    Sys y = red.linearize(t, s, tr, r, x.T_target_source, fs);
    H6 H = std::get<0>(y);
    B6 b = std::get<1>(y);
    double e = std::get<2>(y);
    g.update_linearized_system(t, s, tr, x.T_target_source, &H, &b, &e);
    bool ok = false;
    for (int j = 0; j < o.max_inner_iterations; j++) {
      H6 D = H;
      for (int k = 0; k < 6; k++) D(k, k) += lambda;
      const B6 d = D.ldlt().solve(-b);
      const Eigen::Isometry3d T1 = x.T_target_source * se3_exp(d);
      double e1 = red.error(t, s, T1, fs);
      g.update_error(t, s, T1, &e1);
      if (e1 <= e) {
        x.converged = c.converged(d);
        x.T_target_source = T1;
        e = e1;
        lambda = lambda / o.lambda_factor;
        ok = true;
        break;
      }
      lambda = lambda * o.lambda_factor;
    }
    x.iterations = i;
    x.H = H; x.b = b; x.error = e;
    if (!ok) break;
  }
  x.num_inliers = inliers(fs);
  return x;
}
RegistrationResult result_ctor(const Eigen::Isometry3d& T) {
  RegistrationResult x;
  x.T_target_source = T; x.converged = false; x.iterations = 0; x.num_inliers = 0; x.H = H6::Zero(); x.b = B6::Zero(); x.error = 0;
  return x;
}
// ---- layout of the increment: rotation first
bool crit_converged(const TerminationCriteria& c, const B6& d) {
  const double r = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), t = std::sqrt(d[3] * d[3] + d[4] * d[4] + d[5] * d[5]);
  return !(r > c.rotation_eps || t > c.translation_eps);
}
void dof_linearize(const RestrictDoFFactor& g, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, H6* H, B6* b, double* e) {
  for (int i = 0; i < 6; i++) (*H)(i, i) += g.lambda * std::abs(1.0 - g.mask[i]);
}
void dof_error(const RestrictDoFFactor& g, const Target& t, const Source& s, const Eigen::Isometry3d& T, double* e) {}
void null_linearize(const NullFactor& g, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T, H6* H, B6* b, double* e) {}
void null_error(const NullFactor& g, const Target& t, const Source& s, const Eigen::Isometry3d& T, double* e) {}
void dof_rot(RestrictDoFFactor& g, const Eigen::Array3d& m) { g.mask[0] = m[0]; g.mask[1] = m[1]; g.mask[2] = m[2]; }
void dof_trans(RestrictDoFFactor& g, const Eigen::Array3d& m) { g.mask[3] = m[0]; g.mask[4] = m[1]; g.mask[5] = m[2]; }
Eigen::Array<double, 6, 1> dof_default() { Eigen::Array<double, 6, 1> m; for (int i = 0; i < 6; i++) m[i] = 1.0; return m; }
double dof_lambda() { return 1e9; }
bool reject_distance(const DistanceRejector& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, size_t ti, size_t si, double sq) { return r.max_dist_sq < sq; }
bool reject_null(const NullRejector& r, const Target& t, const Source& s, const Eigen::Isometry3d& T, size_t ti, size_t si, double sq) { return false; }

// ---- exponential maps
Eigen::Matrix3d lie_skew(const Eigen::Vector3d& x) {
  Eigen::Matrix3d m;
  m << 0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0;
  return m;
}
Eigen::Quaterniond lie_so3(const Eigen::Vector3d& w) {
  const double q = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
  double re, im;
  if (q < 1e-10) {
    // cos(x/2) and sin(x/2)/x to fourth order in x
    re = 1.0 - q / 8.0 + q * q / 384.0;
    im = 0.5 - q / 48.0 + q * q / 3840.0;
  } else {
    const double x = std::sqrt(q);
    re = std::cos(0.5 * x);
    im = std::sin(0.5 * x) / x;
  }
  return Eigen::Quaterniond(re, im * w[0], im * w[1], im * w[2]);
}
Eigen::Isometry3d lie_se3(const B6& a) {
  const Eigen::Vector3d w(a[0], a[1], a[2]), v(a[3], a[4], a[5]);
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  const Eigen::Matrix3d R = so3_exp(w).toRotationMatrix();
  const double q = w[0] * w[0] + w[1] * w[1] + w[2] * w[2], x = std::sqrt(q);
  T.linear() = R;
  if (x < 1e-10) {
    T.translation() = R * v;
  } else {
    const Eigen::Matrix3d W = lie_skew(w);
    T.translation() = v + (1.0 - std::cos(x)) / q * (W * v) + (x - std::sin(x)) / (q * x) * (W * (W * v));
  }
  return T;
}
RegistrationResult reg_align(const small_gicp::Registration<Factor, Reduction, General, Rejector, Optimizer>& reg, const Target& t, const Source& s, const Tree& tr, const Eigen::Isometry3d& T) {
  std::vector<Factor> fs(traits::size(s), Factor(reg.point_factor));
  return reg.optimizer.optimize(t, s, tr, reg.rejector, reg.criteria, reg.reduction, T, fs, reg.general_factor);
}
}  // namespace vps
