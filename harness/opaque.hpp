// Opaque model types.  Their operations are declared but never defined, so the
// analysis of a template instantiated with them holds for every user type that
// offers the interface (nothing can be learnt from a body).
#pragma once
#include <memory>
#include <vector>
#include <tuple>
#include <random>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <small_gicp/points/traits.hpp>
#include <small_gicp/ann/traits.hpp>

namespace vp {
struct Target { int opaque; };   // target point cloud
struct Source { int opaque; };   // source point cloud
struct Cloud { int opaque; };    // any in/out point cloud
struct OutCloud { int opaque; };
struct Tree { int opaque;
  size_t knn_search(const Eigen::Vector4d&, size_t k, size_t*, double*) const;
};
struct Rejector { int opaque;
  template <class A, class B> bool operator()(const A&, const B&, const Eigen::Isometry3d&, size_t target_index, size_t source_index, double sq_dist) const;
};
struct Kernel { struct Setting { int opaque; }; Kernel(const Setting& = Setting()); double weight(double) const; int opaque; };
struct Factor {
  struct Setting { int opaque; };
  Factor(const Setting& = Setting());
  template <class TP, class SP, class TT, class R>
  bool linearize(const TP&, const SP&, const TT&, const Eigen::Isometry3d&, size_t, const R&, Eigen::Matrix<double, 6, 6>*, Eigen::Matrix<double, 6, 1>*, double*);
  template <class TP, class SP> double error(const TP&, const SP&, const Eigen::Isometry3d&) const;
  bool inlier() const;
  int opaque;
};
struct General { int opaque;
  template <class TP, class SP, class TT>
  void update_linearized_system(const TP&, const SP&, const TT&, const Eigen::Isometry3d&, Eigen::Matrix<double, 6, 6>*, Eigen::Matrix<double, 6, 1>*, double*) const;
  template <class TP, class SP> void update_error(const TP&, const SP&, const Eigen::Isometry3d&, double*) const;
};
struct Reduction { int opaque;
  template <class TP, class SP, class TT, class R, class F>
  std::tuple<Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double>
  linearize(const TP&, const SP&, const TT&, const R&, const Eigen::Isometry3d&, std::vector<F>&) const;
  template <class TP, class SP, class F> double error(const TP&, const SP&, const Eigen::Isometry3d&, std::vector<F>&) const;
};
struct Criteria { int opaque; bool converged(const Eigen::Matrix<double, 6, 1>&) const; };
struct Optimizer { int opaque;
  template <class TP, class SP, class TT, class R, class C, class Red, class F, class G>
  small_gicp::RegistrationResult optimize(const TP&, const SP&, const TT&, const R&, const C&, Red&, const Eigen::Isometry3d&, std::vector<F>&, G&) const;
};
struct Voxel { struct Setting { int opaque; }; Voxel(); int opaque;
  size_t size() const;
  template <class P> void add(const Setting&, const Eigen::Vector4d&, const P&, size_t, const Eigen::Isometry3d&);
  void finalize();
};
struct Projection { int opaque;
  double operator()(const Eigen::Vector4d&) const;
  template <class P, class It> static Projection find_axis(const P&, It, It, const small_gicp::ProjectionSetting&);
};
struct Projection2 { Eigen::Vector2d operator()(const Eigen::Vector3d&) const; };
struct Border { int operator()(int x, int width) const; };
struct Result { double worst_distance() const; void push(size_t, double); int opaque; };
struct IndexTf { size_t operator()(size_t) const; int opaque; };
struct Setter {
  static void set_invalid(Cloud&, size_t);
  static void set(Cloud&, size_t, const Eigen::Matrix3d&);
};
struct Item { int opaque; };
struct Less { bool operator()(const Item&, const Item&) const; int opaque; };
struct KeyFn { std::uint32_t operator()(const Item&) const; int opaque; };
}  // namespace vp

namespace small_gicp { namespace traits {
#define VP_CLOUD(T) template <> struct Traits<T> { \
  static size_t size(const T&); static bool has_points(const T&); static bool has_normals(const T&); static bool has_covs(const T&); \
  static Eigen::Vector4d point(const T&, size_t); static Eigen::Vector4d normal(const T&, size_t); static Eigen::Matrix4d cov(const T&, size_t); \
  static void resize(T&, size_t); static void set_point(T&, size_t, const Eigen::Vector4d&); static void set_normal(T&, size_t, const Eigen::Vector4d&); \
  static void set_cov(T&, size_t, const Eigen::Matrix4d&); };
VP_CLOUD(vp::Target) VP_CLOUD(vp::Source) VP_CLOUD(vp::Cloud) VP_CLOUD(vp::OutCloud)
template <> struct Traits<vp::Voxel> { static size_t size(const vp::Voxel&);
  static Eigen::Vector4d point(const vp::Voxel&, size_t); static Eigen::Vector4d normal(const vp::Voxel&, size_t); static Eigen::Matrix4d cov(const vp::Voxel&, size_t);
  template <class R> static void knn_search(const vp::Voxel&, const Eigen::Vector4d&, R&); };
template <> struct Traits<vp::Tree> { static size_t nearest_neighbor_search(const vp::Tree&, const Eigen::Vector4d&, size_t*, double*);
  static size_t knn_search(const vp::Tree&, const Eigen::Vector4d&, size_t, size_t*, double*); };
}}  // namespace small_gicp::traits
