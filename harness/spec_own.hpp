// Ownership: what the owning search structures refer to.
#pragma once
namespace vpw {
using namespace small_gicp;
template <class P> using SP = std::shared_ptr<const P>;
#define OWN(NAME, P) \
  SP<P> own_tree_##NAME(SP<P> p) { KdTree<P> t(p); return t.points; } \
  bool own_tree_same_##NAME(SP<P> p) { KdTree<P> t(p); return &t.kdtree.points == t.points.get(); } \
  bool own_tree_omp_##NAME(SP<P> p, int n) { KdTree<P> t(p, KdTreeBuilderOMP(n)); return &t.kdtree.points == t.points.get(); } \
  bool own_tree_tbb_##NAME(SP<P> p) { KdTree<P> t(p, KdTreeBuilderTBB()); return &t.kdtree.points == t.points.get(); } \
  bool own_tree_copy_##NAME(SP<P> p) { KdTree<P> t(p); KdTree<P> u(t); return &u.kdtree.points == u.points.get(); } \
  bool own_unsafe_##NAME(const P& p) { UnsafeKdTree<P> t(p); return &t.points == &p; } \
  SP<P> own_proj_##NAME(int w, int h, SP<P> p) { ProjectiveSearch<P> t(w, h, p); return t.points; } \
  bool own_proj_same_##NAME(int w, int h, SP<P> p) { ProjectiveSearch<P> t(w, h, p); return &t.search.points == t.points.get(); } \
  bool own_proj_copy_##NAME(int w, int h, SP<P> p) { ProjectiveSearch<P> t(w, h, p); ProjectiveSearch<P> u(t); return &u.search.points == u.points.get(); } \
  bool own_proj_unsafe_##NAME(int w, int h, const P& p) { UnsafeProjectiveSearch<P> t(w, h, p); return &t.points == &p; }
OWN(cloud, PointCloud)
OWN(mat, Eigen::MatrixXd)
#undef OWN
}  // namespace vpw
namespace vps {
using namespace small_gicp;
using vpw::SP;
#define OWN(NAME, P) \
  SP<P> own_tree_##NAME(SP<P> p) { return p; } \
  bool own_tree_same_##NAME(SP<P> p) { return true; } \
  bool own_tree_omp_##NAME(SP<P> p, int n) { return true; } \
  bool own_tree_tbb_##NAME(SP<P> p) { return true; } \
  bool own_tree_copy_##NAME(SP<P> p) { return true; } \
  bool own_unsafe_##NAME(const P& p) { return true; } \
  SP<P> own_proj_##NAME(int w, int h, SP<P> p) { return p; } \
  bool own_proj_same_##NAME(int w, int h, SP<P> p) { return true; } \
  bool own_proj_copy_##NAME(int w, int h, SP<P> p) { return true; } \
  bool own_proj_unsafe_##NAME(int w, int h, const P& p) { return true; }
OWN(cloud, PointCloud)
OWN(mat, Eigen::MatrixXd)
#undef OWN
}  // namespace vps
