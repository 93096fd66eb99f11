// Nearest-neighbour structures: results, kd-tree, projective search.
#pragma once
namespace vpx {
template <int N> using KR = KnnResult<N, vp::IndexTf>;
using V4 = Eigen::Vector4d;
using UTree = UnsafeKdTree<vp::Cloud, vp::Projection>;
using STree = KdTree<vp::Cloud, vp::Projection>;
using UProj = UnsafeProjectiveSearch<vp::Cloud, vp::Projection2, vp::Border, vp::Border>;
using SProj = ProjectiveSearch<vp::Cloud, vp::Projection2, vp::Border, vp::Border>;
}  // namespace vpx

namespace vpw {
bool knn_fulfilled_4(const KnnSetting& s, const KR<4>& r) { return s.fulfilled(r); }
// ---- result container
void knn_push_1(KR<1>& r, size_t i, double d) { r.push(i, d); }
void knn_push_4(KR<4>& r, size_t i, double d) { r.push(i, d); }
void knn_push_n(KR<-1>& r, size_t i, double d) { r.push(i, d); }
KR<4> knn_make_4(size_t* ki, double* kd, const vp::IndexTf& tf) { return KR<4>(ki, kd, -1, tf); }
KR<-1> knn_make_n(size_t* ki, double* kd, int k, const vp::IndexTf& tf) { return KR<-1>(ki, kd, k, tf); }
double knn_worst_4(const KR<4>& r) { return r.worst_distance(); }
double knn_worst_n(const KR<-1>& r) { return r.worst_distance(); }
size_t knn_found_4(const KR<4>& r) { return r.num_found(); }
size_t knn_found_n(const KR<-1>& r) { return r.num_found(); }
size_t knn_cap_4(const KR<4>& r) { return r.buffer_size(); }
size_t knn_cap_n(const KR<-1>& r) { return r.buffer_size(); }
size_t knn_identity(size_t i) { return identity_transform()(i); }
bool knn_fulfilled(const KnnSetting& s, const KR<-1>& r) { return s.fulfilled(r); }
double knn_default_eps() { KnnSetting s; return s.epsilon; }
// ---- kd-tree search
size_t tree_knn(const UTree& t, const V4& q, int k, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search(q, k, ki, kd, s); }
size_t tree_knn_4(const UTree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search<4>(q, ki, kd, s); }
size_t tree_nn(const UTree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.nearest_neighbor_search(q, ki, kd, s); }
size_t stree_knn(const STree& t, const V4& q, size_t k, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search(q, k, ki, kd, s); }
size_t stree_nn(const STree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.nearest_neighbor_search(q, ki, kd, s); }
size_t trait_tree_knn(const UTree& t, const V4& q, size_t k, size_t* ki, double* kd) { return traits::knn_search(t, q, k, ki, kd); }
size_t trait_tree_nn(const UTree& t, const V4& q, size_t* ki, double* kd) { return traits::nearest_neighbor_search(t, q, ki, kd); }
size_t trait_stree_knn(const STree& t, const V4& q, size_t k, size_t* ki, double* kd) { return traits::knn_search(t, q, k, ki, kd); }
size_t trait_stree_nn(const STree& t, const V4& q, size_t* ki, double* kd) { return traits::nearest_neighbor_search(t, q, ki, kd); }
// ---- kd-tree construction
UTree build_serial(const Cloud& c, const KdTreeBuilder& b) { return UTree(c, b); }
UTree build_omp(const Cloud& c, const KdTreeBuilderOMP& b) { return UTree(c, b); }
UTree build_tbb(const Cloud& c, const KdTreeBuilderTBB& b) { return UTree(c, b); }
// one level of the recursions, from any state
NodeIndexType node_serial(const KdTreeBuilder& b, UTree& t, size_t& n, const Cloud& c, size_t f, size_t l) { return b.create_node(t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
NodeIndexType node_omp(const KdTreeBuilderOMP& b, UTree& t, std::atomic_uint64_t& n, const Cloud& c, size_t f, size_t l) { return b.create_node(t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
NodeIndexType node_tbb(const KdTreeBuilderTBB& b, UTree& t, std::atomic_uint64_t& n, const Cloud& c, size_t f, size_t l) { return b.create_node(t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
bool tree_visit(const UTree& t, const V4& q, NodeIndexType n, KR<-1>& r, const KnnSetting& s) { return t.knn_search(q, n, r, s); }
bool tree_visit_4(const UTree& t, const V4& q, NodeIndexType n, KR<4>& r, const KnnSetting& s) { return t.knn_search(q, n, r, s); }
KdTreeBuilder builder_default() { return KdTreeBuilder(); }
KdTreeBuilderOMP builder_omp(int n) { return KdTreeBuilderOMP(n); }
KdTreeBuilderTBB builder_tbb() { return KdTreeBuilderTBB(); }
AxisAlignedProjection axis_find(const Cloud& c, const size_t* f, const size_t* l, const ProjectionSetting& s) { return AxisAlignedProjection::find_axis(c, f, l, s); }
NormalProjection normal_find(const Cloud& c, const size_t* f, const size_t* l, const ProjectionSetting& s) { return NormalProjection::find_axis(c, f, l, s); }
double axis_project(const AxisAlignedProjection& p, const V4& q) { return p(q); }
double normal_project(const NormalProjection& p, const V4& q) { return p(q); }
// ---- projective search
using IMap = Eigen::Matrix<std::uint32_t, -1, -1>;
IMap proj_build(int w, int h, const Cloud& c) { UProj p(w, h, c); return p.index_map; }
int proj_window_h(int w, int h, const Cloud& c) { UProj p(w, h, c); return p.search_window_h; }
int proj_window_v(int w, int h, const Cloud& c) { UProj p(w, h, c); return p.search_window_v; }
const Cloud* proj_cloud(int w, int h, const Cloud& c) { UProj p(w, h, c); return &p.points; }
size_t proj_knn(const UProj& t, const V4& q, int k, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search(q, k, ki, kd, s); }
size_t proj_knn_4(const UProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search<4>(q, ki, kd, s); }
size_t proj_nn(const UProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.nearest_neighbor_search(q, ki, kd, s); }
size_t sproj_knn(const SProj& t, const V4& q, size_t k, size_t* ki, double* kd, const KnnSetting& s) { return t.knn_search(q, k, ki, kd, s); }
size_t sproj_nn(const SProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return t.nearest_neighbor_search(q, ki, kd, s); }
size_t trait_proj_knn(const UProj& t, const V4& q, size_t k, size_t* ki, double* kd) { return traits::knn_search(t, q, k, ki, kd); }
size_t trait_proj_nn(const UProj& t, const V4& q, size_t* ki, double* kd) { return traits::nearest_neighbor_search(t, q, ki, kd); }
size_t trait_sproj_knn(const SProj& t, const V4& q, size_t k, size_t* ki, double* kd) { return traits::knn_search(t, q, k, ki, kd); }
size_t trait_sproj_nn(const SProj& t, const V4& q, size_t* ki, double* kd) { return traits::nearest_neighbor_search(t, q, ki, kd); }
int border_clamp(int x, int w) { return BorderClamp()(x, w); }
int border_repeat(int x, int w) { return BorderRepeat()(x, w); }
Eigen::Vector2d equirect(const Eigen::Vector3d& p) { return EquirectangularProjection()(p); }
}  // namespace vpw

namespace vps {
// ---- result container: insertion into an ascending list of bounded length
template <class R> void push_sorted(R& r, int cap, size_t i, double d) {
  if (!(d < r.distances[cap - 1])) return;
  int at = r.num_found_neighbors < cap - 1 ? r.num_found_neighbors : cap - 1;
  while (at > 0 && d < r.distances[at - 1]) {
    r.distances[at] = r.distances[at - 1];
    r.indices[at] = r.indices[at - 1];
    at--;
  }
  r.distances[at] = d;
  r.indices[at] = r.index_transform(i);
  r.num_found_neighbors = r.num_found_neighbors + 1 < cap ? r.num_found_neighbors + 1 : cap;
}
// (a container never holds more than it has room for)
void knn_push_1(KR<1>& r, size_t i, double d) {
  assume(r.num_found_neighbors >= 0 && r.num_found_neighbors <= 1);
  if (d < r.distances[0]) {
    r.distances[0] = d;
    r.indices[0] = r.index_transform(i);
    r.num_found_neighbors = r.num_found_neighbors + 1 < 1 ? r.num_found_neighbors + 1 : 1;
  }
}
void knn_push_4(KR<4>& r, size_t i, double d) { assume(r.num_found_neighbors >= 0 && r.num_found_neighbors <= 4); push_sorted(r, 4, i, d); }
void knn_push_n(KR<-1>& r, size_t i, double d) { assume(r.capacity >= 1 && r.num_found_neighbors >= 0 && r.num_found_neighbors <= r.capacity); push_sorted(r, r.capacity, i, d); }
template <int N> KR<N> knn_fresh(size_t* ki, double* kd, int arg, int cap, const vp::IndexTf& tf) {
  KR<N> r(ki, kd, arg, tf);  // fields set below, one by one
  r.num_found_neighbors = 0;
  r.indices = ki;
  r.distances = kd;
  for (int i = 0; i < cap; i++) { ki[i] = std::numeric_limits<size_t>::max(); kd[i] = std::numeric_limits<double>::max(); }
  return r;
}
KR<4> knn_make_4(size_t* ki, double* kd, const vp::IndexTf& tf) { return knn_fresh<4>(ki, kd, -1, 4, tf); }
KR<-1> knn_make_n(size_t* ki, double* kd, int k, const vp::IndexTf& tf) { if (k <= 0) abort(); return knn_fresh<-1>(ki, kd, k, k, tf); }
double knn_worst_4(const KR<4>& r) { return r.distances[3]; }
double knn_worst_n(const KR<-1>& r) { return r.distances[r.capacity - 1]; }
size_t knn_found_4(const KR<4>& r) { return r.num_found_neighbors; }
size_t knn_found_n(const KR<-1>& r) { return r.num_found_neighbors; }
size_t knn_cap_4(const KR<4>& r) { return 4; }
size_t knn_cap_n(const KR<-1>& r) { return r.capacity; }
size_t knn_identity(size_t i) { return i; }
bool knn_fulfilled(const KnnSetting& s, const KR<-1>& r) { return r.distances[r.capacity - 1] < s.epsilon; }
bool knn_fulfilled_4(const KnnSetting& s, const KR<4>& r) { return r.distances[3] < s.epsilon; }
double knn_default_eps() { return 0.0; }

// ---- kd-tree search: every leaf that may hold a closer point is visited
inline double sqd(const V4& a, const V4& b) { const double x = a[0] - b[0], y = a[1] - b[1], z = a[2] - b[2], w = a[3] - b[3]; return x * x + y * y + z * z + w * w; }
template <class R> bool visit(const UTree& t, const V4& q, NodeIndexType n, R& r, const KnnSetting& s) {
  const auto& nd = t.nodes[n];
  if (nd.left == INVALID_NODE) {
    for (NodeIndexType i = nd.node_type.lr.first; i < nd.node_type.lr.last; i++) {
      const size_t p = t.indices[i];
      r.push(p, sqd(traits::point(t.points, p), q));
    }
    return !(r.worst_distance() < s.epsilon);
  }
  const double d = nd.node_type.sub.proj(q) - nd.node_type.sub.thresh;
  const bool low = d < 0;
  if (!visit(t, q, low ? nd.left : nd.right, r, s)) return false;
  if (d * d < r.worst_distance()) return visit(t, q, low ? nd.right : nd.left, r, s);
  return true;
}
template <class R> size_t search(const UTree& t, const V4& q, R&& r, const KnnSetting& s) {
  if (t.nodes.size() == 0) return 0;
  visit(t, q, t.root, r, s);
  return r.num_found();
}
size_t tree_knn(const UTree& t, const V4& q, int k, size_t* ki, double* kd, const KnnSetting& s) { return search(t, q, KnnResult<-1>(ki, kd, k), s); }
size_t tree_knn_4(const UTree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return search(t, q, KnnResult<4>(ki, kd), s); }
size_t tree_nn(const UTree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return search(t, q, KnnResult<1>(ki, kd), s); }
size_t stree_knn(const STree& t, const V4& q, size_t k, size_t* ki, double* kd, const KnnSetting& s) { return search(t.kdtree, q, KnnResult<-1>(ki, kd, k), s); }
size_t stree_nn(const STree& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return search(t.kdtree, q, KnnResult<1>(ki, kd), s); }
size_t trait_tree_knn(const UTree& t, const V4& q, size_t k, size_t* ki, double* kd) { return search(t, q, KnnResult<-1>(ki, kd, k), KnnSetting()); }
size_t trait_tree_nn(const UTree& t, const V4& q, size_t* ki, double* kd) { return search(t, q, KnnResult<1>(ki, kd), KnnSetting()); }
size_t trait_stree_knn(const STree& t, const V4& q, size_t k, size_t* ki, double* kd) { return search(t.kdtree, q, KnnResult<-1>(ki, kd, k), KnnSetting()); }
size_t trait_stree_nn(const STree& t, const V4& q, size_t* ki, double* kd) { return search(t.kdtree, q, KnnResult<1>(ki, kd), KnnSetting()); }

// ---- kd-tree construction
template <class B, class N, class It> NodeIndexType grow(const B& b, UTree& t, N& count, const Cloud& c, It base, It f, It l) {
  const size_t n = l - f;
  const NodeIndexType me = (size_t)count;
  count = count + 1;
  if (n <= (size_t)b.max_leaf_size) {
    t.nodes[me].node_type.lr.first = f - base;
    t.nodes[me].node_type.lr.last = l - base;
    return me;
  }
  const Projection p = Projection::find_axis(c, f, l, b.projection_setting);
  const It m = f + n / 2;
  std::nth_element(f, m, l, [&](size_t i, size_t j) { return p(traits::point(c, i)) < p(traits::point(c, j)); });
  t.nodes[me].node_type.sub.proj = p;
  t.nodes[me].node_type.sub.thresh = p(traits::point(c, *m));
  t.nodes[me].left = grow(b, t, count, c, base, f, m);
  t.nodes[me].right = grow(b, t, count, c, base, m, l);
  return me;
}
struct Nothing { template <class T, class C> void build_tree(T&, const C&) const {} };
template <class B> UTree tree_of(const Cloud& c, const B& b) {
  UTree t(c, Nothing());
  const size_t n = traits::size(c);
  if (n == 0) return t;
  t.indices.resize(n);
  for (size_t i = 0; i < n; i++) t.indices[i] = i;
  size_t count = 0;
  t.nodes.resize(2 * n - 1);
  t.root = grow(b, t, count, c, t.indices.begin(), t.indices.begin(), t.indices.end());
  t.nodes.resize(count);
  return t;
}
UTree build_serial(const Cloud& c, const KdTreeBuilder& b) { assume(b.max_leaf_size >= 1); return tree_of(c, b); }
UTree build_omp(const Cloud& c, const KdTreeBuilderOMP& b) { assume(b.max_leaf_size >= 1); return tree_of(c, b); }
UTree build_tbb(const Cloud& c, const KdTreeBuilderTBB& b) { assume(b.max_leaf_size >= 1); return tree_of(c, b); }
NodeIndexType node_serial(const KdTreeBuilder& b, UTree& t, size_t& n, const Cloud& c, size_t f, size_t l) { assume(b.max_leaf_size >= 1); assume(f <= l); return grow(b, t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
NodeIndexType node_omp(const KdTreeBuilderOMP& b, UTree& t, std::atomic_uint64_t& n, const Cloud& c, size_t f, size_t l) { assume(b.max_leaf_size >= 1); assume(f <= l); return grow(b, t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
NodeIndexType node_tbb(const KdTreeBuilderTBB& b, UTree& t, std::atomic_uint64_t& n, const Cloud& c, size_t f, size_t l) { assume(b.max_leaf_size >= 1); assume(f <= l); return grow(b, t, n, c, t.indices.begin(), t.indices.begin() + f, t.indices.begin() + l); }
bool tree_visit(const UTree& t, const V4& q, NodeIndexType n, KR<-1>& r, const KnnSetting& s) { return visit(t, q, n, r, s); }
bool tree_visit_4(const UTree& t, const V4& q, NodeIndexType n, KR<4>& r, const KnnSetting& s) { return visit(t, q, n, r, s); }
KdTreeBuilder builder_default() { KdTreeBuilder b; b.max_leaf_size = 20; b.projection_setting.max_scan_count = 128; return b; }
KdTreeBuilderOMP builder_omp(int n) { KdTreeBuilderOMP b; b.num_threads = n; b.max_leaf_size = 20; b.projection_setting.max_scan_count = 128; return b; }
KdTreeBuilderTBB builder_tbb() { KdTreeBuilderTBB b; b.max_leaf_size = 20; b.projection_setting.max_scan_count = 128; return b; }
struct Moments { V4 sum; Eigen::Matrix4d sq; };
inline Moments moments(const Cloud& c, const size_t* f, const size_t* l, const ProjectionSetting& s) {
  assume(s.max_scan_count >= 1);
  assume(l - f >= 1);
  const size_t n = l - f;
  const size_t step = n < (size_t)s.max_scan_count ? 1 : n / s.max_scan_count;
  Moments m{V4::Zero(), Eigen::Matrix4d::Zero()};
  for (size_t i = 0; i < n / step; i++) {
    const V4 p = traits::point(c, f[i * step]);
    m.sum += p;
    m.sq += p * p.transpose();
  }
  return m;
}
AxisAlignedProjection axis_find(const Cloud& c, const size_t* f, const size_t* l, const ProjectionSetting& s) {
  assume(s.max_scan_count >= 1);
  assume(l - f >= 1);
  const size_t n = l - f;
  const size_t step = n < (size_t)s.max_scan_count ? 1 : n / s.max_scan_count;
  V4 m = V4::Zero(), q = V4::Zero();
  for (size_t i = 0; i < n / step; i++) {
    const V4 p = traits::point(c, f[i * step]);
    m += p;
    for (int j = 0; j < 4; j++) q[j] += p[j] * p[j];
  }
  double v[3];
  for (int i = 0; i < 3; i++) v[i] = q[i] - m[i] * m[i] / m[3];
  return AxisAlignedProjection{v[0] > v[1] ? (v[0] > v[2] ? 0 : 2) : (v[1] > v[2] ? 1 : 2)};
}
NormalProjection normal_find(const Cloud& c, const size_t* f, const size_t* l, const ProjectionSetting& s) {
  const Moments m = moments(c, f, l, s);
  Eigen::Matrix3d cov;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) cov(i, j) = (m.sq(i, j) - m.sum[i] * m.sum[j] / m.sum[3]) / m.sum[3];
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> e;
  e.computeDirect(cov);
  NormalProjection p;
  for (int i = 0; i < 3; i++) p.normal[i] = e.eigenvectors()(i, 2);
  return p;
}
double axis_project(const AxisAlignedProjection& p, const V4& q) { return q[p.axis]; }
double normal_project(const NormalProjection& p, const V4& q) { return p.normal[0] * q[0] + p.normal[1] * q[1] + p.normal[2] * q[2]; }

// ---- projective search
inline int pix(double x) { return (int)x; }
using IMap = Eigen::Matrix<std::uint32_t, -1, -1>;
IMap proj_build(int w, int h, const Cloud& c) {
  IMap m(h, w);
  m.setConstant(std::numeric_limits<std::uint32_t>::max());
  for (size_t i = 0; i < traits::size(c); i++) {
    const V4 p = traits::point(c, i);
    const Eigen::Vector2d uv = Projection2()(Eigen::Vector3d(p[0], p[1], p[2]));
    const int x = pix(uv[0] * m.cols()), y = pix(uv[1] * m.rows());
    if (x >= 0 && y >= 0 && x < m.cols() && y < m.rows()) m(y, x) = i;
  }
  return m;
}
int proj_window_h(int w, int h, const Cloud& c) { return 10; }
int proj_window_v(int w, int h, const Cloud& c) { return 5; }
const Cloud* proj_cloud(int w, int h, const Cloud& c) { return &c; }
template <class R> size_t scan(const UProj& t, const V4& q, R&& r, const KnnSetting& s) {
  const int W = t.index_map.cols(), H = t.index_map.rows();
  const Eigen::Vector2d uv = Projection2()(Eigen::Vector3d(q[0], q[1], q[2]));
  const int x0 = pix(uv[0] * W), y0 = pix(uv[1] * H);
  for (int dy = -t.search_window_v; dy <= t.search_window_v; dy++) {
    const int y = Border()(y0 + dy, H);
    if (y < 0 || y >= H) continue;
    for (int dx = -t.search_window_h; dx <= t.search_window_h; dx++) {
      const int x = Border()(x0 + dx, W);
      if (x < 0 || x >= W) continue;
      const std::uint32_t i = t.index_map(y, x);
      if (i == std::numeric_limits<std::uint32_t>::max()) continue;
      r.push(i, sqd(traits::point(t.points, i), q));
      if (r.worst_distance() < s.epsilon) return r.num_found();
    }
  }
  return r.num_found();
}
size_t proj_knn(const UProj& t, const V4& q, int k, size_t* ki, double* kd, const KnnSetting& s) { return scan(t, q, KnnResult<-1>(ki, kd, k), s); }
size_t proj_knn_4(const UProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return scan(t, q, KnnResult<4>(ki, kd), s); }
size_t proj_nn(const UProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return scan(t, q, KnnResult<1>(ki, kd), s); }
size_t sproj_knn(const SProj& t, const V4& q, size_t k, size_t* ki, double* kd, const KnnSetting& s) { return scan(t.search, q, KnnResult<-1>(ki, kd, k), s); }
size_t sproj_nn(const SProj& t, const V4& q, size_t* ki, double* kd, const KnnSetting& s) { return scan(t.search, q, KnnResult<1>(ki, kd), s); }
size_t trait_proj_knn(const UProj& t, const V4& q, size_t k, size_t* ki, double* kd) { return scan(t, q, KnnResult<-1>(ki, kd, k), KnnSetting()); }
size_t trait_proj_nn(const UProj& t, const V4& q, size_t* ki, double* kd) { return scan(t, q, KnnResult<1>(ki, kd), KnnSetting()); }
size_t trait_sproj_knn(const SProj& t, const V4& q, size_t k, size_t* ki, double* kd) { return scan(t.search, q, KnnResult<-1>(ki, kd, k), KnnSetting()); }
size_t trait_sproj_nn(const SProj& t, const V4& q, size_t* ki, double* kd) { return scan(t.search, q, KnnResult<1>(ki, kd), KnnSetting()); }
int border_clamp(int x, int w) { return x; }
int border_repeat(int x, int w) { return x < 0 ? x + w : x >= w ? x - w : x; }
Eigen::Vector2d equirect(const Eigen::Vector3d& p) {
  const double n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
  if (n2 < 1e-3) return Eigen::Vector2d(0.5, 0.5);
  const double n = std::sqrt(n2);
  return Eigen::Vector2d(std::atan2(p[0] / n, p[2] / n) / (2.0 * M_PI) + 0.5, -std::asin(p[1] / n) / M_PI + 0.5);
}
}  // namespace vps
