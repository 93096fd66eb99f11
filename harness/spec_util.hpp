// Downsampling and sorting.
#pragma once
namespace vpx {
using Keyed = std::pair<std::uint64_t, size_t>;
using std::vector;
using PCP = std::shared_ptr<PointCloud>;
}

namespace vpw {
using namespace vpx;
PCP grid_serial(const Cloud& c, double leaf) { return voxelgrid_sampling<Cloud, PointCloud>(c, leaf); }
PCP grid_omp(const Cloud& c, double leaf, int n) { return voxelgrid_sampling_omp<Cloud, PointCloud>(c, leaf, n); }
PCP grid_tbb(const Cloud& c, double leaf) { return voxelgrid_sampling_tbb<Cloud, PointCloud>(c, leaf); }
PCP sample(const Cloud& c, size_t n, std::mt19937& rng) { return random_sampling<Cloud, PointCloud>(c, n, rng); }
void sort_merge(vector<vp::Item>& v, const vp::Less& less, int n) { merge_sort_omp(v.begin(), v.end(), less, n); }
void sort_merge_part(vector<vp::Item>& v, size_t lo, size_t hi, const vp::Less& less) { merge_sort_omp_impl(v.begin() + lo, v.begin() + hi, less); }
void sort_quick(vector<vp::Item>& v, const vp::Less& less, int n) { quick_sort_omp(v.begin(), v.end(), less, n); }
void sort_quick_part(vector<vp::Item>& v, size_t lo, size_t hi, const vp::Less& less) { quick_sort_omp_impl(v.begin() + lo, v.begin() + hi, less); }
void sort_radix(vector<vp::Item>& v, const vp::KeyFn& key) { radix_sort_tbb(v.data(), v.data() + v.size(), key); }
void sort_radix_odd(vector<vp::Item>& v, const vp::KeyFn& key, RadixSortBuffers<vp::Item>& b) { radix_sort_tbb<vp::Item, vp::KeyFn, 11, 100>(v.data(), v.data() + v.size(), key, b); }
}  // namespace vpw

namespace vps {
using namespace vpx;
constexpr std::uint64_t nowhere = ~0ull;
// the cell of a point, packed into 63 bits; `nowhere` outside of the representable range
inline std::uint64_t packed(const V4& p, double leaf) {
  const Eigen::Array4i cell = fast_floor(p * (1.0 / leaf));
  bool out = false;
  for (int i = 0; i < 4; i++) out = out || cell[i] < -1048576 || cell[i] > 1048575;
  if (out) return nowhere;
  std::uint64_t key = 0;
  for (int i = 0; i < 3; i++) key = key | (std::uint64_t((cell[i] + 1048576) & 2097151) << (21 * i));
  return key;
}
inline vector<Keyed> keyed(const Cloud& c, double leaf) {
  vector<Keyed> k(traits::size(c));
  for (size_t i = 0; i < traits::size(c); i++) k[i] = Keyed(packed(traits::point(c, i), leaf), i);
  return k;
}
struct ByKey { bool operator()(const Keyed& a, const Keyed& b) const { return a.first < b.first; } };
PCP grid_serial(const Cloud& c, double leaf) {
  auto out = std::make_shared<PointCloud>();
  const size_t n = traits::size(c);
  if (n == 0) return out;
  assume(leaf > 0.0001);
  vector<Keyed> k = keyed(c, leaf);
  std::sort(k.begin(), k.end(), ByKey());
  if (k[0].first == nowhere) return out;
  traits::resize(*out, n);
  size_t m = 0;
  V4 sum = traits::point(c, k[0].second);
  for (size_t i = 1; i < n; i++) {
    if (k[i].first != nowhere) {
      if (k[i].first != k[i - 1].first) {
        out->points[m] = sum / sum[3];
        m++;
        sum = V4::Zero();
      }
      sum = sum + traits::point(c, k[i].second);
    }
  }
  out->points[m] = sum / sum[3];
  traits::resize(*out, m + 1);
  return out;
}
// the averages of the cells met in the sorted positions [begin, end)
inline void averages(const Cloud& c, const vector<Keyed>& k, size_t begin, size_t end, vector<V4>& avg) {
  V4 sum = traits::point(c, k[begin].second);
  for (size_t i = begin + 1; i != end; i++) {
    if (k[i].first != nowhere) {
      if (k[i].first != k[i - 1].first) {
        avg.push_back(sum / sum[3]);
        sum = V4::Zero();
      }
      sum = sum + traits::point(c, k[i].second);
    }
  }
  avg.push_back(sum / sum[3]);
}
inline PCP grid_blocks(const Cloud& c, double leaf, size_t block) {
  auto out = std::make_shared<PointCloud>();
  const size_t n = traits::size(c);
  if (n == 0) return out;
  assume(leaf > 0.0001);
  vector<Keyed> k = keyed(c, leaf);
  std::sort(k.begin(), k.end(), ByKey());
  traits::resize(*out, n);
  size_t m = 0;
  for (size_t b = 0; b < n; b += block) {
    if (k[b].first != nowhere) {
      vector<V4> avg;
      averages(c, k, b, std::min(n, b + block), avg);
      const size_t at = m;
      m += avg.size();
      for (size_t i = 0; i < avg.size(); i++) out->points[at + i] = avg[i];
    }
  }
  traits::resize(*out, m);
  return out;
}
PCP grid_omp(const Cloud& c, double leaf, int n) { return grid_blocks(c, leaf, 1024); }
PCP grid_tbb(const Cloud& c, double leaf) {
  auto out = std::make_shared<PointCloud>();
  const size_t n = traits::size(c);
  if (n == 0) return out;
  assume(leaf > 0.0001);
  vector<Keyed> k = keyed(c, leaf);
  std::sort(k.begin(), k.end(), ByKey());
  traits::resize(*out, n);
  size_t m = 0;
  tbb::parallel_for(tbb::blocked_range<size_t>(0, n, 2048), [&](const tbb::blocked_range<size_t>& r) {
    if (k[r.begin()].first != nowhere) {
      vector<V4> avg;
      averages(c, k, r.begin(), r.end(), avg);
      const size_t at = m;
      m += avg.size();
      for (size_t i = 0; i < avg.size(); i++) out->points[at + i] = avg[i];
    }
  });
  traits::resize(*out, m);
  return out;
}
void sort_merge(vector<vp::Item>& v, const vp::Less& less, int n) { std::sort(v.begin(), v.end(), less); }
void sort_quick(vector<vp::Item>& v, const vp::Less& less, int n) { std::sort(v.begin(), v.end(), less); }
void sort_merge_part(vector<vp::Item>& v, size_t lo, size_t hi, const vp::Less& less) { std::sort(v.begin() + lo, v.begin() + hi, less); }
void sort_quick_part(vector<vp::Item>& v, size_t lo, size_t hi, const vp::Less& less) { std::sort(v.begin() + lo, v.begin() + hi, less); }
// Least-significant-digit radix sort.  Per pass: count the digits of every tile, turn the
// counts into the position of the first element of (digit, tile), move the elements in order.
template <int bits, int tile>
void radix(vector<vp::Item>& v, const vp::KeyFn& key_, RadixSortBuffers<vp::Item>& buf) {
  const std::uint64_t n = v.size();
  if (n == 0) return;
  const std::uint64_t tiles = (n + tile - 1) / tile;
  constexpr int bins = 1 << bits;
  constexpr int passes = (32 + bits - 1) / bits;
  vector<std::uint64_t>& count = buf.tile_buckets;
  vector<std::uint64_t>& base = buf.global_offsets;
  count.resize(bins * tiles);
  base.resize(bins);
  buf.sorted_buffer.resize(n);
  vp::Item* in = v.data();
  vp::Item* out = buf.sorted_buffer.data();
  for (int pass = 0; pass < passes; pass++) {
    std::fill(count.begin(), count.end(), 0);
    tbb::parallel_for(tbb::blocked_range<std::uint64_t>(0, tiles, 4), [&](const tbb::blocked_range<std::uint64_t>& r) {
      for (std::uint64_t t = r.begin(); t != r.end(); t++) {
        for (std::uint64_t i = t * tile; i < std::min<std::uint64_t>(n, t * tile + tile); i++) {
          count[((key_(in[i]) >> (pass * bits)) & (bins - 1)) * tiles + t] += 1;
        }
      }
    });
    std::fill(base.begin(), base.end(), 0);
    for (int b = 1; b < bins; b++) base[b] = count[b * tiles - 1];
    tbb::parallel_for(tbb::blocked_range<std::uint64_t>(0, bins, 1), [&](const tbb::blocked_range<std::uint64_t>& r) {
      for (std::uint64_t b = r.begin(); b != r.end(); b++) {
        std::uint64_t last = count[b * tiles];
        count[b * tiles] = 0;
        for (std::uint64_t t = 1; t < tiles; t++) {
          const std::uint64_t c = count[b * tiles + t];
          count[b * tiles + t] = count[b * tiles + t - 1] + last;
          last = c;
        }
      }
    });
    for (int b = 1; b < bins; b++) base[b] = base[b] + base[b - 1] + count[b * tiles - 1];
    tbb::parallel_for(tbb::blocked_range<std::uint64_t>(0, tiles, 8), [&](const tbb::blocked_range<std::uint64_t>& r) {
      for (std::uint64_t t = r.begin(); t != r.end(); t++) {
        for (std::uint64_t i = t * tile; i < std::min<std::uint64_t>(n, t * tile + tile); i++) {
          const std::uint64_t d = (key_(in[i]) >> (pass * bits)) & (bins - 1);
          const std::uint64_t at = count[d * tiles + t];
          count[d * tiles + t] = at + 1;
          out[base[d] + at] = in[i];
        }
      }
    });
    vp::Item* x = in;
    in = out;
    out = x;
  }
  if (passes % 2) std::copy(buf.sorted_buffer.begin(), buf.sorted_buffer.end(), v.data());
}
void sort_radix(vector<vp::Item>& v, const vp::KeyFn& key) {
  RadixSortBuffers<vp::Item> b;
  radix<8, 256>(v, key, b);
}
void sort_radix_odd(vector<vp::Item>& v, const vp::KeyFn& key, RadixSortBuffers<vp::Item>& b) { radix<11, 100>(v, key, b); }
PCP sample(const Cloud& c, size_t n, std::mt19937& rng) {
  auto out = std::make_shared<PointCloud>();
  const size_t all = traits::size(c);
  if (all == 0) return out;
  const size_t m = n < all ? n : all;
  vector<size_t> ids(all);
  for (size_t i = 0; i < all; i++) ids[i] = i;
  vector<size_t> pick(m);
  std::sample(ids.begin(), ids.end(), pick.begin(), m, rng);
  traits::resize(*out, m);
  for (size_t i = 0; i < m; i++) out->points[i] = traits::point(c, pick[i]);
  return out;
}
}  // namespace vps
