#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
I = "include/small_gicp/"
p("C01", "Parallel regions are free of data races",
  "No two threads started by one library call (OpenMP or TBB variants of reduction, downsampling, sorting, kd-tree building, feature estimation, and the batch search of the Python binding) access the same memory location with at least one write and without synchronisation. Every write in a concurrently executed body goes to data private to the iteration or task, to a slot selected by that iteration or thread alone, or through an atomic or a declared reduction, and nested tasks finish before data they use goes out of scope.",
  ["schedules"], "all thread counts, schedules and task interleavings of every parallel entry point",
  "Tests run a few schedules on few threads; a race rarely changes the asserted result.",
  [I+"registration/reduction_omp.hpp", I+"registration/reduction_tbb.hpp", I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp", I+"util/normal_estimation_omp.hpp", I+"util/normal_estimation_tbb.hpp", I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp", I+"util/sort_omp.hpp", I+"util/sort_tbb.hpp", "src/python/kdtree.cpp"],
  [("omp parallel for / task / single", "reduction_omp.hpp, downsampling_omp.hpp, normal_estimation_omp.hpp, kdtree_omp.hpp, sort_omp.hpp"), ("tbb::parallel_for / parallel_reduce / parallel_invoke bodies", "reduction_tbb.hpp, downsampling_tbb.hpp, normal_estimation_tbb.hpp, kdtree_tbb.hpp, sort_tbb.hpp")])
p("C02", "Search and read-only operations do not modify shared state",
  "Nearest-neighbour queries, attribute reads, error evaluation and alignment leave the searched structure, the target and source clouds and the registration settings unchanged and keep no hidden state between calls. Two queries on the same object may therefore run concurrently, and a query's answer depends only on its arguments and the object's contents.",
  ["schedules", "histories"], "any number of concurrent or repeated read-only calls on one object, in any order",
  "Tests query from one thread and never compare answers across call histories.",
  [I+"ann/kdtree.hpp", I+"ann/projective_search.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/flat_container.hpp", I+"ann/gaussian_voxelmap.hpp", I+"registration/registration.hpp", I+"factors/gicp_factor.hpp"],
  [("const member functions, no mutable/static/global state, no const_cast", "all headers")])
p("C03", "Reductions sum every inlier factor exactly once",
  "For any number of factors and threads, the serial, OpenMP and TBB reductions return as information matrix, vector and error exactly the sums over all factors whose linearisation succeeded, and as trial error the sum over all factors, starting from zero; a factor that reports failure contributes nothing. Each factor is linearised exactly once, with its own index.",
  ["inputs", "schedules", "configurations"], "all factor counts (including 0), thread counts, range splits and accept/reject patterns",
  "Tests compare final poses within tolerances, so a lost or doubled slot, join or tail element goes unnoticed.",
  [I+"registration/reduction.hpp", I+"registration/reduction_omp.hpp", I+"registration/reduction_tbb.hpp"],
  [("sum loops, per-thread slots and their merge, split constructor and join", "linearize(), error(), LinearizeSum, ErrorSum")])
p("C04", "Factor correspondence protocol",
  "Linearising a point factor forgets the previous correspondence first; it succeeds only if the nearest-neighbour search on the transformed source point found a point and the rejector (given both clouds, the pose, both indices and the found squared distance) does not reject it. On success the factor is an inlier remembering exactly that source and target index and has written all three outputs; on failure it is not an inlier, writes none of them, and its later error is zero.",
  ["inputs", "histories"], "every sequence of linearisations and error evaluations over any search results and rejector decisions",
  "Tests check end poses only; stale correspondences after a rejection change them too little to be noticed.",
  [I+"factors/icp_factor.hpp", I+"factors/plane_icp_factor.hpp", I+"factors/gicp_factor.hpp", I+"factors/robust_kernel.hpp"],
  [("index reset, search, rejection, index recording", "linearize()"), ("not-inlier guard", "error(), inlier()")])
p("C05", "Linearised systems match the error they linearise",
  "For every point factor, the reported error at the linearisation pose equals the error later evaluated at the same pose with the same correspondence, the reported vector is the exact derivative of that error with respect to a right-multiplied pose increment ordered rotation first then translation, and the reported matrix is the Gauss-Newton matrix of the same residual. The error is half the squared (for point-to-plane: normal-weighted componentwise; for distribution-to-distribution: fused-covariance-weighted) difference between the target point and the transformed source point.",
  ["inputs"], "all poses, points, normals and covariances",
  "Tests sample a few scans; a wrong sign or block in a Jacobian still converges on easy data.",
  [I+"factors/icp_factor.hpp", I+"factors/plane_icp_factor.hpp", I+"factors/gicp_factor.hpp", I+"util/lie.hpp"],
  [("residual, Jacobian blocks, H/b/e", "linearize()"), ("error", "error()")])
p("C06", "Robust kernels weight matrix, vector and error alike",
  "A robust factor multiplies information matrix, vector and error of the wrapped factor by one and the same kernel weight evaluated at the square root of the wrapped factor's error, both when linearising and when evaluating the error, and is an inlier exactly when the wrapped factor is. The Huber weight is 1 below the width and width/|e| from there on; the Cauchy weight is width/(width+e^2); settings given for kernel and factor reach them.",
  ["inputs", "configurations"], "all errors, kernel widths and wrapped factors",
  "Tests only check that robust alignment still converges.",
  [I+"factors/robust_kernel.hpp"], [("weighting", "RobustFactor::linearize/error"), ("kernels", "Huber::weight, Cauchy::weight")])
p("C07", "Optimisers only accept steps as specified and report the final state",
  "The Levenberg-Marquardt optimiser replaces the pose only by a step whose total error (point factors plus general factor) is not larger than the current one, raises damping by its factor after a rejected and lowers it after an accepted trial, and stops when no trial succeeds; both optimisers perform at most the configured number of iterations, stop once converged, and apply the increment on the right of the pose. The result carries the last accepted pose, the matrix, vector and error of the last linearisation (error updated on acceptance), the iteration index, convergence only as judged by the termination criteria on an applied step, and the count of inlier factors.",
  ["inputs", "histories", "configurations"], "all linear systems, error sequences, limits and general factors",
  "Tests use data on which every step is accepted; rejection, exhaustion and result bookkeeping are not asserted.",
  [I+"registration/optimizer.hpp", I+"registration/registration_result.hpp"], [("iteration and acceptance", "GaussNewtonOptimizer::optimize, LevenbergMarquardtOptimizer::optimize")])
p("C08", "Increment layout is consistent across criteria and degree-of-freedom masks",
  "All components that interpret the six-vector increment agree that the first three entries are rotation and the last three translation: convergence requires the rotation part within the rotation tolerance and the translation part within the translation tolerance, both inclusive, and the degree-of-freedom restriction adds a penalty exactly to the diagonal entries of masked-out axes, none to free ones. The distance rejector rejects exactly correspondences beyond the configured squared distance.",
  ["inputs", "configurations"], "all increments, tolerances, masks and distances",
  "Tests never use asymmetric tolerances or masks that expose swapped blocks.",
  [I+"registration/termination_criteria.hpp", I+"factors/general_factor.hpp", I+"registration/rejector.hpp"],
  [("converged()", "termination_criteria.hpp"), ("update_linearized_system(), set_*_mask()", "general_factor.hpp"), ("operator()", "rejector.hpp")])
p("C09", "Exponential maps follow the group definition on both branches",
  "The skew operator yields the cross-product matrix, the rotation exponential yields the unit quaternion of the rotation vector, and the rigid-motion exponential combines that rotation with the left-Jacobian image of the translation part, on the regular and on the small-angle branch. Every input takes a branch whose denominators cannot be zero.",
  ["inputs"], "all six-vectors including zero and tiny rotations",
  "Tests compare at random samples which almost never enter the small-angle branch.",
  [I+"util/lie.hpp"], [("skew, so3_exp, se3_exp", "lie.hpp")])
p("C10", "Every registration setting of the C++ helpers takes effect",
  "Each field of the registration setting and each argument of the C++ convenience functions (registration type, voxel and downsampling resolution, correspondence distance, rotation and translation tolerance, thread count, iteration limit, verbosity, neighbour count, initial guess) reaches the component it configures, unswapped and for every registration type it applies to. Target and source are never exchanged on the way.",
  ["configurations"], "all settings and all registration types of the helper API",
  "Tests run default-like settings, for which a dropped field is invisible.",
  ["src/small_gicp/registration/registration_helper.cpp", I+"registration/registration_helper.hpp"], [("align(), preprocess_points(), create_gaussian_voxelmap()", "registration_helper.cpp")])
p("C11", "Every argument of the Python API takes effect",
  "Each argument of the Python functions for alignment, preprocessing, downsampling, feature estimation, tree building and searching reaches the component it configures, unswapped, on every registration-type and thread-count branch; target and source are never exchanged. An argument left out has its documented default.",
  ["configurations"], "all argument values and branches of the Python functions",
  "Python tests are not part of the built suite and use defaults.",
  ["src/python/align.cpp", "src/python/preprocess.cpp", "src/python/kdtree.cpp", "src/python/voxelmap.cpp"], [("lambda bodies registered with pybind11", "define_*()")])
p("C12", "The PCL interface never aligns against stale derived data",
  "After a target, source, covariance set or voxel resolution of the PCL registration object is replaced, or target and source are swapped or cleared, no later alignment uses search trees, covariances or voxel maps derived from the previous value. Setters store the value they are given, reject invalid ones based on the argument, and every stored setting reaches the registration it configures.",
  ["histories", "configurations"], "every sequence of setter, swap, clear and align calls",
  "Tests set clouds once and align once per object.",
  [I+"pcl/pcl_registration_impl.hpp", I+"pcl/pcl_registration.hpp"], [("set*/swapSourceAndTarget/clear*, computeTransformation", "pcl_registration_impl.hpp")])
p("C13", "Voxel coordinates are packed injectively and out-of-range points dropped",
  "In all three voxel-grid implementations two points share a voxel key exactly if their floored, offset coordinates agree on all three axes, for every coordinate in the representable 21-bit range, boundaries included. Points outside that range get a key no valid voxel has and never contribute to or appear in the output.",
  ["inputs"], "all point coordinates and leaf sizes, including the range boundaries and sets whose smallest key is invalid",
  "Tests use indoor scans far from the range limits.",
  [I+"util/downsampling.hpp", I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp", I+"util/fast_floor.hpp"], [("key computation and range test", "voxelgrid_sampling*, fast_floor")])
p("C14", "Voxel-grid downsampling averages each voxel group",
  "After sorting by voxel key each maximal run of equal keys (within a block for the parallel variants) yields one output point, the sum of all its points normalised by the accumulated homogeneous coordinate; the first and last run of a block are included, no point is counted twice, and the output is sized to the number of points emitted. An empty input yields an empty output.",
  ["inputs", "schedules"], "all point sets, key distributions and block boundaries",
  "Tests bound the output size ratio and neighbourhood only loosely.",
  [I+"util/downsampling.hpp", I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp"], [("run accumulation and flush, reservation of output slots, final resize", "voxelgrid_sampling*")])
p("C15", "Kd-tree builders produce a correct partition",
  "For every non-empty cloud and leaf size the serial, OpenMP and TBB builders create a tree whose leaves partition all point indices, whose inner nodes carry the projection and threshold their children were split by (left not above, right not below), whose two children cover exactly the parent's range, and whose node storage is never exceeded and finally holds exactly the nodes created. The configured leaf size, projection settings and thread count are honoured.",
  ["inputs", "configurations", "schedules"], "all clouds, leaf sizes, projections and thread counts",
  "Tests use the default leaf size, for which the node storage bound and range edges are slack.",
  [I+"ann/kdtree.hpp", I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp"], [("build_tree, create_node", "KdTreeBuilder*")])
p("C16", "Kd-tree search is exact",
  "A k-nearest-neighbour query visits every leaf that can contain a point closer than the current k-th best: a subtree is skipped only if the squared distance to its splitting plane is not below the worst distance held, or the early-termination setting is fulfilled. Every point of a visited leaf is offered with its own index and its squared Euclidean distance, and an empty tree yields zero neighbours.",
  ["inputs"], "all clouds, queries, neighbour counts and early-termination settings",
  "Tests compare against brute force for sampled queries only.",
  [I+"ann/kdtree.hpp"], [("recursive knn_search, nearest_neighbor_search", "UnsafeKdTree")])
p("C17", "Nearest-neighbour results stay sorted, consistent and within their buffers",
  "For every sequence of offered candidates the result buffers hold the k smallest distances in ascending order with the index belonging to each, the count of found neighbours never exceeds the buffer, unused slots stay at their sentinel values, and nothing outside the buffers is written. Indices are translated exactly once when inserted.",
  ["inputs", "histories"], "all candidate sequences, buffer sizes and index translations, including ties and fewer candidates than slots",
  "Tests check whole-tree queries, not arbitrary insertion orders or partial fills.",
  [I+"ann/knn_result.hpp"], [("constructor, push, worst_distance, num_found", "KnnResult")])
p("C18", "Empty and degenerate inputs are handled without reading or writing out of range",
  "Downsampling, random sampling, feature estimation, tree construction, searching, voxel-map insertion and sorting accept empty inputs: none of them reads an element, node or front of an empty container, and searches on empty structures report zero neighbours.",
  ["inputs"], "all entry points on empty point sets or structures",
  "Tests cover one empty-cloud construction and no empty search.",
  [I+"ann/kdtree.hpp", I+"ann/flat_container.hpp", I+"util/downsampling.hpp", I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp", I+"util/sort_tbb.hpp", "src/python/pointcloud.cpp", "src/python/voxelmap.cpp"], [("empty guards", "entry points")])
p("C19", "The incremental voxel map's lookup and storage agree",
  "After any sequence of insertions each voxel coordinate maps to exactly the stored voxel with that coordinate, every inserted point goes into the voxel of its transformed, floored coordinate, and each touched voxel records the current use time. Voxels unused for longer than the configured horizon are removed only at the configured cycle, with the lookup rebuilt for all survivors, and every remaining voxel is finalised before insertion returns.",
  ["histories", "inputs", "configurations"], "all insertion sequences, poses, horizons and cycles",
  "Tests insert once or twice and never reach eviction with later lookups.",
  [I+"ann/incremental_voxelmap.hpp"], [("insert()", "IncrementalVoxelMap")])
p("C20", "Voxel-map search covers exactly the configured neighbourhood",
  "Setting 1, 7 or 27 search offsets, in any order and repeatedly, leaves exactly that many distinct offsets (centre; centre and six face neighbours; the full 3x3x3 cube), any other number the centre only. A query examines every existing voxel at those offsets from the query's voxel exactly once, and returned indices encode that voxel and the point within it so that both can be recovered.",
  ["inputs", "histories", "configurations"], "all queries, map contents and sequences of offset settings",
  "Tests set the pattern once on a fresh map.",
  [I+"ann/incremental_voxelmap.hpp"], [("set_search_offsets, nearest_neighbor_search, knn_search, calc_index, voxel_id, point_id", "IncrementalVoxelMap")])
p("C21", "Gaussian voxels hold the mean of everything ever added",
  "Whatever the interleaving of additions and finalisations, a finalised Gaussian voxel holds the average of all points added so far and the average of their rotated covariances, finalising twice changes nothing, and adding after finalising continues from the accumulated sums.",
  ["histories", "inputs"], "all sequences of add and finalize calls",
  "Tests insert in one batch; re-opening a finalised voxel is not asserted.",
  [I+"ann/gaussian_voxelmap.hpp"], [("add(), finalize()", "GaussianVoxel")])
p("C22", "Point-list voxels respect capacity and spacing with attributes in step",
  "A point-list voxel never holds more points than its configured maximum nor two points closer than the configured minimum distance; a point is added in all other cases. Points, normals and covariances always have equal length and belong together, normals and covariances being transformed by the insertion pose, and a search offers every held point.",
  ["histories", "inputs", "configurations"], "all sequences of additions, settings and attribute combinations",
  "Tests check overall counts, not the boundary or attribute alignment.",
  [I+"ann/flat_container.hpp"], [("add(), knn_search()", "FlatContainer")])
p("C23", "Feature estimation sets each point's features once, from its own neighbours",
  "The serial, OpenMP and TBB variants visit every point exactly once and write only that point's features: the designated invalid value if fewer than five neighbours were found, otherwise values derived from mean and covariance of exactly the neighbours found. Attribute storage is sized before use, the neighbour count, tree and thread count given are the ones used, and normals face the origin.",
  ["inputs", "configurations", "schedules"], "all clouds, neighbour counts, trees and thread counts",
  "Tests sample a few clouds where at least the requested neighbours exist.",
  [I+"util/normal_estimation.hpp", I+"util/normal_estimation_omp.hpp", I+"util/normal_estimation_tbb.hpp"], [("estimate_local_features*, NormalSetter, CovarianceSetter, NormalCovarianceSetter", "normal_estimation*.hpp")])
p("C24", "Point cloud attributes stay in step and homogeneous",
  "Resizing a point cloud resizes points, normals and covariances together, construction from 3D or 4D coordinates copies every point with homogeneous coordinate one, and each attribute accessor and setter, through the class or the generic interface (for the library's own clouds, plain matrices, PCL clouds and the PCL covariance proxy), touches the requested element of the requested attribute. Generated normals have a zero fourth component and generated covariances a zero fourth row and column.",
  ["inputs", "histories"], "all clouds, indices and attribute operations",
  "Tests fill clouds one way and read them back through the same path.",
  [I+"points/point_cloud.hpp", I+"points/traits.hpp", I+"points/eigen.hpp", I+"util/normal_estimation.hpp", I+"pcl/pcl_point_traits.hpp", I+"pcl/pcl_proxy.hpp"], [("PointCloud, Traits<PointCloud>, Traits<MatrixXd>, pcl traits", "points/*, pcl/*")])
p("C25", "Safe search structures own what they reference",
  "The owning kd-tree and projective search keep the point cloud they index alive for as long as they exist and search exactly that cloud; their inner unsafe structure never refers to a temporary. Functions returning a structure together with its points return matching pairs.",
  ["histories"], "all lifetimes and copies of handles to the cloud",
  "Tests keep the cloud alive themselves.",
  [I+"ann/kdtree.hpp", I+"ann/projective_search.hpp", "src/small_gicp/registration/registration_helper.cpp", "src/python/kdtree.cpp"], [("shared_ptr member declared before the inner structure", "KdTree, ProjectiveSearch")])
p("C26", "Projective search stays inside its index map",
  "Building a projective search records points only at pixels inside the map, and a query reads only pixels inside the map: the window around the projected query, per-axis border handling applied, pixels out of range skipped. Each non-empty pixel in the window is offered with its point index and squared distance until early termination is fulfilled.",
  ["inputs", "configurations"], "all clouds, queries, map sizes, windows, projections and border modes",
  "Tests use one map size and points well inside it.",
  [I+"ann/projective_search.hpp"], [("constructor, knn_search, BorderRepeat, BorderClamp", "UnsafeProjectiveSearch")])
p("C27", "Point file readers and writers stay inside their buffers",
  "Reading a binary point or PLY file never writes beyond the buffer sized for it, whatever the number of points or per-point properties declared, and yields one point per record with homogeneous coordinate one for PLY; writing then reading returns the same number of records. A file that cannot be opened or lacks the coordinates yields no points.",
  ["inputs"], "all file lengths and header declarations",
  "Tests read one bundled data set with three properties.",
  [I+"benchmark/read_points.hpp"], [("read_points, write_points, read_ply", "read_points.hpp")])
p("C28", "Python accessors never touch memory out of range",
  "Element accessors of the Python point cloud and voxel-map classes raise an error for an index outside the cloud, and array-returning accessors of empty objects return empty arrays instead of forming an element reference. Searches from Python return exactly as many results as were found or a documented placeholder.",
  ["inputs"], "all indices and all cloud sizes including zero",
  "Python tests are not part of the built suite; out-of-range access is not exercised.",
  ["src/python/pointcloud.cpp", "src/python/voxelmap.cpp", "src/python/kdtree.cpp"], [("accessor lambdas", "define_pointcloud, define_voxelmap, define_kdtree")])
p("C29", "Parallel sorts sort the whole range",
  "The OpenMP merge sort and quick sort and the TBB radix sort leave exactly the input elements in order of the comparator or key for every length: sub-ranges handed to tasks plus the part already in final position cover the range without overlap, merging waits for both halves, every key digit is processed, and the sorted data ends in the caller's range for any number of passes.",
  ["inputs", "schedules", "configurations"], "all lengths (including 0 and non-multiples of tile sizes), keys, comparators and thread counts",
  "Tests sort random arrays of a few sizes.",
  [I+"util/sort_omp.hpp", I+"util/sort_tbb.hpp"], [("merge_sort_omp_impl, quick_sort_omp_impl, radix_sort_tbb", "sort_*.hpp")])
p("C30", "Random sampling draws distinct points of the requested number",
  "Random sampling returns min(requested, available) points, each a different input point copied unchanged, using only the generator passed in; an empty input yields an empty output.",
  ["inputs"], "all clouds, sample counts and generators",
  "Tests check the count for a few values.",
  [I+"util/downsampling.hpp"], [("random_sampling", "downsampling.hpp")])
p("C31", "Flooring and voxel hashing agree with voxel equality",
  "The integer flooring used for voxel coordinates returns the largest integer not above the value for negative, positive and exactly integral values on every axis alike, and equal voxel coordinates always have equal hashes; distinct coordinates are never treated as equal.",
  ["inputs"], "all representable coordinates",
  "Tests use a few values and cannot cover all sign and integrality cases per axis.",
  [I+"util/fast_floor.hpp", I+"util/vector3i_hash.hpp"], [("fast_floor, XORVector3iHash", "util/")])
p("C32", "Search facades forward queries unchanged",
  "Every search entry point (class method, owning wrapper, generic interface, voxel container) forwards query, neighbour count, output buffers and search setting unchanged to the underlying search and returns its count; results are written only to the caller's buffers.",
  ["inputs", "configurations"], "all entry points, neighbour counts and settings",
  "Tests call one entry point per structure with default settings.",
  [I+"ann/kdtree.hpp", I+"ann/projective_search.hpp", I+"ann/flat_container.hpp", I+"ann/gaussian_voxelmap.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/traits.hpp"], [("wrappers and Traits<> specialisations", "ann/")])
p("C33", "Registration wires its components together unchanged",
  "Aligning creates exactly one factor per source point, built from the configured factor setting, and hands target, source, search structure, rejector, criteria, reduction, initial pose and general factor to the optimiser in their roles; the optimiser linearises at the current pose and evaluates trial errors at the trial pose with the same clouds and factors. A fresh result carries the initial pose and is not converged.",
  ["inputs", "configurations"], "all cloud sizes, settings and component types",
  "Tests use one instantiation per component and assert only the pose.",
  [I+"registration/registration.hpp", I+"registration/optimizer.hpp", I+"registration/registration_result.hpp"], [("Registration::align", "registration.hpp")])
p("C34", "Python arrays and point clouds convert row by row",
  "Constructing clouds from N x 3 or N x 4 arrays in Python copies every row in order to the point of the same index with homogeneous coordinate one for three-column input and rejects other shapes; batch searches store the result of query i in row i. Poses are passed to and from Python as full 4 x 4 matrices.",
  ["inputs"], "all array sizes and both column counts",
  "Python tests are not part of the built suite.",
  ["src/python/pointcloud.cpp", "src/python/align.cpp", "src/python/preprocess.cpp", "src/python/kdtree.cpp"], [("conversion loops", "constructors and batch searches")])
p("C38", "Computed quantities keep their width",
  "Coordinates, distances, residuals, weights, thresholds, covariances and poses are computed and stored in double precision from input to result: no computed double is rounded to float on its way (PCL's own float points and matrices at the PCL boundary excepted), and no computed counter, index, key or time stamp is stored in, counted in or cut to an integer of fewer than 32 bits.",
  ["inputs"], "all inputs; every function of the library the analysed instantiations contain",
  "Rounding and wrap-around show only far from the origin, for small tolerances or after many insertions, beyond what the test clouds reach.",
  [I+"ann", I+"factors", I+"registration", I+"util", "src"], [("all functions", "conversions and accumulations")])
p("C39", "Results depend on the arguments alone",
  "No operation of the library takes in time, entropy, environment variables, process or machine configuration, and none keeps modifiable state between calls in a global, static or thread-local variable; random sampling draws only from the generator it is given. Repeating a call with equal arguments repeats its result.",
  ["inputs", "histories"], "all operations except the benchmark utilities",
  "A test sees one process and one history; it cannot tell a hidden input from a constant.",
  [I+"ann", I+"factors", I+"registration", I+"util", I+"points", "src"], [("all functions", "calls and variables with static storage")])
p("C40", "Headers can be included in several translation units",
  "Every function and variable that a header of the library defines is a template, inline, constexpr or of internal linkage, so that a program may include any header in any number of its translation units without duplicate definitions.",
  ["configurations"], "all headers except the visualiser parts of the benchmark helpers",
  "Each test program includes a header in a single translation unit.",
  [I+"ann", I+"factors", I+"registration", I+"util", I+"points", I+"pcl"], [("all headers", "definitions")])
p("C35", "Registration is accurate and converges from nearby initial guesses",
  "For overlapping scans and an initial guess inside the convergence basin, alignment returns a pose within tolerance of the true relative pose for every registration type.",
  ["inputs"], "all overlapping scan pairs and initial guesses in the basin",
  "Tests sample a handful of scan pairs.",
  [I+"registration/optimizer.hpp"], [("optimisation loop", "optimizer.hpp")])
p("C36", "Serial and parallel variants agree numerically",
  "Serial, OpenMP and TBB variants of downsampling, feature estimation, tree building and reduction yield the same results up to floating-point summation order.",
  ["inputs", "schedules"], "all inputs and schedules",
  "Tests compare sampled inputs within tolerances.",
  [I+"util/downsampling_omp.hpp", I+"registration/reduction_omp.hpp"], [("sibling implementations", "*_omp.hpp, *_tbb.hpp")])
p("C37", "Estimated normals and covariances approximate the surface",
  "For points sampled from a smooth surface the estimated normal is within tolerance of the surface normal and the estimated covariance is flat along it.",
  ["inputs"], "all sampled surfaces",
  "Tests sample a few surfaces.",
  [I+"util/normal_estimation.hpp"], [("eigen decomposition", "estimate_local_features")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
