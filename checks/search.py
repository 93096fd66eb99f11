"""Search structures: result container, kd-tree, projective search, facades."""
from engine.check import check
from .reg import SUM
from .api import team_sizes

CONT = dict(opaque=("push", "worst_distance", "num_found"))
KNN = ("knn_push_1", "knn_push_4", "knn_push_n", "knn_worst_4", "knn_worst_n", "knn_found_4", "knn_found_n", "knn_cap_4", "knn_cap_n", "knn_identity",
       "knn_fulfilled", "knn_fulfilled_4", "knn_default_eps", "knn_make_4", "knn_make_n")
TREE = ("tree_knn", "tree_knn_4", "tree_nn")
FACADE = ("stree_knn", "stree_nn", "trait_tree_knn", "trait_tree_nn", "trait_stree_knn", "trait_stree_nn")
VFACADE = ("gvt_nn", "gvt_knn", "gvt_offer", "gm_nn", "gm_knn", "gmt_nn", "gmt_knn") + tuple(k + "_" + n for k in ("fp", "fnc") for n in ("nn", "knn", "offer", "tnn", "tknn", "toffer"))
PFACADE = ("sproj_knn", "sproj_nn", "trait_proj_knn", "trait_proj_nn", "trait_sproj_knn", "trait_sproj_nn")

@check("C15")
def c15(c):
    c.rule("summary equals specification", SUM + " Recursive calls are put in correspondence by position; the builders are compared with a reference construction of the same tree.")
    for n in ("build_serial", "build_omp", "build_tbb", "node_serial", "node_omp", "node_tbb", "builder_default", "builder_omp", "builder_tbb", "axis_find", "normal_find", "axis_project", "normal_project"):
        c.pair(n)
    c.rule("team size", "The parallel region of the OpenMP builder has a team computed from its num_threads setting.")
    team_sizes(c, "core", "team size", only="ann/kdtree")
    c.floor("specified operations", 13)
    c.floor("parallel regions", 1)
    c.assumptions.append("max_leaf_size >= 1, max_scan_count >= 1; std::nth_element meets its contract; concurrent node creation numbers nodes in some order (order itself is not observable)")

@check("C16")
def c16(c):
    c.rule("summary equals specification", SUM + " The result container is opaque here (decided under C17); which candidates are offered, in which order, and when subtrees are skipped is compared.")
    for n in TREE + ("tree_visit", "tree_visit_4", "axis_project", "normal_project"):
        c.pair(n, **CONT)
    for n in ("knn_fulfilled", "knn_fulfilled_4"):
        c.pair(n)
    c.floor("specified operations", 9)

@check("C17")
def c17(c):
    c.rule("summary equals specification", SUM)
    for n in KNN:
        c.pair(n)
    c.floor("specified operations", 15)
    c.assumptions.append("result buffers have at least the announced capacity, capacity >= 1 (dynamic variant) and the buffer is sorted before a push")

@check("C26")
def c26(c):
    c.rule("summary equals specification", SUM + " The result container is opaque here.")
    for n in ("proj_build", "proj_window_h", "proj_window_v", "proj_knn", "proj_knn_4", "proj_nn", "border_clamp", "border_repeat", "equirect"):
        c.pair(n, **CONT)
    c.floor("specified operations", 9)

@check("C32")
def c32(c):
    c.rule("summary equals specification", SUM + " The result container is opaque here.")
    for n in FACADE + PFACADE:
        c.pair(n, **CONT)
    for n in VFACADE:
        c.pair(n)
    c.floor("specified operations", 12 + len(VFACADE))
