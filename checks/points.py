"""Point clouds, voxel contents, voxel maps, flooring and hashing."""
from engine.check import check
from engine.terms import *
from engine import equiv as E
from .reg import SUM

def names(s):
    return s.split()

PC = names("pc_resize pc_empty pc_from_3f pc_from_4f pc_from_3d pc_from_4d pc_size pc_isempty pc_point pc_normal pc_cov pc_cpoint pc_cnormal pc_ccov "
           "pt_size pt_has_points pt_has_normals pt_has_covs pt_point pt_normal pt_cov pt_resize pt_set_point pt_set_normal pt_set_cov mx_size mx_has mx_point")
PCL = names("pf_size pf_resize pf_has_points pf_has_normals pf_has_covs pf_point pf_normal pf_cov pf_set_point pf_set_normal pf_set_cov px_point px_normal px_set_normal "
            "pq_cov pq_set_cov pz_point pz_set_point pp_size pp_has_points pp_has_covs pp_point pp_cov pp_resize pp_set_cov pp_make")
GVV = names("gv_add_mean gv_add_cov gv_add_count gv_fin_mean gv_fin_cov gv_fin_count gv_fin2_mean gv_fin2_cov gv_cont_mean gv_cont_cov")
GVS = names("gv_make gv_size gvt_size gvt_has_points gvt_has_covs gvt_point gvt_cov gvt_nn gvt_knn gvt_offer")
FLAT = names("add fin size tsize hasp hasn hasc point nn knn offer tnn tknn toffer")

@check("C24")
def c24(c):
    c.rule("summary equals specification", SUM)
    for n in PC:
        c.pair(n)
    for n in ("ft_normal", "ft_cov", "ft_both", "ft_no_normal", "ft_no_cov", "ft_no_both"):
        c.pair(n)
    for n in PCL:
        c.pair(n, tu="pcl")
    c.floor("specified operations", len(PC) + len(PCL) + 6)
    c.assumptions.append("indices are below the size; a resize keeps the old elements (library contract)")

@check("C21")
def c21(c):
    c.rule("summary equals specification", SUM + " A Gaussian voxel is specified through the sums it stands for (sum of points, sum of rotated covariances, number of points), whichever representation it is in.")
    for n in GVV:
        c.pair(n, final=False)
    c.pair("gv_fin_flag", final=False)
    for n in GVS:
        c.pair(n)
    c.floor("specified operations", len(GVV) + len(GVS) + 1)
    c.assumptions.append("a voxel holds at least one point when it is finalized or continued; real arithmetic")

@check("C22")
def c22(c):
    c.rule("summary equals specification", SUM)
    for k in ("fp", "fn", "fc", "fnc"):
        for n in FLAT:
            c.pair(k + "_" + n)
    for n in names("fn_normal fnc_normal fc_cov fnc_cov fl_min fl_max fp_make fnc_make"):
        c.pair(n)
    c.floor("specified operations", 4 * len(FLAT) + 8)

@check("C19")
def c19(c):
    c.rule("summary equals specification", SUM + " The hash map is a finite map from cell coordinates to positions; voxel contents are opaque (decided under C21/C22).")
    c.pair("vm_insert", watch=("vp::Voxel::add", "vp::Voxel::finalize"))
    for n in names("vm_make vm_size gm_nn gm_knn fm_nn fm_knn gmt_nn gmt_knn vinfo"):
        c.pair(n)
    c.floor("specified operations", 10)

def constant_vector(v):
    """the elements of a vector value whose size and elements are constants, else None"""
    v = as_vec(v)
    n, a = v.args[:2] if v.op == "vec" else (UNDEF, UNDEF)
    if n.op != "num":
        return None
    out = []
    for i in range(int(n.args[0])):
        x = sel(a, num(i))
        if a.op == "maparr" and a.args[0] is num(0) and a.args[1] is n and not contains(a.args[2], lambda y: y.op in ("keep", "oldelem", "maparr", "sum")):
            x = subst(a.args[2], {a.args[4]: num(i)})
        e = [el(x, j, 0) for j in range(3)]
        if any(y.op != "num" for y in e):
            return None
        out.append(tuple(int(y.args[0]) for y in e))
    return out

FACES = {(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)}
CUBE = {(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)}

@check("C20")
def c20(c):
    c.rule("summary equals specification", SUM)
    c.rule("offset set", "After set_search_offsets(n) the value of the member search_offsets, as computed by abstract interpretation of the body, is a constant list that is exactly the required neighbourhood (own cell; own cell and 6 faces; the 27 cells of the cube), each cell once.")
    for n in names("vm_calc vm_vid vm_pid vmt_size vmt_point vmt_normal vmt_cov vm_indices vm_points vm_normals vm_covs gm_nn gm_knn fm_nn fm_knn"):
        c.pair(n)
    for n, want, what in (("off_1", {(0, 0, 0)}, "num_offsets=1"), ("off_7", FACES, "num_offsets=7"), ("off_27", CUBE, "num_offsets=27"),
                          ("off_n", {(0, 0, 0)}, "unsupported num_offsets")):
        r, where = c.summary(n)
        if r is None:
            continue
        v = c.final(r, 0, "search_offsets")
        if n == "off_n" and v is not None:
            v = restrict(v, AND(*[NOT(eq(sym("a1"), num(k))) for k in (1, 7, 27)]))
        for g, leaf in leaves(v) if v is not None else [(TRUE, UNDEF)]:
            got = constant_vector(leaf)
            c.count("offset lists")
            if got is None:
                c.maybe("offset set", where, "%s: the offsets are not a constant list: %s" % (what, show(leaf, 4)[:200]))
            elif sorted(got) != sorted(want):
                c.bad("offset set", where, "%s: searched cells are %s, required %s" % (what, sorted(got), sorted(want)), key="offset set|" + n)
            else:
                c.ok("offset set", where, "%s: %d cells" % (what, len(got)))
    c.floor("specified operations", 15)
    c.floor("offset lists", 4)

@check("C31")
def c31(c):
    c.rule("summary equals specification", SUM)
    c.rule("pure hash", "The value returned by the hash is built from the three coordinates and constants only, writes nothing, and both entry points compute the same function; equal() is equality of the three coordinates.")
    c.pair("floor4")
    c.pair("equal3")
    rs = [c.summary(n) for n in ("hash3", "hash3s")]
    for (r, where), n in zip(rs, ("operator()", "hash")):
        if r is None:
            continue
        free = collect(r.ret, lambda x: x.op in ("sym", "out", "fresh", "lv", "lout", "newobj", "undef", "glob"))
        other = sorted({show(x, 3) for x in free if x is not sym("a0")})
        if other or r.events:
            c.bad("pure hash", where, "%s depends on %s" % (n, other or [str(e)[:60] for e in r.events]), key="pure hash|" + n)
        else:
            c.ok("pure hash", where, n)
        c.count("hash functions")
    if rs[0][0] and rs[1][0]:
        a, b = rs[0][0].ret, rs[1][0].ret
        if a is b:
            c.ok("pure hash", rs[0][1], "both entry points agree")
        elif E.separated(a, b, c.seeds) is not None:
            c.bad("pure hash", rs[1][1], "hash() and operator() differ: %s and %s" % (show(a, 5), show(b, 5)), key="pure hash|agree")
        else:
            c.add("equal", "pure hash", rs[0][1], "both entry points agree")
    c.floor("specified operations", 2)
    c.floor("hash functions", 2)
    c.assumptions.append("coordinates times resolution stay within the range of int")
