"""Convenience functions (C++, Python, PCL): where every setting arrives, ownership."""
from engine.check import check, walk, Interp, PURE_OUT, REPO
from engine.terms import *
import re, math
from engine import interp as I
from engine import equiv as E
from checks.edge import no_missing_elements

SUM = "The value summary of the code (every observable: returned value, final state of every object reachable from a parameter, calls with their arguments) is the same function of the inputs as the specification's summary."
CONF = ("small_gicp::LevenbergMarquardtOptimizer::optimize", "small_gicp::GaussNewtonOptimizer::optimize", "voxelgrid_sampling", "voxelgrid_sampling_omp",
        "estimate_normals_covariances", "estimate_normals_covariances_omp", "small_gicp::IncrementalVoxelMap::insert", "build_tree")

def team_size(c, prog, f, label, rule):
    """every parallel region a function with a num_threads argument (or member) opens has a team of that size"""
    try:
        r = Interp(prog, pure_out=PURE_OUT).run(f)
    except Exception as ex:
        c.maybe(rule, label, "analysis gave up: %r" % ex)
        return
    mine = [i for i, p in enumerate(f["params"]) if p["n"] == "num_threads"]
    names = ["a%d" % i for i in mine]
    def dep(t):
        return any((x.op == "sym" and str(x.args[0]) in names) or (not mine and x.op == "fld" and "num_threads" in x.args) for x in collect(t, lambda x: x.op in ("sym", "fld")))
    seen = set()
    for e in r.events:
        if e.kind != "omp" or "parallel" not in e.name or (e.file, e.line) in seen:
            continue
        seen.add((e.file, e.line))
        at = "%s, parallel region at %s:%s" % (label, str(e.file).replace(REPO + "/", ""), e.line)
        c.count("parallel regions")
        if e.args and dep(e.args[0]):
            c.ok(rule, at, "team size is the num_threads given")
        elif any("omp_set_num_threads" in x.name for x in r.events):
            c.maybe(rule, at, "team size set through omp_set_num_threads")
        else:
            c.bad(rule, at, "team size is the num_threads given — found %s" % (show(e.args[0]) if e.args else "no num_threads clause"), key="team|%s|%s" % (label, e.name))

def team_sizes(c, tu, rule, funs=None, only=""):
    prog = c.prog(tu)
    def has_threads(f):
        rec = prog.records.get(f.get("clst"))
        return rec is not None and any(x.get("n") == "num_threads" for x in rec.get("fields") or [])
    done = set()
    if funs is None:
        funs = []
        for q, fs in sorted(prog.byq.items()):
            for f in fs:
                if f.get("body") is None or not f["file"].startswith(REPO + "/include") or f.get("ctor") or only not in f["file"]:
                    continue
                if any(p["n"] == "num_threads" for p in f["params"]) or (f.get("mem") and not f.get("static") and has_threads(f)):
                    k = (f["file"], f["l"])
                    if k not in done:
                        done.add(k)
                        funs.append((I.qbase(q), f))
    for label, f in funs:
        if any(x.get("k") == "omp" for x in walk(f["body"])) or any(x.get("k") in ("call", "mcall") for x in walk(f["body"])):
            team_size(c, prog, f, label, rule)

@check("C10")
def c10(c):
    c.rule("every setting arrives", SUM + " The configured components (optimiser, downsampling, feature estimation, tree construction, voxel-map insertion) are opaque: "
           "what is compared is every argument and every member they are called with, for all settings at once and for each registration type and thread-count branch.")
    for n in ("h_align", "h_align_voxel", "h_align_vec", "h_align_vec4", "h_prep", "h_prep_vec", "h_voxel"):
        c.pair(n, tu="helper", rule="every setting arrives", opaque=CONF, fresh=("voxelgrid_sampling", "voxelgrid_sampling_omp"))
    c.rule("team size", "Every OpenMP parallel region reached from a function with a num_threads argument (or a component with a num_threads setting) has a team size computed from it.")
    team_sizes(c, "core", "team size")
    c.floor("specified operations", 7)
    c.floor("parallel regions", 10)
    c.assumptions.append("registration types are the four enumerators; the point-cloud overloads are called with the type they support (ICP, plane ICP, GICP; VGICP for a voxel map)")
c10.technique = "static value summaries (dataflow of every setting to the component calls, over clang's typed syntax tree) compared with a specification's summaries"

# ---------------------------------------------------------------- Python
from engine import py as PY
PYCONF = CONF + ("estimate_normals", "estimate_normals_omp", "estimate_covariances", "estimate_covariances_omp", "small_gicp::UnsafeKdTree::knn_search",
                 "small_gicp::UnsafeKdTree::nearest_neighbor_search", "small_gicp::ICPFactor::linearize", "small_gicp::PointToPlaneICPFactor::linearize",
                 "small_gicp::GICPFactor::linearize", "read_ply")
PYOUT = {}

def canon(t):
    t = I.strip_t(t)
    while t.startswith("const "):
        t = t[6:]
    return t.replace("<const ", "<")

def py_pairs(c, names, rule, **kw):
    """compare every registered Python function with one of the given names with its specification"""
    prog = c.prog("py")
    specs = {}
    for q, fs in prog.byq.items():
        if q.startswith("vps::py_"):
            for f in fs:
                if f.get("body") is not None:
                    specs.setdefault("__init__" if q[8:] == "init" else q[8:], []).append(f)
    opaque = kw.pop("opaque", PYCONF)
    for b in PY.bindings(prog):
        if b.name not in names:
            continue
        where = "%s (%s:%s)" % (b.name, b.file.replace("/repo/", ""), b.line)
        if b.target is None:
            c.maybe(rule, where, "what %s is registered with was not recognised" % b.name)
            continue
        if b.target[0] != "fn":
            continue
        f = b.target[1]
        ts = [canon(p["t"]) for p in f["params"]]
        ss = [s for s in specs.get(b.name, []) if [canon(p["t"]) for p in s["params"]] == ts]
        if not ss:
            ss = [s for s in specs.get(b.name, []) if sorted(canon(p["t"]) for p in s["params"]) == sorted(ts)]
        if len(ss) != 1:
            c.maybe(rule, where, "%s(%s): no specification" % (b.name, ", ".join(ts))[:200])
            continue
        s = ss[0]
        sn = [p["n"] for p in s["params"]]
        me = 1 if sn and sn[0] == "self" else 0
        names_ = [a[0] for a in b.args]
        am = None
        if names_:
            if len(names_) != len(ts) - me:
                c.maybe(rule, where, "%s: %d argument names for %d parameters" % (b.name, len(names_), len(ts) - me))
                continue
            c.count("argument lists")
            if sorted(names_) == sorted(sn[me:]):
                # by keyword: the parameter named x in Python has to be treated as the specification treats x
                am = {0: sym("a0")} if me else {}
                for j, n in enumerate(names_):
                    am[j + me] = sym("a%d" % sn.index(n))
                txt = "%s: positional order of the Python arguments is (%s)" % (b.name, ", ".join(sn[me:]))
                if names_ == sn[me:]:
                    c.ok("argument order", where, txt)
                else:
                    c.bad("argument order", where, txt + " — found (%s)" % ", ".join(names_), key="order|%s|%s" % (b.name, ts[0]))
            elif len(set(names_)) < len(names_) or any("\n" + " " * 0 + x + " :" in re.sub(r"\n[ \t]+", "\n", b.doc or "") for x in sn[me:] if x not in names_):
                # (two arguments of one name, or a documented argument that does not exist: keyword calls fail)
                c.bad("argument order", where, "%s: argument names are (%s), documented are (%s)" % (b.name, ", ".join(names_), ", ".join(sn[me:])), key="names|%s|%s" % (b.name, ts[0]))
            else:
                c.maybe("argument order", where, "%s: argument names (%s) differ from the documented ones (%s)" % (b.name, ", ".join(names_), ", ".join(sn[me:])))
        f = dict(f)
        f["qn"] = "python:" + b.name
        f["mem"] = False
        c.pair("python %s(%s)" % (b.name, ", ".join(t.split("::")[-1][:40] for t in ts)), tu="py", rule=rule, fns=(f, s), args=(am, None), opaque=opaque, pure_out=PYOUT, fresh=("voxelgrid_sampling", "voxelgrid_sampling_omp"), **kw)
        c.count("Python functions")

def documented(doc):
    """{parameter: default stated in the numpydoc section of a docstring}"""
    out, cur = {}, None
    num = r"[-+]?[0-9.][0-9.e+-]*"
    def val(x):
        x = x.strip().strip("'\"")
        if re.fullmatch(r"[-+*/ ().0-9eE]*(?:(?:M_PI|np\.pi|math\.pi)[-+*/ ().0-9eE]*)*", x) and re.search(r"[0-9]", x):
            try:
                return float(eval(re.sub(r"M_PI|np\.pi|math\.pi", repr(math.pi), x), {"__builtins__": {}}))
            except Exception:
                return None
        return x
    for l in (doc or "").split("\n"):
        m = re.match(r"\s*([A-Za-z_]\w*)\s*:\s*([^=]*?)(?:=\s*(.*?))?\s*$", l)
        if m and not l.strip().lower().startswith(("returns", "note")):
            cur = m.group(1)
            if m.group(3):
                out[cur] = val(m.group(3))
        m = re.search(r"\(default:\s*([^)]*)\)", l)
        if m and cur and cur not in out:
            out[cur] = val(m.group(1))
    return {k: v for k, v in out.items() if v is not None}

def literal(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "copy", "ctor") and (n.get("e") or len(n.get("args") or []) == 1):
        n = n.get("e") or n["args"][0]
    if isinstance(n, dict) and n.get("k") == "un" and n.get("op") == "-":
        v = literal(n.get("e"))
        return -v if isinstance(v, float) else None
    if not isinstance(n, dict) or n.get("k") != "lit":
        return None
    v = n.get("v")
    if n.get("lt") in ("i", "f"):
        return float(v)
    return {"true": "True", "false": "False", "null": "None"}.get(v, v)

def defaults(c, rule):
    prog = c.prog("py")
    for b in PY.bindings(prog):
        docs = documented(b.doc)
        where = "%s (%s:%s)" % (b.name, b.file.replace(REPO + "/", ""), b.line)
        for a, d in b.args:
            v = literal(d) if d is not None else None
            if v is None or a not in docs:
                continue
            w = docs[a]
            c.count("documented defaults")
            same = abs(v - w) <= 1e-9 * (1 + abs(v)) if isinstance(v, float) and isinstance(w, float) else str(v) == str(w)
            txt = "%s: the default of %s is %s" % (b.name, a, w)
            if same:
                c.ok(rule, where, txt)
            else:
                c.bad(rule, where, txt + " — registered is %s" % v, key="default|%s|%s|%s" % (b.name, b.args[0][0], a))

@check("C11")
def c11(c):
    rule = "every argument arrives"
    c.rule(rule, SUM + " The configured components (optimiser, downsampling, feature estimation, tree construction and search, voxel-map insertion, factors) are opaque: "
           "compared is every argument and member they are called with. Functions and argument names are read from the pybind11 registrations, so a keyword is followed to the parameter it fills.")
    c.rule("argument order", "The registered argument names appear in the documented order.")
    py_pairs(c, ("align", "voxelgrid_sampling", "estimate_normals", "estimate_covariances", "estimate_normals_covariances", "preprocess_points", "__init__",
                 "nearest_neighbor_search", "knn_search", "batch_nearest_neighbor_search", "batch_knn_search", "insert", "set_lru", "set_max_distance", "linearize"), rule)
    c.rule("documented default", "A keyword left out has the value its documentation states.")
    defaults(c, "documented default")
    c.floor("documented defaults", 30)
    c.rule("team size", "Every OpenMP parallel region a Python function opens itself has a team size computed from its num_threads argument.")
    prog = c.prog("py")
    team_sizes(c, "py", "team size", [("python:" + b.name, b.target[1]) for b in PY.bindings(prog) if b.target and b.target[0] == "fn" and any(x.get("k") == "omp" for x in walk(b.target[1]["body"]))])
    c.floor("Python functions", 30)
    c.floor("parallel regions", 2)

def members(c, names, rule):
    """attributes bound to a member of the class: the member of the same name"""
    prog = c.prog("py")
    for b in PY.bindings(prog):
        if b.name not in names or b.target is None or b.target[0] != "member":
            continue
        where = "%s (%s:%s)" % (b.name, b.file.replace("/repo/", ""), b.line)
        got = I.qbase(b.target[1]).split("::")[-1]
        txt = "attribute %s reads the member %s" % (b.name, b.name)
        c.count("attributes")
        if got == b.name:
            c.ok(rule, where, txt)
        elif b.kind == "def_readonly" or got in names:
            c.bad(rule, where, txt + " — found %s" % b.target[1], key="attr|" + b.name)
        else:
            c.maybe(rule, where, txt + ": " + b.target[1])

# what a component is configured with is C11's subject; C34 follows the points, queries and poses
HIDE_SETTINGS = {"small_gicp::LevenbergMarquardtOptimizer::optimize": {0, 4, 5, 6, 8, 9}, "small_gicp::GaussNewtonOptimizer::optimize": {0, 4, 5, 6, 8, 9},
                 "small_gicp::IncrementalVoxelMap::insert": {0}, "voxelgrid_sampling": {1}, "voxelgrid_sampling_omp": {1, 2}, "build_tree": {0},
                 "estimate_normals": {2}, "estimate_normals_omp": {2, 3}, "estimate_covariances": {2}, "estimate_covariances_omp": {2, 3},
                 "estimate_normals_covariances": {1, 2}, "estimate_normals_covariances_omp": {1, 2, 3}}

@check("C28")
def c28(c):
    rule = "accessors stay in range"
    c.rule(rule, SUM + " The specification raises std::out_of_range for an index that is not below the size, returns a 0-row array for an empty object (no element reference is formed), "
           "and fills the places of missing search results with index -1 and the largest double.")
    py_pairs(c, ("point", "normal", "cov", "points", "normals", "covs", "voxel_points", "voxel_normals", "voxel_covs", "__len__", "size", "empty",
                 "nearest_neighbor_search", "knn_search", "batch_nearest_neighbor_search", "batch_knn_search"), rule,
             hide={"small_gicp::UnsafeKdTree::knn_search": {0, 1, 5}, "small_gicp::UnsafeKdTree::nearest_neighbor_search": {0, 1, 4}})
    rule2 = "empty objects"
    c.rule(rule2, "Abstract interpretation of every accessor with an object just constructed (no points, no voxels): no element of an empty container is accessed, no reference to one is formed.")
    prog = c.prog("py")
    empty = {canon(f["ret"]): f for q, fs in prog.byq.items() if q.startswith("vpe::made_") for f in fs if f.get("body") is not None}
    for b in PY.bindings(prog):
        if b.target is None or b.target[0] != "fn" or b.name not in ("points", "normals", "covs", "voxel_points", "voxel_normals", "voxel_covs", "__len__", "size", "empty"):
            continue
        f = b.target[1]
        t = canon(f["params"][0]["t"].replace("&", "").strip())
        g = empty.get(t)
        where = "python %s(%s) (%s:%s)" % (b.name, t, b.file.replace("/repo/", ""), b.line)
        if g is None:
            c.maybe(rule2, where, "no empty object of type %s" % t)
            continue
        try:
            o = E.retval(Interp(prog, pure_out=PYOUT).run(g))
            r = Interp(prog, pure_out=PYOUT).run(f, args={0: o})
        except Exception as ex:
            c.maybe(rule2, where, "analysis gave up: %r" % ex)
            continue
        c.count("accessors with an empty object")
        no_missing_elements(c, r, where, rule2, "%s|%s" % (b.name, t))
    c.floor("accessors with an empty object", 15)
    c.rule("attributes", "size, empty and the attributes of results are bound to the member of that name.")
    members(c, ("size", "empty"), "attributes")
    c.floor("Python functions", 24)
    c.assumptions.append("pybind11 converts indices to size_t (negative and fractional ones raise TypeError before the accessor runs); std::vector::at throws std::out_of_range")

@check("C34")
def c34(c):
    rule = "row by row"
    c.rule(rule, SUM + " Rows are mapped to points with the row's index; three-column input gets a homogeneous coordinate of one; other shapes are rejected; the batch searches fill row i from query i; poses are 4x4 matrices.")
    py_pairs(c, ("__init__", "align", "preprocess_points", "voxelgrid_sampling", "batch_nearest_neighbor_search", "batch_knn_search", "nearest_neighbor_search", "knn_search",
                 "T_target_source", "insert", "read_ply", "points", "normals", "voxel_points", "voxel_normals", "voxel_covs", "linearize"), rule, hide=HIDE_SETTINGS)
    c.rule("attributes", "The attributes of results are bound to the member of that name.")
    members(c, ("converged", "iterations", "num_inliers", "H", "b", "error", "T_target_source"), "attributes")
    c.floor("Python functions", 24)
    c.floor("attributes", 6)
    c.assumptions.append("pybind11/Eigen conversion between numpy arrays and Eigen matrices (element (i, j) stays element (i, j)) is modelled, not analysed")
for _f in (c11, c28, c34):
    _f.technique = "static dataflow over the pybind11 registrations and lambdas (value summaries over clang's typed syntax tree) compared with a specification's summaries"

OWNERS = ("small_gicp::KdTree", "small_gicp::ProjectiveSearch")

@check("C25")
def c25(c):
    r1, r2, r3 = "owns the cloud", "searches that cloud", "matching pairs"
    c.rule(r1, "Every class that embeds an unsafe search structure (a structure holding its cloud by reference) and is offered as the owning one has a by-value std::shared_ptr to the cloud; after construction that member "
               "equals the handle passed in (same object, same owner: no copy, no aliasing, no custom deleter), also in copies.")
    c.rule(r2, "After construction and after copying, the reference inside the embedded unsafe structure is bound to the object the shared_ptr member points to, and an unsafe structure refers to the object passed in (never to a temporary, a by-value parameter or a local).")
    c.rule(r3, "Functions returning a cloud together with its search structure return a structure built from that cloud: " + SUM)
    prog = c.prog("core")
    # the classes, from the record table
    for t, rec in sorted(prog.records.items()):
        q = t.split("<")[0]
        fields = rec.get("fields") or []
        if q not in OWNERS:
            continue
        views = [x for x in fields if any(y["t"].rstrip().endswith(("&", "*")) for y in (prog.records.get(canon(x["t"])) or {}).get("fields") or [])]
        if not views:
            continue
        c.count("owning classes")
        for v in views:
            inner = [y for y in prog.records[canon(v["t"])]["fields"] if y["t"].rstrip().endswith(("&", "*"))]
            for y in inner:
                pt = canon(y["t"].rstrip().rstrip("&*").strip())
                own = [x for x in fields if not x["t"].rstrip().endswith(("&", "*")) and canon(x["t"]).startswith("std::shared_ptr<") and canon(x["t"])[16:-1].replace("const ", "") == pt]
                txt = "%s (which refers to a %s) is accompanied by a by-value std::shared_ptr to it" % (v["n"], pt.split("::")[-1])
                if own:
                    c.ok(r1, q, txt)
                elif any(pt in x["t"] for x in fields if x is not v):
                    c.bad(r1, q, txt + " — found %s" % ", ".join("%s %s" % (x["t"], x["n"]) for x in fields if pt in x["t"] and x is not v), key="owner|" + q)
                else:
                    c.bad(r1, q, txt + " — no such member", key="owner|" + q)
    for n in ("cloud", "mat"):
        for k in ("own_tree_", "own_proj_"):
            c.pair(k + n, rule=r1)
        for k in ("own_tree_same_", "own_tree_omp_", "own_tree_tbb_", "own_tree_copy_", "own_unsafe_", "own_proj_same_", "own_proj_copy_", "own_proj_unsafe_"):
            c.pair(k + n, rule=r2)
    for n in ("h_prep", "h_prep_vec"):
        c.pair(n, tu="helper", rule=r3, opaque=CONF, fresh=("voxelgrid_sampling", "voxelgrid_sampling_omp"), hide=HIDE_SETTINGS)
    py_pairs(c, ("preprocess_points", "__init__"), r3, hide=HIDE_SETTINGS)
    c.floor("owning classes", 4)
    c.floor("Python functions", 5)
c25.technique = "ownership analysis: record-layout rule plus static value summaries of constructors, copies and factory functions (what each reference member is bound to), over clang's typed syntax tree"

PCL_SETTERS = ("pcl_set_source", "pcl_set_target", "pcl_set_source_covs", "pcl_set_target_covs", "pcl_swap", "pcl_clear_source", "pcl_clear_target", "pcl_voxel")
PCL_SETTINGS = ("pcl_threads", "pcl_neighbors", "pcl_randomness", "pcl_rotation", "pcl_type", "pcl_verbose", "pcl_get_source_covs", "pcl_get_target_covs", "pcl_hessian", "pcl_result")

@check("C12")
def c12(c):
    r1, r2, r3 = "derived data follow their source", "settings", "alignment uses current data"
    c.rule(r1, SUM + " The specification rebuilds the tree and drops covariances and voxel map when a cloud is replaced, drops the voxel map when covariances or the resolution change, exchanges everything on a swap and drops everything on a clear.")
    c.rule(r2, SUM + " The specification stores the argument (the documented replacement for an invalid one) and nothing else.")
    c.rule(r3, SUM + " The specification of an alignment estimates covariances exactly when their number differs from the number of points, builds a voxel map exactly when there is none, "
           "and passes every stored setting to the registration. Estimation, tree construction, insertion and optimiser are opaque: compared is what they are called with.")
    for n in PCL_SETTERS:
        c.pair(n, tu="pcl", rule=r1, opaque=("build_tree",))
    for n in PCL_SETTINGS:
        c.pair(n, tu="pcl", rule=r2)
    c.pair("pcl_align", tu="pcl", rule=r3, opaque=("small_gicp::LevenbergMarquardtOptimizer::optimize", "estimate_covariances_omp", "small_gicp::IncrementalVoxelMap::insert", "build_tree"))
    c.floor("specified operations", 19)
    c.assumptions.append("the PCL base class stores the clouds its setInputSource/setInputTarget are given (its code is outside the repository and opaque)")
c12.technique = "static value summaries of every setter and of the alignment (over clang's typed syntax tree) compared with a specification's summaries; induction over call histories through the invariant that derived data belong to the current source"
