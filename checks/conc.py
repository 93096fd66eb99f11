"""Parallel constructs: data races."""
from engine.check import check, walk, PURE_OUT
from engine.terms import *
from engine import interp as I
from engine import race
from engine import py as PY
from .points import names

RULE = ("No two accesses of different iterations, tasks, branches or threads of one parallel construct touch the same memory element unless "
        "both only read or both are atomic: different members, own slots of the thread, elements handed out by one atomic operation, or index "
        "terms that no two different iterations make equal.")
WHAT = {
    "iterations": "conflicting iterations",
    "range": "a recursively spawned call stays inside its range",
    "slots": "one slot per thread",
}

# entry points whose parallel constructs are analysed: name -> (array range parameters)
LOOPS = names("reduce_omp reduce_tbb error_omp error_tbb grid_omp grid_tbb ft_normals_omp ft_normals_omp_tree ft_normals_tbb ft_normals_tbb_tree "
              "ft_covs_omp ft_covs_omp_tree ft_covs_tbb ft_covs_tbb_tree ft_boths_omp ft_boths_omp_tree ft_boths_tbb ft_boths_tbb_tree sort_radix sort_radix_odd")
FORKS = {"sort_merge": None, "sort_quick": None, "build_omp": None, "build_tbb": None,
         "sort_merge_part": (1, 2), "sort_quick_part": (1, 2), "node_omp": (4, 5), "node_tbb": (4, 5)}

def queries(prog):
    """an analysis in which a tree query only writes the results it is asked for"""
    ip = I.Interp(prog, opaque=QUERIES, pure_out={"knn_search": (2, 3), "nearest_neighbor_search": (1, 2)})
    ip.extent = {"knn_search": lambda a: a[2], "nearest_neighbor_search": lambda a: ONE}
    return ip

QUERIES = ("small_gicp::UnsafeKdTree::knn_search", "small_gicp::UnsafeKdTree::nearest_neighbor_search")

def races(c, n, tu="core", rng=None, rule="no data race"):
    """judge every pair of concurrent accesses of one entry point; number of pairs"""
    prog = c.prog(tu)
    fs = [f for f in prog.byq.get("vpw::" + n, []) if f.get("body") is not None]
    if len(fs) != 1:
        c.add("broken", rule, n, "harness function vpw::%s not available (%d)" % (n, len(fs)))
        return None
    cal = c.callees(prog, fs[0])
    for h in cal:
        c.analysed.setdefault(I.qbase(h["qn"]), "%s:%s" % (h["file"].replace("/repo/", ""), h["l"]))
    return judge(c, n, fs[0], I.Interp(prog, pure_out=dict(PURE_OUT)), c.fnname(cal[0] if cal else fs[0]), rng, rule)

def judge(c, n, f, ip, where, rng, rule):
    try:
        r = race.run(ip, f)
    except Exception as ex:
        c.maybe(rule, where, "%s: analysis gave up: %r" % (n, ex))
        return None
    def report(status, x, y, why):
        a, b = sorted(((race.where(x), race.place(x), x.w), (race.where(y), race.place(y), y.w)))
        txt = "%s: %s %s %s / %s %s %s: %s" % (n, "write" if a[2] else "read", a[1], a[0], "write" if b[2] else "read", b[1], b[0], why)
        if status == "ok":
            c.ok(rule, where, txt)
        elif status == "bad":
            c.bad(rule, where, txt, key="race|%s|%s|%s" % (n, a[1], b[1]))
        else:
            c.maybe(rule, where, txt)
    try:
        k = race.analyse(r, report)
        if rng:
            first, last = sym("a%d" % rng[0]), sym("a%d" % rng[1])
            k += race.inside(r, first, last, report, lambda a: True)
        k += race.slots(r, report)
    except Exception as ex:
        c.maybe(rule, where, "%s: analysis gave up: %r" % (n, ex))
        return None
    c.count("parallel entry points")
    c.count("pairs of concurrent accesses", k)
    c.count("logged accesses", len(r.acc))
    return r

@check("C01")
def c01(c):
    c.rule("no data race", RULE)
    for n in LOOPS:
        races(c, n)
    for n, rng in FORKS.items():
        races(c, n, rng=rng)
    prog = c.prog("py")
    for b in PY.bindings(prog):
        if b.target and b.target[0] == "fn" and any(x.get("k") == "omp" for x in walk(b.target[1]["body"])):
            judge(c, "python " + b.name, b.target[1], queries(prog), "python:%s (%s:%s)" % (b.name, b.file.replace("/repo/", ""), b.line), None, "no data race")
            c.count("parallel Python functions")
    c.floor("parallel entry points", len(LOOPS) + len(FORKS))
    c.floor("pairs of concurrent accesses", 100)
    c.assumptions.append("functions of user types (clouds, factors, trees, comparators) that take their object as const do not write; opaque per-point setters write the element with the index they are given")
c01.technique = "static data-race analysis: access log of every parallel construct with symbolic index terms, conflict search over pairs of iterations, fork-join and recursion contracts"
c01.note = ("Lock-free reservations, per-thread slots and recursive range splitting are recognised on value terms. Library internals (OpenMP, TBB, STL algorithms) are modelled; "
            "pairs whose index is computed data (radix offsets) are reported as undecided here and decided functionally under C29.")

# ---------------------------------------------------------------- read-only operations
# parameters (by position) that an operation must not modify although their type would allow it
ALSO = {"error_serial": (4,), "error_omp": (4,), "error_tbb": (4,)}

def readonly_params(f, name):
    out = []
    for i, p in enumerate(f["params"]):
        t = p.get("t", "").strip()
        if (t.startswith("const ") and t.endswith(("&", "*"))) or i in ALSO.get(name, ()):
            out.append(i)
    return out

def reached_from(t, syms):
    """is the pointer t read out of one of the objects?"""
    while isinstance(t, T):
        if t.op == "sym":
            return t in syms
        if t.op in ("lv", "lout") and len(t.args) > 1 and isinstance(t.args[1], tuple) and isinstance(t.args[1][0], T):
            r = t.args[1][0]
            if r.args[0] not in ("par", "mem"):
                return False
            t = r.args[1]
        elif t.op == "ite":
            return any(reached_from(x, syms) for x in t.args[1:])
        elif t.args and t.op not in ("app", "num", "poly", "mat"):
            t = t.args[0]
        else:
            return False
    return False

@check("C02")
def c02(c):
    rule = "read-only operation"
    c.rule(rule, "No reachable statement writes an object (or anything reached through it) that the operation receives as constant, and no value "
                 "the operation returns or stores depends on a variable that outlives the call (static, thread-local or global).")
    prog = c.prog("core")
    for q, fs in sorted(prog.byq.items()):
        if not q.startswith("vpw::"):
            continue
        for f in fs:
            if f.get("body") is None:
                continue
            n = q[5:]
            ro = readonly_params(f, n)
            if not ro and "const" not in str(f.get("t", "")):
                continue
            if n.startswith(("sort_", "ft_")) and not ("tree" in n or n == "ft_point"):
                continue
            cal = c.callees(prog, f)
            for h in cal:
                c.analysed.setdefault(I.qbase(h["qn"]), "%s:%s" % (h["file"].replace("/repo/", ""), h["l"]))
            where = c.fnname(cal[0] if cal else f)
            try:
                ip = I.Interp(prog, pure_out=dict(PURE_OUT))
                r = race.run(ip, f)
            except Exception as ex:
                c.maybe(rule, where, "%s: analysis gave up: %r" % (n, ex))
                continue
            fixed = {sym("a%d" % i) for i in ro}
            c.count("operations analysed")
            bad = {}
            for a in r.acc:
                if not a.w:
                    continue
                k = a.root.args[0]
                if k in ("par", "mem"):
                    if a.path and a.path[-1][0] == "i" and race.is_any(a.path[-1][1]):
                        continue
                    own = a.root.args[1]
                    if (k == "par" and own in fixed) or (k == "mem" and isinstance(own, T) and reached_from(own, fixed)):
                        bad.setdefault((race.place(a), race.where(a)), a)
                elif k == "glob" and not a.atomic and not str(a.root.args[1]).startswith("tls "):
                    bad.setdefault((race.place(a), race.where(a)), a)
            for (pl, wh), a in bad.items():
                if a.rec:
                    continue
                c.bad(rule, where, "%s: %s is written at %s" % (n, pl, wh), key="write|%s|%s" % (n, pl))
            # hidden state in the results
            outs = [r.ret] if r.ret is not None else []
            outs += [v for root, v in r.store.items() if root.args[0] in ("par", "mem", "heap")]
            hidden = set()
            for v in outs:
                if isinstance(v, T):
                    for z in collect(v, lambda z: z.op == "sym" and str(z.args[0]).startswith("global:")):
                        hidden.add(str(z.args[0])[7:])
            for h in sorted(hidden):
                c.bad(rule, where, "%s: the result depends on the variable %s, which outlives the call" % (n, h), key="state|%s|%s" % (n, h))
            if not bad and not hidden:
                c.ok(rule, where, "%s: %d accesses, none modifies %s" % (n, len(r.acc), ", ".join(f["params"][i].get("n", "?") for i in ro) or "anything"))
    c.floor("operations analysed", 60)
c02.technique = "static effect analysis: every write reachable from a read-only operation and every persistent variable its results depend on"
c02.note = "Opaque user types (cloud, tree, factor models) are taken to honour const; library internals are modelled."
