"""Registration: factors, reductions, optimisers, increment layout, exponential maps."""
from engine.check import check
from engine.terms import *
from engine import interp as I
from engine import equiv as E
from fractions import Fraction

SUM = "The value summary of the code (every observable: returned value, final state of every object reachable from a parameter, thrown errors, loop invariants) is the same function of the inputs as the specification's summary."

HOM = "reduction body adds to what it holds"

def adds_to(f, x, loops, seen=()):
    """is the final value f the initial value x plus something independent of it?  ok / reset / unknown"""
    if f is x:
        return "ok"
    if f.op == "ite":
        a, b = adds_to(f.args[1], x, loops, seen), adds_to(f.args[2], x, loops, seen)
        return "reset" if "reset" in (a, b) else "unknown" if "unknown" in (a, b) else "ok"
    if f.op == "lout" and f.args[0] in loops and f.args[0] not in seen:
        L, lf = loops[f.args[0]], f.args[1]
        if lf not in L.next:
            return "unknown"
        lv = mk("lv", L.key, lf)
        st = adds_to(L.next[lf], lv, loops, seen + (L.key,))
        return adds_to(L.init[lf], x, loops, seen + (L.key,)) if st == "ok" and not L.brk else "unknown"
    d = sub(f, x)
    if not occurs(x, d):
        return "ok"
    # one summand carries the initial value along (a loop result, or a choice)
    if f.op == "poly" or f.op == "sum":
        for y in collect(f, lambda y: y.op == "lout"):
            r = sub(f, y)
            if not occurs(y, r) and not mentions(r, x, loops):
                return adds_to(y, x, loops, seen)
    if not mentions(f, x, loops):
        return "reset"
    return "unknown"

def mentions(t, x, loops, seen=()):
    if occurs(x, t):
        return True
    for y in collect(t, lambda y: y.op in ("lout", "lv")):
        L = loops.get(y.args[0])
        if L is None or (L.key, y.args[1]) in seen:
            continue
        for v in (L.init.get(y.args[1]), L.next.get(y.args[1])):
            if v is not None and mentions(v, x, loops, seen + ((L.key, y.args[1]),)):
                return True
    return False

def homomorphism(c, name):
    """tbb::parallel_reduce applies a body to several ranges in a row, to split copies, and joins them"""
    r, where = c.summary(name)
    if r is None:
        return
    prog = c.prog()
    for e in r.events:
        if e.kind != "tbb_reduce" or len(e.node["args"]) < 2:
            continue
        t = I.strip_t(e.node["args"][1].get("t", ""))
        ms = [f for fs in prog.byq.values() for f in fs if f.get("clst") == t and (f.get("body") is not None or f.get("ctor"))]
        call = [f for f in ms if I.qbase(f["qn"]).endswith("operator()")]
        split = [f for f in ms if f.get("ctor") and len(f["params"]) == 2 and "split" in f["params"][1]["t"]]
        join = [f for f in ms if I.qbase(f["qn"]).endswith("::join")]
        if not (len(call) == len(split) == len(join) == 1):
            c.maybe(HOM, where, "%s: reduction body %s not recognised" % (name, t))
            continue
        c.count("reduction bodies")
        this = sym("this")
        field = lambda s: dict(s.store[P_this(s)].args[1]) if P_this(s) in s.store and s.store[P_this(s)].op == "rec" else {}
        def P_this(s):
            return s.this.args[0]
        s = I.Interp(prog).run(call[0])
        loops = {L.key: L for L in s.loops}
        acc = {}
        w = c.fnname(call[0])
        refs = {x.get("f") for m in split + call for x in m.get("inits") or [] if str(x.get("ft", "")).rstrip().endswith(("&", "*"))}
        for f, v in field(s).items():
            if f in refs:
                continue     # what it refers to belongs to the caller (compared with the specification)
            u, v2 = unify(fld_raw(this, f), v)
            if u.op != "mat" and v2.op == "mat":
                u = as_mat(u, v2.args[0], v2.args[1])
            for path, x, y in E.diff(u, v2):
                acc.setdefault(f, u)
                k = adds_to(y, x, loops)
                txt = "%s: member %s%s after a range is its previous value plus the contributions of the range" % (name, f, path)
                if k == "ok":
                    c.ok(HOM, w, txt)
                elif k == "reset":
                    c.bad(HOM, w, txt + " — the previous value is lost: %s" % show(y, 5)[:200], key="reduce|%s|%s" % (name, f))
                else:
                    c.maybe(HOM, w, txt)
        s = I.Interp(prog).run(split[0])
        w = c.fnname(split[0])
        fs = field(s)
        for f, u in acc.items():
            for path, x, y in E.diff(*unify(fs.get(f, UNDEF), u)):
                txt = "%s: member %s%s of a split copy starts at zero" % (name, f, path)
                if x is ZERO:
                    c.ok(HOM, w, txt)
                elif x.op == "unk":
                    c.maybe(HOM, w, txt)
                else:
                    c.bad(HOM, w, txt + " — it starts at %s" % show(x, 4), key="split|%s|%s" % (name, f))
        s = I.Interp(prog).run(join[0])
        w = c.fnname(join[0])
        fs = field(s)
        other = sym("a0")
        for f, u in acc.items():
            o = fld_raw(other, f)
            v = fs.get(f, u)
            for m in (u, v):
                if m.op == "mat":
                    u, o, v = (as_mat(t, m.args[0], m.args[1]) for t in (u, o, v))
            lv = lambda t: list(t.args[2]) if t.op == "mat" else [t]
            for n, (a, b, x) in enumerate(zip(lv(u), lv(o), lv(v))):
                txt = "%s: join adds member %s[%d] of the other half" % (name, f, n)
                if x is add(a, b):
                    c.ok(HOM, w, txt)
                elif E.separated(x, add(a, b), c.seeds) is not None and not contains(x, lambda y: y.op == "unk"):
                    c.bad(HOM, w, txt + " — found %s" % show(x, 4)[:200], key="join|%s|%s" % (name, f))
                else:
                    c.maybe(HOM, w, txt)
        for f in set(fs) - set(acc):
            c.maybe(HOM, w, "%s: join changes member %s that a range does not accumulate" % (name, f))

@check("C03")
def c03(c):
    c.rule("summary equals specification", SUM)
    c.rule(HOM, "tbb::parallel_reduce may run a body on several ranges in a row and on split copies: the body's operator() leaves every accumulated member "
           "at its previous value plus a contribution of the range, the splitting constructor starts it at zero, join adds the other half.")
    for n in ("reduce_tbb", "error_tbb"):
        homomorphism(c, n)
    for n in ("reduce_serial", "reduce_omp", "reduce_tbb", "error_serial", "error_omp", "error_tbb"):
        c.pair(n)
    c.floor("specified operations", 6)
    c.assumptions.append("num_threads >= 1 and the OpenMP runtime uses at most num_threads threads; floating-point sums are compared as exact sums (re-association is allowed)")

def infix(*ws):
    return lambda what: any(w in what for w in ws)

@check("C04")
def c04(c):
    c.rule("summary equals specification", SUM + " Restricted to the observables of the correspondence protocol.")
    for k in ("icp", "plane", "gicp"):
        c.pair(k + "_linearize", observe=lambda w: "a7" not in w and "a8" not in w and "a9" not in w and "mahalanobis" not in w)
        c.pair(k + "_inlier")
        c.pair(k + "_fresh")
        c.pair(k + "_error")
    c.pair("robust_linearize", observe=lambda w: "a7" not in w and "a8" not in w and "a9" not in w)
    c.pair("robust_inlier")
    c.floor("specified operations", 14)

@check("C05")
def c05(c):
    c.rule("summary equals specification", SUM + " Restricted to information matrix, vector and error: the specification computes the residual, its exact derivative with respect "
           "to the right-multiplied increment (rotation first), and from them H = J'WJ, b = J'Wr, e = r'Wr/2; the error evaluation uses the same residual and weight. "
           "Compared on homogeneous points, normals with w = 0, symmetric covariances and rigid poses.")
    for k in ("icp", "plane", "gicp"):
        c.pair(k + "_linearize", observe=lambda w: "a7" in w or "a8" in w or "a9" in w or "mahalanobis" in w)
        c.pair(k + "_error")
    c.pair("gicp_fresh_m")
    c.pair("lie_skew")
    c.floor("specified operations", 8)

@check("C06")
def c06(c):
    c.rule("summary equals specification", SUM)
    for n in ("robust_linearize", "robust_error", "robust_inlier", "robust_ctor_kernel", "robust_ctor_factor", "huber_weight", "cauchy_weight", "huber_ctor", "cauchy_ctor"):
        c.pair(n)
    c.floor("specified operations", 9)

@check("C07")
def c07(c):
    c.rule("summary equals specification", SUM + " Loop-carried variables of corresponding loops are put in correspondence; initial value, step, continuation condition and exits of every loop are obligations.")
    for n in ("gn_optimize", "lm_optimize", "result_ctor"):
        c.pair(n)
    c.floor("specified operations", 3)

@check("C08")
def c08(c):
    c.rule("summary equals specification", SUM)
    for n in ("crit_converged", "dof_linearize", "dof_error", "dof_rot", "dof_trans", "dof_default", "dof_lambda", "null_linearize", "null_error", "reject_distance", "reject_null"):
        c.pair(n)
    c.floor("specified operations", 11)

RAY = "agrees with the exponential at every magnitude"
RAYS = (((9, 12, 20), 25), ((-2, 1, 2), 3), ((6, 3, -2), 7), ((1, 0, 0), 1), ((0, 0, -1), 1))

def near(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(near(p, q) for p, q in zip(x, y))
    if isinstance(x, (Fraction, float, int)) and isinstance(y, (Fraction, float, int)):
        x, y = float(x), float(y)
        return abs(x - y) <= 1e-8 * (0.1 + abs(x) + abs(y))
    return x == y

def ray(c, name, dim):
    """restricted to a ray w = s (u/n), both sides are functions of the angle s alone; compared over its magnitudes"""
    prog = c.prog()
    fs = [[f for f in prog.byq.get(n + "::" + name, []) if f.get("body") is not None] for n in ("vpw", "vps")]
    if any(len(f) != 1 for f in fs):
        c.maybe(RAY, name, "harness function not available")
        return
    cal = c.callees(prog, fs[0][0])
    where = c.fnname(cal[0] if cal else fs[0][0])
    s = sym("s")
    for u, n in RAYS:
        w = [mul(num(Fraction(x, n)), s) for x in u] + [num(Fraction(x)) for x in (3, -7, 11)]
        v = []
        try:
            for f in fs:
                v.append(E.retval(I.Interp(prog).run(f[0], args={0: mat(dim, 1, w[:dim])})))
        except Exception as ex:
            c.maybe(RAY, where, "%s: analysis gave up: %r" % (name, ex))
            return
        mags = [Fraction(m) * Fraction(10) ** k for k in range(-14, 2) for m in ("1", "2.1", "4.7", "9.9")] + [Fraction(0)]
        bad = done = None
        for x in mags:
            try:
                ov = {("sym",) + tuple(str(y) for y in s.args): x}
                b = E.PreciseEval(0, over=ov).ev(v[1])
                try:
                    a = E.PreciseEval(0, over=ov).ev(v[0])
                except E.NoEval as ex:
                    if "1/0" not in str(ex):
                        raise
                    bad = x
                    break
            except (E.NoEval, OverflowError, ZeroDivisionError, TypeError, ValueError):
                continue
            done = (done or 0) + 1
            if not near(a, b):
                bad = x
                break
        txt = "%s along %s/%d" % (name, u, n)
        c.count("rays")
        if bad is not None and not any(contains(t, lambda y: y.op == "unk") for t in v):
            c.bad(RAY, where, "%s: at rotation angle %.3g it is not the exponential of its argument" % (txt, float(bad)), key="ray|" + name)
        elif done and done > 40:
            c.add("equal", RAY, where, txt)
        else:
            c.maybe(RAY, where, txt + ": only %s magnitudes evaluated" % done)

@check("C09")
def c09(c):
    c.rule("summary equals specification", SUM)
    c.rule(RAY, "The value terms of code and specification, restricted to rays through the origin, agree for angles from 1e-14 to 100 rad (the switch between series and closed form may be anywhere as long as it is accurate).")
    ray(c, "lie_so3", 3)
    ray(c, "lie_se3", 6)
    for n in ("lie_skew", "lie_so3", "lie_se3"):
        c.pair(n)
    c.floor("specified operations", 3)

@check("C33")
def c33(c):
    c.rule("summary equals specification", SUM)
    for n in ("reg_align", "gn_optimize", "lm_optimize", "result_ctor"):
        c.pair(n)
    c.floor("specified operations", 4)
