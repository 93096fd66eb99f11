"""Transfer functions of the library vocabulary (Eigen, std, TBB, OpenMP runtime)."""
from .terms import *
from . import terms as TT
from . import interp as I

def M(v):
    """(r, c, entries) of a matrix-valued term (ite leaves pushed into entries)"""
    if v.op == "mat":
        return v.args
    if v.op == "ite":
        for l in leafset(v):
            if l.op == "mat":
                r, c = l.args[:2]
                return r, c, tuple(el(v, i, j) for i in range(r) for j in range(c))
    return None

def mapmat(v, f):
    r, c, E = M(v)
    return mat(r, c, [f(x) for x in E])

def zipmat(a, b, f):
    ma, mb = M(a), M(b)
    if ma is None:
        return mat(mb[0], mb[1], [f(a, y) for y in mb[2]])
    if mb is None:
        return mat(ma[0], ma[1], [f(x, b) for x in ma[2]])
    if ma[0] * ma[1] != mb[0] * mb[1]:
        raise I.Undecided("shape mismatch")
    return mat(ma[0], ma[1], [f(x, y) for x, y in zip(ma[2], mb[2])])

def matmul(a, b):
    r, n, A = M(a)
    n2, c, B = M(b)
    if n != n2:
        if n2 == 3 and (r, n) == (4, 4) and c == 1:       # affine * point
            return mat(3, 1, [sum_([mul(A[i * 4 + k], B[k]) for k in range(3)] + [A[i * 4 + 3]]) for i in range(3)])
        raise I.Undecided("matrix shapes")
    return mat(r, c, [sum_([mul(A[i * n + k], B[k * c + j]) for k in range(n)]) for i in range(r) for j in range(c)])

def transpose(v):
    r, c, E = M(v)
    return mat(c, r, [E[i * c + j] for j in range(c) for i in range(r)])

def opaque_mat(name, v, r, c):
    t = mk(name, v)
    return mat(r, c, [el(t, i, j) for i in range(r) for j in range(c)])

def minverse(v):
    r, c, E = M(v)
    if r == 1:
        return mat(1, 1, [inv(E[0])])
    # affine/rigid transforms keep the constant bottom row
    t = mk("minv", mat(r, c, E))
    if r == 4 and E[12:] == (ZERO, ZERO, ZERO, ONE):
        return mat(4, 4, [el(t, i, j) if i < 3 else (ONE if j == 3 else ZERO) for i in range(4) for j in range(4)])
    return mat(r, c, [el(t, i, j) for i in range(r) for j in range(c)])

def sqnorm(v):
    return sum_([mul(x, x) for x in M(v)[2]])

CMP = {"<": lambda a, b: lt(a, b, False), ">": lambda a, b: lt(b, a, False), "<=": lambda a, b: le(a, b, False), ">=": lambda a, b: le(b, a, False),
       "==": lambda a, b: eq(a, b), "!=": lambda a, b: NOT(eq(a, b))}

def is_array_op(node):
    f = node.get("f")
    q = f.get("qn", "") if isinstance(f, dict) else ""
    ot = I.strip_t(node.get("ot", ""))
    return q.startswith("Eigen::ArrayBase<") or q.startswith("Eigen::Array<") or ot.startswith("Eigen::ArrayBase<") or ot.startswith("Eigen::Array<")

def is_int_mat(node):
    f = node.get("f")
    q = (f.get("qn", "") if isinstance(f, dict) else "") + node.get("ot", "")
    return ("<int" in q or "long" in q) and "double" not in q and "float" not in q

def mat_arith(ip, op, a, b, node):
    ma, mb = M(a), M(b)
    if op in CMP:
        if is_array_op(node):
            f = CMP[op]
            if is_int_mat(node):
                f = {"<": lt, ">": lambda x, y: lt(y, x), "<=": le, ">=": lambda x, y: le(y, x), "==": eq, "!=": lambda x, y: NOT(eq(x, y))}[op]
            return zipmat(a, b, f)
        if ma is None or mb is None:
            return atomb(mk("cond", app("mat" + op, a, b)))
        r = AND(*[eq(x, y) for x, y in zip(ma[2], mb[2])])
        return r if op == "==" else NOT(r)
    if op == "+":
        return zipmat(a, b, add)
    if op == "-":
        return zipmat(a, b, sub)
    if op == "*":
        if ma is None or mb is None:
            if (ma is None and a.op in ("lv",)) or (mb is None and b.op == "lv"):
                pass
            return zipmat(a, b, mul)
        if is_array_op(node):
            return zipmat(a, b, mul)
        return matmul(a, b)
    if op == "/":
        return zipmat(a, b, div)
    if op in ("&", "&&"):
        return zipmat(a, b, AND)
    if op in ("|", "||"):
        return zipmat(a, b, OR)
    return None

def shape_t(t):
    """fixed shape of an Eigen (expression) type string, or None"""
    y = I.ty(t)
    if y.k in ("mat", "tf"):
        return y.r, y.c
    return None

def view(ip, o):
    """(LV or None, matrix value, R, C, kind) of an Eigen operand"""
    if isinstance(o, I.Comma):
        o = o.lv
    if isinstance(o, I.LV):
        y = I.ty(o.t)
        if y.k in ("mat", "tf"):
            return o, y.r, y.c, y.k
        return o, None, None, y.k
    return None, None, None, None

def blk(ip, o, r0, c0, h, w, arr=False):
    """sub-block as a place if o is one, else as a value"""
    lv, R, C, kind = view(ip, o)
    T_ = "Eigen::%s<double, %d, %d>" % ("Array" if arr else "Matrix", h, w)
    if lv is not None and R is not None:
        p = ip.ext(lv.p, ("blk", r0, c0, h, w, R, C, kind))
        def merge(x):     # flatten block of block
            return x
        return I.LV(p, T_)
    v = ip.rv(o)
    m = M(v)
    if m is None:
        return None
    r, c, E = m
    return mat(h, w, [E[(r0 + i) * c + c0 + j] for i in range(h) for j in range(w)])

def cst(ip, e):
    return ival(ip.rv(ip.ev(e)))

# ------------------------------------------------------------------ Eigen
def eigen_method(ip, e, o, args, name, q):
    f = e["f"]
    ta = f.get("ta") or []
    lv, R, C, kind = view(ip, o)
    def val():
        return ip.rv(o)
    if q.startswith("Eigen::CommaInitializer"):
        if name == "operator,":
            return comma_push(ip, o, args[0])
        return o.lv if isinstance(o, I.Comma) else None
    if name == "operator<<":
        c = I.Comma(lv if lv is not None else (o if isinstance(o, I.LV) else ip.temp(o, e.get("ot") or e["args"][0].get("t", ""))))
        return comma_push(ip, c, args[0])
    if q.startswith("Eigen::SelfAdjointEigenSolver"):
        if name in ("computeDirect", "compute"):
            a = ip.rv(ip.ev(args[0]))
            ip.storev(o, mk("eig", a))
            return o
        b = val()
        if name == "eigenvectors":
            r = M(b.args[0])[0] if b.op == "eig" and M(b.args[0]) else 3
            return opaque_mat("eigvec", b, r, r)
        if name == "eigenvalues":
            r = M(b.args[0])[0] if b.op == "eig" and M(b.args[0]) else 3
            return opaque_mat("eigval", b, r, 1)
        return None
    if q.startswith("Eigen::SolverBase") or q.startswith("Eigen::LDLT") or q.startswith("Eigen::LLT"):
        if name == "compute":
            ip.storev(o, mk("ldlt" if q.startswith("Eigen::LDLT") else "llt", ip.rv(ip.ev(args[0]))))
            return o
        b = val()
        if name == "solve":
            a = ip.rv(ip.ev(args[0]))
            m = M(a)
            if m is None:
                return None
            return opaque_mat("solve", mk("pair", b, a), m[0], m[1])
        return None
    if name in ("block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
        if name == "block":
            if len(ta) >= 2 and len(args) == 2:
                h, w = int(ta[0]), int(ta[1])
                r0, c0 = cst(ip, args[0]), cst(ip, args[1])
            elif len(args) == 4:
                r0, c0, h, w = [cst(ip, a) for a in args]
            else:
                return None
        else:
            if len(ta) >= 2:
                h, w = int(ta[0]), int(ta[1])
            else:
                h, w = [cst(ip, a) for a in args]
            sh = (R, C) if R else M(val())[:2]
            r0 = 0 if name.startswith("top") else sh[0] - h
            c0 = 0 if "Left" in name else sh[1] - w
        if None in (r0, c0, h, w):
            return None
        return blk(ip, o, r0, c0, h, w)
    if name in ("head", "tail", "segment", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
        ints = [x for x in ta if x.lstrip("-").isdigit()]
        av = [cst(ip, a) for a in args]
        if ints:
            n = int(ints[0])
            start = av[0] if name in ("segment", "middleRows", "middleCols") else None
        else:
            if name in ("segment", "middleRows", "middleCols"):
                start, n = av[0], av[1]
            else:
                n, start = av[0], None
        if n is None:
            return None
        if R is None:
            v = val()
            m = M(v)
            if m is None and v.op == "drow" and name == "head":
                return transpose(drow_elems(v, n))
            if m is None:
                return None
            R, C = m[:2]
        if name in ("head", "tail", "segment"):
            tot = R * C
            s = {"head": 0, "tail": tot - n}.get(name, start)
            if s is None:
                return None
            return blk(ip, o, s, 0, n, 1) if C == 1 else blk(ip, o, 0, s, 1, n)
        if name in ("topRows", "bottomRows", "middleRows"):
            s = {"topRows": 0, "bottomRows": R - n}.get(name, start)
            return blk(ip, o, s, 0, n, C)
        s = {"leftCols": 0, "rightCols": C - n}.get(name, start)
        return blk(ip, o, 0, s, R, n)
    if name in ("col", "row"):
        i = ip.rv(ip.ev(args[0]))
        n = ival(i)
        if R is None:
            m = M(val())
            if m is None:
                if name == "row" and kind == "dyn" and lv is not None:
                    return mk("drow", val(), i)
                return None
            R, C = m[:2]
        if n is None:
            return None
        return blk(ip, o, 0, n, R, 1) if name == "col" else blk(ip, o, n, 0, 1, C)
    if name in ("head", "tail", "segment"):
        v = val()
        if v.op == "drow" and name == "head" and ta and ta[0].isdigit():
            return drow_elems(v, int(ta[0]))
    if name == "diagonal" and lv is not None and R is not None:
        n = min(R, C)
        return I.LV(ip.ext(lv.p, ("sub", tuple((i, i) for i in range(n)), R, C, kind)), "Eigen::Matrix<double, %d, 1>" % n)
    if name == "diagonal":
        r, c, E = M(val())
        return mat(r, 1, [E[i * c + i] for i in range(r)])
    if name in ("x", "y", "z", "w") and not args:
        n = "xyzw".index(name)
        if lv is not None and R is not None:
            return I.LV(ip.ext(lv.p, ("m", n, 0, R, C, kind)), e.get("t", "double"))
        m = M(val())
        return m[2][n] if m else None
    if name in ("operator()", "operator[]", "coeff", "coeffRef"):
        idx = [ip.rv(ip.ev(a)) for a in args]
        n = [ival(x) for x in idx]
        if lv is not None and kind == "dyn":
            i = idx[0]
            j = idx[1] if len(idx) > 1 else ZERO
            return I.LV(ip.ext(lv.p, ("m", i, j, None, None, "dyn")), e.get("t", "double"))
        if R is None:
            m = M(val())
            if m is None:
                return None
            R, C = m[:2]
        if len(idx) == 2:
            i, j = idx
        elif C == 1:
            i, j = idx[0], ZERO
        elif R == 1:
            i, j = ZERO, idx[0]
        else:
            return None
        ii = ival(i) if ival(i) is not None else i
        jj = ival(j) if ival(j) is not None else j
        if lv is not None:
            return I.LV(ip.ext(lv.p, ("m", ii, jj, R, C, kind)), e.get("t", "double"))
        return ip.mel(val(), ii, jj, R, C, "mat")
    if name == "matrix" and (kind == "tf" or q.startswith("Eigen::Transform")):
        if lv is not None:
            return I.LV(lv.p, "Eigen::Matrix<double, 4, 4>") if kind != "tf" else I.LV(lv.p, "Eigen::Transform<double, 3, 1, 0>")
        return val()
    if q.startswith("Eigen::Transform"):
        if lv is not None:
            lv = I.LV(lv.p, "Eigen::Transform<double, 3, 1, 0>")
        src = lv if lv is not None else o
        if name in ("linear", "rotation"):
            return blk(ip, src, 0, 0, 3, 3)
        if name == "translation":
            return blk(ip, src, 0, 3, 3, 1)
        if name == "affine":
            return blk(ip, src, 0, 0, 3, 4)
        if name == "inverse":
            return minverse(ip.rv(src))
        if name == "setIdentity":
            ip.storev(src, ident(4))
            return src
        if name == "operator*":
            a = ip.rv(src)
            b = ip.rv(ip.ev(args[0]))
            return matmul(a, b)
        if name in ("cast",):
            return src
        if name in ("operator()",):
            return None
    if name in ("array", "matrix", "eval", "derived", "noalias", "finished", "selfadjointView", "const_cast_derived", "real", "reshaped"):
        if name == "array" and lv is not None:
            return lv
        return o
    if name == "cast":
        if ta and ta[0] in I.INT_T:
            return mapmat(val(), lambda x: app("trunc", x))
        if ta and ta[0] == "float" and "double" in str(e.get("clst") or q):
            v = val()
            return mapmat(v, lambda x: app("f32", x)) if M(v) is not None else v
        return val()
    if name == "transpose":
        if val().op == "drow":
            return val()
        return transpose(val())
    if name in ("homogeneous", "hnormalized") and M(val()) is not None:
        r, c, E = M(val())
        if c == 1:
            if name == "homogeneous":
                return mat(r + 1, 1, list(E) + [ONE])
            if r > 1:
                return mat(r - 1, 1, [mul(x, inv(E[-1])) for x in E[:-1]])
    if name in ("adjoint",):
        return transpose(val())
    if name == "asDiagonal":
        r, c, E = M(val())
        n = r * c
        return mat(n, n, [E[i] if i == j else ZERO for i in range(n) for j in range(n)])
    if name == "inverse":
        if q.startswith("Eigen::Quaternion"):
            return None
        if is_array_op(e):
            return mapmat(val(), inv)
        return minverse(val())
    if name == "determinant":
        return mk("det", val())
    if name == "squaredNorm":
        return sqnorm(val())
    if name in ("norm", "stableNorm"):
        return app("sqrt", sqnorm(val()))
    if name in ("normalized",):
        v = val()
        n = inv(app("sqrt", sqnorm(v)))
        return mapmat(v, lambda x: mul(x, n))
    if name == "normalize":
        v = val()
        n = inv(app("sqrt", sqnorm(v)))
        ip.storev(lv, mapmat(v, lambda x: mul(x, n)))
        return mk("void")
    if name == "dot":
        a, b = val(), ip.rv(ip.ev(args[0]))
        return sum_([mul(x, y) for x, y in zip(M(a)[2], M(b)[2])])
    if name == "cross":
        a, b = M(val())[2], M(ip.rv(ip.ev(args[0])))[2]
        return mat(3, 1, [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))])
    if name == "cwiseProduct":
        return zipmat(val(), ip.rv(ip.ev(args[0])), mul)
    if name == "cwiseQuotient":
        return zipmat(val(), ip.rv(ip.ev(args[0])), div)
    if name in ("cwiseMin", "min", "cwiseMax", "max") and args:
        n = name.replace("cwise", "").lower()
        return zipmat(val(), ip.rv(ip.ev(args[0])), lambda x, y: minmax(n, x, y))
    if name in ("cwiseAbs", "abs"):
        return mapmat(val(), lambda x: app("abs", x))
    if name in ("square", "cwiseAbs2", "abs2"):
        return mapmat(val(), lambda x: mul(x, x))
    if name in ("sqrt", "floor", "ceil", "round", "exp", "log", "sin", "cos", "cwiseSqrt"):
        n = {"cwiseSqrt": "sqrt"}.get(name, name)
        return mapmat(val(), lambda x: app(n, x))
    if name in ("cwiseInverse",):
        return mapmat(val(), inv)
    if name in ("cwiseEqual",):
        return zipmat(val(), ip.rv(ip.ev(args[0])), eq)
    if name == "sum":
        return sum_(M(val())[2])
    if name == "mean":
        m = M(val())[2]
        return mul(num(Fraction(1, len(m))), sum_(m))
    if name == "prod":
        r = ONE
        for x in M(val())[2]:
            r = mul(r, x)
        return r
    if name == "trace":
        r, c, E = M(val())
        return sum_([E[i * c + i] for i in range(r)])
    if name in ("maxCoeff", "minCoeff"):
        m = M(val())
        if args:
            v = val()
            t = app("arg" + name, v)
            for a in args:
                x = ip.rv(ip.ev(a))
                ip.storev(ip.deref(x, "long"), t)
            r = m[2][0]
            for x in m[2][1:]:
                r = minmax(name[:3], r, x)
            return r
        r = m[2][0]
        for x in m[2][1:]:
            r = minmax(name[:3], r, x)
        return r
    if name == "any":
        return OR(*[asbool(x) for x in M(val())[2]])
    if name == "all":
        return AND(*[asbool(x) for x in M(val())[2]])
    if name == "count":
        return sum_([ite(asbool(x), ONE, ZERO) for x in M(val())[2]])
    if name == "allFinite":
        return AND(*[atomb(mk("cond", app("isfinite", x))) for x in M(val())[2]])
    if name in ("hasNaN",):
        return OR(*[atomb(mk("cond", app("isnan", x))) for x in M(val())[2]])
    if name in ("setZero", "setOnes", "setConstant", "setIdentity", "fill") and lv is not None and R is not None:
        if name == "setIdentity":
            v = ident(R)
        else:
            c = {"setZero": ZERO, "setOnes": ONE}.get(name)
            if c is None:
                c = ip.rv(ip.ev(args[0]))
            v = mat(R, C, [c] * (R * C))
        ip.storev(lv, v)
        return lv
    if name in ("rows", "cols", "size"):
        if R is not None:
            return num({"rows": R, "cols": C, "size": R * C}[name])
        v = val()
        m = M(v)
        if m:
            return num({"rows": m[0], "cols": m[1], "size": m[0] * m[1]}[name])
        return app(name, v)
    if name == "data" and lv is not None:
        return ip.ext(lv.p, ("i", ZERO))
    if name.startswith("operator "):
        m = M(val())
        if m and m[0] * m[1] == 1:
            return m[2][0]
        return None
    if name in ("value",):
        m = M(val())
        return m[2][0] if m and len(m[2]) == 1 else None
    if name in ("toRotationMatrix",):
        return quat_rot(val())
    if name in ("coeffs", "vec") and q.startswith("Eigen::Quaternion"):
        return o if name == "coeffs" else blk(ip, o, 0, 0, 3, 1)
    if name == "isApprox":
        return atomb(mk("cond", app("isApprox", val(), ip.rv(ip.ev(args[0])))))
    if name == "ldlt" or name == "llt":
        return mk(name, val())
    if name in ("operator+", "operator-", "operator*", "operator/", "operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!=", "operator&&", "operator||"):
        op = name[8:]
        a = val()
        if not args:
            return mapmat(a, neg) if op == "-" else a
        b = ip.rv(ip.ev(args[0]))
        if op == "*" and q.startswith("Eigen::Quaternion"):
            return None
        return mat_arith(ip, op, a, b, e)
    if name == "operator!":
        return mapmat(val(), lambda x: NOT(asbool(x)))
    if name in ("swap",):
        b = ip.ev(args[0])
        if lv is not None and isinstance(b, I.LV):
            x, y = ip.load(lv), ip.load(b)
            ip.storev(lv, y)
            ip.storev(b, x)
            return mk("void")
    return None

def ident(n):
    return mat(n, n, [ONE if i == j else ZERO for i in range(n) for j in range(n)])

def quat_rot(q):
    x, y, z, w = M(q)[2]
    two = num(2)
    tx, ty_, tz = mul(two, x), mul(two, y), mul(two, z)
    twx, twy, twz = mul(tx, w), mul(ty_, w), mul(tz, w)
    txx, txy, txz = mul(tx, x), mul(ty_, x), mul(tz, x)
    tyy, tyz, tzz = mul(ty_, y), mul(tz, y), mul(tz, z)
    return mat(3, 3, [sub(ONE, add(tyy, tzz)), sub(txy, twz), add(txz, twy), add(txy, twz), sub(ONE, add(txx, tzz)), sub(tyz, twx), sub(txz, twy), add(tyz, twx), sub(ONE, add(txx, tyy))])

def drow_elems(v, n):
    return mat(n, 1, [mk("elx", v.args[0], v.args[1], num(j)) for j in range(n)])

def comma_push(ip, c, item):
    if not isinstance(c, I.Comma):
        return None
    x = ip.rv(ip.ev(item))
    c.items.append(x)
    y = I.ty(c.lv.t)
    if y.k not in ("mat", "tf"):
        ip.note("comma initialiser on dynamic matrix")
        return c
    R, C = y.r, y.c
    E = [None] * (R * C)
    r = cc = 0
    h = 1
    if c.items[0].op == "drow" and all(M(it) is None for it in c.items):
        # a row of run-time length fills what the scalars after it leave (Eigen requires the total to fit)
        n = R * C - len(c.items) + 1
        if n < 0:
            raise I.Undecided("comma initialiser overflow")
        ip.storev(c.lv, mat(R, C, list(drow_elems(c.items[0], n).args[2]) + c.items[1:]))
        return c
    for it in c.items:
        m = M(it)
        a, b, ent = m if m else (1, 1, (it,))
        if cc == C:
            r += h
            cc = 0
        h = a
        for i in range(a):
            for j in range(b):
                if r + i >= R or cc + j >= C:
                    raise I.Undecided("comma initialiser overflow")
                E[(r + i) * C + cc + j] = ent[i * b + j]
        cc += b
    cur = None
    if any(x is None for x in E):
        if len(c.items) > 0:
            cur = ip.load(c.lv, False)
            E = [el(cur, i // C, i % C) if x is None else x for i, x in enumerate(E)]
    ip.storev(c.lv, mat(R, C, E))
    return c

def minmax(n, a, b):
    def f(x, y):
        if x.op == "num" and y.op == "num":
            return num(min(x.args[0], y.args[0]) if n == "min" else max(x.args[0], y.args[0]))
        if x is y:
            return x
        d = sub(x, y)
        if d.op == "num":
            return (x if d.args[0] < 0 else y) if n == "min" else (x if d.args[0] > 0 else y)
        xs = []
        for z in (x, y):
            if z.op == "app" and z.args[0] == n:
                xs += list(z.args[1:])
            else:
                xs.append(z)
        xs = sorted(set(xs), key=lambda z: z.id)
        return xs[0] if len(xs) == 1 else mk("app", n, *xs)
    return liftn(f, a, b)

# ------------------------------------------------------------------ std containers
def vec_of(ip, lv):
    return ip.load(I.LV(lv.p, ""), False)

def default_value(ip, t):
    st = I.strip_t(t)
    y = I.ty(t)
    if y.k == "int":
        return FALSE if st == "bool" else ZERO
    if y.k == "float":
        return ZERO
    if y.k == "ptr":
        return NULL
    if y.k in ("mat", "tf"):
        return mat(y.r, y.c, [UNDEF] * (y.r * y.c))
    if st.startswith("std::vector<") or st.startswith("std::deque<"):
        return mk("vec", ZERO, fill(mk("dflt")))
    if st.startswith("std::array<"):
        return mk("vec", num(int(I.targs(st)[1])), fill(UNDEF))
    if st.startswith("std::unordered_map<") or st.startswith("std::map<"):
        return mk("emptymap")
    if st.startswith("std::basic_string") or st == "std::string":
        return mk("str", "")
    return mk("newobj", st)

def construct_value(ip, t, vals):
    """value of T(args...) for emplace-like calls"""
    st = I.strip_t(t)
    if len(vals) == 1:
        return I.adapt(vals[0], t)
    if not vals:
        return default_value(ip, t)
    if st.startswith("std::pair<"):
        return mkrec(mk("newobj", "std::pair"), {"first": vals[0], "second": vals[1]})
    y = I.ty(st)
    if y.k == "mat" and len(vals) == y.r * y.c:
        return mat(y.r, y.c, vals)
    # a constructor of the analysed program
    for q, fs in ip.prog.byq.items():
        for f in fs:
            if f.get("ctor") and f["_tu"] == ip.tu and f.get("clst") == st and len(f["params"]) == len(vals):
                r = ip.fresh("loc", "emp")
                ip.store[r] = ip.fresh_obj(st)
                ip.inline(f, list(vals), I.P(r))
                return ip.get(r)
    return mk("app", "make:" + st.split("<")[0], *vals)

def vector_method(ip, e, o, args, name):
    ot = I.strip_t(e.get("ot", "") or (o.t if isinstance(o, I.LV) else ""))
    if not isinstance(o, I.LV):
        o = ip.temp(o, ot) if o.op not in ("ptr",) else I.LV(o, ot)
    et = I.elem_type(ot) if "<" in ot else "?"
    if et == "?" and "<" in (o.t or ""):
        et = I.elem_type(o.t)
    def st():
        ip.log(True, *vroot(ip, o, "$vec"))
    def rd(what="$size"):
        ip.log(False, *vroot(ip, o, what))
    isarr = ot.startswith("std::array<")
    def size():
        rd()
        return num(int(I.targs(ot)[1])) if isarr else size_of(vec_of(ip, o))
    if name == "size":
        return size()
    if name == "empty":
        return eq(size(), ZERO)
    if name in ("operator[]", "at"):
        i = ip.rv(ip.ev(args[0]))
        if name == "at" and not isarr:
            # an index out of range leaves through an exception
            c = lt(i, size())
            old = ip.pc
            ip.pc = AND(old, NOT(c))
            if ip.pc is not FALSE:
                ip.event("throw", "throw")
            ip.pc = AND(old, c)
        elif not isarr and o.p.op == "ptr":
            ip.in_range(vec_of(ip, o), i, "reference to")
        return I.LV(ip.ext(o.p, ("i", i)), et)
    if name == "data" or name in ("begin", "cbegin"):
        return ip.ext(o.p, ("i", ZERO))
    if name in ("end", "cend"):
        return ip.ext(o.p, ("i", size()))
    if name in ("front", "back", "pop_back") and not isarr and o.p.op == "ptr":
        ip.in_range(vec_of(ip, o), ZERO, "%s() of" % name)
    if name == "front":
        return I.LV(ip.ext(o.p, ("i", ZERO)), et)
    if name == "back":
        return I.LV(ip.ext(o.p, ("i", sub(size(), ONE))), et)
    if name in ("reserve", "shrink_to_fit"):
        for a in args:
            ip.rv(ip.ev(a))
        return mk("void")
    if name in ("push_back", "emplace_back"):
        vals = [ip.rv(ip.ev(a)) for a in args]
        x = construct_value(ip, et, vals) if name == "emplace_back" else I.adapt(vals[0], et)
        v = as_vec(vec_of(ip, o))
        n = size_of(v)
        rd()
        ip.storev(I.LV(o.p, ""), mk("vec", add(n, ONE), aupd(v.args[1], n, x)), log=False)
        ip.wlog.append(vroot(ip, o, None))
        st()
        return I.LV(ip.ext(o.p, ("i", n)), et)
    if name == "pop_back":
        v = as_vec(vec_of(ip, o))
        ip.storev(I.LV(o.p, ""), mk("vec", sub(v.args[0], ONE), v.args[1]), log=False)
        ip.wlog.append(vroot(ip, o, None))
        st()
        return mk("void")
    if name in ("resize", "assign", "clear"):
        vals = [ip.rv(ip.ev(a)) for a in args]
        v = as_vec(vec_of(ip, o))
        if name == "clear":
            nv = mk("vec", ZERO, fill(mk("dflt")))
        elif name == "assign":
            if len(vals) == 2 and ip.ptrlike(vals[0]):
                nv = range_vec(ip, vals[0], vals[1])
            else:
                nv = mk("vec", vals[0], fill(vals[1]))
        else:
            dv = vals[1] if len(vals) > 1 else elem_default(ip, o.t) if o.t else mk("dflt")
            old = v.args[0]
            if name == "resize" and vals[0] is old:
                nv = ip.load(I.LV(o.p, ""), False)         # the size it has already
            elif old is ZERO or old is UNDEF:
                nv = mk("vec", vals[0], fill(dv))
            else:
                nv = mk("vec", vals[0], mk("rsz", v.args[1], old, dv))
        ip.event("resize" if name == "resize" else name, name, [v] + vals, obj=o, node=e)
        ip.storev(I.LV(o.p, ""), nv, log=False)
        ip.wlog.append(vroot(ip, o, None))
        st()
        return mk("void")
    if name == "erase":
        vals = [ip.eptr(ip.rv(ip.ev(a)), "x*") for a in args]
        v = as_vec(vec_of(ip, o))
        idx = []
        for x in vals:
            if x.op == "ptr" and x.args[1] and x.args[1][-1][0] == "i":
                idx.append(x.args[1][-1][1])
            else:
                return None
        n = v.args[0]
        if len(idx) == 2 and idx[1] is n:
            nv = mk("vec", idx[0], v.args[1])
        else:
            lo = idx[0]
            hi = idx[1] if len(idx) == 2 else add(lo, ONE)
            nv = mk("vec", sub(n, sub(hi, lo)), mk("erased", v.args[1], lo, hi))
        ip.event("erase", "erase", [v] + idx, obj=o, node=e)
        ip.storev(I.LV(o.p, ""), nv, log=False)
        ip.wlog.append(vroot(ip, o, None))
        st()
        return vals[0]
    if name == "insert":
        vals = [ip.eptr(ip.rv(ip.ev(a)), "x*") if i == 0 else ip.rv(ip.ev(a)) for i, a in enumerate(args)]
        v = as_vec(vec_of(ip, o))
        if len(vals) == 3 and vals[0].op == "ptr" and vals[0].args[1][-1][1] is v.args[0] and ip.ptrlike(vals[1]):
            w = range_vec(ip, vals[1], vals[2])
            nv = mk("vec", add(v.args[0], w.args[0]), mk("concat", v.args[1], v.args[0], w.args[1], w.args[0]))
            ip.storev(I.LV(o.p, ""), nv, log=False)
            ip.wlog.append(vroot(ip, o, None))
            st()
            return vals[0]
        return None
    if name == "swap":
        b = ip.ev(args[0])
        if isinstance(b, I.LV):
            return swap(ip, o, b)
    if name == "fill":
        x = ip.rv(ip.ev(args[0]))
        ip.storev(I.LV(o.p, ""), mk("vec", size(), fill(x)))
        return mk("void")
    return None

def vroot(ip, o, what):
    p = o.p
    while p.op == "ite":
        p = p.args[1]
    if p.op != "ptr":
        return (mk("root", "loc", "?"), ())
    return (p.args[0], p.args[1] + ((what,),) if what else p.args[1])

def range_vec(ip, a, b):
    """vector of the elements [a, b)"""
    a, b = ip.eptr(a, "x*"), ip.eptr(b, "x*")
    if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0] and a.args[1][:-1] == b.args[1][:-1]:
        v = ip.get(a.args[0])
        for x in a.args[1][:-1]:
            v = ip.project(v, x)
        v = as_vec(v)
        lo, hi = a.args[1][-1][1], b.args[1][-1][1]
        if lo is ZERO:
            return mk("vec", hi, v.args[1])
        return mk("vec", sub(hi, lo), mk("slice", v.args[1], lo))
    return mk("vec", mk("app", "ptrdiff", b, a), mk("arr", mk("range", a, b)))

def swap(ip, a, b):
    x, y = ip.load(a), ip.load(b)
    ip.storev(a, y)
    ip.storev(b, x)
    return mk("void")

def map_method(ip, e, o, args, name):
    ot = I.strip_t(e.get("ot", ""))
    if not isinstance(o, I.LV):
        o = ip.temp(o, ot)
    mv = vec_of(ip, o)
    a = I.targs(I.strip_t(o.t) if "map<" in o.t else ot)
    vt = a[1] if len(a) > 1 else "?"
    if name == "find":
        ip.log(False, *vroot(ip, o, "$map"))
        k = ip.rv(ip.ev(args[0]))
        return map_find(o.p, mv, k)
    if name in ("end", "cend"):
        return mk("mapend", o.p)
    if name in ("count", "contains"):
        k = ip.rv(ip.ev(args[0]))
        h = map_has(mv, k)
        return h if name == "contains" else ite(h, ONE, ZERO)
    if name in ("emplace_hint", "emplace", "insert", "try_emplace", "insert_or_assign"):
        vals = [ip.rv(ip.ev(x)) for x in args]
        if name == "emplace_hint":
            vals = vals[1:]
        if len(vals) == 1:
            k, v = fld_raw(vals[0], "first"), fld_raw(vals[0], "second")
        else:
            k, v = vals[0], construct_value(ip, vt, vals[1:])
        has = map_has(mv, k)
        nv = ite(has, mv, map_put(mv, k, v)) if name != "insert_or_assign" else map_put(mv, k, v)
        ip.event("map_insert", name, (mv, k, v), obj=o, node=e)
        ip.storev(I.LV(o.p, ""), nv)
        it = mk("mapit", o.p, k)
        if name == "emplace_hint":
            return it
        return mkrec(mk("newobj", "std::pair"), {"first": it, "second": NOT(has)})
    if name == "operator[]":
        k = ip.rv(ip.ev(args[0]))
        has = map_has(mv, k)
        if has is not TRUE:
            ip.event("map_insert", name, (mv, k), obj=o, node=e)
            ip.storev(I.LV(o.p, ""), ite(has, mv, map_put(mv, k, default_value(ip, vt))))
        return I.LV(ip.ext(o.p, ("mv", k)), vt)
    if name == "at":
        k = ip.rv(ip.ev(args[0]))
        return I.LV(ip.ext(o.p, ("mv", k)), vt)
    if name == "clear":
        ip.storev(I.LV(o.p, ""), mk("emptymap"))
        ip.event("map_clear", name, (mv,), obj=o, node=e)
        return mk("void")
    if name == "size":
        return app("mapsize", mv)
    if name == "empty":
        return eq(app("mapsize", mv), ZERO)
    if name == "reserve":
        for x in args:
            ip.rv(ip.ev(x))
        return mk("void")
    return None

def map_has(m, k):
    def f(m):
        if m.op == "emptymap":
            return FALSE
        if m.op == "mapput":
            if m.args[1] is k:
                return TRUE
            return OR(eq_key(m.args[1], k), map_has(m.args[0], k))
        return atomb(mk("cond", mk("app", "map_has", m, k)))
    return lift1(f, m)
def eq_key(a, b):
    if M(a) and M(b):
        return AND(*[eq(x, y) for x, y in zip(M(a)[2], M(b)[2])])
    return eq(a, b)
def map_get(m, k):
    def f(m):
        if m.op == "mapput":
            if m.args[1] is k:
                return m.args[2]
            c = eq_key(m.args[1], k)
            if c is FALSE:
                return map_get(m.args[0], k)
            return ite(c, m.args[2], map_get(m.args[0], k))
        return mk("app", "map_get", m, k)
    return lift1(f, m)
def map_put(m, k, v):
    return mk("mapput", _but(m, k), k, v)
def _but(m, k):
    """the map, as far as keys other than k are concerned"""
    if m.op == "mapput" and m.args[1] is k:
        return _but(m.args[0], k)
    if m.op == "ite":
        a, b = _but(m.args[1], k), _but(m.args[2], k)
        if a is b:
            return a
    return m
def map_find(p, m, k):
    h = map_has(m, k)
    return ite(h, mk("mapit", p, k), mk("mapend", p))

# hook map projections into the interpreter
_proj, _upd = I.Interp.project, I.Interp.update
def _project(self, v, e):
    if e[0] == "mv":
        return map_get(v, e[1])
    return _proj(self, v, e)
def _update(self, v, path, val):
    if path and path[0][0] == "mv":
        k = path[0][1]
        return map_put(v, k, self.update(map_get(v, k), path[1:], val))
    return _upd(self, v, path, val)
I.Interp.project = _project
I.Interp.update = _update

# ------------------------------------------------------------------ methods
def method(ip, e, o, args):
    f = e["f"]
    q = f.get("qn", "")
    qb = I.qbase(q)
    name = qb.split("::")[-1]
    try:
        if q.startswith("Eigen::"):
            return eigen_method(ip, e, o, args, name, q)
    except I.Undecided as x:
        ip.note("eigen %s: %s" % (name, x))
        return None
    if q.startswith("std::vector<") or q.startswith("std::array<") or q.startswith("std::deque<"):
        return vector_method(ip, e, o, args, name)
    if q.startswith("pcl::PointCloud<") and name in ("at", "operator[]", "size", "resize", "push_back", "emplace_back", "clear", "empty", "begin", "end", "front", "back") and (name not in ("at", "operator()") or len(args) == 1):
        pt = f["cta"][0] if f.get("cta") else "?"
        if not isinstance(o, I.LV):
            o = ip.deref(o, "") if o.op == "ptr" or e.get("arrow") else ip.temp(o, "")
        return vector_method(ip, dict(e, ot="std::vector<%s>" % pt), I.LV(ip.ext(o.p, ("f", "points")), "std::vector<%s>" % pt), args, name)
    if q.startswith("std::unordered_map<") or q.startswith("std::map<"):
        return map_method(ip, e, o, args, name)
    if q.startswith("__gnu_cxx::__normal_iterator<") or q.startswith("std::reverse_iterator<"):
        v = ip.eptr(ip.rv(o), "x*")
        t = I.elem_type(q.split("::operator")[0] if "::operator" in q else q)
        if name == "operator*":
            return I.LV(v, e.get("t", t))
        if name == "operator->":
            return v
        if name == "operator[]":
            return I.LV(ip.ptr_add(v, ip.rv(ip.ev(args[0]))), e.get("t", t))
        if name in ("operator+", "operator-"):
            b = ip.rv(ip.ev(args[0]))
            if name == "operator-" and (ip.ptrlike(b) or b.op not in ("num", "poly", "size", "lv", "k")):
                b2 = ip.eptr(b, "x*")
                if ip.ptrlike(b2) and (ip.ptrlike(b)):
                    return ip.ptr_diff(v, b2)
            return ip.ptr_add(v, b if name == "operator+" else neg(b))
        if name in ("operator++", "operator--") and isinstance(o, I.LV):
            new = ip.ptr_add(v, ONE if name == "operator++" else num(-1))
            ip.storev(o, new)
            return v if args else o
        if name in ("operator+=", "operator-=") and isinstance(o, I.LV):
            b = ip.rv(ip.ev(args[0]))
            ip.storev(o, ip.ptr_add(v, b if name == "operator+=" else neg(b)))
            return o
        if name == "base":
            return v
        return None
    if "shared_ptr" in q.split("::operator")[0] or "unique_ptr" in q.split("::operator")[0]:
        v = ip.rv(o)
        if name == "operator*":
            return ip.deref_smart(v, e.get("t", ""))
        if name in ("operator->", "get"):
            return lift1(lambda x: x if x.op in ("ptr", "null", "undef") else I.P(mk("root", "mem", x)), v)
        if name == "operator bool":
            return asbool(v)
        if name == "reset":
            ip.storev(o, ip.rv(ip.ev(args[0])) if args else NULL)
            return mk("void")
        if name == "use_count":
            return app("use_count", v)
        if name == "swap":
            b = ip.ev(args[0])
            if isinstance(b, I.LV) and isinstance(o, I.LV):
                return swap(ip, o, b)
        return None
    if q.startswith("std::__detail::_Node_"):
        v = ip.rv(o)
        if name in ("operator->", "operator*"):
            def f2(x):
                if x.op == "mapit":
                    r = ip.fresh("loc", "mapentry")
                    ip.store[r] = mkrec(mk("newobj", "std::pair"), {"first": x.args[1], "second": mk("ref", ip.ext(x.args[0], ("mv", x.args[1])))})
                    return mk("mapent", x.args[0], x.args[1])
                return x
            ent = lift1(lambda x: mk("ptr", mk("root", "ent", x.args[0], x.args[1]), ()) if x.op == "mapit" else (UNDEF if x.op in ("mapend", "undef") else I.P(mk("root", "mem", x))), v)
            if name == "operator*":
                return I.LV(ent, e.get("t", ""))
            return ent
        return None
    if q.startswith("std::atomic") or q.startswith("std::__atomic"):
        ip.atomic += 1
        ak = ip.akind
        ip.akind = "load" if name.startswith("operator ") or name == "load" else "store" if name in ("store", "operator=") else "rmw"
        try:
            if name in ("fetch_add", "fetch_sub"):
                old = ip.load(I.LV(o.p, ""))
                d = ip.rv(ip.ev(args[0]))
                ip.storev(I.LV(o.p, ""), add(old, d if name == "fetch_add" else neg(d)))
                return ip.reserved(old)
            if name in ("operator++", "operator--"):
                old = ip.load(I.LV(o.p, ""))
                new = add(old, ONE if name == "operator++" else num(-1))
                ip.storev(I.LV(o.p, ""), new)
                old = ip.reserved(old)
                return old if args else add(old, ONE if name == "operator++" else num(-1))
            if name in ("operator+=", "operator-="):
                old = ip.load(I.LV(o.p, ""))
                d = ip.rv(ip.ev(args[0]))
                new = add(old, d if name == "operator+=" else neg(d))
                ip.storev(I.LV(o.p, ""), new)
                return add(ip.reserved(old), d if name == "operator+=" else neg(d))
            if name.startswith("operator ") or name == "load":
                return ip.load(I.LV(o.p, ""))
            if name in ("store", "operator="):
                x = ip.rv(ip.ev(args[0]))
                ip.storev(I.LV(o.p, ""), x)
                return x
            if name == "exchange":
                old = ip.load(I.LV(o.p, ""))
                ip.storev(I.LV(o.p, ""), ip.rv(ip.ev(args[0])))
                return old
        finally:
            ip.atomic -= 1
            ip.akind = ak
        return None
    if q.startswith("tbb::") and "blocked_range" in q:
        v = ip.rv(o)
        if name in ("begin", "end", "grainsize"):
            r = fld_raw(v, name)
            return r
        if name == "size":
            return sub(fld_raw(v, "end"), fld_raw(v, "begin"))
        if name == "empty":
            return NOT(lt(fld_raw(v, "begin"), fld_raw(v, "end")))
        return None
    if q.startswith("std::basic_ostream") or q.startswith("std::basic_ios") and name == "flush":
        if is_console(ip, o):
            for a in args:
                ip.rv(ip.ev(a))
            return o
        return None
    if q.startswith("std::function<") and name == "operator()":
        v = ip.rv(o)
        r = ip.call_closure(v, args, None)
        return r
    if q.startswith("std::basic_string"):
        v = ip.rv(o)
        if name == "empty":
            return eq(size_of(v), ZERO)
        if name in ("size", "length"):
            return size_of(v)
        return None
    return None

def is_console(ip, o):
    if isinstance(o, I.LV):
        p = o.p
        if p.op == "ptr" and p.args[0].args[0] == "glob" and ("cout" in p.args[0].args[1] or "cerr" in p.args[0].args[1]):
            return True
    if isinstance(o, T) and o.op == "console":
        return True
    return False

# ------------------------------------------------------------------ free functions
MATH = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "exp", "log", "floor", "ceil", "round", "abs", "fabs", "pow", "cbrt", "fmod", "hypot", "isfinite", "isnan", "sinf", "cosf", "sqrtf"}

def call(ip, e, args):
    f = e["f"]
    q = f.get("qn", "")
    qb = I.qbase(q)
    name = qb.split("::")[-1]
    ta = f.get("ta") or []
    V = lambda i: ip.rv(ip.ev(args[i]))
    if name in MATH and (qb.startswith("std::") or "::" not in qb):
        vs = [V(i) for i in range(len(args))]
        n = {"fabs": "abs", "sqrtf": "sqrt", "sinf": "sin", "cosf": "cos"}.get(name, name)
        if n == "pow" and ival(vs[1]) is not None and 0 <= ival(vs[1]) <= 6:
            r = ONE
            for _ in range(ival(vs[1])):
                r = mul(r, vs[0])
            return r
        if n in ("isfinite", "isnan"):
            return atomb(mk("cond", app(n, vs[0])))
        return app(n, *vs)
    try:
        if qb.startswith("Eigen::"):
            return eigen_call(ip, e, args, name, q)
    except I.Undecided as x:
        ip.note("eigen %s: %s" % (name, x))
        return None
    if name in ("abort", "exit", "terminate", "_Exit", "quick_exit", "__throw_out_of_range_fmt") and (qb.startswith("std::") or "::" not in qb):
        ip.event("abort", name)
        ip.pc = FALSE
        return UNDEF
    if qb == "omp_get_thread_num":
        return mk("app", "omp_get_thread_num")
    if qb in ("omp_get_max_threads", "omp_get_num_threads", "omp_get_num_procs"):
        return mk("app", qb)
    if qb.startswith("std::"):
        return std_call(ip, e, args, name, q)
    if qb.startswith("tbb::"):
        return tbb_call(ip, e, args, name, q)
    if qb.startswith("__gnu_cxx::"):
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-"):
            a, b = ip.eptr(V(0), "x*"), ip.eptr(V(1), "x*")
            if name == "operator-":
                return ip.ptr_diff(a, b)
            return ip.binop(name[8:], a, b, "long", "long", e)
        if name == "operator+":
            return ip.ptr_add(ip.eptr(V(1), "x*"), V(0))
    return None

def eigen_call(ip, e, args, name, q):
    t = e.get("t", "")
    ft = q[:q.rfind("::")] if "::" in q else ""
    def shape():
        # DenseBase<Matrix<..>>::Zero
        i = q.find("<")
        inner = q[i + 1:]
        for cand in (t, I.split_targs(inner[:inner.rfind(">")])[0] if ">" in inner else ""):
            y = I.ty(cand)
            if y.k in ("mat", "tf"):
                return y.r, y.c
        return None
    V = lambda i: ip.rv(ip.ev(args[i]))
    if name in ("Zero", "Ones", "Identity", "Constant", "Random", "UnitX", "UnitY", "UnitZ", "UnitW", "Unit"):
        if "Transform" in ft:
            return ident(4)
        if "Quaternion" in ft:
            return mat(4, 1, [ZERO, ZERO, ZERO, ONE])
        sh = shape()
        if sh is None:
            return None
        r, c = sh
        if name == "Identity":
            return mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
        if name == "Zero" or name == "Ones":
            return mat(r, c, [ZERO if name == "Zero" else ONE] * (r * c))
        if name == "Constant":
            v = V(len(args) - 1)
            return mat(r, c, [v] * (r * c))
        if name.startswith("Unit"):
            n = "XYZW".index(name[4:]) if name != "Unit" else ival(V(0))
            return mat(r, c, [ONE if i == n else ZERO for i in range(r * c)])
        return None
    if name.startswith("operator"):
        op = name[8:]
        if op == "<<":
            return None
        vs = [V(i) for i in range(len(args))]
        if len(vs) == 2:
            if op == "*":
                a, b = vs
                if M(a) is None or M(b) is None:
                    return zipmat(a, b, mul)
                if "DiagonalBase" in q or "MatrixBase" in q or "ta" in e["f"] and "MatrixBase" in str(e["f"].get("ta")):
                    return matmul(a, b)
                if M(a)[1] == M(b)[0]:
                    return matmul(a, b)
            return mat_arith(ip, op, vs[0], vs[1], e)
        if len(vs) == 1 and op == "-":
            return mapmat(vs[0], neg)
    return None

def ptr_range(ip, a, b):
    """(root, prefix, lo, hi) for an iterator pair"""
    a, b = ip.eptr(a, "x*"), ip.eptr(b, "x*")
    if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0] and a.args[1] and b.args[1] and a.args[1][:-1] == b.args[1][:-1] and a.args[1][-1][0] == "i" and b.args[1][-1][0] == "i":
        return a.args[0], a.args[1][:-1], a.args[1][-1][1], b.args[1][-1][1]
    return None

def apply_pred(ip, fv, args):
    """apply a callable value to argument terms (LVs / values)"""
    if fv.op == "closure" or fv.op == "ite":
        r = ip.call_closure(fv, args, None)
        return None if r is None else r
    return None

class FnCall:
    pass

def callable_of(ip, e, i, args):
    """python callable applying argument i of call e"""
    x = ip.ev(args[i])
    v = ip.rv(x) if not isinstance(x, I.LV) else ip.load(x, False)
    if v.op == "closure":
        return lambda *a: ip.call_closure(v, list(a), None)
    # functor object: find operator()
    t = I.strip_t(args[i].get("t", "") or (x.t if isinstance(x, I.LV) else ""))
    for fs in ip.prog.byq.values():
        for f in fs:
            if f["_tu"] == ip.tu and f.get("clst") == t and I.qbase(f["qn"]).endswith("operator()") and f.get("body") is not None:
                lv = x if isinstance(x, I.LV) else ip.temp(v, t)
                return lambda *a, f=f, lv=lv: ip.inline(f, list(a), lv.p)
    qn = "%s::operator()" % t.split("<")[0]
    def call_opq(*a):
        vals = [ip.rv(y) if isinstance(y, I.LV) else y for y in a]
        c = mk("app", qn, v, *vals)
        return c
    return call_opq

def elem_at(ip, rng, idx, t):
    root, pre, lo, hi = rng
    return I.LV(mk("ptr", root, pre + (("i", idx),)), t)

def iter_elem(e, i):
    return I.elem_type(e["args"][i].get("t", "")) if e["args"][i].get("t") else "?"

def std_call(ip, e, args, name, q):
    V = lambda i: ip.rv(ip.ev(args[i]))
    if name in ("move", "forward", "as_const", "ref", "cref"):
        return ip.ev(args[0])
    if name in ("min", "max") and len(args) == 2:
        return minmax(name, V(0), V(1))
    if name == "clamp" and len(args) == 3:
        return minmax("min", minmax("max", V(0), V(1)), V(2))
    if name in ("make_shared", "make_unique"):
        ta = e["f"].get("ta") or []
        t = ta[0] if ta else "?"
        r = ip.fresh("heap", "new")
        if e.get("mk") is not None and ip.callee(e["mk"]) is not None:
            ip.store[r] = ip.fresh_obj(t)
            ip.construct(I.LV(I.P(r), t), e["mk"])
            x = ip.store[r]
        else:
            x = make_object(ip, t, args, e)
            ip.store[r] = x
        ip.event("new", t, (x,))
        return I.P(r)
    if name == "swap":
        a, b = ip.ev(args[0]), ip.ev(args[1])
        if isinstance(a, I.LV) and isinstance(b, I.LV):
            return swap(ip, a, b)
        return None
    if name == "exchange":
        a = ip.ev(args[0])
        v = V(1)
        if isinstance(a, I.LV):
            old = ip.load(a)
            ip.storev(a, v)
            return old
    if name == "make_pair":
        return mkrec(mk("newobj", "std::pair"), {"first": V(0), "second": V(1)})
    if name in ("make_tuple", "forward_as_tuple"):
        return mkrec(mk("newobj", "std::tuple"), {"t%d" % i: V(i) for i in range(len(args))})
    if name == "tie":
        lvs = [ip.ev(a) for a in args]
        if all(isinstance(x, I.LV) for x in lvs):
            return mk("tie", *[x.p for x in lvs])
        return None
    if name == "get" and e["f"].get("ta"):
        i = e["f"]["ta"][0]
        x = ip.ev(args[0])
        if i.isdigit():
            t = x.t if isinstance(x, I.LV) else e["args"][0].get("t", "")
            fl = I.tuple_field(t, int(i)) if "array" not in t else None
            if fl:
                if isinstance(x, I.LV):
                    return I.LV(ip.ext(x.p, ("f", fl)), e.get("t", ""))
                return fld_raw(x, fl)
    if name == "distance":
        a, b = ip.eptr(V(0), "x*"), ip.eptr(V(1), "x*")
        return ip.ptr_diff(b, a)
    if name in ("next", "prev"):
        a = ip.eptr(V(0), "x*")
        n = V(1) if len(args) > 1 else ONE
        return ip.ptr_add(a, n if name == "next" else neg(n))
    if name in ("begin", "end", "cbegin", "cend", "size", "data", "empty"):
        x = ip.ev(args[0])
        if isinstance(x, I.LV):
            t = I.strip_t(x.t)
            n = name.lstrip("c") if name != "clear" else name
            if t.endswith("]"):
                return ip.ext(x.p, ("i", ZERO if n in ("begin", "data") else size_of(vec_of(ip, x))))
            return vector_method(ip, {"ot": t}, x, [], n)
        return None
    if name in ("fill", "fill_n", "iota"):
        a = V(0)
        b = V(1)
        v = V(2)
        if name == "fill_n":
            a = ip.eptr(a, "x*")
            b = ip.ptr_add(a, b)
        r = ptr_range(ip, a, b)
        if r is None:
            return None
        root, pre, lo, hi = r
        old = ip.get(root)
        for x in pre:
            old = ip.project(old, x)
        oldv = as_vec(old) if old is not UNDEF else mk("vec", UNDEF, UNDEF)
        full = lo is ZERO and hi is oldv.args[0]
        if name == "iota":
            d = 0
            bv = mk("bv", max([0] + [x.args[0] + 1 for x in collect(mk("t", lo, hi, v), lambda y: y.op == "bv")]))
            na = mk("maparr", lo, hi, add(v, sub(bv, lo)), oldv.args[1], bv)
        else:
            bv = mk("bv", max([0] + [x.args[0] + 1 for x in collect(mk("t", lo, hi, v), lambda y: y.op == "bv")]))
            na = fill(v) if full else mk("maparr", lo, hi, v, oldv.args[1], bv)
        ip.storev(I.LV(mk("ptr", root, pre), ""), mk("vec", oldv.args[0], na), log=False)
        ip.wlog.append((root, pre))
        ip.log(True, root, pre + (("rng", lo, hi),))
        return mk("void")
    if name in ("generate", "generate_n") and len(args) == 3:
        return algo_generate(ip, e, args, name)
    if name in ("any_of", "all_of", "none_of", "count_if", "for_each", "accumulate", "find_if", "count", "find", "find_if_not", "min_element", "max_element"):
        return algo_loop(ip, e, args, name)
    if name in ("sort", "stable_sort", "nth_element", "partition", "stable_partition", "partial_sort", "inplace_merge", "remove_if", "unique", "reverse", "merge", "shuffle", "make_heap", "push_heap", "pop_heap", "sort_heap"):
        return algo_perm(ip, e, args, name)
    if name == "copy" and len(args) == 3:
        r = ptr_range(ip, V(0), V(1))
        d = ip.eptr(V(2), "x*")
        if r and d.op == "ptr" and d.args[1] and d.args[1][-1][0] == "i":
            root, pre, lo, hi = r
            src = ip.get(root)
            for x in pre:
                src = ip.project(src, x)
            dlo = d.args[1][-1][1]
            old = ip.get(d.args[0])
            for x in d.args[1][:-1]:
                old = ip.project(old, x)
            ov = as_vec(old) if old is not UNDEF else mk("vec", UNDEF, UNDEF)
            dhi = add(dlo, sub(hi, lo))
            bvn = max([0] + [x.args[0] + 1 for x in collect(mk("t", lo, dlo, src), lambda y: y.op == "bv")])
            bv = mk("bv", bvn)
            body = sel(lift1(TT._arr1, src), add(sub(bv, dlo), lo))
            ip.log(False, root, pre + (("rng", lo, hi),))
            ip.storev(I.LV(mk("ptr", d.args[0], d.args[1][:-1]), ""), mk("vec", ov.args[0], mk("maparr", dlo, dhi, body, ov.args[1], bv)), log=False)
            ip.wlog.append((d.args[0], d.args[1][:-1]))
            ip.log(True, d.args[0], d.args[1][:-1] + (("rng", dlo, dhi),))
            return ip.ptr_add(d, sub(hi, lo))
        return None
    if name == "transform" and len(args) == 4:
        return algo_transform(ip, e, args)
    if name in ("operator==", "operator!="):
        a, b = V(0), V(1)
        if a.op in ("mapit", "mapend") or b.op in ("mapit", "mapend") or a.op == "ite" or b.op == "ite":
            r = eq(a, b)
            return r if name == "operator==" else NOT(r)
        a, b = (ip.eptr(a, "x*"), ip.eptr(b, "x*")) if (ip.ptrlike(a) or ip.ptrlike(b)) else (a, b)
        r = eq(a, b)
        return r if name == "operator==" else NOT(r)
    if name in ("operator<<",):
        o = ip.ev(args[0])
        if is_console(ip, o):
            ip.rv(ip.ev(args[1]))
            return o
        return None
    if name in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast"):
        v = V(0)
        return v if name != "dynamic_pointer_cast" else app("dyncast", v)
    if name in ("operator<", "operator>", "operator<=", "operator>="):
        a, b = V(0), V(1)
        if ip.ptrlike(a):
            return ip.binop(name[8:], a, b, "long", "long", e)
        return None
    if name in ("epsilon", "infinity", "quiet_NaN", "lowest") or "numeric_limits" in q:
        t = I.targs(q)
        t0 = t[0].split(">")[0] if t else "?"
        w = I.BITS.get(t0)
        if w and name in ("max", "min", "lowest"):
            if t0.startswith("unsigned"):
                return num((1 << w) - 1) if name == "max" else ZERO
            return num((1 << (w - 1)) - 1) if name == "max" else num(-(1 << (w - 1)))
        return mk("app", "limit_%s_%s" % (t0, name))
    return None

def make_object(ip, t, args, e):
    """value of T(args...)"""
    for q, fs in ip.prog.byq.items():
        for f in fs:
            if f.get("ctor") and f["_tu"] == ip.tu and f.get("clst") == I.strip_t(t) and len(f["params"]) == len(args) and not f.get("copy") and not any(fr.fn is f for fr in ip.frames):
                if ip.opaque({"qn": f["qn"]}):
                    continue
                if not args_match(f, args):
                    continue
                r = ip.fresh("loc", "obj")
                ip.store[r] = ip.fresh_obj(t)
                ip.inline(f, args, I.P(r), e)
                return ip.get(r)
    vals = [ip.rv(ip.ev(a)) for a in args]
    if not vals:
        return default_value(ip, t) if I.ty(t).k != "obj" else default_obj(ip, t)
    if len(vals) == 1 and I.strip_t(args[0].get("t", "")) == I.strip_t(t):
        return vals[0]
    ev = ip.event("construct", t, vals, node=e)
    return mk("app", "make:" + I.strip_t(t), *vals)

def args_match(f, args):
    for p, a in zip(f["params"], args):
        pt, at = I.strip_t(p["t"]), I.strip_t(a.get("t", ""))
        if not at:
            continue
        k1, k2 = I.ty(pt).k, I.ty(at).k
        if k1 == "obj" and k2 == "obj" and pt != at and at.split("<")[0] != pt.split("<")[0]:
            return False
        if k1 != k2 and not {k1, k2} <= {"int", "float"}:
            return False
        if k1 == "ptr" and k2 == "ptr" and pt.split("<")[0] != at.split("<")[0]:
            return False
        if "std::vector<" in pt and pt != at:
            return False
    return True

def default_obj(ip, t):
    d = default_value(ip, t)
    return d

def algo_loop(ip, e, args, name):
    """algorithms over a range, run through the interpreter's own loop machinery"""
    a = ip.eptr(ip.rv(ip.ev(args[0])), "x*")
    b = ip.eptr(ip.rv(ip.ev(args[1])), "x*")
    r = ptr_range(ip, a, b)
    if r is None:
        return None
    et = iter_elem(e, 0)
    idx = ip.temp(ZERO, "unsigned long", "ai")
    res = None
    if name in ("any_of", "all_of", "none_of"):
        res = ip.temp(FALSE if name != "all_of" else TRUE, "bool", "ar")
    elif name in ("count_if", "count"):
        res = ip.temp(ZERO, "unsigned long", "ar")
    elif name == "accumulate":
        res = ip.temp(ip.rv(ip.ev(args[2])), e.get("t", ""), "ar")
    pred = None
    if name == "accumulate":
        pred = callable_of(ip, e, 3, args) if len(args) > 3 else None
    elif name in ("count", "find"):
        x = ip.rv(ip.ev(args[2]))
        pred = lambda el_: eq(ip.rv(el_), x)
    elif name in ("min_element", "max_element"):
        arr = range_vec(ip, a, b)
        c = cmp_term(ip, e, args, 2) if len(args) > 2 else mk("less")
        return ip.ptr_add(a, mk("app", name, arr, c))
    else:
        pred = callable_of(ip, e, 2, args)
    n = sub(r[3], r[2])
    def cond():
        return lt(ip.load(idx, False), n)
    def inc():
        ip.storev(idx, add(ip.load(idx, False), ONE))
    found = []
    def body():
        x = elem_at(ip, r, add(r[2], ip.load(idx, False)), et)
        if name == "for_each":
            pred(x)
            return
        if name == "accumulate":
            cur = ip.load(res, False)
            if pred:
                v = ip.rv(pred(ip.temp(cur, e.get("t", "")), x))
            else:
                v = ip.arith("+", cur, ip.rv(x), e, e.get("t", ""))
            ip.storev(res, v)
            return
        p = asbool(ip.rv(pred(x)))
        if name == "any_of":
            ip.storev(res, OR(ip.load(res, False), p))
        elif name == "none_of":
            ip.storev(res, OR(ip.load(res, False), p))
        elif name == "all_of":
            ip.storev(res, AND(ip.load(res, False), p))
        elif name in ("count_if", "count"):
            ip.storev(res, add(ip.load(res, False), ite(p, ONE, ZERO)))
        else:
            c = p if name != "find_if_not" else NOT(p)
            ip.fork(c, lambda: ip.s_break({}), None)
    ip.loop(cond, inc, body, {"k": "algo:" + name, "l": ip.line})
    if name == "for_each":
        return mk("void")
    if name in ("find_if", "find", "find_if_not"):
        return ip.ptr_add(a, ip.load(idx, False))
    v = ip.load(res, False)
    if name == "none_of":
        v = NOT(v)
    return v

def algo_generate(ip, e, args, name):
    d = ip.eptr(ip.rv(ip.ev(args[0])), "x*")
    if d.op != "ptr":
        return None
    if name == "generate":
        r = ptr_range(ip, d, ip.eptr(ip.rv(ip.ev(args[1])), "x*"))
        if r is None:
            return None
        n = sub(r[3], r[2])
    else:
        n = ip.rv(ip.ev(args[1]))
    dt = iter_elem(e, 0)
    fn = callable_of(ip, e, 2, args)
    if fn is None:
        return None
    idx = ip.temp(ZERO, "unsigned long", "ai")
    def body():
        v = ip.rv(fn())
        ip.storev(I.LV(ip.ptr_add(d, ip.load(idx, False)), dt), v)
    ip.loop(lambda: lt(ip.load(idx, False), n), lambda: ip.storev(idx, add(ip.load(idx, False), ONE)), body, {"k": "algo:" + name, "l": ip.line})
    return mk("void") if name == "generate" else ip.ptr_add(d, n)

def algo_transform(ip, e, args):
    r = ptr_range(ip, ip.rv(ip.ev(args[0])), ip.rv(ip.ev(args[1])))
    d = ip.eptr(ip.rv(ip.ev(args[2])), "x*")
    if r is None or d.op != "ptr":
        return None
    et, dt = iter_elem(e, 0), iter_elem(e, 2)
    pred = callable_of(ip, e, 3, args)
    idx = ip.temp(ZERO, "unsigned long", "ai")
    n = sub(r[3], r[2])
    def cond():
        return lt(ip.load(idx, False), n)
    def inc():
        ip.storev(idx, add(ip.load(idx, False), ONE))
    def body():
        i = ip.load(idx, False)
        v = ip.rv(pred(elem_at(ip, r, add(r[2], i), et)))
        ip.storev(I.LV(ip.ptr_add(d, i), dt), v)
    ip.loop(cond, inc, body, {"k": "algo:transform", "l": ip.line})
    return ip.ptr_add(d, n)

def cmp_term(ip, e, args, i):
    """canonical term of a comparator / predicate / key function"""
    t = iter_elem(e, 0)
    x, y = mk("sym", "cmp_a"), mk("sym", "cmp_b")
    n = 1 if I.qbase(e["f"]["qn"]).split("::")[-1] in ("partition", "stable_partition", "remove_if", "any_of", "count_if") else 2
    rx = mk("root", "par", x)
    ry = mk("root", "par", y)
    fn = callable_of(ip, e, i, args)
    a = [I.LV(I.P(rx), t), I.LV(I.P(ry), t)][:n]
    s0, p0 = dict(ip.store), ip.pc
    ne, na = len(ip.events), len(ip.acc)
    v = fn(*a)
    if v is None:
        return mk("unk", "comparator")
    v = ip.rv(v) if isinstance(v, I.LV) else v
    del ip.events[ne:]
    ip.store, ip.pc = s0, p0
    return asbool(v) if v.op != "unk" else v

def container_perm(ip, e, args, name):
    """an ordering algorithm given a whole container"""
    o = ip.ev(args[0])
    st = I.strip_t(args[0].get("t", ""))
    if not isinstance(o, I.LV) or o.p.op != "ptr" or not st.startswith(("std::vector<", "std::deque<")):
        return None
    et = I.targs(st)[0]
    x, y = mk("sym", "cmp_a"), mk("sym", "cmp_b")
    c = mk("less")
    if len(args) > 1:
        fn = callable_of(ip, e, 1, args)
        s0, p0, ne, na_ = dict(ip.store), ip.pc, len(ip.events), len(ip.acc)
        v = fn(I.LV(I.P(mk("root", "par", x)), et), I.LV(I.P(mk("root", "par", y)), et))
        if v is None:
            return None
        v = ip.rv(v) if isinstance(v, I.LV) else v
        del ip.events[ne:], ip.acc[na_:]
        ip.store, ip.pc = s0, p0
        c = asbool(v) if v.op != "unk" else v
    root, pre = o.p.args
    old = ip.get(root)
    for q in pre:
        old = ip.project(old, q)
    ov = as_vec(old)
    if ov.op != "vec":
        return None
    a = [ov.args[1], ZERO, ov.args[0], c]
    ip.event("algo", name, (mk("vec", ov.args[0], ov.args[1]), ZERO, ov.args[0], c), node=e, aptr=(mk("ptr", root, pre),))
    ip.log(False, root, pre + (("rng", ZERO, ov.args[0]),))
    ip.storev(I.LV(mk("ptr", root, pre), ""), mk("vec", ov.args[0], perm(name, *a)), log=False)
    ip.wlog.append((root, pre))
    ip.log(True, root, pre + (("rng", ZERO, ov.args[0]),))
    return mk("void")

def algo_perm(ip, e, args, name):
    vals = [ip.eptr(ip.rv(ip.ev(args[0])), "x*"), ip.eptr(ip.rv(ip.ev(args[1])), "x*")]
    third = None
    ncmp = {"nth_element": 3, "inplace_merge": 3, "partial_sort": 3}.get(name, 2)
    if ncmp == 3:
        vals.append(ip.eptr(ip.rv(ip.ev(args[2])), "x*"))
    first, last = vals[0], vals[-1] if ncmp == 3 else vals[1]
    r = ptr_range(ip, first, last)
    c = mk("less")
    if len(args) > ncmp:
        ip.rdlog, old = [], ip.rdlog
        c = cmp_term(ip, e, args, ncmp)
        reads, ip.rdlog = ip.rdlog, old
        if r is not None and any(a[0] is r[0] for a in reads):
            # a reference into the sequence does not keep its value while elements move
            c = mk("app", "reads the sequence while it is reordered", c)
    if r is None:
        ip.event("algo", name, tuple(vals) + (c,), node=e)
        return None
    root, pre, lo, hi = r
    mid = None
    if ncmp == 3:
        m = ptr_range(ip, first, vals[1])
        mid = m[3] if m else UNDEF
    old = ip.get(root)
    for x in pre:
        old = ip.project(old, x)
    ov = as_vec(old) if old is not UNDEF else mk("vec", UNDEF, UNDEF)
    a = [ov.args[1], lo, hi, c] + ([mid] if mid is not None else [])
    na = perm(name, *a)
    ev = ip.event("algo", name, tuple([mk("vec", sub(hi, lo), ov.args[1]), lo, hi, c] + ([mid] if mid is not None else [])), node=e, aptr=(mk("ptr", root, pre),))
    ip.log(False, root, pre + (("rng", lo, hi),))
    ip.storev(I.LV(mk("ptr", root, pre), ""), mk("vec", ov.args[0], na), log=False)
    ip.wlog.append((root, pre))
    ip.log(True, root, pre + (("rng", lo, hi),))
    if name in ("partition", "stable_partition", "remove_if", "unique"):
        return ip.ptr_add(first, part_pt(name, *a))
    return mk("void")

# ------------------------------------------------------------------ TBB
def tbb_call(ip, e, args, name, q):
    if name in ("parallel_for", "parallel_for_each"):
        t0 = I.strip_t(args[0].get("t", ""))
        if "blocked_range" in t0:
            rng = ip.rv(ip.ev(args[0]))
            return tbb_range_loop(ip, e, rng, args, 1, "tbb::parallel_for")
        if I.ty(t0).k == "int":
            lo, hi = ip.rv(ip.ev(args[0])), ip.rv(ip.ev(args[1]))
            fi = len(args) - 1
            while fi > 1 and ("partitioner" in args[fi].get("t", "") or "task_group" in args[fi].get("t", "")):
                fi -= 1
            step = ip.rv(ip.ev(args[2])) if fi == 3 else ONE
            fn = callable_of(ip, e, fi, args)
            idx = ip.temp(lo, "unsigned long", "pi")
            p = I.Par("tbb::parallel_for", e, (idx.p.args[0],), (), ip.line, ip.file)
            p.store0 = set(ip.store)
            ip.par.append(p)
            def body():
                fn(ip.load(idx, False))
            ip.loop(lambda: lt(ip.load(idx, False), hi), lambda: ip.storev(idx, add(ip.load(idx, False), step)), body, {"k": "tbb", "l": ip.line, "_par": p})
            ip.par.pop()
            return mk("void")
        return None
    if name in ("parallel_reduce", "parallel_deterministic_reduce"):
        rng = ip.rv(ip.ev(args[0]))
        ev = ip.event("tbb_reduce", name, (rng,), node=e)
        if len(args) >= 4 and "partitioner" not in args[2].get("t", ""):
            init = ip.rv(ip.ev(args[1]))
            fn = callable_of(ip, e, 2, args)
            p = I.Par("tbb::parallel_reduce", e, (), (), ip.line, ip.file)
            p.store0 = set(ip.store)
            ip.par.append(p)
            v = ip.rv(fn(ip.temp(rng, "tbb::blocked_range<unsigned long>"), ip.temp(init, e.get("t", ""))))
            ip.par.pop()
            return v
        b = ip.ev(args[1])
        fn = None
        t = I.strip_t(args[1].get("t", ""))
        for fs in ip.prog.byq.values():
            for f in fs:
                if f["_tu"] == ip.tu and f.get("clst") == t and I.qbase(f["qn"]).endswith("operator()"):
                    fn = f
        if fn is None or not isinstance(b, I.LV):
            return None
        p = I.Par("tbb::parallel_reduce", e, [b.p.args[0]] if b.p.op == "ptr" else [], (), ip.line, ip.file)
        p.store0 = set(ip.store)
        p.body_t = t
        ip.par.append(p)
        ip.inline(fn, [ip.temp(rng, "tbb::blocked_range<unsigned long>")], b.p, e)
        ip.par.pop()
        return mk("void")
    if name == "parallel_invoke":
        for i in range(len(args)):
            fn = callable_of(ip, e, i, args)
            p = I.Par("tbb::parallel_invoke", e, (), (), ip.line, ip.file)
            p.store0 = set(ip.store)
            p.branch = i
            ip.par.append(p)
            fn()
            ip.par.pop()
        return mk("void")
    if name == "parallel_sort":
        if len(args) == 1 or I.strip_t(args[0].get("t", "")).startswith(("std::vector<", "std::deque<")):
            return container_perm(ip, e, args, "sort")
        return algo_perm(ip, dict(e, f=dict(e["f"], qn="std::sort")), args, "sort")
    if name == "parallel_scan":
        return None
    return None

def tbb_range_loop(ip, e, rng, args, fi, kind):
    lo, hi = fld_raw(rng, "begin"), fld_raw(rng, "end")
    ip.nkey += 1
    key = ip.nkey
    rb, re_ = mk("rb", key), mk("re", key)
    fn = callable_of(ip, e, fi, args)
    if lt(lo, hi) is FALSE:
        return mk("void")          # nothing to do
    p = I.Par(kind, e, (), (), ip.line, ip.file)
    p.store0 = set(ip.store)
    p.rb, p.re, p.lo, p.hi = rb, re_, lo, hi
    p.grain = fld_raw(rng, "grainsize")
    ip.par.append(p)
    s0, p0 = ip.store, ip.pc
    # locations shared between sub-ranges are havoced once, then the summary is
    # composed over adjacent sub-ranges
    L = I.Loop(key, ip.line, ip.file)
    L.kind = "tbb_range"
    L.par = p
    L.parent = ip.loops[-1] if ip.loops else None
    L.fn = ip.frames[-1].fn.get("qn")
    L.k = mk("k", key)
    locs, whole = [], set()
    n_ev, n_acc, n_l, n_w = len(ip.events), len(ip.acc), len(ip.all_loops), len(ip.wlog)
    sub_ = mkrec(mk("newobj", "tbb::blocked_range"), {"begin": rb, "end": re_, "grainsize": fld_raw(rng, "grainsize")})
    ip.loops.append(L)
    for npass in range(6):
        ip.store, ip.pc = dict(s0), TRUE
        del ip.events[n_ev:], ip.acc[n_acc:], ip.all_loops[n_l:], ip.wlog[n_w:]
        ip.gstack.append(p0)
        leaves_, inits = ip.havoc(locs, L, {}, whole)
        fn(ip.temp(sub_, "tbb::blocked_range<unsigned long>"))
        ip.gstack.pop()
        new = ip.norm_locs(ip.wlog[n_w:], s0, whole, key)
        ch = False
        for l in new:
            if not any(I.covers(o, l) for o in locs):
                locs = [o for o in locs if not I.covers(l, o)] + [l]
                ch = True
        if not ch:
            break
    ip.loops.pop()
    L.init, L.leaf = inits, leaves_
    L.next = {lf: ip.leaf_value(ip.store, lf, TRUE) for lf in leaves_}
    L.rb, L.re, L.lo, L.hi = rb, re_, lo, hi
    L.trip = None
    L.cond, L.brk, L.rets, L.pc_end, L.pc0, L.locs, L.header = TRUE, [], [], TRUE, AND(*ip.gstack, p0), locs, s0
    L.closed = False
    ip.all_loops.append(L)
    st = dict(s0)
    m = {rb: lo, re_: hi}
    for lf in leaves_:
        cur, nx = leaves_[lf], L.next[lf]
        own = lambda t: contains(t, lambda x: x.op == "lv" and x.args[0] == key)
        fin = None
        if nx is cur:
            fin = inits[lf]
        elif nx.op == "maparr" and nx.args[3] is cur and nx.args[0] is rb and nx.args[1] is re_ and not own(nx.args[2]) and not contains(nx.args[2], lambda x: x in (rb, re_)):
            fin = mk("maparr", lo, hi, nx.args[2], inits[lf], nx.args[4])
        else:
            d = sub(nx, cur) if nx.op in POLYISH else None
            if d is not None and d.op == "sum" and d.args[0] is sub(re_, rb) and not own(d):
                fin = add(inits[lf], subst(d, m))
        if fin is None:
            fin = mk("lout", key, lf)
        L.final[lf] = fin
    # write the final values back
    ip.store, ip.pc = dict(s0), p0
    for root, path in locs:
        v = ip.get(root)
        for x in path:
            v = ip.project(v, x)
        if (root, path) not in whole and v.op not in ("ite", "mat", "rec", "undef"):
            v = as_vec(v)
        tmp = {}
        hv = ip.havoc_value(v, root, path, (), L, {}, tmp, {})
        hv = subst(hv, {tmp[lf]: L.final.get(lf, v.args[0] if lf[3] == ("size",) and v.op == "vec" else tmp[lf]) for lf in tmp})
        ip.store[root] = ip.update(ip.get(root), path, hv)
    ip.par.pop()
    return mk("void")

# ------------------------------------------------------------------ constructors / assignment
def ctor(ip, e):
    t = e.get("t", "")
    st = I.strip_t(t)
    y = I.ty(t)
    args = [a for a in e.get("args", []) if "PrivateType" not in a.get("t", "") and not I.strip_t(a.get("t", "")).startswith("std::allocator<") and not (a.get("k") == "ctor" and "allocator" in a.get("t", ""))]
    q = e["f"].get("qn", "") if isinstance(e.get("f"), dict) else ""
    V = lambda i: ip.rv(ip.ev(args[i]))
    if y.k in ("mat", "tf"):
        if not args:
            return mat(y.r, y.c, [UNDEF] * (y.r * y.c))
        if st.startswith("Eigen::Map<") and I.strip_t(args[0].get("t", "")).endswith(("*", "]")):
            a = I.targs(I.targs(st)[0])
            rm = len(a) > 3 and a[3].isdigit() and int(a[3]) & 1 and y.r != 1 and y.c != 1
            src = args[0]
            while src.get("k") in ("cast", "copy") and src.get("e"):
                src = src["e"]
            if src.get("k") == "mcall" and (src.get("f") or {}).get("qn", "").endswith("::data") and not rm and src.get("obj") is not None:
                # the elements of a whole matrix of the same shape: the matrix itself
                oy = I.ty(src["obj"].get("t", ""))
                if oy.k == "mat" and (oy.r, oy.c) == (y.r, y.c):
                    o = ip.ev(src["obj"])
                    if isinstance(o, I.LV):
                        return o
            a0 = ip.ev(args[0])
            if isinstance(a0, I.LV) and I.strip_t(args[0].get("t", "")).endswith("]"):
                p = ip.ext(a0.p, ("i", ZERO))
            else:
                p = ip.eptr(ip.rv(a0), "x*")
            def mp(x):
                if x.op == "ptr" and x.args[1] and x.args[1][-1][0] == "i":
                    return mk("ptr", x.args[0], x.args[1][:-1] + (("span", x.args[1][-1][1], y.r, y.c, bool(rm)),))
                return x
            return I.LV(lift1(mp, p), "Eigen::Matrix<double, %d, %d>" % (y.r, y.c))
        vs = [V(i) for i in range(len(args))]
        if "Quaternion" in st and len(vs) == 4:
            return mat(4, 1, [vs[1], vs[2], vs[3], vs[0]])
        if len(vs) == 1:
            m = M(vs[0])
            if m:
                if m[0] * m[1] == y.r * y.c:
                    return mat(y.r, y.c, m[2])
                if y.k == "tf":
                    if (m[0], m[1]) == (3, 3):
                        E = m[2]
                        return mat(4, 4, [E[i * 3 + j] if i < 3 and j < 3 else (ONE if i == j else ZERO) for i in range(4) for j in range(4)])
                return None if y.k == "tf" else ip.unk("matrix ctor")
            if y.r * y.c == 1:
                return mat(1, 1, [vs[0]])
            if y.k == "mat" and vs[0].op not in ("num",):
                if I.ty(args[0].get("t", "")).k == "ptr" or "*" in args[0].get("t", ""):
                    p = ip.eptr(vs[0], "x*")
                    return mat(y.r, y.c, [ip.load(I.LV(ip.ptr_add(p, num(j * y.r + i)), "double")) for i in range(y.r) for j in range(y.c)])
                if y.arr and I.ty(args[0].get("t", "")).k in ("int", "float"):
                    return mat(y.r, y.c, [vs[0]] * (y.r * y.c))
                return I.adapt(vs[0], t)
            return mat(y.r, y.c, [UNDEF] * (y.r * y.c))
        if len(vs) == y.r * y.c:
            return mat(y.r, y.c, vs)
        return None
    if st.startswith("std::vector<") or st.startswith("std::deque<"):
        if not args:
            return mk("vec", ZERO, fill(mk("dflt")))
        vs = [V(i) for i in range(len(args))]
        if len(vs) == 2 and (ip.ptrlike(vs[0]) or I.strip_t(args[0].get("t", "")).endswith("*") or "iterator" in args[0].get("t", "")):
            return range_vec(ip, vs[0], vs[1])
        if len(vs) == 1:
            t0 = I.strip_t(args[0].get("t", ""))
            if t0 == st or vs[0].op == "vec":
                return vs[0]
            if "initializer_list" in t0:
                return vs[0]
            return mk("vec", vs[0], fill(elem_default(ip, st)))
        return mk("vec", vs[0], fill(I.adapt(vs[1], I.elem_type(st))))
    if st.startswith("std::array<"):
        return V(0) if args else default_value(ip, t)
    if st.startswith("std::pair<"):
        if len(args) == 2:
            a = I.targs(st)
            return mkrec(mk("newobj", "std::pair"), {"first": I.adapt(V(0), a[0]), "second": I.adapt(V(1), a[1])})
        if len(args) == 1:
            return V(0)
        return mkrec(mk("newobj", "std::pair"), {"first": ZERO, "second": ZERO})
    if st.startswith("std::tuple<"):
        a = I.targs(st)
        if len(args) == len(a):
            return mkrec(mk("newobj", "std::tuple"), {"t%d" % i: I.adapt(V(i), a[i]) for i in range(len(args))})
        if len(args) == 1:
            return V(0)
        return None
    if st.startswith("std::shared_ptr<") or st.startswith("std::unique_ptr<"):
        if not args:
            return NULL
        return V(0)
    if st.startswith("std::atomic<") or st.startswith("std::atomic_"):
        return V(0) if args else ZERO
    if "normal_iterator<" in st or "_Node_" in st or "_Node_iterator" in st:
        return V(0) if args else UNDEF
    if "blocked_range<" in st:
        if len(args) >= 2:
            return mkrec(mk("newobj", "tbb::blocked_range"), {"begin": V(0), "end": V(1), "grainsize": V(2) if len(args) > 2 else ONE})
        return V(0)
    for solver in ("LDLT", "LLT"):
        if st.startswith("Eigen::%s<" % solver):
            v = V(0) if args else UNDEF
            return v if v.op == solver.lower() or not args else mk(solver.lower(), v)
    if st.startswith("Eigen::SelfAdjointEigenSolver<"):
        if args:
            return mk("eig", V(0))
        return mk("newobj", st)
    if st.startswith("std::unordered_map<") or st.startswith("std::map<"):
        return mk("emptymap") if not args else V(0)
    if st.startswith("std::basic_string") :
        if not args:
            return mk("str", "")
        v = V(0)
        return v
    if st.startswith("std::allocator"):
        return mk("void")
    if st.startswith("std::function<"):
        return V(0) if args else NULL
    if "PrivateType" in st:
        return mk("void")
    # unknown class
    if y.k == "dyn" and st.startswith("Eigen::Map<") and len(args) >= 3:
        return dyn_view(ip, V(0), V(1), V(2), st)
    vals = [V(i) for i in range(len(args))]
    if y.k == "dyn" and len(vals) == 1 and all(is_view(l) for l in leafset(vals[0])):
        return vals[0]
    if not vals:
        ev = ip.event("construct", st, (), node=e)
        return default_value(ip, t)
    if len(vals) == 1 and I.strip_t(args[0].get("t", "")) == st:
        return vals[0]
    if st.startswith("small_gicp::UnsafeKdTree<small_gicp::PointCloud,") and not ip.ptrlike(vals[0]):
        vals[0] = mk("tup", fld_raw(vals[0], "points"))        # a tree over a PointCloud reads nothing but its points (C15)
    ev = ip.event("construct", st, vals, node=e)
    return mk("app", "make:" + st, *vals)

def is_view(x):
    return x.op == "app" and x.args[0] in ("rowmajor", "colmajor", "emptymat")

def dyn_view(ip, p, rows, cols, st):
    """a matrix of run-time size over memory: nothing of the memory matters when there are no rows"""
    a = I.targs(I.strip_t(I.targs(st)[0]).replace("const ", ""))
    rm = len(a) > 3 and a[3].isdigit() and int(a[3]) & 1
    def f(x):
        if x.op == "ptr":
            root, path = x.args
            if len(path) > 1 and path[-1] == ("i", ZERO) and path[-2][0] == "i":
                path = path[:-1]
            if path and path[-1][0] == "i":
                v = ip.get(root)
                for y in path[:-1]:
                    v = ip.project(v, y)
                ip.log(False, root, path[:-1])
                v = as_vec(v).args[1] if v.op == "vec" else mk("arr", v) if v is not UNDEF else v
                x = v if path[-1][1] is ZERO else mk("from", v, path[-1][1])
        return mk("app", "rowmajor" if rm else "colmajor", x, rows, cols)
    return ite(eq(rows, ZERO), mk("app", "emptymat", cols), lift1(f, p))

def elem_default(ip, vt):
    et = I.elem_type(vt)
    y = I.ty(et)
    if y.k in ("int", "float"):
        return FALSE if et == "bool" else ZERO
    if y.k == "ptr":
        return NULL
    if I.strip_t(et).startswith("std::vector<"):
        return default_value(ip, et)
    return mk("dflt")

def assign(ip, e, L, r):
    """class assignment operators of library types; True if handled"""
    return False

def assign_rvalue(ip, e, L, r):
    ip.lost = True
    return ip.unk("assignment to rvalue")
