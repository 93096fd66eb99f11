"""Hash-consed value terms in a canonical form.

 * numbers are multivariate polynomials with rational coefficients over atoms
 * conditions are ordered decision diagrams over comparison atoms
 * values merged at control-flow joins are decision diagrams with value leaves,
   and operations are pushed to the leaves; so if/else, early return, ternary,
   swapped branches and re-ordered independent statements give one term
 * fixed-size matrices are arrays of scalar terms
"""
from fractions import Fraction
import struct
import sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ("op", "args", "id", "_h")
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id
    # identity equality/hash (interned)

_tab = {}
def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        _tab[key] = t
    return t

TRUE = mk("bool", True)
FALSE = mk("bool", False)
NULL = mk("null")
UNDEF = mk("undef")

def num(x):
    return mk("num", Fraction(x))
ZERO = num(0)
ONE = num(1)
HALF = num(Fraction(1, 2))

def sym(name, *a):
    return mk("sym", name, *a)

MAXSIZE = 4000   # decision-diagram node budget per operation

class TooBig(Exception):
    pass

# ---------------------------------------------------------------- ADD layer
def is_ite(t):
    return t.op == "ite"

_NUMOPS = {"num", "poly", "sym", "fld", "el", "elx", "sel", "k", "lv", "lout", "size", "app", "out", "kout", "deref", "bv"}
def node(atom, hi, lo):
    if hi is lo:
        return hi
    if atom.op in ("lt0", "le0") and hi.op in _NUMOPS and lo.op in _NUMOPS and atom.args[0].op != "ite":
        r = _as_minmax(atom, hi, lo)
        if r is not None:
            return r
    return mk("ite", atom, hi, lo)
def _as_minmax(atom, hi, lo):
    """x < y ? x : y  is  min(x, y)"""
    p = atom.args[0]
    isint = atom.op == "lt0" and atom.args[1] is True
    # cheap test first: the atoms of both alternatives have to occur in the condition
    try:
        d = sub(hi, lo)
    except Exception:
        return None
    if d.op == "num" or d.op == "ite":
        return None
    for q, n in ((d, "min"), (neg(d), "max")):
        if q is p or (isint and sub(q, p) is ONE):
            return minmax_term(n, hi, lo)
        if not isint and p.op == "poly" and q.op == "poly" and len(p.args[0]) == len(q.args[0]):
            k = q.args[0][0][1] / p.args[0][0][1]
            if k > 0 and all(m1 == m2 and c2 == k * c1 for (m1, c1), (m2, c2) in zip(p.args[0], q.args[0])):
                return minmax_term(n, hi, lo)
    return None
def minmax_term(n, x, y):
    xs = []
    for z in (x, y):
        if z.op == "app" and z.args[0] == n:
            xs += list(z.args[1:])
        else:
            xs.append(z)
    nums = [z for z in xs if z.op == "num"]
    xs = [z for z in xs if z.op != "num"]
    if nums:
        xs.append(min(nums, key=lambda z: z.args[0]) if n == "min" else max(nums, key=lambda z: z.args[0]))
    xs = sorted(set(xs), key=lambda z: z.id)
    return xs[0] if len(xs) == 1 else mk("app", n, *xs)

_ite_memo = {}
def ite(c, a, b):
    """c: boolean term (decision diagram over atoms)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    # aggregate values: merge component-wise where shapes agree
    r = _merge_agg(c, a, b)
    if r is None:
        if c.op != "ite":
            if c.op in RAWBOOL:
                c = mk("cond", c)
            c = mk("ite", c, TRUE, FALSE) if c.op != "bool" else c
        top = c.args[0]
        if a.op == "ite" and a.args[0].id < top.id:
            top = a.args[0]
        if b.op == "ite" and b.args[0].id < top.id:
            top = b.args[0]
        def cof(x, v):
            if x.op == "ite" and x.args[0] is top:
                return x.args[1] if v else x.args[2]
            return x
        r = node(top, ite(cof(c, True), cof(a, True), cof(b, True)), ite(cof(c, False), cof(a, False), cof(b, False)))
    _ite_memo[key] = r
    return r

RAWBOOL = ("lv", "lout", "sym", "fld", "sel", "el", "out", "fresh", "deref")
AGG = ("rec", "mat", "vec")
def _merge_agg(c, a, b):
    """push the condition into aggregates of equal shape"""
    if a.op in AGG and b.op in AGG and a.op == b.op:
        if a.op == "mat":
            if a.args[:2] == b.args[:2]:
                return mk("mat", a.args[0], a.args[1], tuple(ite(c, x, y) for x, y in zip(a.args[2], b.args[2])))
        elif a.op == "vec":
            return mk("vec", ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
        elif a.op == "rec":
            if a.args[0] is b.args[0]:
                da, db = dict(a.args[1]), dict(b.args[1])
                out = {}
                for k in set(da) | set(db):
                    va = da[k] if k in da else fld_raw(a.args[0], k)
                    vb = db[k] if k in db else fld_raw(b.args[0], k)
                    if va is not vb:
                        # the implicit field of the base may be untyped: adapt
                        va, vb = unify(va, vb)
                    out[k] = ite(c, va, vb)
                return mkrec(a.args[0], out)
    # one side is the (opaque) base of the other
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "rec" and x.args[0] is y:
            out = {}
            for k, v in x.args[1]:
                w = fld_raw(y, k)
                v2, w = unify(v, w)
                out[k] = ite(c, w, v2) if flip else ite(c, v2, w)
            return mkrec(y, out)
        if x.op == "vec" and y.op not in ("ite", "undef", "vec"):
            z = as_vec(y)
            return _merge_agg(c, *((z, x) if flip else (x, z)))
        if x.op == "mat" and y.op not in ("ite", "mat", "rec", "vec"):
            z = as_mat(y, x.args[0], x.args[1])
            return _merge_agg(c, *((z, x) if flip else (x, z)))
    return None

def unify(a, b):
    if a.op == "mat" and b.op not in ("mat", "ite"):
        return a, as_mat(b, a.args[0], a.args[1])
    if b.op == "mat" and a.op not in ("mat", "ite"):
        return as_mat(a, b.args[0], b.args[1]), b
    if a.op == "vec" and b.op not in ("vec", "ite"):
        return a, as_vec(b)
    if b.op == "vec" and a.op not in ("vec", "ite"):
        return as_vec(a), b
    return a, b

def leaves(t, acc=None, cond=None):
    """[(cond, leaf)]"""
    out = []
    def go(x, c):
        if x.op == "ite":
            go(x.args[1], AND(c, atomb(x.args[0])))
            go(x.args[2], AND(c, NOT(atomb(x.args[0]))))
        else:
            out.append((c, x))
    go(t, TRUE)
    return out

def leafset(t):
    seen, out = set(), []
    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            go(x.args[1]); go(x.args[2])
        else:
            out.append(x)
    go(t)
    return out

def atomb(a):
    return mk("ite", a, TRUE, FALSE)

def lift1(f, a, memo=None):
    if a.op != "ite":
        return f(a)
    memo = {} if memo is None else memo
    def go(x):
        if x.op != "ite":
            return f(x)
        r = memo.get(x)
        if r is None:
            if len(memo) > MAXSIZE:
                raise TooBig()
            r = memo[x] = ite(atomb(x.args[0]), go(x.args[1]), go(x.args[2]))
        return r
    return go(a)

def liftn(f, *xs):
    if not any(x.op == "ite" for x in xs):
        return f(*xs)
    memo = {}
    def go(xs):
        top = None
        for x in xs:
            if x.op == "ite" and (top is None or x.args[0].id < top.id):
                top = x.args[0]
        if top is None:
            return f(*xs)
        r = memo.get(xs)
        if r is None:
            if len(memo) > MAXSIZE:
                raise TooBig()
            hi = tuple(x.args[1] if x.op == "ite" and x.args[0] is top else x for x in xs)
            lo = tuple(x.args[2] if x.op == "ite" and x.args[0] is top else x for x in xs)
            r = memo[xs] = ite(atomb(top), go(hi), go(lo))
        return r
    return go(tuple(xs))

# ---------------------------------------------------------------- booleans
def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return ite(a, FALSE, TRUE)
def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE:
            return r
    return r
def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r
def implies(a, b):
    return AND(a, NOT(b)) is FALSE
def asbool(t):
    """boolean view of an arbitrary term"""
    def f(x):
        if x.op == "bool":
            return x
        if x.op == "num":
            return TRUE if x.args[0] != 0 else FALSE
        if x is NULL:
            return FALSE
        if x.op == "ptr":
            return TRUE if _pointer(x) is x else asbool(_pointer(x))
        if x.op in ("closure", "fnptr"):
            return TRUE
        if x.op in ("poly",) or x.op in NUMERIC_OPS or (x.op == "app" and x.args[0] in INTFUNS):
            return NOT(eq(x, ZERO))
        if x.op == "cond":
            return atomb(x)
        return atomb(mk("cond", x))
    return lift1(f, t)
NUMERIC_OPS = ("size",)
INTFUNS = set()

def restrict(t, c):
    """simplify t knowing c holds (generalised cofactor by cubes of c)"""
    if c is TRUE:
        return t
    if t.op in AGG:
        if t.op == "mat":
            return mk("mat", t.args[0], t.args[1], tuple(restrict(x, c) for x in t.args[2]))
        if t.op == "vec":
            return mk("vec", restrict(t.args[0], c), restrict(t.args[1], c))
        return mkrec(t.args[0], {k: restrict(v, c) for k, v in t.args[1]})
    memo = {}
    def go(t, c):
        if c is FALSE:
            return UNDEF
        if t.op != "ite" or c is TRUE:
            return t
        k = (t, c)
        r = memo.get(k)
        if r is not None:
            return r
        a = t.args[0]
        if c.op == "ite" and c.args[0].id < a.id:
            if c.args[1] is FALSE:
                r = go(t, c.args[2])
            elif c.args[2] is FALSE:
                r = go(t, c.args[1])
            else:
                r = ite(atomb(c.args[0]), go(t, c.args[1]), go(t, c.args[2]))
        else:
            ch, cl = (c.args[1], c.args[2]) if c.op == "ite" and c.args[0] is a else (c, c)
            if ch is FALSE:
                r = go(t.args[2], cl)
            elif cl is FALSE:
                r = go(t.args[1], ch)
            else:
                r = ite(atomb(a), go(t.args[1], ch), go(t.args[2], cl))
        memo[k] = r
        return r
    return go(t, c)

def atoms_of(b):
    out, seen = [], set()
    def go(x):
        if x in seen or x.op != "ite":
            return
        seen.add(x)
        if x.args[0] not in out:
            out.append(x.args[0])
        go(x.args[1]); go(x.args[2])
    go(b)
    return out

# ---------------------------------------------------------------- polynomials
def _pd(t):
    """poly as dict mono->coef"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}

_mk_memo = {}
def _mono_key(m):
    r = _mk_memo.get(m)
    if r is None:
        r = _mk_memo[m] = tuple((a.id, e) for a, e in m)
    return r

def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0]))))

MAXMONO = 20000

def _bin_add(a, b):
    if a.op == "bool":
        a = ONE if a is TRUE else ZERO
    if b.op == "bool":
        b = ONE if b is TRUE else ZERO
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)
def add(a, b):
    return liftn(_bin_add, a, b)
def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # inv(x)^k * x^j cancels
    for a in list(d):
        if a.op == "inv" and a in d:
            x = a.args[0]
            if x in d and d[x] > 0:
                k = min(d[a], d[x])
                d[a] -= k
                d[x] -= k
    # sqrt(x)^2 = x is done in mul
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].id))
def _fix_sqrt(d):
    """sqrt(p)^2 -> p"""
    for m in d:
        for a, e in m:
            if e >= 2 and a.op == "app" and a.args[0] == "sqrt":
                break
        else:
            continue
        break
    else:
        return _mkpoly(d)
    r = ZERO
    for m, c in d.items():
        t = num(c)
        for a, e in m:
            if e >= 2 and a.op == "app" and a.args[0] == "sqrt":
                for _ in range(e // 2):
                    t = mul(t, a.args[1])
                if e % 2:
                    t = mul(t, a)
            else:
                t = _mkpoly_mul_simple(t, a, e)
        r = add(r, t)
    return r
def _mkpoly_mul_simple(t, a, e):
    d = {}
    for m, c in _pd(t).items():
        mm = _mulmono(m, ((a, e),))
        d[mm] = d.get(mm, 0) + c
    return _mkpoly(d)
def _bin_mul(a, b):
    if a.op == "bool":
        a = ONE if a is TRUE else ZERO
    if b.op == "bool":
        b = ONE if b is TRUE else ZERO
    if a is ZERO or b is ZERO:
        return ZERO
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > MAXMONO:
        raise TooBig()
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fix_sqrt({m: c for m, c in d.items() if c})
def mul(a, b):
    return liftn(_bin_mul, a, b)
def neg(a):
    return mul(num(-1), a)
def sub(a, b):
    return add(a, neg(b))
def _inv1(x):
    if x.op == "num":
        if x.args[0] == 0:
            return mk("inv", ZERO)
        return num(1 / x.args[0])
    if x.op == "inv":
        return x.args[0]
    if x.op == "poly":
        ms = x.args[0]
        if len(ms) == 1:
            m, c = ms[0]
            r = num(1 / c)
            for a, e in m:
                for _ in range(e):
                    r = mul(r, _inv1(a))
            return r
        # normalise scale
        c0 = ms[0][1]
        if c0 != 1:
            return mul(num(1 / c0), mk("inv", _mkpoly({m: c / c0 for m, c in ms})))
    return mk("inv", x)
def inv(a):
    return lift1(_inv1, a)
def div(a, b):
    return mul(a, inv(b))
def sum_(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r
def is_num(t):
    return t.op == "num"
def ival(t):
    if t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    return None

def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                memo[x] = False
                r = memo[x] = bool(pred(x)) or any(go(y) for y in x.args)
            return r
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return False
    return go(t)

def occurs(x, t):
    return contains(t, lambda y: y is x)

def collect(t, pred):
    out, seen = [], set()
    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if pred(x):
                out.append(x)
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return out

def subst(t, m, memo=None):
    """replace terms by the mapping and re-normalise"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)

def rebuild(x, go):
    op, a = x.op, x.args
    if not a:
        return x
    if op == "poly":
        img, flat = {}, True
        for mono, c in a[0]:
            for at, e in mono:
                if at not in img:
                    g = img[at] = go(at)
                    if g.op in ("ite", "bool", "mat", "rec", "vec", "undef"):
                        flat = False
        if flat:
            d = {}
            for mono, c in a[0]:
                acc = {(): c}
                for at, e in mono:
                    g = img[at]
                    if g.op != "poly" and g.op != "num":
                        acc = {_mulmono(m, ((g, e),)): x for m, x in acc.items()}
                    else:
                        pg = _pd(g)
                        for _ in range(e):
                            n = {}
                            for m1, c1 in acc.items():
                                for m2, c2 in pg.items():
                                    m = _mulmono(m1, m2)
                                    n[m] = n.get(m, 0) + c1 * c2
                            acc = n
                for m, x in acc.items():
                    d[m] = d.get(m, 0) + x
                if len(d) > 4 * MAXMONO:
                    raise TooBig()
            return _fix_sqrt({m: c for m, c in d.items() if c})
        r = ZERO
        for mono, c in a[0]:
            t = num(c)
            for at, e in mono:
                g = go(at)
                for _ in range(e):
                    t = mul(t, g)
            r = add(r, t)
        return r
    if op == "ite":
        at = a[0]
        return ite(rebuild_atom(at, go), go(a[1]), go(a[2]))
    if op == "inv":
        return inv(go(a[0]))
    if op == "rec":
        base = go(a[0])
        d = {k: go(v) for k, v in a[1]}
        if base.op == "rec":
            d0 = dict(base.args[1]); d0.update(d)
            return mkrec(base.args[0], d0)
        return mkrec(base, d)
    if op == "sel":
        return sel(go(a[0]), go(a[1]))
    if op == "fld":
        return fld_raw(go(a[0]), a[1])
    if op == "el":
        return el(go(a[0]), a[1], a[2])
    if op == "size":
        return size_of(go(a[0]))
    if op == "app":
        return app(a[0], *[go(y) for y in a[1:]])
    if op == "sum":
        t, b = go(a[0]), go(a[1])
        return mk("sum", t, b, a[2]) if b is not ZERO and t is not ZERO else ZERO
    if op in ("exists",):
        t, b = go(a[0]), go(a[1])
        return mk("bool", False) if b is FALSE or t is ZERO else mk("exists", t, b, a[2])
    return mk(op, *[go(y) for y in a])

def rebuild_atom(at, go):
    op, a = at.op, at.args
    if op == "lt0":
        return lt(go(a[0]), ZERO, a[1])
    if op == "le0":
        return le(go(a[0]), ZERO, a[1])
    if op == "eq0":
        return eq(go(a[0]), ZERO)
    if op == "same":
        return eq(go(a[0]), go(a[1]))
    if op == "cond":
        return asbool(go(a[0]))
    r = go(at)
    if r.op in ("ite", "bool"):
        return r
    return atomb(r)

# ---------------------------------------------------------------- comparisons
def _lead(p):
    d = _pd(p)
    ms = sorted((m for m in d if m != ()), key=_mono_key)
    return d[ms[0]] if ms else None

def is_nonneg_atom(t):
    return t.op == "size" or (t.op == "app" and t.args[0] in ("abs", "sqrt", "omp_get_thread_num"))

def _lt0(p, isint):
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    c = _lead(p)
    if c is None:
        return atomb(mk("lt0", p, isint))
    if isint:
        # divide by gcd of coefficients is not needed; only the sign is normalised
        if c > 0:
            d = _pd(p)
            if len([m for m in d if m]) == 1:
                (m, k), = [(m, k) for m, k in d.items() if m]
                if len(m) == 1 and m[0][1] == 1 and is_nonneg_atom(m[0][0]):
                    b = -d.get((), Fraction(0)) / k       # x < b
                    if b <= 0:
                        return FALSE
                    if b <= 1:
                        return eq(m[0][0], ZERO)
            return atomb(mk("lt0", p, True))
        q = neg(p)                      # q > 0  <=>  not (q - 1 < 0)
        return NOT(_lt0(sub(q, ONE), True))
    if c > 0:
        return atomb(mk("lt0", _scale(p, c), False))
    q = neg(p)
    return NOT(atomb(mk("le0", _scale(q, -c), False)))

def _scale(p, c):
    return mul(num(1 / abs(c)), p) if abs(c) != 1 else p

def _le0(p, isint):
    if p.op == "num":
        return TRUE if p.args[0] <= 0 else FALSE
    if isint:
        return _lt0(sub(p, ONE), True)
    c = _lead(p)
    if c is None:
        return atomb(mk("le0", p, False))
    if c > 0:
        return atomb(mk("le0", _scale(p, c), False))
    return NOT(_lt0(neg(p), False))

def lt(a, b, isint=True):
    return lift1(lambda p: _lt0(p, isint), sub(a, b))
def le(a, b, isint=True):
    return lift1(lambda p: _le0(p, isint), sub(a, b))

def _numlike(t):
    return t.op in ("num", "poly", "size", "inv", "el", "k", "trunc") or t.op == "bool"

def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == "bool" and b.op == "bool":
        return FALSE
    if a.op in ("mapit", "mapend") and b.op in ("mapit", "mapend"):
        if a.op != b.op:
            return FALSE
        if a.op == "mapend":
            return TRUE if a.args[0] is b.args[0] else FALSE
        return _eq(a.args[1], b.args[1])
    if a.op == "null" or b.op == "null":
        x = b if a.op == "null" else a
        if x.op == "null":
            return TRUE
        if x.op == "ptr":
            return _eq(_pointer(x), NULL) if _pointer(x) is not x else FALSE
        return NOT(atomb(mk("cond", x)))
    if a.op == "it" and b.op == "it" and a.args[0] is b.args[0]:
        return _eq(a.args[1], b.args[1])
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0] and a.args[1] and b.args[1] and a.args[1][:-1] == b.args[1][:-1] and a.args[1][-1][0] == "i" and b.args[1][-1][0] == "i":
        return eq(a.args[1][-1][1], b.args[1][-1][1])
    if a.op in ("ptr", "it", "str", "fnptr") or b.op in ("ptr", "it", "str", "fnptr"):
        if a.op == "ptr" and b.op == "ptr" and a.args[0].args[0] != b.args[0].args[0]:
            return FALSE
        if a.op == "ptr" and b.op == "ptr" and _pointer(a) is not a and _pointer(b) is not b and _pointer(a).op not in ("ptr", "it") and _pointer(b).op not in ("ptr", "it"):
            return eq(_pointer(a), _pointer(b))
        x, y = (a, b) if a.id < b.id else (b, a)
        return atomb(mk("same", x, y))
    p = sub(a, b)
    return lift1(_eq0, p)
def _pointer(x):
    """the pointer value whose target x points to"""
    r, p = x.args
    return r.args[1] if r.op == "root" and r.args[0] == "mem" and not p and r.args[1].op in ("sym", "fld", "sel", "out", "poly") else x
def _eq0(p):
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    c = _lead(p)
    if c is not None and c != 1:
        p = mul(num(1 / c), p)
    return atomb(mk("eq0", p))
def eq(a, b):
    if a.op == "bool" or b.op == "bool" or _is_boolterm(a) and _is_boolterm(b):
        if _is_boolterm(a) and _is_boolterm(b):
            return ite(a, b, NOT(b))
    return liftn(_eq, a, b)
def _is_boolterm(t):
    if t.op == "bool":
        return True
    if t.op == "ite":
        return all(l.op == "bool" for l in leafset(t))
    return False

# ---------------------------------------------------------------- aggregates
def mkrec(base, d):
    if base.op == "rec":
        d0 = dict(base.args[1]); d0.update(d)
        return mkrec(base.args[0], d0)
    # drop fields equal to the base's own
    d = {k: v for k, v in d.items() if not _is_own(base, k, v)}
    if not d:
        return base
    return mk("rec", base, tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))

def _is_own(base, k, v):
    if base is UNDEF:
        return False
    w = fld_raw(base, k)
    if w is v:
        return True
    if v.op == "mat" and w.op not in ("mat", "ite", "rec", "vec"):
        return as_mat(w, v.args[0], v.args[1]) is v
    if v.op == "vec" and w.op not in ("vec", "ite", "rec", "mat"):
        return as_vec(w) is v
    return False

def _fld1(v, f):
    if v.op == "rec":
        d = dict(v.args[1])
        if f in d:
            return d[f]
        return _fld1(v.args[0], f)
    if v is UNDEF:
        return UNDEF
    if v.op == "out" and v.args[0].op == "app" and v.args[1] == 0 and f in OWN_FIELDS.get(v.args[0].args[0], ()):
        return _fld1(v.args[0].args[1], f)
    return mk("fld", v, f)
OWN_FIELDS = {}      # a member function of a base class -> the members of the derived object, which it cannot see
def fld_raw(v, f):
    return lift1(lambda x: _fld1(x, f), v)

def el(t, i, j):
    def f(x):
        if x.op == "mat":
            r, c = x.args[0], x.args[1]
            return x.args[2][i * c + j]
        if x is UNDEF:
            return UNDEF
        return mk("el", x, i, j)
    return lift1(f, t)

def mat(r, c, entries):
    return mk("mat", r, c, tuple(entries))

def as_mat(t, r, c):
    if t.op == "mat":
        return t
    return mat(r, c, [el(t, i, j) for i in range(r) for j in range(c)])

def _size1(v):
    if v.op == "vec":
        return v.args[0]
    return mk("size", v)
def size_of(v):
    return lift1(_size1, v)
def _arr1(v):
    if v.op == "vec":
        return v.args[1]
    return mk("arr", v)
def as_vec(v):
    if v.op == "vec":
        return v
    return mk("vec", size_of(v), lift1(_arr1, v))

CMP_A, CMP_B = ("sym", "cmp_a"), ("sym", "cmp_b")

def _cmp_with(c, x, y):
    return subst(c, {mk(*CMP_A): x, mk(*CMP_B): y})

def _pivot(c, pred, left):
    """p such that pred is c(x, p) (left) resp. c(p, x) for the element x under test, else None"""
    a, b = mk(*CMP_A), mk(*CMP_B)
    def match(pat, t, hole):
        # the hole of the pattern, if t is an instance of it
        if pat is hole:
            return [t]
        if pat is t:
            return []
        if not isinstance(pat, T) or not isinstance(t, T) or pat.op != t.op or len(pat.args) != len(t.args):
            return None
        out = []
        for x, y in zip(pat.args, t.args):
            if isinstance(x, T) and isinstance(y, T):
                r = match(x, y, hole)
                if r is None:
                    return None
                out += r
            elif x != y:
                return None
        return out
    pat = c if left else subst(c, {a: b, b: a})
    def leaf(t):
        r = match(pat, t, b)
        if not r or any(z is not r[0] for z in r) or occurs(a, r[0]):
            raise ValueError
        return r[0]
    # a comparator is a single condition; distribute over the choices inside it
    def go(t):
        if t.op == "ite":
            c0 = t.args[0]
            if t.args[1] is TRUE and t.args[2] is FALSE:
                return leaf(t)
            try:
                return leaf(t)
            except ValueError:
                return ite(mk("ite", c0, TRUE, FALSE), go(t.args[1]), go(t.args[2]))
        return leaf(t)
    try:
        return go(pred)
    except ValueError:
        return None

def perm(name, arr, lo, hi, c, mid=None):
    """the array after an ordering algorithm was applied to [lo, hi)"""
    if name == "stable_sort":
        name = "sort"
    P = lambda n, a, *x: mk("perm", n, a, *x)
    if name == "inplace_merge" and mid is not None:
        if arr.op == "perm" and arr.args[0] == "sort" and arr.args[1].op == "perm" and arr.args[1].args[0] == "sort":
            _, x, l2, h2, c2 = arr.args
            _, y, l1, h1, c1 = x.args
            if c1 is c and c2 is c and {(l1, h1), (l2, h2)} == {(lo, mid), (mid, hi)}:
                return perm("sort", y, lo, hi, c)
        return P(name, arr, lo, hi, c, mid)
    if name == "sort":
        # parts sorted between the points of one or two partitionings by the same pivot
        chain, x = [("sort", lo, hi, c)], arr
        while x.op == "perm" and len(chain) < 6 and len(x.args) == 5:
            chain.append((x.args[0],) + tuple(x.args[2:]))
            x = x.args[1]
        r = _quick(chain)
        if r is not None:
            n, l, h = r
            base = arr
            for _ in range(n - 1):
                base = base.args[1]
            return perm("sort", base, l, h, c)
    return P(name, arr, lo, hi, c)

def _quick(chain):
    """(number of steps, lo, hi) if the latest steps amount to sorting [lo, hi)"""
    sorts = []
    for st in chain:
        if st[0] != "sort":
            break
        sorts.append(st)
    parts = chain[len(sorts):]
    c = sorts[0][3]
    if any(s[3] is not c for s in sorts) or not parts:
        return None
    done = {(s[1], s[2]) for s in sorts}
    # latest partition first
    if len(parts) >= 2 and parts[0][0] in PARTS and parts[1][0] in PARTS:
        p2, p1 = parts[0], parts[1]
        lo, hi = p1[1], p1[2]
        l1 = _pt(p1, lo)
        for m1 in l1:
            a = _pivot(c, p1[3], True)
            b = _pivot(c, NOT(p2[3]), False)
            if a is not None and a is b and p2[1] is m1 and p2[2] is hi:
                for m2 in _pt(p2, m1):
                    if done == {(lo, m1), (m2, hi)}:
                        return len(sorts) + 2, lo, hi
    p1 = parts[0]
    if p1[0] in PARTS:
        lo, hi = p1[1], p1[2]
        if _pivot(c, p1[3], True) is not None or _pivot(c, NOT(p1[3]), False) is not None:
            for m in _pt(p1, lo):
                if done == {(lo, m), (m, hi)}:
                    return len(sorts) + 1, lo, hi
    return None

PARTS = ("partition", "stable_partition")
def _pt(p, first):
    out = []
    for a in ALL_PT.get((p[0], p[1], p[2], p[3]), ()):
        out.append(add(first, a))
    return out
ALL_PT = {}

def part_pt(name, arr, lo, hi, pred):
    """number of elements in front after a partition"""
    t = mk("app", name + "_pt", arr, lo, hi, pred)
    ALL_PT.setdefault((name, lo, hi, pred), []).append(t)
    return t

def fill(v):
    return mk("fill", v)
def aupd(a, i, v):
    if a.op == "ite":
        return lift1(lambda x: aupd(x, i, v), a)
    if a.op == "aupd":
        if a.args[1] is i:
            return aupd(a.args[0], i, v)
        d = sub(a.args[1], i)
        if d.op == "num" and d.args[0] != 0 and i.op == "num" and a.args[1].args[0] > i.args[0]:
            # keep distinct constant updates sorted
            return mk("aupd", aupd(a.args[0], i, v), a.args[1], a.args[2])
    return mk("aupd", a, i, v)
def _sel1(a, i):
    while True:
        if a.op == "fill":
            return a.args[0]
        if a.op == "aupd":
            if a.args[1] is i:
                return a.args[2]
            d = sub(a.args[1], i) if a.args[1].op in POLYISH and i.op in POLYISH else None
            if d is not None and d.op == "num" and d.args[0] != 0:
                a = a.args[0]
                continue
            if d is not None and d.op == "num":
                return a.args[2]
        break
    if a is UNDEF:
        return UNDEF
    if a.op == "arr":
        return mk("sel", a.args[0], i)
    return mk("sel", a, i)
POLYISH = ("num", "poly", "k", "sym", "size", "el", "fld", "app", "lv", "lout", "sel", "rb", "re", "inv", "out", "fresh",
           "sum", "elx", "deref", "bv", "kout", "first", "det", "pacc", "over", "last")
def sel(a, i):
    return liftn(_sel1, a, i)

def _app1(f, *a):
    r = simp(f, a)
    return r if r is not None else mk("app", f, *a)
NOLIFT = set()
def app(f, *a):
    if f in NOLIFT:
        return mk("app", f, *a)
    try:
        return liftn(lambda *b: _app1(f, *b), *a)
    except TooBig:
        return mk("app", f, *a)

def simp(f, a):
    if f == "abs":
        x = a[0]
        if x.op == "num":
            return num(abs(x.args[0]))
        if x.op == "app" and x.args[0] in ("abs", "sqrt"):
            return x
        c = _lead(x)
        if c is not None and c < 0:
            return app("abs", neg(x))
    elif f == "sqrt":
        if a[0].op == "num":
            v = a[0].args[0]
            if v in (0, 1):
                return a[0]
    elif f == "cos":
        if a[0] is ZERO:
            return ONE
        c = _lead(a[0])
        if c is not None and c < 0:
            return app("cos", neg(a[0]))
    elif f == "sin":
        if a[0] is ZERO:
            return ZERO
        c = _lead(a[0])
        if c is not None and c < 0:
            return neg(app("sin", neg(a[0])))
    elif f in ("idiv",):
        x, y = ival(a[0]), ival(a[1])
        if x is not None and y:
            q = abs(x) // abs(y)
            return num(q if (x >= 0) == (y >= 0) else -q)
        if y == 1:
            return a[0]
    elif f == "mod":
        x, y = ival(a[0]), ival(a[1])
        if x is not None and y and x >= 0:
            return num(x % y)
    elif f in ("band", "bor", "bxor"):
        x, y = ival(a[0]), ival(a[1])
        if x is not None and y is not None and x >= 0 and y >= 0:
            return num({"band": x & y, "bor": x | y, "bxor": x ^ y}[f])
        if f == "bor" and a[0] is ZERO:
            return a[1]
        if f == "bor" and a[1] is ZERO:
            return a[0]
        # flatten + sort (associative, commutative)
        xs = []
        for z in a:
            if z.op == "app" and z.args[0] == f:
                xs.extend(z.args[1:])
            else:
                xs.append(z)
        xs2 = tuple(sorted(xs, key=lambda z: z.id))
        if xs2 != tuple(a):
            return mk("app", f, *xs2)
    elif f.startswith("shl"):
        x, y = ival(a[0]), ival(a[1])
        if y == 0:
            return a[0]
        if x is not None and y is not None and x >= 0 and y >= 0:
            return num(x << y)
    elif f == "shr":
        if a[1] is ZERO:
            return a[0]
        x, y = ival(a[0]), ival(a[1])
        if x is not None and y is not None and x >= 0 and y >= 0:
            return num(x >> y)
    elif f == "trunc":
        if a[0].op == "num":
            v = a[0].args[0]
            return num(int(v))
        if a[0].op == "app" and a[0].args[0] == "trunc":
            return a[0]
    elif f == "floor":
        if a[0].op == "num":
            return num(a[0].args[0].__floor__())
    elif f == "f32":
        x = a[0]
        if x.op == "num":
            try:
                if Fraction(struct.unpack("f", struct.pack("f", float(x.args[0])))[0]) == x.args[0]:
                    return x
            except OverflowError:
                pass
        if x.op == "app" and (x.args[0] == "f32" or x.args[0] in ("inf", "-inf", "nan")):
            return x
    elif f.startswith("narrow") and f[6:].isdigit():
        x = a[0]
        if x.op == "app" and x.args[0] == f:
            return x
        if x.op == "app" and x.args[0] in ("band", "mod"):
            ns = [ival(y) for y in x.args[1:]]
            top = (1 << int(f[6:])) - 1
            if x.args[0] == "band" and any(n is not None and 0 <= n <= top for n in ns):
                return x
            if x.args[0] == "mod" and ns[1] is not None and 0 < ns[1] <= top + 1:
                return x
    return None

# ---------------------------------------------------------------- display
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, Fraction):
            return str(t)
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth < 0:
        return "…"
    op, a = t.op, t.args
    d = depth - 1
    if op == "num":
        return str(a[0])
    if op in ("bool", "str"):
        return str(a[0]).lower() if op == "bool" else repr(a[0])
    if op == "sym":
        return str(a[0])
    if op == "poly":
        out = []
        for m, c in a[0][:12]:
            s = "*".join(show(x, d) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = str(c) + "*" + s
            out.append(s)
        if len(a[0]) > 12:
            out.append("…(%d terms)" % len(a[0]))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + show(a[0], d)
        return "(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "lt0":
        return "%s<0" % show(a[0], d)
    if op == "le0":
        return "%s<=0" % show(a[0], d)
    if op == "eq0":
        return "%s==0" % show(a[0], d)
    if op == "cond":
        return show(a[0], d)
    if op == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "sel":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "el":
        return "%s(%d,%d)" % (show(a[0], d), a[1], a[2])
    if op == "size":
        return "size(%s)" % show(a[0], d)
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op == "mat":
        return "mat%dx%d[%s]" % (a[0], a[1], ", ".join(show(x, d) for x in a[2][:6]) + ("…" if len(a[2]) > 6 else ""))
    if op == "rec":
        return "%s{%s}" % (show(a[0], d), ", ".join("%s=%s" % (k, show(v, d)) for k, v in a[1]))
    if op == "k":
        return "k%s" % (abs(hash(a[0])) % 1000)
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
