"""Comparison of two function summaries (value-numbering terms).

Two observables are equal when their normal forms are the same term (after the
loop-carried variables of corresponding loops have been put in correspondence).
When normal forms differ, random interpretation (Gulwani/Necula) of the two terms
decides whether the normaliser was merely incomplete: a difference is reported only
if some valuation of the free symbols separates the terms.  No code is executed and
no path is enumerated; opaque functions are interpreted as random functions."""
import zlib, itertools, time
from fractions import Fraction
from .terms import *
from . import terms as TT
from . import interp as I
import functools, math

SMALLI = (0, 1, 2, 3, 0, 1, 2, 4, 5, 7, 1, 2)
SMALLR = tuple(Fraction(n, d) for n, d in ((0, 1), (1, 1), (1, 2), (-1, 1), (2, 1), (3, 2), (-3, 2), (7, 3), (-5, 3), (11, 4), (3, 1), (1, 7), (-2, 1), (13, 5), (-1, 3), (5, 1)))

class NoEval(Exception):
    pass

def element_kind(t):
    """the kind of the elements that an iteration puts into a sequence, where the term tells it"""
    if t.op == "ite":
        return element_kind(t.args[1]) or element_kind(t.args[2])
    if t.op in ("maparr", "aupd"):
        v = t.args[2]
        while v.op == "ite":
            v = v.args[1]
        if v.op == "mat":
            return v.args[:2]
        if v.op in ("num", "poly", "k") or v.op == "app" and v.args[0] in ("band", "bor", "bxor", "mod", "idiv"):
            return "number"
    return None

def where_made(x, y):
    """the contents x of an object, on the paths on which y is the contents of an object at all: an object that has
    not been made has no contents to be observed"""
    if y.op == "undef":
        return y
    if y.op == "ite" and contains(y, lambda t: t.op == "undef"):
        return ite(y.args[0], where_made(x, y.args[1]), where_made(x, y.args[2]))
    return x

class Arr:
    def __init__(self, f, tag):
        self.f, self.tag, self.m = f, tag, {}
    def __call__(self, i):
        k = i
        if k not in self.m:
            self.m[k] = self.f(i)
        return self.m[k]

def whole(x):
    return int(x) if abs(x) < 1e7 and x == int(x) else x

def canon(v):
    """hashable representation; floats are rounded"""
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return "nan"
        return whole(float("%.7g" % v) + 0.0)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return int(v)
        return whole(float("%.7g" % float(v)) + 0.0) if abs(v) < 10**300 else "big"
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, canon(v[k])) for k in sorted(v))
    if isinstance(v, Arr):
        return ("arr", v.tag) + tuple(canon(v(Fraction(i))) for i in range(4))
    return v

def name_of(t):
    return (t.op, t.args[0]) if t.op == "app" else (t.op, t.args[1]) if t.op == "fld" else None

def conditions(*ts):
    """what is used as a condition"""
    out = set()
    for t in ts:
        for x in collect(t, lambda x: x.op in ("ite", "exists", "cond", "collect", "first", "last")):
            c = x.args[0] if x.op in ("ite", "cond") else x.args[1]
            if isinstance(c, T) and c.op in ("app", "fld", "lv", "lout", "sym", "fresh", "deref", "out", "el", "sel"):
                out.add(name_of(c) or c)
    return frozenset(out)

class Eval:
    def __init__(self, seed, ints=(), rename=None, loops=None, over=None, rec=None, trace=None):
        self.seed, self.ints = seed, ints
        self.over, self.rec, self.trace = over, rec, trace
        self.loops = loops or {}              # loop key -> (condition of a first iteration, initial values)
        self.memo = {}
        self.rename = rename or {}
        self.depth = 0
    words = ()                                # the string literals in play
    hints = {}
    bools = frozenset()                       # terms (or names of functions and members) used as conditions
    def h(self, *key):
        # (the checksum alone is linear: two keys would differ by the same bits under every seed)
        x = zlib.crc32(repr((self.seed,) + key).encode())
        x = ((x ^ (x >> 16)) * 0x85ebca6b + self.seed * 0x9e3779b9 + 1) & 0xffffffff
        x = ((x ^ (x >> 13)) * 0xc2b2ae35) & 0xffffffff
        return x ^ (x >> 16)
    def rnd(self, t, key):
        if t not in self.ints and (t in self.bools or name_of(t) in self.bools):
            return self.flag(key)
        return self.leaf(key, t in self.ints)
    def flag(self, key):
        """value of something that is used as a condition"""
        if self.over and key in self.over:
            return self.over[key]
        if self.rec is not None:
            self.rec[key] = True
        return Fraction((self.h("truth", *key) >> 3) & 1)
    def coin(self, key):
        """value of an unknown condition"""
        if self.over and key in self.over:
            return self.over[key] != 0
        if self.rec is not None:
            self.rec[key] = True
        return bool(self.h("truth", *key) & 8)
    def leaf(self, key, isint):
        """value of a free symbol / of an opaque function at a point"""
        if self.over and key in self.over:
            return self.over[key]
        if self.rec is not None:
            self.rec[key] = isint
        h = self.h(*key)
        if self.hints:
            c = self.hints.get(hint_key(key))
            if c is not None and (h >> 20) & 1:
                return c[(h >> 3) % len(c)]
        if isint:
            return Fraction(SMALLI[(h >> 3) % len(SMALLI)])
        return SMALLR[(h >> 3) % len(SMALLR)]
    def ev(self, t, env=()):
        key = (t, env)
        r = self.memo.get(key)
        if r is None:
            if len(self.memo) > 400000:
                raise NoEval("budget")
            r = self.memo[key] = self._ev(t, env)
        return r
    def truth(self, at, env):
        op, a = at.op, at.args
        if self.trace is not None and op in ("lt0", "le0", "eq0"):
            self.trace.setdefault((at, env))
        if op == "lt0":
            return self.numv(self.ev(a[0], env)) < 0
        if op == "le0":
            return self.numv(self.ev(a[0], env)) <= 0
        if op == "eq0":
            v = self.ev(a[0], env)
            if isinstance(v, float):
                return abs(v) < 1e-12
            return v == 0
        if op == "same":
            if (a[0].op == "str") != (a[1].op == "str"):
                # a string compared with a literal: it is one of the literals it is compared with, or none of them
                x, lit = (a[0], a[1]) if a[1].op == "str" else (a[1], a[0])
                v = canon(self.ev(x, env))
                if not (isinstance(v, tuple) and v and v[0] == "str"):
                    words = self.words
                    k = self.h("word", v) // 8 % (len(words) + 1)
                    return k < len(words) and words[k] == lit.args[0]
            return self.same(self.ev(a[0], env), self.ev(a[1], env))
        if op == "exists":
            n = self.ev(a[0], env)
            n = self.count(n)
            return any(self.bool(self.ev(a[1], bind(env, a[2], i))) for i in range(n))
        if op == "cond":
            return self.bool(self.ev(a[0], env))
        return self.bool(self.generic(at, env))
    def bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (Fraction, float, int)):
            return v != 0
        return bool(self.h("b", canon(v)) & 8)
    def numv(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (Fraction, float, int)):
            return v
        return SMALLR[self.h("n", canon(v)) % len(SMALLR)]
    def count(self, n):
        n = self.numv(n)
        if isinstance(n, float) or n.denominator != 1:
            n = Fraction(math.floor(n)) if abs(n) < 1e6 else Fraction(0)
        if n > 12:
            raise NoEval("count")
        return max(0, int(n))
    def same(self, x, y):
        return close(x, y)
    def generic(self, t, env):
        key = [t.op]
        for x in t.args:
            if isinstance(x, T):
                key.append(canon(self.ev(x, env)))
            elif isinstance(x, tuple):
                key.append(self.tup(x, env))
            else:
                key.append(x)
        if t.op == "lexit" or (t.op != "sel" and t.args and isinstance(t.args[0], str) and t.args[0].endswith(("operator!", "operator bool"))):
            return self.coin(tuple(key))
        return self.rnd(t, tuple(key))
    def tup(self, x, env):
        out = []
        for y in x:
            if isinstance(y, T):
                out.append(canon(self.ev(y, env)))
            elif isinstance(y, tuple):
                out.append(self.tup(y, env))
            else:
                out.append(y)
        return tuple(out)
    def arr(self, v, tag):
        if isinstance(v, Arr):
            return v
        c = canon(v)
        isint = tag
        def f(i):
            return self.leaf(("sel", c, canon(i)), bool(isint))
        return Arr(f, c)
    def _ev(self, t, env):
        if t.op in ("lout", "lexit", "kout") and t.args[0] in self.loops:
            start, init = self.loops[t.args[0]]
            if not self.bool(self.ev(start, env)):     # the loop is not entered
                if t.op == "lexit":
                    return False
                if t.op == "kout":
                    return Fraction(0)
                if t.args[1] in init:
                    return self.ev(init[t.args[1]], env)
        if t in self.rename:
            return self.ev(self.rename[t], env)
        op, a = t.op, t.args
        if op == "num":
            return a[0]
        if op == "bool":
            return a[0]
        if op == "sym" and a and a[0] in ("cmp_a", "cmp_b"):
            for i, v in env:
                if i == a[0]:
                    return v
        if op in ("sym", "fresh"):
            return self.rnd(t, (op,) + tuple(str(x) for x in a))
        if op == "bv":
            for i, v in env:
                if i == a[0]:
                    return Fraction(v)
            return self.rnd(t, ("bv", a[0]))
        if op == "poly":
            tot = Fraction(0)
            for m, c in a[0]:
                x = c
                for at, e in m:
                    v = self.numv(self.ev(at, env))
                    x = x * v ** e
                tot = tot + x
            return tot
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0], env) else a[2], env)
        if op == "inv":
            v = self.numv(self.ev(a[0], env))
            if v == 0 or (isinstance(v, float) and abs(v) < 1e-9):
                raise NoEval("1/0")
            return 1 / v
        if op == "mat":
            return ("mat", a[0], a[1]) + tuple(self.ev(x, env) for x in a[2])
        if op == "rec":
            d = {k: self.ev(v, env) for k, v in a[1]}
            return ("rec", canon(self.ev(a[0], env)), tuple(sorted(d.items(), key=lambda kv: kv[0])))
        if op == "vec":
            n = self.ev(a[0], env)
            isint = False
            return ("vec", n, self.arr(self.ev(a[1], env), None))
        if op == "fill":
            v = self.ev(a[0], env)
            return Arr(lambda i: v, ("fill", canon(v)))
        if op == "aupd":
            b = self.arr(self.ev(a[0], env), None)
            i0, v = self.ev(a[1], env), self.ev(a[2], env)
            return Arr(lambda i: v if close(i, i0) else b(i), ("aupd", b.tag, canon(i0), canon(v)))
        if op == "maparr":
            lo, hi = self.numv(self.ev(a[0], env)), self.numv(self.ev(a[1], env))
            b = self.ev(a[3], env)
            if not lo < hi:
                return b                      # an empty range changes nothing
            b = self.arr(b, None)
            def f(i, lo=lo, hi=hi, b=b):
                if lo <= i < hi:
                    old = b(i)
                    return self.mapbody(a[2], bind(env, a[4], i), old)
                return b(i)
            return Arr(f, ("maparr", canon(lo), canon(hi), b.tag, canon(self.mapbody(a[2], bind(env, a[4], Fraction(1)), "old"))))
        if op == "perm" and a[0] == "sort" and not contains(a[4], lambda x: x.op == "app" and str(x.args[0]).startswith("reads the sequence")):
            lo, hi = self.numv(self.ev(a[2], env)), self.numv(self.ev(a[3], env))
            b = self.arr(self.ev(a[1], env), None)
            n = self.count(hi - lo)
            if lo == int(lo):
                def before(x, y):
                    return self.bool(self.ev(a[4], env + (("cmp_a", x), ("cmp_b", y)))) if a[4].op != "less" else self.numv(x) < self.numv(y)
                def order(x, y):
                    if before(x, y):
                        return -1
                    if before(y, x):
                        return 1
                    p, q = self.h("tie", canon(x)), self.h("tie", canon(y))
                    return (p > q) - (p < q)
                try:
                    els = sorted((b(lo + i) for i in range(n)), key=functools.cmp_to_key(order))
                    tag = ("perm", b.tag, canon(lo), canon(hi), canon(self.ev(a[4], env)))
                    return Arr(lambda i: els[int(i - lo)] if lo <= i < lo + n and i == int(i) else b(i), tag)
                except TypeError:
                    pass
        if op == "mapput":
            # what is stored under each key, over the map as it was
            m = self.ev(a[0], env)
            base, d = (m[1], dict(m[2])) if isinstance(m, tuple) and m and m[0] == "map" else (canon(m), {})
            k = canon(self.ev(a[1], env))
            d[k] = self.ev(a[2], env)
            return ("map", base, tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
        if op == "collect":
            n = self.count(self.ev(a[0], env))
            out = []
            for i in range(n):
                v = self.mapbody(a[1], bind(env, a[4], i), "keep!")
                if v != "keep!":
                    out.append(v)
            b = self.arr(self.ev(a[2], env), None)
            s0 = self.numv(self.ev(a[3], env))
            return Arr(lambda i: out[int(i - s0)] if s0 <= i < s0 + len(out) else b(i), ("collect", canon(tuple(out)), b.tag, canon(s0)))
        if op == "sel":
            b = self.ev(a[0], env)
            i = self.ev(a[1], env)
            if isinstance(b, tuple) and b and b[0] == "vec":
                b = b[2]
            if isinstance(b, Arr):
                return b(i)
            return self.rnd(t, ("sel", canon(b), canon(i)))
        if op == "arr":
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == "vec":
                return v[2]
            return ("arr", canon(v))
        if op == "size":
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == "vec":
                return v[1]
            return self.leaf(("size", canon(v)), True)
        if op == "el" and a[0].op == "solve" and a[0].args[0].op == "pair":
            # the solution of a linear system is proportional to its right-hand side
            m, r = (self.ev(x, env) for x in a[0].args[0].args)
            if isinstance(r, tuple) and r and r[0] == "mat":
                vals = [self.numv(x) for x in r[3:]]
                f = next((x for x in vals if x != 0), None)
                if f is None:
                    return Fraction(0)
                return f * self.leaf(("el", "solve", canon(m), canon(tuple(x / f for x in vals)), a[1], a[2]), False)
        if op == "el":
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == "mat":
                return v[3 + a[1] * v[2] + a[2]]
            return self.rnd(t, ("el", canon(v), a[1], a[2]))
        if op == "elx":
            v = self.ev(a[0], env)
            i, j = self.numv(self.ev(a[1], env)), self.numv(self.ev(a[2], env)) if len(a) > 2 else Fraction(0)
            if isinstance(v, tuple) and v and v[0] == "mat" and i == int(i) and j == int(j):
                i, j = int(i), int(j)
                if 0 <= i < v[1] and 0 <= j < v[2]:
                    return v[3 + i * v[2] + j]
            if i == int(i) and j == int(j):
                return self.rnd(t, ("el", canon(v), int(i), int(j)))
            return self.rnd(t, ("elx", canon(v), canon(i), canon(j)))
        if op == "fld":
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == "rec":
                for k, x in v[2]:
                    if k == a[1]:
                        return x
                return self.rnd(t, ("fld", v[1], a[1]))
            return self.rnd(t, ("fld", canon(v), a[1]))
        if op == "sum":
            n = self.count(self.ev(a[0], env))
            tot = Fraction(0)
            for i in range(n):
                tot = tot + self.numv(self.ev(a[1], bind(env, a[2], i)))
            return tot
        if op in ("lt0", "le0", "eq0", "same", "cond", "exists"):
            return self.truth(t, env)
        if op == "first":
            n = self.count(self.ev(a[0], env))
            for i in range(n):
                if self.bool(self.ev(a[1], bind(env, a[2], i))):
                    return Fraction(i)
            return Fraction(n)
        if op == "pacc":
            # iterations dealt out to the threads in some way
            th, n = self.count(self.ev(a[0], env)), self.count(self.ev(a[1], env))
            if th < 1:
                raise NoEval("no thread")
            b = self.arr(self.ev(a[3], env), None)
            own = {}
            for i in range(n):
                own.setdefault(self.h("thread", i) // 8 % th, []).append(i)
            def f(j):
                v = b(j)
                for i in own.get(j, ()):
                    v = self.plus(v, self.ev(a[2], bind(env, a[4], i)))
                return v
            return Arr(f, ("pacc", canon(Fraction(th)), canon(Fraction(n)), b.tag, canon(self.ev(a[2], bind(env, a[4], Fraction(1))))))
        if op == "last":
            n = self.count(self.ev(a[0], env))
            for i in reversed(range(n)):
                e = bind(env, a[4], i)
                if self.bool(self.ev(a[1], e)):
                    return self.ev(a[2], e)
            return self.ev(a[3], env)
        if op == "over":
            n = self.count(self.ev(a[1], env))
            v = self.numv(self.ev(a[2], env))
            f = min if a[0].args[0] == "min" else max
            for i in range(n):
                for x in a[3].args:
                    v = f(v, self.numv(self.ev(x, bind(env, a[4], i))))
            return v
        if op == "app":
            return self.app(t, a[0], a[1:], env)
        if op == "null":
            return "null"
        if op == "undef":
            return "undef"
        if op == "str":
            return ("str", a[0])
        return self.generic(t, env)
    def plus(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and x[:3] == y[:3] and x[:1] == ("mat",):
            return x[:3] + tuple(self.numv(u) + self.numv(v) for u, v in zip(x[3:], y[3:]))
        return self.numv(x) + self.numv(y)
    def mapbody(self, b, env, old):
        # keep / oldelem are positional placeholders
        sub_ = Eval(self.seed, self.ints, self.rename, self.loops, self.over, self.rec, self.trace)
        sub_.memo = dict() if contains(b, lambda x: x.op in ("keep", "oldelem")) else self.memo
        if sub_.memo is not self.memo:
            for nm in ("keep", "oldelem"):
                sub_.memo[(mk(nm), env)] = old
            # nested environments see the same placeholder
        return sub_.ev(b, env)
    def app(self, t, f, a, env):
        A = lambda i: self.numv(self.ev(a[i], env))
        if f in ("map_has", "map_get") and len(a) == 2:
            m, k = self.ev(a[0], env), canon(self.ev(a[1], env))
            base, d = (m[1], dict(m[2])) if isinstance(m, tuple) and m and m[0] == "map" else (canon(m), {})
            if f == "map_has":
                return k in d or base != ("emptymap",) and self.coin(("map_has", base, k))
            return d[k] if k in d else self.rnd(t, ("app", "map_get", base, k))
        if f == "sqrt":
            v = A(0)
            if v < 0:
                raise NoEval("sqrt<0")
            return math.sqrt(v)
        if f in ("exp", "sin", "cos", "tan", "log", "atan", "acos", "asin"):
            try:
                return getattr(math, f)(float(A(0)))
            except (ValueError, OverflowError):
                raise NoEval(f)
        if f == "abs":
            return abs(A(0))
        if f in ("min", "max"):
            xs = [self.numv(self.ev(x, env)) for x in a]
            if self.trace is not None:
                for x in a[1:]:
                    d = sub(a[0], x)
                    if d.op == "poly":
                        self.trace.setdefault((mk("lt0", d, False), env))
            return min(xs) if f == "min" else max(xs)
        if f == "trunc":
            v = A(0)
            return Fraction(int(v))
        if f == "f32":
            # fewer digits: which values are rounded, and to what, stands for the real rounding
            v = A(0)
            if not isinstance(v, Fraction) or v == 0:
                return v
            e = math.floor(math.log2(abs(v))) if 1e-300 < abs(v) < 1e300 else 0
            u = Fraction(2) ** (e - 3)
            return Fraction(round(v / u)) * u
        if f == "round":
            v = A(0)
            return Fraction(math.floor(abs(v) + Fraction(1, 2))) * (1 if v >= 0 else -1)
        if f in ("atan2", "pow", "hypot", "cbrt", "fmod") and len(a) == (1 if f == "cbrt" else 2):
            try:
                xs = [float(A(i)) for i in range(len(a))]
                if f == "cbrt":
                    return math.copysign(abs(xs[0]) ** (1 / 3), xs[0])
                return getattr(math, f)(*xs)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoEval(f)
        if f == "floor":
            return Fraction(math.floor(A(0)))
        if f == "ceil":
            return Fraction(math.ceil(A(0)))
        if f in ("idiv", "mod", "floordiv", "ceildiv"):
            x, y = A(0), A(1)
            if y == 0:
                raise NoEval("div0")
            x, y = Fraction(math.floor(x)), Fraction(math.floor(y))
            if y == 0:
                raise NoEval("div0")
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            if f == "idiv":
                return Fraction(q)
            if f == "mod":
                return Fraction(x - q * y)
            if f == "floordiv":
                return Fraction(x // y)
            return Fraction(-((-x) // y))
        if f in ("band", "bor", "bxor") and len(a) >= 2:
            xs = [A(i) for i in range(len(a))]
            if all(x == int(x) and x >= 0 for x in xs):
                r = int(xs[0])
                for x in xs[1:]:
                    r = {"band": r & int(x), "bor": r | int(x), "bxor": r ^ int(x)}[f]
                return Fraction(r)
        if f.startswith("shl") or f == "shr":
            x, y = A(0), A(1)
            if x == int(x) and y == int(y) and 0 <= y < 128 and x >= 0:
                return Fraction(int(x) << int(y)) if f != "shr" else Fraction(int(x) >> int(y))
        key = ("app", f) + tuple(canon(self.ev(x, env)) for x in a)
        if isinstance(f, str) and f.endswith(("operator!", "operator bool")):
            return self.coin(key)
        return self.rnd(t, key)

DIGITS = 10 ** 90

class PreciseEval(Eval):
    """square roots, sines and cosines to 90 decimals: normal forms may cancel badly in doubles"""
    def app(self, t, f, a, env):
        if f in ("sqrt", "sin", "cos"):
            v = self.numv(self.ev(a[0], env))
            if not isinstance(v, Fraction):
                v = Fraction(v)
            if f == "sqrt":
                if v < 0:
                    raise NoEval("sqrt<0")
                k = 10 ** 60
                return Fraction(math.isqrt(v.numerator * k * k * v.denominator), k * v.denominator)
            x = v.numerator * DIGITS // v.denominator
            term, tot, n = (DIGITS, 0, 0) if f == "cos" else (x, 0, 1)
            while term:
                tot += term
                term = -term * x // DIGITS * x // DIGITS // ((n + 1) * (n + 2))
                n += 2
                if n > 4000:
                    raise NoEval(f)
                if term == -1:
                    break
            return Fraction(tot, DIGITS)
        return Eval.app(self, t, f, a, env)

def bind(env, bv, i):
    n = bv.args[0]
    return tuple((k, v) for k, v in env if k != n) + ((n, Fraction(i)),)

def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y if isinstance(x, bool) and isinstance(y, bool) else (bool(x) == bool(y) if isinstance(x, (bool, Fraction)) and isinstance(y, (bool, Fraction)) else False)
    if isinstance(x, (Fraction, float, int)) and isinstance(y, (Fraction, float, int)):
        if x == y:
            return True
        if isinstance(x, Fraction) and isinstance(y, Fraction) and x.denominator == 1 and y.denominator == 1:
            return False
        x, y = float(x), float(y)
        return abs(x - y) <= 1e-6 * (1e-3 + abs(x) + abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and y and x[0] == "vec" and y[0] == "vec" and len(x) == 3 and len(y) == 3:
            if not close(x[1], y[1]):
                return False
            n = x[1]
            n = int(n) if isinstance(n, Fraction) and n.denominator == 1 and 0 <= n <= 6 else 4
            return all(close(x[2](Fraction(i)), y[2](Fraction(i))) for i in range(n))
        return len(x) == len(y) and all(close(a, b) for a, b in zip(x, y))
    if isinstance(x, Arr) and isinstance(y, Arr):
        return all(close(x(Fraction(i)), y(Fraction(i))) for i in range(5))
    return x == y

def int_terms(*ts):
    """terms compared or used as integers"""
    out = set()
    def addp(p):
        for at in TT.collect(p, lambda x: x.op in ("sym", "app", "fld", "sel", "lv", "k", "lout", "kout", "el", "elx", "out", "deref", "fresh")):
            pass
        st = [p]
        while st:
            x = st.pop()
            if x.op == "poly":
                for m, c in x.args[0]:
                    st.extend(at for at, e in m)
            elif x.op == "ite":
                st.extend(x.args[1:])
            elif x.op != "num":
                out.add(x)
    for t in ts:
        for x in collect(t, lambda x: x.op in ("lt0", "sel", "sum", "exists", "maparr", "first", "last", "pacc", "collect", "vec", "k", "rb", "re", "kout", "app", "aupd", "over")):
            if x.op == "lt0":
                if x.args[1] is True:
                    addp(x.args[0])
            elif x.op in ("sel", "aupd"):
                addp(x.args[1])
            elif x.op in ("sum", "exists", "first", "last", "pacc", "collect", "vec"):
                addp(x.args[0])
            elif x.op == "over":
                addp(x.args[1])
            elif x.op == "maparr":
                addp(x.args[0]); addp(x.args[1])
            elif x.op in ("k", "rb", "re", "kout"):
                out.add(x)
            elif x.op == "app" and (x.args[0] in ("idiv", "mod", "floordiv", "ceildiv", "band", "bor", "bxor", "shr") or x.args[0].startswith("shl")):
                for y in x.args[1:]:
                    addp(y)
    return out

def hint_key(key):
    if key[0] == "app":
        return key[:2]
    if key[0] == "fld":
        return ("fld", key[2]) if len(key) > 2 else None
    return key if key[0] == "sym" else None

def set_words(*ts):
    # the numbers a quantity is tested for equality with
    hints = {}
    for t in ts:
        for x in collect(t, lambda x: x.op == "eq0"):
            p = x.args[0]
            if p.op != "poly":
                p = ((((p, 1),), 1),)
            else:
                p = p.args[0]
            c0 = [c for m, c in p if not m]
            ms = [(m, c) for m, c in p if m]
            if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] != 1 or abs(ms[0][1]) != 1:
                continue
            u = ms[0][0][0][0]
            hk = ("app", u.args[0]) if u.op == "app" else ("fld", u.args[1]) if u.op == "fld" else ("sym",) + tuple(str(y) for y in u.args) if u.op == "sym" else None
            v = -(c0[0] if c0 else 0) / Fraction(ms[0][1])
            if hk is not None and abs(v) < 100:
                hints.setdefault(hk, set()).add(v)
    Eval.hints = {k: tuple(sorted(v)) for k, v in hints.items()}
    Eval.bools = conditions(*ts)
    Eval.words = tuple(sorted({x.args[0] for t in ts for x in collect(t, lambda x: x.op == "str")}))

def own_keys(p, ev):
    """the free quantities a polynomial is made of"""
    out = []
    for at in ([at for m, _ in p.args[0] for at, _ in m] if p.op == "poly" else [p]):
        rec = {}
        try:
            ev((at, rec))
        except (NoEval, OverflowError, ZeroDivisionError, TypeError, ValueError):
            continue
        if rec and list(rec)[-1] not in out:
            out.append(list(rec)[-1])
    return out

PROBES = [Fraction(x) for x in (-2**32, -2**23, -2**16, -1025, -33, -5, -1, 0, 1, 5, 33, 1025, 2**16, 2**23, 2**32)]

def directed(a, b, assume=(), la=None, lb=None, more=frozenset(), budget=1.0):
    """valuations on which a comparison made by one of the terms is at its threshold"""
    ints = set(int_terms(a, b, *assume)) | set(more)
    set_words(a, b, *assume)
    t_end = time.thread_time() + budget
    def agree(s, over):
        e = Eval(s, ints, loops=lb, over=over)
        if not all(e.bool(e.ev(c)) for c in assume):
            return True
        return close(Eval(s, ints, loops=la, over=over).ev(a), e.ev(b))
    for s in range(8):
        tr = []
        for t, l in ((a, la), (b, lb)):
            d = {}
            try:
                canon(Eval(s, ints, loops=l, trace=d).ev(t))
            except NoEval:
                pass
            tr.append(d)
        todo = [(k, la) for k in tr[0] if k not in tr[1]] + [(k, lb) for k in tr[1] if k not in tr[0]]
        todo += [(k, la) for k in tr[0] if k in tr[1]]
        # comparisons with large numbers are the ones the other valuations do not reach; one instance of each will do
        seen, far, near, again = set(), [], [], []
        for (at, env), l in todo:
            if (at, l is la) in seen:
                again.append(((at, env), l))
                continue
            seen.add((at, l is la))
            x = at.args[0]
            (far if x.op == "poly" and any(not m and abs(c) >= 16 for m, c in x.args[0]) else near).append(((at, env), l))
        todo = far + near + again
        # the edges of the inputs a comparison is restricted to
        d = {}
        for c in assume:
            try:
                canon(Eval(s, ints, loops=lb, trace=d).ev(c))
            except NoEval:
                pass
        edge = [(k, lb) for k in d if k not in tr[0] and k not in tr[1]][:8] if s < 3 else []
        for (at, env), l in edge + todo[:80]:
            rec = {}
            try:
                Eval(s, ints, loops=l, rec=rec).ev(at.args[0], env)
            except NoEval:
                continue
            # the quantities compared themselves come last; several of them: all of them zero
            ks = list(rec.items())
            own = own_keys(at.args[0], lambda t: Eval(s, ints, loops=l, rec=t[1]).ev(t[0], env))
            if 1 < len(own) <= 12:
                try:
                    if not agree(s, dict.fromkeys(own, Fraction(0))):
                        directed.last = (s, own, 0)
                        return s
                except NoEval:
                    pass
            ks = [(k, rec[k]) for k in own if k in rec][:8] + [x for x in ks if x[0] not in own][:8]
            for key, isint in ks[:10]:
                def g(x):
                    e = Eval(s, ints, loops=l, over={key: x})
                    return e.numv(e.ev(at.args[0], env))
                pts = []
                for x in PROBES:
                    if isint and x < 0:
                        continue
                    if time.thread_time() > t_end:
                        return None
                    try:
                        pts.append((x, g(x)))
                    except NoEval:
                        pass
                cand = [x for x, v in pts if v == 0][:2]
                for (x, v), (y, w) in zip(pts, pts[1:]):
                    if (v < 0) == (w < 0):
                        continue
                    try:
                        z = x - Fraction(v) * (y - x) / (Fraction(w) - Fraction(v))
                        if not isint or z.denominator == 1:
                            cand += [z, z + 1, z - 1]
                        for _ in range(60):
                            if y - x <= (1 if isint else Fraction(1, 4096)):
                                break
                            z = (x + y) / 2
                            if isint:
                                z = Fraction(math.floor(z))
                            u = g(z)
                            x, y = (z, y) if (u < 0) == (v < 0) else (x, z)
                    except (NoEval, ValueError, OverflowError):
                        continue
                    cand += [x, y] + ([x - 1, y + 1] if isint else [])
                for x in cand:
                    if isint and x < 0:
                        continue
                    if time.thread_time() > t_end:
                        return None
                    try:
                        if not agree(s, {key: x}):
                            directed.last = (s, key, x)
                            return s
                    except NoEval:
                        pass
    return None

def separated(a, b, seeds=48, assume=(), la=None, lb=None, more=frozenset()):
    """a valuation seed under which the two terms differ, or None"""
    ints = int_terms(a, b, *assume)
    set_words(a, b, *assume)
    if more:
        ints = set(ints) | more
    tried, t0 = 0, time.thread_time()
    for s in range(seeds * 10 if assume else seeds):
        # valuations that do not satisfy the assumptions say nothing: draw some more
        if tried >= seeds or (s >= seeds and time.thread_time() - t0 > 2):
            break
        try:
            e = Eval(s, ints, loops=lb)
            if not all(e.bool(e.ev(c)) for c in assume):
                continue
            x = Eval(s, ints, loops=la).ev(a)
            y = Eval(s, ints, loops=lb).ev(b)
            tried += 1
            if not close(x, y):
                return s
        except (NoEval, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError):
            continue
    return None

def diff(a, b, path=""):
    """component-wise differences of two aggregate terms: [(path, a, b)]"""
    if a is b:
        return []
    if a.op == "mat" and b.op == "mat" and a.args[:2] == b.args[:2]:
        out = []
        for n, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            out += diff(x, y, path + "(%d,%d)" % (n // a.args[1], n % a.args[1]))
        return out
    if a.op == "rec" or b.op == "rec":
        ba = a.args[0] if a.op == "rec" else a
        bb = b.args[0] if b.op == "rec" else b
        if (ba is bb) or (ba.op == "newobj" and bb.op == "newobj"):
            da = dict(a.args[1]) if a.op == "rec" else {}
            db = dict(b.args[1]) if b.op == "rec" else {}
            out = []
            for k in sorted(set(da) | set(db)):
                x = da[k] if k in da else fld_raw(ba, k)
                y = db[k] if k in db else fld_raw(bb, k)
                out += diff(*unify(x, y), path + "." + k)
            return out
    if a.op == "vec" and b.op == "vec":
        out = diff(a.args[0], b.args[0], path + ".size")
        if a.args[1] is not b.args[1]:
            out.append((path + "[]", a, b))
        return out
    return [(path, a, b)]

def differences(a, b, seeds=48):
    """list of (path, found, expected, seed|None)"""
    return [(p, x, y, separated(x, y, seeds)) for p, x, y in diff(a, b)]

# ------------------------------------------------------------ summary comparison
LOOPOPS = ("k", "lv", "lout", "lexit", "kout", "rb", "re")
ENVIRON = ("unk", "badptr")

def loop_keys(*ts):
    s = set()
    for t in ts:
        for x in collect(t, lambda x: x.op in LOOPOPS):
            s.add(x.args[0])
    return s

class Ob:
    """one proof obligation: an observable of an analysed function"""
    def __init__(self, what, status, found=None, want=None, why="", seed=None, line=None):
        self.what, self.status, self.found, self.want, self.why, self.seed, self.line = what, status, found, want, why, seed, line
    def text(self):
        s = "%s: %s" % (self.what, self.status)
        if self.status != "proven":
            s += " — found %s, expected %s" % (show(self.found, 4)[:300] if isinstance(self.found, T) else self.found,
                                               show(self.want, 4)[:300] if isinstance(self.want, T) else self.want)
            if self.why:
                s += " (%s)" % self.why
        return s

def observed_roots(r):
    out = []
    for root in r.store:
        k = root.args[0]
        if k == "par" and not (isinstance(root.args[1], T) and root.args[1].op == "val"):
            out.append(root)
        elif k == "mem" or (k == "glob" and not str(root.args[1]).startswith(("static ", "tls "))):
            out.append(root)
    return out

def loc_roots(t, acc):
    seen = set()
    def go(x):
        if isinstance(x, T):
            if x in seen or x.op in LOOPOPS:
                return
            seen.add(x)
            if x.op == "root":
                if x.args[0] in ("loc", "heap") and x not in acc:
                    acc.append(x)
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)

def retval(r):
    v = r.ret
    if isinstance(v, I.LV):
        return v.p
    if v is None:
        return mk("void")
    return v

def one_object(r):
    """a result allocated on one of several paths: one object whose value depends on the path"""
    v = retval(r)
    if not isinstance(v, T):
        return r
    n = I.Result()
    n.__dict__.update(r.__dict__)
    n.store = dict(r.store)
    hit = [False]
    def one(v, name):
        if not isinstance(v, T):
            return v
        ls = [l for l in leafset(v) if l is not NULL]
        if len(ls) > 1 and all(l.op == "rec" for l in ls) and len({tuple(k for k, _ in l.args[1]) for l in ls}) == 1:
            v = mkrec(ls[0].args[0], {k: lift1(lambda x, k=k: fld_raw(x, k), v) for k, _ in ls[0].args[1]})
        if v.op == "rec":
            d = {k: one(x, name + "." + str(k)) for k, x in v.args[1]}
            return v if all(d[k] is x for k, x in v.args[1]) else mkrec(v.args[0], d)
        if len(ls) < 2 or not all(l.op == "ptr" and not l.args[1] and l.args[0].op == "root" and l.args[0].args[0] in ("heap", "loc") and l.args[0] in r.store for l in ls):
            return v
        hit[0] = True
        R = mk("root", "heap", name)
        n.store[R] = lift1(lambda x: r.store[x.args[0]] if x is not NULL else UNDEF, v)
        return lift1(lambda x: I.P(R) if x is not NULL else NULL, v)
    u = one(v, "result")
    if not hit[0]:
        return r
    n.ret = u
    return n

ROTATIONS = [[[Fraction(x, n) for x in r] for r in m] for m, n in (
    (((1, -2, 2), (2, -1, -2), (2, 2, 1)), 3), (((0, -1, 0), (1, 0, 0), (0, 0, 1)), 1), (((6, -3, 2), (2, 6, 3), (-3, -2, 6)), 7))]

def wellformed(ts, k, tfs, fields=()):
    """the inputs the library is specified for: homogeneous points (w = 1), normals with w = 0, symmetric covariances
    without fourth row and column, rigid transforms (one rotation per k).  A mapping for the terms ts."""
    m = {}
    R = ROTATIONS[k % len(ROTATIONS)]
    for y in collect(tuple(ts), lambda y: y.op == "el" and isinstance(y.args[0], T)):
        o, r, c = y.args
        if not isinstance(r, int) or not isinstance(c, int):
            continue
        f = o.args[0] if o.op == "app" and isinstance(o.args[0], str) else ""
        if f.endswith("Traits::point"):
            if r == 3:
                m[y] = ONE
        elif f.endswith("Traits::normal"):
            if r == 3:
                m[y] = ZERO
        elif f.endswith("Traits::cov") or (o.op == "fld" and o.args[1] in fields):
            if r == 3 or c == 3:
                m[y] = ZERO
            elif r > c:
                m[y] = mk("el", o, c, r)
        elif o in tfs:
            if r < 3 and c < 3:
                m[y] = num(R[r][c])
            elif r == 3:
                m[y] = ONE if c == 3 else ZERO
    return m

class Compare:
    def __init__(self, found, spec, watch=(), seeds=48, ret=True, final=True, skip_roots=(), only=None, events=True):
        self.tfs, self.symfields = frozenset(), ("mahalanobis",)
        self.a, self.b = one_object(found), one_object(spec)          # a: analysed code, b: specification
        self.watch = watch
        self.seeds = seeds
        self.m = {}
        self.budget = [60.0 if seeds < 100 else 400.0]
        self.obs = []
        self.un_a, self.un_b = set(), set()   # keys of unmatched loops
        self.skip_roots = skip_roots
        self.newfns = frozenset()
        self.use_ret, self.use_final = ret, final
        self.only = only
        self.use_events = events
        self.assume, self.extra = [], []
        self.must = set()                     # opaque functions whose presence or absence is itself meaningful
        self.perms, self.groups = {}, []
        self.shaky = set()                    # keys (spec side) of loops whose exits are organised differently

    # ---- observables
    def watched(self, r):
        out = []
        for e in r.events:
            if e.kind in ("throw", "abort", "noreturn") or (self.watch and any(e.name.endswith(w) for w in self.watch)):
                out.append(e)
        return out
    def heap_terms(self, r, ts):
        """contents of heap objects reachable from the observables, in order"""
        acc = []
        for t in ts:
            loc_roots(t, acc)
        i = 0
        out = []
        while i < len(acc):
            root = acc[i]
            i += 1
            v = r.store.get(root)
            if v is not None:
                out.append(v)
                loc_roots(v, acc)
            else:
                out.append(UNDEF)
        return acc, out

    def unreachable(self, r, a, b):
        """an object made by a function known to return new objects, not handed to the caller"""
        if not isinstance(r.args[1], T):
            return False
        ls = [l for l in leafset(r.args[1]) if l is not NULL]
        if not ls or not all(l.op == "app" and l.args[0].split("::")[-1] in self.newfns for l in ls):
            return False
        seen = set()
        def has(x):
            if isinstance(x, tuple):
                return any(has(y) for y in x)
            if not isinstance(x, T) or x in seen:
                return False
            seen.add(x)
            if x in ls:
                return True
            return x.op in ("ite", "rec", "ptr", "root", "tup", "val") and any(has(y) for y in x.args)
        return not has(retval(a)) and not has(retval(b))

    def run(self):
        """compare; when loops can be put in correspondence in several ways, the best one counts"""
        self.run1()
        bad = lambda c: sum(o.status in ("differs", "undecided") for o in c.obs)
        if not any(o.status == "differs" for o in self.obs) or not any(n > 1 for n in self.groups):
            return self
        best = self
        tried = 0
        for g, n in enumerate(self.groups):
            if n < 2 or n > 4:
                continue
            for p in itertools.permutations(range(n)):
                if p == tuple(range(n)):
                    continue
                tried += 1
                if tried > 40:
                    break
                c = Compare(self.a, self.b, self.watch, self.seeds, self.use_ret, self.use_final, self.skip_roots, self.only, self.use_events)
                c.perms, c.must, c.budget = {g: p}, self.must, self.budget
                c.tfs, c.symfields, c.newfns = self.tfs, self.symfields, self.newfns
                c.run1()
                if bad(c) < bad(best):
                    best = c
                if not bad(c):
                    return c
        return best

    def run1(self):
        a, b = self.a, self.b
        # roots of heap objects
        def obsroots(r):
            return sorted(observed_roots(r), key=lambda x: str(show(x)))
        ta = [retval(a)] + [a.store[r] for r in obsroots(a)]
        tb = [retval(b)] + [b.store[r] for r in obsroots(b)]
        ha, va = self.heap_terms(a, ta)
        hb, vb = self.heap_terms(b, tb)
        mh = {}
        for x, y in zip(ha, hb):
            mh[x] = y
        self.m.update(mh)
        # loops
        self.match_loops()
        for e in b.events:
            if e.kind == "call" and e.name.endswith("vps::assume"):
                self.assume.append(I.OR(NOT(e.guard), asbool(e.args[0])) if False else OR(NOT(e.guard), asbool(e.args[0])))
        # obligations
        self.find_shaky()
        S = self.S
        self.check("condition of normal return", S(a.pc), b.pc)
        # results exist where the operation returns
        returns = [b.pc] if b.pc is not TRUE and b.pc is not FALSE else []
        self.extra = self.extra + returns
        self.match_roots()
        if self.use_ret:
            self.check("returned value", S(retval(a)), retval(b))
        if self.use_final:
            roots = list(observed_roots(b))
            ra = {}
            for r in observed_roots(a):
                ra[S(r)] = a.store[r]
            for r in ra:
                if r not in roots:
                    roots.append(r)
            for r in roots:
                if any(r is x for x in self.skip_roots):
                    continue
                if self.newfns and self.unreachable(r, a, b):
                    continue
                nm = show(r.args[1]) if isinstance(r.args[1], T) else str(r.args[1])
                if self.only and not any(o in nm for o in self.only):
                    continue
                va_ = S(ra[r]) if r in ra else I.init_of(r)
                vb_ = b.store.get(r)
                if vb_ is None:
                    vb_ = I.init_of(r)
                va_, vb_ = unify(va_, vb_)
                self.check("final state of %s" % nm, va_, vb_)
            for x, y in zip(ha, hb):
                if x in a.store and y in b.store:
                    self.check("object referenced by the result", S(a.store[x]), b.store[y])
        if returns:
            self.extra = self.extra[:-1]
        self.check_loops()
        if self.use_events:
            self.check_events()
        self.consulted()
        if getattr(a, "lost", False) or getattr(b, "lost", False):
            for o in self.obs:
                if o.status == "differs":
                    o.status, o.why = "undecided", "a write the model has no place for"
        return self

    def match_roots(self):
        """objects reached through results of calls whose arguments agree only under the assumptions"""
        S = self.S
        mem = lambda r: r.args[0] == "mem" and isinstance(r.args[1], T) and r.args[1].op in ("app", "out")
        rb = [r for r in self.b.store if mem(r)]
        ra = [r for r in self.a.store if mem(r) and S(r) not in rb]
        rb = [r for r in rb if not any(S(x) is r for x in self.a.store)]
        for x in ra:
            for y in rb:
                u, v = S(x.args[1]), y.args[1]
                if u.op == v.op and u.args[0] == v.args[0] and len(u.args) == len(v.args) and self.same(u, v, [e.guard for e in self.b.events if e.res is v]):
                    self.m[x], self.m[x.args[1]] = y, v
                    rb.remove(y)
                    break

    def same(self, u, v, guards=()):
        try:
            assume = self.assume + self.extra + [g for g in guards if g is not TRUE]
            return not self.bad_vocab(u, True) and not self.bad_vocab(v, False) and self.sep(u, v, assume) is None
        except TypeError:
            return False

    def consulted(self):
        """the components of the harness have no substitute: what the specification asks them, the code has to ask them too"""
        self.foreign(TRUE, True)
        va, vb = self.voc
        if self.only is not None or not self.plain():
            return
        for n, k in sorted((x for x in vb if isinstance(x[0], str) and x[0].startswith("vp::") and not any(y[0] == x[0] for y in va))):
            if any(n == e.name for e in self.a.events):
                continue
            self.obs.append(Ob("use of %s" % n, "differs", mk("str", "never consulted"), mk("str", "consulted"), "the result does not depend on it", line=None))

    def S(self, t):
        n = len(self.m)
        if getattr(self, "_mn", None) != n:
            self._mn, self._memo = n, {}
        return subst(t, self.m, self._memo)

    # ---- loop correspondence
    def relevant(self, r):
        ts = [retval(r), r.pc] + [r.store[x] for x in observed_roots(r)] + self.heap_terms(r, [retval(r)] + [r.store[x] for x in observed_roots(r)])[1]
        for e in self.watched(r):
            ts += [x for x in e.args if isinstance(x, T)] + [e.guard]
        by = {L.key: L for L in r.loops}
        keys, todo = set(), set(loop_keys(*ts))
        for e in self.watched(r):
            for L in e.loops:
                todo.add(L.key)
        # per leaf relevance
        leaves = set()
        def add_terms(*ts):
            for t in ts:
                for x in collect(t, lambda x: x.op in LOOPOPS):
                    todo.add(x.args[0])
                    if x.op in ("lv", "lout"):
                        leaves.add((x.args[0], x.args[1]))
        add_terms(*ts)
        done_l = set()
        while True:
            new = [k for k in todo if k not in keys and k in by]
            newl = [l for l in leaves if l not in done_l and l[0] in by]
            if not new and not newl:
                break
            for k in new:
                keys.add(k)
                L = by[k]
                add_terms(L.cond, L.pc0)
                if L.trip is not None:
                    add_terms(L.trip)
                for p, *_ in list(L.brk) + list(L.rets):
                    add_terms(p)
                if L.parent is not None:
                    todo.add(L.parent.key)
            for l in newl:
                done_l.add(l)
                L = by[l[0]]
                if l[1] in L.next:
                    add_terms(L.next[l[1]], L.init[l[1]])
        return [L for L in sorted(r.loops, key=lambda L: L.key) if L.key in keys], done_l

    def match_loops(self):
        la, self.lva = self.relevant(self.a)
        lb, self.lvb = self.relevant(self.b)
        self.pairs = []
        def kids(ls, parent):
            ks = set(L.key for L in ls)
            out = []
            for L in ls:
                p = L.parent
                while p is not None and p.key not in ks:
                    p = p.parent
                if p is parent:
                    out.append(L)
            return out
        def pair(pa, pb):
            xa, xb = kids(la, pa), kids(lb, pb)
            if len(xa) != len(xb):
                # greedy: equal trip counts / conditions first
                sig = lambda L, S: (S(L.trip) if L.trip is not None else None, len(L.brk), len(L.rets))
                ya, yb = [], []
                rest = list(xb)
                for L in xa:
                    for M in rest:
                        if sig(L, self.S2) == sig(M, lambda t: t):
                            ya.append(L); yb.append(M)
                            rest.remove(M)
                            break
                for L in xa:
                    if L not in ya:
                        self.un_a.add(L.key)
                for M in xb:
                    if M not in yb:
                        self.un_b.add(M.key)
                xa, xb = ya, yb
            elif len(xa) > 1:
                # in order, unless the trip counts say otherwise
                g = len(self.groups)
                if g in self.perms and len(self.perms[g]) == len(xb):
                    xb = [xb[i] for i in self.perms[g]]
                else:
                    sg = lambda L, S: S(L.trip) if L.trip is not None else None
                    if any(sg(L, self.S2) is not sg(M, lambda t: t) for L, M in zip(xa, xb)):
                        rest, out = list(xb), []
                        for L in xa:
                            c = [M for M in rest if L.trip is not None and sg(M, lambda t: t) is sg(L, self.S2)]
                            out.append(c[0] if c else None)
                            if c:
                                rest.remove(c[0])
                        xb = [M if M is not None else rest.pop(0) for M in out]
            self.groups.append(len(xa))
            for L, M in zip(xa, xb):
                self.bind(L, M)
                self.pairs.append((L, M))
                pair(L, M)
        pair(None, None)
    def S2(self, t):
        return self.S(t)
    def bind(self, L, M):
        self.m[L.k] = M.k
        for op in ("kout", "rb", "re"):
            self.m[mk(op, L.key)] = mk(op, M.key)
        n = max(len(L.brk) + len(L.rets), len(M.brk) + len(M.rets))
        for j in range(n):
            self.m[mk("lexit", L.key, j)] = mk("lexit", M.key, j)
        # leaves
        def live(X, lvs):
            return [lf for lf in X.leaf if X.ind.get(lf) is None and (X.key, lf) in lvs]
        xa, xb = live(L, self.lva), live(M, self.lvb)
        mapped = {}
        used = set()
        S = self.S2
        loc = lambda lf: lf[0].args[0] in ("loc",) or (lf[0].args[0] == "par" and lf[0].args[1].op == "val")
        # named places by identity
        memo = {}
        for lf in xa:
            r2 = self.m.get(lf[0]) or subst(lf[0], self.m, memo)
            key = (r2,) + tuple(self.norm_path(x) for x in lf[1:])
            if not loc(lf) or r2 is not lf[0]:
                for lg in xb:
                    if (lg[0],) + tuple(lg[1:]) == key and lg not in used:
                        mapped[lf] = lg
                        used.add(lg)
                        break
        # locals: by how they evolve (partition refinement over the step functions)
        ra = [lf for lf in xa if lf not in mapped]
        rb = [lf for lf in xb if lf not in used]
        def setm(mp):
            for lf, lg in mp.items():
                self.m[mk("lv", L.key, lf)] = mk("lv", M.key, lg)
                self.m[mk("lout", L.key, lf)] = mk("lout", M.key, lg)
        setm(mapped)
        if ra and rb and len(ra) + len(rb) > 2:
            base = dict(self.m)
            colour, table = {}, {}
            col = lambda key: table.setdefault(key, len(table))
            memo0 = {}
            for lf in ra:
                colour["a", lf] = col((lf[3], subst(L.init[lf], base, memo0)))
            for lg in rb:
                colour["b", lg] = col((lg[3], M.init[lg]))
            hist = []
            for rnd in range(4):
                hist.append(dict(colour))
                ma, mb = dict(base), {}
                for lf in ra:
                    ma[mk("lv", L.key, lf)] = mk("sym", "colour%d" % colour["a", lf])
                for lg in rb:
                    mb[mk("lv", M.key, lg)] = mk("sym", "colour%d" % colour["b", lg])
                m1, m2 = {}, {}
                new = {}
                for lf in ra:
                    new["a", lf] = col((rnd, colour["a", lf], subst(L.next[lf], ma, m1)))
                for lg in rb:
                    new["b", lg] = col((rnd, colour["b", lg], subst(M.next[lg], mb, m2)))
                if len(set(new.values())) == len(set(colour.values())) and rnd:
                    colour = new
                    break
                colour = new
            hist.append(colour)
            for h in reversed(hist[1:]):
                cls = {}
                for lf in ra:
                    if lf not in mapped:
                        cls.setdefault(h["a", lf], ([], []))[0].append(lf)
                for lg in rb:
                    if lg not in used:
                        cls.setdefault(h["b", lg], ([], []))[1].append(lg)
                for p, q in cls.values():
                    if len(p) == len(q):
                        for lf, lg in zip(p, q):
                            mapped[lf] = lg
                            used.add(lg)
            setm(mapped)
            memo = {}
        # remaining locals: by initial value (several candidates: permutations)
        ra = [lf for lf in xa if lf not in mapped]
        rb = [lf for lf in xb if lf not in used]
        groups = {}
        for lf in ra:
            groups.setdefault((lf[3], subst(L.init[lf], self.m, memo)), ([], []))[0].append(lf)
        for lg in rb:
            groups.setdefault((lg[3], M.init[lg]), ([], []))[1].append(lg)
        amb = []
        for g, (p, q) in groups.items():
            if len(p) == 1 and len(q) == 1:
                mapped[p[0]] = q[0]
                used.add(q[0])
            elif p and q:
                amb.append((p, q))
        setm(mapped)
        if amb:
            best, bestn = None, None
            opts = []
            tot = 1
            for p, q in amb:
                if len(p) <= len(q):
                    o = [list(zip(p, s)) for s in itertools.permutations(q, len(p))]
                else:
                    o = [list(zip(s, q)) for s in itertools.permutations(p, len(q))]
                tot *= len(o)
                opts.append(o)
            if tot > 240:
                opts = [o[:1] for o in opts]
            for combo in itertools.product(*opts):
                mp = dict(x for g in combo for x in g)
                m2 = dict(self.m)
                for lf, lg in {**mapped, **mp}.items():
                    m2[mk("lv", L.key, lf)] = mk("lv", M.key, lg)
                memo2 = {}
                n = 0
                allm = {**mapped, **mp}
                for lf, lg in allm.items():
                    if subst(L.next[lf], m2, memo2) is not M.next[lg]:
                        n += 1
                if bestn is None or n < bestn:
                    best, bestn = mp, n
                if n == 0:
                    break
            mapped.update(best)
            used.update(best.values())
            setm(best)
        # leftovers: same tag, in order
        ra = [lf for lf in xa if lf not in mapped]
        rb = [lf for lf in xb if lf not in used]
        for lf in list(ra):
            c = [lg for lg in rb if lg[3] == lf[3] and loc(lg) == loc(lf)]
            if len(c) == 1 and sum(1 for l2 in ra if l2[3] == lf[3] and loc(l2) == loc(lf)) == 1:
                mapped[lf] = c[0]
                rb.remove(c[0])
                ra.remove(lf)
        setm(mapped)
        # a sequence of numbers and a sequence of matrices are not the same variable
        for lf, lg in list(mapped.items()):
            if loc(lf):
                p, q = element_kind(L.next[lf]), element_kind(M.next[lg])
                if p and q and p != q:
                    del mapped[lf]
                    self.m.pop(mk("lv", L.key, lf), None)
                    self.m.pop(mk("lout", L.key, lf), None)
        L._map = mapped
        L._kept = []
        self.fresh(L, M, mapped)
        # a named place that one side accumulates into while the other, which carries nothing else round, leaves it alone
        def untouched(X, root, path, init, tr):
            h = X.header.get(root)
            if h is None or any(lf[0] is root and lf[1][:1] == path[:1] for lf in X.leaf):
                return False
            for x in path:
                if not isinstance(x, tuple) or x[0] != "f":
                    return False
                h = fld_raw(h, x[1])
            return tr(h) is init
        for mine, rest, other, X, Y in ((False, rb, ra, L, M), (True, ra, rb, M, L)):
            if any(loc(lf) for lf in other):
                continue
            for lf in rest:
                if loc(lf) or lf[2] or lf[3] or not lf[1]:
                    continue
                v = mk("lv", Y.key, lf)
                if not contains(Y.next[lf], lambda t: t is v) or Y.init[lf].op != "fld":
                    continue
                root = [r for r in X.header if (self.S(r) if not mine else r) is (lf[0] if not mine else self.S(lf[0]))]
                if len(root) == 1 and untouched(X, root[0], lf[1], Y.init[lf] if not mine else self.S(Y.init[lf]), self.S if not mine else (lambda t: t)):
                    L._kept.append((mine, lf))
        if ra or rb:
            L._extra = (ra, rb)

    def fresh(self, L, M, mapped):
        """objects allocated by an iteration: the n-th one kept on one side is the n-th one on the other"""
        L._fresh = []
        if L.end is None or M.end is None:
            return
        taken = set(self.m.values())
        for lf, lg in mapped.items():
            p, q = [], []
            loc_roots(self.S(L.next[lf]), p)
            loc_roots(M.next[lg], q)
            p = [r for r in p if r.args[0] == "heap" and r in L.end and r not in L.header and r not in self.m]
            q = [r for r in q if r.args[0] == "heap" and r in M.end and r not in M.header and r not in taken]
            if len(p) == len(q):
                for r, r2 in zip(p, q):
                    self.m[r] = r2
                    taken.add(r2)
                    L._fresh.append((r, r2))

    def norm_path(self, x):
        if isinstance(x, tuple):
            return tuple(self.norm_path(y) for y in x)
        if isinstance(x, T):
            return subst(x, self.m)
        return x

    def check_loops(self):
        S = self.S2
        for L, M in self.pairs:
            n0 = len(self.obs)
            self.check_loop(L, M)
            mine = self.obs[n0:]
            bad = [o.what for o in mine if o.status == "differs"]
            if L.trip is not None and M.trip is not None and any(": start value of " in n for n in bad):
                d = sub(S(L.trip), M.trip)
                if d.op == "num" and d.args[0] != 0:
                    # the same range, entered one step earlier or later: the two loops keep different invariants
                    for o in mine:
                        if o.status == "differs":
                            o.status, o.why = "undecided", "the loops do not run in step"

    def check_loop(self, L, M):
        S = self.S2
        if True:
            nm = "loop at line %s" % L.line
            c1, c2 = S(L.cond), M.cond
            ea, eb = list(L.brk) + list(L.rets), list(M.brk) + list(M.rets)
            cont = None
            if M.key in self.shaky:
                # exits organised differently: compare whether the first and the next iteration take place
                self.check(nm + ": first iteration takes place", self.at_start(L, S), self.at_start(M, lambda t: t), line=L.line)
                cont = AND(S(L.pc_end), self.at_next(L, M, S)), AND(M.pc_end, self.at_next(M, None, lambda t: t))
                self.extra = [c1, c2]
                self.check(nm + ": condition for a further iteration", *cont, line=L.line)
            else:
                self.check(nm + ": continuation condition", c1, c2, line=L.line)
                for j, ((p, *_), (q, *_)) in enumerate(zip(ea, eb)):
                    self.check(nm + ": exit %d" % j, S(p), q, line=L.line)
            self.extra = [c1, c2] if cont else []
            for lf, lg in L._map.items():
                d = ".".join(str(x[1]) for x in lf[1] + lf[2]) or show(lf[0])[5:40]
                self.check(nm + ": start value of %s" % d, S(L.init[lf]), M.init[lg], line=L.line)
                x, y = S(L.next[lf]), M.next[lg]
                if x is y:
                    self.obs.append(Ob(nm + ": step of %s" % d, "proven"))
                    continue
                pa, pb = cont or (S(L.pc_end), M.pc_end)
                try:
                    x, y = ite(pa, *unify(x, mk("none"))), ite(pb, *unify(y, mk("none")))
                except Exception:
                    pass
                self.check(nm + ": step of %s" % d, x, y, line=L.line)
            if not (self.un_a or self.un_b):
                for mine, lf in L._kept:
                    Y = L if mine else M
                    # the place keeps its value on the other side
                    v = mk("sym", "kept", lf[1])
                    m = {mk("lv", Y.key, lf): v}
                    x = subst(S(L.next[lf]), {S(t): r for t, r in m.items()}, {}) if mine else v
                    y = v if mine else subst(M.next[lf], m, {})
                    pa, pb = cont or (S(L.pc_end), M.pc_end)
                    try:
                        x, y = ite(pa, *unify(x, mk("none"))), ite(pb, *unify(y, mk("none")))
                    except Exception:
                        continue
                    self.check(nm + ": step of %s" % ".".join(str(f[1]) for f in lf[1]), x, y, line=L.line)
            for n, (r, r2) in enumerate(L._fresh):
                self.check(nm + ": contents of object %d made by an iteration" % n, where_made(S(L.end[r]), M.end[r2]), M.end[r2], line=L.line)
            self.extra = []

    def loop_tables(self):
        """what each side says about loops that are not entered"""
        if getattr(self, "_lt", None) is None or self._lt[0] != len(self.m):
            la, lb = {}, {}
            for L, M in self.pairs:
                S = self.S2
                la[M.key] = (self.at_start(L, S), {lg: S(L.init[lf]) for lf, lg in L._map.items()})
                lb[M.key] = (self.at_start(M, lambda t: t), {lg: M.init[lg] for lg in L._map.values()})
            self._lt = (len(self.m), la, lb, set(int_terms(*[t for d in (la, lb) for c, i in d.values() for t in [c] + list(i.values())])))
        return self._lt[1:]
    def sep(self, u, v, assume):
        return separated(u, v, self.seeds, assume, *self.loop_tables())
    def sep2(self, u, v, assume):
        s = self.sep(u, v, assume)
        if s is None and self.budget[0] > 0:
            t = time.thread_time()
            s = directed(u, v, assume, *self.loop_tables(), budget=min(self.budget[0], 2.0 if self.seeds < 100 else 10.0))
            self.budget[0] -= time.thread_time() - t
        return s

    def at_start(self, L, S):
        m = {mk("lv", L.key, lf): v for lf, v in L.init.items()}
        m[L.k] = num(0)
        return S(subst(L.cond, m, {}))
    def at_next(self, L, M, S):
        m = {mk("lv", L.key, lf): v for lf, v in L.next.items()}
        m[L.k] = add(L.k, num(1))
        return S(subst(L.cond, m, {}))
    def find_shaky(self):
        """loops whose continuation condition and exits do not agree one by one: there only the
        existence of a first and of a further iteration is comparable"""
        eq = lambda x, y: x is y or (not self.bad_vocab(x, True) and not self.bad_vocab(y, False) and self.sep(x, y, self.assume) is None)
        for L, M in self.pairs:
            ea, eb = list(L.brk) + list(L.rets), list(M.brk) + list(M.rets)
            if len(L.brk) != len(M.brk) or len(ea) != len(eb) or not eq(self.S2(L.cond), M.cond) or \
                    not all(eq(self.S2(p), q) for (p, *_), (q, *_) in zip(ea, eb)):
                self.shaky.add(M.key)

    # ---- events
    def check_events(self):
        ea = [e for e in self.watched(self.a)]
        eb = [e for e in self.watched(self.b)]
        S = self.S2
        matched = []
        ra = []
        rest = list(eb)
        rep = lambda e: ([S(x) if isinstance(x, T) else x for x in e.args], S(e.guard), tuple(self.mapkey(L.key) for L in e.loops if L.key in {l.key for l, _ in self.pairs} | self.un_a))
        repb = lambda e: (list(e.args), e.guard, tuple(L.key for L in e.loops if L.key in {l.key for _, l in self.pairs} | self.un_b))
        A = [(e, rep(e)) for e in ea]
        B = [(e, repb(e)) for e in eb]
        for e, x in list(A):
            for f, y in B:
                if self.ename(e) == self.ename(f) and x == y:
                    A.remove((e, x))
                    B.remove((f, y))
                    self.obs.append(Ob("call of %s" % e.name, "proven", line=e.line))
                    break
        # same name: compare in order, guards merged
        names = []
        for e, _ in A + B:
            n = self.ename(e)
            if n not in names:
                names.append(n)
        for n in names:
            xs = [(e, x) for e, x in A if self.ename(e) == n]
            ys = [(e, y) for e, y in B if self.ename(e) == n]
            if len(xs) == len(ys):
                for (e, x), (f, y) in zip(xs, ys):
                    w = "%s of %s" % (e.kind, e.name)
                    self.check(w + ": condition", x[1], y[1], line=e.line)
                    for i, (p, q) in enumerate(zip(x[0], y[0])):
                        if isinstance(p, T) and isinstance(q, T):
                            self.check(w + ": argument %d" % i, ite(x[1], *unify(p, mk("none"))), ite(y[1], *unify(q, mk("none"))), line=e.line)
                    if x[2] != y[2]:
                        self.obs.append(Ob(w + ": enclosing loops", "undecided", x[2], y[2], line=e.line))
            else:
                ga = gb = FALSE
                for _, x in xs:
                    ga = OR(ga, x[1])
                for _, y in ys:
                    gb = OR(gb, y[1])
                e = (xs or ys)[0][0]
                self.check("%s of %s: condition" % (e.kind, e.name), ga, gb, line=e.line if xs else None)
    def ename(self, e):
        return (e.kind, e.name.split("::")[-1])
    def mapkey(self, k):
        for L, M in self.pairs:
            if L.key == k:
                return M.key
        return ("a", k)

    # ---- vocabulary
    KNOWN = {"sqrt", "exp", "sin", "cos", "tan", "log", "atan", "acos", "asin", "abs", "min", "max", "f32", "trunc", "floor", "ceil", "idiv", "mod",
             "floordiv", "ceildiv", "band", "bor", "bxor", "shr", "inf", "-inf", "nan", "ptrdiff", "round", "atan2", "pow", "hypot", "rows", "cols"}
    def vocab(self, r):
        ts = [retval(r), r.pc] + list(r.store.values())
        for L in r.loops:
            ts += [L.cond, L.pc_end] + list(L.next.values()) + list(L.init.values())
            ts += [p for p, *_ in list(L.brk) + list(L.rets)]
        for e in r.events:
            ts += [x for x in e.args if isinstance(x, T)] + [e.guard]
        out = set()
        seen = set()
        st = [t for t in ts if isinstance(t, T)]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "app":
                out.add((t.args[0], len(t.args)))
            st2 = list(t.args)
            while st2:
                y = st2.pop()
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st2.extend(y)
        return out
    def foreign(self, t, mine):
        """a function in t that the other side does not use at all and whose meaning is not known here"""
        if not hasattr(self, "voc"):
            self.voc = (self.vocab(self.a), self.vocab(self.b))
        other = self.voc[1 if mine else 0]
        for x in collect(t, lambda x: x.op == "app"):
            n = x.args[0]
            if not isinstance(n, str) or n in self.KNOWN or n.startswith(("shl", "limit_", "map_", "make:")) and not n.startswith("make:Eigen::"):
                continue
            if (n, len(x.args)) in other:
                continue
            if n.startswith(("vp::", "small_gicp::traits::Traits::")) or "<vp::" in n or n in self.must:
                continue
            if not mine and self.plain():
                continue                      # nothing the analysed code uses could stand in for it
            return n
        return None
    def plain(self):
        """the analysed code is modelled completely and uses no function the specification does not use"""
        if not hasattr(self, "_plain"):
            va, vb = self.voc
            self._plain = all(x in vb or not isinstance(x[0], str) or x[0] in self.KNOWN or x[0].startswith(("shl", "limit_", "map_", "make:")) for x in va) and not self.unmodelled(self.a)
        return self._plain
    def unmodelled(self, r):
        ts = [retval(r), r.pc] + list(r.store.values())
        for L in r.loops:
            ts += [L.cond, L.pc_end] + list(L.next.values()) + [p for p, *_ in list(L.brk) + list(L.rets)]
        return any(isinstance(t, T) and contains(t, lambda x: x.op in ENVIRON) for t in ts)

    # ---- deciding one obligation
    def bad_vocab(self, t, mine):
        """reason why a difference involving t cannot be trusted, or None"""
        if contains(t, lambda x: x.op in ENVIRON):
            return "unmodelled construct"
        f = self.foreign(t, mine)
        if f:
            return "function %s without counterpart" % f
        ka = {L.key for L, _ in self.pairs}
        kb = {M.key for _, M in self.pairs}
        un = self.un_a if mine else self.un_b
        for x in collect(t, lambda x: x.op in LOOPOPS):
            if x.args[0] in un:
                return "loop without counterpart"
            if x.args[0] in self.shaky and x.op in ("lout", "lexit", "kout", "rb", "re"):
                return "loop exits organised differently"
            if mine and x.args[0] not in kb:
                return "loop without counterpart"
            if mine and x.op in ("lv", "lout") and not any(x.args[1] == lg for L, M in self.pairs if M.key == x.args[0] for lg in L._map.values()):
                return "loop variable without counterpart"
            if not mine and x.op in ("lv", "lout"):
                for L, M in self.pairs:
                    if M.key == x.args[0] and not any(x.args[1] == lg for lg in L._map.values()):
                        return "loop variable without counterpart"
        return None

    def after_iteration(self, u, v):
        """a variable that only one side carries round a loop: compare the sides for a loop that is left by its
        condition after an iteration, where the variable has the value the last iteration gave it"""
        for L, M in self.pairs:
            ex = getattr(L, "_extra", None)
            if not ex or M.key in self.shaky:
                continue
            S = self.S2
            if any(lf not in L.next for lf in list(L._map) + list(ex[0])) or any(lg not in M.next for lg in list(L._map.values()) + list(ex[1])):
                continue
            off = {mk("lexit", M.key, j): FALSE for j in range(len(M.brk) + len(M.rets))}
            off[mk("kout", M.key)] = add(M.k, num(1))
            mu, mv = dict(off), dict(off)
            for lf, lg in L._map.items():
                mu[mk("lout", M.key, lg)] = S(L.next[lf])
                mv[mk("lout", M.key, lg)] = M.next[lg]
            for lf in ex[0]:
                mu[mk("lout", L.key, lf)] = S(L.next[lf])
            for lg in ex[1]:
                mv[mk("lout", M.key, lg)] = M.next[lg]
            last = {}
            nx = NOT(self.at_next(M, None, lambda t: t))
            if M.cond.op == "ite" and M.cond.args[0].op in ("lt0",):
                # k + c < n: the last iteration is the one with k + c + 1 = n
                p = M.cond.args[0].args[0]
                for q in (sub(p, M.k), add(p, M.k)):
                    if not occurs(M.k, q):
                        last[M.k] = sub(num(-1), q) if q is sub(p, M.k) else add(q, num(0))
            def fin(t):
                return subst(t, last, {}) if last else t
            try:
                x, y = fin(subst(u, mu, {})), fin(subst(v, mv, {}))
                parts = diff(*unify(x, y))
            except Exception:
                continue
            asm = [S(L.cond), S(L.pc_end), M.cond, M.pc_end, nx]
            P, Q = L.parent, M.parent
            while P is not None and Q is not None:
                asm += [S(P.cond), Q.cond]
                P, Q = P.parent, Q.parent
            asm = [fin(a) for a in asm]
            for p, x, y in parts:
                if self.bad_vocab(x, True) or self.bad_vocab(y, False) or any(self.bad_vocab(a, True) for a in asm):
                    continue
                s = self.sep2(x, y, self.assume + asm)
                if s is not None:
                    return s, x, y
        return None

    def check(self, what, x, y, line=None):
        if x is y:
            self.obs.append(Ob(what, "proven", line=line))
            return
        try:
            parts = diff(x, y)
        except Exception as ex:
            self.obs.append(Ob(what, "undecided", x, y, "comparison failed: %r" % (ex,), line=line))
            return
        if not parts:
            self.obs.append(Ob(what, "proven", line=line))
            return
        for p, u, v in parts:
            w = what + p
            bad = self.bad_vocab(u, True) or self.bad_vocab(v, False)
            if bad == "loop variable without counterpart":
                r = self.after_iteration(u, v)
                if r is not None:
                    self.obs.append(Ob(w, "differs", r[1], r[2], "after a loop that ends with its condition following an iteration; separated by valuation %d" % r[0], seed=r[0], line=line))
                    continue
            if bad:
                self.obs.append(Ob(w, "undecided", u, v, bad, line=line))
                continue
            s = self.sep2(u, v, self.assume + self.extra)
            wf = "" if s is None else self.on_wellformed(u, v, s)
            if s is None:
                self.obs.append(Ob(w, "equal", u, v, "normal forms differ, random interpretation does not separate them", line=line))
            elif wf != "differs":
                self.obs.append(Ob(w, wf, u, v, "only separated on malformed inputs", line=line))
            else:
                self.obs.append(Ob(w, "differs", u, v, "separated by valuation %d" % s, seed=s, line=line))
    def on_wellformed(self, u, v, s):
        """do two terms that some valuation separates also differ on the inputs the library is specified for?"""
        for k in range(len(ROTATIONS)):
            m = wellformed((u, v), k, self.tfs, self.symfields)
            if not m:
                return "differs"
            try:
                x, y = subst(u, m), subst(v, m)
                if x is y:
                    continue
                if self.sep2(x, y, self.assume + self.extra) is not None:
                    return "differs"
            except (TooBig, RecursionError):
                return "undecided"
        return "equal"
