"""Data races: which accesses of one library call may run in different threads, and which of them overlap.

The interpreter logs every memory access made inside a parallel construct together with the place, its index
terms, the condition under which it happens and the loops and constructs around it.  Two accesses made by
different iterations (threads) of one construct race if they may touch the same element, one of them writes,
and they are not both atomic.  Overlap of index terms is decided on the terms: different members never overlap,
slots of the thread number are the thread's own, elements reserved by one atomic operation are the reserving
iteration's own; otherwise a pair of different iterations with equal indices that satisfies both conditions
is looked for by evaluating the terms and solving for one loop counter at a time."""
import random
from fractions import Fraction
from .terms import *
from . import terms as TT
from . import interp as I
from . import equiv as E

BIG = tuple(Fraction(x) for x in (1, 2, 3, 4, 5, 7, 20, 300, 1500, 2500, 5000))

class SideEval(E.Eval):
    def __init__(self, seed, side, inner, ints, over):
        E.Eval.__init__(self, seed, ints=ints, over=over)
        self.side, self.inner = side, inner
    def leaf(self, key, isint):
        if self.over and key in self.over:
            return self.over[key]
        h = self.h(*key)
        if isint:
            return BIG[(h >> 3) % len(BIG)]
        return E.SMALLR[(h >> 3) % len(E.SMALLR)]
    def generic(self, t, env):
        if t.op in E.LOOPOPS and t.args and t.args[0] in self.inner and t.op not in ("k", "rb", "re"):
            h = self.h(self.side, t.op, repr(t.args[1:]), t.args[0])
            if t in self.ints:
                return BIG[(h >> 3) % len(BIG)]
            return E.SMALLR[(h >> 3) % len(E.SMALLR)]
        return E.Eval.generic(self, t, env)

THREAD = ("omp_get_thread_num",)
COMPUTED = ("lv", "lout", "lexit", "kout", "any", "perm", "maparr", "out", "unk", "undef", "first", "last", "collect", "outonly")

def where(a):
    return "%s:%s" % (a.file.split("/include/")[-1].split("/src/")[-1] if a.file else "?", a.line)

def place(a):
    s = show(a.root, 3)
    r = a.root
    if r.args[0] in ("loc", "heap") and len(r.args) > 1:
        s = str(r.args[1]).split("#")[0]
    elif r.args[0] == "par":
        s = show(r.args[1], 2)
    elif r.args[0] == "glob":
        s = str(r.args[1])
    for x in a.path:
        s += "." + str(x[1]) if x[0] == "f" else ".size" if x[0] == "$size" else "[%s]" % ", ".join(show(y, 4)[:60] for y in x[1:])
    return s

def outer(a):
    for p in a.par:
        if p.kind not in ("single", "task", "context"):
            return p
    return a.par[-1]

def shared(a):
    """is the accessed object visible to several threads of the construct?"""
    r = a.root
    if r.args[0] == "glob":
        return not str(r.args[1]).startswith("tls ")
    for p in a.par:
        if r in p.private or r in p.reduction:
            return False
    if r.args[0] in ("loc", "heap"):
        return r in outer(a).store0
    if r.args[0] == "par" and str(show(r.args[1], 1)).startswith("cmp_"):
        return False
    return True

def cls(a):
    """how the access is distributed over threads: ('for', construct) iterations, ('branch', construct, i), ('team', construct),
    ('single', construct), ('task', construct)"""
    for p in reversed(a.par):
        if p.kind == "tbb::parallel_invoke":
            return ("branch", p)
        if p.loop is not None or p.rb is not None or p.kind.startswith("tbb::") or " for" in " " + p.kind or p.kind == "taskloop":
            return ("for", p)
        if p.kind == "task":
            return ("task", p)
        if p.kind == "single":
            return ("single", p)
        if p.kind in ("critical",):
            continue
        if p.kind == "context":
            return ("context", p)
        return ("team", p)

def overlap_fields(x, y):
    """None: different members; otherwise the list of index pairs that have to agree"""
    out = []
    for p, q in zip(x.path, y.path):
        if p[0] == "f" and q[0] == "f":
            if p[1] != q[1]:
                return None
        elif p[0] == "i" and q[0] == "i":
            out.append((("i", p[1]), ("i", q[1])))
        elif p[0] in ("i", "rng") and q[0] in ("i", "rng"):
            out.append((p, q))
        elif "$size" in (p[0], q[0]):
            if p[0] == q[0]:
                continue
            o, w = (q, y) if p[0] == "$size" else (p, x)
            s = x if p[0] == "$size" else y
            # the length does not change when an element does
            return None if not s.w else out
        elif p != q and p[0] == q[0]:
            return None
    return out

def region_loops(a, P):
    """loops around the access inside the construct, outermost first"""
    out, on = [], False
    for L in a.loops:
        if L is P.loop or (P.rb is not None and L.kind == "tbb_range" and L.par is P):
            on = True
        if on:
            out.append(L)
    if not on and P.kind == "tbb::parallel_reduce":
        out = [L for L in a.loops]
    return out

class Pair:
    """one question: may x (a write) and y of different iterations of P touch the same element?"""
    def __init__(self, P, x, y, idx, inner):
        self.P, self.x, self.y, self.idx, self.inner = P, x, y, idx, inner
        lx, ly = region_loops(x, P), region_loops(y, P)
        self.range = P.rb is not None
        self.lx = [L for L in lx if L.kind != "tbb_range"]
        self.ly = [L for L in ly if L.kind != "tbb_range"]
        self.rx = next((L for L in lx if L.kind == "tbb_range"), None)
        terms = [t for p, q in idx for t in p[1:] + q[1:]]
        self.terms = terms
        self.ints = E.int_terms(x.guard, y.guard, *[mk("vec", t, ZERO) for t in terms if isinstance(t, T)])
        for L in self.lx + self.ly:
            self.ints.add(L.k)
    def ids(self):
        return (self.lx[0].k if self.lx else None, self.ly[0].k if self.ly else None)
    def ev(self, seed, side, over, t):
        return SideEval(seed, side, self.inner, self.ints, over).ev(t)
    def over(self, L, ks, rng):
        o = {("k", l.key): Fraction(v) for l, v in zip(L, ks)}
        if self.range:
            for k, v in rng.items():
                o[k] = Fraction(v)
        return o
    def different(self, kx, ky):
        if self.range:
            return True     # the ranges are disjoint by construction
        if not self.lx or not self.ly:
            return True
        return kx[0] != ky[0]
    def match(self, seed, ox, oy):
        for p, q in self.idx:
            ax = [self.ev(seed, "x", ox, t) for t in p[1:]]
            ay = [self.ev(seed, "y", oy, t) for t in q[1:]]
            if any(not isinstance(v, (Fraction, int)) for v in ax + ay):
                return False
            lo, hi = (ax[0], ax[0] + 1) if p[0] == "i" else (ax[0], ax[1])
            lo2, hi2 = (ay[0], ay[0] + 1) if q[0] == "i" else (ay[0], ay[1])
            if not (max(lo, lo2) < min(hi, hi2)):
                return False
            if p[0] == "i" and q[0] == "i" and lo != lo2:
                return False
        return True
    def feasible(self, seed, ox, oy):
        for a, s, o in ((self.x, "x", ox), (self.y, "y", oy)):
            g = SideEval(seed, s, self.inner, self.ints, o)
            if not g.bool(g.ev(a.guard)):
                return False
        if self.range:
            hi = SideEval(seed, "x", self.inner, self.ints, ox)
            P = self.P
            if P.hi is not None:
                top = hi.numv(hi.ev(P.hi))
                for o in (ox, oy):
                    if o[("re", self.rx.key)] > top:
                        return False
        return True
    def collide(self, seeds=36):
        """(valuation, iterations) of a conflict, or None"""
        rnd = random.Random(7)
        nx, ny = len(self.lx), len(self.ly)
        for seed in range(seeds):
            for _ in range(14):
                kx = [rnd.choice((0, 0, 1, 2, 3)) for _ in range(nx)]
                ky = [rnd.choice((0, 0, 1, 2, 3)) for _ in range(ny)]
                rg = ({}, {})
                if self.range:
                    key = self.rx.key if self.rx is not None else None
                    a, b, c = rnd.choice((0, 0, 1, 4)), rnd.choice((1, 2, 64, 1024)), rnd.choice((1, 2, 64, 1024))
                    if rnd.random() < 0.5:
                        rg = ({("rb", key): a, ("re", key): a + b}, {("rb", key): a + b, ("re", key): a + b + c})
                    else:
                        rg = ({("rb", key): a + b, ("re", key): a + b + c}, {("rb", key): a, ("re", key): a + b})
                elif nx and ny and kx[0] == ky[0]:
                    kx[0] += rnd.choice((1, 2))
                r = self.attempt(seed, kx, ky, rg)
                if r:
                    return r
                # solve one counter for equality of the first index pair
                for side, i in [("x", i) for i in range(nx)] + [("y", i) for i in range(ny)]:
                    v = self.solve(seed, kx, ky, rg, side, i)
                    if v is None:
                        continue
                    k2x, k2y = list(kx), list(ky)
                    (k2x if side == "x" else k2y)[i] = v
                    r = self.attempt(seed, k2x, k2y, rg)
                    if r:
                        return r
        return None
    def attempt(self, seed, kx, ky, rg):
        if not self.different(kx, ky):
            return None
        ox, oy = self.over(self.lx, kx, rg[0]), self.over(self.ly, ky, rg[1])
        try:
            if self.match(seed, ox, oy) and self.feasible(seed, ox, oy):
                return seed, kx, ky, rg
        except (E.NoEval, OverflowError, ZeroDivisionError):
            return None
        return None
    def solve(self, seed, kx, ky, rg, side, i):
        if not self.idx:
            return None
        p, q = self.idx[0]
        def f(v):
            a, b = list(kx), list(ky)
            (a if side == "x" else b)[i] = v
            ox, oy = self.over(self.lx, a, rg[0]), self.over(self.ly, b, rg[1])
            return E.Eval.numv(None, self.ev(seed, "x", ox, p[1])) - E.Eval.numv(None, self.ev(seed, "y", oy, q[1]))
        try:
            f0, f1 = f(0), f(1)
            c = f1 - f0
            if c == 0:
                return None
            v = -f0 / c
        except Exception:
            return None
        if isinstance(v, Fraction) and v.denominator == 1 and 0 <= v < 10 ** 7:
            return int(v)
        return None

def rmw_roots(acc):
    """atomically updated counters of a construct: (root, path)"""
    return {(a.root, a.path) for a in acc if a.w and a.atomic == "rmw"}

def counters_in(t, inner, rm):
    """atomic counters whose value inside the construct occurs in t"""
    out = []
    for x in collect(t, lambda x: x.op == "lv" and x.args[0] in inner):
        lf = x.args[1]
        if (lf[0], tuple(lf[1])) in rm:
            out.append(x)
    return out

def check_for(P, acc, report):
    """accesses of different iterations of one work-sharing construct"""
    inner = set()
    for a in acc:
        for L in region_loops(a, P):
            inner.add(L.key)
    sh, seen = [], {}
    for a in acc:
        if not shared(a):
            continue
        k = (a.w, a.root, a.path, a.atomic, tuple(L.key for L in a.loops))
        if k in seen:
            seen[k].append(a)
            continue
        seen[k] = [a]
        sh.append(a)
    rm = rmw_roots(sh)
    byroot = {}
    for a in sh:
        byroot.setdefault(a.root, []).append(a)
    n = 0
    for root, xs in byroot.items():
        ws = [a for a in xs if a.w]
        if not ws:
            continue
        for a in ws:
            if a.atomic == "store" and a.val is not None and isinstance(a.val, T):
                own = [x for x in collect(a.val, lambda x: x.op == "lv" and x.args[0] in inner and x.args[1][0] is a.root and tuple(x.args[1][1]) == a.path)]
                if own:
                    report("bad", a, a, "the new value is computed from a separately loaded old one: updates of two threads in between are lost")
                    continue
        for i, x in enumerate(ws):
            for y in [y for y in xs if not y.w] + ws[i:]:
                if x.atomic and y.atomic:
                    report("ok", x, y, "both atomic")
                    n += 1
                    continue
                idx = overlap_fields(x, y)
                if idx is None:
                    continue
                n += 1
                if any(isinstance(p[1], T) and isinstance(q[1], T) and thread_slot(p[1]) and p[1] is q[1] for p, q in idx):
                    report("ok", x, y, "slot of the executing thread")
                    continue
                cp = [c for p, q in idx for c in counters_in(p[1], inner, rm)]
                cq = [c for p, q in idx for c in counters_in(q[1], inner, rm)]
                if cp and cq and {c.args[1] for c in cp} & {c.args[1] for c in cq}:
                    report("ok", x, y, "element reserved by one atomic operation on %s" % show(cp[0].args[1][0], 2))
                    continue
                if not idx:
                    if hidden(x, y):
                        report("maybe", x, y, "whole object passed to an unknown function")
                    else:
                        report("bad", x, y, "every iteration touches this object")
                    continue
                pr = Pair(P, x, y, idx, inner)
                hit = pr.collide()
                if hit is None:
                    report("ok", x, y, "no two iterations with equal index")
                    continue
                computed = any(contains(t, lambda z: z.op in COMPUTED) for t in pr.terms if isinstance(t, T))
                if computed or hidden(x, y):
                    report("maybe", x, y, "the index depends on computed data")
                else:
                    report("bad", x, y, "iterations %s and %s touch the same element" % (describe(pr, hit)))
    return n

def describe(pr, hit):
    seed, kx, ky, rg = hit
    if pr.range:
        f = lambda r: "range [%s, %s)" % tuple(r.values())
        return f(rg[0]), f(rg[1])
    return tuple(kx) if len(kx) != 1 else kx[0], tuple(ky) if len(ky) != 1 else ky[0]

def hidden(x, y):
    return any(not a.path and a.root.args[0] in ("par", "mem") and a.rec for a in (x, y))

def thread_slot(t):
    return t.op == "app" and t.args[0] in THREAD

FORKS = ("task", "tbb::parallel_invoke")

def run(ip, f):
    """analyse a function that may itself run inside a parallel construct: its own accesses are logged too"""
    P = I.Par("context", None)
    P.store0 = set()
    ip.par = [P]
    ip.mark_reserved = True
    return ip.run(f)

def is_reserved(t):
    return isinstance(t, T) and contains(t, lambda z: z.op == "app" and z.args[0] == "reserved")

def fork_of(a):
    for p in a.par:
        if p.kind in FORKS:
            return p

def outlived(a, p):
    """does the place belong to the frame that creates the task?"""
    if a.root.args[0] != "loc" or a.root in p.private or getattr(p, "frame", None) is None:
        return False
    return any(getattr(v, "p", None) is not None and v.p.op == "ptr" and v.p.args[0] is a.root for v in p.frame.env.values())

def visible(a, p):
    r = a.root
    if r.args[0] == "par":
        return not show(r.args[1], 1).startswith("cmp_") and r.args[1].op != "val"
    if r.args[0] == "glob":
        return not str(r.args[1]).startswith("tls ")
    if r.args[0] == "loc":
        return p is not None and r not in p.private and r in p.store0
    return r.args[0] in ("mem", "heap")

def calls_in(r, p):
    """recursive calls made by a fork: [(event, array place, first, last)]; the callee works on the range its last two
    iterator arguments describe (checked by `contract` for the function itself)"""
    out = []
    for e in r.events:
        if (p not in e.par if p is not None else fork_of_event(e) is not None) or not str(e.name).startswith("@rec"):
            continue
        its = [x.args[1] for x in e.args if isinstance(x, T) and x.op == "from"]
        where_ = None
        for a in r.acc:
            if a.rec and a.w and (p in a.par if p is not None else fork_of(a) is None) and a.path and a.path[-1][0] == "i" and a.line == e.line and \
                    isinstance(a.path[-1][1], T) and a.path[-1][1].op == "any" and its and a.path[-1][1].args[0] is its[-1]:
                where_ = a
        if where_ is not None and len(its) >= 2:
            x = I_access(where_)
            x.path = where_.path[:-1] + (("rng", its[-2], its[-1]),)
            x.rec = 0
            out.append((e, x))
        else:
            out.append((e, None))
    return out

def I_access(a):
    x = I.Access()
    for k in I.Access.__slots__:
        if hasattr(a, k):
            setattr(x, k, getattr(a, k))
    return x

def compare(x, y, report, why):
    """two accesses that may happen at the same time"""
    if not (x.w or y.w):
        return 0
    if x.root is not y.root:
        return 0
    if x.atomic and y.atomic:
        report("ok", x, y, "both atomic")
        return 1
    idx = overlap_fields(x, y)
    if idx is None:
        return 0
    if not idx:
        report("bad", x, y, why + ", same object")
        return 1
    if any(is_any(t) for p, q in idx for t in p[1:] + q[1:]):
        report("maybe", x, y, "an unknown function is handed an iterator")
        return 1
    P = I.Par("fork", None)
    pr = Pair(P, x, y, idx, set())
    pr.lx, pr.ly, pr.range = [], [], False
    hit = pr.collide()
    if hit is None:
        report("ok", x, y, "different elements")
    elif any(contains(t, lambda z: z.op in COMPUTED) for t in pr.terms if isinstance(t, T)):
        report("maybe", x, y, "the index depends on computed data")
    else:
        report("bad", x, y, why + ", same element")
    return 1

def is_any(t):
    return isinstance(t, T) and t.op == "any"

def forkjoin(r, report):
    """tasks and parallel_invoke branches: siblings, the code between spawn and join, what the callee may touch"""
    forks = []
    for a in r.acc:
        p = fork_of(a)
        if p is not None and p not in forks:
            forks.append(p)
    if not forks:
        return 0
    n = 0
    joins = {e.seq for e in r.events if e.kind == "omp" and e.name in ("taskwait", "barrier")}
    # all tasks are complete at the end of the parallel region they were created in
    joins |= {p.end_seq for a in r.acc for p in a.par if p.kind.startswith("parallel") and getattr(p, "end_seq", None) is not None}
    joins = sorted(joins)
    acc, seqs = {}, {}
    for p in forks:
        own = [a for a in r.acc if fork_of(a) is p]
        seqs[p] = (min(a.seq for a in own), max(a.seq for a in own))
        xs = [a for a in own if not a.rec and visible(a, p)]
        for e, x in calls_in(r, p):
            if x is not None:
                xs.append(x)
        # the arguments of a recursive call that are read in the task
        acc[p] = xs
    # siblings
    for i, p in enumerate(forks):
        for q in forks[i + 1:]:
            if p.kind != q.kind:
                continue
            if p.kind == "task" and any(seqs[p][1] < j < seqs[q][0] for j in joins):
                continue
            if p.kind != "task" and p.node is not q.node:
                continue
            for x in acc[p]:
                for y in acc[q]:
                    n += compare(x, y, report, "sibling tasks")
    # between spawn and join
    own_calls = calls_in(r, None)
    for p in forks:
        if p.kind != "task":
            continue
        end = min([j for j in joins if j > seqs[p][1]] or [None], key=lambda z: (z is None, z))
        # what a recursive call made meanwhile touches is the range it is called for (and what the contract allows)
        within = [a for a in r.acc if not (a.rec and any(a.line == e.line for e, x in own_calls))] + [x for _, x in own_calls if x is not None]
        for y in within:
            if fork_of(y) is not None or y.seq < seqs[p][1] or (end is not None and y.seq > end) or not visible(y, p):
                continue
            for x in acc[p]:
                if y.root is x.root and exclusive(x, y):
                    continue
                n += compare(x, y, report, "the creator of the task does not wait for it")
        out = [a for a in r.acc if fork_of(a) is p and outlived(a, p)]
        for a in out[:1]:
            n += 1
            last = getattr(p.frame, "end_seq", None)
            if end is None or (last is not None and end > last):
                report("bad", a, a, "the task refers to a local variable of a function that returns without waiting for it")
            else:
                report("ok", a, a, "waited for before the function returns")
    # contract of a function that is called recursively from its own forks
    if any(str(e.name).startswith("@rec") and e.par and any(p.kind in FORKS for p in e.par) for e in r.events):
        n += contract(r, report)
    return n

def exclusive(x, y):
    try:
        return AND(x.guard, y.guard) is FALSE
    except Exception:
        return False

def inside(r, first, last, report, where_root):
    """a function called for the range [first, last) changes nothing outside of it and hands sub-ranges on"""
    n = 0
    for a in list(r.acc) + [x for p in {fork_of_event(e) for e in r.events if str(e.name).startswith("@rec")} if p is not None for _, x in calls_in(r, p) if x is not None]:
        if not a.w or a.rec or a.root.args[0] != "par" or not where_root(a) or not a.path:
            continue
        t = a.path[-1]
        if t[0] not in ("i", "rng") or any(is_any(z) for z in t[1:]):
            continue
        p, q = (t[1], t[2]) if t[0] == "rng" else (t[1], add(t[1], ONE))
        if not isinstance(p, T) or not isinstance(q, T):
            continue
        n += 1
        bad = AND(a.guard, AND(lt(p, q), OR(lt(p, first), lt(last, q))))
        if bad is FALSE or E.separated(bad, FALSE, 200, assume=(NOT(lt(last, first)), NOT(lt(first, ZERO)))) is None:
            report("ok", a, a, "inside the range the function was called for")
        elif contains(bad, lambda z: z.op in COMPUTED):
            report("maybe", a, a, "the index depends on computed data")
        else:
            report("bad", a, a, "outside of the range [%s, %s) the function was called for" % (show(first, 2), show(last, 2)))
    return n

def slots(r, report):
    """arrays with one slot per thread are as long as the team is large"""
    n, seen = 0, set()
    for a in r.acc:
        for j, x in enumerate(a.path):
            if x[0] != "i" or not isinstance(x[1], T) or not thread_slot(x[1]):
                continue
            P = next((p for p in a.par if p.num_threads is not None or p.kind.startswith("parallel")), None)
            v = r.store.get(a.root)
            for f in a.path[:j]:
                v = TT.fld_raw(v, f[1]) if v is not None and f[0] == "f" else None
            if v is None or P is None or (a.root, a.path[:j], id(P)) in seen:
                continue
            seen.add((a.root, a.path[:j], id(P)))
            v = as_vec(v)
            if v.op != "vec":
                continue
            n += 1
            if P.num_threads is None:
                report("bad", a, a, "the team size is not fixed, but the array has %s slots" % show(v.args[0], 3))
            elif v.args[0] is P.num_threads:
                report("ok", a, a, "one slot per thread")
            elif E.separated(lt(v.args[0], P.num_threads), FALSE, assume=(lt(ZERO, P.num_threads),)) is not None:
                report("bad", a, a, "%s slots for %s threads" % (show(v.args[0], 3), show(P.num_threads, 3)))
            else:
                report("ok", a, a, "at least one slot per thread")
    return n

def contract(r, report):
    its = [e for e in r.events if str(e.name).startswith("@rec")]
    spans = [x for p in {fork_of_event(e) for e in its} if p is not None for _, x in calls_in(r, p) if x is not None]
    n = 0
    for a in r.acc:
        if not a.w or a.rec:
            continue
        k = a.root.args[0]
        if k not in ("par", "mem", "glob") or not visible(a, fork_of(a)):
            continue
        n += 1
        if a.atomic == "store" and isinstance(a.val, T) and any(b.root is a.root and not b.w and b.atomic == "load" and b.seq < a.seq for b in r.acc):
            report("bad", a, a, "the counter is loaded and stored in two steps: updates of other tasks in between are lost")
        elif a.atomic:
            report("ok", a, a, "atomic")
        elif any(x[0] == "i" and is_reserved(x[1]) for x in a.path):
            report("ok", a, a, "element reserved by one atomic operation")
        elif any(is_any(t) for x in a.path for t in x[1:]):
            continue
        elif any(s.root is a.root and s.path[:-1] == a.path[:len(s.path) - 1] and len(a.path) >= len(s.path) for s in spans):
            report("ok", a, a, "the range the function was called for (see inside())")
        else:
            report("bad", a, a, "a function that runs concurrently with itself writes an object it has not reserved")
    return n

def fork_of_event(e):
    for p in e.par:
        if p.kind in FORKS:
            return p

def analyse(r, report):
    """all constructs of one analysed entry point; returns the number of access pairs judged"""
    groups = {}
    fj = forkjoin(r, report)
    for a in r.acc:
        if len(a.par) == 1 and a.par[0].kind == "context":
            continue
        c = cls(a)
        groups.setdefault((c[0], id(outer(a)) if c[0] in ("single", "team") else id(c[1])), (c, []))[1].append(a)
    n = fj
    for (kind, _), (c, acc) in groups.items():
        if kind == "for":
            n += check_for(c[1], acc, report)
        elif kind == "team":
            sh = [a for a in acc if shared(a)]
            for a in sh:
                if not a.w:
                    continue
                n += 1
                if a.atomic:
                    report("ok", a, a, "atomic")
                elif any(x[0] == "i" and isinstance(x[1], T) and thread_slot(x[1]) for x in a.path):
                    report("ok", a, a, "slot of the executing thread")
                elif a.rec:
                    report("bad", a, a, "recursive call executed by every thread of the team")
                else:
                    report("bad", a, a, "executed by every thread of the team")
    return n
