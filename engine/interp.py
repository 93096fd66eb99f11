"""Structured forward dataflow over the extracted syntax trees.

One abstract state per program point: a map from storage roots to value terms
(gated value numbering: joins become gated terms, loops are solved to a fixed
point and summarised).  No path enumeration, no solver: every statement is
transferred once per fixed-point pass.
"""
import re
from .terms import *
from . import terms as TT

class Undecided(Exception):
    pass

class LV:
    __slots__ = ("p", "t")
    def __init__(self, p, t):
        self.p = p
        self.t = t

class Comma:
    def __init__(self, lv):
        self.lv = lv
        self.items = []
        self.n = 0

class Event:
    __slots__ = ("kind", "name", "args", "targs", "guard", "loops", "line", "file", "fn", "res", "obj", "node", "par", "seq", "aptr")
    def __repr__(self):
        return "Event(%s %s(%s) if %s @%s:%s)" % (self.kind, self.name, ", ".join(show(a, 3) for a in self.args), show(self.guard, 3), self.file, self.line)

class Access:
    __slots__ = ("w", "root", "path", "guard", "par", "loops", "line", "file", "fn", "atomic", "seq", "val", "rec")
    def __repr__(self):
        return "%s %s%s @%s:%s" % ("W" if self.w else "R", show(self.root), show(self.path), self.file, self.line)

class Loop:
    def __init__(self, key, line, file):
        self.key, self.line, self.file = key, line, file
        self.k = mk("k", key)
        self.trip = None          # number of iterations (term) if the header condition is solved
        self.cond = None          # header condition in terms of k / lv
        self.rest = TRUE          # remaining header condition
        self.next = {}            # leaf -> next value
        self.init = {}            # leaf -> initial value
        self.ind = {}             # leaf -> step
        self.final = {}
        self.brk = []
        self.rets = []
        self.par = None
        self.pc_end = TRUE
        self.end = None
        self.parent = None
        self.kind = "for"
    def __repr__(self):
        return "Loop#%s@%s" % (self.key, self.line)

class Par:
    """one parallel construct"""
    def __init__(self, kind, node, private=(), reduction=(), line=0, file=""):
        self.kind, self.node = kind, node
        self.private = set(private)      # roots private to the thread
        self.reduction = set(reduction)
        self.loop = None                 # Loop object of a worksharing loop
        self.rb = self.re = None
        self.lo = self.hi = None
        self.line, self.file = line, file
        self.store0 = None               # roots existing before the construct
        self.num_threads = None
        self.inner_for = []
        self.nowait = False

# ------------------------------------------------------------------ types
INT_T = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "signed char", "unsigned char", "bool", "__int128"}
BITS = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}
_ty_memo = {}
def strip_t(t):
    if t is None:
        return ""
    t = t.strip()
    while True:
        o = t
        if t.endswith("&"):
            t = t[:-1].strip()
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
        if t.startswith("volatile "):
            t = t[9:]
        if t == o:
            return t

def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    return split_targs(t[i + 1:t.rfind(">")])

class Ty:
    __slots__ = ("k", "r", "c", "s", "arr")
    def __init__(self, k, r=0, c=0, s="", arr=False):
        self.k, self.r, self.c, self.s, self.arr = k, r, c, s, arr

def ty(t):
    r = _ty_memo.get(t)
    if r is None:
        r = _ty_memo[t] = _ty(strip_t(t))
    return r
def _ty(t):
    if t in INT_T:
        return Ty("int", s=t)
    if t in ("double", "float", "long double"):
        return Ty("float", s=t)
    if t.endswith("*"):
        return Ty("ptr", s=t[:-1].strip())
    if t.endswith("]") or t.endswith(")"):
        return Ty("obj", s=t)
    if t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<"):
        a = targs(t)
        try:
            R, C = int(a[1]), int(a[2])
        except ValueError:
            return Ty("dyn")
        if R > 0 and C > 0:
            return Ty("mat", R, C, a[0], t.startswith("Eigen::Array<"))
        return Ty("dyn", R, C, a[0])
    if t.startswith("Eigen::Transform<"):
        return Ty("tf", 4, 4, "double")
    if t.startswith("Eigen::Quaternion<"):
        return Ty("mat", 4, 1, "double")
    if t.startswith(("Eigen::Map<", "Eigen::DenseBase<", "Eigen::MatrixBase<", "Eigen::PlainObjectBase<", "Eigen::EigenBase<")):
        a = targs(t)
        return ty(a[0])
    if t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<"):
        return Ty("ptr", s=targs(t)[0])
    return Ty("obj", s=t)

def bottom(t):
    """adapt an opaque affine transform"""
    def f(x):
        if x.op == "mat":
            return x
        return mat(4, 4, [el(x, i, j) if i < 3 else (ONE if j == 3 else ZERO) for i in range(4) for j in range(4)])
    return lift1(f, t)

def adapt(v, t):
    y = ty(t)
    if y.k == "mat":
        return lift1(lambda x: as_mat(x, y.r, y.c) if x.op != "mat" else x, v)
    if y.k == "tf":
        return bottom(v)
    return v

def elem_type(t):
    t = strip_t(t)
    if t.endswith("*"):
        return t[:-1].strip()
    a = targs(t)
    if t.startswith("__gnu_cxx::__normal_iterator<"):
        return a[0].rstrip("*").strip()
    if t.endswith("]"):
        return t[:t.rfind("[")].strip()
    return a[0] if a else "?"

# ------------------------------------------------------------------ program
class Program:
    def __init__(self, *jsons):
        self.fns = {}
        self.byq = {}
        self.records = {}
        self.globals = {}
        self.gl = []
        self.nfun = 0
        for n, d in enumerate(jsons):
            for f in d["functions"]:
                f["_tu"] = n
                self.fns[(n, f["id"])] = f
                self.byq.setdefault(f["qn"], []).append(f)
                self.nfun += 1
            for r in d["records"]:
                self.records.setdefault(r["t"], r)
            for g in d.get("globals", []):
                self.globals.setdefault(g["n"], g)
                self.gl.append(g)
    def find(self, suffix, pred=None, **kw):
        """functions whose qualified name equals or ends with ::suffix"""
        out = []
        for q, fs in self.byq.items():
            q0 = re.sub(r"<.*?>(?=::|$)", "", strip_angles(q))
            if q == suffix or q.endswith("::" + suffix) or q0 == suffix or q0.endswith("::" + suffix):
                for f in fs:
                    if pred is None or pred(f):
                        out.append(f)
        return out

def strip_angles(q):
    """qualified name without template arguments"""
    out, d = "", 0
    i = 0
    while i < len(q):
        if q.startswith("operator", i) and d == 0:
            m = re.match(r"operator(<<|<=|<|>>|>=|->|>|\(\)|\[\]|[^A-Za-z0-9_\s<>:]+)?", q[i:])
            out += m.group(0)
            i += len(m.group(0))
            continue
        ch = q[i]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    return out
_sa_memo = {}
def qbase(q):
    r = _sa_memo.get(q)
    if r is None:
        r = _sa_memo[q] = strip_angles(q)
    return r

class Frame:
    def __init__(self, fn, this, env):
        self.fn, self.this, self.env = fn, this, env
        self.rets = []
        self.loops = []
        self.lock = False        # a mutex is held
        self.end_seq = None

class Result:
    pass

def closed_value(v):
    """a value that is the same whenever it is computed"""
    return not contains(v, lambda x: x.op in ("sym", "root", "unk", "undef", "lv", "lout", "k", "rb", "re", "mem"))

# roots whose initial value is a symbol
def init_of(root):
    k = root.args[0]
    if k == "par":
        return root.args[1]
    if k == "mem":
        return mk("deref", root.args[1])
    if k == "const":
        return root.args[1]
    if k == "glob":
        return sym("global:" + root.args[1])
    return UNDEF

def P(root, *path):
    return mk("ptr", root, tuple(path))

UNION = {"x": ("data", 0), "y": ("data", 1), "z": ("data", 2), "normal_x": ("data_n", 0), "normal_y": ("data_n", 1),
         "normal_z": ("data_n", 2), "normal": ("data_n", None)}

class Interp:
    def __init__(self, prog, opaque=(), pure_out=None, budget=400000):
        self.prog = prog
        self.alias = {}
        self.rdlog = None
        self.extent = {}              # opaque function -> number of elements it writes behind its output pointers
        self.span = None
        self.oob = []                 # accesses to elements known not to exist
        self.hide = {}                # opaque function -> positions of arguments that are of no interest
        self.opaque = opaque if callable(opaque) else (lambda f, s=set(opaque): qbase(f.get("qn", "")) in s or qbase(f.get("qn", "")).split("::")[-1] in s)
        self.store = {}
        self.pc = TRUE
        self.gstack = []
        self.frames = []
        self.events = []
        self.acc = []
        self.par = []
        self.loops = []      # active
        self.all_loops = []
        self.nroot = 0
        self.nkey = 0
        self.closures = {}
        self.line = 0
        self.file = ""
        self.wlog = []
        self.notes = []
        self.steps = 0
        self.budget = budget
        self.atomic = 0
        self.akind = "rmw"
        self.mark_reserved = False
        self.in_rec = 0
        self.pure_out = pure_out or {}
        self.tu = 0
        self.seq = 0
        self.uninit_reads = []
        self.in_lib = 0

    # -------------------------------------------------------------- helpers
    def fresh(self, kind="loc", hint=""):
        self.nroot += 1
        return mk("root", kind, "%s#%d" % (hint, self.nroot))
    def temp(self, v, t, hint="tmp"):
        r = self.fresh("loc", hint)
        self.store[r] = v
        return LV(P(r), t)
    def get(self, root):
        v = self.store.get(root)
        if v is None:
            v = init_of(root)
        return v
    def reserved(self, old):
        """the value an atomic read-modify-write returned (marked as such for the race analysis)"""
        if not self.mark_reserved:
            return old
        return mk("app", "reserved", num(self.line), old)
    def guard(self):
        return AND(*self.gstack, self.pc)
    def note(self, s):
        self.notes.append("%s (%s:%s)" % (s, self.file.split("/")[-1], self.line))
    def unk(self, why):
        self.note("unmodelled: " + why)
        self.nkey += 1
        return mk("unk", why)
    def event(self, kind, name, args=(), res=None, obj=None, node=None, aptr=()):
        e = Event()
        e.kind, e.name, e.args, e.res, e.obj, e.node = kind, name, tuple(args), res, obj, node
        e.targs = (node or {}).get("f", {}).get("ta") if isinstance((node or {}).get("f"), dict) else None
        e.guard = self.guard()
        e.loops = tuple(self.loops)
        e.par = tuple(self.par)
        e.line, e.file = self.line, self.file
        e.fn = tuple(f.fn.get("qn", "?") for f in self.frames)
        e.aptr = aptr
        self.seq += 1
        e.seq = self.seq
        self.events.append(e)
        return e
    def log(self, w, root, path, val=None):
        if w:
            self.wlog.append((root, path))
        elif self.rdlog is not None:
            self.rdlog.append((root, path))
        if self.par:
            a = Access()
            a.w, a.root, a.path, a.guard = w, root, path, self.guard()
            a.par, a.loops = tuple(self.par), tuple(self.loops)
            a.line, a.file, a.fn, a.atomic = self.line, self.file, tuple(f.fn.get("qn", "?") for f in self.frames), (self.akind if self.atomic else "lock" if any(f.lock for f in self.frames) else None)
            a.val = val
            a.rec = self.in_rec
            self.seq += 1
            a.seq = self.seq
            self.acc.append(a)

    # -------------------------------------------------------------- memory
    def deref(self, v, t):
        """pointer value -> place"""
        return LV(lift1(lambda x: self._asptr(x, t), v), t)
    def _asptr(self, x, t):
        if x.op == "ptr":
            return x
        if x is NULL or x is UNDEF:
            return x
        if strip_t(t).endswith("]"):
            return P(mk("root", "mem", x))
        return P(mk("root", "mem", x), ("i", ZERO))
    def deref_smart(self, v, t):
        return LV(lift1(lambda x: x if x.op in ("ptr", "null", "undef") else P(mk("root", "mem", x)), v), t)
    def ext(self, p, *els):
        def f(x):
            if x.op != "ptr":
                return x
            r, path = x.args[0], x.args[1] + tuple(els)
            if r.args[0] == "ent" and path:
                # member of a map entry
                if path[0] == ("f", "second"):
                    b = r.args[1]
                    if b.op == "ptr":
                        r, path = b.args[0], b.args[1] + (("mv", r.args[2]),) + path[1:]
                elif path[0] == ("f", "first"):
                    r, path = mk("root", "const", r.args[2]), path[1:]
            return mk("ptr", r, path)
        return lift1(f, p)

    def project(self, v, e):
        k = e[0]
        if k == "f":
            return fld_raw(v, e[1])
        if k == "i":
            def f(x):
                if x.op == "mat":
                    i = ival(e[1])
                    R, C = x.args[0], x.args[1]
                    if i is not None and 0 <= i < R * C:
                        return x.args[2][(i % R) * C + i // R]
                    return mk("elx", x, e[1])
                if x is UNDEF:
                    return UNDEF
                return sel(TT._arr1(x), e[1])
            return lift1(f, v)
        if k == "m":
            i, j, R, C, kind = e[1:]
            return self.mel(v, i, j, R, C, kind)
        if k == "blk":
            r0, c0, h, w, R, C, kind = e[1:]
            return mat(h, w, [self.mel(v, r0 + i, c0 + j, R, C, kind) for i in range(h) for j in range(w)])
        if k == "sub":
            ps, R, C, kind = e[1:]
            return mat(len(ps), 1, [self.mel(v, i, j, R, C, kind) for i, j in ps])
        if k == "span":
            _, n, R, C, rm = e
            return mat(R, C, [self.project(v, ("i", add(n, num(i * C + j if rm else j * R + i)))) for i in range(R) for j in range(C)])
        if k == "$size":
            return size_of(v)
        return mk("prj", v, e[0])
    def mel(self, v, i, j, R, C, kind):
        def f(x):
            if x is UNDEF:
                return UNDEF
            if kind == "tf":
                x = bottom(x)
            if isinstance(i, int) and isinstance(j, int):
                return el(x, i, j)
            ii = ival(i) if isinstance(i, T) else i
            jj = ival(j) if isinstance(j, T) else j
            if ii is not None and jj is not None:
                return el(x, ii, jj)
            if x.op == "mat" and C == 1 and R is not None:
                b = self.unmat(x)
                if b is not None:
                    x = b
            return mk("elx", x, i if isinstance(i, T) else num(i), j if isinstance(j, T) else num(j))
        return lift1(f, v)
    def unmat(self, m):
        """mat whose entries are all el(x,i,j) of one x -> x"""
        x = None
        R, C, E = m.args
        for i in range(R):
            for j in range(C):
                t = E[i * C + j]
                if t.op != "el" or t.args[1] != i or t.args[2] != j or (x is not None and t.args[0] is not x):
                    return None
                x = t.args[0]
        return x
    def update(self, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            return lift1(lambda x: mkrec(x, {e[1]: self.update(TT._fld1(x, e[1]), rest, val)}), v)
        if k == "i":
            def f(x):
                if x.op == "mat":
                    i = ival(e[1])
                    R, C, E = x.args
                    if i is not None and 0 <= i < R * C:
                        q = (i % R) * C + i // R
                        return mat(R, C, E[:q] + (val,) + E[q + 1:])
                    return mat(R, C, [mk("updx", y, e[1], val) for y in E])
                x = as_vec(x) if x is not UNDEF else mk("vec", UNDEF, UNDEF)
                old = sel(x.args[1], e[1]) if rest else None
                return mk("vec", x.args[0], aupd(x.args[1], e[1], self.update(old, rest, val)))
            return lift1(f, v)
        if k in ("m", "blk"):
            if k == "m":
                i, j, R, C, kind = e[1:]
                i = ival(i) if isinstance(i, T) else i
                j = ival(j) if isinstance(j, T) else j
                h = w = 1
                if i is None or j is None or R is None:
                    return mk("updx", v, e[1] if isinstance(e[1], T) else num(e[1]), e[2] if isinstance(e[2], T) else num(e[2]), val)
            else:
                i, j, h, w, R, C, kind = e[1:]
            def f(x):
                if kind == "tf":
                    x = bottom(x)
                x = as_mat(x, R, C) if x is not UNDEF else mat(R, C, [UNDEF] * (R * C))
                E = list(x.args[2])
                nv = val
                if rest:
                    nv = self.update(mat(h, w, [E[(i + a) * C + j + b] for a in range(h) for b in range(w)]), rest, val)
                for a in range(h):
                    for b in range(w):
                        E[(i + a) * C + j + b] = nv if k == "m" else el(nv, a, b)
                return mat(R, C, E)
            return lift1(f, v)
        if k == "sub":
            ps, R, C, kind = e[1:]
            nv = self.update(self.project(v, e), rest, val) if rest else val
            for n, (i, j) in enumerate(ps):
                v = self.update(v, (("m", i, j, R, C, kind),), el(nv, n, 0))
            return v
        if k == "span":
            _, n, R, C, rm = e
            nv = self.update(self.project(v, e), rest, val) if rest else val
            for i in range(R):
                for j in range(C):
                    v = self.update(v, (("i", add(n, num(i * C + j if rm else j * R + i))),), el(nv, i, j))
            return v
        if k == "$size":
            return mk("vec", val, as_vec(v).args[1])
        return mk("unk", "update")

    def load(self, lv, log=True):
        def f(p):
            if p.op != "ptr":
                if p is NULL or p is UNDEF:
                    self.event("nullderef", "load", (p,))
                return UNDEF if p in (NULL, UNDEF) else mk("deref", p)
            root, path = p.args
            if log:
                self.log(False, root, path)
            v = self.get(root)
            for e in path:
                if e[0] == "i" and log and p is lv.p:
                    self.in_range(v, e[1], "read")
                v = self.project(v, e)
            return v
        return adapt(lift1(f, lv.p), lv.t)
    def in_range(self, v, i, what):
        """record an access to an element that does not exist (the container's size is known)"""
        if v.op == "vec" and v.args[0].op == "num":
            n = v.args[0].args[0]
            if (n == 0 or (i.op == "num" and not 0 <= i.args[0] < n)) and self.pc is not FALSE:
                self.oob.append((self.guard(), what, i, v.args[0], self.file, self.line, tuple(self.loops)))
    def storev(self, lv, val, log=True):
        def wr(p, cond):
            if p.op == "ite":
                a = atomb(p.args[0])
                wr(p.args[1], AND(cond, a))
                wr(p.args[2], AND(cond, NOT(a)))
                return
            if p.op != "ptr":
                if p is NULL or p is UNDEF:
                    self.event("nullderef", "store", (p,))
                return
            root, path = p.args
            if log:
                self.log(True, root, path, val)
            old = self.get(root)
            if log and p is lv.p:
                v = old
                for e in path:
                    if e[0] == "i":
                        self.in_range(v, e[1], "write")
                    v = self.project(v, e)
            new = self.update(old, path, val)
            self.store[root] = ite(cond, new, old) if cond is not TRUE else new
        wr(lv.p, TRUE)

    # -------------------------------------------------------------- control
    def dead(self):
        return self.pc is FALSE
    def fork(self, c, fa, fb):
        """run fa under c and fb under !c, join; returns (ra, rb)"""
        s0, p0 = self.store, self.pc
        pa, pb = AND(p0, c), AND(p0, NOT(c))
        ra = rb = None
        self.store, self.pc = dict(s0), pa
        if pa is not FALSE:
            ra = fa()
        sa, pa2 = self.store, self.pc
        self.store, self.pc = dict(s0), pb
        if pb is not FALSE and fb is not None:
            rb = fb()
        sb, pb2 = self.store, self.pc
        self.join(c, sa, pa2, sb, pb2)
        return ra, rb, pa2 is not FALSE, pb2 is not FALSE
    def join(self, c, sa, pa, sb, pb):
        if pa is FALSE:
            self.store, self.pc = sb, pb
            return
        if pb is FALSE:
            self.store, self.pc = sa, pa
            return
        self.store = self.merge_stores(c, sa, sb)
        self.pc = OR(pa, pb)
    def merge_stores(self, c, sa, sb):
        out = {}
        for r in sa:
            if r in sb:
                va, vb = sa[r], sb[r]
            elif r.args[0] == "loc":
                out[r] = sa[r]
                continue
            else:
                va, vb = sa[r], init_of(r)
            out[r] = va if va is vb else ite(c, *unify(va, vb))
        for r in sb:
            if r not in sa:
                out[r] = sb[r] if r.args[0] == "loc" else ite(c, *unify(init_of(r), sb[r]))
        return out

    # -------------------------------------------------------------- functions
    def run(self, fn, this=None, args=None, store=None):
        """analyse fn as an entry point.  args: index -> term (value of the parameter
        or, for references, of the referenced object)"""
        self.tu = fn["_tu"]
        args = args or {}
        env = {}
        self.store = dict(store or {})
        res = Result()
        self.lost = False
        res.params = []
        for i, p in enumerate(fn.get("params", [])):
            v = args.get(i, sym("a%d" % i))
            t = p["t"]
            if t.rstrip().endswith("&"):
                if v.op == "ptr":
                    lv = LV(v, t)
                else:
                    lv = LV(P(mk("root", "par", v)), t)
            else:
                r = mk("root", "par", mk("val", v))
                self.store[r] = v
                lv = LV(P(r), t)
            env[p["id"]] = lv
            res.params.append(lv)
        th = None
        if fn.get("mem") and not fn.get("static"):
            th = this if this is not None else P(mk("root", "par", sym("this")))
        res.this = th
        fr = Frame(fn, th, env)
        self.frames.append(fr)
        self.file = fn.get("file", "")
        val = self.body(fr)
        self.seq += 1
        self.frames.pop().end_seq = self.seq
        res.ret = val
        res.store = self.store
        res.pc = self.pc
        res.oob = self.oob
        res.events, res.acc, res.loops, res.notes = self.events, self.acc, self.all_loops, self.notes
        res.fn = fn
        res.interp = self
        res.lost = self.lost
        return res

    def body(self, fr):
        fn = fr.fn
        if fn.get("ctor") or fn.get("inits"):
            self.ctor_inits(fr)
        if fn.get("body") is not None:
            self.stmt(fn["body"])
        exits = fr.rets
        if self.pc is not FALSE:
            exits = exits + [(self.pc, None, self.store)]
        if not exits:
            self.pc = FALSE
            return UNDEF
        pc, val, st = exits[-1]
        for p, v, s in reversed(exits[:-1]):
            st = self.merge_stores(p, s, st)
            if v is None:
                pass
            elif val is None:
                val = v
            else:
                val = self.join_val(p, v, val)
            pc = OR(p, pc)
        self.store, self.pc = st, pc
        return val
    def join_val(self, c, a, b):
        if isinstance(a, LV) and isinstance(b, LV):
            return LV(ite(c, a.p, b.p), a.t)
        a = self.rv(a) if isinstance(a, LV) else a
        b = self.rv(b) if isinstance(b, LV) else b
        return ite(c, *unify(a, b))

    def ctor_inits(self, fr):
        for i in fr.fn.get("inits", []):
            e = i["e"]
            if "f" in i:
                lv = LV(self.ext(fr.this, ("f", i["f"])), i.get("ft", ""))
                if i.get("ft", "").rstrip().endswith("&"):
                    x = self.ev(e)
                    x = x if isinstance(x, LV) else self.temp(x, i["ft"])
                    self.storev(LV(lv.p, ""), x.p)
                else:
                    self.init_place(lv, e)
            else:
                t = e.get("t") or i.get("base") or ""
                if e.get("k") == "ctor" and e.get("f", {}).get("fn") is not None:
                    self.construct(LV(fr.this, t), e)
                else:
                    v = self.ev(e)
                    if isinstance(v, (LV, T)):
                        v = self.rv(v)
                        if v.op == "rec":
                            for n, x in v.args[1]:
                                self.storev(LV(self.ext(fr.this, ("f", n)), ""), x)
    def init_place(self, lv, e):
        """initialise the object at lv with expression e"""
        if e is None:
            return
        if e.get("k") == "ctor" and self.callee(e) is not None:
            self.construct(lv, e)
        else:
            self.storev(lv, self.rv(self.ev(e)))
    def construct(self, lv, e):
        fn = self.callee(e)
        if fn is None:
            self.storev(lv, self.rv(self.ev(e)))
            return
        # fresh object: its fields are undefined until initialised
        r = self.fresh("loc", "obj")
        self.store[r] = UNDEF if fn.get("clst") is None else self.fresh_obj(fn.get("clst"))
        base_call = lv.p.op == "ptr" and self.frames and lv.p is self.frames[-1].this
        if base_call:
            self.inline(fn, e.get("args", []), lv.p, e)
            return
        self.inline(fn, e.get("args", []), P(r), e)
        self.storev(lv, self.get(r))
        self.store[r] = self.get(r)
    def fresh_obj(self, t):
        return mk("newobj", strip_t(t))

    def callee(self, e):
        f = e.get("f")
        if not isinstance(f, dict):
            return None
        if self.opaque(f):
            return None
        fid = f.get("fn")
        if fid is None:
            return None
        fn = self.prog.fns.get((self.tu, fid))
        if fn is None or (fn.get("body") is None and not fn.get("ctor")):
            return None
        for fr in self.frames:
            if fr.fn is fn:
                return None
        if len(self.frames) > 24:
            return None
        return fn
    def recursive(self, e):
        f = e.get("f")
        fid = f.get("fn") if isinstance(f, dict) else None
        fn = self.prog.fns.get((self.tu, fid)) if fid is not None else None
        return fn is not None and any(fr.fn is fn for fr in self.frames)

    def bind_args(self, fn, args):
        env = {}
        vals = []
        for p, a in zip(fn.get("params", []), args):
            t = p["t"]
            if t.rstrip().endswith("&"):
                x = a if isinstance(a, LV) else self.ev(a) if isinstance(a, dict) else a
                if isinstance(x, Comma):
                    x = x.lv
                if not isinstance(x, LV):
                    x = self.temp(x, t)
                elif not self.same_t(x.t, t):
                    x = LV(x.p, x.t if ty(x.t).k in ("mat", "tf", "dyn") else t)
                vals.append((p["id"], x))
            else:
                x = a if isinstance(a, (LV, T)) else self.ev(a)
                vals.append((p["id"], self.temp(adapt(self.rv(x), t), t, p.get("n") or "")))
        for i, x in vals:
            env[i] = x
        return env
    def same_t(self, a, b):
        return strip_t(a) == strip_t(b)

    def inline(self, fn, args, this, node=None, env0=None):
        env = dict(env0 or {})
        env.update(self.bind_args(fn, args))
        fr = Frame(fn, this, env)
        fr.par_depth = len(self.par)
        sl, sf = self.line, self.file
        self.frames.append(fr)
        self.file = fn.get("file", self.file)
        v = self.body(fr)
        self.seq += 1
        self.frames.pop().end_seq = self.seq
        self.line, self.file = sl, sf
        if v is None:
            v = mk("void")
        return v

    # -------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or self.dead():
            return
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("step budget")
        if s.get("l"):
            self.line = s["l"]
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.unk("stmt " + k)
            return
        m(s)
    def s_block(self, s):
        for x in s["s"]:
            self.stmt(x)
            if self.dead():
                break
    def s_null(self, s):
        pass
    def s_expr(self, s):
        v = self.ev(s["e"])
        if isinstance(v, Comma):
            pass
    def s_decl(self, s):
        for d in s["d"]:
            if d.get("decomp"):
                self.decomp(d)
                continue
            if "id" not in d:
                continue
            self.declare(d)
    def declare(self, d):
        env = self.frames[-1].env
        t = d.get("t", "")
        if d.get("static") and not d.get("ref"):
            # one object for all calls: a constant if its initial value is the same on every call and it is never
            # written again, otherwise state of unknown content
            v = self.rv(self.ev(d["init"])) if d.get("init") is not None else ZERO
            closed = isinstance(v, T) and closed_value(v)
            if not (closed and d.get("cst")):
                self.event("static_local", d.get("n", "?"), (TRUE if d.get("cst") else FALSE,))
                n = "%s %s::%s" % ("tls" if d.get("tls") else "static", qbase(self.frames[-1].fn.get("qn", "?")), d.get("n", "?"))
                env[d["id"]] = LV(P(mk("root", "glob", n)), t)
                return
        if d.get("ref") or t.rstrip().endswith("&"):
            x = self.ev(d["init"])
            if isinstance(x, Comma):
                x = x.lv
            if not isinstance(x, LV):
                x = self.temp(x, t)
            env[d["id"]] = LV(x.p, x.t if ty(x.t).k in ("mat", "tf", "dyn") else t)
            return
        r = self.fresh("loc", d.get("n", ""))
        self.store[r] = UNDEF
        lv = LV(P(r), t)
        if d.get("init") is not None:
            if d["init"].get("k") == "ctor" and self.callee(d["init"]) is not None:
                self.construct(lv, d["init"])
            else:
                v = self.rv(self.ev(d["init"]))
                self.storev(lv, adapt(v, t))
        elif strip_t(t).endswith("]"):
            m = re.search(r"\[(\d+)\]$", strip_t(t))
            self.store[r] = mk("vec", num(int(m.group(1))) if m else UNDEF, fill(UNDEF))
        env[d["id"]] = lv
    def decomp(self, d):
        env = self.frames[-1].env
        x = self.ev(d["init"])
        t = d.get("t", "")
        if not isinstance(x, LV) or not (d.get("ref") or t.rstrip().endswith("&")):
            x = self.temp(self.rv(x), t)
        for i, b in enumerate(d["decomp"]):
            f = b.get("f")
            if f is None:
                f = tuple_field(x.t or t, b.get("i", i))
            env[b["id"]] = LV(self.ext(x.p, ("f", f)), b.get("t", ""))
    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.stmt({"k": "decl", "d": s["cv"] if isinstance(s["cv"], list) else [s["cv"]]})
        c = self.cond(s["c"])
        if self.dead():
            return
        r = AND(self.pc, c)
        if r is FALSE:
            c = FALSE
        elif AND(self.pc, NOT(c)) is FALSE:
            c = TRUE
        self.fork(c, lambda: self.stmt(s["a"]), (lambda: self.stmt(s["b"])) if s.get("b") else None)
    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            x = self.ev(s["e"])
            rt = fr.fn.get("ret", "")
            if rt.rstrip().endswith("&") or (isinstance(x, LV) and strip_t(rt).startswith("Eigen::Map<")):
                v = x if isinstance(x, LV) else self.temp(x, rt)
            else:
                v = self.rv(x)
                if rt:
                    v = adapt(v, rt)
        fr.rets.append((self.pc, v, self.store))
        self.store = dict(self.store)
        self.pc = FALSE
    def s_break(self, s):
        L = self.frames[-1].loops[-1]
        L["brk"].append((self.pc, self.store))
        self.store, self.pc = dict(self.store), FALSE
    def s_continue(self, s):
        for L in reversed(self.frames[-1].loops):
            if "cont" in L:
                L["cont"].append((self.pc, self.store))
                break
        self.store, self.pc = dict(self.store), FALSE
    def s_for(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        def cond():
            if s.get("cv"):
                self.stmt({"k": "decl", "d": s["cv"] if isinstance(s["cv"], list) else [s["cv"]]})
            return self.cond(s["c"]) if s.get("c") else TRUE
        self.loop(cond, (lambda: self.ev(s["inc"])) if s.get("inc") else None, lambda: self.stmt(s["body"]), s)
    def s_do(self, s):
        # do body while (c): first iteration unconditionally
        first = self.fresh("loc", "first")
        self.store[first] = TRUE
        flv = LV(P(first), "bool")
        def body():
            self.storev(flv, FALSE)
            self.stmt(s["body"])
        def cond():
            f = self.load(flv, False)
            if f is TRUE:
                return TRUE
            if f is FALSE:
                return self.cond(s["c"])
            r, q, a, b = self.fork(f, lambda: TRUE, lambda: self.cond(s["c"]))
            return ite(f, TRUE, q if q is not None else TRUE)
        self.loop(cond, None, body, s)
    def s_rfor(self, s):
        x = self.ev(s["range"])
        if isinstance(x, Comma):
            x = x.lv
        t = s.get("rt") or (x.t if isinstance(x, LV) else "")
        if not isinstance(x, LV):
            x = self.temp(x, t)
        st = strip_t(t)
        if "unordered_map" in st or st.startswith("std::map<") or "unordered_set" in st:
            n = app("mapsize", self.rv(x))
            mapv = self.rv(x)
            elem = lambda i: mk("app", "map_nth", mapv, i)
            vec = False
        else:
            v = self.load(LV(x.p, st), False)
            n = size_of(v)
            m = re.search(r"\[(\d+)\]$", st)
            if m:
                n = num(int(m.group(1)))
            elif st.startswith("std::array<"):
                n = num(int(targs(st)[1]))
            elif st.startswith("tbb::detail::d1::blocked_range<") or st.startswith("tbb::blocked_range<"):
                pass
            vec = True
        idx = self.fresh("loc", "it")
        self.store[idx] = ZERO
        ilv = LV(P(idx), "unsigned long")
        var = s["var"]
        def cond():
            return lt(self.load(ilv, False), n)
        def inc():
            self.storev(ilv, add(self.load(ilv, False), ONE))
        def body():
            i = self.load(ilv, False)
            et = elem_type(st)
            if vec:
                lv = LV(self.ext(x.p, ("i", i)), et)
            else:
                a = targs(st)
                lv = self.temp(elem(i), "std::pair<const %s, %s>" % (a[0], a[1] if len(a) > 1 else "?"))
            env = self.frames[-1].env
            if var.get("decomp"):
                d = dict(var)
                byref = d.get("ref") or d.get("t", "").rstrip().endswith("&")
                y = lv if byref else self.temp(self.rv(lv), lv.t)
                for q, b in enumerate(d["decomp"]):
                    f = b.get("f") or tuple_field(y.t, b.get("i", q))
                    env[b["id"]] = LV(self.ext(y.p, ("f", f)), b.get("t", ""))
            elif var.get("ref") or var.get("t", "").rstrip().endswith("&"):
                env[var["id"]] = LV(lv.p, var.get("t") or lv.t)
            else:
                env[var["id"]] = self.temp(adapt(self.rv(lv), var.get("t", "")), var.get("t", ""))
            self.stmt(s["body"])
        self.loop(cond, inc, body, s)
    def s_switch(self, s):
        v = self.rv(self.ev(s["c"]))
        items = s["items"]
        L = {"brk": [], "pc0": self.pc}
        self.frames[-1].loops.append(L)
        s0, p0 = self.store, self.pc
        matched = FALSE
        conds = []
        for it in items:
            c = FALSE
            for lb in it.get("labels") or []:
                if lb == "default" or lb is None or (isinstance(lb, dict) and lb.get("default")):
                    c = None
                    break
                lv = self.rv(self.ev(lb)) if isinstance(lb, dict) else num(int(lb))
                c = OR(c, eq(v, lv))
            conds.append(c)
        anyc = FALSE
        for c in conds:
            if c is not None:
                anyc = OR(anyc, c)
        conds = [NOT(anyc) if c is None else c for c in conds]
        # fallthrough: run items in order with pc = fallthrough or entry
        self.store, self.pc = dict(s0), FALSE
        has_default = any(c is not None for c in conds)
        for it, c in zip(items, conds):
            ent = AND(p0, c)
            if ent is not FALSE:
                if self.pc is FALSE:
                    self.store, self.pc = dict(s0), ent
                else:
                    self.store = self.merge_stores(c, s0, self.store)
                    self.pc = OR(self.pc, ent)
            if self.pc is not FALSE:
                b = it["s"]
                for x in (b if isinstance(b, list) else [b]):
                    self.stmt(x)
        covered = FALSE
        for c in conds:
            covered = OR(covered, c)
        self.frames[-1].loops.pop()
        exits = list(L["brk"])
        if self.pc is not FALSE:
            exits.append((self.pc, self.store))
        rest = AND(p0, NOT(covered))
        if rest is not FALSE:
            exits.append((rest, s0))
        self.set_exits(exits)
    def set_exits(self, exits):
        if not exits:
            self.pc = FALSE
            return
        pc, st = exits[-1]
        for p, s in reversed(exits[:-1]):
            st = self.merge_stores(p, s, st)
            pc = OR(p, pc)
        self.store, self.pc = dict(st), pc
    def s_try(self, s):
        self.stmt(s["body"])
        self.note("try block: handlers ignored")
    def s_unk(self, s):
        self.unk("stmt " + str(s.get("cls")))

    # -------------------------------------------------------------- OpenMP
    def s_omp(self, s):
        d = s["dir"]
        env = self.frames[-1].env
        if d in ("atomic", "critical", "ordered"):
            self.atomic += 1
            self.stmt(s["body"])
            self.atomic -= 1
            return
        if d in ("barrier", "taskwait", "taskyield", "flush"):
            self.event("omp", d)
            return
        if d in ("single", "master", "masked"):
            for p in self.par:
                p.nsingle = getattr(p, "nsingle", 0)
            self.singles = getattr(self, "singles", 0) + 1
            p = Par("single", s, line=self.line, file=self.file)
            p.store0 = set(self.store)
            self.par.append(p)
            self.stmt(s["body"])
            self.par.pop()
            self.singles -= 1
            return
        private, red, nthreads = set(), set(), None
        fp = []
        nowait = False
        for c in s.get("cl", []):
            if c["k"] in ("private", "firstprivate", "lastprivate"):
                for v in c.get("vars", []) or []:
                    vid = v.get("id") if isinstance(v, dict) else None
                    if vid in env:
                        fp.append((vid, c["k"]))
            elif c["k"] == "reduction":
                for v in c.get("vars", []) or []:
                    vid = v.get("id") if isinstance(v, dict) else None
                    if vid in env and env[vid].p.op == "ptr":
                        red.add(env[vid].p.args[0])
            elif c["k"] == "num_threads":
                nthreads = self.rv(self.ev(c["e"]))
            elif c["k"] == "nowait":
                nowait = True
            elif c["k"] == "schedule" and c.get("e") is not None:
                pass
        saved = {}
        for vid, kind in fp:
            saved[vid] = env[vid]
            v = self.load(env[vid], False) if kind != "private" else UNDEF
            env[vid] = self.temp(v, env[vid].t, "private")
            private.add(env[vid].p.args[0])
        p = Par(d, s, private, red, self.line, self.file)
        p.num_threads = nthreads
        p.nowait = nowait
        p.store0 = set(self.store)
        p.frame = self.frames[-1]
        self.event("omp", d, (nthreads,) if nthreads is not None else (), node=s)
        is_for = " for" in (" " + d) or d == "taskloop"
        self.par.append(p)
        if is_for:
            b = s["body"]
            while b.get("k") == "block" and len(b["s"]) == 1:
                b = b["s"][0]
            b = dict(b)
            b["_par"] = p
            if b["k"] == "for":
                self.s_for(b)
            elif b["k"] == "rfor":
                self.s_rfor(b)
            else:
                self.stmt(b)
            # lastprivate writes back
        else:
            self.stmt(s["body"])
        self.par.pop()
        self.seq += 1
        p.end_seq = self.seq
        for vid, kind in fp:
            if kind == "lastprivate":
                self.storev(saved[vid], self.load(env[vid], False))
            env[vid] = saved[vid]

    # -------------------------------------------------------------- loops
    MAX_UNROLL = 12
    def loop(self, cond, inc, body, node):
        par = node.get("_par")
        fr = self.frames[-1]
        if par is None and self.try_unroll(cond, inc, body):
            return
        self.nkey += 1
        key = self.nkey
        L = Loop(key, node.get("l") or self.line, self.file)
        L.kind = node.get("k")
        L.node = node
        L.par = par
        L.parent = self.loops[-1] if self.loops else None
        L.fn = fr.fn.get("qn")
        if par is not None:
            par.loop = L
        s0, p0 = self.store, self.pc
        n_ev, n_acc, n_rets, n_loops = len(self.events), len(self.acc), len(fr.rets), len(self.all_loops)
        n_w = len(self.wlog)
        locs = []          # (root, path) places changed by an iteration
        whole = set()      # places changed other than element by element
        skip = set()
        ind = {}           # leaf -> step
        self.loops.append(L)
        env0 = dict(fr.env)
        for npass in range(9):
            self.store, self.pc = dict(s0), TRUE
            self.gstack.append(p0)
            del self.events[n_ev:], self.acc[n_acc:], fr.rets[n_rets:], self.all_loops[n_loops:], self.wlog[n_w:]
            leaves_, inits = self.havoc(locs, L, ind, whole)
            ctx = {"brk": [], "cont": []}
            fr.loops.append(ctx)
            c = cond()
            header = self.store
            self.store = dict(header)
            self.pc = AND(self.pc, c)
            pc_body = self.pc
            if self.pc is not FALSE:
                body()
            exits = list(ctx["cont"])
            if self.pc is not FALSE:
                exits.append((self.pc, self.store))
            self.set_exits(exits)
            brk = ctx["brk"]
            fr.loops.pop()
            if self.pc is not FALSE and inc is not None:
                inc()
            end, pc_end = self.store, self.pc
            rets = fr.rets[n_rets:]
            self.gstack.pop()
            # places written
            new = self.norm_locs(self.wlog[n_w:], s0, whole, key)
            changed = False
            for loc in list(locs):
                # addresses of an earlier, less precise pass
                if loc[0].args[0] == "mem" and not any(covers(loc, n) or covers(n, loc) for n in new):
                    locs.remove(loc)
                    changed = True
            for loc in new:
                if loc not in skip and not any(covers(o, loc) for o in locs):
                    locs = [o for o in locs if not covers(loc, o)] + [loc]
                    changed = True
            if changed:
                continue
            # next values per leaf
            nxt = {}
            for lf in leaves_:
                nxt[lf] = self.leaf_value(end, lf, pc_end) if pc_end is not FALSE else leaves_[lf]
            # drop unchanged
            drop = []
            for loc in locs:
                lfs = [lf for lf in leaves_ if lf[0] is loc[0] and lf[1] == loc[1]]
                if lfs and all(nxt[lf] is leaves_[lf] and ind.get(lf) is None for lf in lfs) and not loc_in_cond(header, s0, loc, self, leaves_):
                    drop.append(loc)
            if drop:
                for d in drop:
                    if d in locs:
                        skip.add(d)
                        locs.remove(d)
                changed = True
            # induction variables
            prev = [lf for lf in ind if ind[lf] is not None]
            for lf in leaves_:
                if lf in ind or pc_end is FALSE:
                    continue
                st = self.step_of(leaves_[lf], nxt[lf], key)
                if st is not None:
                    ind[lf] = st
                    changed = True
            # demote wrong induction guesses
            for lf in prev:
                if lf in leaves_:
                    exp = self.ind_value(inits[lf], ind[lf], add(L.k, ONE))
                    if nxt[lf] is not exp and pc_end is not FALSE:
                        ind[lf] = None
                        changed = True
            if not changed:
                break
        else:
            raise Undecided("loop at line %s does not stabilise" % L.line)
        self.loops.pop()
        fr.env = env0
        L.cond, L.next, L.init, L.ind, L.leaf = c, nxt, inits, dict(ind), leaves_
        # a break that leaves with the state of the loop head is part of the continuation condition
        keep = []
        for p, st in brk:
            if all(st.get(r) is header.get(r) for r in s0):
                c = AND(c, NOT(p))
            else:
                keep.append((p, st))
        brk = keep
        L.cond = c
        L.brk, L.rets, L.pc_end, L.locs = brk, rets, pc_end, locs
        L.header = header
        L.pc0 = AND(*self.gstack, p0)
        self.all_loops.append(L)
        del fr.rets[n_rets:]
        self.solve_trip(L)
        header, end = self.unvisited(L, header, end, n_ev, n_acc)
        L.end = end
        self.summarise(L, s0, p0, header, end, fr)
        if par is None and L.par is None:
            pass

    def unvisited(self, L, header, end, n_ev, n_acc):
        """an array whose only write of iteration k goes to index k+c still holds, in
        iteration k, its initial elements at indices >= k+c"""
        m = {}
        arrs = []
        for lf, cur in L.leaf.items():
            if not (lf[3] and lf[3][0] == "arr"):
                continue
            idx = set()
            ok = True
            for l in leafset(L.next[lf]):
                if l is cur:
                    continue
                if l.op == "aupd" and l.args[0] is cur:
                    idx.add(l.args[1])
                else:
                    ok = False
            if not ok or len(idx) != 1:
                continue
            i = idx.pop()
            d = sub(i, L.k)
            if occurs(L.k, d) or contains(d, lambda x: x.op == "lv" and x.args[0] == L.key):
                continue
            m[mk("sel", cur, i)] = sel(L.init[lf], i)
            arrs.append(lf)
        if not m:
            return header, end
        memo = {}
        S = lambda t: subst(t, m, memo)
        L.next = {lf: S(v) for lf, v in L.next.items()}
        L.cond = S(L.cond)
        if L.rest is not None:
            L.rest = S(L.rest)
        L.brk = [(S(p), {r: S(v) for r, v in s.items()}) for p, s in L.brk]
        L.rets = [(S(p), (LV(S(v.p), v.t) if isinstance(v, LV) else S(v) if v is not None else None), {r: S(x) for r, x in s.items()}) for p, v, s in L.rets]
        for ev in self.events[n_ev:]:
            ev.args = tuple(S(a) if isinstance(a, T) else a for a in ev.args)
            ev.guard = S(ev.guard)
            if isinstance(ev.res, T):
                ev.res = S(ev.res)
        return {r: S(v) for r, v in header.items()}, {r: S(v) for r, v in end.items()}

    def try_unroll(self, cond, inc, body):
        fr = self.frames[-1]
        snap = (self.store, self.pc, len(self.events), len(self.acc), len(fr.rets), len(self.all_loops), len(self.wlog), dict(fr.env), self.nkey, self.nroot, len(self.notes))
        self.store = dict(self.store)
        n = 0
        done = []
        ok = False
        c = None
        while n <= self.MAX_UNROLL:
            c = cond()
            c = restrict(c, self.pc) if c.op == "ite" else c
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            ctx = {"brk": [], "cont": []}
            fr.loops.append(ctx)
            body()
            fr.loops.pop()
            exits = list(ctx["cont"])
            if self.pc is not FALSE:
                exits.append((self.pc, self.store))
            self.set_exits(exits)
            done += ctx["brk"]
            n += 1
            if self.pc is FALSE:
                ok = True
                break
            if inc is not None:
                inc()
        if ok:
            if self.pc is not FALSE:
                done.append((self.pc, self.store))
            if done:
                self.set_exits(done)
            else:
                self.pc = FALSE
            return True
        self.store, self.pc = snap[0], snap[1]
        del self.events[snap[2]:], self.acc[snap[3]:], fr.rets[snap[4]:], self.all_loops[snap[5]:], self.wlog[snap[6]:], self.notes[snap[10]:]
        fr.env = snap[7]
        return False

    def norm_locs(self, w, s0, whole, key=None):
        out = []
        for root, path in w:
            if root not in s0 and root.args[0] in ("loc", "heap"):
                continue
            if root.args[0] == "mem" and key is not None and contains(root, lambda x: x.op in ("k", "lv", "rb") and x.args[0] == key or x.op == "root" and x.args[0] in ("loc", "heap") and x not in s0):
                continue
            q = []
            wh = True
            for e in path:
                if e[0] in ("i", "m", "blk", "sub", "$size", "span"):
                    wh = e[0] not in ("i", "span")
                    break
                q.append(e)
            loc = (root, tuple(q))
            if loc not in out:
                out.append(loc)
            if wh:
                whole.add(loc)
        # keep the outermost places only
        return [l for l in out if not any(o != l and covers(o, l) for o in out)]

    def shape(self, v):
        """list of subpaths of the scalar leaves of a value"""
        if v.op == "ite":
            ls = leafset(v)
            for l in ls:
                if l.op in AGG:
                    return self.shape(l)
            return [()]
        if v.op == "mat":
            return [("mat", v.args[0], v.args[1], i, j) for i in range(v.args[0]) for j in range(v.args[1])]
        if v.op == "vec":
            return [("vec", "size"), ("vec", "arr")]
        if v.op == "ptr" and v.args[1] and v.args[1][-1][0] == "i":
            return [("ptr", v.args[0], v.args[1][:-1])]
        return [()]

    def havoc(self, locs, L, ind, whole):
        leaves_, inits = {}, {}
        for root, path in locs:
            p = P(root, *path)
            cur = self.get(root)
            for e in path:
                cur = self.project(cur, e)
            elem = (root, path) not in whole
            if elem and cur.op not in ("ite", "mat", "rec", "undef"):
                cur = as_vec(cur)
            nv = self.havoc_value(cur, root, path, (), L, ind, leaves_, inits)
            if elem and nv.op == "vec" and cur.op == "vec":
                lf = (root, path, (), ("size",))
                inits.pop(lf, None)
                leaves_.pop(lf, None)
                nv = mk("vec", cur.args[0], nv.args[1])
            old = self.get(root)
            self.store[root] = self.update(old, path, nv)
        return leaves_, inits
    def havoc_value(self, cur, root, path, sub, L, ind, leaves_, inits):
        if cur.op == "rec" and cur.args[0].op in ("newobj", "undef"):
            d = {}
            for n, v in cur.args[1]:
                d[n] = self.havoc_value(v, root, path, sub + (("f", n),), L, ind, leaves_, inits)
            return mkrec(cur.args[0], d)
        def leaf(tag, init):
            lf = (root, path, sub, tag)
            inits[lf] = init
            if ind.get(lf) is not None:
                v = self.ind_value(init, ind[lf], L.k)
            else:
                v = mk("lv", L.key, (root, path, sub, tag))
            leaves_[lf] = v
            return v
        if cur.op == "ite":
            for l in leafset(cur):
                if l.op in ("mat", "vec"):
                    cur = lift1(lambda x: unify(x, l)[0] if x.op not in ("mat", "vec", "undef") else x, cur)
                    if l.op == "mat":
                        cur = mat(l.args[0], l.args[1], [el(cur, i, j) for i in range(l.args[0]) for j in range(l.args[1])])
                    break
        if cur.op == "mat":
            R, C, E = cur.args
            return mat(R, C, [leaf(("mat", i, j), E[i * C + j]) for i in range(R) for j in range(C)])
        if cur.op == "vec":
            return mk("vec", leaf(("size",), cur.args[0]), leaf(("arr",), cur.args[1]))
        if cur.op == "ptr" and cur.args[1] and cur.args[1][-1][0] == "i":
            q = mk("ptr", cur.args[0], cur.args[1][:-1])
            return self.ext(q, ("i", leaf(("ptr", q), cur.args[1][-1][1])))
        return leaf((), cur)
    def leaf_value(self, store, lf, pc):
        root, path, sub, tag = lf
        v = store.get(root)
        if v is None:
            v = init_of(root)
        for e in path + sub:
            v = self.project(v, e)
        if pc is not TRUE:
            v = restrict(v, pc)
        if tag:
            if tag[0] == "mat":
                return el(v, tag[1], tag[2])
            if tag[0] == "size":
                return size_of(v)
            if tag[0] == "arr":
                return lift1(TT._arr1, v)
            if tag[0] == "ptr":
                q = tag[1]
                def f(x):
                    if x.op == "ptr" and x.args[0] is q.args[0] and x.args[1][:-1] == q.args[1] and x.args[1] and x.args[1][-1][0] == "i":
                        return x.args[1][-1][1]
                    return mk("badptr", x)
                return lift1(f, v)
        return v
    def step_of(self, cur, nx, key):
        """nx = cur + invariant ?"""
        if cur.op not in ("lv",) or nx.op in ("bool", "rec", "mat", "vec", "undef", "null", "ptr", "closure"):
            return None
        if nx is cur or nx.op == "ite":
            return None
        if not occurs(cur, nx):
            return None
        if nx.op != "poly":
            return None
        d = sub(nx, cur)
        if d.op in ("num",) or (d.op in POLYISH and not contains(d, lambda x: (x.op == "lv" and x.args[0] == key) or (x.op == "k" and x.args[0] == key))):
            if d.op == "num" or self.invariant(d, key):
                return d
        return None
    def invariant(self, d, key):
        return not contains(d, lambda x: x.op in ("out", "unk") )
    def ind_value(self, init, step, k):
        return add(init, mul(step, k))

    def solve_trip(self, L):
        c = L.cond
        if c is TRUE:
            return
        best = None
        for a in atoms_of(c):
            if a.op not in ("lt0", "le0", "eq0"):
                continue
            for pos in (True, False):
                lit = atomb(a) if pos else NOT(atomb(a))
                if not implies(c, lit):
                    continue
                p = a.args[0]
                d = dict(TT._pd(p))
                ms = [m for m in d if any(x is L.k for x, e in m)]
                if len(ms) != 1 or ms[0] != ((L.k, 1),):
                    continue
                if contains(p, lambda x: x.op == "lv" and x.args[0] == L.key):
                    continue
                co = d[ms[0]]
                r = sub(p, mul(num(co), L.k))
                if a.op == "lt0" and a.args[1] is True:
                    # co*k + r < 0  (pos)   /  co*k + r >= 0 (neg)
                    if pos and co > 0:
                        t = ceildiv(neg(r), num(co))
                    elif not pos and co < 0:
                        t = add(floordiv(r, num(-co)), ONE)
                    else:
                        continue
                elif a.op == "eq0" and not pos:
                    if abs(co) != 1:
                        q = mul(num(-1 / co), r)
                        if any(cc.denominator != 1 for cc in TT._pd(q).values()):
                            continue
                        t = q
                    else:
                        t = neg(mul(num(co), r))
                else:
                    continue
                best = (t, lit)
                if a.op == "eq0" and self.nonneg(t):
                    # counting up to a bound that is not behind: `!=` means `<`
                    c = AND(restrict(c, lit), lt(L.k, t))
                    L.cond, lit = c, lt(L.k, t)
                    best = (t, lit)
                break
            if best:
                break
        # symbolic stride:  lo + s*k < hi   (s loop invariant)
        if best is None:
            for a in atoms_of(c):
                if a.op != "lt0" or a.args[1] is not True or not implies(c, atomb(a)):
                    continue
                p = a.args[0]
                d = dict(TT._pd(p))
                ms = [m for m in d if any(x is L.k for x, e in m)]
                if len(ms) == 1 and dict(ms[0]).get(L.k) == 1 and not contains(p, lambda x: x.op == "lv" and x.args[0] == L.key):
                    s = TT._mkpoly({tuple((x, e) for x, e in ms[0] if x is not L.k): d[ms[0]]})
                    r = sub(p, mul(s, L.k))
                    best = (mk("app", "ceildiv", neg(r), s), atomb(a))
                    break
        if best:
            L.trip, lit = best
            L.rest = restrict(c, lit)

    def nonneg(self, t):
        """the integer term cannot be negative: sizes, ends of non-empty sub-ranges"""
        d = dict(TT._pd(t))
        if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("fld", "sel", "sym") for m in d):
            return True               # from the first to the end of a range given by its two ends
        for m, co in list(d.items()):
            if co < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rb":
                e = ((mk("re", m[0][0].args[0]), 1),)
                if d.get(e) == -co:
                    del d[e], d[m]
        return all(co > 0 and all(TT.is_nonneg_atom(x) for x, e in m) for m, co in d.items())

    def bvar(self, L, *ts):
        d = 0
        for t in ts:
            for b in collect(t, lambda x: x.op == "bv"):
                d = max(d, b.args[0] + 1)
        return mk("bv", d)

    def summarise(self, L, s0, p0, header, end, fr):
        key, k = L.key, L.k
        # (what an inner loop leaves behind may go back to what it started from)
        haslv = lambda t: contains(t, lambda x: x.op == "lv" and x.args[0] == key or x.op == "lout" and x.args[0] > key)
        exits = list(L.brk) + [(p, s) for p, v, s in L.rets]
        nonind = [lf for lf in L.leaf if L.ind.get(lf) is None]
        rest_exit = NOT(L.rest) if L.trip is not None else FALSE
        pure = not nonind and L.trip is not None
        fin = {}
        trip = L.trip
        if not exits and L.trip is not None and L.rest is TRUE:
            for lf in L.leaf:
                init, nx = L.init[lf], L.next[lf]
                if L.ind.get(lf) is not None:
                    fin[lf] = self.ind_value(init, L.ind[lf], trip)
                else:
                    fin[lf] = self.close(L, lf, init, nx, trip)
            m = {L.leaf[lf]: fin[lf] for lf in L.leaf if L.ind.get(lf) is None}
            m[k] = trip
            self.store = self.subst_store(header, s0, m)
            self.pc = p0
            L.final = fin
            L.closed = True
            return
        L.closed = False
        self.store = None
        if pure:
            B = rest_exit
            for p, _ in exits:
                B = OR(B, p)
            bv = self.bvar(L, B, trip)
            ex = atomb(mk("exists", trip, subst(B, {k: bv}), bv))
            first = mk("first", trip, subst(B, {k: bv}), bv)
            kx = {k: first}
            outs = []
            for p, s in L.brk:
                q = TRUE if p is B else subst(p, kx)
                outs.append((AND(p0, ex, q), self.subst_store(s, s0, kx)))
            for p, v, s in L.rets:
                q = TRUE if p is B else subst(p, kx)
                vv = None if v is None else (LV(subst(v.p, kx), v.t) if isinstance(v, LV) else subst(v, kx))
                fr.rets.append((AND(p0, ex, q), vv, self.subst_store(s, s0, kx)))
            if rest_exit is not FALSE:
                q = TRUE if rest_exit is B else subst(rest_exit, kx)
                outs.append((AND(p0, ex, q), self.subst_store(header, s0, kx)))
            outs.append((AND(p0, NOT(ex)), self.subst_store(header, s0, {k: trip})))
            outs = [o for o in outs if o[0] is not FALSE]
            self.set_exits(outs)
            return
        if self.first_exit(L, s0, p0, header, exits, nonind, haslv, rest_exit, fr):
            return
        if self.flag_loop(L, s0, p0, header, exits, nonind, haslv):
            return
        # general loop: opaque exit state
        exv = {}
        for lf in L.leaf:
            exv[lf] = mk("lout", key, lf)
        outs = []
        conds = []
        j = 0
        normal = TRUE
        bexits = []
        for p, s in L.brk:
            a = atomb(mk("lexit", key, j))
            j += 1
            bexits.append((AND(p0, normal, a), s))
            normal = AND(normal, NOT(a))
        for p, v, s in L.rets:
            a = atomb(mk("lexit", key, j))
            j += 1
            fr.rets.append((AND(p0, normal, a), v, s))
            normal = AND(normal, NOT(a))
        m = {L.leaf[lf]: exv[lf] for lf in L.leaf if L.ind.get(lf) is None}
        m[k] = mk("kout", key) if (exits or trip is None or L.rest is not TRUE) else trip
        outs = bexits
        if L.cond is not TRUE:
            st = self.subst_store(header, s0, m)
            outs = outs + [(AND(p0, normal), st)]
        L.final = {lf: m.get(L.leaf[lf], self.ind_value(L.init[lf], L.ind[lf], m[k]) if L.ind.get(lf) is not None else exv[lf]) for lf in L.leaf}
        self.set_exits(outs)
        if not outs:
            self.store = dict(s0)

    def first_exit(self, L, s0, p0, header, exits, nonind, haslv, rest_exit, fr):
        """a counted loop left early on a condition of the counter alone: its variables in closed form, for the number
        of complete iterations"""
        if L.trip is None or L.par is not None:
            return False
        conds = [p for p, _ in exits] + ([rest_exit] if rest_exit is not FALSE else [])
        if not conds or any(haslv(p) for p in conds) or any(p is TRUE for p in conds):
            return False
        B = FALSE
        for p in conds:
            B = OR(B, p)
        bv = self.bvar(L, B, L.trip)
        ex = atomb(mk("exists", L.trip, subst(B, {L.k: bv}), bv))
        first = mk("first", L.trip, subst(B, {L.k: bv}), bv)
        def fins(trip, at):
            m = {L.k: at}
            for lf in nonind:
                v = self.close(L, lf, L.init[lf], restrict(L.next[lf], NOT(B)), trip)
                if contains(v, lambda x: x.op == "lv" and x.args[0] == L.key):
                    return None
                if contains(v, lambda x: x.op == "lout" and x.args[0] == L.key):
                    loose.add(lf)             # whatever the loop leaves behind
                m[L.leaf[lf]] = v
            return m
        loose = set()
        early, late = fins(first, first), fins(L.trip, L.trip)
        if early is None or late is None or loose and len(loose) == len(nonind):
            return False
        outs = []
        one = len(conds) == 1
        for p, s in L.brk:
            outs.append((AND(p0, ex, TRUE if one else subst(p, {L.k: first})), self.subst_store(s, s0, early)))
        for p, v, s in L.rets:
            vv = None if v is None else (LV(subst(v.p, early), v.t) if isinstance(v, LV) else subst(v, early))
            fr.rets.append((AND(p0, ex, TRUE if one else subst(p, {L.k: first})), vv, self.subst_store(s, s0, early)))
        if rest_exit is not FALSE:
            outs.append((AND(p0, ex, TRUE if one else subst(rest_exit, {L.k: first})), self.subst_store(header, s0, early)))
        outs.append((AND(p0, NOT(ex)), self.subst_store(header, s0, late)))
        outs = [o for o in outs if o[0] is not FALSE]
        L.closed = True
        L.final = {}
        self.set_exits(outs)
        return True

    def flag_loop(self, L, s0, p0, header, exits, nonind, haslv):
        """search loop stopped by a flag: the only carried variable is a boolean that ends the loop when it is set"""
        if exits or L.trip is None or len(nonind) != 1:
            return False
        lf = nonind[0]
        f = asbool(L.leaf[lf])
        nx, init = L.next[lf], L.init[lf]
        if any(l.op != "bool" and l is not L.leaf[lf] for l in leafset(nx)) or init not in (TRUE, FALSE):
            return False
        nx = lift1(asbool, nx)
        stop = f if init is FALSE else NOT(f)
        if L.rest is not NOT(stop):
            return False
        q = restrict(nx, NOT(stop))
        if init is TRUE:
            q = NOT(q)
        if haslv(q):
            return False
        bv = self.bvar(L, q, L.trip)
        ex = atomb(mk("exists", L.trip, subst(q, {L.k: bv}), bv))
        first = mk("first", L.trip, subst(q, {L.k: bv}), bv)
        kout = ite(ex, add(first, ONE), L.trip)
        fin = ex if init is FALSE else NOT(ex)
        self.store = self.subst_store(header, s0, {L.leaf[lf]: fin, L.k: kout})
        self.pc = p0
        L.final = {x: (fin if x is lf else self.ind_value(L.init[x], L.ind[x], kout)) for x in L.leaf}
        return True

    def subst_store(self, st, s0, m):
        out = {}
        memo = {}
        for r, v in st.items():
            if v is s0.get(r):
                out[r] = v
            else:
                out[r] = subst(v, m, memo)
        return out

    def close(self, L, lf, init, nx, trip):
        """value of an accumulator after trip iterations"""
        cur, k, key = L.leaf[lf], L.k, L.key
        own = lambda t: contains(t, lambda x: x.op == "lv" and x.args[0] == key or x.op == "lout" and x.args[0] > key)
        generic = mk("lout", key, lf)
        tag = lf[3]
        if tag and tag[0] == "arr":
            r = self.close_arr(L, lf, init, nx, trip)
            return r if r is not None else generic
        # boolean accumulators
        if all(l.op == "bool" for l in leafset(nx) ) or nx.op == "bool" or (nx.op == "ite" and all(l.op == "bool" or l is cur for l in leafset(nx))):
            bnx = lift1(lambda x: asbool(x) if x.op != "bool" else x, nx)
            bc = asbool(cur)
            hi = restrict(bnx, bc)
            lo = restrict(bnx, NOT(bc))
            if not own(hi) and not own(lo):
                if hi is TRUE:
                    return OR(asbool(init), self.exists(L, lo, trip))
                if lo is FALSE:
                    return AND(asbool(init), NOT(self.exists(L, NOT(hi), trip)))
            return generic
        try:
            d = sub(nx, cur) if nx.op != "undef" else UNDEF
        except Exception:
            return generic
        if d is not UNDEF and all(x.op in POLYISH or x.op in ("lv", "k", "sum", "elx", "deref", "minv", "bv", "maxof", "minof", "cond", "ldlt", "eigv") or x.op == "bool" for x in leafset(d)) and not own(d):
            if d is ZERO:
                return init
            return self.addsum(init, self.sum(L, d, trip))
        # min / max accumulators
        if nx.op == "app" and nx.args[0] in ("min", "max") and cur in nx.args[1:]:
            others = [x for x in nx.args[1:] if x is not cur]
            if not any(own(x) for x in others):
                bv = self.bvar(L, trip, *others)
                return mk("over", mk("str", nx.args[0]), trip, init, mk("tup", *[subst(x, {k: bv}) for x in others]), bv)
        if not own(nx):
            # last iteration's value
            bv = self.bvar(L, nx, trip)
            return ite(lt(ZERO, trip), subst(nx, {k: sub(trip, ONE)}), init)
        return self.last(L, nx, cur, init, trip) or generic
    def last(self, L, nx, cur, init, trip):
        """a variable that some iterations overwrite with a value of their own: what the last of these wrote"""
        own = lambda t: contains(t, lambda x: x.op == "lv" and x.args[0] == L.key or x.op == "lout" and x.args[0] > L.key)
        if nx.op != "ite" or any(l is not cur and own(l) for l in leafset(nx)) or any(l.op in ("rec", "vec", "arr", "ptr", "closure") for l in leafset(nx)):
            return None
        c = asbool(lift1(lambda l: FALSE if l is cur else TRUE, nx))
        if own(c):
            return None
        v = restrict(lift1(lambda l: UNDEF if l is cur else l, nx), c)
        if contains(v, lambda x: x.op == "undef"):
            return None
        bv = self.bvar(L, c, v, trip)
        return mk("last", trip, subst(c, {L.k: bv}), subst(v, {L.k: bv}), init, bv)
    def sum(self, L, d, trip):
        if not occurs(L.k, d):
            return mul(trip, d)
        bv = self.bvar(L, d, trip)
        return self.mksum(trip, subst(d, {L.k: bv}), bv)
    def exists(self, L, c, trip):
        if c is FALSE:
            return FALSE
        if not occurs(L.k, c):
            return AND(lt(ZERO, trip), c)
        bv = self.bvar(L, c, trip)
        return atomb(mk("exists", trip, subst(c, {L.k: bv}), bv))
    def close_arr(self, L, lf, init, nx, trip):
        """arr[idx(k)] = v  pattern (injective in k) and filter pattern"""
        cur, k, key = L.leaf[lf], L.k, L.key
        own = lambda t: contains(t, lambda x: x.op == "lv" and x.args[0] == key)
        leaves_ = leafset(nx)
        idxs = set()
        for l in leaves_:
            if l is cur:
                continue
            if l.op == "aupd" and l.args[0] is cur:
                idxs.add(l.args[1])
            elif l.op == "maparr" and l.args[3] is cur:
                return None
            else:
                return None
        if len(idxs) != 1:
            return None
        idx = idxs.pop()
        own_elem = mk("sel", cur, idx)
        par = L.par
        proto = next(l for l in leaves_ if l is not cur).args[2]
        keep = own_elem
        if proto.op == "mat":
            keep = as_mat(own_elem, proto.args[0], proto.args[1])
        def velem():
            return lift1(lambda l: keep if l is cur else l.args[2], nx) if nx.op != "ite" else merge_leaves(nx, lambda l: keep if l is cur else l.args[2])
        if idx.op == "app" and idx.args[0] == "omp_get_thread_num" and par is not None:
            # per-thread accumulator
            v = velem()
            d = self.delta(v, own_elem)
            T_ = par.num_threads
            if d is not None and not own(d) and T_ is not None:
                bv = self.bvar(L, d, trip)
                return mk("pacc", T_, trip, subst(d, {k: bv}), init, bv)
            return None
        if not own(idx) and not occurs(k, idx):
            v = velem()
            m = {}
            for t in collect(v, lambda x: x.op == "sel" and x.args[0] is cur and x is not own_elem):
                df = sub(t.args[1], idx)
                if not contains(df, lambda x: x.op == "lv") and TT._lt0(neg(subst(df, {k: mk("size", sym("$n"))})), True) is TRUE:
                    m[t] = sel(init, t.args[1])
            v = subst(v, m)
            d = self.delta(v, own_elem)
            if not own(v):
                # what the last iteration wrote
                return aupd(init, idx, ite(lt(ZERO, trip), subst(v, {k: sub(trip, ONE)}), sel(init, idx)))
            if d is None or own(d):
                # nothing else of the array changes
                return aupd(init, idx, sel(mk("lout", key, lf), idx))
            return aupd(init, idx, self.acc_val(L, v, sel(init, idx), d, trip))
        lo = subst(idx, {k: ZERO}) if not own(idx) else None
        if lo is not None and sub(idx, lo) is k:
            bv = self.bvar(L, nx, trip, lo)
            j = mk("bv", bv.args[0])
            # body as a function of the absolute index j
            def f(l):
                if l is cur:
                    return mk("keep")
                return restrict(l.args[2], inr)
            inr = lt(k, trip)
            b = lift1(f, nx)
            own_elem = mk("sel", cur, idx)
            b = subst(b, {own_elem: mk("oldelem")})
            if own(b):
                return None
            b = subst(b, {k: sub(j, lo)})
            return mk("maparr", lo, add(lo, trip), b, init, bv)
        # filter: arr[size] = v if c
        szlf = (lf[0], lf[1], lf[2], ("size",))
        if szlf in L.leaf and idx is L.leaf[szlf]:
            sn = L.next[szlf]
            inc = sub(sn, L.leaf[szlf])
            if own(inc):
                return None
            b = lift1(lambda l: mk("keep") if l is cur else restrict(l.args[2], lt(k, trip)), nx)
            if own(b):
                return None
            bv = self.bvar(L, b, trip)
            return mk("collect", trip, subst(b, {k: bv}), init, L.init[szlf], bv)
        return None

    # -------------------------------------------------------------- expressions
    def delta(self, v, cur):
        """v - cur (componentwise), or None"""
        if v.op == "mat":
            R, C, E = v.args
            return mat(R, C, [sub(E[i * C + j], el(cur, i, j)) for i in range(R) for j in range(C)])
        if any(l.op in ("rec", "vec", "mat", "undef", "closure", "ptr", "null", "str", "bool") for l in leafset(v)):
            return None
        return sub(v, cur)
    def acc_val(self, L, v, init, d, trip):
        if d.op == "mat":
            R, C, E = d.args
            return mat(R, C, [self.addsum(el(init, i, j), self.sum(L, E[i * C + j], trip)) for i in range(R) for j in range(C)])
        return self.addsum(init, self.sum(L, d, trip))
    def addsum(self, init, s):
        """f(0) + sum_{b<n} f(b+1) = sum_{b<n+1} f(b)"""
        if s.op == "sum":
            n, b, bv = s.args
            if subst(b, {bv: num(-1)}) is init:
                return self.mksum(add(n, ONE), subst(b, {bv: sub(bv, ONE)}), bv)
        return add(init, s)
    def mksum(self, n, b, bv):
        """sum over all threads of a per-thread accumulator = sum over its iterations"""
        pa = collect(b, lambda x: x.op == "pacc")
        if len(pa) == 1 and pa[0].args[0] is n:
            p = pa[0]
            pbv = p.args[4]
            bvs = [x for x in collect(b, lambda x: x.op == "sel" and x.args[0] is p)]
            if len(bvs) == 1 and bvs[0].args[1] is bv:
                s = bvs[0]
                z = sel(p.args[3], s.args[1])
                if z.op == "mat" and z.args[2] and all(x is ZERO for x in z.args[2]) or z is ZERO:
                    if b is s:
                        return mk("sum", p.args[1], p.args[2], pbv)
                    if b.op == "el" and b.args[0] is s:
                        d = el(p.args[2], b.args[1], b.args[2])
                        return mk("sum", p.args[1], d, pbv) if d is not ZERO else ZERO
        return mk("sum", n, b, bv)
    def cond(self, e):
        return asbool(self.rv(self.ev(e)))
    def rv(self, x):
        if isinstance(x, Comma):
            x = x.lv
        if isinstance(x, LV):
            return self.load(x)
        return x
    def val(self, e):
        return self.rv(self.ev(e))
    def ev(self, e):
        if self.dead():
            return UNDEF
        if e.get("l"):
            self.line = e["l"]
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("step budget")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.unk("expr " + e["k"])
        return m(e)
    def e_var(self, e):
        if e.get("sc") in ("global", "static") or e["id"] not in self.frames[-1].env:
            for fr in reversed(self.frames):
                if e["id"] in fr.env and e.get("sc") not in ("global",):
                    return fr.env[e["id"]]
            n = e.get("qn") or e.get("n")
            g = self.prog.globals.get(n) or self.prog.globals.get(e.get("n"))
            if g and g.get("init") is not None and g.get("cst"):
                return self.val(g["init"])
            if e.get("cv") is not None:
                return num(int(e["cv"]))
            if e.get("ini") is not None:
                v = self.rv(self.ev(e["ini"]))
                if isinstance(v, T) and closed_value(v):
                    return LV(P(mk("root", "const", adapt(v, e.get("t", "")), str(n))), e.get("t", ""))
            return LV(P(mk("root", "glob", str(n))), e.get("t", ""))
        lv = self.frames[-1].env[e["id"]]
        if not lv.t:
            lv = LV(lv.p, e.get("t", ""))
        return lv
    def e_this(self, e):
        return self.frames[-1].this
    def e_mem(self, e):
        if e.get("arrow"):
            b = self.val(e["b"])
            base = self.deref_this(b, e["b"])
        else:
            b = self.ev(e["b"])
            if isinstance(b, LV):
                base = b.p
            else:
                if isinstance(b, Comma):
                    base = b.lv.p
                else:
                    # field of an rvalue
                    return adapt(fld_raw(b, e["f"]), e.get("t"))
        t = e.get("t", "")
        if e["f"] == "":
            return LV(base, t)      # anonymous union/struct
        if "(anonymous" in e.get("cls", ""):
            al = UNION.get(e["f"])
            if al is not None:      # PCL point unions: named components alias the data array
                return LV(self.ext(base, ("f", al[0]), *([("i", num(al[1]))] if al[1] is not None else [])), t)
        lv = LV(self.ext(base, ("f", e["f"])), t)
        if t.rstrip().endswith("&"):
            r = self.load(LV(lv.p, ""), False)
            if all(l.op == "ptr" for l in leafset(r)):
                return LV(r, t)
        if e.get("static"):
            return LV(P(mk("root", "glob", e.get("cls", "") + "::" + e["f"])), t)
        return lv
    def deref_this(self, b, node):
        if node.get("k") == "this":
            return b
        t = strip_t(node.get("t", ""))
        if t.startswith("std::shared_ptr") or t.startswith("std::unique_ptr"):
            return self.deref_smart(b, "").p
        return lift1(lambda x: x if x.op in ("ptr", "null", "undef") else P(mk("root", "mem", x), ("i", ZERO)), b)
    def e_lit(self, e):
        lt_, v = e.get("lt"), e.get("v")
        if lt_ == "i":
            return num(int(v))
        if lt_ == "b":
            return TRUE if v in ("true", True, "1") else FALSE
        if lt_ == "f":
            f = float(v)
            if f == f and f not in (float("inf"), float("-inf")):
                q = Fraction(f).limit_denominator(100000)
                return num(q if float(q) == f else Fraction(repr(f)))
            else:
                if f != f or f in (float("inf"), float("-inf")):
                    return mk("app", "inf" if f > 0 else "nan" if f != f else "-inf")
                return num(Fraction(repr(f)))
        if lt_ == "n":
            return NULL
        return mk("str", v)
    def e_cast(self, e):
        x = self.ev(e["e"])
        ck = e.get("ck")
        if ck == "void":
            self.rv(x)
            return mk("void")
        if ck in ("bit", "const") and isinstance(x, LV):
            return LV(x.p, e.get("t", x.t)) if ck == "const" else x
        v = self.rv(x)
        tt = strip_t(e.get("t", ""))
        if ck in ("i2b", "f2b"):
            return lift1(lambda x: asbool(x) if x.op in ("bool", "num") or x is UNDEF else NOT(eq(x, ZERO)), v)
        if ck in ("p2b",) or tt == "bool":
            return asbool(v)
        if ck == "f2i":
            return app("trunc", v)
        if ck == "i2i":
            ft = strip_t(e.get("ft", ""))
            if ft in BITS and tt in BITS and BITS[tt] < BITS[ft] and BITS[tt] < 32:
                n = ival(v)
                if n is None:
                    return app("narrow%d" % BITS[tt], v)
            if v.op == "ite" and all(l.op == "bool" for l in leafset(v)):
                return ite(v, ONE, ZERO)
            n = ival(v)
            if n is not None and tt.startswith("unsigned") and n < 0 and tt in BITS:
                return num(n % (1 << BITS[tt]))
            if n is not None and tt in BITS and not tt.startswith("unsigned") and n >= (1 << (BITS[tt] - 1)):
                return num(n - (1 << BITS[tt]))
            return v
        if ck in ("i2f",):
            if v.op == "bool" or (v.op == "ite" and all(l.op == "bool" for l in leafset(v))):
                return ite(v, ONE, ZERO)
            return v
        if ck == "f2f" and tt == "float":
            return app("f32", v)
        return v
    def narrowed(self, t, rt, v):
        """what a variable of type t keeps of the result of an operation on it"""
        t = strip_t(t or "")
        if t == "float" and strip_t(rt or "") in ("double", "long double"):
            return app("f32", v)
        if 1 < BITS.get(t, 64) < 32 and ival(v) is None:
            return app("narrow%d" % BITS[t], v)
        return v
    def store_to(self, e, lv, v):
        self.storev(lv, adapt(v, lv.t) if lv.t else v)
    def e_asg(self, e):
        op = e.get("op", "")
        if e.get("cls") and isinstance(e.get("f"), dict):
            fn = self.callee(e)
            if fn is not None and fn.get("body") is not None:
                L = self.ev(e["L"])
                return self.inline(fn, [e["R"]], L.p if isinstance(L, LV) else self.temp(L, "").p, e)
        R = self.ev(e["R"])
        r = self.rv(R)
        L = self.ev(e["L"])
        if isinstance(L, Comma):
            L = L.lv
        if not isinstance(L, LV):
            if L.op == "tie":
                for i, lp in enumerate(L.args):
                    self.storev(LV(lp, ""), fld_raw(r, "t%d" % i))
                return mk("void")
            if e.get("cls"):
                return self.lib.assign_rvalue(self, e, L, r)
            self.lost = True
            return self.unk("assignment to rvalue")
        if op == "":
            if e.get("cls") and isinstance(e.get("f"), dict) and self.lib.assign(self, e, L, r):
                return L
            y = ty(L.t)
            if y.k in ("mat", "tf") and r.op in ("num",):
                r = mat(y.r, y.c, [r] * (y.r * y.c))
            if y.k in ("mat", "tf") and r.op == "mat" and (r.args[0], r.args[1]) != (y.r, y.c):
                if (r.args[1], r.args[0]) == (y.r, y.c) and 1 in (y.r, y.c):
                    r = mat(y.r, y.c, r.args[2])
                else:
                    self.note("shape mismatch in assignment")
            self.store_to(e, L, r)
            return L
        cur = self.load(L)
        v = self.arith(op, cur, r, e, L.t or e["L"].get("t", ""), e)
        if v is None:
            v = self.unk("asg " + op)
        elif isinstance(v, T) and not self.matlike(v):
            v = self.narrowed(e["L"].get("t") or L.t, e["R"].get("t"), v)
        self.store_to(e, L, v)
        return L
    def arith(self, op, a, b, node, ta, tb_node=None):
        """a op b for scalars and matrices"""
        if isinstance(op, str) and op.endswith("=") and op not in ("==", "<=", ">=", "!="):
            op = op[:-1]
        am = self.matlike(a)
        bm = self.matlike(b)
        if am or bm:
            return self.lib.mat_arith(self, op, a, b, node)
        if op == "+":
            if self.ptrlike(a):
                return self.ptr_add(a, b)
            if self.ptrlike(b):
                return self.ptr_add(b, a)
            return add(a, b)
        if op == "-":
            if self.ptrlike(a):
                if self.ptrlike(b):
                    return self.ptr_diff(a, b)
                return self.ptr_add(a, neg(b))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if ty(ta).k == "int":
                return app("idiv", a, b)
            return div(a, b)
        if op == "%":
            return app("mod", a, b)
        if op in ("&", "|", "^"):
            if _isb(a) and _isb(b):
                return AND(a, b) if op == "&" else OR(a, b) if op == "|" else ite(a, NOT(b), b)
            a = ite(a, ONE, ZERO) if _isb(a) else a
            b = ite(b, ONE, ZERO) if _isb(b) else b
            return app({"&": "band", "|": "bor", "^": "bxor"}[op], a, b)
        if op == "<<":
            w = BITS.get(strip_t(ta), 64)
            n = ival(b)
            if n is not None and n >= 0:
                self.event("shift", "shl", (a, b, num(max(w, 32))))
                return mul(a, num(1 << n))
            return app("shl", a, b)
        if op == ">>":
            return app("shr", a, b)
        return None
    def matlike(self, v):
        return any(x.op == "mat" for x in leafset(v)) if v.op == "ite" else v.op == "mat"
    def ptrlike(self, v):
        return v.op == "ptr" or (v.op == "ite" and any(l.op == "ptr" for l in leafset(v)))
    def ptr_add(self, p, n):
        def f(x, m):
            if x.op == "ptr":
                path = x.args[1]
                if path and path[-1][0] == "i":
                    return mk("ptr", x.args[0], path[:-1] + (("i", add(path[-1][1], m)),))
                return mk("ptr", x.args[0], path + (("i", m),))
            return app("ptradd", x, m)
        return liftn(f, p, n)
    def ptr_diff(self, a, b):
        def f(x, y):
            if x.op == "ptr" and y.op == "ptr" and x.args[0] is y.args[0]:
                px, py = x.args[1], y.args[1]
                if px[:-1] == py[:-1] and px and px[-1][0] == "i":
                    return sub(px[-1][1], py[-1][1])
            return app("ptrdiff", x, y)
        return liftn(f, a, b)
    def eptr(self, v, t):
        """iterator / raw pointer value as ptr(...,('i',0)) so that arithmetic works"""
        def f(x):
            if x.op in ("ptr", "null", "undef", "bool") or x.op in ("num", "mapit", "mapend"):
                return x
            return P(mk("root", "mem", x), ("i", ZERO))
        y = strip_t(t)
        if y.endswith("*") or "normal_iterator" in y:
            return lift1(f, v)
        return v
    def e_bin(self, e):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.cond(e["L"])
            if a.op == "bool":
                if (op == "&&") == (a is FALSE):
                    return a
                return self.cond(e["R"])
            hit = {}
            def right():
                return self.cond(e["R"])
            if op == "&&":
                r, _, _, _ = self.fork(a, right, lambda: FALSE)
                return ite(a, r if r is not None else FALSE, FALSE)
            _, r, _, _ = self.fork(a, lambda: TRUE, right)
            return ite(a, TRUE, r if r is not None else FALSE)
        if op == ",":
            self.ev(e["L"])
            return self.ev(e["R"])
        lt_, rt_ = self.etype(e["L"]), self.etype(e["R"])
        a = self.val(e["L"])
        b = self.val(e["R"])
        if op in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
            a = self.eptr(a, lt_)
            b = self.eptr(b, rt_)
        return self.binop(op, a, b, lt_, rt_, e)
    def etype(self, e):
        t = e.get("t")
        if t:
            return t
        if e["k"] == "lit":
            return {"i": "int", "f": "double", "b": "bool"}.get(e.get("lt"), "")
        return ""
    def binop(self, op, a, b, lt_, rt_, e):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if self.matlike(a) or self.matlike(b):
                return self.lib.mat_arith(self, op, a, b, e)
            isint = not (ty(lt_).k == "float" or ty(rt_).k == "float")
            if self.ptrlike(a) and self.ptrlike(b) and op not in ("==", "!="):
                d = self.ptr_diff(a, b)
                a, b = d, ZERO
            if op == "==":
                return eq(a, b)
            if op == "!=":
                return NOT(eq(a, b))
            if _isb(a):
                a = ite(a, ONE, ZERO)
            if _isb(b):
                b = ite(b, ONE, ZERO)
            if op == "<":
                return lt(a, b, isint)
            if op == ">":
                return lt(b, a, isint)
            if op == "<=":
                return le(a, b, isint)
            return le(b, a, isint)
        t = e.get("t") or lt_
        if op in ("<<", ">>"):
            t = lt_ if BITS.get(strip_t(lt_), 64) >= 32 else "int"
        v = self.arith(op, a, b, e, t)
        return v if v is not None else self.unk("bin " + op)
    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = self.ev(e["e"])
            if isinstance(x, LV):
                return x.p
            return self.temp(x, "").p
        if op == "*":
            v = self.val(e["e"])
            return self.deref(v, e.get("t", ""))
        if op == "!":
            return NOT(self.cond(e["e"]))
        if op == "-":
            v = self.val(e["e"])
            if self.matlike(v):
                return self.lib.mapmat(v, neg)
            return neg(v)
        if op == "+":
            return self.val(e["e"])
        if op == "~":
            v = self.val(e["e"])
            n = ival(v)
            if n is not None:
                return num(~n)
            return app("bnot", v)
        if op in ("++", "--"):
            L = self.ev(e["e"])
            old = self.load(L)
            oldp = self.eptr(old, L.t or e["e"].get("t", ""))
            st = ONE if op == "++" else num(-1)
            new = self.ptr_add(oldp, st) if self.ptrlike(oldp) else self.narrowed(L.t or e["e"].get("t"), None, add(old, st))
            self.storev(L, new)
            return old if e.get("post") else L
        return self.unk("un " + op)
    def e_cond(self, e):
        c = self.cond(e["c"])
        if c is TRUE:
            return self.ev(e["a"])
        if c is FALSE:
            return self.ev(e["b"])
        ra, rb, la, lb = self.fork(c, lambda: self.ev(e["a"]), lambda: self.ev(e["b"]))
        if ra is None or (not la and lb):
            return rb
        if rb is None or (not lb and la):
            return ra
        return self.join_val(c, ra, rb)
    def e_sub(self, e):
        b = self.ev(e["b"])
        i = self.val(e["i"])
        t = self.etype(e["b"])
        if isinstance(b, LV) and strip_t(t).endswith("]"):
            return LV(self.ext(b.p, ("i", i)), elem_type(t))
        v = self.eptr(self.rv(b), t if strip_t(t).endswith("*") else "x*")
        return LV(self.ptr_add(v, i), elem_type(t))
    def e_lambda(self, e):
        env = {}
        this = None
        for c in e.get("caps", []):
            if c.get("this"):
                this = self.frames[-1].this
                continue
            if c.get("init") is not None and c.get("init", {}).get("k") != "var":
                v = self.ev(c["init"])
                lv = v if (c.get("ref") and isinstance(v, LV)) else self.temp(self.rv(v), c.get("t", ""))
            elif c["id"] in self.frames[-1].env:
                lv = self.frames[-1].env[c["id"]]
                if not c.get("ref"):
                    lv = self.temp(self.load(lv), lv.t, "cap")
            elif c.get("init") is not None:
                v = self.ev(c["init"])
                lv = v if (c.get("ref") and isinstance(v, LV)) else self.temp(self.rv(v), c.get("t", ""))
            else:
                continue
            env[c["id"]] = lv
        self.nroot += 1
        cl = mk("closure", self.nroot)
        self.closures[self.nroot] = (e, env, this)
        return cl
    def call_closure(self, cl, args, node=None):
        """args: list of LV/T/expr dicts"""
        if cl.op == "ite":
            c = atomb(cl.args[0])
            ra, rb, _, _ = self.fork(c, lambda: self.call_closure(cl.args[1], args, node), lambda: self.call_closure(cl.args[2], args, node))
            return self.join_val(c, ra, rb)
        if cl.op != "closure":
            return None
        e, env, this = self.closures[cl.args[0]]
        fn = None
        f = (node or {}).get("f")
        if isinstance(f, dict) and f.get("fn") is not None:
            fn = self.prog.fns.get((self.tu, f["fn"]))
        if fn is None:
            fn = e.get("def")
        if fn is None:
            return None
        for fr in self.frames:
            if fr.fn is fn:
                return None
        return self.inline(fn, args, this, node, env)
    def e_copy(self, e):
        v = self.rv(self.ev(e["e"]))
        return adapt(v, e.get("t", ""))
    def e_zero(self, e):
        t = e.get("t", "")
        y = ty(t)
        if y.k in ("int", "float"):
            return ZERO if strip_t(t) != "bool" else FALSE
        if y.k == "ptr":
            return NULL
        if y.k == "mat":
            return mat(y.r, y.c, [ZERO] * (y.r * y.c))
        if strip_t(t).endswith("]"):
            m = re.search(r"\[(\d+)\]$", strip_t(t))
            return mk("vec", num(int(m.group(1))) if m else UNDEF, fill(ZERO))
        return self.lib.default_value(self, t)
    def e_ctor(self, e):
        if any(x in (e.get("t") or "") for x in ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<")):
            self.frames[-1].lock = True
        fn = self.callee(e)
        if fn is not None:
            r = self.fresh("loc", "obj")
            self.store[r] = self.fresh_obj(e.get("t") or fn.get("clst") or "")
            self.inline(fn, e.get("args", []), P(r), e)
            return LV(P(r), e.get("t", ""))
        return self.lib.ctor(self, e)
    def e_opcall(self, e):
        return self.call_any(e, e["args"][0] if e["f"].get("mem") else None, e["args"][1:] if e["f"].get("mem") else e["args"])
    def e_mcall(self, e):
        return self.call_any(e, e["obj"], e["args"])
    def e_call(self, e):
        if "ce" in e and not isinstance(e.get("f"), dict):
            cv = self.val(e["ce"])
            r = self.call_closure(cv, e["args"], None)
            if r is not None:
                return r
            return self.opaque_call(e, None, e["args"], "indirect")
        return self.call_any(e, None, e["args"])
    def e_unk(self, e):
        return self.unk("expr " + str(e.get("cls")))
    def e_init(self, e):
        t = e.get("t", "")
        st = strip_t(t)
        y = ty(t)
        es = e.get("e", [])
        if st.startswith("std::array<") or st.endswith("]"):
            if len(es) == 1 and es[0].get("k") == "init" and st.startswith("std::array<"):
                return self.ev(dict(es[0], t=targs(st)[0] + "[%s]" % targs(st)[1]))
            m = re.search(r"\[(\d+)\]$", st)
            n = int(m.group(1)) if m else len(es)
            if st.startswith("std::array<"):
                n = int(targs(st)[1])
            et = elem_type(st)
            a = fill(self.rv(self.e_zero({"t": et})))
            for i, x in enumerate(es):
                a = aupd(a, num(i), adapt(self.val(x), et))
            return mk("vec", num(n), a)
        fs = e.get("fs")
        if fs:
            d = {}
            for f, x in zip(fs, es):
                n = f["n"] if isinstance(f, dict) else f
                d[n] = self.val(x)
            return mkrec(mk("newobj", st), d)
        if len(es) == 1:
            return self.ev(es[0])
        if y.k in ("int", "float", "ptr"):
            return self.e_zero(e)
        if not es:
            return self.lib.default_value(self, t)
        return self.unk("init " + st)
    def e_new(self, e):
        r = self.fresh("heap", "new")
        t = e.get("t", "")
        if e.get("e") and e["e"].get("k") == "ctor" and self.callee(e["e"]) is not None:
            self.store[r] = self.fresh_obj(t)
            self.construct(LV(P(r), t), e["e"])
        else:
            self.store[r] = self.rv(self.ev(e["e"])) if e.get("e") else UNDEF
        self.event("new", strip_t(e.get("t", "")))
        return P(r)
    def e_delete(self, e):
        self.event("delete", "delete", (self.val(e["e"]),))
        return mk("void")
    def e_throw(self, e):
        if e.get("e"):
            self.ev(e["e"])
        self.event("throw", "throw")
        self.pc = FALSE
        return UNDEF
    def e_fnref(self, e):
        return mk("fnptr", e.get("f", {}).get("qn", "?") if isinstance(e.get("f"), dict) else str(e.get("qn")))

    # -------------------------------------------------------------- calls
    def call_any(self, e, obj, args):
        f = e["f"]
        if self.alias and obj is None:
            al = self.alias.get(qbase(f.get("qn", "")).split("::")[-1])
            if al and al.startswith("rec:"):
                # a recursive call, by the induction hypothesis
                al = al[4:] if self.recursive(e) else None
            if al:
                # a function decided elsewhere to meet the contract of a library algorithm
                f = dict(f, qn=al, fn=None)
                e = dict(e, f=f)
        # closures
        if obj is not None and qbase(f.get("qn", "")).endswith("operator()"):
            o = self.ev(obj)
            ov = self.rv(o) if not isinstance(o, LV) else self.load(o, False)
            if ov.op == "closure" or (ov.op == "ite" and all(l.op == "closure" for l in leafset(ov))):
                r = self.call_closure(ov, args, e)
                if r is not None:
                    return r
            return self.call_obj(e, o, args)
        if obj is not None:
            o = self.ev(obj)
            if e.get("arrow"):
                p = self.rv(o)
                o = LV(self.deref_this(p, obj), e.get("ot", ""))
            return self.call_obj(e, o, args)
        fn = self.callee(e)
        if fn is not None:
            return self.inline(fn, args, None, e)
        r = self.lib.call(self, e, args)
        if r is not None:
            return r
        return self.opaque_call(e, None, args)
    def call_obj(self, e, o, args):
        f = e["f"]
        fn = self.callee(e)
        if fn is not None:
            if isinstance(o, Comma):
                o = o.lv
            if not isinstance(o, LV):
                if o.op in ("ptr",) and False:
                    pass
                o = self.temp(o, e.get("ot", "")) if o.op != "ptr" or e["k"] != "mcall" else self.thisptr(o, e)
            return self.inline(fn, args, o.p, e)
        r = self.lib.method(self, e, o, args)
        if r is not None:
            return r
        if not isinstance(o, (LV, Comma)):
            o = self.thisptr(o, e) if o.op == "ptr" and e["k"] == "mcall" else self.temp(o, e.get("ot", ""))
        return self.opaque_call(e, o, args)
    def thisptr(self, o, e):
        return LV(o, e.get("ot", ""))

    def arg_kind(self, f, i):
        pk = f.get("pk") or []
        return pk[i] if i < len(pk) else "v"
    def opaque_call(self, e, obj, args, name=None):
        """unknown function: result and outputs are uninterpreted functions of the inputs"""
        rec = name is None and self.recursive(e)
        if rec:
            self.in_rec += 1
        try:
            return self.opaque_call1(e, obj, args, name)
        finally:
            if rec:
                self.in_rec -= 1
    def opaque_call1(self, e, obj, args, name=None):
        f = e.get("f") if isinstance(e.get("f"), dict) else {}
        q = name or qbase(f.get("qn", "?"))
        if name is None and self.recursive(e):
            # recursion: the callee is a function already being analysed, whatever its name
            self.rec_names = getattr(self, "rec_names", {})
            q = self.rec_names.setdefault(f.get("fn"), "@rec%d" % len(self.rec_names))
        short = q
        pure = self.pure_out.get(q) or self.pure_out.get(q.split("::")[-1]) or ()
        ins, outs = [], []      # outs: (position, LV)
        kept = None
        aptr = []
        pos = 0
        lvs = []
        if obj is not None:
            if isinstance(obj, Comma):
                obj = obj.lv
            lvs.append((obj, "cr" if f.get("const") else "r", obj.t))
        for i, a in enumerate(args):
            kd = self.arg_kind(f, i)
            x = a if isinstance(a, (LV, T)) else self.ev(a)
            if isinstance(x, Comma):
                x = x.lv
            lvs.append((x, kd, a.get("t", "") if isinstance(a, dict) else ""))
        if q.startswith("@rec"):
            # independent of how the recursive function orders its parameters
            lvs.sort(key=lambda v: strip_t(v[0].t if isinstance(v[0], LV) and v[0].t else v[2]))
        for n, (x, kd, t) in enumerate(lvs):
            idx = n - (1 if obj is not None else 0)
            if isinstance(x, LV) and kd in ("r", "rr", "cr", "cp"):
                aptr.append(x.p)
                v = self.load(x)
                if n == 0 and obj is not None:
                    own = self.base_call(e, q, x)
                    if own:
                        v, kept = lift1(lambda y: self.as_base(y, own), v), {f: fld_raw(v, f) for f in own}
                if kd == "r" or (kd == "rr" and False):
                    outs.append((n, x, False))
                    if idx in pure:
                        v = mk("outonly")
                ins.append(v)
            else:
                v = self.rv(x)
                aptr.append(v)
                if self.ptrlike(v) or (ty(t).k == "ptr" and kd == "p" and v is not NULL):
                    # pointer argument: the callee may read and write what it points to
                    pt = elem_type(t) if t else ""
                    lv = self.deref(v, pt) if strip_t(t).endswith("*") else self.deref_smart(v, ty(t).s)
                    log, self.log = self.log, (lambda *a, **k: None) if idx in pure and short.split("::")[-1] in self.extent else self.log
                    pv = self.ptr_in(lv)
                    self.log = log
                    const_ptr = strip_t(t).endswith("*") and pt.startswith("const ") or ty(t).s.startswith("const ")
                    if idx in pure:
                        pv = mk("outonly")
                    ins.append(pv)
                    if not const_ptr:
                        outs.append((n, lv, True))
                else:
                    ins.append(v)
        ta = f.get("ta")
        hide = self.hide.get(q) or self.hide.get(q.split("::")[-1])
        if hide:
            ins = [mk("outonly") if n in hide else x for n, x in enumerate(ins)]
        call = mk("app", short, *ins)
        ev = self.event("call", q, ins, call, obj, e, tuple(aptr))
        if e.get("f", {}).get("noreturn") if isinstance(e.get("f"), dict) else False:
            self.pc = FALSE
        for n, lv, byptr in outs:
            val = mk("out", call, n)
            if n == 0 and kept:
                val = mkrec(val, kept)
            self.span = self.extent[short.split("::")[-1]](ins) if byptr and short.split("::")[-1] in self.extent else None
            self.write_out(lv, val, byptr)
            self.span = None
        t = e.get("t", "")
        if strip_t(t) == "void":
            return mk("void")
        if t.rstrip().endswith("&"):
            r = mk("root", "mem", call)
            return LV(P(r), t)
        if strip_t(t) == "bool":
            return asbool(call)
        return adapt(call, t)
    def base_call(self, e, q, x):
        """call of a member function of a base class: the members of the derived class, which it leaves alone"""
        cls = q.rsplit("::", 1)[0]
        for t in (x.t, self.frames[-1].fn.get("clst") if self.frames else None):
            t = strip_t(t or "")
            rec = self.prog.records.get(t[6:] if t.startswith("const ") else t)
            if rec and cls in (rec.get("bases") or ()):
                own = TT.OWN_FIELDS[q] = frozenset(f["n"] for f in rec["fields"])
                return own
        return ()
    def as_base(self, v, own):
        if v.op == "rec":
            return mkrec(v.args[0], {k: w for k, w in v.args[1] if k not in own})
        return v
    def ptr_in(self, lv):
        def f(p):
            if p.op == "ptr":
                root, path = p.args
                # pointer to the first element: the whole array is visible
                v = self.get(root)
                q = path
                if q and q[-1][0] == "i":
                    for x in q[:-1]:
                        v = self.project(v, x)
                    self.log(False, root, q[:-1])
                    if root.args[0] == "mem" and q[-1][1] is ZERO:
                        return v
                    return mk("from", v, q[-1][1])
                for x in q:
                    v = self.project(v, x)
                self.log(False, root, q)
                return adapt(v, lv.t)
            return p
        return lift1(f, lv.p)
    def write_out(self, lv, val, byptr=False):
        def wr(p, c):
            if p.op == "ite":
                wr(p.args[1], AND(c, atomb(p.args[0])))
                wr(p.args[2], AND(c, NOT(atomb(p.args[0]))))
                return
            if p.op != "ptr":
                return
            root, path = p.args
            if byptr and path and path[-1][0] == "i":
                # array behind a pointer: everything from the index on may change
                self.log(True, root, path[:-1] + (("i", mk("any", path[-1][1])) if self.span is None else ("i", path[-1][1]) if self.span is ONE else ("rng", path[-1][1], add(path[-1][1], self.span)),))
                old = self.get(root)
                v = old
                for x in path[:-1]:
                    v = self.project(v, x)
                if v.op == "vec" or (path[:-1] == () and root.args[0] == "mem"):
                    nv = mk("vec", size_of(v), val if v.op == "vec" else mk("arr", val)) if v.op == "vec" else val
                else:
                    nv = mk("vec", size_of(v), mk("arr", val))
                new = self.update(old, path[:-1], nv)
                self.store[root] = ite(c, *unify(new, old)) if c is not TRUE else new
                return
            self.log(True, root, path, val)
            old = self.get(root)
            new = self.update(old, path, adapt(val, lv.t))
            for q in self.ref_fields(lv.t):
                # a reference member cannot be rebound
                v = old
                for x in path + q:
                    v = self.project(v, x)
                if all(l.op == "ptr" for l in leafset(v)):
                    new = self.update(new, path + q, v)
            self.store[root] = ite(c, *unify(new, old)) if c is not TRUE else new
        wr(lv.p, TRUE)
    def ref_fields(self, t, depth=0):
        r = strip_t(t or "")
        if r.startswith("const "):
            r = r[6:]
        rec = self.prog.records.get(r)
        out = []
        for x in (rec or {}).get("fields") or []:
            if x["t"].rstrip().endswith("&"):
                out.append((("f", x["n"]),))
            elif depth < 3:
                out += [(("f", x["n"]),) + q for q in self.ref_fields(x["t"], depth + 1)]
        return out

def _isb(t):
    return t.op == "bool" or (t.op == "ite" and all(l.op == "bool" for l in leafset(t)))

def merge_leaves(t, f):
    """decision diagram with its leaves mapped, aggregates merged component-wise"""
    if t.op == "ite":
        return ite(atomb(t.args[0]), *unify(merge_leaves(t.args[1], f), merge_leaves(t.args[2], f)))
    return f(t)

def covers(a, b):
    return a[0] is b[0] and b[1][:len(a[1])] == a[1]

def loc_in_cond(header, s0, loc, ip, leaves_):
    return False

def tuple_field(t, i):
    st = strip_t(t)
    if st.startswith("std::pair<"):
        return "first" if i == 0 else "second"
    return "t%d" % i

def ceildiv(a, b):
    if b is ONE:
        return a
    return mk("app", "ceildiv", a, b)
def floordiv(a, b):
    if b is ONE:
        return a
    return mk("app", "floordiv", a, b)

from . import lib as _lib
Interp.lib = _lib
