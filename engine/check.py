"""Driver: extraction of the current /repo sources, obligations, evidence, verdict."""
import json, os, subprocess, sys, time, hashlib, traceback, gc
from . import terms as TT
from .terms import *
from . import interp as I
from .interp import Program, Interp, TooBig, Undecided
from . import equiv as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BUILD = os.path.join(VERIF, "build")
EVID = os.environ.get("VP_EVID", os.path.join(VERIF, "evidence"))
INC = ["-I%s/harness/stub" % VERIF, "-I%s/include" % REPO, "-I/usr/include/eigen3", "-I/usr/include/pcl-1.14", "-idirafter", REPO]
PY = ["-I/usr/include/python3.12"]
TUS = {
    "core": ("%s/harness/h_core.cpp" % VERIF, []),
    "pcl": ("%s/harness/h_pcl.cpp" % VERIF, []),
    "helper": ("%s/harness/h_helper.cpp" % VERIF, []),
    "py": ("%s/harness/h_py.cpp" % VERIF, PY),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_extractor():
    src = os.path.join(VERIF, "tool/extract.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = sh([LLVM + "/bin/clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
            LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"])
    if r.returncode:
        print(r.stdout)
        raise SystemExit(2)
    os.rename(tmp, out)
    return out

def extract(names):
    """extract the named translation units from the current sources, in parallel"""
    ext = build_extractor()
    d = os.path.join(BUILD, "x%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    ps = []
    for n in names:
        src, extra = TUS[n]
        out = os.path.join(d, n + ".json")
        cmd = [ext, out, REPO + "," + VERIF, src, "--", "-resource-dir", LLVM + "/lib/clang/18", "-std=c++17", "-fno-access-control",
               "-fopenmp", "-w", "-ferror-limit=0"] + INC + extra
        ps.append((n, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res, diags = {}, {}
    for n, out, p in ps:
        log, _ = p.communicate()
        diags[n] = [l for l in log.splitlines() if "error:" in l]
        if not os.path.exists(out):
            print("extraction of %s failed:\n%s" % (n, log[-3000:]))
            raise SystemExit(2)
        gc.disable()
        res[n] = json.load(open(out))
        gc.enable()
        os.unlink(out)
    try:
        os.rmdir(d)
    except OSError:
        pass
    return res, diags

PURE_OUT = {"vp::Factor::linearize": (6, 7, 8), "nearest_neighbor_search": (2, 3), "knn_search": ()}

class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.items = []            # (status, rule, where, text, key)
        self.progs = {}
        self.analysed = {}         # function -> file:line
        self.rules = []
        self.counts = {}
        self.assumptions = []
        self.diags = {}
        self.thorough = tier == "thorough"
        self.seeds = 200 if self.thorough else 48
    # -- programs
    def load(self, *names):
        need = [n for n in names if n not in self.progs]
        if need:
            js, dg = extract(need)
            for n in need:
                self.progs[n] = Program(js[n])
                self.diags.update({n: dg[n]})
                for e in dg[n][:20]:
                    print("note: front end: %s" % e)
        return [self.progs[n] for n in names]
    def prog(self, n="core"):
        return self.load(n)[0]
    # -- verdicts
    def add(self, status, rule, where, text, key=None):
        self.items.append((status, rule, where, text, key or ("%s|%s|%s" % (rule, where.split(" ")[0], text.split(" — ")[0]))))
    def ok(self, rule, where, text=""):
        self.add("proven", rule, where, text)
    def bad(self, rule, where, text, key=None):
        self.add("violation", rule, where, text, key)
    def maybe(self, rule, where, text):
        self.add("undecided", rule, where, text)
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})
    def floor(self, what, n):
        if self.counts.get(what, 0) < n:
            self.add("broken", "coverage", what, "only %d instances of '%s' analysed, expected at least %d" % (self.counts.get(what, 0), what, n))
    def fnname(self, f):
        return "%s (%s:%s)" % (I.qbase(f["qn"]), f.get("file", "").replace(REPO + "/", ""), f.get("l"))
    # -- repo functions reached from a harness wrapper
    def callees(self, prog, f, repo_only=True, limit=400):
        out, seen, todo = [], set(), [f]
        while todo and len(seen) < limit:
            g = todo.pop(0)
            for x in walk_calls(g):
                h = prog.fns.get((g["_tu"], x))
                if h is None or id(h) in seen:
                    continue
                seen.add(id(h))
                if h.get("file", "").startswith(REPO + "/"):
                    out.append(h)
                todo.append(h)
        return out
    # -- specification twins
    def pair(self, name, tu="core", rule="summary equals specification", opaque=(), pure_out=None, watch=(), observe=None, ret=True,
             final=True, events=True, ns=("vpw", "vps"), key=None, only=None, alias=None, tvec=None, fns=None, args=(None, None), fresh=(), hide=None):
        prog = self.prog(tu)
        fs = list(fns or [])
        for n in ns if not fs else ():
            c = prog.byq.get(n + "::" + name, [])
            c = [f for f in c if f.get("body") is not None]
            if len(c) != 1:
                self.add("broken", rule, name, "harness function %s::%s not available (%d)" % (n, name, len(c)))
                return None
            fs.append(c[0])
        cal = self.callees(prog, fs[0])
        if fns:
            cal.insert(0, fs[0])
        w = cal[0] if cal else fs[0]
        where = self.fnname(w)
        po = dict(PURE_OUT)
        po.update(pure_out or {})
        res = []
        try:
            for f, am in zip(fs, args):
                ip = Interp(prog, opaque=opaque, pure_out=po)
                if alias:
                    ip.alias = alias
                if hide:
                    ip.hide = hide
                res.append(ip.run(f, args=am))
            c = E.Compare(res[0], res[1], watch=watch, seeds=self.seeds, ret=ret, final=final, events=events, only=only)
            c.must = set(opaque)
            c.newfns = frozenset(fresh)
            c.tfs = frozenset(sym("a%d" % i) for i, p in enumerate(fs[0]["params"]) if "Eigen::Transform<" in p.get("t", "") + p.get("ct", ""))
            c = c.run()
        except (TooBig, Undecided, RecursionError, E.NoEval) as ex:
            self.maybe(rule, where, "%s: analysis gave up: %r" % (name, ex))
            return None
        except Exception as ex:
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.maybe(rule, where, "%s: analysis failed: %r at %s" % (name, ex, [(x.name, x.lineno) for x in tb[-2:]]))
            return None
        self.count("specified operations")
        for h in cal:
            if not any(fr is None for fr in ()):
                self.analysed.setdefault(I.qbase(h["qn"]), "%s:%s" % (h["file"].replace(REPO + "/", ""), h["l"]))
        for o in c.obs:
            if observe is not None and not observe(o.what):
                continue
            self.count("observables compared")
            txt = "%s: %s" % (name, o.text())
            loc = where
            if o.line and cal and not any(str(h.get("l")) == str(o.line) for h in cal[:1]):
                loc = where + " line %s" % o.line
            if o.status == "proven":
                self.add("proven", rule, loc, "%s: %s" % (name, o.what))
            elif o.status == "equal":
                self.add("equal", rule, loc, txt)
            elif o.status == "differs":
                self.bad(rule, loc, txt, key="%s|%s|%s" % (rule, name, o.what))
            else:
                self.maybe(rule, loc, txt)
        return c
    # -- summaries for rules
    def summary(self, name, tu="core", opaque=(), pure_out=None, ns="vpw", rule="summary"):
        """(value summary of the harness function, the repository function it calls)"""
        prog = self.prog(tu)
        fs = [f for f in prog.byq.get(ns + "::" + name, []) if f.get("body") is not None]
        if len(fs) != 1:
            self.add("broken", rule, name, "harness function %s::%s not available (%d)" % (ns, name, len(fs)))
            return None, None
        cal = self.callees(prog, fs[0])
        for h in cal:
            self.analysed.setdefault(I.qbase(h["qn"]), "%s:%s" % (h["file"].replace(REPO + "/", ""), h["l"]))
        where = self.fnname(cal[0] if cal else fs[0])
        po = dict(PURE_OUT)
        po.update(pure_out or {})
        try:
            return Interp(prog, opaque=opaque, pure_out=po).run(fs[0]), where
        except Exception as ex:
            self.maybe(rule, where, "%s: analysis gave up: %r" % (name, ex))
            return None, where
    def final(self, r, i, *fields):
        """final value of (a member of) the object passed by reference as parameter i"""
        v = None
        for root, x in r.store.items():
            if root.op == "root" and root.args[0] == "par" and show(root.args[1], 2) == "a%d" % i:
                v = x
        for f in fields:
            if v is not None:
                v = lift1(lambda y: TT._fld1(y, f), v)
        return v
    # -- result
    def finish(self, level="other"):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get("property") == self.id and k.get("status", "open") == "open"]
        viol, kn = [], []
        for it in self.items:
            if it[0] == "violation":
                m = [k for k in known if k["key"] == it[4]]
                (kn if m else viol).append((it, m))
        broken = [it for it in self.items if it[0] == "broken"]
        if broken and (any(self.diags.values()) or any(it[0] == "undecided" for it in self.items)):
            # part of the code could not be analysed (reported as such): the coverage floors say nothing then
            self.items = [("undecided",) + it[1:] if it[0] == "broken" else it for it in self.items]
            broken = []
        st = {}
        for it in self.items:
            st[it[0]] = st.get(it[0], 0) + 1
        os.makedirs(EVID, exist_ok=True)
        obligations = len([i for i in self.items if i[0] != "broken"])
        discharged = st.get("proven", 0) + st.get("equal", 0)
        samples = [{"status": i[0], "rule": i[1], "where": i[2], "obligation": i[3][:300]} for i in self.items[:: max(1, len(self.items) // 12)]][:14]
        und = [{"rule": i[1], "where": i[2], "obligation": i[3][:400]} for i in self.items if i[0] == "undecided"][:40]
        eq = [{"rule": i[1], "where": i[2], "obligation": i[3][:300]} for i in self.items if i[0] == "equal"][:20]
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "explanation": "Static analysis of the sources in /repo as they are now; nothing of small_gicp is executed. Obligations are decided "
                               "from the type-checked syntax trees (clang 18) by forward dataflow to canonical value terms and by the rules listed.",
                "rules": self.rules,
                "obligations": obligations,
                "discharged": discharged,
                "discharged_by_normal_form_or_rule": st.get("proven", 0),
                "discharged_by_random_interpretation_of_terms": st.get("equal", 0),
                "undecided": st.get("undecided", 0),
                "counts": self.counts,
                "functions_analysed": len(self.analysed),
                "analysed": dict(sorted(self.analysed.items())[:200]),
                "samples": samples,
                "undecided_obligations": und,
                "random_interpretation_obligations": eq,
                "front_end_errors": {k: v[:10] for k, v in self.diags.items() if v},
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        json.dump(ev, open(os.path.join(EVID, self.id + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged (%d by random interpretation), %d undecided; %d functions; %s; %.1fs" % (
            self.id, obligations, discharged, st.get("equal", 0), st.get("undecided", 0), len(self.analysed), self.counts, time.time() - self.t0))
        for i in self.items:
            if i[0] == "undecided":
                print("undecided: [%s] %s: %s" % (i[1], i[2], i[3][:260]))
        for it, m in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.id, m[0]["text"]))
        if viol:
            rp = os.path.join(EVID, self.id + ".replay.json")
            json.dump([{"rule": it[1], "where": it[2], "what": it[3], "key": it[4]} for it, _ in viol], open(rp, "w"), indent=1)
            for it, _ in viol[:30]:
                print("violated: [%s] %s: %s" % (it[1], it[2], it[3][:600]))
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            return 1
        if broken:
            for it in broken:
                print("broken check: [%s] %s: %s" % (it[1], it[2], it[3]))
            return 2
        return 0

def walk(x):
    """all nodes of a function body"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(reversed([v for k, v in y.items() if isinstance(v, (dict, list))]))
        elif isinstance(y, list):
            st.extend(reversed([v for v in y if isinstance(v, (dict, list))]))

def walk_calls(f):
    """ids of the functions referenced by a function, in order"""
    out = []
    for part in ("inits", "body"):
        if f.get(part) is None:
            continue
        for n in walk(f[part]):
            if isinstance(n.get("f"), dict) and n["f"].get("fn") is not None:
                out.append(n["f"]["fn"])
            elif n.get("fn") is not None and isinstance(n.get("fn"), (int, str)) and "qn" in n:
                out.append(n["fn"])
    return out

CHECKS = {}
def check(pid, level="other"):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco

def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    sys.path.insert(0, VERIF)
    for m in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if m.endswith(".py") and not m.startswith("_"):
            importlib.import_module("checks." + m[:-3])
    fn, level = CHECKS[pid]
    c = Ctx(pid, tier, seed)
    try:
        fn(c)
    except Exception as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        c.maybe("analysis", pid, "the check gave up: %r at %s" % (ex, [(x.name, x.lineno) for x in tb[-3:]]))
    return c.finish(level)
