"""pybind11 registrations: the table (Python name, function, argument names) read from the syntax tree."""
import re
from . import interp as I
from .check import walk

DEFS = ("def", "def_static", "def_property_readonly", "def_property", "def_readonly", "def_readwrite", "def_property_readonly_static")

class Binding:
    pass

def strlit(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "copy", "ctor") and (n.get("e") or n.get("args")):
        n = n.get("e") or n["args"][0]
    if isinstance(n, dict) and n.get("k") == "lit" and n.get("lt") == "s":
        return n["v"]
    return None

def target(prog, f, n, depth=0):
    """the function a registration's argument denotes: ('fn', fn) / ('member', qualified name) / None"""
    if not isinstance(n, dict) or depth > 8:
        return None
    k = n.get("k")
    if k == "lambda":
        d = n.get("def")
        if d is None:
            return None
        d = dict(d, _tu=f["_tu"])
        d["_caps"] = n.get("caps") or []
        return ("fn", d)
    if k == "fnref":
        fr = n.get("f") or {}
        if fr.get("fn") is not None and (f["_tu"], fr["fn"]) in prog.fns:
            g = prog.fns[(f["_tu"], fr["fn"])]
            if g.get("mem") and not g.get("static"):
                return ("member", fr.get("qn", "?"))
            return ("fn", g)
        return ("member", fr.get("qn", "?"))
    if k == "var":
        for d in walk(f["body"]):
            if d.get("id") == n.get("id") and d.get("init") is not None:
                return target(prog, f, d["init"], depth + 1)
        return None
    if k == "un" and n.get("op") == "&":
        e = n.get("e") or {}
        if e.get("k") == "mem":
            return ("member", "%s::%s" % (e.get("cls", ""), e.get("f")))
        if e.get("k") == "var":
            return ("member", e.get("qn") or e.get("n"))
        return target(prog, f, e, depth + 1)
    for key in ("e", "args"):
        x = n.get(key)
        if isinstance(x, list):
            x = x[0] if len(x) == 1 else None
        if isinstance(x, dict):
            return target(prog, f, x, depth + 1)
    return None

def argname(n):
    """(name, default) of a py::arg expression"""
    if not isinstance(n, dict):
        return None
    if n.get("k") == "asg" and "pybind11::arg" in str((n.get("f") or {}).get("qn")):
        a = argname(n["L"])
        return (a[0], n["R"]) if a else None
    if n.get("k") in ("opcall", "mcall") and "pybind11::arg" in str((n.get("f") or {}).get("qn")):
        a = argname(n.get("obj") or n["args"][0])
        return (a[0], n["args"][-1]) if a else None
    if n.get("k") in ("call", "mcall", "opcall") and str((n.get("f") or {}).get("qn", "")).startswith("pybind11::literals::"):
        s = strlit(n["args"][0])
        return (s, None) if s is not None else None
    if n.get("k") == "ctor" and I.strip_t(n.get("t", "")) in ("pybind11::arg", "pybind11::arg_v"):
        if len(n["args"]) == 1:
            a = argname(n["args"][0])
            if a:
                return a
        s = strlit(n["args"][0])
        return (s, n["args"][1] if len(n["args"]) > 1 else None) if s is not None else None
    for key in ("e", "args"):
        x = n.get(key)
        if isinstance(x, list):
            x = x[0] if len(x) == 1 else None
        if isinstance(x, dict) and n.get("k") in ("copy", "cast", "ctor"):
            return argname(x)
    return None

def bindings(prog):
    out = []
    for q, fs in sorted(prog.byq.items()):
        for f in fs:
            if f.get("body") is None or "/src/python/" not in f.get("file", ""):
                continue
            for n in walk(f["body"]):
                if n.get("k") != "mcall" or n.get("n") not in DEFS or not n.get("args"):
                    continue
                if not str((n.get("f") or {}).get("qn", "")).startswith("pybind11::"):
                    continue
                b = Binding()
                b.kind, b.inside, b.line, b.file = n["n"], f, n.get("l"), f.get("file", "")
                a0 = n["args"][0]
                b.name = strlit(a0)
                rest = n["args"][1:]
                if b.name is None:
                    # py::init(...)
                    x = a0
                    while isinstance(x, dict) and x.get("k") in ("copy", "cast") and x.get("e"):
                        x = x["e"]
                    if x.get("k") == "call" and x.get("n") == "init":
                        b.name = "__init__"
                        b.target = target(prog, f, x["args"][0]) if x.get("args") else ("init", x.get("t"))
                    else:
                        continue
                else:
                    b.target = target(prog, f, rest[0]) if rest else None
                    rest = rest[1:]
                b.args = [argname(x) for x in rest]
                b.args = [a for a in b.args if a]
                b.doc = next((strlit(x) for x in rest if argname(x) is None and strlit(x) is not None), None)
                out.append(b)
    return out
