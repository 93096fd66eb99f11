"""Properties decided over every analysed function of the library: widths of stored quantities,
sources of irreproducibility, definitions that may be included more than once."""
from engine.check import check, walk, REPO
from engine import interp as I

TUS = ("core", "helper", "pcl", "py")

def rel(f):
    return f.replace(REPO + "/", "")

def functions(c, tus=TUS):
    """(tu, function) for every function of the repository with a body; instantiations of a template count separately"""
    for tu in tus:
        p = c.prog(tu)
        for q, fs in sorted(p.byq.items()):
            for f in fs:
                if f.get("body") is not None and f.get("file", "").startswith(REPO + "/"):
                    yield tu, p, f

def nodes(f):
    for part in ("inits", "body"):
        if f.get(part) is not None:
            yield from walk(f[part])

def literal(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "copy") and e.get("e"):
        e = e["e"]
    return isinstance(e, dict) and (e.get("k") == "lit" or (e.get("k") == "un" and literal(e.get("e"))))

def masked(e):
    """x & constant, x % constant, a comparison"""
    while isinstance(e, dict) and e.get("k") in ("cast", "copy") and e.get("e"):
        e = e["e"]
    return isinstance(e, dict) and e.get("k") == "bin" and (e.get("op") in ("<", ">", "<=", ">=", "==", "!=", "&&", "||") or e.get("op") in ("&", "%") and (literal(e.get("R")) or literal(e.get("L"))))

def describe(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "copy") and e.get("e"):
        e = e["e"]
    if not isinstance(e, dict):
        return "a value"
    n = e.get("n") or (e.get("f") if isinstance(e.get("f"), str) else (e.get("f") or {}).get("n") or (e.get("f") or {}).get("qn")) if e.get("k") in ("var", "mem", "call", "mcall", "opcall") else None
    return str(n) if n else "the result of an expression"

NARROW = {t for t, b in I.BITS.items() if 1 < b < 32}

def losses(f):
    """(line, text, certain) for every stored value that loses digits"""
    for x in nodes(f):
        k = x.get("k")
        if k == "cast":
            a, b = I.strip_t(x.get("ft", "")), I.strip_t(x.get("t", ""))
            if literal(x.get("e")):
                continue
            if x.get("ck") == "f2f" and b == "float" and a in ("double", "long double"):
                yield x.get("l"), "%s is rounded from %s to float" % (describe(x["e"]), a), True
            elif x.get("ck") == "i2i" and b in NARROW and I.BITS.get(a, 0) > I.BITS[b] and not masked(x["e"]):
                yield x.get("l"), "%s is cut from %s to %s" % (describe(x["e"]), a, b), I.BITS[a] >= 64
            elif x.get("ck") == "f2i" and b in NARROW:
                yield x.get("l"), "%s is cut from %s to %s" % (describe(x["e"]), a, b), True
        elif k == "asg" and x.get("op") not in ("", None, "=", "&=", "%=", "&", "%") and isinstance(x.get("L"), dict):
            a, b = I.strip_t(x["R"].get("t", "") if isinstance(x.get("R"), dict) else ""), I.strip_t(x["L"].get("t", ""))
            if b == "float" and a in ("double", "long double") and not literal(x["R"]):
                yield x.get("l"), "%s accumulates %s values in a float" % (describe(x["L"]), a), True
            elif b in NARROW and x.get("op", "")[:1] in "+-*":
                yield x.get("l"), "%s accumulates in a %s" % (describe(x["L"]), b), I.BITS.get(a, 0) >= 64
        elif k == "un" and x.get("op") in ("++", "--") and isinstance(x.get("e"), dict):
            b = I.strip_t(x["e"].get("t", ""))
            if b in NARROW:
                yield x.get("l"), "%s counts in a %s" % (describe(x["e"]), b), x["e"].get("k") == "mem"
        elif k in ("mcall", "call") and isinstance(x.get("f"), dict) and I.qbase(x["f"].get("qn", "")).endswith("::cast"):
            ta = [str(y) for y in x["f"].get("ta") or []]
            if ta and ta[0] in ("float",) and "double" in str(x["f"].get("cta") or x["f"].get("qn")):
                yield x.get("l"), "a matrix is rounded from double to float", None

# where single precision is the representation itself: PCL's point types and its registration interface
FLOAT_BOUNDARY = ("include/small_gicp/pcl/", "include/small_gicp/benchmark/")

@check("C38")
def c38(c):
    rule = "no loss of width"
    c.rule(rule, "In every function of the library (and of every instantiation that is analysed) no computed value is converted from double to float, or from a wider integer type to one of fewer than 32 bits, "
                 "when it is initialised, assigned, accumulated, counted, passed or returned. Constants, masked values and the PCL boundary (whose point types are float) are exempt.")
    seen, bad = set(), set()
    for tu, p, f in functions(c):
        c.count("functions")
        c.analysed.setdefault(I.qbase(f["qn"]), "%s:%s" % (rel(f["file"]), f["l"]))
        edge = rel(f["file"]).startswith(FLOAT_BOUNDARY)
        n0 = len(bad)
        for l, txt, sure in losses(f):
            if edge and ("to float" in txt):
                continue
            k = (rel(f["file"]), l, txt)
            if k in bad:
                n0 = -1
                continue
            bad.add(k)
            where = "%s (%s:%s)" % (I.qbase(f["qn"]), k[0], l)
            if sure is False:
                c.maybe(rule, where, txt)
            else:
                c.bad(rule, where, "the full width is kept — found: %s" % txt, key="width|%s|%s" % (I.qbase(f["qn"]), txt))
        if len(bad) == n0 and (rel(f["file"]), f["l"]) not in seen:
            seen.add((rel(f["file"]), f["l"]))
            c.ok(rule, "%s (%s:%s)" % (I.qbase(f["qn"]), rel(f["file"]), f["l"]), "no stored value loses digits")
    rule2 = "members are wide enough"
    c.rule(rule2, "No data member of a class of the library (PCL's point types excepted) is a float or an integer of fewer than 32 bits.")
    done = set()
    for tu in TUS:
        for t, r in sorted(c.prog(tu).records.items()):
            if not r.get("file", "").startswith(REPO + "/") or rel(r["file"]).startswith(FLOAT_BOUNDARY):
                continue
            for x in r.get("fields", []):
                k = (rel(r["file"]), x.get("l"), x["n"])
                if k in done:
                    continue
                done.add(k)
                b = I.strip_t(x.get("t", ""))
                where = "%s::%s (%s:%s)" % (I.qbase(r.get("qn") or t), x["n"], k[0], k[1])
                if b == "float" or b in NARROW and b != "char":
                    c.bad(rule2, where, "the member is wide enough — found type %s" % b, key="member|" + x["n"])
                else:
                    c.ok(rule2, where, "the member is wide enough")
    c.counts["data members"] = len(done)
    c.floor("data members", 60)
    c.floor("functions", 400)
c38.technique = "static lint over clang's typed syntax tree: every conversion, accumulation and counter of every analysed function"
c38.note = "Decided for all functions of the library that the harness instantiates; 64-to-32-bit conversions of sizes and indices are outside the property (the library limits clouds to 2^32 points)."

# what an operation may not take in
ENTROPY = ("rand", "srand", "random", "drand48", "rand_r", "time", "clock", "gettimeofday", "clock_gettime", "getpid", "getenv", "secure_getenv", "gethostname", "pthread_self", "sched_getcpu",
           "std::rand", "std::time", "std::clock", "std::getenv", "std::this_thread::get_id", "std::thread::hardware_concurrency", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now",
           "omp_get_wtime", "omp_get_max_threads", "omp_get_num_procs", "omp_get_dynamic", "std::random_device::operator()", "std::random_device::random_device", "_ZNSt13random_device9_M_getvalEv",
           "std::thread::get_id", "std::shuffle_order_engine", "tbb::detail::d1::this_task_arena::max_concurrency")

def is_entropy(q):
    q = I.qbase(q)
    return q in ENTROPY or q.startswith("std::random_device::") or q.endswith(("_clock::now",)) or q.split("::")[-1] in ("hardware_concurrency", "omp_get_wtime", "omp_get_max_threads", "omp_get_num_procs", "max_concurrency", "current_thread_index")

def slot_only(f, call):
    """omp_get_thread_num(): its value selects the element of a container, directly or through one constant local"""
    ids = set()
    for x in nodes(f):
        if x.get("k") == "decl":
            for d in x.get("d") or x.get("vars") or []:
                if isinstance(d, dict) and any(y is call for y in walk(d)):
                    ids.add(d.get("id"))
    return ids

@check("C39")
def c39(c):
    rule = "no outside input"
    rule2 = "no lasting state"
    c.rule(rule, "No function of the library calls a source of time, entropy, environment, process or machine configuration; the random sampler draws from the generator it is given.")
    c.rule(rule2, "The library defines no variable that outlives a call and can be modified: no mutable global, static member, thread-local or function-local static.")
    seen = set()
    for tu, p, f in functions(c):
        if rel(f["file"]).startswith("include/small_gicp/benchmark/"):
            continue
        c.count("functions")
        c.analysed.setdefault(I.qbase(f["qn"]), "%s:%s" % (rel(f["file"]), f["l"]))
        good = True
        for x in nodes(f):
            g = x.get("f") if isinstance(x.get("f"), dict) else x if x.get("k") == "fnref" and "qn" in x else None
            q = (g or {}).get("qn") or (g or {}).get("n")
            if x.get("k") in ("ctor", "zero", "decl") and "random_device" in str(x.get("t", "")):
                q = "std::random_device::random_device"
            if not q:
                continue
            c.count("calls") if (tu, f["id"]) not in seen else None
            if is_entropy(q):
                good = False
                c.bad(rule, "%s (%s:%s)" % (I.qbase(f["qn"]), rel(f["file"]), x.get("l") or f["l"]), "the result depends on the arguments alone — found a call of %s" % I.qbase(q), key="entropy|%s|%s" % (I.qbase(f["qn"]), I.qbase(q)))
        if good and (rel(f["file"]), f["l"]) not in seen:
            seen.add((rel(f["file"]), f["l"]))
            c.ok(rule, "%s (%s:%s)" % (I.qbase(f["qn"]), rel(f["file"]), f["l"]), "takes nothing in but its arguments")
    done = set()
    for tu in TUS:
        for g in c.prog(tu).gl:
            if not g.get("file", "").startswith(REPO + "/") or rel(g["file"]).startswith("include/small_gicp/benchmark/"):
                continue
            k = (g["n"], rel(g["file"]), g["l"])
            if k in done:
                continue
            done.add(k)
            c.count("variables that outlive a call")
            where = "%s (%s:%s)" % (g.get("in") or g["n"], k[1], k[2])
            if g.get("cst") or "atomic" in g.get("t", "") and False:
                c.ok(rule2, where, "%s is constant" % g["n"])
            else:
                c.bad(rule2, where, "nothing modifiable outlives a call — found the variable %s of type %s" % (g["n"], g["t"]), key="state|" + g["n"])
        for t, r in sorted(c.prog(tu).records.items()):
            if not r.get("file", "").startswith(REPO + "/") or rel(r["file"]).startswith("include/small_gicp/benchmark/"):
                continue
            for x in r.get("statics") or []:
                k = (x["n"], rel(r["file"]), x.get("l"))
                if k in done:
                    continue
                done.add(k)
                c.count("variables that outlive a call")
                where = "%s::%s (%s:%s)" % (I.qbase(r.get("qn") or t), x["n"], k[1], k[2])
                if x.get("cst"):
                    c.ok(rule2, where, "%s is constant" % x["n"])
                else:
                    c.bad(rule2, where, "nothing modifiable outlives a call — found the static member %s of type %s" % (x["n"], x["t"]), key="state|" + x["n"])
    c.ok(rule2, "%d translation units" % len(TUS), "%d namespace-scope and static variables examined" % len(done))
    c.floor("functions", 400)
c39.technique = "static effect analysis: every call and every variable with static storage of every analysed function"
c39.note = "The benchmark utilities (stopwatches) are outside. Uninitialised reads and the order of floating-point sums in parallel reductions are the subject of other properties."

@check("C40")
def c40(c):
    rule = "definable more than once"
    c.rule(rule, "Every function and variable a header of the library defines at namespace scope (or outside its class), that is visible to other translation units, is a template, inline or constexpr; "
                 "explicit specialisations of function templates and their members count as functions.")
    seen = set()
    for tu, p, f in functions(c):
        file = rel(f["file"])
        if not file.endswith((".hpp", ".h")) or (file, f["l"]) in seen:
            continue
        seen.add((file, f["l"]))
        c.count("functions defined in headers")
        c.analysed.setdefault(I.qbase(f["qn"]), "%s:%s" % (file, f["l"]))
        where = "%s (%s:%s)" % (I.qbase(f["qn"]), file, f["l"])
        if f.get("ext") and not f.get("inl") and not f.get("inst") and not f["qn"].startswith("(lambda)"):
            c.bad(rule, where, "may be defined in several translation units — found a non-inline definition with external linkage", key="odr|" + I.qbase(f["qn"]))
        else:
            c.ok(rule, where, "inline, template or internal")
    for tu in TUS:
        for g in c.prog(tu).gl:
            file = rel(g.get("file", ""))
            if g.get("local") or not g.get("file", "").startswith(REPO + "/") or not file.endswith((".hpp", ".h")) or (file, g["l"], g["n"]) in seen:
                continue
            seen.add((file, g["l"], g["n"]))
            c.count("variables defined in headers")
            if g.get("ext") and g.get("def") and not g.get("inl") and not g.get("inst"):
                c.bad(rule, "%s (%s:%s)" % (g["n"], file, g["l"]), "may be defined in several translation units — found a non-inline variable with external linkage", key="odr|" + g["n"])
            else:
                c.ok(rule, "%s (%s:%s)" % (g["n"], file, g["l"]), "inline, template or internal")
    c.floor("functions defined in headers", 250)
c40.technique = "static lint over clang's typed syntax tree: linkage of every definition in a header"
c40.note = "Covers the headers the harness includes (all of the library except the visualiser-only parts of the benchmark helpers)."
