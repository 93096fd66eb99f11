"""Empty inputs: no element of an empty container is accessed, searches report nothing."""
from engine.check import check, Interp, PURE_OUT, REPO
from engine.terms import *
from engine import interp as I
from engine import equiv as E

def holds_somewhere(g, loops):
    """True: the guard holds for some input (first iteration of constant-trip loops); False: never; None: unknown"""
    if g is FALSE:
        return False
    for L in loops:
        g = subst(g, {L.k: ZERO})
    if g is TRUE:
        return True
    if contains(g, lambda x: x.op in ("lv", "k", "lout", "lexit", "kout", "rb", "re", "unk", "undef", "app", "sel", "mem")):
        return None
    # a condition on scalar arguments alone
    return True if E.separated(g, FALSE) is not None else None

def trips(L):
    n = getattr(L, "n", None)
    return n

def no_missing_elements(c, r, label, rule, key):
    """rule: no access to an element of a container known to be empty"""
    good = True
    done = set()
    for g, what, i, n, file, line, loops in r.oob:
        at = "%s, %s:%s" % (label, str(file).replace(REPO + "/", ""), line)
        h = holds_somewhere(g, loops)
        if h is False or (at, what) in done:
            continue
        done.add((at, what))
        txt = "no element of an empty container is accessed — found %s element %s of a container with %s elements when %s" % (what, show(i, 3), show(n), show(g, 4))
        if h and not any(x.kind == "tbb_range" for x in loops if hasattr(x, "kind")):
            c.bad(rule, at, txt, key="%s|%s|%s" % (key, str(file).split("/")[-1], what))
        else:
            c.maybe(rule, at, txt)
        good = False
    for e in r.events:
        if e.kind == "nullderef" and holds_somewhere(e.guard, e.loops):
            c.bad(rule, "%s, %s:%s" % (label, str(e.file).replace(REPO + "/", ""), e.line), "no null pointer is dereferenced — found a %s through one" % e.name, key="%s|null|%s" % (key, str(e.file).split("/")[-1]))
            good = False
    if good:
        c.ok(rule, label, "no element of an empty container is accessed")
    return good

@check("C18")
def c18(c):
    rule, rule2 = "no missing element", "nothing found in nothing"
    c.rule(rule, "Abstract interpretation of every operation with an empty input (container sizes are the constant 0, everything else — leaf size, thread count, query, k, comparator, key function — is symbolic): "
           "no path forms a reference to, reads or writes an element of a container whose size is 0, or an index outside a container of known size, or goes through a null pointer.")
    c.rule(rule2, "With an empty input the operation returns normally (for searches: for every k >= 1); downsampling and random sampling return an empty cloud, searches report 0, sorts leave the range empty.")
    prog = c.prog("core")
    for q, fs in sorted(prog.byq.items()):
        if not q.startswith("vpw::empty_") or fs[0].get("body") is None:
            continue
        f = fs[0]
        cal = c.callees(prog, f)
        label = "%s: %s" % (q[5:], ", ".join(sorted({I.qbase(h["qn"]) for h in cal})) or "?")
        for h in cal:
            c.analysed.setdefault(I.qbase(h["qn"]), "%s:%s" % (h["file"].replace(REPO + "/", ""), h["l"]))
        try:
            r = Interp(prog, pure_out=PURE_OUT).run(f)
        except Exception as ex:
            c.maybe(rule, label, "analysis gave up: %r" % ex)
            continue
        c.count("operations on empty input")
        no_missing_elements(c, r, label, rule, q[5:])
        want = mul(num(3), sym("a0")) if q.endswith("empty_resize") else ZERO
        v = E.retval(r)
        # searches for k >= 1 neighbours
        ki = next((i for i, p in enumerate(f["params"]) if p["n"] == "k"), None)
        v1 = v
        if v is want:
            c.ok(rule2, label, "result is %s" % show(want))
        elif r.notes or contains(v, lambda x: x.op in ("unk", "undef")):
            c.maybe(rule2, label, "result is %s: %s" % (show(want), show(v1, 4)))
        elif E.separated(v, want, assume=[r.pc] if r.pc is not TRUE else ()) is not None and not contains(v, lambda x: x.op in ("lv", "lout", "app", "k")):
            c.bad(rule2, label, "result is %s — found %s" % (show(want), show(v1, 4)), key="result|" + q[5:])
        else:
            c.maybe(rule2, label, "result is %s: %s" % (show(want), show(v1, 4)))
        bad = NOT(r.pc)
        if ki is not None:
            bad = AND(bad, lt(ZERO, sym("a%d" % ki)))
        if bad is FALSE or r.pc is TRUE:
            c.ok(rule2, label, "returns normally")
        elif any(e.kind in ("throw", "abort", "noreturn") for e in r.events) and holds_somewhere(bad, ()):
            c.bad(rule2, label, "returns normally — found an exception or abort when %s" % show(bad, 4), key="return|" + q[5:])
        else:
            c.maybe(rule2, label, "returns normally: %s" % show(bad, 4))
    c.floor("operations on empty input", 45)
c18.technique = "abstract interpretation of each operation over the empty input (container sizes constant zero, the rest symbolic) with an element-access rule"
c18.note = "Covers inputs without any point, per operation; other degenerate inputs (fewer points than neighbours, all points out of range, single-point leaves) are part of C13, C15, C16, C17, C23."
