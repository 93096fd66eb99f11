"""Downsampling, sorting, feature estimation, point files."""
from engine.check import check
from engine.terms import *
from engine import equiv as E, terms as TT
from .reg import SUM
from .points import names

SORT = {"quick_sort_omp": "std::sort", "merge_sort_omp": "std::sort"}
REC = {"merge_sort_omp_impl": "rec:std::sort", "quick_sort_omp_impl": "rec:std::sort"}
CONTRACT = " Calls of quick_sort_omp are taken as std::sort (decided under C29)."

GRIDS = names("grid_serial grid_omp grid_tbb")

@check("C13")
def c13(c):
    c.rule("summary equals specification", SUM + CONTRACT)
    for n in GRIDS:
        c.pair(n, alias=SORT)
    c.floor("specified operations", 3)
    c.assumptions.append("leaf size above 1e-4 and coordinates for which the floored value fits an int")

@check("C14")
def c14(c):
    c.rule("summary equals specification", SUM + CONTRACT)
    for n in GRIDS:
        c.pair(n, alias=SORT)
    from .conc import races, RULE
    c.rule("voxels are handed out exactly once", "Blocks reserve the rows of the result they write by one atomic operation; " + RULE)
    for n in ("grid_omp", "grid_tbb"):
        races(c, n, rule="voxels are handed out exactly once")
    c.floor("specified operations", 3)
    c.assumptions.append("leaf size above 1e-4 and coordinates for which the floored value fits an int; real arithmetic")

def replacement(c, n):
    """does the sampler draw every position independently of the ones it has already drawn?"""
    rule = "positions are not drawn independently"
    r, where = c.summary(n)
    if r is None:
        return
    loops = {L.key: L for L in r.loops}
    draw = lambda t: t.op == "app" and str(t.args[0]).startswith("std::") and "_distribution" in str(t.args[0]) and str(t.args[0]).endswith("operator()")
    def indep(v, L):
        """v: an element chosen by a draw whose range and source do not depend on earlier iterations"""
        if v.op in ("sel", "idx") or (len(v.args) == 2 and isinstance(v.args[0], T) and isinstance(v.args[1], T) and v.op not in ("ite", "app")):
            src, i = v.args[0], v.args[1]
            return draw(i) and not contains(src, lambda x: x.op in ("lv", "k") and x.args[0] == L.key) and indep(i, L)
        if not draw(v) or len(v.args) < 2:
            return False
        d = v.args[1]
        if d.op == "lv" and d.args[0] == L.key:
            nx = L.next.get(d.args[1])
            d = L.init.get(d.args[1])
            if nx is None or d is None or not (nx.op == "out" and draw(nx.args[0])):
                return False
        return not contains(d, lambda x: x.op in ("lv", "k") and x.args[0] == L.key)
    n_draw = 0
    for L in r.loops:
        for lf, nx in L.next.items():
            if nx.op != "aupd" or nx.args[0] is not mk("lv", L.key, lf) or not contains(nx.args[2], draw):
                continue
            n_draw += 1
            at = [x.args[2] for x in collect(nx.args[2], lambda x: x.op == "app" and x.args[0] == "small_gicp::traits::Traits::point" and len(x.args) == 3)] \
                if nx.args[2].op == "mat" else [nx.args[2]]
            if nx.args[1] is L.k and at and all(indep(x, L) for x in at) and not L.brk:
                c.bad(rule, where, "%s: every position is drawn over again from the same range, so a point can be taken twice: %s" % (n, show(nx.args[2], 4)[:200]), key="replacement|" + n)
            else:
                c.maybe(rule, where, "%s: hand-written sampling: %s" % (n, show(nx.args[2], 4)[:160]))
    if not n_draw:
        c.ok(rule, where, "%s: no position is drawn one by one from a fixed range" % n)

@check("C30")
def c30(c):
    c.rule("positions are not drawn independently", "No loop stores positions each of which is a fresh draw from one unchanging range (drawing with replacement).")
    replacement(c, "sample")
    c.rule("summary equals specification", SUM + " std::sample draws distinct positions with the generator it is given (library contract).")
    c.pair("sample")
    c.floor("specified operations", 1)

@check("C29")
def c29(c):
    c.rule("summary equals specification", SUM + " Recursive calls are taken as sorting their range (induction on the length); merging two sorted adjacent "
           "ranges, and sorting the parts left of and right of the elements equal to a pivot, are rewritten to sorting the whole range.")
    for n in names("sort_merge sort_quick sort_merge_part sort_quick_part"):
        ends(c, n, c.pair(n, alias=REC))
    for n in names("sort_radix sort_radix_odd"):
        c.pair(n)
        digits(c, n)
    c.rule("both ends of the range are sorted", "Some sorting or merging step reaches the first and some step the last element of the range; a part that ends at a partition point is sorted up to it.")
    c.rule("every key bit is sorted by some pass", "The digits (key >> s) & (2^b - 1) extracted by the passes of the radix sort together cover all bits of the key type.")
    c.floor("specified operations", 6)
    c.assumptions.append("library contracts of std::sort, std::inplace_merge and std::partition; lengths fit an int; the comparator is a strict weak order")

def ends(c, n, cc):
    """a composition of ordering algorithms none of which sorts up to an end of the range leaves that end unsorted"""
    rule = "both ends of the range are sorted"
    if cc is None:
        return
    for o in cc.obs:
        u, v = o.found, o.want
        if o.status != "undecided" or not isinstance(u, T) or not isinstance(v, T) or u.op != "vec" or v.op != "vec" or v.args[1].op != "perm" or v.args[1].args[0] != "sort":
            continue
        lo, hi = v.args[1].args[2:4]
        for leaf in leafset(u.args[1]):
            ranges, x, known = [], leaf, True
            while x.op == "perm":
                if x.args[0] not in ("sort", "partition", "stable_partition", "inplace_merge"):
                    known = False
                if x.args[0] in ("sort", "inplace_merge"):
                    ranges.append(x.args[2:4])
                x = x.args[1]
            if not known or x is not v.args[1].args[1]:
                continue
            # positions next to a partition point that no sorting step reaches
            for r in ranges:
                for at, side in ((1, 1), (0, -1)):
                    for y in leafset(r[at]):
                        for t in collect(y, lambda x: x.op == "app" and x.args[0] in ("partition_pt", "stable_partition_pt")):
                            for q in leafset(add(t.args[2], t)):
                                d = sub(q, y)
                                if d.op == "num" and d.args[0] * side > 0 and not any(q in leafset(r2[at]) for r2 in ranges):
                                    c.bad(rule, n, "%s: a part is not sorted up to the partition point next to it: %s" % (n, show(leaf, 5)[:300]), key="gap|%s" % n)
            for what, at, want in (("first", 0, lo), ("last", 1, hi)):
                if not any(r[at] is want for r in ranges):
                    c.bad(rule, n, "%s: no sorting step reaches the %s element of the range: %s" % (n, what, show(leaf, 5)[:300]), key="ends|%s|%s" % (n, what))

def digits(c, n, width=32):
    """bits of the key that some pass of the radix sort looks at"""
    rule = "every key bit is sorted by some pass"
    r, where = c.summary(n)
    if r is None:
        return
    key = lambda t: t.op == "app" and "vp::KeyFn" in str(t.args[0])
    seen, odd = set(), []
    def shift(t):
        if key(t):
            return 0
        if t.op == "app" and t.args[0] == "shr" and key(t.args[1]) and t.args[2].op == "num":
            return int(t.args[2].args[0])
        if t.op == "app" and t.args[0] in ("idiv", "floordiv") and key(t.args[1]) and t.args[2].op == "num":
            v = int(t.args[2].args[0])
            return v.bit_length() - 1 if v > 0 and v & (v - 1) == 0 else None
        return None
    for L in r.loops:
        for t in list(L.next.values()) + [L.cond]:
            for x in collect(t, lambda x: x.op == "app" and x.args[0] in ("band", "mod")):
                ar = [y for y in x.args[1:] if isinstance(y, T)]
                m = [y for y in ar if y.op == "num"]
                k = [y for y in ar if y.op != "num"]
                if len(m) != 1 or len(k) != 1 or not contains(k[0], key):
                    continue
                v = int(m[0].args[0]) + (1 if x.args[0] == "band" else 0)
                s = shift(k[0])
                if s is None:
                    if not key(k[0]) and not any(contains(y, key) for y in k[0].args if isinstance(y, T) and y.op == "idx"):
                        odd.append(show(x, 4))
                elif v & (v - 1) == 0:
                    seen |= set(range(s, min(width, s + v.bit_length() - 1)))
    miss = sorted(set(range(width)) - seen)
    c.count("radix passes analysed")
    if not seen:
        c.maybe(rule, where, "%s: no digit extraction recognised" % n)
    elif miss:
        c.bad(rule, where, "%s: bits %d..%d of the %d-bit key are looked at by no pass, so elements differing only there keep their input order" % (n, miss[0], miss[-1], width), key="digits|" + n)
    else:
        c.ok(rule, where, "%s: digits cover bits 0..%d" % (n, width - 1))

FEAT = ["ft_" + w for w in names("normal cov both no_normal no_cov no_both")]
FEATS = ["ft_%s%s" % (a, b) for a in ("normals", "covs", "boths") for b in ("", "_tree", "_omp", "_omp_tree", "_tbb", "_tbb_tree")]

@check("C23")
def c23(c):
    c.rule("summary equals specification", SUM + " The neighbour search and the construction of the tree are opaque; the eigenvectors are those of the stated covariance.")
    c.pair("ft_point")
    for n in FEAT:
        c.pair(n)
    for n in FEATS:
        c.pair(n, opaque=("UnsafeKdTree", "knn_search"))
    c.rule("team size", "The parallel regions of the OpenMP variants have a team computed from the num_threads argument.")
    from .api import team_sizes
    team_sizes(c, "core", "team size", only="normal_estimation")
    c.floor("parallel regions", 2)
    c.floor("specified operations", 1 + len(FEAT) + len(FEATS))

@check("C27")
def c27(c):
    c.rule("summary equals specification", SUM + " Streams and strings are opaque library objects with their state threaded through.")
    c.rule("bulk transfer fits its buffer", "Every istream::read and ostream::write moves at most as many bytes as the vector it points into holds from that position on.")
    for n in names("io_read io_write io_ply"):
        c.pair(n)
        r, where = c.summary(n)
        if r is None:
            continue
        for e in r.events:
            if e.kind != "call" or e.name.split("::")[-1] not in ("read", "write"):
                continue
            c.count("bulk transfers")
            what = "%s: %s of %s bytes" % (n, e.name.split("::")[-1], show(e.args[2], 5)[:200])
            p, at = e.args[1], ZERO
            if p.op == "from":
                p, at = p.args
            esz = elem_size(n)
            v = as_vec(p)
            if v.op != "vec":
                c.maybe("bulk transfer fits its buffer", where, what + ": target not recognised")
                continue
            room = mul(num(esz), sub(v.args[0], at))
            over = AND(e.guard, lt(room, e.args[2]))
            if over is FALSE or room is e.args[2]:
                c.ok("bulk transfer fits its buffer", where, what)
            elif E.separated(over, FALSE, c.seeds) is not None:
                c.bad("bulk transfer fits its buffer", where, what + " but the buffer holds %s bytes" % show(room, 5)[:200], key="bulk|%s|%s|%s" % (n, e.name.split("::")[-1], ratio(room, e.args[2])))
            else:
                c.add("equal", "bulk transfer fits its buffer", where, what)
    c.floor("specified operations", 3)
    c.floor("bulk transfers", 3)

def ratio(room, asked):
    """what is asked for in relation to the room, if the one is a multiple of the other"""
    for x in collect(room, lambda x: True):
        if mul(room, num(4)) is mul(asked, x):
            return "16 bytes per vertex for 4 bytes per property"
    return "other"

def elem_size(n):
    return 4 if n == "io_ply" else 16
