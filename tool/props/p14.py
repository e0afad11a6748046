"""The function that merges coincident output edges is interpreted abstractly for an arbitrary winding
type; per-half-edge tables are treated as maps (P03 decides that they are).  On every step of its loop
over the edges the new state of the deleted flags, of the rings around the end points and of the
windings is compared with the rule: an edge that is merged away is unlinked at both ends, its clockwise
neighbour takes over its counter-clockwise side, and is removed too if then both sides are equal.  Where
nothing is removed, the path must show that one of the conditions fails; where something is, that all
hold.  The search for the sweep-line neighbour passes over removed edges only.  The enumeration of
edges is the whole range filtered by exactly the deleted flag, and the flag is down in every step that makes an edge."""
from props.walkctx import *
from models import refto, elems
from engine import Frame, assume, int_restrict

FLOOR = 14


def half_index(ip, fn, args, atys, rty, s, site, fr):
    return [(refto(ip, args[0], ("idx", args[1])), s)]


def run(ctx):
    P = ctx.P
    ctx.rule("merge(e): ends shared, horizontal or (west neighbour and within eps) <=> e unlinked; nbr.ccw := e.ccw; nbr trivial <=> unlinked")
    c = [i for i in P.insts if i["body"] and not i["closure"] and i["path"].startswith(TOP + "::<W>::") and "<W>" in i["key"]
         and i["body"]["argc"] == 1 and mut_self(P, i)]
    cs = {i["path"]: i for i in c}
    if not ctx.ob("the merging function is found", len(cs) == 1, "", str(sorted(cs))):
        return
    inst = next(iter(cs.values()))
    m = {"<" + HV + "<T> as core::ops::index::Index%s<%s>>::index%s" % (x, HO, y): half_index for x, y in (("", ""), ("Mut", "_mut"))}
    ip, args, outs = ctx.analyse(inst, models=m, opaque=["re:^linesweeper::curve::", "re:to_kurbo_cubic$"], keep_rel=True, keep_facts=lambda t: True)
    ctx.guard("merge", inst, lambda: merge(ctx, ip, inst, args, outs))
    ctx.guard("made", TOP, lambda: made(ctx, P))
    for i in P.insts:
        if i["body"] and not i["closure"] and i["path"] == TOP + "::<W>::segment_indices":
            ctx.guard("enumeration", i, lambda: enum(ctx, i))
            break
    else:
        ctx.fail("segment_indices is found")


def made(ctx, P):
    """Edges are made as edges that are there."""
    from props.sweepctx import process_range
    inst, ip, args, outs = process_range(ctx)
    loc = (("P", args[0]), (("f", 0, field_index(P, TOP, "deleted")), ("f", 0, 0)))
    n = 0
    for what, st in [("step", b) for r in ip.records for b in r.back] + [("end", s) for v, s in outs]:
        t, flags = ip.read_loc(st, loc), []
        while t[0] == "push":
            flags.append(t[2])
            t = t[1]
        n += len(flags)
        ctx.ob("an edge is made as one that is there", all(x is T("b", False) for x in flags) and (loop_at(ip, t) is not None or t[0] in ("fld", "*")), inst,
               "%s: %s" % (what, show(ip.read_loc(st, loc))[:300]))
    ctx.ob("edges are made", n > 0, inst)


def mut_self(P, i):
    t = P.types[i["body"]["locals"][1]]
    return t["k"] == "ref" and t.get("mut") and P.types[t["t"]].get("path") == TOP


class M:
    def __init__(self, ctx, ip, inst, args):
        self.P, self.ip, self.inst = ctx.P, ip, inst
        self.me = T("*", args[0])
        self.root = ip.target(args[0])[0]
        g = lambda n: field_index(self.P, TOP, n)
        self.paths = {"winding": (("f", 0, g("winding")), ("f", 0, 0)), "deleted": (("f", 0, g("deleted")), ("f", 0, 0)),
                      "nbrs": (("f", 0, g("point_neighbors")),)}
        self.os = {}     # how the engine writes the edge index with this raw index
        self.iidx, self.ihalf = field_index(self.P, HO, "idx"), field_index(self.P, HO, "first_half")
        self.icc, self.icw = field_index(self.P, HW, "counter_clockwise"), field_index(self.P, HW, "clockwise")
        self.ncw, self.nccw = field_index(self.P, NB, "clockwise"), field_index(self.P, NB, "counter_clockwise")

    def f(self, n):
        return T("fld", self.me, 0, field_index(self.P, TOP, n))

    def tab(self, st, n):
        return self.ip.read_loc(st, (self.root, self.paths[n]))

    def half(self, e, b):
        x = [None, None]
        x[self.iidx] = self.os.get(e, T("agg", OS, 0, e))
        x[self.ihalf] = b if isinstance(b, tuple) else B(b)
        return T("agg", HO, 0, *x)

    def edge(self, h):
        return fld(fld(h, self.iidx), 0)

    def point_of(self, h):
        return T("sel", self.f("point_idx"), h)

    def y_of(self, h):
        """The height of a half-edge's end point."""
        p = T("sel", T("fld", self.f("points"), 0, 0), fld(self.point_of(h), 0))
        return T("fld", p, 0, field_index(self.P, CRATE + "geom::Point", "y"))

    def unlink(self, nb, h, st, order):
        n = self.ip.select(nb, h, st)
        cw, ccw = fld(n, self.ncw), fld(n, self.nccw)
        for k in order:
            at, fi, v = (cw, self.nccw, ccw) if k == 0 else (ccw, self.ncw, cw)
            nb = self.ip.update(nb, (("idx", at), ("f", 0, fi)), v, self.tys(), st)
        return nb

    def tys(self):
        for i, t in enumerate(self.P.types):
            if t["k"] == "adt" and t["path"] == NB:
                return [None, i, None]
        return [None, None, None]

    def delete_all(self, nb, edges, st):
        """All results of unlinking the edges, the writes in any order that makes no difference."""
        out = {nb}
        for e in edges:
            nxt = set()
            for x in out:
                for first in (True, False):
                    for o1 in ((0, 1), (1, 0)):
                        for o2 in ((0, 1), (1, 0)):
                            y = self.unlink(x, self.half(e, first), st, o1)
                            nxt.add(self.unlink(y, self.half(e, not first), st, o2))
            out = nxt
        return out


def merge(ctx, ip, inst, args, outs):
    m = M(ctx, ip, inst, args)
    loops = [r for r in ip.records if any(m.root == k for k in r.mods)]
    if not ctx.ob("the loop over all edges is found", len({r.lid for r in loops}) == 1, inst, str({r.lid for r in loops})):
        return
    n_merge = n_skip = 0
    for r in loops:
        # what may change
        allowed = [p for p in m.paths.values()]
        for p in r.mods[m.root]:
            ctx.ob("merging changes only deleted flags, rings and windings", any(tuple(p[:len(a)]) == a for a in allowed), inst, str(p))
        d0, w0, n0 = (m.tab(r.head, k) for k in ("deleted", "winding", "nbrs"))
        e = counter(ctx, ip, inst, r, m, outs)
        if e is None:
            return
        h, h2 = m.half(e, True), m.half(e, False)
        cw = fld(ip.select(n0, h, r.head), m.ncw)
        c = m.edge(cw)
        m.os[c] = fld(cw, m.iidx)
        other = m.half(c, ip.bnot(fld(cw, m.ihalf)))
        y0, y1 = m.y_of(h), m.y_of(h2)
        west = wests(ctx, ip, inst, m, r, e, d0)
        for b in r.back:
            d1, w1, n1 = (m.tab(b, k) for k in ("deleted", "winding", "nbrs"))
            gone = decide(b, T("sel", d0, e))
            ends = decide(b, ip.binop("Eq", fld(m.point_of(h2), 0), fld(m.point_of(other), 0), "i"))
            hor = decide(b, ip.binop("Eq", y0, y1, "f"))
            near = west_is(ip, b, west, c)
            dist = [within(ip, m, b, k, e, c, y0, y1) for k in range(4)]
            if d1 is d0:
                n_skip += 1
                ctx.ob("nothing changes where no edge is removed", w1 is w0 and n1 is n0, inst, show(w1)[:200] + show(n1)[:200])
                why = gone is True or ends is False or hor is False and (near is False or any(x is False for x in dist))
                ctx.ob("coincident edges are always merged", why, inst,
                       "removed already: %s, other end shared: %s, horizontal: %s, sweep-line neighbours: %s, control points within eps: %s" % (gone, ends, hor, near, dist))
                continue
            n_merge += 1
            ctx.ob("an edge is removed once", gone is False, inst, "removed already: %s" % gone)
            ctx.ob("only edges with both end points in common are merged", ends is True, inst, "other end point shared: %s" % ends)
            ctx.ob("edges that are not horizontal are merged only with their neighbour in the sweep line", hor is True or near is True, inst,
                   "horizontal: %s, neighbours: %s" % (hor, near))
            ctx.ob("edges that are not horizontal are merged only if all control points are within eps", hor is True or all(x is True for x in dist), inst,
                   "within eps: %s" % dist)
            ww = ip.update(w0, (("idx", c), ("f", 0, m.icc)), fld(ip.select(w0, e, b), m.icc), m_tys(m), b)
            ctx.ob("the edge that stays takes over the far side of the one removed", w1 is ww, inst, "%s, expected %s" % (show(w1)[:500], show(ww)[:500]))
            eq = same_sides(m, ip, b, w1, c)
            gonelist = [e] if d1 is T("store", d0, e, TRUE) else [e, c] if d1 in (T("store", T("store", d0, e, TRUE), c, TRUE), T("store", T("store", d0, c, TRUE), e, TRUE)) else None
            if not ctx.ob("only the merged edges are removed", gonelist is not None, inst, show(d1)[:400]):
                continue
            ctx.ob("the edge that stays is removed exactly if its sides are equal", eq is (len(gonelist) == 2), inst, "sides equal: %s, removed: %d" % (eq, len(gonelist)))
            want = set()
            for g in ([gonelist] if len(gonelist) == 1 else [gonelist, gonelist[::-1]]):
                want |= m.delete_all(n0, g, b)
            ctx.ob("removed edges are unlinked at both ends", n1 in want, inst, show(n1)[:800])
    ctx.ob("merging steps are found", n_merge > 0 and n_skip > 0, inst, "%d, %d" % (n_merge, n_skip))


def m_tys(m):
    for i, t in enumerate(m.P.types):
        if t["k"] == "adt" and t["path"] == HW and "<W>" in str(t.get("name", "<W>")):
            return [None, i, None]
    return [None, None, None]


def counter(ctx, ip, inst, r, m, outs):
    """The loop runs over all edges; returns the current edge."""
    cand = []
    for root, paths in r.mods.items():
        for p in paths:
            x = ip.read_loc(r.head, (root, p))
            if x[0] == "loop" and x[1] == r.lid and x[3] is I(0) and all(ip.read_loc(b, (root, p)) is iadd(x, I(1)) for b in r.back):
                cand.append(x)
    if not ctx.ob("the loop runs over the edges from the first on", len(cand) == 1, inst, "%d counters" % len(cand)):
        return None
    x = cand[0]
    n = ip.length(m.tab(r.head, "winding"))
    n2 = ip.length(T("fld", m.f("winding"), 0, 0))
    for b in r.exit:
        ok = any(decide(b, ip.binop("Ge", x, k, "i")) is True for k in (n, n2, ip.length(m.tab(r.pre, "winding"))))
        ctx.ob("the loop ends after the last edge", ok, inst, facts_show(b)[:400])
    return x


def wests(ctx, ip, inst, m, r0, e, d0):
    """Loop symbols of searches for the neighbour to the west of e, over removed edges."""
    tab = T("fld", m.f("scan_west"), 0, 0)
    out = []
    for q in ip.records:
        for root, paths in q.mods.items():
            for p in paths:
                x = ip.read_loc(q.head, (root, p))
                if x[0] != "loop" or x[1] != q.lid or q is r0 or not q.back:
                    continue
                k = fld(fld(x, 0, 1), 0)
                if not all(ip.read_loc(b, (root, p)) is T("sel", tab, k) for b in q.back):
                    continue
                ctx.ob("the search for the sweep-line neighbour starts at the edge", x[3] is T("sel", tab, e), inst, show(x[3])[:200])
                for b in q.back:
                    ctx.ob("the search for the sweep-line neighbour passes over removed edges only",
                           decide(b, T("sel", d0, k)) is True and b.facts.get(T("discr", x)) == 1, inst, facts_show(b)[:300])
                for b in q.exit:
                    d = b.facts.get(T("discr", x))
                    ok = d == 0 or isinstance(d, frozenset) and 1 in d or decide(b, T("sel", d0, k)) is False
                    ctx.ob("the search for the sweep-line neighbour ends at an edge that is there", ok, inst, facts_show(b)[:300])
                out.append(x)
    ctx.ob("the sweep-line neighbour is looked for beyond removed edges", bool(out), inst)
    return out


def west_is(ip, s, west, c):
    """Is the neighbour found in the sweep line the edge c?"""
    for x in west:
        d = s.facts.get(T("discr", x))
        if d == 0 or isinstance(d, frozenset) and 1 in d:
            return False
        if d == 1:
            r = decide(s, ip.binop("Eq", fld(fld(x, 0, 1), 0), c, "i"))
            if r is not None:
                return r
        r = decide(s, T("cmp", "Eq", "o", x, c))
        if r is not None:
            return r
    return None


def within(ip, m, s, k, e, c, y0, y1):
    """Are the k-th control points of both edges, cut to the same heights, within eps?  None: open."""
    eps = m.f("eps")
    orig = T("fld", m.f("orig_seg"), 0, 0)
    res = None
    for a, b in s.rel:
        if a is not eps and b is not eps:
            continue
        x = b if a is eps else a
        if x[0] != "fsqrt":
            continue
        cs = {t for t in subterms(x) if t[0] == "call" and matches(t[1], "re:y_subsegment$")}
        if len(cs) != 2 or {src(t, orig) for t in cs} != {e, c} or not all(t[-2] is y0 and t[-1] is y1 or t[-2] is y1 and t[-1] is y0 for t in cs):
            continue
        p, q = sorted(cs, key=lambda t: src(t, orig) is e)
        pts = [T("fld", t, 0, k) for t in (p, q)]
        d = [[T("fsub", T("fld", u, 0, j), T("fld", v, 0, j)) for j in (0, 1)] for u, v in (pts, pts[::-1])]
        forms = [T("fsqrt", T("fadd", T("fmul", z[0], z[0]), T("fmul", z[1], z[1]))) for z in d]
        if not any(same_f(x, f) for f in forms):
            continue
        rel = s.rel[(a, b)]
        if a is eps:
            rel = frozenset({"<": ">", ">": "<"}.get(z, z) for z in rel)
        if ">" not in rel:
            res = True
        elif rel <= frozenset(">u"):
            res = False
    return res


def same_f(x, f):
    """Equal up to the order of the operands of commutative operations."""
    if x is f:
        return True
    if not (isinstance(x, tuple) and isinstance(f, tuple)) or len(x) != len(f) or x[0] != f[0]:
        return False
    if x[0] in ("fadd", "fmul") and len(x) == 3:
        return same_f(x[1], f[1]) and same_f(x[2], f[2]) or same_f(x[1], f[2]) and same_f(x[2], f[1])
    return all(a == b if not isinstance(a, tuple) else same_f(a, b) for a, b in zip(x[1:], f[1:]))


def src(t, orig):
    """The output edge whose input segment is cut by this call."""
    for u in subterms(t):
        if u[0] == "sel" and u[1] is orig:
            return u[2]
    return None


def same_sides(m, ip, s, w, c):
    """Do both sides of edge c have the same winding number in state s?"""
    a, b = (fld(ip.select(w, c, s), k) for k in (m.icc, m.icw))
    for t, v in s.facts.items():
        if t[0] == "call" and matches(t[1], "re:(^|::)(eq|ne)$") and isinstance(v, bool):
            x = {ip.content(u, s) if u[0] == "ref" else unref(u) for u in t[2:]}
            if x == {a, b} or {unref(u) for u in t[2:]} == {a, b}:
                return v if t[1].endswith("eq") else not v
    return None


def enum(ctx, inst):
    """segment_indices: the whole range, filtered by exactly the deleted flag."""
    P = ctx.P
    ip, args, outs = ctx.analyse(inst)
    me = T("*", args[0])
    g = lambda n: T("fld", T("fld", me, 0, field_index(P, TOP, n)), 0, 0)
    if not ctx.ob("the enumeration of edges is one iterator", len(outs) == 1, inst, "%d paths" % len(outs)):
        return
    v, s = outs[0]
    src = v
    while True:
        if src[0] == "agg" and src[1] == "it" and src[4] is I(0):
            src = src[3]
        elif src[0] in ("filter", "map", "filter_map", "enumerate", "copied", "cloned"):
            src = src[1]
        else:
            break
    tables = [g(k) for k in ("winding", "deleted", "orig_seg", "positively_oriented", "scan_west", "scan_east")]
    ok = src[0] == "agg" and src[1] == "core::ops::range::Range" and src[3] is I(0) and src[4] in [ip.length(x) for x in tables]
    if src[0] == "refs":
        t = ip.content(src[1], s) if src[1][0] == "ref" else src[1]
        ok = any(t is x or t is T("&", x) for x in tables)
    if not ctx.ob("the enumeration covers all edges", ok and v[0] == "agg" and v[1] == "it", inst, show(v)[:300]):
        return
    e = T("var", "e")
    st = s.copy()
    st = int_restrict(st, e, I(0), frozenset(">=")) or st
    for x in tables:
        st = int_restrict(st, e, ip.length(x), frozenset("<")) or st
    r, skip, end = elems(ip, v[3], e, st, ("p14", "elem"), frame(inst, ip))
    ctx.ob("an edge is listed or left out", not end and bool(r), inst)
    ctx.ob("removed edges are left out of the enumeration", bool(skip), inst)
    for x, states in ((True, [y for _, y in r]), (False, skip)):
        for y in states:
            d = decide(y, T("sel", g("deleted"), e))
            ctx.ob("the enumeration lists exactly the edges that were not removed", d is (not x), inst, "listed: %s, removed: %s" % (x, d))
    for x, y in r:
        ctx.ob("the enumeration lists the edges by their own index", fld(x, 0) is e, inst, show(x)[:200])


def frame(inst, ip):
    return Frame(inst, ip.fid("p14"), 0, ip.p.cfg(inst) if hasattr(ip.p, "cfg") else None, ())
