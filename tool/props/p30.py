"""The contour walk is interpreted abstractly for an arbitrary winding type and an arbitrary inside
predicate, with its loops generalised.  The loop that turns around a point and the loop that walks
along the boundary are found by what they do to half-edges.  On every step of the turning loop the
clockwise side of the current half-edge is inside, it starts at the clockwise neighbour of the half
just walked to, and where it ends the clockwise side is outside; the walk goes on from the other
half, marks the edge as used, appends it to the contour, and ends exactly on returning to its start;
it starts only at an unused, not deleted edge with the inside counter-clockwise of its starting half
and the outside clockwise of it, and no such edge is passed over; a contour cut off at a point seen
before takes exactly the edges since then; the rest becomes the reserved contour."""
from props.walkctx import *
from engine import upd_chain

FLOOR = 14


def run(ctx):
    w = Walk(ctx)
    ctx.rule("turn while inside(cw); then walk to the other half; start with inside(ccw), outside(cw); end at start")
    inst = w.inst
    rots = w.rotations()
    walks, syms = w.walks(rots)
    if not ctx.ob("the walk along the boundary is found", bool(walks) and bool(rots), inst,
                  "%d turning loops, %d walking loops" % (len(rots), len(walks))):
        return
    nxts = {n for _, n, _, _ in walks}
    # turning around a point
    for r, x, cw in rots:
        ctx.ob("turns clockwise", cw, inst)
        for b in r.back:
            ctx.ob("turns on only while the clockwise side is inside", w.inside(b, x, True) is True, inst, "turns past a half-edge without that")
        ctx.ob("turning starts at the clockwise neighbour of the half just reached",
               any(x[3] is w.nbr(r.pre, n, True) for n in nxts if w.nbr(r.pre, n) is not None), inst, show(x[3])[:300])
    for r, n, xs, slot in walks:
        ctx.guard("walk", inst, lambda: step(ctx, w, r, n, xs, slot))
    lids = {r.lid for r, _, _, _ in walks}
    ctx.ob("one walking loop", len(lids) == 1, inst, str(lids))
    ctx.guard("outer", inst, lambda: outer(ctx, w, walks, lids))


def step(ctx, w, r, n, xs, slot):
    inst, ip = w.inst, w.ip
    n0 = ip.read_loc(r.pre, slot)
    # the start: other half of the first `next`
    b0 = w.first(r.pre, n0)
    if not ctx.ob("first step is along a definite half", b0 is not None, inst, show(n0)[:200]):
        return
    e0 = w.edge(n0)
    start = w.half(e0, not b0)
    ctx.ob("the inside is on the left of the first half", w.inside(r.pre, start, False) is True and w.inside(r.pre, start, True) is False, inst,
           "inside(ccw)=%s inside(cw)=%s" % (w.inside(r.pre, start, False), w.inside(r.pre, start, True)))
    segs = segs_slot(w, r, n)
    if not ctx.ob("every edge walked is appended to the contour", segs is not None, inst, "no list grows by the half just reached on all paths"):
        return
    h = ip.read_loc(r.head, segs)
    used = used_slot(w, r, n)
    ctx.ob("every edge walked is marked as used", used is not None, inst, "no table is set at the edge just walked on all paths")
    for kind, states in (("step", r.back), ("end", r.exit)):
        for b in states:
            x = [x for x in xs if w.inside(b, x, True) is False]
            if not ctx.ob("walks on along an edge with the outside clockwise" if kind == "step" else "ends only after reaching an edge with the outside clockwise",
                          bool(x), inst, "; ".join(show(y)[:100] for y in xs)):
                continue
            eq = [w.same_half(b, y, start) for y in x]
            if kind == "step":
                ctx.ob("does not walk past its start", all(e is False for e in eq), inst, "same=%s" % eq)
            else:
                ctx.ob("ends only at its start", any(e is True for e in eq), inst, "same=%s" % eq)
    # cutting off
    cont = contours_slot(w, r)
    seen = seen_slot(w, r, start)
    ctx.ob("the point a walk starts at is remembered", seen is not None, inst, "no table has the start point at position 0 before the walk")
    for b in r.back:
        sv = ip.read_loc(b, segs)
        grown = T("push", h, n)
        if not ctx.ob("the list of reserved contours is found", cont is not None, inst):
            return
        c0, c1 = ip.read_loc(r.head, cont), ip.read_loc(b, cont)
        if sv is grown or is_push(sv, h, w, n):
            ctx.ob("without a cut the finished contours stay as they are", c1 is c0, inst, show(c1)[:200])
            if seen is not None:
                ctx.guard("remember", inst, lambda: remember(ctx, w, r, b, n, xs, seen, grown))
            continue
        full, k = sv[1], sv[3]
        wr = w.paths_written(c0, c1)
        path = wr[0][1] if wr is not None and len(wr) == 1 else None
        want = T("slice", full, k, ip.length(full))
        ok = path is not None and path[0] == "call" and matches(path[1], "re:segs_to_path$") and unref(path[3]) is want
        ctx.ob("a cut-off contour consists of exactly the edges since the point was seen", ok, inst,
               "%s, expected %s" % (show(path)[:300] if path else None, show(want)[:200]))
        # the point is really the same
        y = T("sel", full, k)
        x = [x for x in xs if w.inside(b, x, True) is False]
        eq = [same_point(w, b, y, z) for z in x]
        ctx.ob("contours are cut off only at a point seen before", any(e is True for e in eq), inst, "same point: %s" % eq)


def seen_slot(w, r, start):
    """The table that says at which position of the walk a point was met last."""
    p = w.per_half(r.pre, start, "point_idx")
    for root, paths in r.mods.items():
        for path in paths:
            v = w.ip.read_loc(r.pre, (root, path))
            if v[0] == "store" and v[2] is fld(p, 0) and v[3] is T("agg", "core::option::Option", 1, I(0)):
                return (root, path)
    return None


def remember(ctx, w, r, b, n, xs, seen, grown):
    """A step that does not cut: the point was not on this walk before, and is remembered now."""
    ip, inst = w.ip, w.inst
    h, v = ip.read_loc(r.head, seen), ip.read_loc(b, seen)
    xs = [x for x in xs if w.inside(b, x, True) is False]
    ok = False
    for x in xs:
        p = w.per_half(b, x, "point_idx")
        if p is None:
            continue
        p = fld(p, 0)
        if v[0] == "store" and v[1] is h and v[2] is p and v[3] is T("agg", "core::option::Option", 1, ip.length(grown)):
            ok = True
        old = T("sel", h, p)
        k = T("fld", old, 1, 0)
        d = b.facts.get(T("discr", old))
        none = d == 0 or isinstance(d, frozenset) and 1 in d
        late = decide(b, ip.binop("Lt", k, ip.length(grown), "i")) is False
        el = T("sel", grown, k)
        other = same_point(w, b, el, x) is False or same_point_n(w, b, k, grown, n, x) is False
        ctx.ob("a point met before on the same walk is always cut off at", none or late or other, inst, facts_show(b)[-600:])
    ctx.ob("every point met is remembered with its position", ok, inst, show(v)[:300])


def same_point_n(w, s, k, grown, n, x):
    """The same when k is known to be the last position, which holds n."""
    if decide(s, w.ip.binop("Eq", k, isub(w.ip.length(grown), I(1)), "i")) is not True:
        return None
    return same_point(w, s, n, x)


def is_push(sv, h, w, n):
    return sv[0] == "push" and sv[1] is h and w.edge(sv[2]) is w.edge(n) and fld(sv[2], w.ihalf) is fld(n, w.ihalf)


def same_point(w, s, seg, x):
    """Is the start of the (walked) half `seg` the point of half x in state s?"""
    fb = decide(s, fld(seg, w.ihalf))
    xb = w.first(s, x)
    if fb is None or xb is None:
        return None
    pi = w.f("point_idx")
    a = T("sel", T("fld", pi, 0, w.end if fb else w.start), w.edge(seg))
    b = T("sel", T("fld", pi, 0, w.start if xb else w.end), w.edge(x))
    return decide(s, w.ip.binop("Eq", fld(a, 0), fld(b, 0), "i"))


def segs_slot(w, r, n):
    """The list that grows by `n` on every step (possibly cut afterwards) and before every exit."""
    ip = w.ip
    for root, paths in r.mods.items():
        for p in paths:
            h = ip.read_loc(r.head, (root, p))

            def ok(b):
                v = ip.read_loc(b, (root, p))
                if v[0] == "slice" and v[2] is I(0):
                    v = v[1]
                return is_push(v, h, w, n)
            if r.back and r.exit and all(ok(b) for b in r.back) and all(is_push(ip.read_loc(b, (root, p)), h, w, n) for b in r.exit):
                return (root, p)
    return None


def used_slot(w, r, n):
    ip = w.ip
    for root, paths in r.mods.items():
        for p in paths:
            h = ip.read_loc(r.head, (root, p))
            want = T("store", h, w.edge(n), TRUE)
            if all(ip.read_loc(b, (root, p)) is want for b in r.back + r.exit):
                return (root, p)
    return None


def contours_slot(w, r):
    """The list of contours: reserved before the walk, grown by the cuts."""
    ip = w.ip
    for root, path, v in slots(ip, r.pre):
        x = v
        if x[0] == "push" and x[2][0] == "agg" and x[2][1] == CONTOUR:
            return (root, path)
        if x[0] == "push":
            last = x[2]
            if contains(last, lambda y: y[0] == "agg" and y[1] == CONTOUR):
                return (root, path)
    return None


def outer(ctx, w, walks, lids):
    inst, ip = w.inst, w.ip
    outers = [r for r in ip.records if r.lid not in lids and
              any(any(e[0] == "loop" and len(e) == 2 and e[1] in lids for e in b.ev[len(r.pre.ev):]) for b in r.back)]
    if not ctx.ob("the loop over all edges is found", len({r.lid for r in outers}) == 1, inst, str({r.lid for r in outers})):
        return
    r0, n, xs, slot = walks[0]
    e0 = w.edge(ip.read_loc(r0.pre, slot))
    for r in outers:
        # the table of used edges, as seen by the outer loop
        used = None
        for root, paths in r.mods.items():
            for p in paths:
                hv = ip.read_loc(r.head, (root, p))
                if all(decide(q.pre, T("sel", hv, w.edge(ip.read_loc(q.pre, sl)))) is False for q, _, _, sl in walks):
                    if used_in(w, walks, (root, p)):
                        used = (root, p)
        ctx.ob("walks start at unused edges only", used is not None, inst, "no table says so on all paths to the walk")
        for q, _, _, sl in walks:
            e = w.edge(ip.read_loc(q.pre, sl))
            ctx.ob("walks start at edges that are not deleted", w.deleted(q.pre, e) is False, inst, show(e)[:100])
        skipped = 0
        for b in r.back:
            if any(e[0] == "loop" and len(e) == 2 and e[1] in lids for e in b.ev[len(r.pre.ev):]):
                # the walk's contour ends up in its reserved slot
                final(ctx, w, r, b, walks)
                continue
            skipped += 1
            u = used is not None and decide(b, T("sel", ip.read_loc(r.head, used), e0)) is True
            ok = u or w.boundary(b, e0) is False or w.deleted(b, e0) is True
            ctx.ob("no unused boundary edge is passed over", ok, inst, facts_show(b)[:400])
        ctx.ob("edges off the boundary are passed over", skipped > 0, inst)
        # all edges are looked at
        n_edges = ip.length(w.otab("winding"))
        ok = e0[0] == "loop" and e0[3] is I(0)
        ctx.ob("the loop starts at the first edge", ok, inst, show(e0)[:200])
        for b in r.exit:
            d = decide(b, ip.binop("Ge", e0, n_edges, "i"))
            if d is None:
                d = any(t[0] == "done" and v is True and t[2] is e0 and
                        contains(t, lambda x: x[0] == "agg" and x[1] == "core::ops::range::Range" and x[3] is I(0) and x[4] is n_edges or
                                 x[0] == "refs" and any(ip.content(x[1], b) in (w.otab(k), T("&", w.otab(k))) for k in ("winding", "deleted", "orig_seg", "positively_oriented")))
                        and not contains(t[1], lambda x: x[0] in ("take", "skip", "step_by", "take_while", "skip_while", "chain"))
                        for t, v in b.facts.items() if isinstance(t, tuple))
            ctx.ob("the loop ends after the last edge", d is True, inst, facts_show(b)[:300])


def used_in(w, walks, sl):
    return all(used_slot(w, q, n) is not None and used_slot(w, q, n) == sl for q, n, _, _ in walks)


def final(ctx, w, r, b, walks):
    """After the walk the reserved contour gets the path of what is left of the list."""
    ip, inst = w.ip, w.inst
    hit = None
    for root, path, v in slots(ip, b):
        for x in ([v] if v[0] == "store" else []):
            if contains(x[3], lambda y: y[0] == "call" and matches(y[1], "re:segs_to_path$")):
                hit = x
    if not ctx.ob("the walked contour is stored", hit is not None, inst, "no list of contours is updated after the walk"):
        return
    new = hit[3]
    pos = [w.rest_slot(q, contours_slot(w, q)) for q, _, _, _ in walks]
    ctx.ob("the walked contour is stored in a slot reserved for it", any(hit[2] in p for p in pos), inst, show(hit[2])[:200])
    c, base = upd_chain(new)
    k = (0, field_index(w.P, CONTOUR, "path"))
    path = c.get(k)
    if path is None:
        path = fld(new, k[1])
    ok = path[0] == "call" and matches(path[1], "re:segs_to_path$")
    arg = unref(path[3]) if ok else None
    ok = ok and arg[0] == "push"
    ctx.ob("the walked contour consists of all the edges left", ok, inst, show(path)[:300])
