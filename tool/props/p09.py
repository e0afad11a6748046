"""Every way of adding segments is interpreted abstractly; on each loop step that appends a segment
the stored end points are compared, over every weak ordering of the coordinates that the path
conditions allow, with the piece of the input it came from: the stored segment must run in sweep
order (first y, then x), the recorded orientation must be true exactly when the piece was not
reversed, all control points must be kept in (possibly reversed) order, the recorded input segment
must be the one the piece was cut from and the recorded parameter range the piece's.  The accessors
that give a segment back in its original direction are compared with the same rule."""
from props.segctx import *

FLOOR = 25
INNER = CRATE + "geom::SegmentInner"
PT = CRATE + "geom::Point"


def run(ctx):
    P = ctx.P
    ctx.assumption("coordinates are not NaN (property P05 for boolean operations)")
    ctx.rule("stored end points ordered by (y, x); orientation true iff not reversed; input segment and parameter range are the piece's")
    for nm, inst in entries(P):
        ctx.guard(nm, inst, lambda: adder(ctx, P, nm, inst))
    ctx.guard("accessors", SEG, lambda: accessors(ctx, P))


def point(P, ip, t):
    """(y, x) of one of the crate's points."""
    return (ip.project(t, ("f", 0, field_index(P, PT, "y")), None), ip.project(t, ("f", 0, field_index(P, PT, "x")), None))


def kpoint(ip, t):
    """(y, x) of a kurbo point (whose fields are x, y)."""
    return (ip.project(t, ("f", 0, 1), None), ip.project(t, ("f", 0, 0), None))


def adder(ctx, P, nm, inst):
    ar = Arena(ctx, P, nm, inst, keep_rel=True)
    n = {"line": 0, "curve": 0}
    for st in steps(ar):
        if st.v is None:
            ctx.fail("%s: one segment per step" % nm, inst, "tables do not grow by one each")
            continue
        step(ctx, P, ar, nm, inst, st, n)
    ctx.ob("%s: line segments are stored" % nm, n["line"] > 0, inst)
    if "bez" in nm:
        ctx.ob("%s: curved pieces are stored" % nm, n["curve"] > 0, inst)
    ctx.stats["%s steps" % nm] = dict(n)


def step(ctx, P, ar, nm, inst, st, n):
    ip = ar.ip
    seg = ip.project(st.v["segs"], ("f", 0, 0), None)
    src = st.v["input_segs"]
    if seg[0] != "agg" or seg[1] != INNER:
        return ctx.fail("%s: form of the stored segment" % nm, inst, show(seg)[:300])
    pts = [point(P, ip, x) for x in seg[3:]]
    items = list(dict.fromkeys(x for x in subterms(seg) if x[0] == "item" and x[1][0] == "call" and matches(x[1][1], "re:::monotonic_pieces$")))
    kind = "curve" if items or len(pts) == 4 else "line"
    n[kind] += 1
    rng = st.v["split_from_predecessor"]
    if kind == "line":
        if src[0] == "agg":
            if src[2] != 0:
                return ctx.fail("%s: input of a line is a line" % nm, inst, show(src)[:300])
            ln = src[3]
        else:
            if st.back.facts.get(T("discr", src)) != 0:
                return ctx.fail("%s: input of a line is a line" % nm, inst, show(src)[:300])
            ln = T("fld", src, 0, 0)
        orig = [kpoint(ip, ip.project(ln, ("f", 0, i), None)) for i in (0, 1)]
        ok = rng[0] == "agg" and [fval(x) for x in rng[3:]] == [0.0, 1.0]
        ctx.ob("%s: a line covers the whole of its input" % nm, ok, inst, show(rng)[:200])
    else:
        if len(items) != 1:
            return ctx.fail("%s: a stored curve is one monotonic piece" % nm, inst, show(seg)[:400])
        it = items[0]
        cub = it[1][2]
        ctx.ob("%s: the piece was cut from the recorded input segment" % nm,
               whole_curve(ip, cub, src), inst, "%s / %s" % (show(cub)[:400], show(src)[:100]))
        mp = CRATE + "geom::MonotonicPiece"
        f = lambda name: T("fld", it, 0, field_index(P, mp, name))
        orig = [kpoint(ip, T("fld", f("piece"), 0, i)) for i in range(4)]
        if len(pts) == 2:
            orig = [orig[0], orig[3]]
            ctx.ob("%s: only a horizontal curve is stored as its chord" % nm,
                   flt_orders(st.back, orig[0][0], orig[1][0], False) == frozenset("="), inst, facts_show(st.back)[-400:])
        ok = rng[0] == "agg" and list(rng[3:]) == [f("start_t"), f("end_t")]
        ctx.ob("%s: the parameter range is the piece's" % nm, ok, inst, show(rng)[:300])
    same = pts == orig
    rev = pts == orig[::-1]
    if not ctx.ob("%s: stored control points are the piece's, possibly reversed" % nm, same or rev, inst,
                  "%s vs %s" % ([show(y)[:80] for p in pts for y in p], [show(y)[:80] for p in orig for y in p])):
        return
    ori = st.v["orientation"]
    (y0, x0), (y1, x1) = pts[0], pts[-1]
    bad = []
    k = 0
    # heights and places that are alike, and ones that are far from each other, so that no comparison of a height with a
    # place goes unnoticed
    for by, bx in ((1.0, 1.0), (30.0, 10.0), (10.0, 30.0)):
        for a in (-1.0, 0.0, 1.0):
            for b in (-1.0, 0.0, 1.0):
                env = {y0: by, x0: bx, y1: by + a, x1: bx + b}
                if not holds(st.back, env, partial=True):
                    continue
                k += 1
                if not (0.0, 0.0) <= (a, b):
                    bad.append("stored in the wrong order when dy=%g dx=%g" % (a, b))
                try:
                    o = ev(ori, env)
                except Undet:
                    o = None
                if (a, b) != (0.0, 0.0) and o is not same and o != same:
                    bad.append("orientation %s (%s) when reversed=%s" % (o, show(ori)[:100], not same))
    ctx.stats["orderings"] = ctx.stats.get("orderings", 0) + k
    ctx.ob("%s: %s stored in sweep order with the right orientation (%s)" % (nm, kind, "kept" if same else "reversed"), not bad, inst, "; ".join(bad[:4]))


def fval(t):
    return float(t[1]) if t[0] == "f" else None


def whole_curve(ip, cub, src):
    """cub is src as a cubic: its payload, kurbo's conversion, or a line with end points kept."""
    if cub[0] == "fld" and cub[1] is src:
        return True
    if cub[0] == "call" and cub[1].endswith("::to_cubic") and unref(cub[2]) is src:
        return True
    if cub[0] == "agg":
        ends = []
        for i in (0, 3):
            ends.append((ip.project(cub, ("f", 0, i), None)))
        for var, last in ((0, 1), (1, 2), (2, 3)):
            pay = T("fld", src, var, 0)
            if ends == [T("fld", pay, 0, 0), T("fld", pay, 0, last)]:
                return all(contains(x, lambda y: y is pay) for x in cub[3:])
    return False


def accessors(ctx, P):
    want = {"oriented_start": (0, -1), "oriented_end": (-1, 0)}
    ori_i = field_index(P, SEG, "orientation")
    for nm, (t_end, f_end) in want.items():
        inst = P.one(SEG + "::" + nm)
        ip, a, outs = ctx.analyse(inst)
        me = T("*", a[0])

        def tab(name):
            v = me
            for e in tpath(P, name):
                v = ip.project(v, e, None)
            return T("sel", v, fld(a[1], 0))
        o, seg = tab("orientation"), tab("segs")
        inner = ip.project(seg, ("f", 0, 0), None)
        rows = set()
        for v, s in outs:
            d = s.facts.get(T("discr", inner))
            nv = {0: 2, 1: 4}.get(d)
            oo = s.facts.get(o)
            ok = nv is not None and isinstance(oo, bool)
            if ok:
                want_pt = T("fld", inner, d, (t_end if oo else f_end) % nv)
                ok = v is want_pt
                rows.add((d, oo))
            ctx.ob("%s gives the %s of the original" % (nm, "start" if nm.endswith("start") else "end"), ok, inst,
                   "%s when orientation=%s, variant=%s" % (show(v)[:200], oo, d))
        ctx.ob("%s: all cases" % nm, len(rows) == 4, inst, str(rows))
    for nm, t in (("positively_oriented", "orientation"), ("contour_next", "contour_next"), ("contour_prev", "contour_prev")):
        inst = P.one(SEG + "::" + nm)
        ip, a, outs = ctx.analyse(inst)
        v = T("*", a[0])
        for e in tpath(P, t):
            v = ip.project(v, e, None)
        for r, s in outs:
            ctx.ob("%s reads its own table" % nm, r is T("sel", v, fld(a[1], 0)), inst, show(r)[:200])
