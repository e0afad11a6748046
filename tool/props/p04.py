"""The function that turns one sweep-line range into output segments is interpreted abstractly with
all helpers inlined and all loops generalised.  Every place that appends an output segment is found
as a loop step that grows the winding table, and on each such step: the counter-clockwise winding is
the clockwise winding plus exactly one contribution, computed from the tag of the very input segment
recorded as the segment's origin and from the orientation recorded with it; the clockwise winding is
the running counter and the counter-clockwise one becomes the running counter; the orientation is
the input segment's own for segments going down and that corrected by the direction of travel for
horizontal ones; the running counter of the whole line starts at the west neighbour's winding (zero
without one) and is changed by nothing but the segments going down; horizontal segments start from it."""
from props.sweepctx import *

FLOOR = 20


def comps(t):
    return (fld(t, 0), fld(t, 1))


def plus(a, b):
    return tuple(iadd(x, y) for x, y in zip(comps(a), comps(b)))


def run(ctx):
    P = ctx.P
    ctx.rule("ccw = cw + single(tag[origin], orientation); cw = running winding; running' = ccw; start = west neighbour's ccw or 0")
    inst, ip, args, outs = process_range(ctx, tables=False)
    me = ("P", args[0])
    found, stray = creations(ctx, P, ip, me, outs)
    ctx.ob("segments are only created by the loops examined", not stray, inst, "; ".join(show(x)[:200] for x in stray))
    icc, icw = field_index(P, HW, "counter_clockwise"), field_index(P, HW, "clockwise")
    done = set()
    kinds = {}
    oris = {}
    for c in found:
        po = pushed(ip, c.rec.head, c.back, me, inner(P, "orig_seg"))
        pp = pushed(ip, c.rec.head, c.back, me, inner(P, "positively_oriented"))
        key = (c.rec.lid, tuple(c.new), tuple(po or ()), tuple(pp or ()))
        if po and pp:
            oris.setdefault((c.rec.lid, po[0]), []).append((c, pp[0]))
        if key in done:
            continue
        done.add(key)
        ctx.guard("creation", inst, lambda: one(ctx, P, ip, inst, args, me, c, po, pp, icc, icw, kinds))
    for (lid, seg), cs in oris.items():
        ctx.guard("orientation", inst, lambda: orientation(ctx, P, ip, inst, seg, cs))
    ctx.ob("segments going down are created", "down" in kinds, inst, str(sorted(kinds)))
    ctx.ob("horizontal segments are created", "horizontal" in kinds, inst, str(sorted(kinds)))
    for d in kinds.get("down", {}).values():
        for h in kinds.get("horizontal", {}).values():
            ctx.guard("flow", inst, lambda: flow(ctx, P, ip, inst, args, me, d, h, icc))


def one(ctx, P, ip, inst, args, me, c, po, pp, icc, icw, kinds):
    ctx.ob("one segment per step", len(c.new) == 1 and po is not None and pp is not None and len(po) == len(pp) == 1, inst,
           "winding %d, origin %s, orientation %s" % (len(c.new), po and len(po), pp and len(pp)))
    w, seg, ori = c.new[0], po[0], pp[0]
    cc, cw = fld(w, icc), fld(w, icw)
    horiz = is_horizontal_item(ip, seg, c)
    nm = "horizontal" if horiz else "down"
    singles = [x for x in subterms(cc) if x[0] == "call" and matches(x[1], "re:WindingNumber>::single$")]
    if not ctx.ob(nm + ": exactly one contribution is added", len(singles) == 1, inst, show(cc)[:300]):
        return
    sg = singles[0]
    ctx.ob(nm + ": counter-clockwise = clockwise + contribution", comps(cc) == plus(cw, sg), inst,
           "cc=%s cw=%s" % (show(cc)[:300], show(cw)[:200]))
    tag = sg[2]
    tagvec = ip.read_loc(c.rec.head, (me, (tf(P, "tag"), ("f", 0, 0))))
    want = T("sel", tagvec, fld(seg, 0))
    ctx.ob(nm + ": contribution uses the tag of the recorded origin", tag is want, inst, "%s vs %s" % (show(tag)[:200], show(want)[:200]))
    ctx.ob(nm + ": recorded orientation is the one counted", equal_bool(sg[3], ori), inst, "%s vs %s" % (show(sg[3])[:200], show(ori)[:200]))
    # the running counter
    slot = None
    for root, path, v in slots(ip, c.rec.head):
        if comps(v) == comps(cw) and (path == () or v is cw) and root[0] != "K":
            nv = ip.read_loc(c.back, (root, path))
            if comps(nv) == comps(cc):
                slot = (root, path)
    if not ctx.ob(nm + ": clockwise is the running counter and counter-clockwise becomes it", slot is not None, inst,
                  "no variable holds %s before and %s after" % (show(cw)[:200], show(cc)[:200])):
        return
    kinds.setdefault(nm, {})[c.rec.lid] = (c, slot)


def orientation(ctx, P, ip, inst, seg, cs):
    """The recorded orientation as a truth table over the input segment's own orientation and the
    direction of travel that comes with the segment."""
    c = cs[0][0]
    nm = "horizontal" if is_horizontal_item(ip, seg, c) else "down"
    terms = [o for _, o in cs] + [t for c2, _ in cs for t in c2.back.facts if c2.rec.head.facts.get(t) is None]
    pos, sib = set(), set()
    for t in terms:
        for x in subterms(t):
            if x[0] == "call" and matches(x[1], "re:Segments::positively_oriented$"):
                pos.add(x)
    for _, o in cs:
        sib |= {x for x in leaves(o, None) if x not in pos}
    if nm == "horizontal":
        for t in terms:
            sib |= {x for x in leaves(t, None) if is_sibling(x, seg)}
    if not ctx.ob(nm + ": orientation comes from the input segment", len(pos) == 1 and all(x[3] is seg for x in pos), inst,
                  "; ".join(show(x)[:200] for x in pos)):
        return
    p = next(iter(pos))
    if nm == "down":
        if not ctx.ob("down: orientation depends on nothing else", not sib, inst, "; ".join(show(x)[:200] for x in sib)):
            return
        envs = [({p: a}, a) for a in (False, True)]
    else:
        if not ctx.ob("horizontal: direction of travel comes with the segment", len(sib) == 1 and is_sibling(next(iter(sib)), seg), inst,
                      "; ".join(show(x)[:200] for x in sib)):
            return
        q = next(iter(sib))
        envs = [({p: a, q: b}, a == b) for a in (False, True) for b in (False, True)]
    for env, want in envs:
        got = {ev(o, env) for c2, o in cs if holds(c2.back, env, partial=True)}
        label = "down: orientation is the input segment's" if nm == "down" else "horizontal: orientation flips with the direction of travel"
        ctx.ob(label, got == {want}, inst, "%s gives %s" % (sorted(env.values()), got))


def is_horizontal_item(ip, seg, c):
    return bool(calls_in(seg, "re:active_horizontals_and_orientations$")) or is_horizontal_source(ip, seg, c)


def equal_bool(a, b):
    return a is b


def is_horizontal_source(ip, seg, c):
    """The segment is half of an item that pairs it with its direction of travel."""
    # items come out of iterators that were made by one of the two range queries
    for root, path, v in slots(ip, c.rec.pre):
        if contains(v, lambda x: x[0] == "call" and matches(x[1], "re:active_horizontals_and_orientations$")) and \
                contains(seg, lambda x: x[0] == "loop" and x[2] is T("at", ip.rootname(root), path)):
            return True
    return False


def is_sibling(t, seg):
    """t is another field of the same item as seg."""
    t = unref(t)
    return t[0] == "fld" and seg[0] == "fld" and t[1] is seg[1] and t[3] != seg[3]


def leaves(t, skip):
    out = []

    def go(x):
        if x is skip:
            return
        if x[0] in ("not", "and", "or", "xor"):
            for y in x[1:]:
                go(y)
        elif x[0] == "cmp":
            go(x[3]), go(x[4])
        elif x[0] in ("i", "b"):
            return
        elif x[0] == "bool2int":
            go(x[1])
        elif x not in out:
            out.append(x)
    go(t)
    return out


def flow(ctx, P, ip, inst, args, me, d, h, icc):
    """The line's counter: initial value, untouched by anything but the down loop; horizontals start from it."""
    (dc, dslot), (hc, hslot) = d, h
    dname = ip.rootname(dslot[0])

    def is_d(t, p):
        """t is the line's counter as the loop over the segments going down leaves it."""
        l = loop_at(ip, t)
        return l is not None and l[0] == dc.rec.lid and l[1] is dname and l[2] == p
    for c in (0, 1):
        p = dslot[1] + (("f", 0, c),)
        # horizontals start from the counter after the down loop
        hv = [ip.read_loc(r.pre, (hslot[0], hslot[1] + (("f", 0, c),))) for r in ip.records if r.lid == hc.rec.lid]
        dv = [ip.read_loc(r.pre, (dslot[0], p)) for r in ip.records if r.lid == hc.rec.lid]
        ok = all(a is b for a, b in zip(hv, dv)) and all(is_d(a, p) for a in dv)
        ctx.ob("horizontals start from the line's counter (component %d)" % c, ok, inst, "; ".join(show(x)[:150] for x in hv[:3]))
        # around them: the enclosing loop
        n = 0
        for r in ip.records:
            if r.lid in (dc.rec.lid, hc.rec.lid):
                continue
            for b in r.back:
                if not any(x[0] == "loop" and len(x) == 2 and x[1] == dc.rec.lid for x in b.ev[len(r.pre.ev):]):
                    continue
                hd = ip.read_loc(r.head, (dslot[0], p))
                bk = ip.read_loc(b, (dslot[0], p))
                n += 1
                l = loop_at(ip, bk)
                if not (is_d(bk, p) and l[3] is hd):
                    ctx.fail("the line's counter is changed only by segments going down (component %d)" % c, inst, show(bk)[:300])
                init = ip.read_loc(r.pre, (dslot[0], p))
                key = ("init", c)
                check_init(ctx, P, ip, inst, args, me, r.pre, init, c, icc)
        ctx.ob("the line's counter is changed only by segments going down (component %d)" % c, n > 0, inst, "%d paths" % n)


def check_init(ctx, P, ip, inst, args, me, pre, init, c, icc):
    west = args[3]
    opt = pre.facts.get(T("discr", west))
    wvec = T("fld", T("fld", T("*", args[0]), 0, tf(P, "winding")[2]), 0, 0)
    w = T("fld", T("fld", T("sel", wvec, fld(fld(west, 0, 1), 0)), 0, icc), 0, c)
    seen = ctx.stats.setdefault("line starts", [])
    if opt == 0:
        ok = init is I(0)
    elif opt == 1:
        ok = init is w
    else:
        ok = False
    k = "%s/%d" % ({0: "no west neighbour", 1: "west neighbour"}.get(opt, "?"), c)
    if not ok or k not in seen:
        seen.append(k)
        ctx.ob("a line starts at the west neighbour's winding or zero (%s)" % k, ok, inst, "%s, expected %s" % (show(init)[:300], show(w)[:200] if opt else "0"))
