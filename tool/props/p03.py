"""The accessors of output half-edges are interpreted abstractly on a symbolic topology and a
symbolic half-edge, and composed with one another: the winding number on the clockwise side of a
half-edge must be the one on the counter-clockwise side of the other half of the same edge, as the
same stored component, and the stored record must be that of the half-edge's own edge; taking the
other half twice gives the half-edge back and once never does; first and second halves are what they
say and keep the edge; shared and mutable indexing of per-half-edge tables reach the same element,
and different halves reach different tables."""
from lib import *

FLOOR = 16
TOP = CRATE + "topology::Topology"
HO = CRATE + "topology::HalfOutputSegIdx"
OS = CRATE + "topology::OutputSegIdx"
HV = CRATE + "topology::HalfOutputSegVec"
HW = CRATE + "topology::HalfSegmentWindingNumbers"


def pick(P, path):
    r = [i for i in P.insts if i["body"] and i["path"] == path]
    if not r:
        raise EngineError("anchor not found: %s" % path)
    return r[0]


def run(ctx):
    P = ctx.P
    ctx.rule("cw(h) = ccw(other(h)); other(other(h)) = h; index(h) = index_mut(h), start and end tables apart")
    iidx, ihalf = field_index(P, HO, "idx"), field_index(P, HO, "first_half")

    def half(e, b):
        x = [None, None]
        x[iidx], x[ihalf] = e, B(b)
        return T("agg", HO, 0, *x)

    E = T("var", "edge")

    def halves():
        for nm, want in (("first_half", True), ("second_half", False)):
            inst = pick(P, OS + "::" + nm)
            ip, a, outs = ctx.analyse(inst, args=[E])
            for v, s in outs:
                ctx.ob("%s: same edge, right end" % nm, T(*v[:3], *(ip.project(v, ("f", 0, k), s) for k in range(2))) is half(E, want), inst, show(v))
        inst = pick(P, HO + "::other_half")
        for b in (True, False):
            ip, a, outs = ctx.analyse(inst, args=[half(E, b)])
            ctx.ob("other_half of %s half: same edge, other end" % b, [ev_half(ip, v, s, iidx, ihalf, E) for v, s in outs] == [not b], inst,
                   str([show(v) for v, s in outs]))
        inst = pick(P, HO + "::is_first_half")
        for b in (True, False):
            ip, a, outs = ctx.analyse(inst, args=[half(E, b)])
            ctx.ob("is_first_half of %s half" % b, [v for v, s in outs] == [B(b)], inst, str([show(v) for v, s in outs]))
    ctx.guard("halves", HO, halves)

    def windings():
        icc, icw = field_index(P, HW, "counter_clockwise"), field_index(P, HW, "clockwise")
        got = {}
        for nm in ("winding_clockwise", "winding_counter_clockwise"):
            inst = pick(P, TOP + "::<W>::" + nm)
            me = T("sym", "self")
            for b in (True, False):
                ip, a, outs = ctx.analyse(inst, args=[ip_self(ctx, inst), half(E, b)])
                vs = {place(ip, v, s) for v, s in outs}
                if ctx.ob("%s: one stored component (%s half)" % (nm, b), len(vs) == 1, inst, str([show(v)[:200] for v in vs])):
                    got[nm, b] = vs.pop()
                    x = got[nm, b]
                    ok = x[0] == "fld" and x[1][0] == "sel" and fld(E, 0) in (x[1][2],) and \
                        contains(x[1][1], lambda y: y[0] == "fld" and y[3] == field_index(P, TOP, "winding"))
                    ctx.ob("%s: of the half-edge's own edge (%s half)" % (nm, b), ok, inst, show(x)[:300])
        for b in (True, False):
            ctx.ob("clockwise of one half is counter-clockwise of the other (%s half)" % b,
                   got.get(("winding_clockwise", b)) is got.get(("winding_counter_clockwise", not b)) and got.get(("winding_clockwise", b)) is not None, TOP,
                   "%s / %s" % (show(got.get(("winding_clockwise", b), UNIT)), show(got.get(("winding_counter_clockwise", not b), UNIT))))
        # the stored record belongs to the first half
        x, y = got.get(("winding_clockwise", True)), got.get(("winding_counter_clockwise", True))
        ctx.ob("the first half's sides are the record's own", x is not None and y is not None and x[3] == icw and y[3] == icc and x is not y, TOP,
               "%s / %s" % (x and show(x), y and show(y)))
    ctx.guard("windings", TOP, windings)

    def tables():
        got = {}
        n = 0
        for tr, nm in (("core::ops::index::Index<%s>" % HO, "index"), ("core::ops::index::IndexMut<%s>" % HO, "index_mut")):
            r = [i for i in P.insts if i["body"] and i["key"].startswith("<" + HV + "<") and i["path"].endswith("::" + nm) and "HalfOutputSegIdx" in i["key"]]
            if not r:
                raise EngineError("anchor not found: %s for %s" % (nm, HV))
            inst = r[0]
            for b in (True, False):
                ip, a, outs = ctx.analyse(inst, args=[ip_self(ctx, inst), half(E, b)])
                vs = {place(ip, v, s) for v, s in outs}
                if ctx.ob("%s: one element (%s half)" % (nm, b), len(vs) == 1, inst, str([show(v)[:200] for v in vs])):
                    got[nm, b] = vs.pop()
                    x = got[nm, b]
                    ctx.ob("%s: at the edge's index (%s half)" % (nm, b), x[0] == "sel" and x[2] is fld(E, 0), inst, show(x)[:300])
        for b in (True, False):
            ctx.ob("shared and mutable indexing agree (%s half)" % b, got.get(("index", b)) is not None and got.get(("index", b)) is got.get(("index_mut", b)), HV,
                   "%s / %s" % (got.get(("index", b)), got.get(("index_mut", b))))
        ctx.ob("the two halves are stored apart", got.get(("index", True)) is not got.get(("index", False)), HV)
    ctx.guard("tables", HV, tables)

    def point():
        inst = pick(P, TOP + "::<W>::point")
        for b in (True, False):
            ip, a, outs = ctx.analyse(inst, args=[ip_self(ctx, inst), half(E, b)])
            for v, s in outs:
                x = place(ip, v, s)
                ok = x[0] == "sel" and contains(x[1], lambda y: y[0] == "fld" and y[3] == field_index(P, TOP, "points")) \
                    and contains(x[2], lambda y: y[0] == "sel" and y[2] is fld(E, 0) and contains(y[1], lambda z: z[0] == "fld" and z[3] == field_index(P, TOP, "point_idx")))
                ctx.ob("point: the point the half-edge is incident to (%s half)" % b, ok, inst, show(x)[:300])
    ctx.guard("point", TOP, point)


def ip_self(ctx, inst):
    return T("var", "self")


def ev_half(ip, v, s, iidx, ihalf, e):
    if ip.project(v, ("f", 0, iidx), s) is not e:
        return None
    h = ip.project(v, ("f", 0, ihalf), s)
    return h[1] if h[0] == "b" else None


def place(ip, v, s):
    """The value behind a returned reference."""
    if v[0] == "&":
        return v[1]
    if v[0] == "ref":
        return ip.read_loc(s, (v[1], v[2]))
    return T("*", v)
