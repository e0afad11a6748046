"""Shared by the checks that look at how contours are walked: Topology::contours interpreted for an
arbitrary winding type and an arbitrary inside predicate."""
from lib import *

TOP = CRATE + "topology::Topology"
HO = CRATE + "topology::HalfOutputSegIdx"
OS = CRATE + "topology::OutputSegIdx"
HW = CRATE + "topology::HalfSegmentWindingNumbers"
HV = CRATE + "topology::HalfOutputSegVec"
NB = CRATE + "topology::PointNeighbors"
CONTOUR = CRATE + "topology::Contour"
OPAQUE = ["re:compute_positions$", "re:segs_to_path$"]


def inside_model(ip, fn, args, atys, rty, s, site, fr):
    """The caller's predicate: an unknown function of the winding number it is given."""
    t = args[1]
    x = t[3] if t[0] == "agg" else ip.project(t, ("f", 0, 0), s)
    return [(T("inside", ip.read_loc(s, ip.target(x))), s)]


def generic_contours(P):
    c = [i for i in P.insts if i["body"] and not i["closure"] and i["path"].startswith(TOP + "::<W>::contours") and "impl Fn" in i["key"]]
    c = [i for i in c if "<W>" in i["key"]] or c
    if len(c) != 1:
        raise EngineError("anchor not found: %s::contours" % TOP)
    return c[0]


def keep(P):
    """Facts by which states are kept apart: about the predicate, and which points are the same."""
    ip = field_index(P, TOP, "point_idx")

    def test(t):
        if t[0] == "inside":
            return True
        if t[0] == "discr":
            return t[1][0] == "sel" and t[1][1][0] == "loop"
        if t[0] == "diff" and any(a[0] == "fld" and a[2] == 1 and a[1][0] == "sel" and a[1][1][0] == "loop" for a, _ in t[1]):
            return True
        if t[0] == "diff" and len(t[1]) == 2 and any(a[0] == "loop" and a[3][0] == "len" and a[3] is b for (a, _), (b, _) in (t[1], t[1][::-1])):
            return True
        return t[0] == "diff" and len(t[1]) == 2 and all(
            a[0] == "fld" and a[1][0] == "sel" and contains(a[1][1], lambda x: x[0] == "fld" and x[3] == ip) for a, _ in t[1])
    return test


class Walk:
    def __init__(self, ctx):
        P = self.P = ctx.P
        self.ctx = ctx
        self.inst = generic_contours(P)
        m = {"core::ops::function::%s::%s" % (a, b): inside_model for a, b in (("Fn", "call"), ("FnMut", "call_mut"), ("FnOnce", "call_once"))}
        self.ip, self.args, self.outs = ctx.analyse(self.inst, opaque=OPAQUE, models=m, keep_facts=keep(P))
        self.me = T("*", self.args[0])
        self.iidx, self.ihalf = field_index(P, HO, "idx"), field_index(P, HO, "first_half")
        self.icc, self.icw = field_index(P, HW, "counter_clockwise"), field_index(P, HW, "clockwise")
        self.ncw = field_index(P, NB, "clockwise")
        self.nccw = field_index(P, NB, "counter_clockwise")
        self.start, self.end = field_index(P, HV, "start"), field_index(P, HV, "end")

    # -------- terms

    def f(self, name):
        return T("fld", self.me, 0, field_index(self.P, TOP, name))

    def otab(self, name):
        """A per-output-edge table (OutputSegVec) of the topology."""
        return T("fld", self.f(name), 0, 0)

    def edge(self, h):
        """The raw index of a half-edge's edge."""
        return fld(fld(h, self.iidx), 0)

    def first(self, s, h):
        b = fld(h, self.ihalf)
        return decide(s, b)

    def half(self, e, b):
        x = [None, None]
        x[self.iidx], x[self.ihalf] = T("agg", OS, 0, e), B(b)
        return T("agg", HO, 0, *x)

    def same_half(self, s, a, b):
        """True / False / None: are the half-edges equal in this state."""
        t = self.ip.band(self.ip.binop("Eq", self.edge(a), self.edge(b), "i"),
                         self.ip.bnot(self.ip.bxor(fld(a, self.ihalf), fld(b, self.ihalf))))
        r = decide(s, t)
        if r is None:
            fa, fb = self.first(s, a), self.first(s, b)
            e = decide(s, self.ip.binop("Eq", self.edge(a), self.edge(b), "i"))
            if e is False:
                return False
            if fa is not None and fb is not None:
                return False if fa != fb else e
        return r

    def side(self, s, h, cw, edge=None):
        """The winding number on one side of a half-edge; None if its direction is open."""
        b = self.first(s, h)
        if b is None:
            return None
        w = T("sel", self.otab("winding"), self.edge(h))
        return T("fld", w, 0, self.icw if cw == b else self.icc)

    def inside(self, s, h, cw):
        w = self.side(s, h, cw)
        return None if w is None else decide(s, T("inside", w))

    def boundary(self, s, e):
        """Is edge e (raw index) on the boundary, in this state?"""
        w = T("sel", self.otab("winding"), e)
        a, b = (decide(s, T("inside", T("fld", w, 0, k))) for k in (self.icw, self.icc))
        if a is None or b is None:
            return decide(s, self.ip.bxor(T("inside", T("fld", w, 0, self.icw)), T("inside", T("fld", w, 0, self.icc))))
        return a != b

    def boundary_side(self, s, e):
        """Is the outside on the counter-clockwise side of the first half of edge e?"""
        d = decide(s, T("inside", T("fld", T("sel", self.otab("winding"), e), 0, self.icc)))
        return None if d is None else not d

    def deleted(self, s, e):
        return decide(s, T("sel", self.otab("deleted"), e))

    def per_half(self, s, h, name):
        """Entry of a per-half-edge table."""
        b = self.first(s, h)
        if b is None:
            return None
        return T("sel", T("fld", self.f(name), 0, self.start if b else self.end), self.edge(h))

    def nbr(self, s, h, cw=True):
        x = self.per_half(s, h, "point_neighbors")
        return None if x is None else T("fld", x, 0, self.ncw if cw else self.nccw)

    # -------- the loops

    def halves(self, st):
        """(root, path, value) of everything in memory that is a half-edge."""
        for root, path, v in slots(self.ip, st):
            if v[0] == "agg" and v[1] == HO or v[0] == "loop" or v[0] == "fld":
                yield root, path, v

    def rotations(self):
        """Loops that step a half-edge to its clockwise (or counter-clockwise) neighbour:
        [(record, symbol, cw)]."""
        out = []
        for r in self.ip.records:
            for root, paths in r.mods.items():
                for path in paths:
                    x = self.ip.read_loc(r.head, (root, path))
                    if x[0] != "loop" or not r.back:
                        continue
                    for cw in (True, False):
                        if all(self.ip.read_loc(b, (root, path)) is self.nbr(b, x, cw) for b in r.back):
                            out.append((r, x, cw))
        return out

    def is_other(self, s, a, b):
        """a is the other half of b."""
        if a[0] == "agg" and a[1] != HO:
            return False
        fa, fb = fld(a, self.ihalf), fld(b, self.ihalf)
        if self.edge(a) is not self.edge(b):
            return False
        if fa is self.ip.bnot(fb):
            return True
        da, db = decide(s, fa), decide(s, fb)
        return da is not None and db is not None and da != db

    def walks(self, rots):
        """Loops that step a half-edge `next` to the other half of where a rotation ended:
        [(record, next, [rotation symbols])]."""
        syms = {x: (r, cw) for r, x, cw in rots}
        out = []
        for r in self.ip.records:
            if not r.back:
                continue
            for root, path, v in self.halves(r.head):
                if not any(root == k for k in r.mods):
                    continue
                used = []
                for b in r.back:
                    nv = self.ip.read_loc(b, (root, path))
                    m = [x for x in syms if self.is_other(b, nv, x)]
                    if not m:
                        break
                    used += m
                else:
                    # `next` is this slot: the rotation starts from it
                    if v[0] == "agg" or any(x[0] == "loop" and x[1] == r.lid for x in subterms(v)):
                        out.append((r, v, list(dict.fromkeys(used)), (root, path)))
        return out, syms

    # -------- the list of contours

    def updates(self, c0, c1):
        """c1 as changes of c0: (contour added or None, [(index, contour)] oldest first), or None."""
        st = []
        while c1[0] == "store":
            st.append((c1[2], c1[3]))
            c1 = c1[1]
        if c1 is c0:
            return None, st[::-1]
        if c1[0] == "push" and c1[1] is c0:
            return c1[2], st[::-1]
        return None

    def paths_written(self, c0, c1):
        """[(index, path)] of the contours that get a path; None if the list changes otherwise."""
        u = self.updates(c0, c1)
        if u is None:
            return None
        ipath = field_index(self.P, CONTOUR, "path")
        out = []
        n = self.ip.length(c0)
        if u[0] is not None and not is_empty_path(fld(u[0], ipath)):
            out.append((n, fld(u[0], ipath)))
        for i, v in u[1]:
            out.append((i, fld(v, ipath)))
        return out

    def rest_slot(self, r, cont):
        """Index terms of the contour that gets what is left of the walk at its end: the reserved
        one, or what a variable that starts with the reserved one says."""
        base = self.ip.read_loc(r.pre, cont)
        res = self.ip.length(base[1])
        out = [res]
        for root, paths in r.mods.items():
            for p in paths:
                x = self.ip.read_loc(r.head, (root, p))
                if x[0] == "loop" and x[1] == r.lid and x[3] is res:
                    out.append(x)
                if x[0] == "loop" and x[1] == r.lid and x[3][0] == "agg" and len(x[3]) == 4 and x[3][3] is res:
                    out.append(fld(x, 0))
        return out


def is_empty_path(t):
    return t[0] == "agg" and len(t) == 4 and t[3][0] == "empty"
