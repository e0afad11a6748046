"""The two scans for intersections are interpreted abstractly, comparisons and the geometry of segments being left
uninterpreted.  The loop over the neighbours is decided by induction: every way through its body schedules what the
comparison asks for and nothing else, keeps the height bound, and goes on to the next neighbour; every way out of it has
one of the reasons for which the rest cannot matter."""
from props.linectx import *

FLOOR = 30
OPAQUE = GEOM + ["re:^linesweeper::curve::CurveOrder::(next_touch_after|entry_at|order_at|order_after)$"]


def run(ctx):
    ctx.rule("each neighbour is compared and what it asks for is scheduled, until the rest is too far away or decided beyond the bound")
    ctx.assumption("what a comparison answers is a matter of P11, P24, P29; the ordered tree is a sequence (P64)")
    for name, right in (("intersection_scan_right", True), ("intersection_scan_left", False)):
        s = Scan(ctx, name, right)
        ctx.guard(name, SWEEPER, s.run)


class Scan:
    def __init__(self, ctx, name, right):
        self.ctx, self.P, self.name, self.right = ctx, ctx.P, name, right

    def ob(self, name, ok, detail=""):
        self.ctx.ob("%s: %s" % (self.name, name), ok, self.inst, detail)

    def run(self):
        P, ctx = self.P, self.ctx
        self.inst = method(P, self.name)
        ip = self.ip = ctx.interp(OPAQUE, models=line_models(P), keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        args = ip.sym_args(self.inst)
        outs = ip.run(self.inst, args)
        ctx.funcs |= ip.analysed
        self.root, base = ip.target(args[0])
        self.me = T("*", args[0])
        self.line = self.parts(self.me, path_of(P, "line") + (("f", 0, field_index(P, SW + "SegmentOrder", "segs")),))
        self.evpath = path_of(P, "events", "intersection")
        self.events0 = self.parts(self.me, self.evpath)
        self.y, self.eps, self.segs = (self.parts(self.me, path_of(P, n)) for n in ("y", "eps", "segments"))
        self.start = args[1]
        self.fseg = ("f", 0, field_index(P, SW + "SegmentOrderEntry", "seg"))
        self.segidx = self.seg_at(self.start)
        self.left = variant_index(P, CRATE + "curve::Order", "Left")
        self.ev = {n: field_index(P, SW + "IntersectionEvent", n) for n in ("y", "left", "right")}
        lids = []
        for v, s in outs:
            now = ip.read_loc(s, (self.root, self.evpath))
            here = self.outer(ip, s)
            if not here:
                self.ob("only a segment that ends here is not scanned for", surely(s, self.end(self.segidx), self.y, "="), facts_show(s)[:300])
                self.ob("nothing is scheduled for a segment that ends here", now is self.events0, show(now)[:200])
            for lid in here:
                if lid not in lids:
                    lids.append(lid)
        self.ob("there is a scan", len(lids) == 1, str(lids))
        n = 0
        for r in ip.records:
            if r.lid in lids:
                ctx.guard("%s: the loop" % self.name, self.inst, lambda: self.loop(ip, r))
                n += 1
        self.ob("the scan is analysed", n > 0)

    def parts(self, v, path):
        for e in path:
            v = self.ip.project(v, e, None)
        return v

    def seg_at(self, j):
        return self.ip.project(T("sel", self.line, j), self.fseg, None)

    def geom(self, what, idx):
        """The term of a geometric query of a segment."""
        key = (what, idx)
        if not hasattr(self, "_geom"):
            self._geom = {}
            for r in self.ip.records:
                for st in r.back + r.exit + [r.head]:
                    for k in list(st.rel) + list(st.facts):
                        for t in (k if isinstance(k, tuple) and not isinstance(k, Term) else (k,)):
                            if isinstance(t, Term):
                                self.note(t)
                    for root, v in st.mem.items():
                        if isinstance(v, Term) and root[0] in ("L", "P"):
                            self.note(v)
        return self._geom.get(key)

    def note(self, t):
        for x in subterms(t):
            if x[0] == "call" and "geom::Segment::" in x[1] and len(x) == 3:
                g = unref(x[2])
                if g[0] == "sel":
                    self._geom[(x[1].split("::")[-1], g[2])] = x

    def q(self, what, idx):
        i = self.ip.project(idx, ("f", 0, 0), None)
        t = self.geom(what, i)
        if t is None:
            raise EngineError("no %s of %s" % (what, show(idx)[:100]))
        return t

    def end(self, idx):
        return self.ip.project(self.q("end", idx), ("f", 0, field_index(self.P, CRATE + "geom::Point", "y")), None)

    def outer(self, ip, s):
        """The loops over neighbours that a state has come through."""
        out = []
        for r in ip.records:
            if r.no in s.via and r.lid not in out and any(x[0] == "sel" and x[1] is self.line and loops_in(ip, x[2]) and loops_in(ip, x[2])[0][1] == r.lid
                                                          for b in r.back + r.exit for k in self.terms(b) for x in subterms(k)):
                out.append(r.lid)
        return out

    def terms(self, st):
        for k in list(st.rel) + list(st.facts):
            for t in (k if not isinstance(k, Term) else (k,)):
                if isinstance(t, Term):
                    yield t

    def pos(self, ip, r):
        js = []
        for b in r.back + r.exit:
            for k in self.terms(b):
                for x in subterms(k):
                    if x[0] == "sel" and x[1] is self.line and x[2] not in js and any(l[1] == r.lid for l in loops_in(ip, x[2])):
                        js.append(x[2])
        if len(js) != 1:
            raise EngineError("which neighbour a step is about: %s" % [show(j)[:80] for j in js])
        return js[0]

    def loop(self, ip, r):
        j = self.pos(ip, r)
        d = 1 if self.right else -1
        self.ob("the nearest neighbour first", at_entry(ip, r.lid, j) is iadd(self.start, I(d)), show(at_entry(ip, r.lid, j))[:100])
        other = self.seg_at(j)
        # where the height bound is kept
        bounds = [(root, p, x) for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == r.lid and loop_at(ip, x)[3] is self.end(self.segidx)]
        ev0 = ip.read_loc(r.head, (self.root, self.evpath))
        for b in r.back:
            self.ob("the next neighbour next", isub(after_step(ip, r.lid, j, b), j) is I(d), show(after_step(ip, r.lid, j, b))[:100])
            self.step(ip, r, b, j, other, bounds, ev0, False)
        self.ob("there is another neighbour", len(r.back) > 0)
        for b in r.exit:
            n = ip.length(self.line)
            o = int_orders(b, j, n) if self.right else int_orders(b, j, I(0))
            ended = o <= frozenset("=>") if self.right else o <= frozenset("<")
            if ended:
                self.ob("nothing is scheduled past the last neighbour", ip.read_loc(b, (self.root, self.evpath)) is ev0, facts_show(b)[:300])
                continue
            self.step(ip, r, b, j, other, bounds, ev0, True)

    def step(self, ip, r, b, j, other, bounds, ev0, stop):
        what = facts_show(b)[:900]
        ev = ip.read_loc(b, (self.root, self.evpath))
        mine, its = self.segidx, other
        a, c = (mine, its) if self.right else (its, mine)
        oend = self.end(its)
        y = self.y
        if surely(b, oend, y, "="):
            self.ob("a neighbour that ends here is passed over", not stop and ev is ev0 and self.kept(ip, b, bounds, []), what)
            return
        if stop and self.far(ip, b, its):
            self.ob("nothing is scheduled for a neighbour too far away", ev is ev0, what)
            return
        # compared, and what it asks for scheduled
        order = T("order", "comparisons", a, c)
        touch = [t for t in {k[1] for k in b.facts if k[0] == "discr"} if t[0] == "call" and t[1].endswith("next_touch_after") and unref(t[2]) is order and t[3] is y]
        if len(touch) != 1:
            self.ob("every other neighbour is compared, left with right", False, what)
            return
        self.ob("every other neighbour is compared, left with right", True)
        touch = touch[0]
        there = self.which(b, touch, 2)
        new = []
        if there == 1:
            t = fld(touch, 0, 1)
            cross = variant_index(self.P, CRATE + "curve::CurveInteraction", "Cross")
            kind = self.which(b, t, 2)
            if kind is None:
                raise EngineError("crossing or touch: %s" % what)
            h = fld(t, 0, kind)
            got = ev[2] if ev[0] == "setinsert" and ev[1] is ev0 else None
            if kind == cross:
                ok = got is not None and self.event(ip, b, got, a, c) and self.later(b, ip.project(got, ("f", 0, self.ev["y"]), b), h)
                self.ob("a crossing is scheduled, not before the current height", ok, "%s where %s" % (show(ev)[:300], what))
                if ok:
                    new = [ip.project(got, ("f", 0, self.ev["y"]), b)]
            elif got is None:
                self.ob("a touch is left out only if it is not later", ev is ev0 and never(b, h, y, ">"), "%s where %s" % (show(ev)[:200], what))
            else:
                ok = self.event(ip, b, got, c, a) and ip.project(got, ("f", 0, self.ev["y"]), b) is h and surely(b, h, y, ">")
                self.ob("a touch that is later is scheduled, sides exchanged", ok, "%s where %s" % (show(ev)[:300], what))
                new = [h]
        elif there == 0:
            self.ob("nothing is scheduled without a touch", ev is ev0, "%s where %s" % (show(ev)[:200], what))
        else:
            raise EngineError("whether there is a touch: %s" % what)
        if stop:
            self.ob("a scan stops early only where the order is decided beyond the bound", self.decided(ip, b, r, bounds, [oend] + new, a, c), what)
        else:
            self.ob("the bound is kept", self.kept(ip, b, bounds, [oend] + new), "%s where %s" % ([show(ip.read_loc(b, x[:2]))[:200] for x in bounds], what))

    def which(self, b, t, n):
        d = b.facts.get(T("discr", t))
        if isinstance(d, frozenset):
            left = set(range(n)) - d
            return left.pop() if len(left) == 1 else None
        return d

    def event(self, ip, b, got, l, r):
        return all(ip.project(got, ("f", 0, self.ev[n]), b) is x for n, x in (("left", l), ("right", r)))

    def later(self, b, t, h):
        """t is the later of the current height and h."""
        return is_least(b, t, [self.y, h], "fmax")

    def kept(self, ip, b, bounds, more):
        """The bound is the least of what it was and of these heights."""
        if not bounds:
            return True
        return any(is_least(b, ip.read_loc(b, (root, p)), [x] + more) for root, p, x in bounds)

    def far(self, ip, b, its):
        """The neighbour is known to be too far away."""
        f = (lambda: (self.q("max_x", self.segidx), self.q("min_x", its))) if self.right else (lambda: (self.q("max_x", its), self.q("min_x", self.segidx)))
        try:
            lo, hi = f()
        except EngineError:
            return False
        for key in b.rel:
            for x, z in (key[:2], key[1::-1]):
                if surely(b, x, z, "<"):
                    d = fpoly(T("fsub", T("fsub", hi, lo), T("fsub", z, x)))
                    for k in (1.5, 2.0, 2.5, 3.0, 4.0):
                        if d == fpoly(T("fmul", F(k), self.eps)):
                            return True
        return False

    def decided(self, ip, b, r, bounds, more, a, c):
        order = T("order", "conservative_comparisons", a, c)
        for y1, o in self.first_after(ip, b, order):
            if self.which(b, o, 3) != self.left:
                continue
            for key in b.rel:
                for x, z in (key[:2], key[1::-1]):
                    if x is y1 and surely(b, x, z, ">=") and any(is_least(b, z, [h] + more) for _, _, h in bounds):
                        return True
            if any(self.bounded(b, y1, [h] + more) for _, _, h in bounds):
                return True
        return False

    def bounded(self, b, y1, hs):
        return any(surely(b, y1, h, ">=") for h in hs)

    def first_after(self, ip, b, order):
        """[(end, order)] of the first interval of a comparison that ends after the current height."""
        out = []
        iv = T("intervals", order)
        for t in {x for k in self.terms(b) for x in subterms(k)}:
            if t[0] == "call" and t[1].endswith("CurveOrder::entry_at") and unref(t[2]) is order and t[3] is self.y:
                out.append((fld(t, 1), fld(t, 2)))
            if t[0] == "sel" and t[1] is iv:
                k = t[2]
                y1, o = ip.project(t, ("f", 0, 1), None), ip.project(t, ("f", 0, 2), None)
                l = loop_at(ip, k)
                if l and at_entry(ip, l[0], k) is I(0) and surely(b, y1, self.y, ">"):
                    back = [x for rr in ip.records if rr.lid == l[0] and rr.no in b.via for x in rr.back]
                    if back and all(isub(after_step(ip, l[0], k, x), k) is I(1) and never(x, y1, self.y, ">") for x in back):
                        out.append((y1, o))
        return out
