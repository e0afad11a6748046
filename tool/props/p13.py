"""The function that consumes one sweep-line range is interpreted abstractly with all helpers inlined
(tables per half-edge as maps).  Going back in time from the end of every step of the loop over the
points, the table of ring links is taken apart into changes of single links and into loops; every
loop step must append one half-edge to the one or the other end of the chain built so far, and outside
of these loops nothing but the link between the two ends may change.  The half-edges appended are traced
to the lists they come from, and these to the sources of their elements; the sequences of sources along
all paths are composed to the order around the point and compared with the expected one."""
from props.sweepctx import *

FLOOR = 15
PN = CRATE + "topology::PointNeighbors"
HO_ = CRATE + "topology::HalfOutputSegIdx"
CW, CCW = "clockwise", "counter_clockwise"


def run(ctx):
    P = ctx.P
    ctx.assumption("tables per half-edge behave as maps (P03); what is taken from the lists of open edges is decided by P02")
    ctx.rule("ring(point) = down-going edges and starting horizontals counter-clockwise of, ending horizontals and edges from above clockwise of; links pairwise; closed")
    inst, ip, args, outs = process_range(ctx, tables=False, keep_facts=lambda t: t[0] == "discr" and t[1][0] == "loop")
    ctx.guard("rings", inst, lambda: Rings(ctx, P, inst, ip, args, outs).check())


def option(s, v):
    """0, 1 or None: is the option value known to be absent or present?"""
    if v[0] == "agg":
        return v[2]
    d = s.facts.get(T("discr", v))
    if isinstance(d, frozenset):
        return 0 if 1 in d else 1 if 0 in d else None
    return d


class Rings:
    def __init__(self, ctx, P, inst, ip, args, outs):
        self.ctx, self.P, self.inst, self.ip, self.args, self.outs = ctx, P, inst, ip, args, outs
        self.me = ("P", args[0])
        self.nl = (self.me, (tf(P, "point_neighbors"),))
        self.pl = (self.me, (tf(P, "point_idx"),))
        self.pts = (self.me, inner(P, "points"))
        self.fi = {n: field_index(P, PN, n) for n in (CW, CCW)}
        self.done = {}
        self.slot = None

    def rd(self, st, loc):
        return self.ip.read_loc(st, loc)

    def check(self):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        outer = [r for r in ip.records if any(self.new_points(r, b) for b in r.back)]
        lids = {r.lid for r in outer}
        if not ctx.ob("points are added by one loop", len(lids) == 1, inst, str(lids)):
            return
        self.lid = lids.pop()
        self.find_slots()
        self.p = self.ip.length(self.rd(outer[0].head, self.pts))
        for r in ip.records:
            if r.lid != self.lid and any(self.placed(r, b) for b in r.back):
                self.done["ring", r.no] = self.ring(r)
        if not ctx.ob("half-edges are linked around their points", self.slot is not None, inst):
            return
        n = 0
        for r in outer:
            self.outer = r
            for b in r.back:
                n += 1
                ctx.guard("one point", inst, lambda: self.point(r, b))
        for v, s in self.outs:
            l = loop_at(ip, self.rd(s, self.nl))
            ctx.ob("rings are only built point by point", l is not None and l[0] == self.lid, inst, show(self.rd(s, self.nl))[:200])
        ctx.stats["points"] = n
        ctx.stats["ring loops"] = len([k for k in self.done if k[0] == "ring"])

    def new_points(self, r, b):
        return pushed(self.ip, r.head, b, *self.pts)

    # ---- the two ends of the chain

    def find_slots(self):
        """The places that remember the first and the last half-edge around the point: the optional
        half-edges set in the loops that write the points of half-edges."""
        ip = self.ip
        c = {}
        for r in ip.records:
            if r.lid == self.lid:
                continue
            for b in r.back:
                seg = self.placed(r, b)
                if not seg:
                    continue
                for root, path, h in slots(ip, r.head):
                    v = ip.read_loc(b, (root, path))
                    if v is not h and v[0] == "agg" and v[2] == 1 and len(v) == 4 and v[3] is seg[0][0]:
                        c.setdefault((root, path), set()).add(r.lid)
        if len(c) != 2:
            raise EngineError("cannot tell where the ends of the ring are: %s" % sorted(map(str, c)))
        self.slots = sorted(c, key=str)

    def placed(self, r, b):
        """[(half-edge, point)] recorded between two states."""
        h, v = self.rd(r.head, self.pl), self.rd(b, self.pl)
        out = []
        while v is not h and v[0] == "store":
            out.append((v[2], v[3]))
            v = v[1]
        return out if v is h or self.extends(r, b, self.pl, v) else None

    def extends(self, r, b, loc, v):
        """v is the table the step started with, after adding an entry for each edge created in the step."""
        ip, h = self.ip, self.rd(r.head, loc)
        n = len(pushed(ip, r.head, b, self.me, inner(self.P, "winding")) or ())
        for k in (0, 1):
            x, o = ip.project(v, ("f", 0, k), None), ip.project(h, ("f", 0, k), None)
            for _ in range(n):
                if x[0] != "push":
                    return False
                x = x[1]
            if x is not o:
                return False
        return n > 0

    # ---- link changes

    def links(self, t):
        """(table before, changed links [(half-edge, direction, target)], newest first)."""
        out = []
        while t[0] == "store":
            prev, i, v = t[1], t[2], t[3]
            n = 0
            for d, k in self.fi.items():
                x = self.ip.project(v, ("f", 0, k), None)
                if x is self.ip.project(T("sel", prev, i), ("f", 0, k), None):
                    continue
                if x[0] == "fld" and x[2:] == (0, k) and x[1] is T("sel", prev, i):
                    continue
                out.append((i, d, x))
                n += 1
            t = prev
        return t, out

    def point(self, r, b):
        ctx, inst = self.ctx, self.inst
        ps = self.new_points(r, b)
        if not ctx.ob("one point is added per step", ps is not None and len(ps) == 1, inst):
            return
        ctx.ob("all rings of a step are those of its point", self.p is self.ip.length(self.rd(r.head, self.pts)), inst)
        if not self.ends_agree(b):
            return
        f, l = [option(b, self.rd(b, s)) for s in self.slots]
        for seq, closed in self.back_to_start(b):
            if f == 0 or l == 0:
                continue                        # no half-edges here at all
            ctx.ob("the ring around a point is closed at the end", closed, inst, facts_show(b)[-300:])
            order = self.compose(seq)
            ok = order == [("horizontal", -1), ("down", -1), ("ending", 1), ("up", 1)]
            ctx.ob("clockwise around a point: starting horizontals and edges going down from east to west, ending horizontals, edges from above from west to east", ok, inst, str(order))

    def ends_agree(self, s):
        """By the invariant, both ends are known or neither is."""
        o = [option(s, self.rd(s, x)) for x in self.slots]
        return not (0 in o and 1 in o)

    def compose(self, seq):
        """The clockwise order around the point from the lists appended in time order."""
        out = []
        for way, toks in seq:
            if way == CW:
                out = out + [(t, 1) for t in toks]
            else:
                out = [(t, -1) for t in toks[::-1]] + out
        return out

    def back_to_start(self, s):
        """Going back from state s: [(what was appended, in time order; whether the two ends were linked
        since the last addition)]."""
        ctx, ip, inst = self.ctx, self.ip, self.inst
        t, ch = self.links(self.rd(s, self.nl))
        vals = {x: self.rd(s, x) for x in self.slots}
        pay = {x: (v[3] if v[0] == "agg" and len(v) > 3 else T("fld", v, 1, 0)) for x, v in vals.items()}
        closed = False
        if ch:
            a, b = pay[self.slot["first"]], pay[self.slot["last"]]
            ok = {(b, CW, a), (a, CCW, b)}
            got = set(ch)
            closed = got == ok
            ctx.ob("outside the loops only the two ends of a ring are linked", got <= ok, inst, str([(show(x)[:100], d, show(y)[:100]) for x, d, y in got]))
        if t is self.rd(self.outer.head, self.nl):
            ctx.ob("the ring around a point starts empty", all(option(s, v) == 0 for v in vals.values()), inst, str([show(v)[:150] for v in vals.values()]))
            return [([], True)]
        lids, kind = self.source_loop(t)
        if kind is None:
            ctx.fail("the changes of the rings are understood", inst, show(t)[:300])
            return []
        out = []
        for r in recs_of(ip, lids, s):
            if kind == "grow":
                base = self.grown(r, t)
                self.kept(vals, r.pre)
                if base is None:
                    ctx.fail("links of new half-edges are only added", inst, show(t)[:300])
                    continue
                rest = self.memo(r)
                out += [(q, closed or c) for q, c in rest]
            else:
                if self.rd(r.head, self.nl) is not t:
                    continue
                k = ("ring", r.no)
                if k not in self.done:
                    self.done[k] = self.ring(r)
                w = self.done[k]
                if w is None:
                    continue
                self.kept(vals, r.head)
                for q, c in self.memo(r):
                    out.append((q + [w], closed or c and self.done["closes", r.no]))
        uniq = []
        for q in out:
            if q not in uniq:
                uniq.append(q)
        return uniq

    def kept(self, vals, s):
        bad = [(show(v)[:150], show(self.rd(s, x))[:150]) for x, v in vals.items() if self.rd(s, x) is not v]
        self.ctx.ob("the ends of a ring only move by adding to it", not bad, self.inst, str(bad))

    def memo(self, r):
        k = ("pre", r.no)
        if k not in self.done:
            self.done[k] = self.back_to_start(r.pre)
        return self.done[k]

    def source_loop(self, t):
        l = loop_at(self.ip, t)
        if l is not None:
            return l[0], "ring"
        if t[0] == "upd":
            ls = set()
            while t[0] == "upd":
                x = loop_at(self.ip, t[3])
                ls.add(x[0] if x else None)
                t = t[1]
            if len(ls) == 1 and None not in ls:
                return ls.pop(), "grow"
        return None, None

    def grown(self, r, t):
        """t is a table whose halves grew in loop r, by one entry per edge created."""
        ip = self.ip
        for b in r.back:
            n = len(pushed(ip, r.head, b, self.me, inner(self.P, "winding")) or ())
            for k in (0, 1):
                loc = (self.nl[0], self.nl[1] + (("f", 0, k),))
                x = pushed(ip, r.head, b, *loc)
                if x is None or len(x) != n:
                    return None
        return t

    # ---- loops that append to a ring

    def ring(self, r):
        """(direction, sources of the list) of a loop that links half-edges to the ring."""
        ctx, ip, inst = self.ctx, self.ip, self.inst
        N = self.rd(r.head, self.nl)
        ways, lists, direct, closes = set(), set(), set(), True
        f, l = [self.rd(r.head, x) for x in self.slots]
        for b in r.back:
            o = [option(b, x) for x in (f, l)]
            if 0 in o and 1 in o:
                continue                        # excluded by the invariant
            pl = self.placed(r, b)
            if not ctx.ob("one half-edge is placed per step", pl is not None and len(pl) == 1, inst, str(pl and len(pl))):
                return None
            seg, p = pl[0]
            ctx.ob("half-edges are placed at the point just added", fld(p, 0) is self.p, inst, show(p)[:200])
            f2, l2 = [self.rd(b, x) for x in self.slots]
            new = T("agg", "core::option::Option", 1, seg)
            isnew = lambda v: v[0] == "agg" and v[2] == 1 and v[3] is seg
            base, ch = self.links(self.rd(b, self.nl))
            ch, c = self.without_closing(ch, f2, l2, seg)
            closes = closes and c
            if not ctx.ob("links only change by linking", base is N or self.extends(r, b, self.nl, base), inst, show(base)[:200]):
                return None
            if isnew(f2) and isnew(l2):
                ctx.ob("a half-edge alone at its point is both ends", 1 not in o and 0 in o and not ch, inst, "%s %s" % (o, [(show(x)[:80], d) for x, d, y in ch]))
            else:
                got = set(ch)
                way = None
                for k, (old, now, other_old, other_new) in enumerate(((f, f2, l, l2), (l, l2, f, f2))):
                    e = T("fld", old, 1, 0)
                    if isnew(now) and other_new is other_old:
                        if got == {(e, CW, seg), (seg, CCW, e)}:
                            way = (CW, k)
                        elif got == {(e, CCW, seg), (seg, CW, e)}:
                            way = (CCW, k)
                if not ctx.ob("a half-edge is linked to the end of the ring, both ways, and becomes its end", way is not None and 0 not in o, inst,
                              str([(show(x)[-80:], d, show(y)[-80:]) for x, d, y in got])):
                    return None
                names = {"last": self.slots[way[1]], "first": self.slots[1 - way[1]]} if way[0] == CW else {"first": self.slots[way[1]], "last": self.slots[1 - way[1]]}
                if self.slot is None:
                    self.slot = names
                ctx.ob("the two ends of a ring are kept apart", self.slot == names, inst)
                ways.add(way[0])
            if seg[0] != "sel":                 # made and linked in the same step
                direct.add(self.element(r, b, seg))
                direct |= {x for s in r.exit for x in self.incomplete(r, s)}
                continue
            k = seg[2]
            ok = at_entry(ip, r.lid, k) is I(0) and isub(after_step(ip, r.lid, k, b), k) is I(1)
            ctx.ob("the list is gone through in order", ok, inst, show(k)[:200])
            lists.add((seg[1], k))
        if not ctx.ob("the half-edges of a loop come from one list and go to one side", len(ways) == 1 and len(lists) + len(direct) == 1, inst, "%s %d %s" % (ways, len(lists), direct)):
            return None
        self.done["closes", r.no] = closes
        if direct:
            return (ways.pop(), [direct.pop()])
        L, k = next(iter(lists))
        ctx.ob("the whole list is gone through", len(r.exit) > 0 and all(exhausted(ip, s, L, k) for s in r.exit), inst, "")
        toks = self.sources(L, r.pre)
        return (ways.pop(), toks)

    def without_closing(self, ch, f, l, seg):
        """The links made in a step without those between the two ends it leaves behind, and whether these were made."""
        pay = [v[3] if v[0] == "agg" and len(v) > 3 else T("fld", v, 1, 0) for v in (f, l)]
        if pay[0] is pay[1]:
            ways = [(pay[0], pay[1])]
        elif self.slot is not None:
            at = dict(zip(self.slots, pay))
            ways = [(at[self.slot["first"]], at[self.slot["last"]])]
        else:
            ways = [(pay[0], pay[1]), (pay[1], pay[0])]
        for a, b in ways:
            close = {(b, CW, a), (a, CCW, b)}
            # the link that adds the half-edge joins it to the other end when there was just one
            if close <= set(ch) and (pay[0] is pay[1] or len(ch) > 2):
                return [x for x in ch if x not in close], True
        return ch, False

    # ---- where the elements come from

    def sources(self, L, st):
        """Tokens for the parts of list L, in order."""
        ctx, ip, inst = self.ctx, self.ip, self.inst
        if L[0] == "empty":
            return []
        if L[0] == "collect":
            toks = {self.closed_half(ip.project(e, ("f", 0, field_index(self.P, HO_, "idx")), None), None)
                    if ip.project(e, ("f", 0, field_index(self.P, HO_, "first_half")), None) is T("b", False) else "? %s" % show(e)[:100]
                    for e in getattr(ip, "collects", {}).get(L, ())}
            return [toks.pop()] if ctx.ob("the half-edges of a list have one source", len(toks) == 1, inst, str(toks)) else ["?"]
        l = loop_at(ip, L)
        if l is None:
            ctx.fail("the list of half-edges is collected by loops", inst, show(L)[:200])
            return ["?"]
        loc = (l[1][1], l[2]) if isinstance(l[1], tuple) and l[1] and l[1][0] == "root" else (l[1], l[2])
        toks = set()
        for r in recs_of(ip, l[0], st):
            if self.rd(r.head, loc) is not L:
                continue
            for b in r.back:
                new = pushed(ip, r.head, b, *loc)
                if new is None or len(new) != 1:
                    toks.add("? %s" % (new and len(new)))
                    continue
                toks.add(self.element(r, b, new[0]))
            toks |= {x for s in r.exit for x in self.incomplete(r, s)}
        if not ctx.ob("the half-edges of a list have one source", len(toks) == 1, inst, str(toks)):
            return ["?"]
        return self.sources(l[3], st) + [toks.pop()]

    def incomplete(self, r, s):
        """The loop over a source's items may only be left when there are none."""
        ends = [k for k, d in s.facts.items() if k[0] == "discr" and k[1][0] == "call" and matches(k[1][1], "re:::next$") and d in (0, frozenset([1]))]
        opaque = any(contains(self.rd(b, loc_), lambda x: x[0] == "item") for b in r.back for loc_ in self.changed(r, b))
        return [] if ends or opaque else ["? left early"]

    def changed(self, r, b):
        return [(root, path) for root, path, h in slots(self.ip, r.head) if self.ip.read_loc(b, (root, path)) is not h]

    def element(self, r, b, e):
        ip = self.ip
        half = ip.project(e, ("f", 0, field_index(self.P, HO_, "first_half")), None)
        idx = ip.project(e, ("f", 0, field_index(self.P, HO_, "idx")), None)
        w = pushed(ip, r.head, b, self.me, inner(self.P, "winding")) or []
        if half is T("b", True):
            raw = fld(idx, 0)
            if len(w) != 1 or not self.created(r, b, raw):
                return "? not the edge created: %s" % show(e)[:150]
            item = (pushed(ip, r.head, b, self.me, inner(self.P, "orig_seg")) or [None])[0]
            src = self.origin(r, item) if item is not None else None
            return {"re:::connected_down$": "down", "re:::active_horizontals_and_orientations$": "horizontal"}.get(self.name(src, "? created from %s" % (src is not None and show(src)[:150])), "? created from %s" % (src is not None and show(src)[:150]))
        if half is T("b", False) and not w:
            return self.closed_half(idx, r)
        return "? %s" % show(e)[:200]

    def created(self, r, b, raw):
        """Is `raw` the number of edges there were before the step (the length of any table it adds one entry to)?"""
        if raw[0] != "len":
            return False
        l = loop_at(self.ip, raw[1])
        if l is None or not (isinstance(l[1], tuple) and l[1][:1] == ("root",)) or l[1][1] != self.me:
            return False
        loc = (self.me, l[2])
        new = pushed(self.ip, r.head, b, *loc)
        return self.rd(r.head, loc) is raw[1] and new is not None and len(new) == 1

    def closed_half(self, x, r):
        """The first entry of the list of open edges of the source's item."""
        l = loop_at(self.ip, x[1][1]) if x[0] == "sel" and x[2] is I(0) and x[1][0] == "sel" else None
        if l is not None and l[2] == inner(self.P, "open_segs"):
            src = self.origin(r, x[1][2])
            return {"re:::active_horizontals$": "ending", "re:::connected_up$": "up"}.get(self.name(src, ""), "? closed from %s" % (src is not None and show(src)[:150]))
        return "? %s" % show(x)[:200]

    def origin(self, r, item):
        """The call whose items the loop goes through, if `item` is made from the next one."""
        ip = self.ip
        for x in subterms(item):
            if x[0] == "item":
                return x[1]
            if r is not None and x[0] == "fld" and x[1][0] == "call" and matches(x[1][1], "re:::next$"):
                it = unref(x[1][2])
                while it[0] == "after" and it[1][0] == "call" and matches(it[1][1], "re:::next$"):
                    it = it[3]
                l = loop_at(ip, it)
                if l is not None and l[0] == r.lid:
                    return l[3]
        return None

    def name(self, src, default):
        """Which of the range's lists is it, read at the right moment?"""
        if src is None or src[0] != "call":
            return default
        for pat, want in (("re:::active_horizontals$", "now"), ("re:::active_horizontals_and_orientations$", "next"),
                          ("re:::connected_up$", "conn"), ("re:::connected_down$", "conn")):
            if matches(src[1], pat):
                a = unref(src[2])
                ok = {"now": self.now, "next": self.next, "conn": self.conn}[want](a)
                return pat if ok else default
        return default

    def now(self, a):
        l = loop_at(self.ip, a)
        return l is not None and l[0] == self.lid

    def next(self, a):
        return a[0] == "after" and a[1][0] == "call" and matches(a[1][1], "re:::increase_x$") and self.now(a[3])

    def conn(self, a):
        if a[0] != "after" or a[1][0] != "call" or not matches(a[1][1], "re:::update_segments_at_x$"):
            return False
        return self.now(unref(a[1][2]))
