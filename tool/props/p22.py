"""The function that turns output edges into paths is interpreted abstractly.  Its loops are classified
by what they do to the three tables involved (the paths, the queue of heights still to be laid out,
the heights reached): the loop that sets them up, the one that takes entries from the queue, and the
one that completes the paths.  On every path through every loop step the changes are compared with
what the property allows; groups of neighbours are expanded into the chains of neighbour lookups they
were collected by, and the common height of a group is shown, by induction over these loops, not to
exceed the end of any member."""
from lib import *
import models

FLOOR = 30
POS = CRATE + "position::PositionedOutputSeg"
HE = CRATE + "position::HeapEntry"
HOV = CRATE + "topology::HalfOutputSegVec"
OPAQUE = ["re:neighbor_after$", "re:_neighbor_height_after$", "re:compare_segments$", "re:ordered_curves_all_close$",
          "re:next_subsegment$", "re:ComparisonOrder::iter$"]
MOVE, LINE, QUAD, CURVE = 0, 1, 2, 3
PATHEL = "kurbo::bezpath::PathEl"


def run(ctx):
    P = ctx.P
    ctx.assumption("edges that are not horizontal start above their end (P01); tables made by with_size hold default values; coordinates are not NaN (P05)")
    ctx.rule("paths start and end at the edge's end points; entries are skipped only if laid out further already; every group member is laid out to the same height, recorded, and queued again if it goes on")
    inst = positions_fn(P)
    ctx.guard("positions", inst, lambda: Positions(ctx, P, inst).check())
    ctx.guard("next_subsegment", CRATE + "position::next_subsegment", lambda: subsegment(ctx, P))


def positions_fn(P):
    c = []
    for i in P.insts:
        if not i["body"] or i["closure"]:
            continue
        tys = [P.types[strip(P, i["body"]["locals"][k + 1])].get("path") for k in range(i["body"]["argc"])]
        ret = P.types[i["body"]["locals"][0]]
        if CRATE + "topology::ScanLineOrder" in tys and HOV in tys and ret.get("path") == CRATE + "topology::OutputSegVec":
            c.append(i)
    if len(c) != 1:
        raise EngineError("cannot tell which function positions the output: %s" % [i["key"] for i in c])
    return c[0]


def strip(P, t):
    while P.types[t]["k"] == "ref":
        t = P.types[t]["t"]
    return t


class Positions:
    def __init__(self, ctx, P, inst):
        self.ctx, self.P, self.inst = ctx, P, inst
        self.ip, self.args, self.outs = ctx.analyse(inst, opaque=OPAQUE, keep_rel=True)
        ty = [P.types[strip(P, inst["body"]["locals"][k + 1])] for k in range(inst["body"]["argc"])]
        self.arg = {}
        for a, t in zip(self.args, ty):
            self.arg.setdefault(t.get("path") or t["k"], a)
        ep = T("*", self.arg[HOV])
        self.ends = [self.ip.project(ep, ("f", 0, field_index(P, HOV, n)), None) for n in ("start", "end")]
        self.orig = self.ip.project(T("*", self.arg[CRATE + "topology::OutputSegVec"]), ("f", 0, 0), None)

    def end(self, half, i):
        return T("sel", self.ends[half], i)

    def y(self, p):
        return self.ip.project(p, ("f", 0, 1), None)

    def check(self):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        if len(self.outs) != 1:
            raise EngineError("%d outcomes" % len(self.outs))
        v, s = self.outs[0]
        t = ip.project(v, ("f", 0, 0), s)
        done = self.locate(t)
        self.out = done[1]
        # follow the table of paths back through the loops
        chain = []
        while True:
            l = self.locate(t)
            if l is None:
                break
            chain.append(l)
            t = l[2]
        if len(chain) != 3:
            raise EngineError("the paths go through %d loops: %s" % (len(chain), show(v)[:300]))
        last, main, first = chain
        ctx.ob("all edges are completed", self.complete_range(last[0], s, self.table_len(last[2])), inst)
        self.lids = {"first": first[0], "main": main[0], "last": last[0]}
        for r in self.recs("first"):
            for b in r.back:
                ctx.guard("set up", inst, lambda: self.setup(r, b))
        for r in self.recs("main"):
            ctx.ob("all edges are set up before the layout starts", self.complete_range(first[0], r.head, ip.length(first[2])), inst)
            for b in r.back:
                ctx.guard("layout", inst, lambda: self.layout(r, b))
            for b in r.exit:
                pops = [k for k, d in b.facts.items() if k[0] == "discr" and self.is_pop(k[1]) and d in (0, frozenset([1]))]
                ctx.ob("the layout ends only when nothing is queued", len(pops) > 0, inst, facts_show(b)[-400:])
        for r in self.recs("last"):
            for b in r.back:
                ctx.guard("completion", inst, lambda: self.complete(r, b))
        ctx.stats["steps"] = {k: sum(len(r.back) for r in self.recs(k)) for k in self.lids}

    def recs(self, name):
        return [r for r in self.ip.records if r.lid == self.lids[name]]

    def locate(self, t):
        """(lid, (root, path), value on entry) of the loop a table value comes from."""
        l = loop_at(self.ip, t)
        if l is None and t[0] == "fld":
            l = loop_at(self.ip, t[1])
            if l:
                return l[0], (l[1][1], l[2] + (("f", t[2], t[3]),)), self.ip.project(l[3], ("f", t[2], t[3]), None)
        if l is None:
            return None
        return l[0], (l[1][1], l[2]), l[3]

    def table_len(self, t):
        return self.ip.length(t)

    def paths(self, st):
        root, path = self.out
        return self.ip.read_loc(st, (root, path))

    # ---- running over all indices

    def counter(self, lid):
        """The counter(s) of a loop: (index term, ok) for every step, from the steps' changes."""
        out = []
        for r in self.ip.records:
            if r.lid == lid:
                for b in r.back:
                    for root, path, h in slots(self.ip, r.head):
                        l = loop_at(self.ip, h)
                        if l and l[0] == lid and l[3] is I(0) and isub(self.ip.read_loc(b, (root, path)), h) is I(1):
                            out.append(h)
        return set(out)

    def complete_range(self, lid, st, n):
        """In st, after loop lid, one of its counters has reached n."""
        return any("<" not in int_orders(st, c, n) for c in self.counter(lid))

    # ---- the loops

    def change(self, r, b):
        """[(index, old element, new element)] of the table of paths in one step."""
        h, v = self.paths(r.head), self.paths(b)
        out = []
        while v is not h:
            if v[0] != "store":
                return None
            out.append((v[2], T("sel", h, v[2]), v[3]))
            v = v[1]
        return out

    def parts(self, e):
        i = field_index(self.P, POS, "path")
        j = field_index(self.P, POS, "copied_idx")
        path = self.ip.project(self.ip.project(e, ("f", 0, i), None), ("f", 0, 0), None)
        return path, self.ip.project(e, ("f", 0, j), None)

    def el(self, x):
        return (x[2], list(x[3:])) if x[0] == "agg" and x[1] == PATHEL else (None, [])

    def queue_adds(self, h, v):
        """Entries put into the queue between two values of it, None if anything else happened."""
        out = []
        while v is not h:
            if v[0] != "setinsert":
                return None
            out.append(v[2])
            v = v[1]
        return out

    def entry(self, e):
        """(height, edge index) of a queue entry."""
        y = fld(fld(e, field_index(self.P, HE, "y")), 0)
        return y, fld(fld(e, field_index(self.P, HE, "idx")), 0)

    def queue_loc(self):
        if not hasattr(self, "_q"):
            c = set()
            for r in self.recs("main"):
                for b in r.back:
                    for e in b.ev:
                        pass
                    for root, path, v in slots(self.ip, b):
                        x = v
                        for y in subterms(x):
                            if y[0] == "after" and self.is_pop(y[1]):
                                c.add((root, path)) if v[0] == "after" else None
            c = {(root, path) for root, path in c}
            if len(c) != 1:
                raise EngineError("cannot tell where the queue is: %s" % sorted(map(str, c)))
            self._q = c.pop()
        return self._q

    def is_pop(self, t):
        return t[0] == "call" and t[1].startswith("alloc::collections::binary_heap::") and t[1].endswith("::pop")

    def queue(self, st):
        return self.ip.read_loc(st, self.queue_loc())

    def setup(self, r, b):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        ch = self.change(r, b)
        if not ctx.ob("one path is set up per step", ch is not None and len({c[0] for c in ch}) == 1, inst, str(ch and len(ch))):
            return
        i, old, new = ch[0][0], ch[-1][1], ch[0][2]
        ctx.ob("the path set up is the next edge's", i in self.counter(r.lid), inst, show(i)[:200])
        path, copied = self.parts(new)
        els = []
        base = self.parts(old)[0]
        while path[0] == "push":
            els.insert(0, path[2])
            path = path[1]
        ctx.ob("nothing but the set-up is in the path", path is base, inst, show(path)[:200])
        k = [self.el(e) for e in els]
        p, q = self.end(0, i), self.end(1, i)
        ctx.ob("the path starts at the edge's first end point", bool(k) and k[0] == (MOVE, [p]), inst, show(els[0])[:300] if els else "empty")
        adds = self.queue_adds(self.queue(r.head), self.queue(b))
        if adds is None:
            return ctx.fail("the queue is only added to during set-up", inst)
        o = flt_orders(b, self.y(p), self.y(q), False)
        if not adds:
            ctx.ob("only horizontal edges are not queued", o == frozenset("="), inst, facts_show(b)[-400:])
            ctx.ob("a horizontal edge is the straight line to its second end point", k[1:] == [(LINE, [q])], inst, str([show(e)[:200] for e in els]))
            ok = copied[0] == "agg" and copied[2] == 1 and copied[3] is I(0)
            ctx.ob("a horizontal edge is marked as copied", ok, inst, show(copied)[:200])
        else:
            ctx.ob("an edge is queued from its start", len(adds) == 1 and self.entry(adds[0]) == (self.y(p), i), inst, show(adds[0])[:300])
            ctx.ob("a queued edge's path has only its start", k[1:] == [], inst, str([show(e)[:200] for e in els]))

    def heights_loc(self):
        """The table of heights reached: the only table of numbers that the layout loop stores into."""
        if not hasattr(self, "_h"):
            c = {}
            for r in self.recs("main"):
                for b in r.back:
                    for k in b.rel:
                        for t in k:
                            if t[0] == "sel":
                                l = self.locate(t[1])
                                if l and l[0] == r.lid:
                                    c[l[1]] = l[2]
            if len(c) != 1:
                raise EngineError("cannot tell where the heights reached are: %s" % sorted(map(str, c)))
            self._h = next(iter(c.items()))
            init = self._h[1]
            self.ctx.ob("at first no edge is laid out, at whatever height it starts", self.below_all(init), self.inst, show(init)[:200])
        return self._h[0]

    def below_all(self, v):
        low = lambda x: x[0] == "f" and float(x[1]) == float("-inf")
        if v[0] == "repeat":
            return low(v[1])
        if v[0] == "resized":
            return any(low(x) for x in v[1:] if isinstance(x, Term))
        if v[0] == "call" and contains(v, low):
            return True
        return False

    def layout(self, r, b):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        pops = [k[1] for k, d in b.facts.items() if k[0] == "discr" and self.is_pop(k[1]) and d == 1]
        if not ctx.ob("each step takes one entry from the queue", len(pops) == 1, inst, str(len(pops))):
            return
        pop = pops[0]
        e = T("fld", pop, 1, 0)
        y0, idx = self.entry(e)
        hl = self.heights_loc()
        h0, h1 = ip.read_loc(r.head, hl), ip.read_loc(b, hl)
        q0, q1 = self.queue(r.head), self.queue(b)
        taken = T("after", pop, 0, q0)
        if h0 is h1:
            o = flt_orders(b, y0, T("sel", h0, idx), False)
            ctx.ob("an entry is skipped only if its edge is laid out beyond it", o == frozenset("<"), inst,
                   "skipped when the entry's height is %s the height reached" % "".join(sorted(o)))
            ctx.ob("skipping an entry changes nothing", q1 is taken and self.paths(b) is self.paths(r.head), inst)
            return
        # the heights reached
        g, Y = self.for_group(b, hl, h1, h0, "height")
        if g is None:
            return
        g2, Y2 = self.for_group(b, self.queue_loc(), q1, taken, "queue", Y)
        if g2 is None:
            return
        ctx.ob("heights are recorded for the edges that are queued again", g is g2, inst, "%s / %s" % (show(g)[:200], show(g2)[:200]))
        self.group(r, b, g, idx, y0, Y)
        self.out_change(r, b, g, idx, y0, Y)

    def for_group(self, b, loc, v, before, what, Y=None):
        """v comes from a loop over all members of a group that records / queues height Y."""
        ctx, ip, inst = self.ctx, self.ip, self.inst
        l = self.locate(v)
        if l is None or l[1] != loc:
            ctx.fail("every member's %s is updated" % what, inst, show(v)[:300])
            return None, None
        ctx.ob("the %s is updated from its value before the step" % what, l[2] is before, inst, "%s / %s" % (show(l[2])[:200], show(before)[:200]))
        G, n = None, 0
        for r in recs_of(ip, l[0], b):
            for st in r.back:
                n += 1
                h, x = ip.read_loc(r.head, loc), ip.read_loc(st, loc)
                if what == "height":
                    ok = x[0] == "store" and x[1] is h
                    i, val = (x[2], x[3]) if ok else (None, None)
                else:
                    adds = self.queue_adds(h, x)
                    ok = adds is not None and len(adds) <= 1
                    val, i = self.entry(adds[0]) if ok and adds else (Y, None)
                    if ok and not adds:
                        i = self.left_out(r, st, Y)
                        ok = i is not None
                        ctx.ob("a member is not queued again only if it ends there", ok, inst, facts_show(st)[-500:])
                        if not ok:
                            return None, None
                if not ctx.ob("each step updates one member's %s" % what, ok, inst, show(x)[:300]):
                    return None, None
                e = i[1] if i[0] == "fld" else None
                if e is None or e[0] != "sel" or not self.counts(r, st, e[2]):
                    ctx.fail("the members are gone through one by one (%s)" % what, inst, show(i)[:200])
                    return None, None
                if G is None:
                    G = e[1]
                if Y is None:
                    Y = val
                ctx.ob("every member gets the same height (%s)" % what, val is Y and e[1] is G, inst, "%s / %s" % (show(val)[:150], show(Y)[:150]))
                self.k = e[2]
        ok = n > 0 and exhausted(ip, b, G, self.k)
        ctx.ob("no member is left out (%s)" % what, ok, inst, facts_show(b)[-300:])
        return (G, Y) if n else (None, None)

    def counts(self, r, st, k):
        return at_entry(self.ip, r.lid, k) is I(0) and isub(after_step(self.ip, r.lid, k, st), k) is I(1)

    def left_out(self, r, st, Y):
        """The member for which nothing was queued: the one whose end was found not to be below Y."""
        for rel in st.rel:
            for t in rel:
                if t is Y:
                    continue
                if t[0] == "fld" and t[1][0] == "sel" and t[1][1] is self.ends[1]:
                    i = t[1][2]
                    if t is self.y(self.end(1, i)) and "<" not in flt_orders(st, Y, t, False) and at_entry(self.ip, r.lid, i[1][2] if i[0] == "fld" and i[1][0] == "sel" else i) is not None:
                        return i
        return None

    # ---- groups of neighbours

    def expand(self, v, rev=False):
        """The members of a group as a list of single elements and chains of lookups."""
        ip = self.ip
        if v[0] == "empty":
            return []
        if v[0] == "push":
            return self.expand(v[1]) + [("one", v[2])]
        if v[0] == "pushfront":
            return [("one", v[2])] + self.expand(v[1])
        if v[0] in ("reversed", "rev"):
            return [(k, x) if k == "one" else ("fwd" if k == "rev" else "rev", x) for k, x in self.expand(v[1])[::-1]]
        if v[0] == "collect":
            xs = list(getattr(ip, "collects", {}).get(v, ()))
            if len(xs) == 1 and unref(xs[0])[0] == "sel":
                x = unref(xs[0])
                i, n = x[2], ip.length(x[1])
                if i[0] == "any":
                    return self.expand(x[1])
                if isub(isub(n, I(1)), i)[0] == "any" or i[:2] == ("pos", "rev"):
                    return self.expand(T("reversed", x[1]))
        l = self.locate(v)
        if l is None:
            raise EngineError("cannot tell what is in the group: %s" % show(v)[:200])
        front, parts = None, set()
        for r in ip.records:
            if r.lid == l[0] and ip.read_loc(r.head, l[1]) is v:
                for b in r.back:
                    x = ip.read_loc(b, l[1])
                    if x[0] not in ("push", "pushfront") or x[1] is not v:
                        raise EngineError("the group changes otherwise: %s" % show(x)[:200])
                    f = x[0] == "pushfront"
                    if front not in (None, f):
                        raise EngineError("the group grows at both ends")
                    front = f
                    parts.add(x[2])
        new = None
        if len(parts) == 1:
            x = next(iter(parts))
            if x[0] == "sel" and (x[2][0] == "any" or at_entry(ip, l[0], x[2]) is I(0)):
                new = self.expand(x[1])     # all elements of another list, one by one
                if front:
                    new = [(k, y) if k == "one" else ("fwd" if k == "rev" else "rev", y) for k, y in new[::-1]]
            elif x[0] == "sel":
                k = isub(isub(ip.length(x[1]), I(1)), x[2]) if x[2][:2] != ("pos", "rev") else x[2][2]
                if k[0] == "any" or at_entry(ip, l[0], k) is I(0):      # from its last element to its first
                    new = self.expand(x[1] if front else T("reversed", x[1]))
        if new is None:
            new = [("rev" if front else "fwd", (l[0], l[1], v))]
        return new + self.expand(l[2]) if front else self.expand(l[2]) + new

    def group(self, r, b, G, idx, y0, Y):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        ms = self.expand(G)
        kinds = [k for k, _ in ms]
        ok = kinds == ["rev", "one", "fwd"]
        if not ctx.ob("a group is: the western neighbours, nearest last, the edge, the eastern neighbours, nearest first", ok, inst, str(kinds)):
            return
        ctx.ob("the edge itself is between its neighbours", fld(ms[1][1], 0) is idx, inst, show(ms[1][1])[:200])
        ctx.ob("the group's height is not beyond the end of the edge", self.le(Y, self.y(self.end(1, idx)), b), inst, show(Y)[:300])
        for (kind, ch), way in ((ms[0], "west"), (ms[2], "east")):
            self.chain(b, ch, way, ms[1][1], y0, Y)

    def chain(self, b0, ch, way, entry, y0, Y):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        lid, loc, v = ch
        n = 0
        last = set()
        for r in ip.records:
            if r.lid != lid or ip.read_loc(r.head, loc) is not v:
                continue
            for b in r.back:
                n += 1
                nbr = ip.read_loc(b, loc)[2]
                c = nbr[1] if nbr[0] == "fld" and nbr[2:] == (1, 0) else None
                ok = c is not None and c[0] == "call" and matches(c[1], "%s_neighbor_after" % way)
                ok = ok and self.same_y(r, c[4], y0)
                if not ctx.ob("%sern members are neighbours to the %s just below the entry's height" % (way, way), ok, inst, show(nbr)[:300]):
                    continue
                cur = c[3]
                l = self.locate(cur)
                if l is None and cur[0] != "loop":
                    ctx.fail("the %s scan goes on from the neighbour found" % way, inst, show(cur)[:200])
                    continue
                l = self.locate(cur)
                last.add(cur)
                it = self.compared(b, nbr, cur, y0, way)
                if ctx.ob("%sern members are compared with the member next to them at the entry's height" % way, len(it) == 1, inst, show(nbr)[:200]):
                    ctx.ob("%sern members are not clear of the member next to them" % way, self.clear(b, it[0]) is False, inst, facts_show(b)[-300:])
                    y = self.at_step(Y, lid, b, b0)
                    ctx.ob("the group's height is not beyond where the answer about a %sern member changes" % way,
                           y is not None and self.le(y, it[0][1], b), inst, show(y)[:300] if y is not None else show(Y)[:300])
                now = ip.read_loc(b, l[1])
                ctx.ob("the %s scan goes on from the neighbour found" % way, l[0] == lid and now is nbr and l[2] is entry, inst,
                       "from %s to %s, starting at %s" % (show(cur)[:100], show(now)[:100], show(l[2])[:100]))
                y = self.at_step(Y, lid, b, b0)
                ok = y is not None and self.le(y, self.y(self.end(1, fld(nbr, 0))), b)
                ctx.ob("the group's height is not beyond the end of a %sern member" % way, ok, inst, show(y)[:300] if y is not None else "not derived from the scan: %s" % show(Y)[:200])
            for b in r.exit:
                for c, d in [(k[1], d) for k, d in b.facts.items() if k[0] == "discr" and k[1][0] == "call" and matches(k[1][1], "%s_neighbor_after" % way)
                             and self.same_y(r, k[1][4], y0) and self.locate(k[1][3]) and self.locate(k[1][3])[0] == lid]:
                    if d in (0, frozenset([1])):
                        continue
                    it = self.compared(b, T("fld", c, 1, 0), c[3], y0, way)
                    ok = len(it) == 1 and self.clear(b, it[0]) is True
                    ctx.ob("a neighbour to the %s is left out only if it is clear of the member next to it" % way, ok, inst, facts_show(b)[-300:])
        ctx.ob("neighbours to the %s are collected" % way, n > 0, inst)
        # where the next curve to that side gets close to the outermost member
        asked = {k[1]: d for k, d in b0.facts.items() if k[0] == "discr" and k[1][0] == "call"
                 and matches(k[1][1], "close_%s_neighbor_height_after" % way) and k[1][4] is y0 and k[1][3] in last}
        ctx.ob("it is asked where a curve gets close to the outermost %sern member" % way, len(asked) == 1, inst, facts_show(b0)[-300:])
        for c, d in asked.items():
            ok = d == 0 or d == frozenset([1]) or ((d == 1 or d == frozenset([0])) and self.le(Y, T("fld", c, 1, 0), b0))
            ctx.ob("the group's height is not beyond where a curve gets close to the outermost %sern member" % way, ok, inst,
                   "%s: %s" % (d, show(Y)[:400]))

    def compared(self, st, nbr, cur, y0, way):
        """[(entry, its end, its order)] of the comparison of two neighbours that is in force after y0."""
        seg = lambda i: T("sel", self.orig, fld(i, 0))
        want = [seg(x) for x in ((nbr, cur) if way == "west" else (cur, nbr))]
        out = []
        for k, o in st.rel.items():
            for x in k:
                if x[0] == "fld" and x[1][0] == "item" and x[2:] == (0, 1) and flt_orders(st, y0, x, False) == frozenset("<"):
                    cs = [c for c in subterms(x[1]) if c[0] == "call" and matches(c[1], "compare_segments")]
                    if cs and cs[0][-2:] == tuple(want):
                        out.append((x[1], x, T("fld", x[1], 0, 2)))
        return out

    def clear(self, st, item):
        """True: the comparison says Left (strictly apart); False: it says something else."""
        d = st.facts.get(T("discr", item[2]))
        left = variant_index(self.P, CRATE + "curve::Order", "Left")
        if d is None:
            return None
        if isinstance(d, frozenset):
            return False if left in d else None
        return d == left

    def same_y(self, r, t, y0):
        return t is y0

    def at_step(self, Y, lid, b, st=None, deep=3):
        """The value that Y's counterpart has at the end of a step of loop lid, provided that Y never
        exceeds it later."""
        ip = self.ip
        if Y[0] == "fmin":
            for x in Y[1:]:
                r = self.at_step(x, lid, b, st, deep)
                if r is not None:
                    return r
            return None
        l = self.locate(Y)
        r = None
        if l is not None and self.shrinks(Y, l):
            r = ip.read_loc(b, l[1]) if l[0] == lid else self.at_step(l[2], lid, b, st, deep)
        for x in self.not_above(st, Y) if r is None and deep else ():
            r = self.at_step(x, lid, b, st, deep - 1)
            if r is not None:
                break
        return r

    def not_above(self, st, a):
        """Values that a was found not to exceed in state st."""
        if st is None:
            return []
        return [x for k in st.rel if a in k for x in k if x is not a and ">" not in flt_orders(st, a, x, False)]

    def shrinks(self, Y, l):
        bs = [(r, b) for r in self.ip.records if r.lid == l[0] for b in r.back]
        return all(self.le(self.ip.read_loc(b, l[1]), self.ip.read_loc(r.head, l[1]), b) for r, b in bs)

    def le(self, a, t, st=None, deep=3):
        """a <= t by construction, or because of what was found in state st."""
        if a is t:
            return True
        if a[0] == "fmin":
            return any(self.le(x, t, st, deep) for x in a[1:])
        l = self.locate(a)
        if l is not None and self.shrinks(a, l) and self.le(l[2], t, st, deep):
            return True
        return deep > 0 and any(self.le(x, t, st, deep - 1) for x in self.not_above(st, a))

    def out_change(self, r, b, G, idx, y0, Y):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        h, v = ip.read_loc(r.head, (self.out[0], self.out[1][:-1])), ip.read_loc(b, (self.out[0], self.out[1][:-1]))
        single = int_orders(b, ip.length(G), I(1)) == frozenset("=")
        if v is h:
            return ctx.ob("only a group of one is left alone", single, inst, facts_show(b)[-300:])
        if v[0] == "after" and v[1][0] == "call" and matches(v[1][1], "ordered_curves_all_close"):
            c = v[1]
            ctx.ob("the group is laid out starting from the paths so far", v[3] is h, inst, show(v[3])[:200])
            nums = [a for a in c[2:] if a is y0 or a is Y]
            ctx.ob("the group is laid out from the entry's height to the common height", nums == [y0, Y], inst, str([show(a)[:100] for a in c[2:]]))
            lists = [a for a in c[2:] if unref(a) is not a]
            ctx.ob("the whole group is laid out", any(unref(a) is G for a in lists), inst, str([show(a)[:150] for a in lists]))
            ctx.ob("the curves laid out are the members'", any(self.mapped(unref(a), G, b) for a in lists), inst, str([show(a)[:200] for a in lists]))
            ctx.ob("the group is laid out between the edges' end points", self.arg[HOV] in c[2:], inst, "")
            return
        ch = self.change(r, b)
        if ch is None or len(ch) != 1:
            return ctx.fail("a path changes only by being laid out", inst, show(v)[:300])
        i, old, new = ch[0]
        p, q = self.parts(old)[0], self.parts(new)[0]
        ok = q[0] == "push" and q[1] is p and self.el(q[2]) == (LINE, [self.end(1, i)]) and i is idx
        ok = ok and flt_orders(b, y0, Y, False) == frozenset("=") and single
        ctx.ob("a line is drawn to the end only for horizontal edges", ok, inst, show(q)[:300])

    def mapped(self, t, G, b):
        """t is the list of the curves of the members of G."""
        ip = self.ip
        vs = getattr(ip, "collects", {}).get(t, ())
        return len(vs) > 0 and all(self.member_curve(unref(v), G) for v in vs)

    def member_curve(self, v, G):
        i = v[2] if v[0] == "sel" and v[1] is self.orig else None
        return i is not None and i[0] == "fld" and i[1][0] == "sel" and i[1][1] is G

    def complete(self, r, b):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        ch = self.change(r, b)
        if not ctx.ob("every path is completed", ch is not None and len({c[0] for c in ch}) == 1, inst, str(ch and len(ch))):
            return
        i, old, new = ch[0][0], ch[-1][1], ch[0][2]
        ctx.ob("the path completed is the next edge's", i in self.counter(r.lid), inst, show(i)[:200])
        p, (q, copied) = self.parts(old)[0], self.parts(new)
        want = self.end(1, i)
        if q[0] == "push":
            k, a = self.el(q[2])
            ok = q[1] is p and k in (LINE, CURVE)
            tip = a[-1] if a else None
            if ok and k == CURVE:
                c = tip[1] if tip[0] == "fld" else None
                ok = c is not None and c[0] == "call" and matches(c[1], "next_subsegment")
                pts = [T("fld", c, 0, j) for j in (1, 2, 3)] if ok else []
                ok = ok and a == pts and c[-1] is want and c[-2] is self.y(want)
                seg = unref(c[2]) if ok else None
                ok = ok and seg[0] == "sel" and seg[2] is T("fld", T("sel", self.orig, i), 0, 0)
                ctx.ob("the rest of a curve is the rest of the edge's own curve, up to its end point", ok, inst, show(q[2])[:500])
            else:
                ctx.ob("the rest of a line is the straight line to its end point", ok and tip is want, inst, show(q[2])[:300])
            ok = copied[0] == "agg" and copied[2] == 1 and copied[3] is isub(ip.length(p), I(1))
            ctx.ob("the index of the copied part is recorded", ok, inst, show(copied)[:200])
            return
        ok = q[0] == "store" and q[1] is p and q[2] is isub(ip.length(p), I(1))
        if not ctx.ob("a finished path only has its last point moved", ok, inst, show(q)[:300]):
            return
        d = b.facts.get(T("discr", T("sel", p, q[2])))
        new_el = q[3]
        j = {MOVE: 0, LINE: 0, QUAD: 1, CURVE: 2}.get(d)
        tip = ip.project(new_el, ("f", d, j), None) if j is not None else None
        tip0 = ip.project(T("sel", p, q[2]), ("f", d, j), None) if j is not None else None
        o = flt_orders(b, self.y(tip0), self.y(want), False) if tip0 is not None else "?"
        ctx.ob("a path is taken as finished only if it reaches the end's height", "<" not in o, inst, "".join(sorted(o)))
        ctx.ob("a finished path ends at the edge's second end point", tip is want, inst, "%s when the last element is kind %s" % (show(new_el)[:300], d))


def subsegment(ctx, P):
    """The curve cut for an edge starts where its path ends, and ends at the given point if that is
    at the height asked for."""
    inst = P.one(CRATE + "position::next_subsegment")
    ip, a, outs = ctx.analyse(inst, opaque=["re:y_subsegment$", "re:bez_end$"], keep_rel=True)
    seen = set()
    for v, s in outs:
        y1, endp = a[2], a[3]
        o = flt_orders(s, ip.project(endp, ("f", 0, 1), None), y1, False)
        p3 = ip.project(v, ("f", 0, 3), s)
        p0 = ip.project(v, ("f", 0, 0), s)
        if "=" in o:
            seen.add("=")
            ctx.ob("a piece cut up to the end of an edge ends exactly there", p3 is endp, inst, "%s, %s" % (show(p3)[:200], "".join(sorted(o))))
        ctx.ob("a piece starts where the path ends", p0[0] == "call" and matches(p0[1], "bez_end"), inst, show(p0)[:200])
    ctx.ob("the end of the edge is considered", seen == {"="}, inst, str(seen))
