"""The neighbours along scan lines: recorded while the topology is built, collected into one list per segment and direction,
and looked up by the positioning.  The recording is decided by induction over the loops that create segments, the collecting by
what each step of each loop adds to which list (compared with what it has to add), the look-ups by where the answer is taken
from and, by induction, what was passed over before."""
from itertools import product
from engine import Frame, UNIT
from models import elems, inside
from props.linectx import *
from props.sweepctx import *

FLOOR = 40
RG = CRATE + "sweep::range::"
HSO = CRATE + "topology::HalfScanLineOrder"
SLO = CRATE + "topology::ScanLineOrder"
LOG = ("H", ("log",))


def run(ctx):
    ctx.rule("every neighbour along a scan line is recorded when it changes, listed on both sides by height, and found again")
    ctx.assumption("a sweep-line range stays in its line and its interval; tables of output segments have equal lengths (P07); heights are numbers")
    for name, f in (("recording", Recording), ("the ranges of a line", Ranges), ("collecting", Collecting), ("look-ups", Lookups)):
        ctx.guard(name, TOP, lambda: f(ctx).check())


def some_in(s, t):
    """Is an optional value there?"""
    if t[0] == "agg":
        return t[2] == 1
    d = s.facts.get(T("discr", t))
    if isinstance(d, frozenset):
        return False if 1 in d else True if 0 in d else None
    return None if d is None else d == 1


def payload(t):
    return t[3] if t[0] == "agg" else fld(t, 0, 1)


def no_opt(t):
    return t[0] == "agg" and t[2] == 0


class Base:
    def __init__(self, ctx):
        self.ctx, self.P, self.inst = ctx, ctx.P, None

    def ob(self, name, ok, detail=""):
        self.ctx.ob(name, ok, self.inst, detail)
        return ok


def called(t, *names):
    """t is a call of one of these methods."""
    return t[0] == "call" and matches(t[1], "re:::(%s)$" % "|".join(names))


class Recording(Base):
    """What the consumption of one range records."""

    def check(self):
        P = self.P
        self.inst, self.ip, self.args, self.outs = process_range(self.ctx, tables=False, keep_facts=lambda k: contains(k, lambda x: called(x, "line_entry", "line_segment")))
        ip = self.ip
        self.me = ("P", self.args[0])
        self.west, self.east, self.win = inner(P, "scan_west"), inner(P, "scan_east"), inner(P, "winding")
        self.after, self.open = (tf(P, "scan_after"),), inner(P, "open_segs")
        found, stray = creations(self.ctx, P, ip, self.me, self.outs)
        self.ob("segments are only created by the loops examined", not stray)
        self.down = {}
        self.made = set()
        cs = {}
        for c in found:
            cs.setdefault(c.rec.lid, []).append(c)
        flat = []
        for lid, l in cs.items():
            if all(self.is_level(c) for c in l):
                flat += l
            else:
                self.down.setdefault(lid, []).extend(l)
        self.ob("segments going down and level ones are created", bool(self.down) and bool(flat), "%d, %d" % (len(self.down), len(flat)))
        slot = self.neighbour()
        if slot is None:
            return
        for c in flat:
            w = self.recorded(c)
            self.ob("a level segment's western neighbour is the last one going down", w is not None and self.flows(c.rec.pre, w, slot), "no entry" if w is None else show(w)[:300])
        self.level_ok = {c.rec.lid for c in flat}
        self.stray_writes()
        self.ending()

    def is_level(self, c):
        from props.p04 import is_horizontal_item
        po = pushed(self.ip, c.rec.head, c.back, self.me, inner(self.P, "orig_seg"))
        return bool(po) and is_horizontal_item(self.ip, po[0], c)

    def new(self, c):
        """The number of the segment that is created next: the length of any of the tables."""
        P, ip = self.P, self.ip
        return {ip.length(ip.read_loc(c.rec.head, (self.me, inner(P, n)))) for n in ("winding", "deleted", "scan_west", "scan_east", "orig_seg", "positively_oriented")}

    def recorded(self, c):
        """The western neighbour recorded with a new segment."""
        ip = self.ip
        h, b = ip.read_loc(c.rec.head, (self.me, self.west)), ip.read_loc(c.back, (self.me, self.west))
        if b[0] == "store" and b[2] in self.new(c) and b[1][0] == "push" and b[1][1] is h:
            return b[3]
        if b[0] == "push" and b[1] is h:
            return b[2]
        return None

    def is_new(self, t, c):
        """Some(the new segment)"""
        return t[0] == "agg" and t[2] == 1 and len(t) == 4 and fld(t[3], 0) in self.new(c)

    def slots(self, init):
        """Variables that hold the last segment going down: some initial value, changed by nothing but the creation of one."""
        ip = self.ip
        c0 = next(iter(self.down.values()))[0]
        out = []
        for root, p, x in slots(ip, c0.rec.head):
            if root[0] in ("P", "K") or not self.is_new(ip.read_loc(c0.back, (root, p)), c0):
                continue
            if self.only(root, p, init):
                out.append((root, p))
        return out

    def only(self, root, p, init):
        """The place starts as init and is changed by nothing but a creation, by each creation."""
        ip = self.ip
        name = ip.rootname(root)
        for r in ip.records:
            h = ip.read_loc(r.head, (root, p))
            for b in r.back:
                v = ip.read_loc(b, (root, p))
                if r.lid in self.down:
                    c = next((c for c in self.down[r.lid] if c.back is b), None)
                    if c is None or not self.is_new(v, c):
                        return False
                elif not self.kept(v, h, name, p):
                    return False
            pre = ip.read_loc(r.pre, (root, p))
            if not self.start(pre, init, name, p):
                return False
        return True

    def kept(self, v, h, name, p):
        while v is not h:
            l = loop_at(self.ip, v)
            if l is None or l[1] is not name or l[2] != p:
                return False
            if h is None:
                return True
            v = l[3]
        return True

    def start(self, v, init, name, p):
        while True:
            if init(v):
                return True
            l = loop_at(self.ip, v)
            if l is None:
                return v[0] == "undef"
            if l[1] is not name or l[2] != p:
                return False
            v = l[3]

    def neighbour(self):
        """The running western neighbour; each segment going down records it and takes its place."""
        ip, arg = self.ip, self.args[3]
        cands = [(root, p) for root, p in self.slots(lambda v: v is arg)]
        if not self.ob("the western neighbour is the last segment going down, at first the given one", bool(cands)):
            return None
        for lid, cs in self.down.items():
            for c in cs:
                w = self.recorded(c)
                hs = [ip.read_loc(c.rec.head, x) for x in cands]
                self.ob("a segment going down has as its western neighbour the last one before it", w is not None and any(same_opt(c.rec.head, w, h) for h in hs), "no entry" if w is None else show(w)[:300])
        return cands

    def flows(self, st, w, cands):
        return any(same_opt(st, w, self.ip.read_loc(st, x)) for x in cands)

    def stray_writes(self):
        """Nothing but the creations changes the recorded neighbours of segments, the end apart."""
        ip = self.ip
        n = 0
        for r in ip.records:
            for table in (self.west, self.east):
                h = ip.read_loc(r.head, (self.me, table))
                for b in r.back:
                    v = ip.read_loc(b, (self.me, table))
                    if r.lid in self.down or r.lid in self.level_ok:
                        if table is self.east:
                            self.ob("new segments have no eastern neighbour at first", v[0] == "push" and v[1] is h and no_opt(v[2]), show(v)[:300])
                        continue
                    n += 1
                    self.ob("neighbours are only recorded with new segments and at the end", self.kept(v, h, ip.rootname(self.me), table), show(v)[:300])

    # ---- the end of a range

    def ending(self):
        ip, P = self.ip, self.P
        none = self.slots(no_opt)
        if not self.ob("whether any segment goes down, and the last that does, is kept", bool(none)):
            return
        kinds = set()
        for v, s in self.outs:
            what = facts_show(s)[:600]
            known = [f[1] for f in s.facts if f[0] == "discr" and any(self.kept(f[1], None, ip.rootname(root), p) for root, p in none) and some_in(s, f[1]) is not None]
            if not self.ob("the end tells whether any segment goes down", len(known) == 1, what):
                continue
            last = known[0]
            w0 = ip.read_loc(s, (self.me, self.west))
            e0 = ip.read_loc(s, (self.me, self.east))
            a0 = ip.read_loc(s, (self.me, self.after))
            self.ob("western neighbours are not touched at the end", w0[0] == "loop", show(w0)[:200])
            aft = self.base(a0)
            if some_in(s, last):
                self.ob("no change of neighbours besides new segments where one goes down", aft, show(a0)[:300])
                self.eastern(s, last, e0, kinds)
            else:
                self.ob("no eastern neighbour where nothing goes down", e0[0] == "loop", show(e0)[:300])
                self.revealed(s, a0, kinds)
        for k in ("east", "east changing", "no east", "revealed both", "revealed west", "revealed east", "revealed nothing"):
            self.ob("the end of a range: %s" % k, k in kinds, str(sorted(kinds)))

    def base(self, a0):
        return a0[0] == "loop" or a0 is self.ip.project(T("*", self.args[0]), self.after[0], None)

    def seg_range(self, t, end):
        """t is the first (or one past the last) position of the interval."""
        i = field_index(self.P, SW + "ChangedInterval", "segs")
        return t is not None and t[0] == "fld" and t[3] == (1 if end else 0) and t[1][0] == "fld" and t[1][3] == i and called(t[1][1], "seg_range")

    def lookup(self, t, names, west):
        """t asks the line for what is just outside of the interval."""
        if not called(t, *names) or len(t) != 4 or not called(t[2], "line"):
            return False
        return self.seg_range(iadd(t[3], I(1)), False) if west else self.seg_range(t[3], True)

    def front(self, s, t, seg):
        """t is the first open output segment of an input segment."""
        coll = T("sel", self.ip.read_loc(s, (self.me, self.open)), fld(seg, 0))
        if t[0] == "agg" and t[2] == 1:
            return t[3] is T("sel", coll, I(0)) or t[3] is self.ip.select(coll, I(0), s)
        return no_opt(t) and int_orders(s, self.ip.length(coll), I(0)) == frozenset("=")

    def known(self, s, names, west):
        """Questions to the line that were asked in this state: [(question, is there one?)]"""
        out = {}
        for f in s.facts:
            for x in subterms(f):
                if self.lookup(x, names, west):
                    y = some_in(s, x)
                    if y is not None:
                        out[x] = y
        return list(out.items())

    def eastern(self, s, last, e0, kinds):
        P, what = self.P, facts_show(s)[:500]
        fs = field_index(P, SW + "SegmentOrderEntry", "seg")
        flag = field_index(P, SW + "SegmentOrderEntry", "in_changed_interval")
        q = self.known(s, ("line_entry",), False)
        if not self.ob("where one goes down, the entry east of the interval is looked at", len(q) == 1, what):
            return
        t, there = q[0]
        if not there:
            kinds.add("no east")
            self.ob("no eastern neighbour where there is none", e0[0] == "loop", show(e0)[:300])
            return
        e = T("*", fld(t, 0, 1))
        ch = s.facts.get(T("fld", e, 0, flag))
        if not self.ob("whether the entry to the east is about to be visited itself is known", isinstance(ch, bool), what):
            return
        if ch:
            kinds.add("east changing")
            self.ob("an entry about to be visited records its western neighbour itself", e0[0] == "loop", show(e0)[:300])
            return
        kinds.add("east")
        seg = T("fld", e, 0, fs)
        ok = e0[0] == "store" and e0[1][0] == "loop" and e0[2] is fld(payload(last), 0) and self.front(s, e0[3], seg)
        self.ob("the eastern neighbour of the last one going down is the open segment east of the interval", ok, show(e0)[:600])

    def revealed(self, s, a0, kinds):
        what = "%s where %s" % (show(a0)[:500], facts_show(s)[:500])
        west, east = self.known(s, ("line_segment",), True), self.known(s, ("line_segment",), False)
        # at the western end there is nobody to ask
        if not west:
            starts = {x for k in s.iv for a, _ in k[1] for x in subterms(a) if self.seg_range(x, False)}
            if any(int_orders(s, x, I(0)) <= frozenset("<=") for x in starts):
                west = [(None, False)]
        if not self.ob("where nothing goes down, both neighbours of the interval are asked for", len(west) == 1 and len(east) == 1, what):
            return
        (w, wt), (e, et) = west[0], east[0]
        kinds.add("revealed " + {(True, True): "both", (True, False): "west", (False, True): "east", (False, False): "nothing"}[wt, et])
        if not wt and not et and self.base(a0):
            return
        if not self.ob("a change of neighbours is recorded where nothing goes down", a0[0] == "push" and self.base(a0[1]) and a0[2][0] == "agg" and len(a0[2]) == 6, what):
            return
        y, a, b = a0[2][3:]
        self.ob("with the height of the line", called(y, "y") and called(y[2], "line"), show(y)[:200])
        for nm, t, there, q in (("western", a, wt, w), ("eastern", b, et, e)):
            self.ob("with the %s neighbour" % nm, self.front(s, t, fld(q, 0, 1)) and t[2] == 1 if there else no_opt(t), show(t)[:300])


def same_opt(s, a, b):
    """Two optional values are the same."""
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == "agg" and x[2] == 1 and y[0] != "agg" and some_in(s, y) and x[3] is fld(y, 0, 1):
            return True
        if no_opt(x) and some_in(s, y) is False:
            return True
    return False


class Ranges(Base):
    """Every changed interval of every line is consumed, with what is open to its west."""

    def check(self):
        P = self.P
        proc = range_fn(P)
        c = [i for i in P.insts if i["body"] and not i["closure"] and "Topology::<%s>::" % BW in i["key"] and i["name"] == "from_segments"]
        self.inst = c[0]
        log = lambda s: s.mem[LOG]

        def consume(ip, fn, args, atys, rty, s, site, fr):
            st = s.copy()
            slf = ip.read_loc(s, ip.target(args[0]))
            o = ip.project(ip.project(slf, tf(P, "open_segs"), s), ("f", 0, 0), s)
            st.mem[LOG] = T("push", log(s), T("call", "consume", ip.content(args[1], s), ip.content(args[2], s), args[3], o))
            ip.write_loc(st, ip.target(args[0]), T("after", T("call", "consume", log(s)), 0, slf))
            return [(UNIT, st)]

        def merge(ip, fn, args, atys, rty, s, site, fr):
            st = s.copy()
            st.mem[LOG] = T("push", log(s), T("call", "merge"))
            return [(UNIT, st)]
        mg = [i for i in P.insts if i["body"] and "Topology::<%s>::" % BW in i["key"] and i["name"] == "merge_coincident"]
        mods = {proc["path"]: consume}
        for i in mg:
            mods[i["path"]] = merge
        ip = self.ip = self.ctx.interp(["re:Sweeper.*::(new|next_line)$", "re:SweepLine.*::(next_range|line_segment|line_entry|y)$", "re:SweepLineRange.*::(seg_range|line)$"], models=mods, keep_facts=lambda k: k[0] == "discr")
        args = ip.sym_args(self.inst)
        st = State()
        st.mem[LOG] = T("empty")
        outs = ip.run(self.inst, args, st)
        self.ctx.funcs |= ip.analysed
        self.segs = args[0]
        inner_, outer = None, None
        for v, s in outs:
            t = log(s)
            if t[0] == "push" and t[2] is T("call", "merge"):
                t = t[1]
            self.ob("coincident segments are merged once everything is there", t is not log(s), show(log(s))[:200])
            l = loop_at(ip, t)
            if not self.ob("lines are taken one after the other", l is not None and l[3] is T("empty"), show(t)[:300]):
                return
            outer = l[0]
            self.ob("until there is none left", any(f[0] == "discr" and called(f[1], "next_line") and some_in(s, f[1]) is False for f in s.facts), facts_show(s)[:400])
        for r in [r for r in ip.records if r.lid == outer]:
            h = log(r.head)
            for b in r.back:
                l = loop_at(ip, log(b))
                if not self.ob("the intervals of a line are taken one after the other", l is not None and l[3] is h, show(log(b))[:300]):
                    return
                self.ob("until the line has none left", any(f[0] == "discr" and called(f[1], "next_range") and some_in(b, f[1]) is False for f in b.facts), facts_show(b)[:400])
                inner_ = l[0]
        cases = set()
        for r in [r for r in ip.records if r.lid == inner_]:
            h = log(r.head)
            for b in r.back:
                new = log(b)
                if self.ob("each interval is consumed once", new[0] == "push" and new[1] is h and new[2][1] == "consume", show(new)[:300]):
                    cases.add(self.consumed(r, b, new[2]))
        self.ob("with and without a western neighbour", {True, False} <= cases, str(cases))

    def consumed(self, r, b, t):
        ip = self.ip
        pos, segs, west, open_ = t[2:]
        self.ob("the interval consumed is the one given out", pos[0] == "fld" and called(pos[1], "next_range") and some_in(b, pos[1]) is True, show(pos)[:300])
        self.ob("with the input segments", unref(segs) is self.segs, show(segs)[:200])
        i = field_index(self.P, SW + "ChangedInterval", "segs")
        start = lambda x: x[0] == "fld" and x[3] == 0 and x[1][0] == "fld" and x[1][3] == i and called(x[1][1], "seg_range")
        if no_opt(west):
            # either there is nothing to the west, or nothing open
            starts = {x for k in b.iv for a, _ in k[1] for x in subterms(a) if start(x)}
            if any(int_orders(b, x, I(0)) <= frozenset("<=") for x in starts):
                return False
            asked = {x for k in list(b.facts) + [a for k in b.iv for a, _ in k[1]] for x in subterms(k) if self.asks(x, start)}
            ok = any(int_orders(b, ip.length(T("sel", open_, fld(fld(x, 0, 1), 0))), I(0)) == frozenset("=") for x in asked)
            self.ob("no western neighbour only where the interval is the first of its line", ok, facts_show(b)[:500])
            return None
        w = payload(west)
        q = [x for x in subterms(w) if self.asks(x, start)]
        ok = west[0] == "agg" and west[2] == 1 and len(q) >= 1 and w is T("sel", T("sel", open_, fld(fld(q[0], 0, 1), 0)), I(0))
        self.ob("the western neighbour is the first open part of the segment just west of the interval", ok, show(w)[:500])
        return True

    def asks(self, x, start):
        return called(x, "line_segment") and len(x) == 4 and start(iadd(x[3], I(1)))


class Collecting(Base):
    """The lists of neighbours, by segment."""

    def check(self):
        P = self.P
        c = [i for i in P.insts if i["body"] and "Topology::<%s>::" % BW in i["key"] and i["name"] == "build_scan_line_orders"]
        if len(c) != 1:
            c = [i for i in P.insts if i["body"] and i["name"] == "build_scan_line_orders" and "closure" not in i["key"]][:1]
        self.inst = c[0]
        ip = self.ip = self.ctx.interp([], keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        args = ip.sym_args(self.inst)
        outs = ip.run(self.inst, args, State())
        self.ctx.funcs |= ip.analysed
        me = T("*", args[0])
        tab = lambda n: ip.project(ip.project(me, tf(P, n), None), ("f", 0, 0), None)
        self.W, self.E, self.A = tab("scan_west"), tab("scan_east"), ip.project(me, tf(P, "scan_after"), None)
        self.points = tab("points")
        pi = ip.project(me, tf(P, "point_idx"), None)
        hv = CRATE + "topology::HalfOutputSegVec"
        self.pidx = {n: ip.project(pi, ("f", 0, field_index(P, hv, n)), None) for n in ("start", "end")}
        self.lens = [ip.length(tab(n)) for n in ("scan_west", "scan_east", "winding", "orig_seg", "deleted", "positively_oriented")] + [ip.length(x) for x in self.pidx.values()]
        self.handled = {}
        lids = set()
        for v, s in outs:
            maps = {}
            for side in ("west", "east"):
                m = ip.project(v, ("f", 0, field_index(P, SLO, side + "_map")), s)
                m = ip.project(ip.project(m, ("f", 0, field_index(P, HSO, "inner")), s), ("f", 0, 0), s)
                maps[side] = m
            self.roots, chains = {}, {}
            for side, m in maps.items():
                ch = []
                while loop_at(ip, m):
                    l = loop_at(ip, m)
                    ch.append(l)
                    m = l[3]
                chains[side] = ch
                self.empty(side, m)
                if not self.ob("the lists of %sern neighbours are made in loops" % side, len(ch) >= 2, show(m)[:200]):
                    return
            for side, ch in chains.items():
                self.sorting(side, ch[0], s)
                self.roots[side] = {(l[1], l[2]) for l in ch[1:]}
                lids |= {l[0] for l in ch[1:]}
            self.chains = {side: [l[0] for l in ch[1:]] for side, ch in chains.items()}
        for lid in sorted(lids):
            self.contributions(lid)
        for k in self.kinds(T("sym", "x"))[0]:
            self.ob("listed: " + k, self.handled.get(k) is not None, str(sorted(self.handled)))

    def empty(self, side, t):
        ip = self.ip
        ok = t[0] == "repeat" and t[1] is T("empty")
        if t[0] == "collect" or t in ip.collected:
            els = ip.collected.get(t)
            ok = bool(els) and all(x is T("empty") for x, _ in els)
        self.ob("the lists of %sern neighbours are empty at first" % side, ok, show(t)[:300])

    def at(self, st, lid):
        """The lists in a state, by side, where a loop changes them."""
        out = {}
        for side, rs in self.roots.items():
            for root in list(st.mem):
                for name, path in rs:
                    if self.ip.rootname(root) is name:
                        out[side] = (root, path)
        return out

    def counter(self, r):
        ip = self.ip
        for root, p, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l and l[0] == r.lid and l[3] is I(0) and r.back and all(isub(ip.read_loc(b, (root, p)), x) is I(1) for b in r.back):
                yield x, root, p

    def y(self, x, which="start"):
        ip = self.ip
        p = T("sel", self.points, ip.project(T("sel", self.pidx[which], x), ("f", 0, 0), None))
        return ip.project(p, ("f", 0, field_index(self.P, CRATE + "geom::Point", "y")), None)

    def kinds(self, x):
        """What has to be listed at index x: name -> (table, list, segment, (height, neighbour), conditions)."""
        w, e = T("sel", self.W, x), T("sel", self.E, x)
        a = T("sel", self.A, x)
        me = T("some", x)
        raw = lambda o: fld(fld(o, 0, 1), 0)
        y, ya, aw, ae = self.y(x), T("fld", a, 0, 0), T("fld", a, 0, 1), T("fld", a, 0, 2)
        k = {"first western neighbours": ("W", "west", x, (y, w), (w,)), "first western neighbours, seen from them": ("W", "east", raw(w), (y, me), (w,)),
             "first eastern neighbours": ("E", "east", x, (y, e), (e,)), "first eastern neighbours, seen from them": ("E", "west", raw(e), (y, me), (e,)),
             "western neighbours from some height on": ("A", "west", raw(ae), (ya, aw), (ae,)), "eastern neighbours from some height on": ("A", "east", raw(aw), (ya, ae), (aw,))}
        return k, x

    def cond(self, s, k, x):
        """Does what has to be listed exist?"""
        ts = [some_in(s, o) for o in k[4]]
        if k[0] == "W":
            o = set(flt_orders(s, self.y(x), self.y(x, "end"), False))
            lv = True if o <= {"="} else False if "=" not in o else None
            ts.append(None if lv is None else not lv)
        return False if False in ts else None if None in ts else True

    def same(self, s, t, opt, x):
        """The neighbour listed is the one wanted."""
        if opt[0] == "some":
            return t[0] == "agg" and t[2] == 1 and fld(t[3], 0) is opt[1]
        return same_opt(s, t, opt)

    def additions(self, r, b):
        """[(side, segment, element)] added to the lists in one step; None if anything else happens to them."""
        ip, out = self.ip, []
        for side, loc in self.at(r.head, r.lid).items():
            h, t = ip.read_loc(r.head, loc), ip.read_loc(b, loc)
            while t is not h:
                if t[0] != "store" or t[3][0] != "push":
                    return None
                v = t[3]
                while v[0] == "push":
                    out.append((side, t[2], v[2]))
                    v = v[1]
                if v is not ip.select(t[1], t[2], b) and v is not T("sel", t[1], t[2]):
                    return None
                t = t[1]
        return out

    def contributions(self, lid):
        ip = self.ip
        recs = [r for r in ip.records if r.lid == lid]
        for r in recs:
            cs = list(self.counter(r))
            if not self.ob("entries are gone through one by one", bool(cs), "loop %d" % lid):
                continue
            best = None
            for x, root, p in cs:
                steps = list(r.back)
                for (src, site), states in ip.left_out.items():
                    if self.goes(r, root, p, src):
                        steps += [z for z in states if any(y is x for f in list(z.facts) + [a for q in z.iv for a, _ in q[1]] for y in subterms(f))]
                ks = self.kinds(x)[0]
                adds = [(s, self.additions(r, s) if s in r.back else []) for s in steps]
                if any(a is None for _, a in adds):
                    continue
                mine = {n: k for n, k in ks.items() if any(self.fits(s, k, y, x) for s, a in adds for y in a)}
                if mine:
                    best = (x, mine, adds)
            if not self.ob("what a loop lists is known", best is not None, "loop %d at %s" % (lid, r.fn)):
                continue
            x, mine, adds = best
            for s, a in adds:
                for y in a:
                    self.ob("only neighbours are listed", any(self.fits(s, k, y, x) for k in mine.values()), "%s list of %s: %s where %s" % (y[0], show(y[1])[:150], show(y[2])[:300], facts_show(s)[:300]))
                for n, k in mine.items():
                    c = self.cond(s, k, x)
                    m = sum(self.fits(s, k, y, x) for y in a)
                    self.ob(n + ": listed wherever there is one", c is not None and m == (1 if c else 0), "%d times where %s" % (m, facts_show(s)[:600]))
            for n, k in mine.items():
                other = self.handled.setdefault(n, lid)
                self.ob(n + ": in one place", other == lid)
                for z in r.exit:
                    self.ob(n + ": all of them", self.over(z, x, k[0]), facts_show(z)[:400])

    def fits(self, s, k, y, x):
        side, seg, el = y
        return side == k[1] and seg is k[2] and el[0] == "agg" and len(el) == 5 and el[3] is k[3][0] and self.same(s, el[4], k[3][1], x)

    def goes(self, r, root, p, src):
        """The loop's index is the position in this source."""
        if not p or p[-1][0] != "f":
            return False
        it = self.ip.read_loc(r.head, (root, p[:-1]))
        return it[0] == "agg" and it[1] == "it" and (it[3] is src or any(z is src for z in subterms(it[3])))

    def over(self, s, x, table):
        """Nothing is left from this index on."""
        ip = self.ip
        ns = [ip.length(self.A)] if table == "A" else self.lens
        if any(int_orders(s, x, n) <= frozenset("=>") for n in ns):
            return True
        for f, v in s.facts.items():
            if f[0] == "done" and f[2] is x and v is True:
                t = f[1]
                while t[0] in ("filter", "map", "copied", "cloned", "enumerate") or t[0] == "agg" and t[1] == "it" and t[4] is I(0):
                    t = t[3] if t[0] == "agg" else t[1]
                if t[0] == "agg" and isinstance(t[1], str) and t[1].endswith("ops::range::Range"):
                    return t[3] is I(0) and t[4] in ns
                if t[0] == "refs":
                    return ip.length(ip.content(t[1], s)) in ns
        return False

    def sorting(self, side, l, s):
        """The last loop puts each list in order of height, and drops repetitions of the same."""
        ip = self.ip
        lid = l[0]
        for r in [r for r in ip.records if r.lid == lid]:
            root = next((x for x in r.head.mem if ip.rootname(x) is l[1]), None)
            loc = (root, l[2])
            h = ip.read_loc(r.head, loc)
            ks = set()
            for b in r.back:
                t = ip.read_loc(b, loc)
                if t is h:
                    continue
                ok = t[0] == "store" and t[1] is h
                if not self.ob("each list of %sern neighbours is put in order" % side, ok, show(t)[:300]):
                    continue
                k, v = t[2], t[3]
                ks.add(k)
                v = self.deduped(v)
                if not self.ob("the lists of %sern neighbours are sorted" % side, v[0] == "sorted" and v[1] is T("sel", h, k), show(t[3])[:300]):
                    continue
                ok, why = sorted_by(self.ctx, v, lambda e: T("fld", e, 0, 0))
                self.ob("the lists of %sern neighbours are in order of height" % side, ok, why)
            if not r.back:
                continue
            if not self.ob("each list of %sern neighbours is put in order" % side, len(ks) == 1, "%d places" % len(ks)):
                continue
            # the place goes up one by one, from the first list or before it to behind the last one; outside nothing is to be done
            k, n = ks.pop(), ip.length(h)
            up = [x for x, _, _ in self.counter(r) if contains(k, lambda y: y is x) and not any(contains(isub(k, x), lambda y: y is z) for z, _, _ in self.counter(r))
                  and int_orders(r.head, isub(k, x), I(0)) <= frozenset("<=")]
            self.ob("all lists of %sern neighbours are put in order" % side, bool(up) and all(int_orders(z, k, n) <= frozenset("=>") for z in r.exit), show(k)[:100])
            for b in r.back:
                self.ob("each list of %sern neighbours is put in order" % side, ip.read_loc(b, loc) is not h or int_orders(b, k, n) <= frozenset("=>") or int_orders(b, k, I(0)) <= frozenset("<"), facts_show(b)[-300:])

    def deduped(self, v):
        if v[0] == "dedup":
            f = v[2] if len(v) > 2 else None
            if not self.ob("only repetitions of the same are dropped", f is None or f[0] != "agg", show(v)[:200]):
                return v
            return v[1]
        return v


class Lookups(Base):
    def check(self):
        for n, f in (("iter", self.pieces), ("neighbor_after", self.neighbour), ("close_neighbor_height_after", self.close)):
            self.ctx.guard(n, HSO, lambda: f(n))
        for side in ("west", "east"):
            self.ctx.guard(side, SLO, lambda: self.sides(side))

    def prepare(self, name, ty=HSO, opaque=(), **kw):
        P = self.P
        self.inst = P.one(key=ty + "::" + name)
        ip = self.ip = self.ctx.interp(GEOM + list(opaque), models=line_models(P), keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr", **kw)
        args = ip.sym_args(self.inst)
        outs = ip.run(self.inst, args, State())
        self.ctx.funcs |= ip.analysed
        self.args = args
        if ty == HSO:
            lists = ip.project(ip.project(T("*", args[0]), ("f", 0, field_index(P, HSO, "inner")), None), ("f", 0, 0), None)
            self.L = T("sel", lists, fld(args[1], 0))
            self.n = ip.length(self.L)
        return outs

    def el(self, k):
        return T("sel", self.L, k)

    def from_(self, k):
        return T("fld", self.el(k), 0, 0)

    def who(self, k):
        return T("fld", self.el(k), 0, 1)

    def is_end(self, s, t, k):
        """t is where entry k ends."""
        if t is self.from_(iadd(k, I(1))):
            return "<" == "".join(int_orders(s, iadd(k, I(1)), self.n))
        return self.infinite(t) and "<" not in int_orders(s, iadd(k, I(1)), self.n)

    def infinite(self, t):
        return t[0] == "f" and t[1] == float("inf") or t is F(float("inf"))

    def ends(self, s, k):
        return F(float("inf")) if "<" not in int_orders(s, iadd(k, I(1)), self.n) else self.from_(iadd(k, I(1))) if int_orders(s, iadd(k, I(1)), self.n) == frozenset("<") else None

    def pieces(self, name):
        """The iterator over a segment's neighbours."""
        for v, s in self.prepare(name):
            ip, k = self.ip, T("sym", "k", None, "usize")
            if not self.ob("neighbours: an iterator from the first on", v[0] == "agg" and v[1] == "it" and v[4] is I(0), show(v)[:200]):
                continue
            fr = Frame(self.inst, ip.fid(("probe",)), 0, self.P.cfg(self.inst), ())
            seen = set()
            for ok, st in inside(ip, v[3], k, int_restrict(s, k, I(0), frozenset("=>")), through=True):
                if not ok:
                    self.ob("neighbours: to the end of the list", int_orders(st, k, self.n) <= frozenset("=>"), facts_show(st)[:300])
                    continue
                self.ob("neighbours: as many as there are", int_orders(st, k, self.n) == frozenset("<"), facts_show(st)[:300])
                a, skips, ends = elems(ip, v[3], k, st, ("probe", 0), fr)
                self.ob("neighbours: none is left out", not skips and not ends)
                for x, z in a:
                    x = x if x[0] == "agg" else T("agg", "tuple", 0, *[ip.project(x, ("f", 0, i), z) for i in range(3)])
                    g = [x[3 + i] for i in range(3)]
                    last = "<" not in int_orders(z, iadd(k, I(1)), self.n)
                    seen.add(last)
                    self.ob("neighbours: from its height", g[0] is self.from_(k), show(x)[:300])
                    self.ob("neighbours: to the next one's height, the last for ever", self.is_end(z, g[1], k), "%s where %s" % (show(x)[:300], facts_show(z)[:200]))
                    self.ob("neighbours: itself", g[2] is self.who(k), show(x)[:300])
            self.ob("neighbours: the last and others", seen == {True, False}, str(seen))

    def indices(self, s, extra=()):
        out = {I(0)}
        for key in list(s.facts) + [z for k in s.rel for z in k[:2]] + [a for k in s.iv for a, _ in k[1]] + list(extra):
            for x in subterms(key):
                if x[0] == "sel" and x[1] is self.L:
                    out |= {x[2], isub(x[2], I(1))}
                if x[0] == "loop" or x[0] == "partition" and x[1] is self.L:
                    out.add(x)
        return out

    def over(self, s, k, y):
        """Entry k ends at or before y (or there is no comparing them)."""
        e = self.ends(s, k)
        return e is not None and never(s, y, e, "<") and (not self.infinite(e) or never(s, y, e, "<"))

    def passed(self, s, k, skip, depth=0):
        """By induction: every entry before number k was passed over for a reason."""
        if k is I(0) or int_orders(s, k, I(0)) == frozenset("="):
            return True
        l = loop_at(self.ip, k)
        if l is None or l[3] is not I(0) or depth > 3:
            return False
        recs = recs_of(self.ip, l[0], s)
        for r in recs:
            for b in r.back:
                if isub(after_step(self.ip, l[0], k, b), k) is not I(1) or not skip(b, k):
                    return False
        return bool(recs)

    def neighbour(self, name):
        outs = self.prepare(name)
        y, seen = self.args[2], set()
        for v, s in outs:
            what = "%s where %s" % (show(v)[:200], facts_show(s)[:600])
            o = v
            if v[0] == "agg" and v[2] == 1 and v[3][0] == "fld" and v[3][1][0] == "fld":
                o = v[3][1]
            if no_opt(o):
                seen.add(False)
                self.ob("no neighbour only before the first entry, or without any", self.nothing(s, y) or self.was_none(s, y), what)
                continue
            ks = [x[2] for x in subterms(o) if x[0] == "sel" and x[1] is self.L]
            if not self.ob("the neighbour is one of the list", len(ks) == 1 and o is self.who(ks[0]), what):
                continue
            seen.add(True)
            self.ob("the neighbour at a height is that of the entry around it", self.around(s, ks[0], y), what)
        self.ob("with and without a neighbour", seen == {True, False}, str(seen))

    def around(self, s, k, y):
        e = self.ends(s, k)
        if never(s, self.from_(k), y, ">"):
            if "<" not in int_orders(s, iadd(k, I(1)), self.n):
                return True
            if e is not None and never(s, y, e, "=>"):
                return True
            return e is None and never(s, y, self.from_(iadd(k, I(1))), "=>")
        return False

    def nothing(self, s, y):
        if int_orders(s, self.n, I(0)) == frozenset("="):
            return True
        for k in self.indices(s):
            if self.passed(s, k, lambda b, j: self.over(b, j, y) or never(b, self.from_(j), y, "<=")):
                if int_orders(s, k, self.n) <= frozenset("=>") or never(s, self.from_(k), y, "<="):
                    return True
        return False

    def was_none(self, s, y):
        """The entry around the height says that there is none."""
        return any(self.around(s, k, y) and some_in(s, self.who(k)) is False for k in self.indices(s))

    def close(self, name):
        P = self.P
        outs = self.prepare(name)
        ip = self.ip
        self.y = y = self.args[2]
        self.orig = ip.project(T("*", self.args[3]), ("f", 0, 0), None)
        self.ish = variant_index(P, CRATE + "curve::Order", "Ish")
        seen = set()
        for v, s in outs:
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:900])
            if no_opt(v):
                seen.add(False)
                self.ob("no close neighbour only when all have been tried", any(int_orders(s, k, self.n) <= frozenset("=>") and self.passed(s, k, self.useless) for k in self.indices(s)), what)
                continue
            if not self.ob("a height or none", v[0] == "agg" and v[2] == 1, what):
                continue
            seen.add(True)
            found = False
            for k in self.indices(s):
                for L2, lo in self.lists(s, k, [v]):
                    for j in self.js(s, L2, [v]):
                        a = T("fld", T("sel", L2, j), 0, 0)
                        if leaves_max(v[3]) == {a} | lo and self.close_here(s, k, L2, j, lo):
                            found = True
                            self.ob("entries before the one answered have nothing close from the height on", self.passed(s, k, self.useless), what)
                            self.ob("the first close stretch is taken", self.passed(s, j, lambda b, i: self.away(b, k, L2, i)), what)
                            self.ob("the neighbour is the segment's while it is close", some_in(s, self.who(k)) is True, what)
            self.ob("the answer is where the close stretch begins, or the neighbourhood, or the height asked for", found, what)
        self.ob("with and without a close neighbour", seen == {True, False}, str(seen))

    def lists(self, s, k, extra=()):
        """[(intervals of the comparison with neighbour k, what they are compared with from below)]"""
        out = []
        me, other = T("sel", self.orig, fld(self.args[1], 0)), T("sel", self.orig, fld(fld(self.who(k), 0, 1), 0))
        for key in list(s.facts) + [z for q in s.rel for z in q[:2]] + [a for q in s.iv for a, _ in q[1]] + list(extra):
            for x in subterms(key):
                if x[0] == "intervals" and x[1][0] == "order" and x[1][2:] in ((me, other), (other, me)) and (x, {self.y, self.from_(k)}) not in out:
                    out.append((x, {self.y, self.from_(k)}))
        return out

    def js(self, s, L2, extra=()):
        out = {I(0)}
        for key in list(s.facts) + [z for q in s.rel for z in q[:2]] + [a for k in s.iv for a, _ in k[1]] + list(extra):
            for x in subterms(key):
                if x[0] == "sel" and x[1] is L2:
                    out.add(x[2])
                if x[0] == "loop":
                    out.add(x)
        return out

    def low(self, k):
        """Terms for the greater of the height and where entry k begins."""
        return T("fmax", self.y, self.from_(k)), T("fmax", self.from_(k), self.y)

    def before(self, s, t, k):
        """Height t does not come after both the height asked for and the beginning of entry k."""
        return any(never(s, x, t, "<") for x in self.low(k)) or never(s, self.y, t, "<") or never(s, self.from_(k), t, "<")

    def close_here(self, s, k, L2, j, lo):
        f = lambda i: T("fld", T("sel", L2, j), 0, i)
        e = self.ends(s, k)
        o = s.facts.get(T("discr", f(2)))
        ish = o == self.ish and not isinstance(o, frozenset)
        ends = e is not None and never(s, y := self.y, e, "=>") and (never(s, f(0), e, "=>") or self.infinite(e))
        after = any(never(s, f(1), x, "<=") for x in self.low(k)) or never(s, f(1), self.y, "<=") and never(s, f(1), self.from_(k), "<=")
        return ish and ends and after

    def away(self, s, k, L2, i):
        """Stretch i is not close, or over already."""
        f = lambda m: T("fld", T("sel", L2, i), 0, m)
        d = s.facts.get(T("discr", f(2)))
        return d is not None and (self.ish in d if isinstance(d, frozenset) else d != self.ish) or self.before(s, f(1), k)

    def useless(self, s, k):
        """Entry k is over, or nobody, or never close from the height on."""
        if self.over(s, k, self.y) or some_in(s, self.who(k)) is False:
            return True
        e = self.ends(s, k)
        for L2, _ in self.lists(s, k):
            for j in self.js(s, L2):
                if not self.passed(s, j, lambda b, i: self.away(b, k, L2, i)):
                    continue
                if int_orders(s, j, self.ip.length(L2)) <= frozenset("=>") or e is not None and never(s, T("fld", T("sel", L2, j), 0, 0), e, "<"):
                    return True
        return False

    def sides(self, side):
        P = self.P
        i = field_index(P, SLO, side + "_map")
        for n, to in ((side + "_neighbor_after", "neighbor_after"), ("close_%s_neighbor_height_after" % side, "close_neighbor_height_after")):
            outs = self.prepare(n, SLO, opaque=["re:HalfScanLineOrder::(neighbor_after|close_neighbor_height_after)$"])
            for v, s in outs:
                want = [T("&", T("fld", T("*", self.args[0]), 0, i))] + list(self.args[1:])
                ok = called(v, to) and len(v) == 2 + len(want) and unref(v[2]) is T("fld", T("*", self.args[0]), 0, i) and all(self.eqarg(a, b, s) for a, b in zip(v[3:], want[1:]))
                self.ob("%s asks the %sern lists" % (n, side), ok, show(v)[:300])

    def eqarg(self, a, b, s):
        return a is b or self.ip.content(a, s) is self.ip.content(b, s)


def leaves_max(t):
    """What the greatest of several numbers is taken of."""
    if t[0] == "fmax":
        return leaves_max(t[1]) | leaves_max(t[2])
    return {t}
