"""Visiting a changed interval is interpreted as a whole: the list of events it ends with is taken apart into sorting and the loops
that add or change events, back to the lists of entries and of allowed positions; each loop is decided by induction over its steps."""
from itertools import product
from props.linectx import *

FLOOR = 40
SL = SW + "SweepLine"
OE = CRATE + "sweep::output_event::OutputEvent"
CI = SW + "ChangedInterval"


def run(ctx):
    ctx.rule("each changed interval is visited once; its events say where each segment arrives and leaves, in allowed and ordered positions")
    ctx.assumption("positions before the sweep-line are noted for all entries in an interval, within the interval and all different (P20); the ordered tree is a sequence (P64); extents of segments are uninterpreted (P22, P24)")
    c = Events(ctx)
    ctx.guard("changed intervals visited", SL, c.run)
    ctx.guard("the interval visited last", SL, c.current)


class Events:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def ob(self, name, ok, detail=""):
        self.ctx.ob(name, ok, self.inst, detail)
        return ok

    def prepare(self, name):
        P, ctx = self.P, self.ctx
        self.inst = method(P, name, "SweepLine")
        ip = self.ip = ctx.interp(GEOM, models=line_models(P), keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        args = ip.sym_args(self.inst)
        self.me, _ = ip.target(args[0])
        slf, self.param = T("*", args[0]), args[-1]
        g = lambda v, adt, n: ip.project(v, ("f", 0, field_index(P, adt, n)), None)
        self.st = st = ip.target(g(slf, SL, "state"))[0]
        self.bufs = ip.target(g(slf, SL, "bufs"))[0]
        state = ip.read_loc(State(), (st, ()))
        self.y, self.eps, self.horizontals = (g(state, SWEEPER, n) for n in ("y", "eps", "horizontals"))
        self.line = g(g(state, SWEEPER, "line"), SW + "SegmentOrder", "segs")
        self.intervals = g(state, SWEEPER, "changed_intervals")
        self.next = g(slf, SL, "next_changed_interval")
        self.nextp = (("f", 0, field_index(P, SL, "next_changed_interval")),)
        self.e = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in fields(P, SW + "SegmentOrderEntry")}
        self.v = {n: field_index(P, OE, n) for n in fields(P, OE)}
        self.ci = {n: field_index(P, CI, n) for n in fields(P, CI)}
        self.px = ("f", 0, field_index(P, CRATE + "geom::Point", "x"))
        self.done = set()
        return args

    def run(self):
        P, ctx = self.P, self.ctx
        args = self.prepare("next_range")
        ip = self.ip
        self.ev_loc = (self.bufs, (("f", 0, field_index(P, SW + "SweepLineBuffers", "output_events")),))
        rg = CRATE + "sweep::range::SweepLineRange"
        rf = {n: field_index(P, rg, n) for n in fields(P, rg)}
        self.interval = T("sel", self.intervals, self.next)
        self.segs = ip.project(self.interval, ("f", 0, self.ci["segs"]), None)
        self.hor = ip.project(self.interval, ("f", 0, self.ci["horizontals"]), None)
        self.a, self.z = (ip.project(self.segs, ("f", 0, i), None) for i in (0, 1))
        outs = ip.run(self.inst, args, State())
        ctx.funcs |= ip.analysed
        n, cases, general = ip.length(self.intervals), set(), False
        for v, s in outs:
            if v is NONE:
                cases.add("none")
                self.ob("there is no other interval only after all of them", int_orders(s, self.next, n) <= frozenset("=>"), facts_show(s)[:300])
                continue
            if not self.ob("an interval to visit, or none", v[0] == "agg" and v[2] == 1 and v[3][0] == "agg", show(v)[:200]):
                continue
            cases.add("some")
            r = v[3]
            g = lambda k: r[3 + rf[k]]
            idx = ip.read_loc(s, (self.me, self.nextp))
            self.ob("the next visit is to the next interval", isub(idx, self.next) is I(1), show(idx)[:100])
            self.ob("a visit begins without a position", g("last_x") is NONE, show(g("last_x"))[:100])
            ci = g("changed_interval")
            segs = ip.project(ci, ("f", 0, self.ci["segs"]), s)
            ends = [ip.project(segs, ("f", 0, i), s) for i in (0, 1)]
            ok = all(isub(x, y) is I(0) or int_orders(s, x, y) == frozenset("=") for x, y in zip(ends, (self.a, self.z)))
            h = ip.project(ci, ("f", 0, self.ci["horizontals"]), s)
            self.ob("the visit is to the interval that is next", ok and (h is self.hor or h is NONE and self.discr(s, self.hor) == 0), show(ci)[:300])
            self.ob("the visit knows its line", ip.target(g("line"))[0] == self.me, show(g("line"))[:100])
            act = ip.project(ip.read_loc(s, (ip.target(g("bufs"))[0], ())), ("f", 0, field_index(P, CRATE + "sweep::range::SweepLineRangeBuffers", "active_horizontals")), s)
            self.ob("no horizontal piece is left from another visit", act is T("empty") or int_orders(s, ip.length(act), I(0)) == frozenset("="), show(act)[:200])
            t = ip.read_loc(s, self.ev_loc)
            self.ob("the events are those computed", unref(ip.content(g("output_events"), s)) is T("*", t) or unref(ip.content(g("output_events"), s)) is t, show(ip.content(g("output_events"), s))[:300])
            u = t
            while u[0] in ("push", "sorted"):
                u = u[1]
            if u is T("empty"):
                self.single(s, t)
            else:
                general = True
                self.general(s, t)
        self.ob("all kinds of results are there", len(cases) == 2 and general, str(cases))

    def current(self):
        args = self.prepare("cur_interval")
        ip, n = self.ip, 0
        k = isub(self.next, I(1))
        for v, s in ip.run(self.inst, args, State()):
            at = int_orders(s, self.next, I(1)) <= frozenset("=>") and int_orders(s, k, ip.length(self.intervals)) == frozenset("<")
            if v is NONE:
                self.ob("there is a last visited interval after the first visit", not at, facts_show(s)[:300])
            else:
                n += 1
                x = v[3] if v[0] == "agg" and v[2] == 1 else v
                x = unref(ip.content(x, s))
                want = T("sel", self.intervals, k)
                self.ob("it is that visited last", x in (want, T("*", want)), show(v)[:300])
        self.ctx.funcs |= ip.analysed
        self.ob("it is found", n > 0)

    # ---- reading

    def discr(self, s, t):
        if t[0] == "agg":
            return t[2]
        d = s.facts.get(T("discr", t))
        if isinstance(d, frozenset):
            d = ({0, 1} - d).pop() if len({0, 1} - d) == 1 else None
        return d

    def ent(self, e, name):
        return self.ip.project(e, ("f", 0, self.e[name]), None)

    def evf(self, v, name):
        return self.ip.project(v, ("f", 0, self.v[name]), None)

    def geo(self, t, what):
        """The segment index, if t is this about a segment (end points: their horizontal position)."""
        if what in ("start", "end"):
            if t[0] != "fld" or t[2:] != (0, self.px[2]):
                return None
            t = t[1]
        if t[0] != "call" or not t[1].endswith("Segment::" + what):
            return None
        want = {"start": [], "end": [], "at_y": [self.y], "lower": [self.y, self.eps], "upper": [self.y, self.eps]}[what]
        if list(t[3:]) != want:
            return None
        x = unref(t[2])
        if x[0] != "sel" or x[2][0] != "fld" or x[2][2:] != (0, 0) or not contains(x[1], lambda y: y is self.param or y[0] == "fld" and y[2:] == (0, field_index(self.P, SWEEPER, "segments"))):
            return None
        return x[2][1]

    def before(self, s, e):
        """The segment of an entry before the sweep-line; None if not known."""
        d = self.discr(s, self.ent(e, "old_seg"))
        return None if d is None else fld(self.ent(e, "old_seg"), 0, 1) if d == 1 else self.ent(e, "seg")

    def cases(self, s, forms):
        """All that an entry can be in this state: (begins, ends, takes over; assignment of atoms)."""
        for en, ex, sh in product((False, True), repeat=3):
            env = {}
            for f in forms:
                env[self.ent(f, "enter")], env[self.ent(f, "exit")] = en, ex
                d = T("discr", self.ent(f, "old_seg"))
                env[d] = int(sh)
                for i in (0, 1):
                    env[T("isdiscr", d, i)] = int(sh) == i
            if holds(s, env, partial=True):
                yield en, ex, sh, env

    def flag(self, t, env):
        try:
            return ev(t, env)
        except Undet:
            return None

    def through(self, r, idx, t, up=True):
        """The index goes through a list that the loop does not make longer."""
        l = loop_at(self.ip, t)
        n = [self.ip.length(t)]
        if l is not None and l[0] == r.lid and all(self.kept(self.ip.read_loc(b, (l[1][1], l[2])), t) for b in r.back):
            n.append(self.ip.length(l[3]))
        return any(self.counts(r, idx, I(0), x, up) for x in n)

    def kept(self, new, old):
        while new[0] == "store":
            new = new[1]
        return new is old

    def counts(self, r, idx, lo, hi, up=True):
        """The index goes through [lo, hi) one by one (downwards from hi - 1: up is False)."""
        ip = self.ip
        if not up:
            idx, lo, hi = isub(isub(hi, I(1)), idx), I(0), isub(hi, lo)
        first = at_entry(ip, r.lid, idx)
        return (len(r.back) > 0 and first is not None and isub(first, lo) is I(0) and all(isub(after_step(ip, r.lid, idx, b), idx) is I(1) for b in r.back)
                and len(r.exit) > 0 and all(int_orders(x, idx, hi) <= frozenset("=>") or self.finished(x, idx) for x in r.exit))

    def finished(self, x, idx):
        return any(k[0] == "done" and k[2] is idx and v is True for k, v in x.facts.items())

    def known(self, r, what):
        if (r.lid, r.no, what) in self.done:
            return True
        self.done.add((r.lid, r.no, what))
        return False

    # ---- an interval of a single segment

    def single(self, s, t):
        ip = self.ip
        evs = []
        while t[0] in ("push", "sorted"):
            if t[0] == "push":
                evs.append(t[2])
            t = t[1]
        what = facts_show(s)[:500]
        one = isub(self.z, self.a) is I(1) or int_orders(s, isub(self.z, self.a), I(1)) == frozenset("=") or int_orders(s, iadd(self.a, I(1)), self.z) == frozenset("=")
        if not self.ob("events are given one by one only for a single segment", one and self.discr(s, self.hor) == 0, what):
            return
        e = T("sel", self.line, self.a)
        for en, ex, sh, env in self.cases(s, [e]):
            seg, old = self.ent(e, "seg"), fld(self.ent(e, "old_seg"), 0, 1)
            pos, opos = some(self.a), self.ent(e, "old_idx")
            want = [(True, False, old, NONE, opos), (False, True, seg, pos, NONE)] if sh else [(not en, not ex, seg, pos, opos)]
            got = [(self.flag(self.evf(v, "connected_above"), env), self.flag(self.evf(v, "connected_below"), env), self.evf(v, "seg_idx"), self.evf(v, "sweep_idx"), self.evf(v, "old_sweep_idx")) for v in evs]
            self.ob("a single segment: one event, or one each when another takes over", sorted(map(repr, want)) == sorted(map(repr, got)), "%s where %s" % ([[show(x) if isinstance(x, Term) else x for x in g] for g in got], what))
            for v in evs:
                for k in ("x0", "x1"):
                    self.ob("a single segment is where it is at this height", self.geo(self.evf(v, k), "at_y") is seg, show(self.evf(v, k))[:200])

    # ---- an interval of several

    def general(self, s, t):
        ip = self.ip
        if not self.ob("events are sorted in the end", t[0] == "sorted", show(t)[:200]):
            return
        if t not in self.done:
            self.done.add(t)
            self.sorting(t)
        t, kinds = t[1], []
        while t is not T("empty"):
            l = loop_at(ip, t)
            if not self.ob("events are made in loops", l is not None, show(t)[:200]):
                return
            rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, self.ev_loc) is t]
            if not self.ob("the loop that makes events is known", len(rs) > 0):
                return
            here = set()
            for r in rs:
                if not r.back and rs != [r]:
                    continue
                kind = self.kind(r, t)
                here.add(kind)
                if kind and not self.known(r, kind):
                    getattr(self, kind)(r, t)
            if not self.ob("what the loop does to events is known", len(here) == 1 and None not in here, str(here)):
                return
            kinds.append(here.pop())
            t = l[3]
        h = self.discr(s, self.hor)
        order = [k for k in kinds[::-1] if k != "level"]
        self.ob("first where segments arrive, then where they leave, then exact ends", order == ["arriving", "leaving", "exact"] and kinds[-1] == "arriving", str(kinds[::-1]))
        self.ob("horizontal segments have their events if there are any", h is not None and kinds.count("level") == h, "%s %s" % (kinds[::-1], h))

    def sorting(self, t):
        """Events are in the order of where they begin, from the west."""
        def smaller(t, e):
            return t[0] == "fmin" and {t[1], t[2]} == {self.evf(e, "x0"), self.evf(e, "x1")}
        if t[2] in ("sort", "sort_unstable"):
            c = [i for i in self.P.by_id.values() if i["body"] and i["key"].startswith("<" + OE + " as ") and i["key"].endswith("Ord>::cmp")]
            if not self.ob("events have an order", len(c) == 1, str([i["key"] for i in c])):
                return
            t = T("sorted", t[1], "sort_by", T("fn", c[0]["path"]))
        ok, why = sorted_by(self.ctx, t, None, same=smaller)
        self.ob("events are in order of their western ends", ok, why)

    def news(self, b, h):
        """What becomes of the events in a step: (index, event) for those changed, (None, event) for those added."""
        t, out = self.ip.read_loc(b, self.ev_loc), []
        while t is not h:
            if t[0] == "push":
                out.append((None, t[2]))
            elif t[0] == "store":
                out.append((t[2], t[3]))
            else:
                return None
            t = t[1]
        return out[::-1]

    def kind(self, r, h):
        ks = set()
        for b in r.back:
            n = self.news(b, h)
            if n is None:
                return None
            for k, v in n:
                if k is None:
                    seg = self.evf(v, "seg_idx")
                    ks.add("level" if seg[0] in ("sel", "item") and self.level(seg[1]) else "pushed")
                else:
                    ks.add("noted" if contains(k, lambda x: x[0] == "fld" and x[2:] == (0, self.e["old_idx"])) else "stored")
        return {frozenset(["level"]): "level", frozenset(["pushed"]): "arriving", frozenset(["noted", "pushed"]): "leaving", frozenset(["stored"]): "exact"}.get(frozenset(ks))

    # -- horizontal segments

    def level_at(self, seg):
        """The index into the horizontal segments."""
        i, t = seg[2], seg[1]
        while t[0] == "slice":
            i, t = iadd(i, t[2]), t[1]
        return i

    def level(self, *a):
        if len(a) == 1:
            t = a[0]
            while t[0] == "slice":
                t = t[1]
            return t is self.horizontals
        r, h = a
        lo, hi = (fld(fld(self.hor, 0, 1), i) for i in (0, 1))
        for b in r.back:
            n = self.news(b, h)
            if not self.ob("one event for each horizontal segment", len(n) == 1):
                continue
            v = n[0][1]
            seg = self.evf(v, "seg_idx")
            self.ob("the horizontal segments are those of the interval", self.counts(r, self.level_at(seg), lo, hi), show(seg)[:200])
            self.ob("a horizontal segment goes from its start to its end", self.geo(self.evf(v, "x0"), "start") is seg and self.geo(self.evf(v, "x1"), "end") is seg, show(v)[:300])
            self.ob("a horizontal segment goes neither up nor down, nor has it a position", [self.evf(v, k) for k in ("connected_above", "connected_below", "sweep_idx", "old_sweep_idx")] == [T("b", False), T("b", False), NONE, NONE], show(v)[:300])

    # -- exact ends

    def exact(self, r, h):
        ip = self.ip
        ks = set()
        for b in r.back:
            n = self.news(b, h)
            ks |= {k for k, v in n}
            if len(n) > 1:
                self.ob("one event is looked at in each round", False, str(len(n)))
        if not self.ob("one event after the other is looked at", len(ks) == 1 and self.through(r, list(ks)[0], h), str([show(k)[:100] for k in ks])):
            return
        k = ks.pop()
        old = T("sel", h, k)
        for b in r.back:
            n = self.news(b, h)
            v = n[0][1] if n else old
            what = "%s where %s" % (show(v)[:400], facts_show(b)[-300:])
            for above, below in product((False, True), repeat=2):
                if not holds(b, {self.evf(old, "connected_above"): above, self.evf(old, "connected_below"): below}, partial=True):
                    continue
                for f, free, end in (("x0", not above, "start"), ("x1", not below, "end")):
                    x = self.evf(v, f)
                    ok = self.geo(x, end) is self.evf(old, "seg_idx") if free else x is self.evf(old, f)
                    self.ob("a segment %ss exactly where it %ss, and others stay" % (end, end), ok, what)
            self.ob("nothing else of an event is changed", all(self.evf(v, f) is self.evf(old, f) for f in self.v if f not in ("x0", "x1")), what)

    # -- positions

    def lattice(self, t, k):
        """What this is the least (greatest) of."""
        if t[0] == "fclamp":
            t = T("fmin", t[3], T("fmax", t[2], t[1]))
        if t[0] == k:
            return self.lattice(t[1], k) + self.lattice(t[2], k)
        return [t]

    def allowed(self, t):
        """A part of an element of a list of allowed positions: (list, index, part)."""
        if t[0] == "fld" and t[2] == 0 and t[1][0] in ("sel", "item") and loop_at(self.ip, t[1][1]) is not None:
            return t[1][1], t[1][2], t[3]
        return None

    def placed(self, r, b, x):
        """A position that is kept between the last one, and what is allowed: (preferred one, list, index, field of the
        least, field of the greatest)."""
        ip = self.ip
        hi = [y for y in self.lattice(x, "fmin")]
        top = [y for y in hi if self.allowed(y)]
        rest = [y for y in hi if not self.allowed(y)]
        if len(top) != 1 or len(rest) != 1:
            return None
        lst, k, i = self.allowed(top[0])
        lo = self.lattice(rest[0], "fmax")
        bot = [y for y in lo if self.allowed(y) and self.allowed(y)[:2] == (lst, k) and self.allowed(y)[2] != i]
        last = [y for y in lo if self.running(r, y, float("-inf")) is not None and self.running(r, y, float("-inf"), b) is x]
        pref = [y for y in lo if y not in bot + last]
        if len(bot) != 1 or len(last) != 1 or len(pref) != 1:
            return None
        return pref[0], lst, k, self.allowed(bot[0])[2], i

    def running(self, r, t, init, b=None):
        """A value carried along by the loop, beginning with init; its next value."""
        l = loop_at(self.ip, t)
        if l is None or l[0] != r.lid or l[3] is not F(init):
            return None
        return t if b is None else self.ip.read_loc(b, (l[1][1], l[2]))

    # -- where segments arrive

    def arriving(self, r, h):
        src = set()
        for b in r.back:
            what = facts_show(b)[-500:]
            n = self.news(b, h)
            if not self.ob("one event for each segment before the sweep-line", len(n) == 1, str(len(n))):
                return
            v = n[0][1]
            p = self.placed(r, b, self.evf(v, "x0"))
            if not self.ob("the position is an allowed one, and not west of the last one", p is not None, show(self.evf(v, "x0"))[:500]):
                return
            pref, lst, k, lo, hi = p
            src.add((lst, k, lo, hi))
            here = self.entries(lst, r)
            if not here:
                return
            where, line = here
            forms = [fld(T("sel", lst, k), where), T("sel", line, k)]
            e = forms[0]
            for f in forms[1:]:
                v, pref = subst_(v, f, e), subst_(pref, f, e)
            any_case = False
            for en, ex, sh, env in self.cases(b, forms):
                any_case = True
                old = fld(self.ent(e, "old_seg"), 0, 1) if sh else self.ent(e, "seg")
                self.ob("a segment arrives from above unless it begins", self.flag(self.evf(v, "connected_above"), env) == (sh or not en), what)
                self.ob("a segment goes on below unless it ends", self.flag(self.evf(v, "connected_below"), env) == (not ex), what)
                self.ob("it is the segment before the sweep-line", self.evf(v, "seg_idx") is old, "%s where %s" % (show(self.evf(v, "seg_idx"))[:200], what))
                is_ = self.geo(pref, "end") is old if ex else self.geo(pref, "start") is self.ent(e, "seg") if en else self.geo(pref, "at_y") is self.ent(e, "seg")
                self.ob("preferably where it ends or begins, or is at this height", is_, "%s where %s" % (show(pref)[:200], what))
                self.ob("it has its position before the sweep-line", self.evf(v, "old_sweep_idx") is self.ent(e, "old_idx"), show(v)[:300])
            self.ob("there are cases", any_case, what)
        if self.ob("segments are gone through in one list", len(src) == 1, str(len(src))):
            lst, k, lo, hi = src.pop()
            self.ob("all segments, from west to east", self.through(r, k, lst), show(k)[:100])
            self.feasible(r, lst, lo, hi, True)

    # -- where segments leave

    def leaving(self, r, h):
        ip = self.ip
        src = set()
        for b in r.back:
            what = facts_show(b)[-700:]
            n = self.news(b, h)
            ch, add = [x for x in n if x[0] is not None], [x for x in n if x[0] is None]
            if not self.ob("one event is completed for each segment", len(ch) == 1, str(len(n))):
                return
            q, v = ch[0]
            old = T("sel", h, q)
            p = self.placed(r, b, self.evf(v, "x1"))
            if not self.ob("the position below is an allowed one, and not west of the last one", p is not None, show(self.evf(v, "x1"))[:500]):
                return
            pref, lst, k, lo, hi = p
            src.add((lst, k, lo, hi))
            here = self.entries(lst, r)
            if not here:
                return
            where, line = here
            e = fld(T("sel", lst, k), where)
            forms = [e, T("sel", line, k), T("sel", self.line, iadd(self.a, k))]
            for f in forms[1:]:
                v, pref, q, old = subst_(v, f, e), subst_(pref, f, e), subst_(q, f, e), subst_(old, f, e)
            self.ob("the event is that of the same entry", isub(iadd(q, self.a), fld(self.ent(e, "old_idx"), 0, 1)) is I(0), show(q)[:200])
            x0 = self.evf(old, "x0")
            l, t = (fld(T("sel", lst, k), i) for i in (lo, hi))
            in_ = (surely_(b, l, x0), surely_(b, x0, t))
            if pref is x0:
                self.ob("where it arrived only if that is allowed", in_ == (True, True), "%s where %s" % (show(pref)[:200], what))
            else:
                self.ob("elsewhere only if that is not allowed: where it is at this height", False in in_ and self.geo(pref, "at_y") is self.ent(e, "seg"), "%s %s where %s" % (in_, show(pref)[:200], what))
            pos = self.evf(v, "sweep_idx")
            self.ob("it has its position after the sweep-line", pos[0] == "agg" and pos[2] == 1 and isub(pos[3], iadd(self.a, k)) is I(0), show(pos)[:200])
            self.ob("nothing else of the event is changed", all(self.evf(v, f) is self.evf(old, f) for f in self.v if f not in ("x1", "sweep_idx")), show(v)[:400])
            for en, ex, sh, env in self.cases(b, forms):
                if not self.ob("another event if a segment takes over, and only then", len(add) == int(sh), what):
                    continue
                for _, w in add:
                    w = subst_(subst_(w, forms[1], e), forms[2], e)
                    pos = self.evf(w, "sweep_idx")
                    ok = self.evf(w, "x0") is self.evf(v, "x1") and self.evf(w, "x1") is self.evf(v, "x1")
                    self.ob("the segment that takes over is where the other one leaves", ok, show(w)[:300])
                    ok = self.flag(self.evf(w, "connected_above"), env) is False and self.flag(self.evf(w, "connected_below"), env) is True and self.evf(w, "seg_idx") is self.ent(e, "seg")
                    ok = ok and self.evf(w, "old_sweep_idx") is NONE and pos[0] == "agg" and pos[2] == 1 and isub(pos[3], iadd(self.a, k)) is I(0)
                    self.ob("the segment that takes over goes down from here", ok, show(w)[:300])
        if self.ob("segments are gone through in one list", len(src) == 1, str(len(src))):
            lst, k, lo, hi = src.pop()
            self.ob("all segments, from west to east", self.through(r, k, lst), show(k)[:100])
            self.feasible(r, lst, lo, hi, False)

    # ---- the lists of allowed positions

    def made(self, lst, st):
        """The steps that make a list, first one first: (kind, analysis of the loop, value at its head)."""
        ip, out = self.ip, []
        while lst is not T("empty"):
            l = loop_at(ip, lst)
            if l is None:
                return None
            loc = (l[1][1], l[2])
            rs = [r for r in ip.records if r.lid == l[0] and ip.read_loc(r.head, loc) is lst and r.back]
            if not rs:
                return None
            out += [(r, lst, loc) for r in rs]
            lst = l[3]
        return out[::-1]

    def entries(self, lst, r):
        """(which part of an element is the entry, the list of entries it is copied from)."""
        if lst in self.done:
            return self.copied[lst]
        self.done.add(lst)
        if not hasattr(self, "copied"):
            self.copied = {}
        ip, found, res = self.ip, set(), None
        steps = self.made(lst, r)
        if self.ob("allowed positions are made in loops", steps is not None, show(lst)[:200]):
            for q, h, loc in steps:
                for b in q.back:
                    t = ip.read_loc(b, loc)
                    if t[0] == "push" and t[1] is h and t[2][0] == "agg":
                        for i, x in enumerate(t[2][3:]):
                            if x[0] != "sel" or loop_at(ip, h)[3] is not T("empty"):
                                continue
                            if self.through(q, x[2], x[1]):
                                found.add((i, x[1], x[2]))
                            elif x[1] is self.line and self.counts(q, x[2], self.a, self.z):
                                found.add((i, x[1], x[2]))
            if self.ob("they are those of entries of one list", len({x[:2] for x in found}) == 1, str([(i, show(x)[:200]) for i, x, _ in found])):
                i, line, _ = found.pop()
                res = (i, line)
        self.copied[lst] = res
        return res

    def feasible(self, r, lst, lo, hi, old):
        """What the least and greatest allowed positions are."""
        ip = self.ip
        where, line = self.entries(lst, r)
        self.order(line, old, r)
        low, high = {"lower": 0, "west": 0}, {"upper": 0, "east": 0}
        for q, h, loc in self.made(lst, r):
            for b in q.back:
                t = ip.read_loc(b, loc)
                what = "%s where %s" % (show(t)[:500], facts_show(b)[-300:])
                if t[0] == "push" and t[1] is h:
                    k, at = None, t[2]
                    e = T("sel", line, [x for x in t[2][3:] if x[0] == "sel" and x[1] is line][0][2])
                    lows, highs = self.lattice(fld(at, lo), "fmax"), None
                    prev = None
                elif t[0] == "store" and t[1] is h:
                    k, at = t[2], t[3]
                    prev = T("sel", h, k)
                    e = fld(prev, where)
                    g = lambda i: ip.project(at, ("f", 0, i), None)
                    if not self.ob("an entry keeps its place in the list", g(where) is e or g(where) is ip.project(prev, ("f", 0, where), None), what):
                        continue
                    lows, highs = self.lattice(g(lo), "fmax"), self.lattice(g(hi), "fmin")
                else:
                    self.ob("allowed positions are added or changed one by one", False, what)
                    continue
                for side, got, f, bound in (("low", lows, lo, low), ("high", highs, hi, high)):
                    if got is None:
                        continue
                    keep = [x for x in got if prev is not None and x is fld(prev, f)]
                    rest = [x for x in got if x not in keep]
                    if prev is not None and rest and not keep and side == "low":
                        self.ob("the least allowed position is only raised", False, what)
                    if prev is not None and rest and not keep:
                        bound.update(dict.fromkeys(bound, 0))      # what was there before is overwritten
                    self.extremes(q, b, e, rest, side, bound, old, k, h, what)
        n = "before" if old else "after"
        self.ob("%s the sweep-line no segment is put west of where a segment west of it can be" % n, low["lower"] == 1 and low["west"] == 1, str(low))
        self.ob("%s the sweep-line no segment is put east of where a segment east of it can be" % n, high["upper"] == 1 and high["east"] == 1, str(high))

    def extremes(self, q, b, e, got, side, bound, old, k, h, what):
        """What a least (greatest) allowed position is raised (lowered) to."""
        ip = self.ip
        fn, kind, sign, all_ = ("lower", "fmax", -1, "west") if side == "low" else ("upper", "fmin", 1, "east")
        seg = self.before(b, e) if old else self.ent(e, "seg")
        mine = [x for x in got if self.geo(x, fn) is not None]
        run = [x for x in got if self.running(q, x, sign * float("inf")) is not None]
        rest = [x for x in got if x not in mine + run]
        if mine or run:
            ok = len(mine) == 1 and seg is not None and self.geo(mine[0], fn) is seg and len(run) == 1
            ok = ok and set(self.lattice(self.running(q, run[0], sign * float("inf"), b), kind)) == {mine[0], run[0]}
            self.ob("the %s end of what is allowed is that of the segment and those on that side of it" % {"low": "western", "high": "eastern"}[side], ok, what)
            if k is not None and side == "high":
                ok2 = self.through(q, k, h, up=False)
            elif k is not None:
                ok2 = self.through(q, k, h)
            else:
                ok2 = side == "low"
            self.ob("those on the %s side come first" % {"low": "western", "high": "eastern"}[side], ok2, what)
            bound[fn] = int(ok and ok2)
        if rest:
            ok = len(rest) == 1 and self.extreme(rest[0], side, old)
            self.ob("no segment is put %s of all of them" % all_, ok, "%s in %s" % (show(rest[0])[:200], what))
            bound[all_] = int(ok)

    def extreme(self, t, side, old):
        """The westernmost (easternmost) of where the segments are at this height."""
        ip = self.ip
        kind, init = ("fmin", float("inf")) if side == "low" else ("fmax", float("-inf"))
        l = loop_at(ip, t)
        if l is None or l[3] is not F(init):
            return False
        n = 0
        for r in ip.records:
            if r.lid != l[0] or not r.back or ip.read_loc(r.head, (l[1][1], l[2])) is not t:
                continue
            ks = set()
            for b in r.back:
                new = self.lattice(ip.read_loc(b, (l[1][1], l[2])), kind)
                add = [x for x in new if x is not t]
                if len(add) != 1 or len(new) != 2:
                    return False
                seg = self.geo(add[0], "at_y")
                es = {x for x in subterms(add[0]) if x[0] == "sel" and loop_at(ip, x[1]) is not None} if seg is not None else set()
                if not any((self.before(b, x) if old else self.ent(x, "seg")) is seg for e in es for x in (e, fld(e, 0), fld(e, 1), fld(e, 2))):
                    return False
                ks |= {(x[1], x[2]) for x in es}
                n += 1
            if len(ks) != 1:
                return False
            coll, k = ks.pop()
            if not self.through(r, k, coll) and not self.through(r, k, coll, up=False):
                return False
        return n > 0

    # ---- the entries in the old order and the new one

    def order(self, line, old, r):
        ip = self.ip
        n = 0
        if line is self.line:
            self.ob("the entries after the sweep-line are in the new order", not old)
            return
        steps = self.made_upto(line)
        if not self.ob("the entries are listed in loops", bool(steps), show(line)[:200]):
            return
        for q, h, loc in steps:
            for b in q.back:
                n += 1
                t = ip.read_loc(b, loc)
                what = show(t)[:300]
                if old:
                    ok = t[0] == "store" and t[1] is h and t[3][0] == "sel" and t[3][1] is self.line
                    if not self.ob("the entries before the sweep-line are put in their old places", ok, what):
                        return
                    self.ob("all entries of the interval are put there", self.counts(q, t[3][2], self.a, self.z), what)
                    self.ob("an entry's old place is the one noted", isub(iadd(t[2], self.a), fld(self.ent(t[3], "old_idx"), 0, 1)) is I(0), what)
                else:
                    ok = t[0] == "push" and t[1] is h and t[2][0] == "sel" and t[2][1] is self.line
                    if not self.ob("the entries after the sweep-line are listed", ok, what):
                        return
                    self.ob("all entries of the interval are listed in the new order", self.counts(q, t[2][2], self.a, self.z), what)
            l = loop_at(ip, h)
            if old:
                self.ob("there is a place for each entry", isub(ip.length(l[3]), isub(self.z, self.a)) is I(0), show(l[3])[:200])
            else:
                self.ob("no other entries are listed", l[3] is T("empty"), show(l[3])[:200])
        self.ob("entries are listed", n > 0)

    def made_upto(self, lst):
        ip = self.ip
        l = loop_at(ip, lst)
        if l is None:
            return None
        loc = (l[1][1], l[2])
        return [(r, lst, loc) for r in ip.records if r.lid == l[0] and r.back and ip.read_loc(r.head, loc) is lst]


def surely_(s, a, b):
    """a <= b: True, False or not known."""
    return True if surely(s, a, b, "<=") else False if never(s, a, b, "<=") else None


def subst_(t, a, b):
    return subst(t, {a: b}) if a is not b else t
