"""The walk over the positions in a changed interval: what is connected at a position, what is passed on the way to the next,
and which segments the interval has.  Lists are taken apart into the loops that make them, decided by induction over their steps;
iterators that are returned are decided by their element at an arbitrary index."""
from itertools import product
from engine import Frame
from props.linectx import *

FLOOR = 40
RG = CRATE + "sweep::range::"
SL = SW + "SweepLine"
OE = CRATE + "sweep::output_event::OutputEvent"


def run(ctx):
    ctx.rule("positions in an interval are visited from west to east, each with what is connected there, and level pieces are there between their ends")
    ctx.assumption("the events of an interval are in order of their western ends and say where each segment arrives and leaves (P21); the ordered tree is a sequence (P64); positions are numbers")
    w = Walk(ctx)
    for name, f in (("the position", w.position), ("what is connected at a position", w.connected), ("the lists of connected segments", w.lists), ("level pieces", w.level),
                    ("the next position", w.onwards), ("batches of events", w.batches), ("segments of an interval", w.segments)):
        ctx.guard(name, RG + "SweepLineRange", f)


class Walk:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def ob(self, name, ok, detail=""):
        self.ctx.ob(name, ok, self.inst, detail)
        return ok

    def prepare(self, name, ty="SweepLineRange", where=RG):
        P = self.P
        self.inst = method(P, name, ty, where)
        self.e = {n: field_index(P, OE, n) for n in fields(P, OE)}
        self.h = {n: field_index(P, RG + "HFrag", n) for n in fields(P, RG + "HFrag")}
        self.ent = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in fields(P, SW + "SegmentOrderEntry")}
        ip = self.ip = self.ctx.interp(GEOM, models=line_models(P), keep_rel=True, pull=True, keep_facts=lambda k: k[0] in ("discr", "fld"))
        args = ip.sym_args(self.inst)
        self.me = ip.target(args[0])[0]
        if ty == "SweepLineRange":
            slf = T("*", args[0])
            g = lambda v, adt, n: ip.project(v, ("f", 0, field_index(P, adt, n)), None)
            self.hloc = (ip.target(g(slf, RG + ty, "bufs"))[0], (("f", 0, field_index(P, RG + "SweepLineRangeBuffers", "active_horizontals")),))
            self.eloc = (self.me, (("f", 0, field_index(P, RG + ty, "output_events")),))
            self.xloc = (self.me, (("f", 0, field_index(P, RG + ty, "last_x")),))
            self.last = g(slf, RG + ty, "last_x")
            self.H = ip.read_loc(State(), self.hloc)
            self.E = self.at(g(slf, RG + ty, "output_events"), State())
            self.interval = g(g(slf, RG + ty, "changed_interval"), SW + "ChangedInterval", "segs")
        return args

    def outs(self, args):
        r = self.ip.run(self.inst, args, State())
        self.ctx.funcs |= self.ip.analysed
        return r

    # ---- reading

    def at(self, r, s):
        """What a reference refers to."""
        v = self.ip.content(r, s) if r[0] == "ref" else r
        return v[1] if v[0] == "&" else T("*", v) if v is r else v

    def hf(self, t, n):
        return self.ip.project(t, ("f", 0, self.h[n]), None)

    def ef(self, t, n):
        return self.ip.project(t, ("f", 0, self.e[n]), None)

    def wanted(self, s):
        """The least of these is the position; None if there are none, False if that is not known."""
        ip, out = self.ip, []
        for coll, parts in ((self.H, [self.hf(T("sel", self.H, I(0)), "end")]), (self.E, [self.ef(T("sel", self.E, I(0)), k) for k in ("x0", "x1")])):
            o = int_orders(s, ip.length(coll), I(0))
            if o == frozenset(">"):
                out += parts
            elif o != frozenset("="):
                return False
        return out or None

    def is_x(self, s, t):
        """The term is the position in this state (what is left has its least at 0)."""
        envs = list(self.at_zero(s, {}))
        return bool(envs) and all(self.val(t, env) == 0.0 for env in envs)

    def at_zero(self, s, more):
        """All that what is left can be in this state, with the position at 0, together with more."""
        w = self.wanted(s)
        for vals in product((0.0, 1.0), repeat=len(w or [])):
            env = dict(zip(w, vals))
            if min(vals) == 0.0 and all(more.get(k, x) == x for k, x in env.items()):
                env.update(more)
                if holds(s, env, partial=True):
                    yield env

    def possible(self, s, more):
        return any(True for _ in self.at_zero(s, more))

    def count(self, r, coll, until=None):
        """The index that goes through a list from the first on; until: accepted reasons to stop before its end."""
        ip, out = self.ip, []
        n = ip.length(coll)
        for root, p, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l is None or l[0] != r.lid or l[3] is not I(0) or not r.back or not r.exit:
                continue
            if all(isub(ip.read_loc(b, (root, p)), x) is I(1) for b in r.back) and all(int_orders(z, x, n) <= frozenset("=>") or self.ended(z, x, coll) or (until is not None and until(z, x)) for z in r.exit):
                out.append(x)
        return out[0] if out else None

    def ended(self, s, k, coll):
        """The list, taken as long as a condition holds (each element it is taken to has been tried), has ended."""
        for f, v in s.facts.items():
            if f[0] == "done" and f[2] is k and v is True:
                t = f[1]
                while t[0] in ("take_while", "filter") or t[0] == "agg" and t[1] == "it" and t[4] is I(0):
                    t = t[1] if t[0] in ("take_while", "filter") else t[3]
                if t[0] == "refs" and self.at(t[1], s) is coll:
                    return True
        return False

    def frag_cases(self, b, h, starts=(-1.0, 0.0)):
        """What a level piece can be in this state, with the position at 0."""
        for a, z, ef, cs, ce in product(starts, (0.0, 1.0), (False, True), (False, True), (False, True)):
            if a < z:
                for env in self.at_zero(b, {self.hf(h, "end"): z, self.hf(h, "start"): a, self.hf(h, "enter_first"): ef, self.hf(h, "connected_at_start"): cs, self.hf(h, "connected_at_end"): ce}):
                    yield a, z, ef, cs, ce, env

    def val(self, t, env):
        try:
            return ev(t, env)
        except Undet:
            return None

    # ---- the position

    def position(self):
        args = self.prepare("x")
        seen = set()
        for v, s in self.outs(args):
            w = self.wanted(s)
            seen.add(None if not w else len(w))
            if w is None:
                self.ob("there is no position when nothing is left", v is NONE, show(v)[:200])
            elif self.ob("it is known what is left", w is not False, facts_show(s)[:300]):
                self.ob("the position is the least of what is left", v[0] == "agg" and v[2] == 1 and self.is_x(s, v[3]), show(v)[:200])
        self.ob("all cases are there", seen == {None, 1, 2, 3}, str(seen))

    # ---- what is connected

    def connected(self):
        P = self.P
        args = self.prepare("update_segments_at_x")
        ip = self.ip
        root = ip.target(args[1])[0]
        sides = {n: (root, (("f", 0, field_index(P, RG + "SegmentsConnectedAtX", n)),)) for n in ("connected_up", "connected_down")}
        n = 0
        for v, s in self.outs(args):
            w = self.wanted(s)
            if not self.ob("it is known what is left here", w is not False, facts_show(s)[:300]):
                continue
            for side, loc in sides.items():
                t = ip.read_loc(s, loc)
                if w is None:
                    self.ob("nothing is connected when nothing is left", t is T("empty"), show(t)[:200])
                    continue
                n += 1
                self.connected_side(s, side, loc, t)
        self.ob("both sides are listed", n >= 2)

    def connected_side(self, s, side, loc, t):
        ip = self.ip
        if not self.ob("connected segments are sorted in the end", t[0] == "sorted", show(t)[:200]):
            return
        ok, why = sorted_by(self.ctx, t, None, same=lambda t, e: t[0] == "fld" and t[1] is e and t[2:] == (0, 1))
        self.ob("they are sorted by their position in the sweep-line", ok, why)
        t, got = t[1], []
        while t is not T("empty"):
            l = loop_at(ip, t)
            if not self.ob("connected segments are collected in loops", l is not None, show(t)[:200]):
                return
            rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, loc) is t and r.back]
            if not self.ob("the loop that collects them is known", len(rs) > 0):
                return
            kinds = set()
            for r in rs:
                k = self.count(r, self.H)
                if k is not None:
                    kinds.add("level")
                    self.collect(r, loc, side, T("sel", self.H, k), True)
                    continue
                k = self.count(r, self.E, lambda z, i: self.beyond(z, T("sel", self.E, i)))
                if k is not None:
                    kinds.add("events")
                    self.collect(r, loc, side, T("sel", self.E, k), False)
            if not self.ob("the loop goes through all level pieces, or through all events that begin here", len(kinds) == 1, str(kinds)):
                return
            got.append(kinds.pop())
            t = l[3]
        first = T("sel", self.E, I(0))
        want = [k for k, c in (("level", self.H), ("events", self.E)) if int_orders(s, ip.length(c), I(0)) == frozenset(">")
                and not (k == "events" and (self.beyond(s, first) or self.ended(s, I(0), c)))]
        self.ob("level pieces and events are both considered", len(set(got)) == len(got) and set(want) <= set(got), "%s %s" % (got, facts_show(s)[:300]))

    def beyond(self, s, e):
        """In this state, the event begins east of the position (not: at the position)."""
        return not any(self.possible(s, {self.ef(e, "x0"): a, self.ef(e, "x1"): b}) for a, b in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)))

    def collect(self, r, loc, side, el, level):
        ip, up = self.ip, side == "connected_up"
        f = self.hf if level else self.ef
        seg, at = f(el, "seg" if level else "seg_idx"), f(el, "old_sweep_idx" if up else "sweep_idx")
        for b in r.back:
            new = pushed(ip, r.head, b, *loc)
            if not self.ob("segments are added to the list", new is not None and len(new) <= 1, show(ip.read_loc(b, loc))[:200]):
                return
            cases = []
            if level:
                for a, z, ef, cs, ce, env in self.frag_cases(b, el):
                    # above (below) the piece at its entry (exit), which is the start if that comes first
                    cases.append(a == 0 and cs and ef == up or z == 0 and ce and ef != up)
            else:
                for p, q, ca, cb in product((0.0, 1.0), (0.0, 1.0), (False, True), (False, True)):
                    if self.possible(b, {self.ef(el, "x0"): p, self.ef(el, "x1"): q, self.ef(el, "connected_above"): ca, self.ef(el, "connected_below"): cb}):
                        cases.append((p == 0 and ca) if up else (q == 0 and cb))
            if not cases:
                continue
            what = facts_show(b)[:600]
            self.ob("%s: whether it is connected is decided" % ("level piece" if level else "event"), len(set(cases)) == 1, what)
            self.ob("%s: listed %s exactly if it is connected there" % ("level piece" if level else "event", "above" if up else "below"), set(cases) == {len(new) == 1}, what)
            if new:
                v = new[0]
                self.ob("listed with its position in the sweep-line %s" % ("before" if up else "after"), v[0] == "agg" and v[3] is seg and v[4] is fld(at, 0, 1), show(v)[:200])

    # ---- iterators

    def yields(self, v, s):
        """At an arbitrary index k: [(element, state)], [states in which there is none at k], [states in which it ends]; k."""
        ip, k = self.ip, T("sym", "k", None, "usize")
        if v[0] != "agg" or v[1] != "it" or v[4] is not I(0):
            return None
        fr = Frame(self.inst, ip.fid(("probe",)), 0, self.P.cfg(self.inst), ())
        from models import elems, inside
        r0 = int_restrict(s, k, I(0), frozenset("=>"))
        els, skips, ends = [], [], []
        for ok, st in inside(ip, v[3], k, r0, through=True):
            if ok:
                a, b, c = elems(ip, v[3], k, st, ("probe", 0), fr)
                els, skips, ends = els + a, skips + b, ends + c
            else:
                ends.append(st)
        self.ctx.funcs |= ip.analysed
        return els, skips, ends, k

    def whole(self, name, v, s, coll, elem, skip=None):
        """The iterator goes through a list, with elem(element) for each, without those for which skip(state, element)."""
        y = self.yields(v, s)
        if not self.ob(name + ": all elements of a list", y is not None, show(v)[:300]):
            return
        els, skips, ends, k = y
        e = T("sel", coll, k)
        self.ob(name + ": to the end of the list", bool(ends) and all(int_orders(z, k, self.ip.length(coll)) <= frozenset("=>") for z in ends), str([facts_show(z)[:200] for z in ends]))
        self.ob(name + ": something is given", bool(els), show(v)[:200])
        for x, st in els:
            self.ob(name + ": what is given for an element", elem(x, e, st), "%s where %s" % (show(x)[:200], facts_show(st)[:200]))
        for st in skips:
            self.ob(name + ": what is left out", skip is not None and skip(st, e), facts_show(st)[:300])

    def lists(self):
        for n in ("connected_up", "connected_down"):
            args = self.prepare(n, "SegmentsConnectedAtX")
            lst = self.ip.project(T("*", args[0]), ("f", 0, field_index(self.P, RG + "SegmentsConnectedAtX", n)), None)
            for v, s in self.outs(args):
                self.whole(n, v, s, lst, lambda x, e, st: x is fld(e, 0))

    def level(self):
        args = self.prepare("active_horizontals")
        for v, s in self.outs(args):
            self.whole("level pieces", v, s, self.H, lambda x, e, st: x is self.hf(e, "seg"))
        args = self.prepare("active_horizontals_and_orientations")

        def both(x, e, st):
            if x[0] != "agg" or x[3] is not self.hf(e, "seg"):
                return False
            d = st.facts.get(self.hf(e, "enter_first"))
            return x[4] is self.hf(e, "enter_first") or d is not None and x[4] is T("b", d)
        for v, s in self.outs(args):
            self.whole("level pieces with directions", v, s, self.H, both)

    # ---- onwards

    def by_end(self, t):
        ok, why = sorted_by(self.ctx, t, None, same=lambda t, e: t is self.hf(e, "end"))
        self.ob("level pieces are in order of their eastern ends", ok, why)

    def gone(self, s, t):
        """What is left of the level pieces: without those that end here."""
        ip = self.ip
        if t is self.H:
            return self.ob("level pieces stay only if there are none", int_orders(s, ip.length(self.H), I(0)) == frozenset("="), facts_show(s)[:300])
        l = loop_at(ip, t)
        if l is not None and self.over_pieces(s, t, l):
            return self.retained(s, t, l)
        m = None
        if t[0] == "drained" and t[1] is self.H and t[2][0] == "agg" and t[2][1].endswith("RangeTo"):
            m = t[2][3]
        elif t[0] == "slice" and t[1] is self.H and ip.length(t) is isub(ip.length(self.H), t[2]):
            m = t[2]
        elif t is T("empty"):
            m = ip.length(self.H)
        if not self.ob("level pieces are taken away from the first on", m is not None, show(t)[:300]):
            return False
        n = ip.length(self.H)
        at, before = T("sel", self.H, m), T("sel", self.H, isub(m, I(1)))
        rest = int_orders(s, m, n) <= frozenset("=>") or self.east(s, at, True)
        self.ob("what is left ends further east", rest, facts_show(s)[:400])
        # all before: by the loop that found the index, or by what is known of the one before
        ks = [m] + [k for k in self.indices(s) if int_orders(s, k, n) <= frozenset("=>") and m is n]
        ok = int_orders(s, m, I(0)) <= frozenset("=<") or self.east(s, before, False)
        for k in ks:
            l = loop_at(ip, k)
            if l is None or l[3] is not I(0):
                continue
            rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, (l[1][1], l[2])) is k]
            good = bool(rs)
            for r in rs:
                for b in r.back:
                    good = good and isub(ip.read_loc(b, (l[1][1], l[2])), k) is I(1) and self.east(b, T("sel", self.H, k), False)
            ok = ok or good
        self.ob("what is taken away ends here", ok, "%s where %s" % (show(m)[:200], facts_show(s)[:400]))
        return True

    def indices(self, s):
        return {x for k in s.iv for x in subterms(k) if loop_at(self.ip, x)}

    def over_pieces(self, s, t, l):
        """The loop makes a list of level pieces that are kept."""
        return l[3] is T("empty") and any(r.back and self.count(r, self.H) is not None for r in recs_of(self.ip, l[0], s))

    def retained(self, s, t, l):
        ip = self.ip
        loc = (l[1][1], l[2])
        rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, loc) is t]
        for r in rs:
            if not r.back:
                continue
            k = self.count(r, self.H)
            if not self.ob("all level pieces are looked at", k is not None):
                return False
            e = T("sel", self.H, k)
            for b in r.back:
                new = pushed(ip, r.head, b, *loc)
                if not self.ob("level pieces are kept as they are", new in ([], [e]), str(new)[:200]):
                    continue
                self.ob("level pieces are kept exactly if they end further east", self.east(b, e, bool(new)), facts_show(b)[:400])
        return self.ob("what is kept is known", bool(rs))

    def onwards(self):
        args = self.prepare("increase_x")
        n = 0
        for v, s in self.outs(args):
            n += self.moved(s, None)
        self.ob("moving on is decided", n > 1, str(n))

    def moved(self, s, ret):
        """Level pieces and events after a step; ret: (location of, value of) the list of events given, if any."""
        ip = self.ip
        w = self.wanted(s)
        t = ip.read_loc(s, self.hloc)
        if w is None:
            u = t[1] if t[0] == "sorted" else t
            self.ob("nothing happens when nothing is left", u is self.H or u is T("empty"), show(t)[:200])
            return 1
        if not self.ob("it is known what is left before the step", w is not False, facts_show(s)[:300]):
            return 0
        if not self.ob("level pieces are sorted after each step", t[0] == "sorted", show(t)[:200]):
            return 0
        self.by_end(t)
        t = t[1]
        l = loop_at(ip, t)
        if l is None or self.over_pieces(s, t, l):
            self.ob("events are passed if there are some", int_orders(s, ip.length(self.E), I(0)) == frozenset("=") or self.further(s, T("sel", self.E, I(0))), facts_show(s)[:300])
            self.gone(s, t)
            return 1
        rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, self.hloc) is t]
        self.gone(s, l[3])
        self.ob("the loop over events is known", any(r.back for r in rs))
        for r in rs:
            self.passing(r, s, t, ret)
        return 1

    def events_in(self, st):
        return self.at(self.ip.read_loc(st, self.eloc), st)

    def passing(self, r, s, h, ret):
        ip = self.ip
        E = self.events_in(r.head)
        e = T("sel", E, I(0))
        k = None
        if E is self.E:
            # by an index, the list itself is shortened later
            k = self.count(r, self.E, lambda z, i: self.further(z, T("sel", self.E, i)))
            if not self.ob("events are passed one by one", k is not None):
                return
            e = T("sel", self.E, k)
        for x in r.exit:
            rest = ip.length(E) if k is None else isub(ip.length(E), k)
            self.ob("all events that begin here are passed", int_orders(x, rest, I(0)) <= frozenset("=<") or self.further(x, e), facts_show(x)[-500:])
        a, b = self.ef(e, "x0"), self.ef(e, "x1")
        for st in r.back:
            what = facts_show(st)[-600:]
            self.ob("only events that begin here are passed", self.here(st, e), what)
            now = self.events_in(st)
            one = k is not None or now[0] == "slice" and now[1] is E and now[2] is I(1) and isub(ip.length(now), isub(ip.length(E), I(1))) is I(0)
            self.ob("one event is passed in each round", one, show(now)[:200])
            new = pushed(ip, r.head, st, *self.hloc)
            if not self.ob("level pieces are added to the others", new is not None and len(new) <= 1, show(ip.read_loc(st, self.hloc))[:300]):
                continue
            given = []
            if ret is not None:
                given = pushed(ip, r.head, st, *ret)
                if not self.ob("events are added to those given", given is not None and len(given) <= 1):
                    continue
            for p, q in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)):
                if not holds(st, {a: p, b: q}, partial=True):
                    continue
                if p == q:
                    self.ob("an event at a point is no level piece", not new, what)
                    if ret is not None:
                        self.ob("an event at a point is given at once", len(given) == 1 and self.same_event(given[0], e), what)
                    continue
                self.ob("an event that is not at a point is given piece by piece", not given, what)
                if not self.ob("an event that is not at a point becomes a level piece", len(new) == 1, what):
                    continue
                f = {n: self.hf(new[0], n) for n in self.h}
                for ca, cb in product((False, True), repeat=2):
                    env = {a: p, b: q, self.ef(e, "connected_above"): ca, self.ef(e, "connected_below"): cb}
                    if not holds(st, env, partial=True):
                        continue
                    self.ob("it goes from the western end to the eastern", (self.val(f["start"], env), self.val(f["end"], env)) == (min(p, q), max(p, q)), show(new[0])[:300])
                    self.ob("it is directed as the event", self.val(f["enter_first"], env) is (p < q), show(f["enter_first"])[:200])
                    self.ob("it is connected as the event", (self.val(f["connected_at_start"], env), self.val(f["connected_at_end"], env)) == ((ca, cb) if p < q else (cb, ca)), show(new[0])[:300])
                self.ob("it is of the same segment at the same positions", f["seg"] is self.ef(e, "seg_idx") and all(f[n] is self.ef(e, n) for n in ("sweep_idx", "old_sweep_idx")), show(new[0])[:300])

    def same_event(self, v, e):
        return unref(v) is e or all(self.ef(v, n) is self.ef(e, n) for n in self.e)

    def further(self, s, e):
        """In this state the event begins further east."""
        return not any(self.possible(s, {self.ef(e, "x0"): a, self.ef(e, "x1"): b}) for a, b in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (-1.0, 0.0)))

    def here(self, s, e):
        return not any(self.possible(s, {self.ef(e, "x0"): a, self.ef(e, "x1"): b}) for a, b in ((1.0, 1.0), (2.0, 1.0), (1.0, 2.0)))

    def east(self, s, h, further):
        """In this state the level piece ends further east (or not)."""
        return not any(self.possible(s, {self.hf(h, "end"): x}) for x in ((0.0, -1.0) if further else (1.0,)))

    # ---- batches

    def batches(self):
        args = self.prepare("events")
        ip, n = self.ip, 0
        for v, s in self.outs(args):
            w = self.wanted(s)
            if w is None:
                self.ob("no events are given when nothing is left", v is NONE, show(v)[:200])
                continue
            if not self.ob("events are given as long as something is left", v[0] == "agg" and v[2] == 1, show(v)[:200]):
                continue
            n += 1
            x = ip.read_loc(s, self.xloc)
            self.ob("the position is remembered", x[0] == "agg" and x[2] == 1 and self.is_x(s, x[3]), show(x)[:200])
            t = v[3]
            loc = None
            l = loop_at(ip, t)
            hs = ip.read_loc(s, self.hloc)
            lh = loop_at(ip, hs[1]) if hs[0] == "sorted" else None
            if l is not None and lh is not None and l[0] == lh[0]:
                loc = (l[1][1], l[2])
                t = l[3]
                l = loop_at(ip, t)
            self.moved(s, loc or (None if lh is None or self.over_pieces(s, hs[1], lh) else ()))
            if t is T("empty"):
                self.ob("each level piece has an event if there are some", int_orders(s, ip.length(self.H), I(0)) == frozenset("="), facts_show(s)[:300])
                continue
            if not self.ob("events of level pieces are made in a loop", l is not None and l[3] is T("empty"), show(t)[:200]):
                continue
            loc = (l[1][1], l[2])
            for r in recs_of(ip, l[0], s):
                if ip.read_loc(r.head, loc) is t and r.back:
                    self.piece(r, loc)
        self.ob("batches are decided", n > 1, str(n))

    def piece(self, r, loc):
        ip = self.ip
        k = self.count(r, self.H)
        if not self.ob("each level piece is looked at", k is not None):
            return
        h = T("sel", self.H, k)
        last = fld(self.last, 0, 1)
        for b in r.back:
            new = pushed(ip, r.head, b, *loc)
            what = facts_show(b)[:600]
            if not self.ob("each level piece has one event", new is not None and len(new) == 1, what):
                continue
            v = {n: self.ef(new[0], n) for n in self.e}
            self.ob("the event of a level piece is of its segment and positions", v["seg_idx"] is self.hf(h, "seg") and all(v[n] is self.hf(h, n) for n in ("sweep_idx", "old_sweep_idx")), show(new[0])[:300])
            n = 0
            for a, z, ef, cs, ce in product((-2.0, -1.0), (0.0, 1.0), (False, True), (False, True), (False, True)):
                for env in self.at_zero(b, {last: -1.0, self.hf(h, "end"): z, self.hf(h, "start"): a, self.hf(h, "enter_first"): ef, self.hf(h, "connected_at_start"): cs, self.hf(h, "connected_at_end"): ce}):
                    n += 1
                    at_start, at_end = (-1.0, a == -1 and cs), (0.0, z == 0 and ce)
                    first, second = (at_start, at_end) if ef else (at_end, at_start)
                    got = [self.val(v[n_], env) for n_ in ("x0", "connected_above", "x1", "connected_below")]
                    self.ob("from the last position to this one, connected at the ends of the piece only", got == list(first + second), "%s, not %s, where %s" % (got, first + second, what))

    # ---- segments

    def segments(self):
        P = self.P
        for ty, where in (("SweepLine", SW), ("SweepLineRange", RG)):
            for name, f in (("segment_range", self.after), ("old_segment_range", self.before)):
                args = self.prepare(name, ty, where)
                ip = self.ip
                slf = T("*", args[0])
                if ty == "SweepLineRange":
                    rng = self.interval
                    slf = T("*", ip.project(slf, ("f", 0, field_index(P, RG + ty, "line")), None))
                else:
                    rng = args[1]
                self.a, self.z = (ip.project(rng, ("f", 0, i), None) for i in (0, 1))
                st = T("*", ip.project(slf, ("f", 0, field_index(P, SL, "state")), None))
                g = lambda v, adt, n: ip.project(v, ("f", 0, field_index(P, adt, n)), None)
                self.segs = g(g(st, SWEEPER, "line"), SW + "SegmentOrder", "segs")
                for v, s in self.outs(args):
                    f(v, s)
        for name, f in (("seg_range", "changed_interval"), ("line", "line")):
            args = self.prepare(name)
            v, s = self.outs(args)[0]
            want = self.ip.project(T("*", args[0]), ("f", 0, field_index(P, RG + "SweepLineRange", f)), None)
            v = unref(self.ip.content(v, s))
            ok = v is want or v is T("*", want) or v[0] == "agg" and all(v[3 + i] is fld(want, i) for i in range(len(v) - 3))
            self.ob("the visit tells which interval it is of, and its line", ok, show(v)[:200])

    def sg(self, e, n):
        return self.ip.project(e, ("f", 0, self.ent[n]), None)

    def after(self, v, s):
        """Segments after the sweep-line."""
        ip = self.ip
        y = self.yields(v, s)
        if not self.ob("segments after: all elements of a list", y is not None, show(v)[:300]):
            return
        els, skips, ends, k = y
        e = T("sel", self.segs, iadd(self.a, k))
        self.ob("segments after: the whole interval", bool(ends) and all(int_orders(z, iadd(self.a, k), self.z) <= frozenset("=>") for z in ends), str([facts_show(z)[:200] for z in ends]))
        sts = [(x, st) for x, st in els] + [(None, st) for st in skips]
        done = set()
        for x, st in sts:
            for ex, old in product((False, True), (0, 1)):
                d = T("discr", self.sg(e, "old_seg"))
                env = {self.sg(e, "exit"): ex, d: old, T("isdiscr", d, 0): old == 0, T("isdiscr", d, 1): old == 1}
                if not holds(st, env, partial=True):
                    continue
                done.add((ex, old))
                leave = ex and old == 0
                self.ob("segments after: those that end here are left out, others not", (x is None) == leave, facts_show(st)[:300])
                if x is not None:
                    self.ob("segments after: the entry's segment is given", x is self.sg(e, "seg"), show(x)[:200])
        self.ob("segments after: all cases", len(done) == 4, str(done))

    def before(self, v, s):
        """Segments before the sweep-line, at their places there."""
        ip = self.ip
        lst, el = None, None
        if v[0] == "agg" and v[1] == "it" and v[4] is I(0):
            src = v[3]
            if src[0] == "flatten" and src[1][0] == "agg" and src[1][1] == "it" and src[1][4] is I(0):
                lst = src[1][3]
            else:
                y = self.yields(v, s)
                if y is not None:
                    els, skips, ends, k = y
                    c = {x[1][1] for x, st in els if x[0] == "fld" and x[1][0] == "sel" and x[1][2] is k and x[2:] == (1, 0) or x is fld(x[1], 0, 1)}
                    if len(c) == 1:
                        lst = c.pop()
                        own = T("sel", lst, k)
                        good = all(x is fld(own, 0, 1) for x, st in els) and all(st.facts.get(T("discr", own)) == 0 for st in skips) and all(int_orders(z, k, ip.length(lst)) <= frozenset("=>") for z in ends)
                        self.ob("segments before: all places that are filled", good)
        if not self.ob("segments before: a list of places is given", lst is not None, show(v)[:300]):
            return
        if lst[0] == "refs":
            lst = unref(ip.content(lst[1], s))
        l = loop_at(ip, lst)
        if not self.ob("segments before: places are filled in a loop", l is not None, show(lst)[:200]):
            return
        loc = (l[1][1], l[2])
        rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, loc) is lst]
        init = l[3]
        size = init[0] == "repeat" and init[1] is NONE and isub(ip.length(init), isub(self.z, self.a)) is I(0)
        if not size and init[0] == "resized":
            size = init[1] is T("empty")
        self.ob("segments before: a place for each, empty at first", size, show(init)[:200])
        self.ob("segments before: the loop is known", any(r.back for r in rs))
        for r in rs:
            if not r.back:
                continue
            i = self.through_interval(r)
            if not self.ob("segments before: the whole interval", i is not None):
                continue
            e = T("sel", self.segs, i)
            cases = set()
            for b in r.back:
                t = ip.read_loc(b, loc)
                new = []
                while t[0] == "store":
                    new.append((t[2], t[3]))
                    t = t[1]
                what = facts_show(b)[:500]
                if not self.ob("segments before: at most one place is filled for an entry", t is lst and len(new) <= 1, what):
                    continue
                for en, old in product((False, True), (0, 1)):
                    d, di = T("discr", self.sg(e, "old_seg")), T("discr", self.sg(e, "old_idx"))
                    env = {self.sg(e, "enter"): en, d: old, T("isdiscr", d, 0): old == 0, T("isdiscr", d, 1): old == 1}
                    # entries in an interval have a position before the sweep-line (P20)
                    env.update({di: 1, T("isdiscr", di, 0): False, T("isdiscr", di, 1): True})
                    if not holds(b, env, partial=True):
                        continue
                    cases.add((en, old))
                    if en and not old:
                        self.ob("segments before: one that begins here has no place", not new, what)
                        continue
                    if not self.ob("segments before: all others have a place", len(new) == 1, what):
                        continue
                    p, x = new[0]
                    seg = fld(self.sg(e, "old_seg"), 0, 1) if en else self.sg(e, "seg")
                    self.ob("segments before: the segment before the sweep-line", x[0] == "agg" and x[2] == 1 and x[3] is seg, "%s where %s" % (show(x)[:200], what))
                    self.ob("segments before: at its place before the sweep-line", isub(iadd(p, self.a), fld(self.sg(e, "old_idx"), 0, 1)) is I(0), show(p)[:200])
            self.ob("segments before: all cases", len(cases) == 4, str(cases))

    def through_interval(self, r):
        ip = self.ip
        for root, p, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l is None or l[0] != r.lid or not r.back or not r.exit or not all(isub(ip.read_loc(b, (root, p)), x) is I(1) for b in r.back):
                continue
            i = iadd(x, isub(self.a, l[3]))
            if all(int_orders(z, i, self.z) <= frozenset("=>") for z in r.exit):
                return i
        return None

