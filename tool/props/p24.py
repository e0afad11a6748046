"""The queries on the comparison of two curves are interpreted abstractly, going through its intervals with the
crate's own iterator.  For every outcome the interval the answer is taken from is identified; by induction over
the loops that led to it, every interval before it must be one that the query is allowed to pass over
(it ends before the given height, or has the order that is not being looked for), the interval itself must
end after the height, and the answer must be the one the property gives for it."""
from lib import *

FLOOR = 8
CO = CRATE + "curve::CurveOrder"
CE = CRATE + "curve::CurveOrderEntry"
CI = CRATE + "curve::CurveInteraction"
OPT = "core::option::Option"


def run(ctx):
    P = ctx.P
    ctx.rule("intervals are taken in order, none is passed over without reason, and the answer is that of the first interval left")
    ctx.assumption("the intervals of a comparison are in order of height, so that every interval after one that ends after y does so too")
    for n in ("order_at", "entry_at", "order_after", "next_touch_after"):
        ctx.guard(n, CO + "::" + n, lambda: Query(ctx, P, n).check())


class Query:
    def __init__(self, ctx, P, name):
        self.ctx, self.P, self.name = ctx, P, name
        self.inst = P.one(key=CO + "::" + name)
        self.ip, self.args, self.outs = ctx.analyse(self.inst, keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        self.y = self.args[1]
        me = T("*", self.args[0])
        self.first = self.ip.project(me, ("f", 0, field_index(P, CO, "start")), None)
        self.coll = self.ip.project(me, ("f", 0, field_index(P, CO, "cmps")), None)
        self.fe, self.fo = field_index(P, CE, "end"), field_index(P, CE, "order")
        self.var = {n: variant_index(P, CRATE + "curve::Order", n) for n in ("Left", "Right", "Ish")}

    # ---- the intervals

    def entry(self, k):
        return T("sel", self.coll, k)

    def end(self, k):
        return self.ip.project(self.entry(k), ("f", 0, self.fe), None)

    def order(self, k):
        return self.ip.project(self.entry(k), ("f", 0, self.fo), None)

    def mid(self, start, k):
        return T("fdiv", T("fadd", start, self.end(k)), F(2.0))

    def is_order(self, s, k, *names):
        d = s.facts.get(T("discr", self.order(k)))
        w = {self.var[n] for n in names}
        if d is None:
            return False
        return d in w if not isinstance(d, frozenset) else not (set(self.var.values()) - d) - w

    def rel(self, s, a, b, allowed):
        """Comparing a with b can only come out one of these ways in state s."""
        return a is b and "=" in allowed or not set(flt_orders(s, a, b, False)) - set(allowed) - {"u"}

    def known(self, s):
        """Intervals that something is known about in a state."""
        out = []
        for key in list(s.facts) + [x for k in s.rel for x in k[:2]]:
            for x in subterms(key):
                if x[0] == "sel" and x[1] is self.coll and x[2] not in out:
                    out.append(x[2])
        for r in self.ip.records:
            for _, _, x in slots(self.ip, r.head):
                l = loop_at(self.ip, x)
                if l and x not in out and lin_of(x) and self.counter(x):
                    out.append(x)
        return out

    def counter(self, x):
        l = loop_at(self.ip, x)
        for r in self.ip.records:
            if r.lid == l[0]:
                for b in r.back:
                    try:
                        d = isub(after_step(self.ip, l[0], x, b), x)
                    except ANALYSIS_ERRORS:
                        return False
                    if d[0] != "i":
                        return False
        return True

    def passed(self, s, k, skip, via=None, depth=0):
        """Every interval before number k is one the query may pass over."""
        if k is I(0):
            return True
        if depth > 6:
            return False
        ip = self.ip
        c, m = lin_of(k)
        loops = [a for a in m if loop_at(ip, a)]
        if len(loops) != 1 or m[loops[0]] != 1 or len(m) != 1:
            return False
        if c >= 1:
            j = isub(k, I(1))
            if skip(s, j) and self.passed(s, j, skip, via, depth + 1):
                return True
            j2 = isub(k, I(2))
            return c >= 2 and self.pair(s, j2, skip) and self.passed(s, j2, skip, via, depth + 1)
        if c < 0:
            return False
        lid = loop_at(ip, k)[0]
        recs = recs_of(ip, lid, s)
        if not recs:
            return False
        for r in recs:
            k0 = at_entry(ip, lid, k)
            if k0 is None or not self.passed(r.pre, k0, skip, via, depth + 1):
                return False
            for b in r.back:
                k1 = after_step(ip, lid, k, b)
                if isub(k1, k) is I(0):
                    continue
                if not self.upto(b, k, k1, skip):
                    return False
        return True

    def upto(self, s, a, b, skip):
        """The intervals from a to just before b may be passed over."""
        d = isub(b, a)
        if d[0] != "i" or d[1] < 0 or d[1] > 4:
            return False
        if d[1] == 0:
            return True
        return skip(s, a) and self.upto(s, iadd(a, I(1)), b, skip) or d[1] >= 2 and self.pair(s, a, skip) and self.upto(s, iadd(a, I(2)), b, skip)

    def pair(self, s, k, skip):
        """Two intervals that may only be passed over together."""
        return False

    def is_start(self, s, t, k, depth=0):
        """t is where interval k starts."""
        ip = self.ip
        if k is I(0):
            return t is self.first
        if t is self.end(isub(k, I(1))):
            return True
        l = loop_at(ip, t)
        if l is None or depth > 4:
            return False
        recs = recs_of(ip, l[0], s)
        k0 = at_entry(ip, l[0], k)
        if not recs or k0 is None:
            return False
        for r in recs:
            if not self.is_start(r.pre, l[3], k0, depth + 1):
                return False
            for b in r.back:
                if not self.is_start(b, ip.read_loc(b, (l[1][1], l[2])), after_step(ip, l[0], k, b), depth + 1):
                    return False
        return True

    def starts(self, s, k):
        """Terms known to be where interval k starts."""
        if k is I(0):
            return [self.first]
        out = [self.end(isub(k, I(1)))]
        for r in self.ip.records:
            for _, _, x in slots(self.ip, r.head):
                if x not in out and loop_at(self.ip, x) and self.is_start(s, x, k):
                    out.append(x)
        return out

    def after(self, s, k, strict=True):
        """Interval k is known to end after y (or at y, if not strict): it does, or one before it does."""
        al = "<" if strict else "<="
        for j in self.known(s):
            if set(int_orders(s, j, k)) <= set("<=") and self.rel(s, self.y, self.end(j), al):
                return True
        return False

    def exhausted(self, s, k):
        return exhausted(self.ip, s, self.coll, k)

    def candidates(self, s, skip):
        ks = []
        for k in self.known(s):
            for x in (k, iadd(k, I(1))):
                if x not in ks and self.passed(s, x, skip):
                    ks.append(x)
        return ks

    # ---- the queries

    def check(self):
        for n, (v, s) in enumerate(self.outs):
            self.ctx.guard("%s, outcome %d" % (self.name, n), self.inst, lambda: self.ctx.ob(
                "%s: %s" % (self.name, show(v)[:120]), getattr(self, "c_" + self.name)(v, s), self.inst,
                "no rule explains the answer %s where %s" % (show(v)[:300], facts_show(s)[:600])))
        for r in self.ip.records:
            self.ctx.stats["loops " + self.name] = self.ctx.stats.get("loops " + self.name, 0) + 1

    def ended(self, strict):
        """May an interval be passed over because of where it ends?"""
        return lambda s, k: self.rel(s, self.end(k), self.y, "<" if strict else "<=")

    def c_order_at(self, v, s):
        return any(v is self.order(k) and self.after(s, k, False) for k in self.candidates(s, self.ended(True)))

    def c_entry_at(self, v, s):
        ip = self.ip
        a, e, o = (ip.project(v, ("f", 0, i), s) for i in range(3))
        return any(o is self.order(k) and e is self.end(k) and self.is_start(s, a, k) and self.after(s, k)
                   for k in self.candidates(s, self.ended(False)))

    def last(self):
        return isub(self.ip.length(self.coll), I(1))

    def same(self, s, v, k):
        """v is the order of interval k"""
        if v is self.order(k):
            return True
        if v[0] == "agg" and v[1] == CRATE + "curve::Order":
            return any(v[2] == i and self.is_order(s, k, n) for n, i in self.var.items())
        return False

    def c_order_after(self, v, s):
        y, e = self.y, self.end(self.last())
        if self.same(s, v, self.last()) and self.rel(s, y, e, "="):
            return True
        if not self.rel(s, y, e, "<>"):
            return False
        ended = self.ended(False)
        skip = lambda st, k: ended(st, k) or self.is_order(st, k, "Ish")
        for k in self.candidates(s, skip):
            if self.same(s, v, k) and self.is_order(s, k, "Left", "Right") and self.after(s, k):
                return True
            if v[0] == "agg" and v[2] == self.var["Ish"] and self.exhausted(s, k):
                return True
        return False

    def c_next_touch_after(self, v, s):
        ip, y = self.ip, self.y
        ended = self.ended(False)
        skip = lambda st, k: ended(st, k) or self.is_order(st, k, "Left")
        # an uncertain interval that had started already, followed by one on the left
        self.pair = lambda st, k, _: self.is_order(st, k, "Ish") and self.is_order(st, iadd(k, I(1)), "Left") and any(
            self.rel(st, a, y, "<=") for a in self.starts(st, k))
        ks = self.candidates(s, skip)
        none = v[0] == "agg" and v[1] == OPT and v[2] == 0
        what = v[3] if v[0] == "agg" and v[1] == OPT and v[2] == 1 else None
        cross, touch = variant_index(self.P, CI, "Cross"), variant_index(self.P, CI, "Touch")
        for k in ks:
            nxt = iadd(k, I(1))
            if none and self.exhausted(s, k):
                return True
            if not self.after(s, k):
                continue
            if self.is_order(s, k, "Right"):
                if what is not None and what[0] == "agg" and what[2] == cross and self.rel(s, what[3], y, "="):
                    return True
            if not self.is_order(s, k, "Ish"):
                continue
            if none and self.exhausted(s, nxt):
                return True
            if self.exhausted(s, nxt) or "<" not in int_orders(s, nxt, ip.length(self.coll)):
                continue
            begins = self.starts(s, k)
            if self.is_order(s, nxt, "Right") and what is not None and what[0] == "agg" and what[2] == cross:
                h = what[3]
                if any(fpoly(h) == fpoly(self.mid(a, k)) for a in begins) and self.rel(s, y, h, "<"):
                    return True
                if h is self.end(k) and any(self.rel(s, y, m, "=>") for m in self.mids(s, begins, k)):
                    return True
            if self.is_order(s, nxt, "Left"):
                if what is not None and what[0] == "agg" and what[2] == touch:
                    if any(fpoly(what[3]) == fpoly(self.mid(a, k)) for a in begins) and any(self.rel(s, y, a, "<") for a in begins):
                        return True
                if v[0] == "call" and v[1] == self.inst["path"] and v[3] in (self.end(k), self.end(nxt)) and self.is_self(v[2]) \
                        and any(self.rel(s, y, a, "=>") for a in begins):
                    return True
        return False

    def is_self(self, t):
        return t is self.args[0] or unref(t) is T("*", self.args[0])

    def mids(self, s, begins, k):
        """How the middle of interval k may be written in a state."""
        want = [fpoly(self.mid(a, k)) for a in begins]
        out = []
        for key in s.rel:
            for t in key[:2]:
                if t not in out and fpoly(t) in want:
                    out.append(t)
        return out
