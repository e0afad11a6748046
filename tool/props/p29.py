"""The functions that build comparisons of two curves are interpreted abstractly.  Appending an interval is decided
by a table over the order of the last interval and the new one; flipping by the generic interval of the result;
adding vertical slop by what each path through the loop over the intervals appends to the result."""
from lib import *

FLOOR = 14
CO = CRATE + "curve::CurveOrder"
CE = CRATE + "curve::CurveOrderEntry"
NAMES = ("Left", "Right", "Ish")
MIRROR = {"Left": "Right", "Right": "Left", "Ish": "Ish"}


def run(ctx):
    P = ctx.P
    ctx.rule("appending keeps decided orders apart by an uncertain interval and ends in order; flipping mirrors every order; slop only shrinks decided intervals, and drops none that is higher than the slop")
    ctx.assumption("the intervals of a comparison that slop is added to are in order of height (as appending in order makes them)")
    b = Build(ctx, P)
    for n in ("push", "flip", "with_y_slop"):
        ctx.guard(n, CO + "::" + n, lambda: getattr(b, n)())
    ctx.guard("Order::flip", CRATE + "curve::Order", b.mirror)


class Build:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.fs, self.fc = field_index(P, CO, "start"), field_index(P, CO, "cmps")
        self.fe, self.fo = field_index(P, CE, "end"), field_index(P, CE, "order")
        self.var = {n: variant_index(P, CRATE + "curve::Order", n) for n in NAMES}

    def fields(self, ip, v, s):
        return ip.project(v, ("f", 0, self.fe), s), ip.project(v, ("f", 0, self.fo), s)

    def orders(self, s, t):
        """The orders that t can be in state s."""
        if t[0] == "agg" and t[1] == CRATE + "curve::Order":
            return {n for n in NAMES if self.var[n] == t[2]}
        d = s.facts.get(T("discr", t))
        return {n for n in NAMES if d is None or (self.var[n] not in d if isinstance(d, frozenset) else self.var[n] == d)}

    def analyse(self, n):
        inst = self.P.one(key=CO + "::" + n)
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        return inst, ip, args, outs

    # ---- push

    def push(self):
        inst, ip, args, outs = self.analyse("push")
        me = T("*", args[0])
        C = ip.project(me, ("f", 0, self.fc), None)
        n = ip.length(C)
        last = isub(n, I(1))
        le, lo = self.fields(ip, T("sel", C, last), None)
        end, order = args[1], args[2]
        seen = set()
        for v, s in outs:
            root, path = ip.target(args[0])
            got = ip.read_loc(s, (root, path + (("f", 0, self.fc),)))
            st = ip.read_loc(s, (root, path + (("f", 0, self.fs),)))
            self.ctx.ob("push leaves the start alone", st is ip.project(me, ("f", 0, self.fs), None), inst, show(st)[:200])
            empty = "<" not in int_orders(s, I(0), n)
            maybe = ">" not in int_orders(s, n, I(0))
            if maybe or empty:
                seen.add("first")
                self.ctx.ob("push: the first interval", self.added(ip, s, got, C, [(end, order)]), inst, self.text(got, s))
                continue
            if "=" in int_orders(s, n, I(0)):
                raise EngineError("not clear whether there is an interval already: %s" % facts_show(s)[:300])
            both = int_orders(s, T("discr", lo), T("discr", order))
            for a in self.orders(s, lo):
                for b in self.orders(s, order):
                    x, y = self.var[a], self.var[b]
                    if ("<" if x < y else ">" if x > y else "=") not in both:
                        continue
                    name = "push: %s after %s" % (b, a)
                    seen.add(name)
                    s2 = s.copy()
                    s2.facts[T("discr", lo)] = self.var[a]
                    s2.facts[T("discr", order)] = self.var[b]
                    if a == b:
                        ok = self.extended(ip, s2, got, C, last, end, lo)
                    elif "Ish" not in (a, b):
                        ok = self.added(ip, s2, got, C, [(end, "Ish"), (end, order)])
                    else:
                        o = flt_orders(s, end, le, False)
                        ok = set(o) - {"u"} <= {">"} and self.added(ip, s2, got, C, [(end, order)]) or ">" not in o and got is C
                    self.ctx.ob(name, ok, inst, self.text(got, s))
        want = {"first"} | {"push: %s after %s" % (b, a) for a in NAMES for b in NAMES}
        self.ctx.ob("push handles every combination", want <= seen, inst, str(sorted(want - seen)))

    def text(self, got, s):
        return "the intervals become %s where %s" % (show(got)[:300], facts_show(s)[:300])

    def same_order(self, s, t, o):
        if isinstance(o, str):
            return self.orders(s, t) == {o}
        return t is o or len(self.orders(s, t)) == 1 and self.orders(s, t) == self.orders(s, o)

    def added(self, ip, s, got, C, want):
        """got is C with these intervals appended."""
        for e, o in want[::-1]:
            if got[0] != "push":
                return False
            ge, go = self.fields(ip, got[2], s)
            if ge is not e or not self.same_order(s, go, o):
                return False
            got = got[1]
        return got is C

    def extended(self, ip, s, got, C, last, end, lo):
        """got is C with the end of the last interval moved."""
        if got[0] != "store" or got[1] is not C or got[2] is not last:
            return False
        e, o = self.fields(ip, got[3], s)
        return e is end and self.same_order(s, o, lo)

    # ---- flip

    def mirror(self):
        """The mirror image of a single order."""
        inst = self.P.one(key=CRATE + "curve::Order::flip")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True, keep_facts=lambda k: k[0] == "discr")
        seen = set()
        for v, s in outs:
            a, b = self.orders(s, args[0]), self.orders(s, v)
            seen |= a
            same = v is args[0] and a <= {"Ish"}
            self.ctx.ob("an order is mirrored", same or len(b) == 1 and {MIRROR[x] for x in a} == b, inst, "%s from %s" % (sorted(b), sorted(a)))
        self.ctx.ob("every order has a mirror image", seen == set(NAMES), inst, str(sorted(seen)))

    def flip(self):
        inst, ip, args, outs = self.analyse("flip")
        me = T("*", args[0])
        C = ip.project(me, ("f", 0, self.fc), None)
        for v, s in outs:
            self.ctx.ob("flip keeps the start", ip.project(v, ("f", 0, self.fs), s) is ip.project(me, ("f", 0, self.fs), None), inst, show(v)[:200])
            t = ip.project(v, ("f", 0, self.fc), s)
            els = getattr(ip, "collected", {}).get(t)
            n = 0
            if els is not None:
                src = [x for x in subterms(t) if x[0] == "refs"]
                self.ctx.ob("flip goes over the intervals in order", len(src) == 1 and self.all_in_order(t[1]) and t[3:] == (C,), inst, show(t)[:300])
                for x, s1 in els:
                    n += self.mirrored(inst, ip, x, s1, C, None)
            else:
                n = self.flip_loop(inst, ip, t, s, C)
            self.ctx.ob("flip mirrors intervals", n > 0, inst, show(t)[:300])

    def all_in_order(self, it):
        """An iterator over every element of a collection in order, one result each."""
        while True:
            if it[0] == "agg" and it[1] == "it":
                if it[4] is not I(0):
                    return False
                it = it[3]
            elif it[0] in ("map", "copied", "cloned", "inspect", "fuse"):
                it = it[1]
            elif it[0] == "refs":
                return len(it) == 2
            else:
                return False

    def mirrored(self, inst, ip, x, s, C, k):
        e, o = self.fields(ip, x, s)
        hits = [y for y in subterms(e) if y[0] == "sel" and y[1] is C]
        ok = len(hits) == 1 and (k is None or hits[0][2] is k)
        if ok:
            e0, o0 = self.fields(ip, hits[0], None)
            ok = e is e0
            for a in sorted(self.orders(s, o0)):
                s2 = s.copy()
                s2.facts[T("discr", o0)] = self.var[a]
                self.ctx.ob("flip: %s becomes %s" % (a, MIRROR[a]), self.orders(s2, o) == {MIRROR[a]}, inst, show(x)[:300])
        self.ctx.ob("flip keeps the ends", ok, inst, show(x)[:300])
        return 1

    def flip_loop(self, inst, ip, t, s, C):
        l = loop_at(ip, t)
        if l is None:
            raise EngineError("how the flipped intervals are collected: %s" % show(t)[:300])
        n = 0
        for r in recs_of(ip, l[0], s):
            self.ctx.ob("flip starts with no intervals", ip.length(l[3]) is I(0), inst, show(l[3])[:200])
            for b in r.back:
                root = next((root for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[:3] == l[:3] and p == l[2]), None)
                els = pushed(ip, r.head, b, root, l[2])
                ks = [x for _, _, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == l[0]
                      and at_entry(ip, l[0], x) is I(0) and lin_of(x) and isub(after_step(ip, l[0], x, b), x) is I(1)]
                self.ctx.ob("flip adds one interval for each", els is not None and len(els) == 1 and len(ks) >= 1, inst, show(ip.read_loc(b, (root, l[2])))[:300])
                if els and ks:
                    n += self.mirrored(inst, ip, els[0], b, C, ks[0])
            ks = [x for _, _, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == l[0]]
            self.ctx.ob("flip goes over all intervals", any(exhausted(ip, s, C, k) for k in ks), inst, facts_show(s)[:300])
        return n

    # ---- slop

    def with_y_slop(self):
        inst, ip, args, outs = self.analyse("with_y_slop")
        me, slop = args
        first, C = (ip.project(me, ("f", 0, i), None) for i in (self.fs, self.fc))
        top = self.fields(ip, T("sel", C, isub(ip.length(C), I(1))), None)[0]
        rel = lambda s, a, b, al: a is b and "=" in al or not set(flt_orders(s, a, b, False)) - set(al) - {"u"}
        n = 0
        lids = set()
        for v, s in outs:
            start, got = (ip.project(v, ("f", 0, i), s) for i in (self.fs, self.fc))
            self.ctx.ob("slop keeps the start", start is first, inst, show(v)[:200])
            if got is C:
                self.ctx.ob("the comparison stays as it is without slop or height", rel(s, slop, F(0.0), "=") or rel(s, first, top, "="), inst, facts_show(s)[:300])
                continue
            n += 1
            base = got[1] if got[0] == "push" else got
            if got[0] == "push":
                e, o = self.fields(ip, got[2], s)
                self.ctx.ob("slop: the rest is uncertain up to the end", rel(s, e, top, "=") and self.orders(s, o) == {"Ish"}, inst, show(got[2])[:300])
            else:
                le = self.fields(ip, T("sel", got, isub(ip.length(got), I(1))), None)[0]
                self.ctx.ob("slop: the intervals reach the end", rel(s, le, top, "="), inst, facts_show(s)[:400])
            l = loop_at(ip, base)
            if l is None:
                raise EngineError("how the intervals are collected: %s" % show(base)[:300])
            self.ctx.ob("slop starts with no intervals", ip.length(l[3]) is I(0), inst, show(l[3])[:200])
            lids.add((l[0], l[1], l[2]))
            self.ctx.ob("slop goes over all intervals", self.done(ip, s, l[0], C), inst, facts_show(s)[:400])
        self.ctx.ob("slop builds new intervals", n > 0, inst)
        for lid, rname, path in sorted(lids, key=str):
            for r in ip.records:
                if r.lid != lid:
                    continue
                root = next(root for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[:3] == (lid, rname, path) and p == path)
                for i, b in enumerate(r.back):
                    self.ctx.guard("slop, step %d" % i, inst, lambda: self.step(inst, ip, r, b, root, path, lid, first, C, top, slop, rel))

    def counters(self, ip, lid, r, b):
        out = []
        for _, _, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l and l[0] == lid and x not in out and at_entry(ip, lid, x) is I(0):
                d = isub(after_step(ip, lid, x, b), x)
                if d is I(1):
                    out.append(x)
        return out

    def done(self, ip, s, lid, C):
        for r in recs_of(ip, lid, s):
            ks = [x for _, _, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == lid and at_entry(ip, lid, x) is I(0)]
            if not any(exhausted(ip, s, C, k) for k in ks):
                return False
        return True

    def step(self, inst, ip, r, b, root, path, lid, first, C, top, slop, rel):
        ks = self.counters(ip, lid, r, b)
        if len(ks) != 1:
            raise EngineError("which interval a step is about")
        k = ks[0]
        end, order = self.fields(ip, T("sel", C, k), None)
        # where the interval starts, as the loop keeps it
        starts = []
        for rt, p, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l and l[0] == lid and l[3] is first and ip.read_loc(b, (rt, p)) is end:
                starts.append(x)
        if not starts:
            raise EngineError("where the intervals start")
        start = starts[0]
        els = pushed(ip, r.head, b, root, path)
        if els is None:
            raise EngineError("the intervals change other than by appending")
        what = "%s where %s" % ([show(x)[:120] for x in els], facts_show(b)[:500])
        lo = start if rel(b, start, first, "<=") else T("fadd", start, slop) if rel(b, start, first, "<>") else None
        hi = end if rel(b, end, top, ">=") else T("fsub", end, slop) if rel(b, end, top, "<>") else None
        eq = lambda x, y: fpoly(x) == fpoly(y)
        if self.orders(b, order) == {"Ish"}:
            self.ctx.ob("slop: an uncertain interval is covered by what comes next", not els, inst, what)
            return
        if "Ish" in self.orders(b, order) or lo is None or hi is None:
            raise EngineError("which case a step is about: %s" % facts_show(b)[:400])
        if not els:
            self.ctx.ob("slop: only intervals without height are left out",
                        any(rel(b, x, y, ">=") for x, y in self.written(ip, b, lo, hi)), inst, what)
            return
        e, o = self.fields(ip, els[-1], b)
        self.ctx.ob("slop: a decided interval ends the slop below its end", eq(e, hi) and self.same_order(b, o, order), inst, what)
        self.ctx.ob("slop: a decided interval is added only with height", any(rel(b, x, y, "<") for x, y in self.written(ip, b, lo, hi)), inst, what)
        if len(els) == 1:
            self.ctx.ob("slop: what precedes a decided interval is uncertain", any(rel(b, x, first, "<=") for x, _ in self.written(ip, b, lo, hi)) or rel(b, lo, first, "<="), inst, what)
        elif len(els) == 2:
            e, o = self.fields(ip, els[0], b)
            self.ctx.ob("slop: uncertain up to the slop below its start", eq(e, lo) and self.orders(b, o) == {"Ish"}, inst, what)
        else:
            self.ctx.fail("slop: intervals added in one step", inst, what)

    def written(self, ip, b, lo, hi):
        """How the two bounds may be written in a state."""
        out = []
        for key in b.rel:
            for x, y in (key[:2], key[1::-1]):
                if fpoly(x) == fpoly(lo) or fpoly(y) == fpoly(hi):
                    out.append((x, y))
        return [(x, y) for x, y in out if fpoly(x) == fpoly(lo)] or [(lo, hi)]

