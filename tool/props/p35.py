"""The two look-ups in the sweep line are interpreted abstractly, comparisons and the extents of segments being uninterpreted:
what is known where a position is returned has to be what the position stands for; the loop over the neighbours is decided by induction."""
from props.linectx import *

FLOOR = 14
SO = SW + "SegmentOrder"


def run(ctx):
    ctx.rule("a segment is found where its entry is, and belongs where the comparisons put it")
    ctx.assumption("comparisons and the extents of segments are uninterpreted (P11, P24); the ordered tree is a sequence, and its search finds a boundary of the predicate (P64)")
    for name in ("position", "insertion_idx"):
        c = Lookup(ctx, name)
        ctx.guard(name, SO, c.run)


class Lookup:
    def __init__(self, ctx, name):
        self.ctx, self.P, self.name = ctx, ctx.P, name

    def ob(self, name, ok, detail=""):
        self.ctx.ob("%s: %s" % (self.name, name), ok, self.inst, detail)
        return ok

    def run(self):
        P, ctx = self.P, self.ctx
        self.inst = method(P, self.name, "SegmentOrder")
        ip = self.ip = ctx.interp(GEOM + ["re:^linesweeper::curve::CurveOrder::(order_at|order_after|entry_at|next_touch_after)$"], models=line_models(P), keep_rel=True,
                                  pull=True, keep_facts=lambda k: k[0] in ("discr", "diff"))
        self.args = ip.sym_args(self.inst)
        self.e = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in fields(P, SW + "SegmentOrderEntry")}
        self.line = ip.project(T("*", self.args[0]), ("f", 0, field_index(P, SO, "segs")), None)
        self.n = ip.length(self.line)
        self.outs = ip.run(self.inst, self.args, State())
        ctx.funcs |= ip.analysed
        self.ob("there are results", len(self.outs) > 0)
        getattr(self, "do_" + self.name)()

    def ent(self, k, name):
        return self.ip.project(T("sel", self.line, k), ("f", 0, self.e[name]), None)

    def num(self, seg):
        return self.ip.project(seg, ("f", 0, 0), None)

    # ---- where a segment is

    def matches(self, s, k, me):
        """Does the entry at k hold the segment? None if not known."""
        a = int_orders(s, self.num(self.ent(k, "seg")), self.num(me))
        o = self.ent(k, "old_seg")
        d = s.facts.get(T("discr", o))
        if isinstance(d, frozenset):
            d = ({0, 1} - d).pop() if len({0, 1} - d) == 1 else None
        b = frozenset("<>") if d == 0 else int_orders(s, self.num(fld(o, 0, 1)), self.num(me)) if d == 1 else frozenset("<=>")
        if a == frozenset("=") or b == frozenset("="):
            return True
        return False if "=" not in a and "=" not in b else None

    def do_position(self):
        ip, me, n = self.ip, self.args[1], {}
        for v, s in self.outs:
            if v is NONE:
                n["none"] = 1
                continue
            if not self.ob("a position, or nothing", v[0] == "agg" and v[2] == 1, show(v)[:200]):
                continue
            k = v[3]
            n["found"] = 1
            self.ob("it is that of an entry of the segment", self.matches(s, k, me) is True, "%s where %s" % (show(k)[:100], facts_show(s)[:400]))
        self.ob("it is found or not", len(n) == 2, str(n))
        loops = {r.lid for r in ip.records}
        if not self.ob("one loop over the entries", len(loops) == 1, str(len(loops))):
            return
        for r in ip.records:
            k = self.counter(r)
            if not self.ob("the entries are gone through in order", k is not None):
                continue
            for b in r.back:
                self.ob("only entries of other segments are passed over", self.matches(b, k, me) is False, facts_show(b)[:400])
            for x in r.exit:
                self.ob("up to the last one", int_orders(x, k, self.n) <= frozenset("=>") or self.matches(x, k, me) is True, facts_show(x)[:400])

    def counter(self, r, first=None):
        """The position of the entry that a loop is at."""
        out = set()
        for b in r.back:
            out |= {x[2] for x in self.atoms(b) if x[0] == "sel" and x[1] is self.line}
        out = [k for k in out if at_entry(self.ip, r.lid, k) is (first or I(0)) and r.back and all(isub(after_step(self.ip, r.lid, k, b), k) is I(1) for b in r.back)]
        return out[0] if len(out) == 1 else None

    # ---- where one belongs

    def do_insertion_idx(self):
        ip = self.ip
        P = self.P
        self.y, self.me = self.args[1], self.args[3]
        self.O = {o: variant_index(P, CRATE + "curve::Order", o) for o in ("Left", "Ish", "Right")}
        n = {}
        for v, s in whole(self.outs):
            what = "%s where %s" % (show(v)[:150], facts_show(s)[:900])
            pos = {x for x in self.atoms(s) if x[0] == "partition" and x[1] is self.line}
            empty = any(int_orders(s, p, self.n) <= frozenset("=>") and int_orders(s, p, I(0)) <= frozenset("=<") for p in pos)
            if empty and any(int_orders(s, p, self.n) == frozenset("<") for p in pos):
                continue        # cannot be: there are no entries, but there is one
            ext = [p for p in pos if self.by_extent(s, p)]
            cmp = [p for p in pos if p not in ext and self.by_order(s, p)]
            if not self.ob("it is looked for by extent first", len(ext) == 1, what):
                continue
            p = ext[0]
            if int_orders(s, p, self.n) <= frozenset("=>"):
                n["last"] = 1
                self.ob("east of all extents it goes last", v is p or int_orders(s, v, self.n) == frozenset("="), what)
                continue
            nxt = iadd(p, I(1))
            end = int_orders(s, nxt, self.n) <= frozenset("=>")
            if end or surely(s, self.ent(nxt, "lower_bound"), self.x, ">="):
                n["end" if end else "clear"] = 1
                o = self.order(s, self.me, p, "order_after")
                self.ob("next to the only one it may touch, the future order decides", o is not None and (v is nxt if o == {"Right"} else v is p and "Right" not in o), "%s %s" % (o, what))
                continue
            if not self.ob("it matters whether the next one is clear", never(s, self.ent(nxt, "lower_bound"), self.x, ">="), what):
                continue
            n["search"] = 1
            if not self.ob("otherwise by comparison, from the last one that is surely west", len(cmp) == 1, what):
                continue
            q = cmp[0]
            l = loop_at(ip, v)
            if v is q:
                self.ob("only if there are no others", int_orders(s, q, self.n) <= frozenset("=>") or any(not r.back for r in ip.records if r.no in s.via), what)
            elif self.ob("it is the last place found by the loop", l is not None and l[3] is q, what):
                for r in recs_of(ip, l[0], s):
                    self.searching(r, v, q)
        self.ob("all cases are there", len(n) == 4, str(n))

    def atoms(self, s):
        out = set()
        for k in s.iv:
            for t, _ in (k[1] if k[0] == "diff" else ()):
                out |= set(subterms(t))
        for k in list(s.rel) + [(x,) for x in s.facts]:
            for t in k:
                if isinstance(t, Term):
                    out |= set(subterms(t))
        return out

    def by_extent(self, s, p):
        """Is p a boundary of the entries whose extent ends at or west of the start of the segment?"""
        pf = ("f", 0, field_index(self.P, CRATE + "geom::Point", "x"))
        for x in self.atoms(s):
            if x[0] == "call" and x[1].endswith("Segment::start") and unref(x[2])[0] == "sel" and unref(x[2])[2] is self.num(self.me):
                self.x = self.ip.project(x, pf, None)
        if not hasattr(self, "x"):
            return False
        at = int_orders(s, p, self.n) <= frozenset("=>") or never(s, self.x, self.ent(p, "upper_bound"), ">=")
        before = int_orders(s, p, I(0)) <= frozenset("=<") or surely(s, self.x, self.ent(isub(p, I(1)), "upper_bound"), ">=")
        return at and before

    def by_order(self, s, p):
        """Is p a boundary of the entries that are left of the segment at the current height?"""
        at = int_orders(s, p, self.n) <= frozenset("=>") or (lambda o: o is not None and "Left" not in o)(self.order(s, p, self.me, "order_at"))
        before = int_orders(s, p, I(0)) <= frozenset("=<") or self.order(s, isub(p, I(1)), self.me, "order_at") == {"Left"}
        return at and before

    def order(self, s, a, b, which):
        """What is known of the order of two segments, one given by the position of its entry; None if nothing is asked."""
        swap = {"Left": "Right", "Right": "Left", "Ish": "Ish"}
        mine = b if a is self.me else a
        seg = self.num(self.ent(mine, "seg"))
        out = None
        for k, d in s.facts.items():
            if k[0] != "discr" or k[1][0] != "call" or not k[1][1].endswith("CurveOrder::" + which) or k[1][3] is not self.y:
                continue
            o = unref(k[1][2])
            if o[0] != "order" or o[1] is not self.args[4]:
                continue
            n1, n2 = self.num(o[2]), self.num(o[3])
            rest = {x for x, i in self.O.items() if (i not in d if isinstance(d, frozenset) else i == d)}
            me = self.num(self.me)
            if (n1, n2) == ((me, seg) if a is self.me else (seg, me)):
                out = rest if out is None else out & rest
            elif (n2, n1) == ((me, seg) if a is self.me else (seg, me)):
                rest = {swap[x] for x in rest}
                out = rest if out is None else out & rest
        return out

    def searching(self, r, v, q):
        ip = self.ip
        i = self.counter(r, q)
        if not self.ob("the following ones are gone through in order", i is not None or not r.back, ""):
            return
        for b in r.back:
            what = facts_show(b)[:900]
            new = after_step(ip, r.lid, v, b)
            at = self.order(b, i, self.me, "order_at")
            after = self.order(b, i, self.me, "order_after")
            if not self.ob("an entry that is surely east ends the search", at is not None and "Right" not in at, what):
                continue
            if at == {"Left"} or at == {"Ish"} and after == {"Left"}:
                self.ob("the place is after those that are, or will be, west", isub(new, iadd(i, I(1))) is I(0), what)
            else:
                self.ob("and not after others", new is v and at == {"Ish"} and after is not None and "Left" not in after, what)
        for x in r.exit:
            done = i is None or int_orders(x, i, self.n) <= frozenset("=>")
            self.ob("the search ends at one surely east, or the last one", done or self.order(x, i, self.me, "order_at") == {"Right"}, facts_show(x)[:600])
            self.ob("which does not change the place", after_step(ip, r.lid, v, x) in (v, q) if not done else True)


def whole(outs):
    """The outcomes, apart for both values of a condition that is added as a number."""
    for v, s in outs:
        b = next((x for x in subterms(v) if x[0] == "bool2int"), None)
        if b is None:
            yield v, s
        else:
            for k in (True, False):
                for z in assume(s.copy(), b[1], k):
                    yield from whole([(iadd(isub(v, b), I(int(k))), z)])
