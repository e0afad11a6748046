"""Moving on to the next height is interpreted abstractly: what is taken out of the sweep line, where the flags of entries are reset
and in which order the two happen are read off the terms for the line; loops are decided by induction over their steps."""
from props.linectx import *

FLOOR = 14


def run(ctx):
    ctx.rule("moving on resets what the last height left behind, and takes exactly the gone entries out of the line")
    ctx.assumption("the changed intervals cover every entry whose flags are set (P20); the ordered tree is a sequence (P64)")
    c = Advance(ctx)
    ctx.guard("advance", SWEEPER, c.run)


class Advance:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def ob(self, name, ok, detail=""):
        self.ctx.ob(name, ok, self.inst, detail)
        return ok

    def run(self):
        P, ctx = self.P, self.ctx
        self.inst = method(P, "advance")
        self.paths = {n: (("f", 0, i),) for i, n in enumerate(fields(P, SWEEPER))}
        self.paths["line"] = path_of(P, "line") + (("f", 0, field_index(P, SW + "SegmentOrder", "segs")),)
        ip = self.ip = ctx.interp(GEOM + ["re:^linesweeper::curve::CurveOrder::"], models=line_models(P), keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        args = ip.sym_args(self.inst)
        self.root, _ = ip.target(args[0])
        me = T("*", args[0])
        self.e = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in fields(P, SW + "SegmentOrderEntry")}
        self.old = {n: self.parts(me, p) for n, p in self.paths.items()}
        outs = ip.run(self.inst, args, State())
        ctx.funcs |= ip.analysed
        self.ob("there are results", len(outs) > 0)
        for v, s in outs:
            self.ob("the new height is the one asked for", self.rd(s, "y") is args[1], show(self.rd(s, "y"))[:100])
            for n, what in (("segs_needing_positions", "positions"), ("horizontals", "horizontal segments"), ("changed_intervals", "changed intervals")):
                t = self.rd(s, n)
                self.ob("no %s are left" % what, t is T("empty") or int_orders(s, ip.length(t), I(0)) <= frozenset("<="), show(t)[:200])
            bad = [n for n in self.paths if n not in ("y", "line", "segs_needing_positions", "horizontals", "changed_intervals") and self.rd(s, n) is not self.old[n]]
            self.ob("nothing else is touched", not bad, str(bad))
            self.removing(s, self.rd(s, "line"))

    def rd(self, s, name):
        return self.ip.read_loc(s, (self.root, self.paths[name]))

    def parts(self, v, path):
        for e in path:
            v = self.ip.project(v, e, None)
        return v

    def ent(self, e, name, s=None):
        return self.ip.project(e, ("f", 0, self.e[name]), s)

    def removing(self, s, line):
        """The loop that takes entries out, last position first."""
        ip = self.ip
        l = loop_at(ip, line)
        if not self.ob("entries are taken out in a loop", l is not None, show(line)[:200]):
            return
        for r in recs_of(ip, l[0], s):
            if self.rd(r.head, "line") is not line:
                continue
            lists = set()
            for b in r.back:
                new = self.rd(b, "line")
                what = "%s where %s" % (show(new)[:300], facts_show(b)[:300])
                if not self.ob("one entry is taken out at a time", new[0] == "remove" and new[1] is line and new[2][0] in ("sel", "item"), what):
                    return
                _, coll, k = new[2]
                lists.add((coll, k))
            if not self.ob("the positions are those of one list", len(lists) == 1):
                return
            coll, k = lists.pop()
            n = ip.length(coll)
            done = lambda x: int_orders(x, k, I(0)) == frozenset("<") or int_orders(x, isub(isub(n, I(1)), k), n) <= frozenset("=>") or exhausted(ip, x, coll, isub(isub(n, I(1)), k))
            if all(isub(k, isub(n, I(1))) is I(0) and self.shrinks(r, coll, b) for b in r.back):
                base = loop_at(ip, coll)[3]
                done = lambda x: int_orders(x, n, I(0)) <= frozenset("<=")
            else:
                self.ob("from the last one to the first", at_entry(ip, r.lid, isub(isub(n, I(1)), k)) is I(0) and all(isub(after_step(ip, r.lid, k, b), k) is I(-1) for b in r.back), show(k)[:200])
                base = coll
            self.ob("all of them are taken out", len(r.exit) > 0 and all(done(x) for x in r.exit), "")
            self.positions(base, r.pre)
            self.resetting(l[3], r.pre)

    def shrinks(self, r, coll, b):
        """The loop takes the last element off the list each time."""
        l = loop_at(self.ip, coll)
        if l is None or l[0] != r.lid:
            return False
        new = self.ip.read_loc(b, (l[1][1], l[2]))
        n = self.ip.length(coll)
        return new[0] == "slice" and new[1] is coll and new[2] is I(0) and isub(isub(n, I(1)), new[3]) is I(0)

    def positions(self, t, st):
        """A list of the positions of the entries that are gone, in ascending order without duplicates."""
        chain, t0 = [], t
        while True:
            if t[0] in ("sorted", "dedup"):
                chain.append(t[0])
                if not self.ob("positions are compared as such", t[0] == "sorted" and t[2] in ("sort", "sort_unstable") or t[0] == "dedup" and len(t) == 2, show(t)[:200]):
                    return
                t = t[1]
                continue
            if t is self.old["segs_needing_positions"]:
                break
            l = loop_at(self.ip, t)
            if l is not None and l[3] is T("empty"):
                src = self.kept(l, t, st)
                if src is None:
                    return
                chain.append("kept")
                t = src
                continue
            if t[0] == "collect":
                src = self.collected(t)
                if src is None:
                    return
                chain.append("kept")
                t = src
                continue
            break
        if not self.ob("the positions come from the noted ones", t is self.old["segs_needing_positions"], show(t)[:200]):
            return
        order = [x for x in chain if x != "kept"]
        self.ob("without duplicates, in ascending order", "dedup" in order and "sorted" in order[order.index("dedup"):], show(t0)[:300])
        self.ob("only those of entries that are gone", "kept" in chain, show(t0)[:300])

    def kept(self, l, t, st):
        ip, srcs = self.ip, set()
        loc = (l[1][1], l[2])
        for r in recs_of(ip, l[0], st):
            if ip.read_loc(r.head, loc) is not t:
                continue
            here = set()
            for b in r.back:
                new = pushed(ip, r.head, b, *loc)
                if new is None or len(new) > 1 or new and new[0][0] not in ("sel", "item"):
                    self.ob("positions are kept or left out", False, show(ip.read_loc(b, loc))[:200])
                    return None
                here |= {(x[1], x[2]) for x in new}
            if not self.ob("the kept positions are those of one list", len(here) == 1):
                return None
            src, k = here.pop()
            self.ob("all positions are gone through", at_entry(ip, r.lid, k) is I(0) and all(isub(after_step(ip, r.lid, k, b), k) is I(1) for b in r.back)
                    and all(exhausted(ip, x, src, k) for x in r.exit), show(k)[:100])
            for b in r.back:
                new = pushed(ip, r.head, b, *loc)
                self.choice(b, T("sel", src, k), len(new) == 1)
            srcs.add(src)
        return srcs.pop() if len(srcs) == 1 else None

    def collected(self, t):
        ip = self.ip
        srcs = set()
        for v, s1 in ip.collected.get(t, ()):
            if v[0] != "sel":
                self.ob("positions are kept or left out", False, show(v)[:200])
                return None
            srcs.add(v[1])
            self.choice(s1, v, True)
        for (src, site), states in ip.left_out.items():
            for x in subterms(t):
                if x is src or x[0] in ("filter",) and src[0] == "filter" and x[2] is src[2]:
                    for s1 in states:
                        pos = {y for k in s1.facts for y in subterms(k) if y[0] == "sel" and y[1] in srcs}
                        self.ob("a position that is left out is one", len(pos) == 1)
                        for p in pos:
                            self.choice(s1, p, False)
                    break
        return srcs.pop() if len(srcs) == 1 else None

    def choice(self, s, pos, keep):
        e = T("sel", self.old["line"], pos)
        ex, o = s.facts.get(self.ent(e, "exit")), s.facts.get(T("discr", self.ent(e, "old_seg")))
        gone = False if ex is False or o in (1, frozenset([0])) else True if ex is True and o in (0, frozenset([1])) else None
        self.ob("an entry goes exactly if its segment leaves and no other took its place", gone is keep, "%s where %s" % (show(pos)[:100], facts_show(s)[:300]))

    # ---- flags

    def resetting(self, line, st):
        """The line before anything is taken out: the old one, the entries of all changed intervals being reset."""
        ip = self.ip
        l = loop_at(ip, line)
        if not self.ob("entries are reset, before any is taken out", l is not None and l[3] is self.old["line"], show(line)[:200]):
            return
        for r in recs_of(ip, l[0], st):
            if self.rd(r.head, "line") is not line:
                continue
            for b in r.back:
                new = self.rd(b, "line")
                l2 = loop_at(ip, new)
                if not self.ob("those of one interval after the other", l2 is not None and l2[3] is line, show(new)[:200]):
                    continue
                for r2 in recs_of(ip, l2[0], b):
                    if self.rd(r2.head, "line") is new:
                        self.interval(r, r2, new)
                # every interval is gone through
                k = self.which
                self.ob("every changed interval is gone through", k is not None and at_entry(ip, r.lid, k) is I(0) and isub(after_step(ip, r.lid, k, b), k) is I(1)
                        and all(exhausted(ip, x, self.old["changed_intervals"], k) for x in r.exit), show(k)[:100] if k else "")

    def interval(self, outer, r, line):
        ip, self.which = self.ip, None
        for b in r.back:
            new = self.rd(b, "line")
            what = "%s where %s" % (show(new)[:400], facts_show(b)[:300])
            if not self.ob("one entry is reset at a time", new[0] == "store" and new[1] is line, what):
                return
            j = new[2]
            e = T("sel", line, j)
            want = dict(exit=T("b", False), enter=T("b", False), in_changed_interval=T("b", False), old_idx=NONE, old_seg=NONE)
            bad = [n for n in self.e if self.ent(new[3], n, b) is not (want[n] if n in want else self.ent(e, n))]
            self.ob("its flags and what it remembers are reset, the rest stays", not bad, "%s %s" % (bad, what))
            first = at_entry(ip, r.lid, j)
            i = ("f", 0, field_index(self.P, SW + "ChangedInterval", "segs"))
            its = {x for x in (subterms(first) if first is not None else ()) if x[0] in ("sel", "item") and x[1] is self.old["changed_intervals"]}
            if not self.ob("the entries are those of an interval", len(its) == 1, what):
                return
            it = its.pop()
            self.which = it[2]
            rg = ip.project(it, i, b)
            self.ob("from the first one on", isub(first, ip.project(rg, ("f", 0, 0), b)) is I(0) and isub(after_step(ip, r.lid, j, b), j) is I(1), what)
            for x in r.exit:
                self.ob("to the last one", int_orders(x, j, ip.project(rg, ("f", 0, 1), x)) <= frozenset("=>"), facts_show(x)[:400])
