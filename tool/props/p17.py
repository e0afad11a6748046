"""The functions that change the sweep line are interpreted abstractly, the scans for intersections being recorded in a
log together with the line they see: on every path the line after the change is compared with the one the change is to
make, and the log has to hold the scans that the change needs, of the line as it is then.  Loops are decided by induction."""
from props.linectx import *

FLOOR = 60
LOG = ("H", ("log",))
OPAQUE = GEOM + ["re:^linesweeper::curve::CurveOrder::(next_touch_after|entry_at|order_at|order_after)$", "re:SegmentOrder::(position|insertion_idx)$"]


def run(ctx):
    ctx.rule("every change of the sweep line is followed by the scans it needs, of the line as changed")
    ctx.assumption("scans, comparisons, look-ups in the line and the extents of segments are uninterpreted (P18, P11, P35); the ordered tree is a sequence (P64)")
    for name in ("insert", "handle_enter", "handle_exit", "handle_intersection", "add_seg_needing_position"):
        c = Change(ctx, name)
        ctx.guard(name, SWEEPER, c.run)


class Change:
    def __init__(self, ctx, name):
        self.ctx, self.P, self.name = ctx, ctx.P, name

    def ob(self, name, ok, detail=""):
        self.ctx.ob("%s: %s" % (self.name, name), ok, self.inst, detail)
        return ok

    def run(self):
        P, ctx = self.P, self.ctx
        self.inst = method(P, self.name)
        self.paths = {n: (("f", 0, i),) for i, n in enumerate(fields(P, SWEEPER))}
        self.paths["line"] = path_of(P, "line") + (("f", 0, field_index(P, SW + "SegmentOrder", "segs")),)
        self.paths["events"] = path_of(P, "events", "intersection")
        mods = line_models(P)
        for d in ("right", "left"):
            mods[method(P, "intersection_scan_" + d)["path"]] = self.scan(d)
        if self.name != "add_seg_needing_position":
            mods[method(P, "add_seg_needing_position")["path"]] = self.noting
        ip = self.ip = ctx.interp(OPAQUE, models=mods, keep_rel=True, pull=True, keep_facts=apart_by)
        args = self.args = ip.sym_args(self.inst)
        self.root, _ = ip.target(args[0])
        self.me = T("*", args[0])
        self.e = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in
                  ("seg", "exit", "enter", "lower_bound", "upper_bound", "in_changed_interval", "old_idx", "old_seg")}
        self.old = {n: self.parts(self.me, p) for n, p in self.paths.items()}
        st = State()
        st.mem[LOG] = T("empty")
        self.outs = ip.run(self.inst, args, st)
        ctx.funcs |= ip.analysed
        if not self.ob("there are results", len(self.outs) > 0):
            return
        getattr(self, "do_" + self.name)()

    # ---- the log

    def scan(self, d):
        def f(ip, fn, args, atys, rty, s, site, fr):
            root, path = ip.target(args[0])
            st = s.copy()
            st.mem[LOG] = T("push", s.mem[LOG], T("call", "scan", d, args[1], ip.read_loc(s, (root, path + self.paths["line"]))))
            return [(engine.UNIT, st)]
        return f

    def noting(self, ip, fn, args, atys, rty, s, site, fr):
        st = s.copy()
        st.mem[LOG] = T("push", s.mem[LOG], T("call", "note", args[1], args[2]))
        return [(engine.UNIT, st)]

    def logged(self, t, base):
        """What was added to the log since; None if that is not known."""
        out = []
        while t is not base:
            if t[0] != "push":
                return None
            out.append(t[2])
            t = t[1]
        return out[::-1]

    def both(self, i, line):
        return {T("call", "scan", d, i, line) for d in ("right", "left")}

    # ---- parts

    def parts(self, v, path):
        for e in path:
            v = self.ip.project(v, e, None)
        return v

    def rd(self, s, name):
        return self.ip.read_loc(s, (self.root, self.paths[name]))

    def ent(self, e, name, s=None):
        return self.ip.project(e, ("f", 0, self.e[name]), s)

    def at(self, line, i):
        return T("sel", line, i)

    def num(self, seg):
        return self.ip.project(seg, ("f", 0, 0), None)

    def same(self, s, *but):
        bad = [n for n in self.paths if n not in but and self.rd(s, n) is not self.old[n]]
        self.ob("nothing else is touched", not bad, str([(n, show(self.rd(s, n))[:150]) for n in bad]))

    def entry_is(self, e, s, base, **want):
        """The entry has these contents, the others being those of base."""
        for n in self.e:
            w = want[n] if n in want else (self.ent(base, n) if base is not None else None)
            if w is None:
                continue
            v = self.ent(e, n, s)
            if callable(w) and not isinstance(w, Term):
                if not w(v):
                    return "%s is %s" % (n, show(v)[:150])
            elif v is not w:
                return "%s is %s" % (n, show(v)[:150])
        return None

    def where(self, seg):
        """The position of a segment, as looked up in the line as it is at first."""
        out = []
        for v, s in self.outs:
            for k in s.facts:
                if k[0] == "discr" and k[1][0] == "call" and k[1][1].endswith("SegmentOrder::position") and k[1][3] is seg and k[1] not in out:
                    out.append(k[1])
        if len(out) != 1:
            raise EngineError("where %s is: %s" % (show(seg), [show(x)[:100] for x in out]))
        so = unref(out[0][2])
        if not contains(so, lambda x: x is self.parts(self.me, path_of(self.P, "line"))):
            raise EngineError("looked up in %s" % show(so)[:200])
        return fld(out[0], 0, 1)

    # ---- insertion at a position

    def do_insert(self):
        for v, s in self.outs:
            new = self.rd(s, "line")
            self.ob("the entry is put where it is asked for", new is T("insert", self.old["line"], self.args[1], self.args[2]), show(new)[:300])
            self.scans(s, self.both(self.args[1], new))
            self.same(s, "line")

    def scans(self, s, want, what=""):
        got = self.logged(s.mem[LOG], T("empty"))
        self.ob("both ways are scanned from there, afterwards" if want else "no scans", got is not None and set(got) == want and len(got) == len(want),
                "%s where %s" % (show(s.mem[LOG])[:400], facts_show(s)[:300]))

    # ---- a segment enters

    def do_handle_enter(self):
        P, ip = self.P, self.ip
        me, y = self.args[1], self.old["y"]
        n = {}
        for v, s in self.outs:
            what = facts_show(s)[:500]
            flat = [(k, b) for k, b in s.facts.items() if k[0] == "call" and k[1].endswith("Segment::is_horizontal") and unref(k[2])[0] == "sel" and unref(k[2])[2] is self.num(me)]
            if len(flat) != 1:
                raise EngineError("whether it is horizontal: %s" % what)
            if flat[0][1]:
                n["horizontal"] = 1
                new = self.rd(s, "horizontals")
                self.ob("a horizontal segment is noted", new is T("push", self.old["horizontals"], me), show(new)[:200])
                self.scans(s, set())
                self.same(s, "horizontals")
                continue
            line, old = self.rd(s, "line"), self.old["line"]
            self.same(s, "line")
            got = self.logged(s.mem[LOG], T("empty")) or []
            pos = self.place(s)
            nb, above = self.before(s)
            if line[0] == "store":
                n["continued"] = 1
                k = line[2]
                self.ob("only one entry changes when a contour goes on", line[1] is old, show(line)[:300])
                base = self.at(old, k)
                self.ob("a contour goes on in the place of its previous segment", nb is not None and int_orders(s, self.num(self.ent(base, "seg")), self.num(nb)) == frozenset("="),
                        "%s where %s" % (show(base), what))
                self.ob("which is where the new one belongs", isub(k, pos) is I(0) or isub(k, pos) is I(-1), show(k)[:200])
                self.ob("only a segment from above goes on", above is True, what)
                bad = self.entry_is(line[3], s, base, seg=me, enter=T("b", True), exit=T("b", True), old_seg=some(self.ent(base, "seg")), **self.extent(me, s))
                self.ob("the entry remembers the segment that ends", bad is None, bad)
                note = T("call", "note", k, T("b", False))
            elif line[0] == "insert":
                n["new"] = 1
                k = pos
                self.ob("a segment is put where it belongs", line[1] is old and line[2] is pos, show(line)[:300])
                bad = self.entry_is(line[3], s, None, seg=me, enter=T("b", True), exit=T("b", False), old_seg=NONE, old_idx=NONE, in_changed_interval=T("b", False), **self.extent(me, s))
                self.ob("the entry is fresh, and enters", bad is None, bad)
                self.ob("only where no previous segment from above is next to it", above is not True or self.apart(s, old, pos, nb), what)
                note = T("call", "note", k, T("b", True))
            else:
                self.ob("a segment enters the line", False, show(line)[:300])
                continue
            self.scans(s, self.both(k, line) | {note})
        self.ob("all three cases are there", len(n) == 3, str(n))

    def place(self, s):
        c = {x for x in subterms(self.rd(s, "line")) if x[0] == "call" and x[1].endswith("SegmentOrder::insertion_idx")}
        c |= {x for k in s.iv for t in (k if isinstance(k, tuple) else (k,)) if isinstance(t, Term) for x in subterms(t) if x[0] == "call" and x[1].endswith("SegmentOrder::insertion_idx")}
        if len(c) != 1:
            raise EngineError("where it belongs: %s" % [show(x)[:100] for x in c])
        x = c.pop()
        cache = self.parts(self.me, self.paths["comparisons"])
        ok = contains(unref(x[2]), lambda z: z is self.parts(self.me, path_of(self.P, "line"))) and x[3] is self.old["y"] and x[5] is self.args[1] and contains(x[6], lambda z: z is cache)
        self.ob("its place is looked up at the current height with the ordinary comparisons", ok, show(x)[:300])
        return x

    def before(self, s):
        """(the segment before it along its contour, going down, if any; whether that starts above)"""
        P, ip = self.P, self.ip
        S = CRATE + "segments::Segments"
        me = self.num(self.args[1])

        def table(n):
            i = field_index(P, S, n)
            return [k for k in s.facts for _ in (0,) if self.under(k[1] if k[0] == "discr" else k, i, me)]
        up = table("orientation")
        if len(up) != 1:
            raise EngineError("its orientation: %s" % facts_show(s)[:400])
        t = table("contour_prev" if s.facts[up[0]] else "contour_next")
        if len(t) != 1:
            raise EngineError("its neighbour along the contour: %s" % facts_show(s)[:400])
        d = s.facts[t[0]]
        d = d if not isinstance(d, frozenset) else ({0, 1} - d).pop()
        if d == 0:
            return None, None
        nb = fld(t[0][1], 0, 1)
        for k in s.rel:
            for a, b in (k[:2], k[1::-1]):
                if b is self.old["y"]:
                    for x in subterms(a):
                        if x[0] == "call" and x[1].endswith("Segment::start") and unref(x[2])[0] == "sel" and unref(x[2])[2] is self.num(nb):
                            if a is ip.project(x, ("f", 0, field_index(P, CRATE + "geom::Point", "y")), None):
                                return nb, surely(s, a, b, "<")
        return nb, None

    def under(self, t, i, me):
        """Is t entry `me` of table i of the segments?"""
        if t[0] != "sel" or t[2] is not me:
            return False
        x = t[1]
        while x[0] in ("fld", "*", "&"):
            if x[0] == "fld" and len(x) == 4 and x[3] == i and unstar(x[1]) is unstar(self.old["segments"]):
                return True
            x = x[1]
        return False

    def extent(self, seg, s):
        """What the bounds of its entry may be."""
        eps = self.old["eps"]

        def call(t, n):
            return t[0] == "call" and t[1].endswith("Segment::" + n) and unref(t[2])[0] == "sel" and unref(t[2])[2] is self.num(seg)

        def is_(k, own, op, sign):
            def f(v):
                for m in subterms(v):
                    ls = leaves(m, k)
                    if any(call(x, own) for x in ls) and all(call(x, "min_x") or call(x, "max_x") for x in ls):
                        if fpoly(v) == fpoly(T(op, m, eps)):
                            return True
                return False
            return f
        return {"lower_bound": is_("fmin", "min_x", "fsub", -1), "upper_bound": is_("fmax", "max_x", "fadd", 1)}

    def apart(self, s, line, pos, nb):
        """The neighbour is known to be neither at that position nor before it."""
        n = self.ip.length(line)
        for k, out in ((pos, int_orders(s, pos, n) <= frozenset("=>")), (iadd(pos, I(-1)), int_orders(s, pos, I(0)) <= frozenset("=<"))):
            if not out and "=" in int_orders(s, self.num(self.ent(self.at(line, k), "seg")), self.num(nb)):
                return False
        return True

    # ---- a segment leaves

    def do_handle_exit(self):
        ip = self.ip
        pos = self.where(self.args[1])
        n = {}
        old = self.old["line"]
        for v, s in self.outs:
            new, what = self.rd(s, "line"), facts_show(s)[:400]
            o = self.ent(self.at(old, pos), "old_seg")
            d = s.facts.get(T("discr", o))
            gone_on = d == 1 and int_orders(s, self.num(fld(o, 0, 1)), self.num(self.args[1])) == frozenset("=")
            other = d in (0, frozenset([1])) or d == 1 and "=" not in int_orders(s, self.num(fld(o, 0, 1)), self.num(self.args[1]))
            if not self.ob("it matters whether the segment's contour goes on", gone_on or other, what):
                continue
            if gone_on:
                n["on"] = 1
                self.scans(s, set())
                self.same(s)
                continue
            ok = new[0] == "store" and new[1] is old and new[2] is pos and self.entry_is(new[3], s, self.at(old, pos), exit=T("b", True)) is None
            self.ob("the segment is marked to leave", ok, show(new)[:300])
            got = self.logged(s.mem[LOG], T("empty"))
            n["not" if got else "first"] = 1
            # (a neighbour that is to leave as well is passed over when its own turn comes)
            self.ob("its western neighbour is scanned from", self.west(s, got, pos, new, True, (new, old)), "%s where %s" % (show(s.mem[LOG])[:300], what))
            p = self.rd(s, "segs_needing_positions")
            self.ob("its position is noted", p is T("push", self.old["segs_needing_positions"], pos), show(p)[:200])
            self.same(s, "line", "segs_needing_positions")
        self.ob("all cases are there", len(n) == 3, str(n))

    def west(self, s, got, pos, line, next_will_do, lines):
        """Scans both ways from the nearest entry before this position that goes on below this height; none if there is none."""
        ip = self.ip
        if got is None or got and (len(got) != 2 or {x[2] for x in got} != {"left", "right"} or got[0][3] is not got[1][3] or any(x[4] not in lines for x in got)):
            return False
        if not got and int_orders(s, pos, I(0)) <= frozenset("=<"):
            return True
        k = got[0][3] if got else None
        if k is not None and isub(k, pos) is I(-1) and (next_will_do or "=" not in self.ending(s, line, k)):
            return True
        for r in ip.records:
            if r.no not in s.via or not r.back:
                continue
            for root, p, h in slots(ip, r.head):
                l = loop_at(ip, h)
                if l is None or l[0] != r.lid or h[0] == "agg":
                    continue
                for i, last in ((isub(h, I(1)), int_orders(s, h, I(0)) <= frozenset("=<")), (h, int_orders(s, h, I(0)) == frozenset("<")), (isub(isub(pos, I(1)), h), int_orders(s, h, pos) <= frozenset("=>"))):
                    if isub(at_entry(ip, r.lid, i) or T("?"), pos) is not I(-1):
                        continue
                    if not all(isub(after_step(ip, r.lid, i, b), i) is I(-1) and ">" not in self.ending(b, line, i) for b in r.back):
                        continue
                    if k is None and last or k is i and "=" not in self.ending(s, line, i):
                        return True
        return False

    def ending(self, s, line, i):
        """How the end of the segment of this entry compares with the current height."""
        segs = [self.num(self.ent(self.at(x, i), "seg")) for x in ([line, line[1]] if line[0] == "store" else [line])]     # (the entry marked is not before itself)
        for k in s.rel:
            for a, b in (k[:2], k[1::-1]):
                if b is self.old["y"]:
                    for x in subterms(a):
                        if x[0] == "call" and x[1].endswith("Segment::end") and unref(x[2])[0] == "sel" and unref(x[2])[2] in segs \
                                and a is self.ip.project(x, ("f", 0, field_index(self.P, CRATE + "geom::Point", "y")), None):
                            return flt_orders(s, a, b)
        return {"<", "=", ">", "u"}

    # ---- positions to look at

    def do_add_seg_needing_position(self):
        ip = self.ip
        pos, ins = self.args[1], self.args[2]
        n = {}
        for v, s in self.outs:
            self.same(s, "segs_needing_positions")
            new, old = self.rd(s, "segs_needing_positions"), self.old["segs_needing_positions"]
            b = s.facts.get(ins)
            if b is None:
                raise EngineError("whether it was inserted: %s" % facts_show(s)[:200])
            n[b] = 1
            if not self.ob("the position is noted", new[0] == "insert" and new[3] is pos, show(new)[:200]):
                continue
            L, k = new[1], new[2]
            self.ob("the list stays in order", self.in_order(s, L, k, pos), "%s at %s where %s" % (show(L)[:100], show(k)[:100], facts_show(s)[:300]))
            if b:
                l = loop_at(ip, L)
                if self.ob("positions from there on are moved up", l is not None and l[3] is old, show(L)[:200]):
                    for r in recs_of(ip, l[0], s):
                        if self.rd(r.head, "segs_needing_positions") is L:
                            self.shifting(r, L, pos)
            else:
                self.ob("no position moves where nothing is inserted", L is old, show(L)[:200])
        self.ob("both with and without an insertion", len(n) == 2, str(n))

    def shifting(self, r, L, pos):
        ip = self.ip
        n = ip.length(L)
        idx = None
        for b in r.back:
            new = self.rd(b, "segs_needing_positions")
            if new[0] == "store":
                idx = new[2]
        if idx is None:
            raise EngineError("no position is moved")
        step = {isub(after_step(ip, r.lid, idx, b), idx) for b in r.back}
        down = None
        if step == {I(-1)}:
            c = isub(n, iadd(idx, I(1)))
            down = at_entry(ip, r.lid, c) is I(0)
        elif step == {I(1)}:
            down = False if at_entry(ip, r.lid, idx) is I(0) else None
        if not self.ob("all positions are gone through", down is not None, show(idx)[:100]):
            return
        e = self.at(L, idx)
        for b in r.back:
            new = self.rd(b, "segs_needing_positions")
            o = int_orders(b, e, pos)
            if new is L:
                self.ob("only those before it are left alone", o == frozenset("<"), facts_show(b)[:300])
            else:
                ok = new[0] == "store" and new[1] is L and new[2] is idx and isub(new[3], e) is I(1)
                self.ob("positions not before it move up by one", ok and o <= frozenset("=>"), "%s where %s" % (show(new)[:200], facts_show(b)[:200]))
        for b in r.exit:
            end = int_orders(b, idx, I(0)) == frozenset("<") if down else int_orders(b, idx, n) <= frozenset("=>")
            end = end or down and int_orders(b, isub(isub(n, I(1)), idx), n) <= frozenset("=>")
            self.ob("until one that is before it", end or down and int_orders(b, e, pos) == frozenset("<"), facts_show(b)[:300])

    def in_order(self, s, L, k, pos):
        """Entries before k are smaller than pos, others are not (in an increasing list)."""
        ip = self.ip
        n = ip.length(L)
        if k[0] == "partition":
            return True
        for r in ip.records:
            if r.no not in s.via or self.rd(r.head, "segs_needing_positions") is not L:
                continue
            j = isub(k, I(1))
            if at_entry(ip, r.lid, k) is n and r.back and r.exit \
                    and all(isub(after_step(ip, r.lid, k, b), k) is I(-1) and int_orders(b, self.at(L, j), pos) <= frozenset("=>") for b in r.back) \
                    and all(int_orders(b, j, I(0)) == frozenset("<") or int_orders(b, self.at(L, j), pos) == frozenset("<") for b in r.exit):
                return True
            cs = [x for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == r.lid and x[0] == "loop" and x is not L]
            for c in cs:
                j = isub(isub(n, I(1)), c)       # goes down from the last one
                if at_entry(ip, r.lid, c) is not I(0) or not all(isub(after_step(ip, r.lid, c, b), c) is I(1) and int_orders(b, self.at(L, j), pos) <= frozenset("=>") for b in r.back):
                    continue
                if isub(k, iadd(j, I(1))) is I(0) and int_orders(s, self.at(L, j), pos) == frozenset("<"):
                    return True
                if k is I(0) and int_orders(s, c, n) <= frozenset("=>"):
                    return True
        return False

    # ---- an intersection

    def do_handle_intersection(self):
        ip, n = self.ip, {}
        self.left, self.right = self.args[1], self.args[2]
        self.l, self.r = self.where(self.left), self.where(self.right)
        self.order = variant_index(self.P, CRATE + "curve::Order", "Left")
        for v, s in self.outs:
            o = int_orders(s, self.l, self.r)
            what = facts_show(s)[:500]
            if o <= frozenset("=>"):
                n["touch"] = 1
                got = self.logged(s.mem[LOG], T("empty"))
                old = self.old["line"]
                want = {T("call", "scan", "right", self.r, old), T("call", "scan", "left", self.l, old)}
                self.ob("where the order is right already, the outer sides are scanned", got is not None and set(got) == want and len(got) == 2, show(s.mem[LOG])[:300])
                self.noted(s, self.r, self.l)
                self.same(s, "segs_needing_positions")
            elif o != frozenset("<"):
                self.ob("it matters which segment comes first", False, what)
            elif self.rd(s, "events") is not self.old["events"]:
                n["put off"] = 1
                self.put_off(s)
            else:
                n["exchange"] = 1
                self.exchange(s)
        self.ob("all cases are there", len(n) == 3, str(n))

    def noted(self, s, a, b):
        """The positions from a to b are added to those to look at."""
        ip = self.ip
        t = self.rd(s, "segs_needing_positions")
        l = loop_at(ip, t)
        if not self.ob("the positions involved are noted", l is not None and l[3] is self.old["segs_needing_positions"], show(t)[:200]):
            return
        for r in recs_of(ip, l[0], s):
            if self.rd(r.head, "segs_needing_positions") is not t:
                continue
            vs = set()
            for x in r.back:
                new = self.rd(x, "segs_needing_positions")
                ok = new[0] == "push" and new[1] is t and at_entry(ip, r.lid, new[2]) is a and isub(after_step(ip, r.lid, new[2], x), new[2]) is I(1)
                if self.ob("every position from one to the other is noted", ok, show(new)[:200]):
                    vs.add(new[2])
            for x in r.exit:
                self.ob("up to the last one", len(vs) == 1 and int_orders(x, next(iter(vs)), b) == frozenset(">"), facts_show(x)[:300])

    def order_of(self, s, a, b):
        """[(whether `a is left of b` at the current height is known, the end of the interval)]"""
        q = T("order", "comparisons", a, b)
        out = []
        for k in s.facts:
            if k[0] != "discr":
                continue
            x = k[1]
            c = x if x[0] == "call" else x[1] if x[0] == "fld" and x[1][0] == "call" else None
            if c is None or not c[1].endswith(("CurveOrder::entry_at", "CurveOrder::order_at")) or unref(c[2]) is not q or c[3] is not self.old["y"]:
                continue
            if c[1].endswith("entry_at") and x is not fld(c, 2):
                continue
            d = s.facts[k]
            out.append(((d == self.order) if not isinstance(d, frozenset) else False if self.order in d else None, fld(c, 1) if c[1].endswith("entry_at") else None))
        return out

    def leaving(self, s, e):
        """Is the entry that of a segment that will be gone? None if not known."""
        x = s.facts.get(self.ent(e, "exit"))
        d = s.facts.get(T("discr", self.ent(e, "old_seg")))
        if x is False or d in (1, frozenset([0])):
            return False
        return True if x is True and d in (0, frozenset([1])) else None

    def between(self, s):
        """The position between the two that a state of the first loop is about."""
        js = set()
        for k in s.facts:
            for x in subterms(k):
                if x[0] == "sel" and x[1] is self.old["line"]:
                    js.add(x[2])
        js -= {self.l, self.r}
        return js.pop() if len(js) == 1 else None

    def put_off(self, s):
        ip = self.ip
        ev = {n: field_index(self.P, SW + "IntersectionEvent", n) for n in ("y", "left", "right")}
        e = self.rd(s, "events")
        what = "%s where %s" % (show(e)[:300], facts_show(s)[:500])
        j = self.between(s)
        if j is None:
            raise EngineError("the one in between: %s" % what)
        seg = self.ent(self.at(self.old["line"], j), "seg")
        a, b = self.order_of(s, self.left, seg), self.order_of(s, seg, self.right)
        self.ob("only put off where one that stays is between the two", any(x for x, _ in a) and any(x for x, _ in b) and self.leaving(s, self.at(self.old["line"], j)) is False, what)
        ok = e[0] == "setinsert" and e[1] is self.old["events"]
        if self.ob("it is scheduled again, for the same two", ok and ip.project(e[2], ("f", 0, ev["left"]), s) is self.left and ip.project(e[2], ("f", 0, ev["right"]), s) is self.right, what):
            y = ip.project(e[2], ("f", 0, ev["y"]), s)
            self.ob("for when the first of the two orders ends", any(p is not None and q is not None and is_least(s, y, [p, q]) for _, p in a for _, q in b), what)
        self.scans(s, set())
        self.same(s, "events")

    def exchange(self, s):
        ip = self.ip
        self.same(s, "line", "segs_needing_positions")
        self.noted(s, self.l, self.r)
        line, log = self.rd(s, "line"), s.mem[LOG]
        l = loop_at(ip, line)
        if not self.ob("what was taken out is put back in a loop", l is not None, show(line)[:200]):
            return
        for r in recs_of(ip, l[0], s):
            if self.rd(r.head, "line") is not line:
                continue
            R = self.putting(r, line, s)
            if R is None:
                continue
            self.ob("nothing but the scans of the loops", r.head.mem[LOG] is log and loop_at(ip, log) is not None, show(log)[:200])
            if loop_at(ip, log) is None:
                continue
            line2, log2 = l[3], loop_at(ip, log)[3]
            l2 = loop_at(ip, line2)
            if not self.ob("the ones to move are taken out in a loop", l2 is not None, show(line2)[:200]):
                continue
            for r2 in recs_of(ip, l2[0], r.pre):
                if self.rd(r2.head, "line") is not line2:
                    continue
                M = self.taking(r2, line2, R)
                if M is None:
                    continue
                ok = any(isub(isub(self.at_pos, iadd(self.r, I(1))), T2) is I(0) for T2 in (isub(I(0), ip.length(M)), isub(I(0), ip.length(R))))
                self.ob("they are put back after the other segment", ok, show(self.at_pos)[:200])
                self.ob("no other scans", r2.head.mem[LOG] is log2 and loop_at(ip, log2) is not None and loop_at(ip, log2)[3] is T("empty"), show(log2)[:200])
                self.moved(M, r2.pre)
                self.marked(l2[3], r2.pre)

    def putting(self, r, line, s):
        """The loop that puts the entries back; returns the list of them."""
        ip, R = self.ip, set()
        self.at_pos = None
        for b in r.back:
            new = self.rd(b, "line")
            what = show(new)[:300]
            if not self.ob("one entry is put back at a time", new[0] == "insert" and new[1] is line and new[3][0] == "sel", what):
                return None
            p, (_, coll, k) = new[2], new[3]
            self.ob("in an order that restores the old one",
                    at_entry(ip, r.lid, p) in (None, p) and at_entry(ip, r.lid, k) is I(0) and isub(after_step(ip, r.lid, k, b), k) is I(1), what)
            self.at_pos = p
            R.add((coll, k))
            got = self.logged(b.mem[LOG], r.head.mem[LOG])
            self.ob("both ways are scanned from each that is put back", got is not None and len(got) == 2 and set(got) == self.both(p, new), show(b.mem[LOG])[:300])
        if not self.ob("they come from one list", len(R) == 1):
            return None
        coll, k = R.pop()
        self.ob("all of them are put back", len(r.exit) > 0 and all(exhausted(ip, x, coll, k) for x in r.exit), "")
        return coll

    def taking(self, r, line, R):
        """The loop that takes entries out of the line, into R; returns the list of their positions."""
        ip, M = self.ip, set()
        l = loop_at(ip, R)
        if not self.ob("what is taken out is kept", l is not None and l[0] == r.lid and l[3] is T("empty"), show(R)[:200]):
            return None
        loc = (l[1][1], l[2])
        for b in r.back:
            new = self.rd(b, "line")
            what = show(new)[:300]
            if not self.ob("one entry is taken out at a time", new[0] == "remove" and new[1] is line and new[2][0] == "sel", what):
                return None
            j = new[2]
            kept = pushed(ip, r.head, b, *loc)
            self.ob("and kept", kept is not None and len(kept) == 1 and kept[0] is self.at(line, j), str([show(x)[:200] for x in kept or ()]))
            coll, k = j[1], j[2]
            n = ip.length(coll)
            self.ob("from the last one to the first", at_entry(ip, r.lid, isub(isub(n, I(1)), k)) is I(0) and isub(after_step(ip, r.lid, k, b), k) is I(-1), show(k)[:200])
            M.add((coll, k))
            got = self.logged(b.mem[LOG], r.head.mem[LOG])
            self.ob("where a segment to the west goes on, the nearest one is scanned from", self.west(b, got, j, new, False, (new,)), "%s where %s" % (show(b.mem[LOG])[:300], facts_show(b)[:300]))
        if not self.ob("the positions come from one list", len(M) == 1):
            return None
        coll, k = M.pop()
        n = ip.length(coll)
        self.ob("all of them are taken out", len(r.exit) > 0 and all(int_orders(x, k, I(0)) == frozenset("<") or int_orders(x, isub(isub(n, I(1)), k), n) <= frozenset("=>")
                                                                        or exhausted(ip, x, coll, isub(isub(n, I(1)), k)) for x in r.exit), "")
        return coll

    def moved(self, M, st):
        """The list of positions of what moves: the left one and those strictly right of it."""
        ip = self.ip
        l = loop_at(ip, M)
        if not self.ob("the left one moves first of all", l is not None and l[3] is T("push", T("empty"), self.l), show(M)[:200]):
            return
        loc, old = (l[1][1], l[2]), self.old["line"]
        for r in recs_of(ip, l[0], st):
            if ip.read_loc(r.head, loc) is not M:
                continue
            js = {new[0] for b in r.back for new in (pushed(ip, r.head, b, *loc),) if new and len(new) == 1}
            if not self.ob("those that move are noted one at a time", len(js) == 1):
                continue
            j = js.pop()
            self.ob("all between the two are looked at", at_entry(ip, r.lid, j) is iadd(self.l, I(1)) and all(isub(after_step(ip, r.lid, j, b), j) is I(1) for b in r.back), show(j)[:100])
            self.ob("and no others", all(int_orders(b, j, self.r) == frozenset("<") for b in r.back), show(j)[:100])
            for b in r.back:
                new = pushed(ip, r.head, b, *loc)
                what = facts_show(b)[:600]
                e = self.at(old, j)
                seg = self.ent(e, "seg")
                gone = self.leaving(b, e)
                a, c = self.order_of(b, self.left, seg), self.order_of(b, seg, self.right)
                if new is not None and len(new) == 0:
                    self.ob("only those that leave, or are not right of the left one, stay", gone is True or any(x is False for x, _ in a), what)
                else:
                    ok = new is not None and len(new) == 1 and new[0] is j and gone is False and any(x for x, _ in a)
                    self.ob("those right of the left one move along", ok, what)
                    self.ob("unless they are left of the right one", any(x is False for x, _ in c), what)
                self.ob("nothing else happens meanwhile", all(self.rd(b, n) is self.rd(r.head, n) for n in self.paths) and b.mem[LOG] is r.head.mem[LOG], what)
            for x in r.exit:
                if self.rd(x, "events") is self.old["events"] and not any(y for y, _ in self.order_of(x, self.ent(self.at(old, j), "seg"), self.right)):
                    self.ob("up to the right one", int_orders(x, j, self.r) <= frozenset("=>"), facts_show(x)[:400])

    def marked(self, line, st):
        """Where entries were before is remembered for all from the left to the right one."""
        ip, old = self.ip, self.old["line"]
        l = loop_at(ip, line)
        if not self.ob("the old positions are kept", l is not None and l[3] is old, show(line)[:300]):
            return
        for r in recs_of(ip, l[0], st):
            if self.rd(r.head, "line") is not line:
                continue
            idx = {new[2] for b in r.back for new in (self.rd(b, "line"),) if new[0] == "store"}
            if not self.ob("one at a time", len(idx) == 1, str(len(idx))):
                continue
            k = idx.pop()
            self.ob("from the left to the right one", at_entry(ip, r.lid, k) is self.l and all(isub(after_step(ip, r.lid, k, b), k) is I(1) for b in r.back), show(k)[:200])
            e = self.at(line, k)
            for b in r.back:
                new, what = self.rd(b, "line"), facts_show(b)[:400]
                d = b.facts.get(T("discr", self.ent(e, "old_idx")))
                if new is line:
                    self.ob("an old position that is known stays", d in (1, frozenset([0])), what)
                else:
                    bad = self.entry_is(new[3], b, e, old_idx=some(k)) if new[0] == "store" and new[1] is line else "?"
                    self.ob("the position is kept as the old one, if none was known", bad is None and d in (0, frozenset([1])), "%s %s" % (bad, what))
                self.ob("no scans meanwhile", b.mem[LOG] is r.head.mem[LOG])
            for x in r.exit:
                o = int_orders(x, k, self.r)
                self.ob("including the right one", o == frozenset(">"), "%s %s" % (show(k)[:100], facts_show(x)[:400]))


def apart_by(k):
    """Facts that keep states apart: what enums are, and what stands where a segment belongs."""
    if k[0] == "diff":
        return any(contains(t, lambda x: x[0] == "call" and x[1].endswith("insertion_idx")) for t, _ in k[1])
    return k[0] == "discr"


def unstar(t):
    while t[0] in ("*", "&"):
        t = t[1]
    return t

