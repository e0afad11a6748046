"""The event queue is interpreted abstractly (all combinations of what is left in it and of how the heights compare), and
so is the function that moves the sweep on, with its steps recorded in a log: what it does on every path is compared with
the order of steps that the sweep needs, loops being covered by what each way through them adds to the log."""
from lib import *
from models import NONE, some, refto, deref

FLOOR = 25
SW = CRATE + "sweep::sweep_line::"
EQ = SW + "EventQueue"
LOG = ("H", ("log",))


def run(ctx):
    ctx.rule("the next height is the least of the heights of what is left; exactly what is due is taken; entrances, then exits, then intersections are handled, all of them")
    ctx.assumption("entrances and exits are in order of height (P06), and the least intersection is the lowest (P12)")
    q = Queue(ctx)
    for n in ("next_y", "entrances", "exits", "intersections", "push", "next_line"):
        ctx.guard(n, EQ, getattr(q, n))


def some_of(s, t):
    """Is an optional value there?  (None if not known)"""
    d = s.facts.get(T("discr", t))
    if isinstance(d, frozenset):
        return {frozenset((0,)): True, frozenset((1,)): False}.get(d)
    return None if d is None else d == 1


class Queue:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.f = {n: field_index(self.P, EQ, n) for n in ("next_enter_idx", "next_exit_idx", "intersection")}
        self.s = {n: field_index(self.P, CRATE + "segments::Segments", n) for n in ("enter", "exit")}
        self.e = {n: field_index(self.P, SW + "IntersectionEvent", n) for n in ("y", "left", "right")}

    def state(self, ip, ref):
        me = T("*", ref)
        return {n: ip.project(me, ("f", 0, i), None) for n, i in self.f.items()}

    def now(self, ip, ref, s, n):
        root, path = ip.target(ref)
        return ip.read_loc(s, (root, path + (("f", 0, self.f[n]),)))

    def same(self, inst, ip, ref, s, but=()):
        was = self.state(ip, ref)
        for n in self.f:
            if n not in but:
                x = self.now(ip, ref, s, n)
                self.ctx.ob("%s leaves %s alone" % (inst["name"], n), x is was[n], inst, show(x)[:200])

    # ---- the next height

    def next_y(self):
        inst = self.P.one(key=EQ + "::next_y")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        was = self.state(ip, args[0])
        segs = T("*", args[1])
        lists = [(ip.project(segs, ("f", 0, self.s[a]), None), was[b]) for a, b in (("enter", "next_enter_idx"), ("exit", "next_exit_idx"))]
        least = T("least", was["intersection"])
        hs = [("an entrance", lists[0][1], ip.length(lists[0][0]), ip.project(T("sel", lists[0][0], lists[0][1]), ("f", 0, 0), None)),
              ("an exit", lists[1][1], ip.length(lists[1][0]), ip.project(T("sel", lists[1][0], lists[1][1]), ("f", 0, 0), None)),
              ("an intersection", I(0), ip.length(was["intersection"]), ip.project(least, ("f", 0, self.e["y"]), None))]
        seen = set()
        for v, s in outs:
            self.same(inst, ip, args[0], s)
            left = []
            for name, i, n, y in hs:
                o = int_orders(s, i, n)
                if "<" in o and len(o) > 1:
                    raise EngineError("whether %s is left: %s" % (name, facts_show(s)[:300]))
                if o <= {"<"}:
                    left.append((name, y))
            names = ", ".join(n for n, _ in left) or "nothing"
            seen.add(len(left))
            what = "%s where %s" % (show(v)[:200], facts_show(s)[:400])
            if not left:
                self.ctx.ob("no height once nothing is left", v is NONE, inst, what)
                continue
            some_ = v[0] == "agg" and v[2] == 1
            self.ctx.ob("a height as long as %s is left" % names, some_, inst, what)
            if some_:
                y = v[3]
                lv = [x for x in self.leaves(y) if x is not F(float("inf"))]
                ok = y[0] == "fmin" and set(lv) == {z for _, z in left} or any(y is z for _, z in left) and all(y is z or set(flt_orders(s, y, z, False)) - {"u"} <= {"<", "="} or self.chained(s, y, z, left) for _, z in left)
                self.ctx.ob("the least height of %s" % names, ok, inst, what)
        self.ctx.ob("all combinations of what is left", seen == {0, 1, 2, 3}, inst, str(seen))

    def leaves(self, y):
        """What y is the smallest of."""
        return self.leaves(y[1]) + self.leaves(y[2]) if y[0] == "fmin" else [y]

    def chained(self, s, y, z, left):
        return any(set(flt_orders(s, y, m, False)) - {"u"} <= {"<", "="} and set(flt_orders(s, m, z, False)) - {"u"} <= {"<", "="} for _, m in left if m is not y and m is not z)

    # ---- what is due

    def entrances(self):
        self.due("entrances_at_y", "enter", "next_enter_idx")

    def exits(self):
        self.due("exits_at_y", "exit", "next_exit_idx")

    def due(self, name, lst, idx):
        inst = self.P.one(key=EQ + "::" + name)
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        was = self.state(ip, args[0])
        k0 = was[idx]
        L = ip.project(T("*", args[2]), ("f", 0, self.s[lst]), None)
        n = ip.length(L)
        y = T("*", args[1])
        at = lambda k: ip.project(T("sel", L, k), ("f", 0, 0), None)
        late = lambda s, k: not set(flt_orders(s, at(k), y, False)) - {">", "u"}
        for v, s in outs:
            self.same(inst, ip, args[0], s, (idx,))
            end = self.now(ip, args[0], s, idx)
            what = "%s, next %s, where %s" % (show(v)[:200], show(end)[:100], facts_show(s)[:300])
            self.ctx.ob("%s: what is given out is what is passed" % name, self.slice_is(ip, s, v, L, k0, end), inst, what)
            # the end is at the first one that is late, or at the end of the list
            stop = int_orders(s, end, n) <= frozenset("=>") or late(s, end)
            self.ctx.ob("%s stops only before a later height" % name, stop, inst, what)
            self.ctx.ob("%s passes over nothing that is later" % name, self.all_due(ip, s, end, k0, L, at, y, n), inst, what)

    def slice_is(self, ip, s, v, L, a, b):
        """v is a reference to the elements a..b of L."""
        try:
            root, path = ip.target(v)
        except ANALYSIS_ERRORS:
            return False
        lo, hi = I(0), None
        k = len(path)
        while k and path[k - 1][0] == "slc":
            k -= 1
        for e in path[k:]:
            lo, hi = iadd(lo, e[1]), iadd(lo, e[2])
        base = ip.read_loc(s, (root, path[:k]))
        eq = lambda x, z: x is z or int_orders(s, x, z) == frozenset("=")
        return base is L and hi is not None and eq(lo, a) and eq(hi, b)

    def all_due(self, ip, s, end, k0, L, at, y, n):
        """Everything from k0 to end is not later than y."""
        due = lambda st, k: not set(flt_orders(st, at(k), y, False)) - {"<", "=", "u"}
        counts = isub(end, k0)
        c = [t for t in subterms(end) if t[0] == "loop"]
        if not c:
            c = self.counters(ip, s, L, n)
        for t in c:
            if at_entry(ip, t[1], t) is not I(0) and at_entry(ip, t[1], t) is not k0:
                continue
            shift = k0 if at_entry(ip, t[1], t) is I(0) else I(0)
            # the end is where the counter is, or at the end of the list when it is exhausted
            if not (iadd(shift, t) is end or int_orders(s, iadd(shift, t), n) <= frozenset("=>") and int_orders(s, end, n) == frozenset("=")):
                continue
            ok, back = True, 0
            for r in recs_of(ip, t[1], s):
                for b in r.back:
                    d = after_step(ip, t[1], t, b)
                    if isub(d, t) is I(0):
                        continue
                    back += 1
                    ok = ok and isub(d, t) is I(1) and due(b, iadd(shift, t))
            if ok and back:
                return True
        # found by bisection: sorted, so the last one decides
        for t in subterms(end):
            if t[0] == "partition" and isub(counts, t) is I(0):
                return int_orders(s, t, I(0)) == frozenset("=") or due(s, isub(end, I(1)))
        return int_orders(s, counts, I(0)) == frozenset("=")

    def counters(self, ip, s, L, n):
        out = []
        for r in ip.records:
            for _, _, x in slots(ip, r.head):
                l = loop_at(ip, x)
                if l and l[0] == r.lid and x not in out and lin_of(x) is not None:
                    out.append(x)
        return out

    def intersections(self):
        inst = self.P.one(key=EQ + "::next_intersection_at_y")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        S = self.state(ip, args[0])["intersection"]
        least = T("least", S)
        h = ip.project(least, ("f", 0, self.e["y"]), None)
        n = {True: 0, False: 0}
        for v, s in outs:
            self.same(inst, ip, args[0], s, ("intersection",))
            now = self.now(ip, args[0], s, "intersection")
            what = "%s where %s" % (show(v)[:200], facts_show(s)[:300])
            hit = not (v[0] == "agg" and v[2] == 0)
            n[hit] += 1
            empty = int_orders(s, ip.length(S), I(0)) <= frozenset("=<")
            if hit:
                self.ctx.ob("an intersection that is given out is the first", all(ip.project(fld(v, 0, 1) if v[0] != "agg" else v[3], ("f", 0, i), s) is ip.project(least, ("f", 0, i), None) for i in self.e.values()), inst, what)
                self.ctx.ob("and it is removed", now is T("without", S, least), inst, show(now)[:200])
                self.ctx.ob("and it is due", not empty and not set(flt_orders(s, h, args[1], False)) - {"=", "<", "u"}, inst, what)
            else:
                self.ctx.ob("nothing is removed where nothing is given out", now is S, inst, show(now)[:200])
                self.ctx.ob("no intersection only if the first is not at this height", empty or "=" not in flt_orders(s, h, args[1], False), inst, what)
        self.ctx.ob("intersections are given out", n[True] > 0 and n[False] > 0, inst, str(n))

    def push(self):
        inst = self.P.one(key=EQ + "::push")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        for v, s in outs:
            self.same(inst, ip, args[0], s, ("intersection",))
            now = self.now(ip, args[0], s, "intersection")
            ok = now[0] == "setinsert" and now[1] is self.state(ip, args[0])["intersection"] and all(ip.project(now[2], ("f", 0, i), s) is ip.project(args[1], ("f", 0, i), None) for i in self.e.values())
            self.ctx.ob("a new intersection is kept along with the others", ok, inst, show(now)[:300])

    # ---- one step of the sweep

    def next_line(self):
        inst = next(i for i in self.P.by_id.values() if i["key"].startswith(SW + "Sweeper::") and i["name"] == "next_line")
        log = lambda s: s.mem[LOG]

        def step(name, argnos):
            def f(ip, fn, args, atys, rty, s, site, fr):
                st = s.copy()
                ip.write_loc(st, (LOG, ()), T("push", log(s), T("call", name, *[ip.content(args[i], s) for i in argnos])))
                return [(engine.UNIT, st)]
            return f

        def events(name):
            def f(ip, fn, args, atys, rty, s, site, fr):
                root = ("H", (name,))
                st = s.copy()
                st.mem[root] = T("sym", name, deref(ip, s, args[1]))
                return [(T("ref", root, ()), st)]
            return f

        def nextint(ip, fn, args, atys, rty, s, site, fr):
            return [(T("intersection", args[1], log(s)), s)]
        key = lambda n, ty="Sweeper": next(i["path"] for i in self.P.by_id.values() if i["key"].startswith(SW + ty) and i["name"] == n and i["body"])
        mods = {key("advance"): step("advance", (1,)), key("handle_enter"): step("enter", (1,)), key("handle_exit"): step("exit", (1,)),
                key("handle_intersection"): step("intersection", (1, 2)), key("compute_changed_intervals"): step("changed", ()),
                key("entrances_at_y", "EventQueue"): events("entrances"), key("exits_at_y", "EventQueue"): events("exits"),
                key("next_intersection_at_y", "EventQueue"): nextint}
        ip = self.ctx.interp(["re:EventQueue::next_y$"], models=mods, keep_rel=True)
        args = ip.sym_args(inst)
        st = State()
        st.mem[LOG] = T("empty")
        outs = ip.run(inst, args, st)
        self.ctx.funcs |= ip.analysed
        call = lambda t, n: t[0] == "push" and t[2][1] == n
        seen = {True: 0, False: 0}
        for v, s in outs:
            t = log(s)
            what = "%s where %s" % (show(t)[:400], facts_show(s)[:300])
            ny = [k[1] for k in s.facts if k[0] == "discr" and k[1][0] == "call" and k[1][1].endswith("next_y")]
            if len(ny) != 1 or some_of(s, ny[0]) is None:
                raise EngineError("whether there is a next height: %s" % facts_show(s)[:300])
            there = some_of(s, ny[0])
            seen[there] += 1
            if not there:
                self.ctx.ob("the sweep ends where there is no next height, and does nothing", v is NONE and t is T("empty"), inst, what)
                continue
            y = fld(ny[0], 0, 1)
            self.ctx.ob("a line for every height", v[0] == "agg" and v[2] == 1, inst, show(v)[:200])
            i0 = ip.project(v[3], ("f", 0, field_index(self.P, SW + "SweepLine", "next_changed_interval")), s)
            self.ctx.ob("none of its changed intervals is passed over", i0 is I(0), inst, show(i0))
            self.ctx.ob("changed intervals are collected last", call(t, "changed"), inst, what)
            t = t[1]
            # intersections until there is none
            l3 = self.section(inst, ip, t, s, "intersections", lambda b, h: T("call", "intersection", *self.sides(ip, fld(T("intersection", y, h), 0, 1))))
            self.ctx.ob("intersections are handled until none is left at this height", some_of(s, T("intersection", y, t)) is False, inst, what)
            if l3 is None:
                continue
            for name, fn, prev in (("exits", "exit", None), ("entrances", "enter", None)):
                coll = T("sym", name, y)
                here = l3
                l3 = self.section(inst, ip, here, s, name, lambda b, h: ("each", fn, coll))
                if l3 is None:
                    break
            if l3 is None:
                continue
            self.ctx.ob("the sweep line moves to this height before anything is handled", l3 is T("push", T("empty"), T("call", "advance", y)), inst, show(l3)[:300])
        self.ctx.ob("both with and without a next height", all(seen.values()), inst, str(seen))

    def sides(self, ip, ev):
        return [ip.project(ev, ("f", 0, self.e[n]), None) for n in ("left", "right")]

    def section(self, inst, ip, t, s, name, want):
        """The log is that of a loop each step of which adds what it should; returns the log before the loop."""
        l = loop_at(ip, t)
        if l is None:
            self.ctx.fail("%s are handled in a loop of their own, in order" % name, inst, show(t)[:300])
            return None
        n = 0
        for r in recs_of(ip, l[0], s):
            h = next(x for root, p, x in slots(ip, r.head) if root == LOG)
            for b in r.back:
                new = b.mem[LOG]
                w = want(b, h)
                what = "%s becomes %s" % (show(h)[:60], show(new)[:300])
                if isinstance(w, tuple) and not isinstance(w, Term) and w[0] == "each":
                    _, fn, coll = w
                    ok = new[0] == "push" and new[1] is h and new[2][1] == fn and len(new[2]) == 3
                    self.ctx.ob("each of the %s is handled once" % name, ok, inst, what)
                    if not ok:
                        continue
                    e = new[2][2]
                    ks = [x[2] for x in subterms(e) if x[0] == "sel" and x[1] is coll]
                    k = ks[0] if len(set(ks)) == 1 else None
                    good = k is not None and loop_at(ip, k) and loop_at(ip, k)[0] == l[0] and at_entry(ip, l[0], k) is I(0) and isub(after_step(ip, l[0], k, b), k) is I(1)
                    self.ctx.ob("all %s in turn" % name, bool(good), inst, what)
                    if good:
                        self.ctx.ob("the segment of one of the %s" % name, e is ip.project(T("sel", coll, k), ("f", 0, 1), None), inst, show(e)[:200])
                        self.ctx.ob("%s until the last" % name, exhausted(ip, s, coll, k), inst, facts_show(s)[:300])
                else:
                    self.ctx.ob("each of the %s is handled once, its sides as they are" % name, new is T("push", h, w), inst, what)
                n += 1
        self.ctx.ob("%s are handled" % name, n > 0, inst)
        return l[3]
