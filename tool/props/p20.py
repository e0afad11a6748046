"""The changed intervals are found by interpreting their computation as a whole: the final list is taken apart into merging,
sorting and the loops that add to it; how far each interval reaches is decided by induction over the steps of its loop."""
from props.linectx import *

FLOOR = 40
CI = SW + "ChangedInterval"


def run(ctx):
    ctx.rule("changed intervals cover what horizontal segments, ends of segments and noted positions touch; their entries are marked; overlapping ones are merged")
    ctx.assumption("comparisons of segments are those of the caches (P24); the ordered tree is a sequence (P64)")
    c = Changed(ctx)
    ctx.guard("changed intervals", SWEEPER, c.run)


class Changed:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def ob(self, name, ok, detail=""):
        self.ctx.ob(name, ok, self.inst, detail)
        return ok

    def run(self):
        P, ctx = self.P, self.ctx
        self.inst = method(P, "compute_changed_intervals")
        self.paths = {n: (("f", 0, i),) for i, n in enumerate(fields(P, SWEEPER))}
        self.paths["line"] = path_of(P, "line") + (("f", 0, field_index(P, SW + "SegmentOrder", "segs")),)
        self.e = {n: field_index(P, SW + "SegmentOrderEntry", n) for n in fields(P, SW + "SegmentOrderEntry")}
        opaque = GEOM + ["re:CurveOrder::(next_touch_after|entry_at|order_at|order_after)$"]
        ip = self.ip = ctx.interp(opaque, models=line_models(P), keep_rel=True, pull=True,
                                  keep_facts=lambda k: k[0] == "discr" or k[0] == "diff" and any(self.bound(a) for a, _ in k[1]) or k[0] == "fld" and k[2:] in ((0, self.e["enter"]), (0, self.e["exit"])))
        args = ip.sym_args(self.inst)
        self.root, _ = ip.target(args[0])
        me = T("*", args[0])
        self.ci = {n: field_index(P, CI, n) for n in fields(P, CI)}
        self.old = {n: self.parts(me, p) for n, p in self.paths.items()}
        self.left = variant_index(P, CRATE + "curve::Order", "Left")
        outs = ip.run(self.inst, args, State())
        ctx.funcs |= ip.analysed
        self.ob("there are results", len(outs) > 0)
        self.flags()
        self.kinds, self.done = {}, set()
        for v, s in outs:
            bad = [n for n in self.paths if n not in ("line", "horizontals", "changed_intervals") and self.rd(s, n) is not self.old[n]]
            self.ob("only entries' marks, the horizontal segments' order and the changed intervals are touched", not bad, str(bad))
            x = self.merging(s, self.rd(s, "changed_intervals"))
            if x is not None:
                self.adding(s, x)
        for k in ("horizontal", "end", "position"):
            self.ob("there are intervals for %s" % {"horizontal": "horizontal segments", "end": "ends of segments", "position": "noted positions"}[k], k in self.kinds.values())

    # ---- reading

    def bound(self, t):
        """Where an interval begins or ends."""
        return t[0] == "fld" and t[1][0] == "fld" and t[1][2:] == (0, self.ci["segs"]) and t[1][1][0] in ("sel", "item")

    def rd(self, s, name):
        return self.ip.read_loc(s, (self.root, self.paths[name]))

    def parts(self, v, path):
        for e in path:
            v = self.ip.project(v, e, None)
        return v

    def f(self, v, i, s=None, var=0):
        return self.ip.project(v, ("f", var, i), s)

    def ent(self, e, name, s=None):
        return self.f(e, self.e[name], s)

    def is_line(self, t):
        while t[0] == "store":
            t = t[1]
        if t is self.old["line"]:
            return True
        l = loop_at(self.ip, t)
        return l is not None and l[1] is T("root", self.root) and l[2] == self.paths["line"]

    def position(self, t):
        """The position whose entry's segment this segment index is."""
        if t[0] == "fld" and t[2:] == (0, self.e["seg"]) and t[1][0] == "sel" and self.is_line(t[1][1]):
            return t[1][2]
        return None

    def segment(self, t):
        """The segment index behind a reference to a segment."""
        t = unref(t)
        ok = t[0] == "sel" and contains(t[1], lambda x: x is self.old["segments"] or x is T("*", self.old["segments"]))
        return t[2][1] if ok and t[2][0] == "fld" and t[2][2:] == (0, 0) else None

    def some(self, t, s):
        """The content of an Option known to be there; None if it is known not to be; False if neither."""
        if t[0] == "agg":
            return t[3] if t[2] == 1 else None
        if t[0] == "upd" and t[2][0] == "f" and t[2][1] == 1:
            return self.f(t, 0, s, 1)
        d = s.facts.get(T("discr", t))
        if d in (1, frozenset([0])):
            return self.f(t, 0, s, 1)
        return None if d in (0, frozenset([1])) else False

    # ---- marks

    def flags(self):
        """Entries only ever change their marks."""
        n = 0
        for r in self.ip.records:
            h = self.rd(r.head, "line")
            for b in r.back + r.exit:
                t = self.rd(b, "line")
                while t[0] == "store":
                    n += 1
                    e = T("sel", t[1], t[2])
                    bad = []
                    for name in self.e:
                        v = self.ent(t[3], name, b)
                        if v is self.same(e, name, b) or v is self.ent(e, name):
                            continue
                        if name == "old_idx" and v is some(t[2]) or name == "in_changed_interval" and v is T("b", True):
                            continue
                        bad.append("%s: %s" % (name, show(v)[:200]))
                    self.ob("entries only get marks: that they are in an interval, and their own position", not bad, "; ".join(bad))
                    t = t[1]
        self.ob("entries get marks", n > 0)

    def same(self, e, name, s):
        return self.ent(self.ip.select(e[1], e[2], s), name, s)

    def marked(self, s, line, j, flag=False):
        e = self.ip.select(line, j, s)
        o = self.some(self.ent(e, "old_idx", s), s)
        if o is None or o is False:
            return False
        f = self.ent(e, "in_changed_interval", s)
        return not flag or f is T("b", True) or s.facts.get(f) is True

    def run_marked(self, s, line, before, a, z):
        """Between `before` and `line`, the entries from a to z (exclusive) got both marks."""
        ip = self.ip
        l = loop_at(ip, line)
        if l is None or l[3] is not before:
            return "not marked in a loop of their own: %s" % show(line)[:200]
        n = 0
        for r in recs_of(ip, l[0], s):
            if self.rd(r.head, "line") is not line:
                continue
            js = set()
            for b in r.back:
                n += 1
                new = self.rd(b, "line")
                if new[0] != "store" or new[1] is not line or not self.marked(b, new, new[2], True):
                    return "%s is left unmarked where %s" % (show(new)[:200], facts_show(b)[:200])
                js.add(new[2])
            if len(js) != 1:
                continue
            j = js.pop()
            if at_entry(ip, r.lid, j) is not a or any(isub(after_step(ip, r.lid, j, b), j) is not I(1) for b in r.back):
                return "the marks do not go upwards from %s: %s" % (show(a)[:100], show(j)[:100])
            for x in r.exit:
                if not int_orders(x, j, z) <= frozenset("=>"):
                    return "the marks end before %s" % show(z)[:100]
        return "" if n else "nothing is marked"

    # ---- merging

    def merging(self, s, t):
        """The final list: the intervals merged.  Returns them unmerged, sorted by where they start."""
        ip = self.ip
        if t[0] == "sorted":
            return self.sorting(s, t) if self.ob("intervals are left alone only if there is none", int_orders(s, ip.length(t), I(0)) <= frozenset("<="), show(t)[:200]) else None
        cut, lst = None, t
        if t[0] == "slice":
            if not self.ob("the merged intervals stand at the front", t[2] is I(0), show(t)[:200]):
                return None
            lst, cut = t[1], t[3]
        l = loop_at(ip, lst)
        if l is None and lst[0] == "dedup" and len(lst) == 3:
            self.by_closure(lst[2])
            return self.sorting(s, lst[1])
        if l is None and lst[0] == "push" and lst[1] is T("empty") and lst[2][0] in ("sel", "item"):
            return self.sorting(s, self.base(lst[2][1]))     # a single interval in a new list
        if not self.ob("intervals are merged in a loop", l is not None, show(t)[:200]):
            return None
        src = None
        for r in recs_of(ip, l[0], s):
            loc = (l[1][1], l[2])
            if ip.read_loc(r.head, loc) is not lst:
                continue
            place = l[1] is T("root", self.root) and l[2] == self.paths["changed_intervals"]
            src = self.in_place(r, lst, l, s, t, cut) if place else self.new_list(r, lst, l, s, loc)
            if src is None:
                return None
        if not self.ob("intervals are merged in a loop of this kind", src is not None, show(t)[:200]):
            return None
        return self.sorting(s, src)

    def base(self, t):
        l = loop_at(self.ip, t)
        return l[3] if l is not None and l[3][0] == "sorted" else t

    def in_place(self, r, lst, l, s, t, cut):
        ip = self.ip
        ws, rs = set(), set()
        for b in r.back:
            new = self.rd(b, "changed_intervals")
            what = "%s where %s" % (show(new)[:400], facts_show(b)[-300:])
            if not self.ob("one interval is written at a time", new[0] == "store" and new[1] is lst, what):
                return None
            p, v = new[2], new[3]
            cur = {x for x in subterms(v) if x[0] == "sel" and x[1] is lst}
            for w in [x for _, _, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == r.lid]:
                if isub(p, w) is I(1) or p is w:
                    if isub(after_step(ip, r.lid, w, b), w) in (I(0), I(1)) and not any(x[2] is w and not isub(p, w) is I(0) for x in cur):
                        ws.add(w)
                        rs |= {x[2] for x in cur if x[2] is not w}
        if not self.ob("there is one place of writing and one of reading", len(ws) == 1 and len(rs) == 1, "%s %s" % ([show(x)[:100] for x in ws], [show(x)[:100] for x in rs])):
            return None
        w, k = ws.pop(), rs.pop()
        self.ob("the first interval is kept, reading begins with the second", at_entry(ip, r.lid, w) is I(0) and at_entry(ip, r.lid, k) is I(1), "%s %s" % (show(w)[:100], show(k)[:100]))
        for b in r.back:
            new = self.rd(b, "changed_intervals")
            self.ob("the intervals are read one after the other", isub(after_step(ip, r.lid, k, b), k) is I(1))
            step = isub(after_step(ip, r.lid, w, b), w)
            self.merged(b, T("sel", lst, w), T("sel", lst, k), new[3], isub(new[2], w), step)
        self.ob("all of them are read", len(r.exit) > 0 and all(exhausted(ip, x, l[3], k) or exhausted(ip, x, lst, k) for x in r.exit))
        end = iadd(w, I(1))
        self.ob("what was written is kept, the rest is cut off", cut is end if cut is not None else int_orders(s, end, ip.length(lst)) <= frozenset("=>"), show(t)[:200])
        return l[3]

    def new_list(self, r, lst, l, s, loc):
        ip = self.ip
        srcs = set()
        n = ip.length(lst)
        for b in r.back:
            new = ip.read_loc(b, loc)
            what = "%s where %s" % (show(new)[:400], facts_show(b)[-300:])
            if new[0] in ("push", "store"):
                srcs |= {(x[1], x[2]) for x in subterms(new[-1]) if x[0] in ("sel", "item") and (x[1][0] == "sorted" or self.base(x[1]) is not x[1])}
            if not self.ob("an interval is added, or the last one extended", new[0] == "store" and new[1] is lst and isub(n, new[2]) is I(1) or new[0] == "push" and new[1] is lst, what):
                return None
        if not self.ob("intervals are read from one list", len(srcs) == 1):
            return None
        src, k = srcs.pop()
        for b in r.back:
            new = ip.read_loc(b, loc)
            if int_orders(b, n, I(0)) == frozenset("="):
                self.ob("the first interval is kept", new[0] == "push" and all(self.f(new[2], i, b) is self.f(T("sel", src, k), i, b) for i in self.ci.values()), show(new)[:200])
                continue
            last = T("sel", lst, isub(n, I(1)))
            if new[0] == "push":
                self.merged(b, last, T("sel", src, k), new[2], I(1), I(1))
            else:
                self.merged(b, last, T("sel", src, k), new[3], I(0), I(0))
        first = at_entry(ip, r.lid, k)
        self.ob("the intervals are read one after the other", all(isub(after_step(ip, r.lid, k, b), k) is I(1) for b in r.back))
        self.ob("beginning with the first", first is I(0) and l[3] is T("empty") or first is I(1) and l[3] is T("push", T("empty"), T("sel", src, I(0))), show(l[3])[:200])
        self.ob("all of them are read", len(r.exit) > 0 and all(exhausted(ip, x, src, k) for x in r.exit))
        return self.base(src)

    def by_closure(self, f):
        """What is asked about an interval and the last one kept, when repeated ones are dropped."""
        if f in self.done:
            return
        self.done.add(f)
        ok = f[0] == "agg" and isinstance(f[1], tuple) and f[1][0] == "closure"
        if not self.ob("what decides about merging is known", ok, show(f)[:200]):
            return
        inst = self.P.by_id[f[1][2]]
        ip, st = self.ctx.interp([], keep_rel=True, keep_facts=lambda k: k[0] == "discr"), State()
        roots = [("H", "interval"), ("H", "last interval")]
        cur, last = vals = [T("sym", r[1]) for r in roots]
        for r, v in zip(roots, vals):
            st.mem[r] = v
        env = f
        if self.P.types[inst["body"]["locals"][1]]["k"] == "ref":
            st.mem[("H", "closure")] = f
            env = T("ref", ("H", "closure"), ())
        outs = ip.run(inst, [env] + [T("ref", r, ()) for r in roots], st)
        self.ctx.funcs |= ip.analysed
        self.ob("merging is decided", len(outs) > 0)
        mine, self.ip = self.ip, ip
        for v, s in [(T("b", x), s1) for v, s in outs for x in (True, False) for s1 in ([s] if v is T("b", x) else [] if v[0] == "b" else assume(s, v, x))]:
            kept = v is T("b", False)
            if self.ob("merging is decided", kept or v is T("b", True), show(v)[:100]):
                new = s.mem[roots[1]]
                self.merged(s, last, cur, cur if kept else new, I(1 if kept else 0), I(1 if kept else 0))
                if kept:
                    self.ob("an interval that is kept apart stays as it is", new is last and s.mem[roots[0]] is cur, show(new)[:200])
        self.ip = mine

    def merged(self, b, last, cur, v, at, step):
        ip = self.ip
        g = lambda x, n, i: self.f(self.f(x, self.ci[n], b), i, b)
        rel = int_orders(b, g(last, "segs", 1), g(cur, "segs", 0))
        what = "%s where %s" % (show(v)[:300], facts_show(b)[-400:])
        if at is I(1):
            self.ob("an interval is kept apart only if the last one ends before it begins", rel == frozenset("<") and step is I(1), what)
            bad = [n for n in self.ci if self.f(v, self.ci[n], b) is not self.f(cur, self.ci[n], b)]
            self.ob("an interval that is kept apart stays as it is", not bad, what)
            return
        self.ob("intervals are merged only if they touch", rel <= frozenset("=>") and at is I(0) and step is I(0), what)
        self.hull(b, g(v, "segs", 0), g(v, "segs", 1), [(g(x, "segs", 0), g(x, "segs", 1)) for x in (last, cur)], g(last, "segs", 0), "positions", what)
        hs = [self.some(self.f(x, self.ci["horizontals"], b), b) for x in (last, cur)]
        for i in (0, 1):
            if hs[i] is False and hs[1 - i] is None and self.f(v, self.ci["horizontals"], b) is self.f((last, cur)[i], self.ci["horizontals"], b):
                return                      # those of the other one, whether there are any or not
        if not self.ob("merging regards whether there are horizontal segments", False not in hs, what):
            return
        h = self.some(self.f(v, self.ci["horizontals"], b), b)
        hs = [x for x in hs if x is not None]
        if not hs:
            self.ob("without horizontal segments there are none in the merged interval", h is None, what)
        elif self.ob("horizontal segments are kept in the merged interval", h is not None and h is not False, what):
            self.hull(b, self.f(h, 0, b), self.f(h, 1, b), [(self.f(x, 0, b), self.f(x, 1, b)) for x in hs], None, "horizontal segments", what)

    def hull(self, s, a, z, rs, first, name, what):
        lo = any(a is x for x, _ in rs) and all(a is x or int_orders(s, a, x) <= frozenset("<=") for x, _ in rs) or first is not None and a is first
        lo = lo or a[0] == "min" and {a[1], a[2]} == {x for x, _ in rs}
        hi = any(z is y for _, y in rs) and all(z is y or int_orders(s, z, y) <= frozenset("=>") for _, y in rs)
        hi = hi or z[0] == "max" and {z[1], z[2]} == {y for _, y in rs}
        self.ob("the merged interval begins with the first of the %s" % name, lo, what)
        self.ob("the merged interval ends with the last of the %s" % name, hi, what)

    def sorting(self, s, t):
        if not self.ob("intervals are sorted before they are merged", t[0] == "sorted", show(t)[:200]):
            return None
        if t not in self.done:
            ok, why = sorted_by(self.ctx, t, lambda e: self.f(self.f(e, self.ci["segs"]), 0))
            self.ob("they are sorted by where they begin", ok, why)
            self.done.add(t)
        return t[1]

    # ---- the loops that add intervals

    def adding(self, s, t):
        ip = self.ip
        while t is not self.old["changed_intervals"] and t is not T("empty"):
            l = loop_at(ip, t)
            if not self.ob("intervals are added in loops", l is not None, show(t)[:200]):
                return
            rs = [r for r in recs_of(ip, l[0], s) if self.rd(r.head, "changed_intervals") is t]
            if not self.ob("the loop that adds intervals is known", len(rs) > 0):
                return
            for r in rs:
                if (r.lid, r.no) in self.done:
                    continue
                self.done.add((r.lid, r.no))
                kind = self.kinds[r.lid] = self.kind(r, t)
                if self.ob("what the loop adds intervals for is known", kind is not None, loc_of(self.P.by_id[r.fn]) if r.fn in self.P.by_id else ""):
                    {"horizontal": self.horizontal, "end": self.end, "position": self.touching}[kind](r, t)
            t = l[3]

    def kind(self, r, lst):
        hs = [x for b in r.back for x in self.news(b, lst) if self.some(self.f(x, self.ci["horizontals"], b), b) is not None]
        if hs:
            return "horizontal"
        seen, line = set(), self.rd(r.head, "line")
        for b in r.back:
            for x in list(b.facts):
                if x[0] == "fld":
                    for n in ("in_changed_interval", "enter", "exit"):
                        if x[0] == "fld" and x[2:] == (0, self.e[n]) and x[1][0] == "sel" and x[1][1] is line:
                            seen.add(n)
        if "enter" in seen or "exit" in seen:
            return "end"
        return "position" if "in_changed_interval" in seen else None

    def news(self, b, lst):
        t = self.rd(b, "changed_intervals")
        out = []
        while t is not lst and t[0] in ("push", "store"):
            out.append(t[-1])
            t = t[1]
        return out

    def over(self, r, coll, name):
        """The position the loop is at in the list it goes through."""
        ip = self.ip
        ks = set()
        for _, _, x in slots(ip, r.head):
            l = loop_at(ip, x)
            if l is not None and l[0] == r.lid and l[3] is I(0) and r.back and all(isub(after_step(ip, r.lid, x, b), x) is I(1) for b in r.back):
                if all(exhausted(ip, e, coll, x) for e in r.exit):
                    ks.add(x)
        used = {x[2] for b in r.back for k in list(b.facts) + [y for p in b.rel for y in p] + [self.rd(b, "line"), self.rd(b, "changed_intervals")]
                for x in subterms(k) if x[0] in ("sel", "item") and x[1] is coll}
        ks &= used
        if not self.ob("all %s are gone through in order" % name, len(ks) >= 1 and len(r.exit) > 0, str([show(x)[:80] for x in used])):
            return None
        return ks.pop()

    # -- how far

    def reach(self, s, j, which, x):
        """How the west (east) end of entry j, to the east (west) of x, relates to x and the tolerance: a distance that is
        zero where it is exactly at the tolerance, and negative where it is closer.  A set of signs, or None."""
        end = "lower" if which == "east" else "upper"
        for (a, b), o in s.rel.items():
            p = fpoly(T("fsub", a, b))
            g = [m[0] for m in p if len(m) == 1 and m[0][0] == "call" and m[0][1].endswith("Segment::" + end)]
            if len(g) != 1 or len(p) != 3:
                continue
            g = g[0]
            seg = self.segment(g[2])
            if seg is None or self.position(seg) is None or isub(self.position(seg), j) is not I(0) or g[3] is not self.old["y"] or g[4] is not self.old["eps"]:
                continue
            k = 1 if which == "east" else -1
            want = {(g,): k, (self.old["eps"],): -1, (x,): -k}
            if p == want:
                return set(o)
            if {m: -c for m, c in p.items()} == want:
                return {{"<": ">", ">": "<"}.get(c, c) for c in o}
        return None

    def near(self, s, j, which, x):
        """Does entry j reach x, within the tolerance?  True, False, or None."""
        o = self.reach(s, j, which, x)
        return None if o is None else True if o <= set("<=u") else False if o <= set(">u") else None

    def beyond(self, s, j, which, line):
        if which == "west":
            return int_orders(s, j, I(0)) == frozenset("<")
        # the line keeps its length all the time
        ns = {self.ip.length(line), self.ip.length(self.old["line"])}
        ns |= {x for q in s.iv for a, _ in q[1] for x in [a] if x[0] == "len" and self.is_line(x[1])}
        return any(int_orders(s, j, n) <= frozenset("=>") for n in ns)

    def scan(self, s, c, which, x):
        """c is the first position on this side that does not reach x, all the ones before it do and are marked.
        Returns where the search began."""
        ip, step = self.ip, I(1 if which == "east" else -1)
        name = "to the %s" % which
        hits = [t for t in subterms(c) if loop_at(ip, t) and at_entry(ip, loop_at(ip, t)[0], c) is not None and self.walks(loop_at(ip, t)[0], s, x, which)]
        if not hits:
            self.ob("the interval ends %s only where an entry does not reach it" % name, self.near(s, c, which, x) is False or self.beyond(s, c, which, self.rd(s, "line")),
                    "%s where %s" % (show(c)[:200], facts_show(s)[-400:]))
            return c
        l = loop_at(ip, hits[0])
        rs = [r for r in recs_of(ip, l[0], s) if r.back and ip.read_loc(r.head, (l[1][1], l[2])) is hits[0]]
        start = at_entry(ip, l[0], c)
        if not self.ob("the search %s is known" % name, len(rs) > 0):
            return start
        for r in rs:
            js = set()
            for b in r.back:
                nxt = after_step(ip, r.lid, c, b)
                j = isub(nxt, step) if nxt is not None else None
                what = "%s where %s" % (show(j)[:200] if j is not None else "", facts_show(b)[-400:])
                e = at_entry(ip, r.lid, j) if j is not None else None
                ok = j is not None and (j is c or e is not None and e is start and isub(after_step(ip, r.lid, j, b), j) is step)
                if not self.ob("the search %s goes on with the next entry" % name, ok, what):
                    continue
                js.add(j)
                self.ob("the search %s goes on only where the entry reaches far enough" % name, self.near(b, j, which, x) is True, what)
                self.ob("entries that are reached %s remember their position" % name, self.marked(b, self.rd(b, "line"), j), what)
            for e in r.exit:
                ok = any(self.near(e, j, which, x) is False or self.beyond(e, j, which, self.rd(e, "line")) for j in js | {c})
                self.ob("the search %s ends only where an entry does not reach it" % name, ok, facts_show(e)[-400:])
        return start

    def walks(self, lid, s, x, which):
        return any(r.lid == lid and r.back and any(contains(a, lambda y: y[0] == "call" and y[1].endswith("Segment::lower" if which == "east" else "Segment::upper"))
                   for b in r.back for k in b.rel if any(contains(z, lambda q: q is x) for z in k) for a in k) for r in recs_of(self.ip, lid, s))

    # -- horizontal segments

    def x_of(self, seg, end, mine=True):
        """Tells the term for a coordinate of an end of a segment."""
        def is_it(t):
            if t[0] != "fld" or t[2:] != (0, self.px) or t[1][0] != "call" or not t[1][1].endswith("Segment::" + end):
                return False
            if mine:
                return self.segment(t[1][2]) is seg
            u = unref(t[1][2])
            return u[0] == "sel" and u[2] is T("fld", seg, 0, 0)
        return is_it

    @property
    def px(self):
        return field_index(self.P, CRATE + "geom::Point", "x")

    def find(self, states, pred):
        out = set()
        for b in states:
            for p in b.rel:
                for k in p:
                    out |= {x for x in subterms(k) if pred(x)}
        return out

    def horizontal(self, r, lst):
        ip = self.ip
        # the horizontal segments, in order
        hs = self.rd(r.head, "horizontals")
        if not self.ob("the horizontal segments are sorted", hs[0] == "sorted" and hs[1] is self.old["horizontals"], show(hs)[:200]):
            return
        if hs not in self.done:
            ok, why = sorted_by(self.ctx, hs, None, GEOM, lambda t, e: self.x_of(e, "start", False)(t))
            self.ob("the horizontal segments are sorted by where they begin", ok, why)
            self.done.add(hs)
        k = self.over(r, hs, "horizontal segments")
        if k is None:
            return
        seg = T("sel", hs, k)
        xs = self.find(r.back, self.x_of(seg, "start"))
        xe = self.find(r.back, self.x_of(seg, "end"))
        if not self.ob("the ends of the horizontal segment are regarded", len(xs) == 1 and len(xe) == 1, "%d %d" % (len(xs), len(xe))):
            return
        xs, xe = xs.pop(), xe.pop()
        # how far to the east the previous ones went
        ends = set()
        for b in r.back:
            for p in b.rel:
                if xs in p:
                    y = p[1] if p[0] is xs else p[0]
                    l = loop_at(ip, y)
                    if l is not None and l[0] == r.lid:
                        ends.add(y)
        if not self.ob("a horizontal segment is compared with how far the others went", len(ends) == 1, str([show(x)[:100] for x in ends])):
            return
        far = ends.pop()
        init = loop_at(ip, far)[3]
        self.ob("before the first one, nothing is reached", init[0] == "f" and float(init[1]) == float("-inf"), show(init))
        l = loop_at(ip, far)
        for b in r.back:
            what = "%s where %s" % (show(self.rd(b, "changed_intervals"))[:300], facts_show(b)[-400:])
            new = ip.read_loc(b, (l[1][1], l[2]))
            self.ob("how far they went is kept", is_least(b, new, [far, xe], "fmax"), show(new)[:300])
            t = self.rd(b, "changed_intervals")
            apart = surely(b, xs, far, ">")
            if not self.ob("it is decided whether the horizontal segment touches the others", apart or never(b, xs, far, ">"), what):
                continue
            if apart:
                if self.ob("a horizontal segment apart from the others gets an interval", t[0] == "push" and t[1] is lst, what):
                    v = t[2]
                    a, z = (self.f(self.f(v, self.ci["segs"], b), i, b) for i in (0, 1))
                    h = self.some(self.f(v, self.ci["horizontals"], b), b)
                    self.ob("it lists the horizontal segment", bool(h) and self.f(h, 0, b) is k and isub(self.f(h, 1, b), k) is I(1), what)
                    first = self.scan(b, z, "east", xe)
                    self.ob("it begins where the search began", first is a, "%s %s" % (show(first)[:200], show(a)[:200]))
                    self.begins(b, a, xs)
            elif int_orders(b, ip.length(lst), I(0)) <= frozenset("<="):
                continue                    # there is an interval once the first horizontal segment got one
            else:
                last = isub(ip.length(lst), I(1))
                if self.some(self.f(T("sel", lst, last), self.ci["horizontals"], b), b) is None:
                    continue                # intervals of this loop list horizontal segments
                if self.ob("a horizontal segment touching the others extends their interval", t[0] == "store" and t[1] is lst and isub(t[2], last) is I(0), what):
                    v, w = t[3], T("sel", lst, last)
                    a, z = (self.f(self.f(v, self.ci["segs"], b), i, b) for i in (0, 1))
                    a0, z0 = (self.f(self.f(w, self.ci["segs"], b), i, b) for i in (0, 1))
                    h = self.some(self.f(v, self.ci["horizontals"], b), b)
                    h0 = self.some(self.f(w, self.ci["horizontals"], b), b)
                    what = show(self.f(v, self.ci["horizontals"], b)) + " " + what
                    self.ob("the horizontal segments of the interval now end with this one", bool(h) and isub(self.f(h, 1, b), k) is I(1) and bool(h0) and self.f(h, 0, b) is self.f(h0, 0, b), what)
                    e = None
                    if z is z0:
                        es = [y for q in b.iv for y in [self.other(q, z0)] if y is not None and int_orders(b, z0, y) <= frozenset("=>")]
                    elif z[0] == "max" and z0 in z[1:]:
                        es = [y for y in z[1:] if y is not z0]
                    else:
                        es = [z] if int_orders(b, z, z0) <= frozenset("=>") else []
                    if self.ob("the interval ends with the last of the entries reached", len(es) == 1, what):
                        first = self.scan(b, es[0], "east", xe)
                        self.begins(b, first, xs)
                    self.ob("the interval still begins where it did", a is a0 or a[0] == "min" and a0 in a[1:] or int_orders(b, a, a0) <= frozenset("<="), what)

    def other(self, q, z):
        """In what is known about the difference of two indices one of which is z: the other one."""
        if q[0] != "diff" or z not in [a for a, c in q[1]]:
            return None
        k = [c for a, c in q[1] if a is z][0]
        out = I(0)
        for a, c in q[1]:
            if a is not z:
                if abs(c) != 1 or abs(k) != 1:
                    return None
                out = iadd(out, a) if c == -k else isub(out, a)
        return out if len(q[1]) > 1 else None

    def begins(self, s, a, x):
        j = isub(a, I(1))
        o = self.reach(s, j, "west", x)
        self.ob("the interval begins after an entry that does not reach the horizontal segment", self.beyond(s, j, "west", None) or o is not None and o <= set("=>u"),
                "%s where %s" % (show(a)[:200], facts_show(s)[-600:]))

    # -- ends of segments

    def noted(self, r):
        k = self.over(r, self.old["segs_needing_positions"], "noted positions")
        return None if k is None else T("sel", self.old["segs_needing_positions"], k)

    def same_here(self, b, r, lst):
        self.ob("otherwise nothing is added", self.rd(b, "changed_intervals") is lst, show(self.rd(b, "changed_intervals"))[:300])

    def end(self, r, lst):
        ip = self.ip
        j = self.noted(r)
        if j is None:
            return
        line = self.rd(r.head, "line")
        e = self.ip.select(line, j, r.head)
        seg = self.ent(e, "seg")
        for b in r.back:
            what = "%s where %s" % (show(self.rd(b, "changed_intervals"))[:300], facts_show(b)[-400:])
            shared = self.some(self.ent(e, "old_seg", b), b)
            en, ex = (b.facts.get(self.ent(e, n)) for n in ("enter", "exit"))
            if shared is not None and shared is not False or en is False and ex is False:
                self.same_here(b, r, lst)
                continue
            what = "%s %s %s " % (shared, en, ex) + what
            if not self.ob("it is decided whether the segment enters or leaves without sharing its entry", shared is None and (en is True or en is False and ex is True), what):
                continue
            want = "start" if en else "end"
            xs = self.find([b] + [x for q in ip.records if q.no in b.via for x in q.back + q.exit], self.x_of(seg, want))
            if not self.ob("the %s of the segment is regarded" % want, len(xs) == 1, what):
                continue
            x = xs.pop()
            news = self.news(b, lst)
            if news:
                t = self.rd(b, "changed_intervals")
                if self.ob("one interval is added", t[0] == "push" and t[1] is lst, what):
                    a, z = (self.f(self.f(t[2], self.ci["segs"], b), i, b) for i in (0, 1))
                    self.ob("without horizontal segments", self.some(self.f(t[2], self.ci["horizontals"], b), b) is None, what)
                    f1 = self.scan(b, isub(a, I(1)), "west", x)
                    f2 = self.scan(b, z, "east", x)
                    self.ob("the search begins next to the segment's entry", isub(f1, j) is I(-1) and isub(f2, j) is I(1), "%s %s" % (show(f1)[:200], show(f2)[:200]))
            else:
                self.ob("no interval is added only if nothing else is reached", self.alone(b, j, x), what)

    def alone(self, s, j, x):
        """The searches from entry j on both sides are known to have ended right there; if so, they are decided, too."""
        ip = self.ip
        side = {}
        for which, d in (("west", I(-1)), ("east", I(1))):
            first = iadd(j, d)
            side[which] = []
            for r in ip.records:
                if r.no in s.via and r.back and self.walks(r.lid, s, x, which):
                    side[which] += [iadd(t, isub(first, l[3])) for _, _, t in slots(ip, r.head) for l in [loop_at(ip, t)]
                                    if l is not None and l[0] == r.lid and l[3][0] not in ("agg", "ref", "sorted") and self.number(isub(first, l[3]))]
            side[which] = side[which] or [first]
        for w in side["west"]:
            for e in side["east"]:
                if int_orders(s, isub(e, I(2)), w) <= frozenset("<="):
                    self.scan(s, w, "west", x)
                    self.scan(s, e, "east", x)
                    return True
        return False

    def number(self, t):
        return t[0] == "i"

    # -- noted positions

    def touching(self, r, lst):
        ip = self.ip
        j = self.noted(r)
        if j is None:
            return
        line = self.rd(r.head, "line")
        seen = self.ent(ip.select(line, j, r.head), "in_changed_interval")
        for b in r.back:
            t = self.rd(b, "changed_intervals")
            what = "%s where %s" % (show(t)[:300], facts_show(b)[-400:])
            if b.facts.get(seen) is True:
                self.same_here(b, r, lst)
                self.ob("a position that is in an interval changes nothing", self.rd(b, "line") is line, what)
                continue
            if not self.ob("a position gets an interval exactly if it is in none", b.facts.get(seen) is False and t[0] == "push" and t[1] is lst, what):
                continue
            a, z = (self.f(self.f(t[2], self.ci["segs"], b), i, b) for i in (0, 1))
            self.ob("without horizontal segments", self.some(self.f(t[2], self.ci["horizontals"], b), b) is None, what)
            cur = self.rd(b, "line")
            while cur is not line and loop_at(ip, cur) is not None:
                cur = loop_at(ip, cur)[3]
            self.ob("the position's entry is marked first", cur[0] == "store" and cur[1] is line and isub(cur[2], j) is I(0) and self.marked(b, cur, j, True), show(cur)[:300])
            self.spread(b, z, "east", j)
            self.spread(b, a, "west", j)

    def spread(self, s, edge, which, j):
        """The interval goes on to an entry that is not left of (right of) the entry at its edge, until one is so even
        when compared conservatively; the entries up to it are marked."""
        ip, east = self.ip, which == "east"
        name = "to the %s" % which
        l = loop_at(ip, edge)
        if l is None:
            self.ob("the interval reaches %s as far as its neighbours touch" % name, edge is (iadd(j, I(1)) if east else j) and self.beyond(s, iadd(j, I(1 if east else -1)), which, self.rd(s, "line")),
                    "%s where %s" % (show(edge)[:200], facts_show(s)[-400:]))
            return
        rs = [r for r in recs_of(ip, l[0], s) if ip.read_loc(r.head, (l[1][1], l[2])) is edge]
        if not self.ob("the search %s is known" % name, len(rs) > 0 and l[3] is (iadd(j, I(1)) if east else j), show(l[3])[:200]):
            return
        step = I(1 if east else -1)
        inner = isub(edge, I(1)) if east else edge
        for r in rs:
            hits = set()
            line = self.rd(r.head, "line")
            for b in r.back + r.exit:
                for k in b.facts:
                    for x in subterms(k):
                        if x[0] == "order" and x[1] in ("comparisons", "conservative_comparisons"):
                            p, q = self.position(x[2]), self.position(x[3])
                            if p is None or q is None:
                                continue
                            mine, other = (p, q) if east else (q, p)
                            if isub(mine, inner) is I(0) and at_entry(ip, r.lid, other) is not None and other is not inner:
                                hits.add(other)
            if not self.ob("the entry at the edge is compared with those %s of it" % which, len(hits) == 1, str([show(x)[:100] for x in hits])):
                continue
            i = hits.pop()
            first = at_entry(ip, r.lid, i)
            self.ob("the search %s begins next to the position" % name, first is iadd(j, step), show(first)[:200])
            for b in r.back:
                what = "%s where %s" % (show(ip.read_loc(b, (l[1][1], l[2])))[:200], facts_show(b)[-500:])
                self.ob("the search %s goes on with the next entry" % name, isub(after_step(ip, r.lid, i, b), i) is step, what)
                o1, o2 = (self.order(b, n, inner, i, east) for n in ("conservative_comparisons", "comparisons"))
                self.ob("the search %s goes on only where the order is undecided even conservatively" % name, o1 is False, what)
                new = ip.read_loc(b, (l[1][1], l[2]))
                if o2 is True:
                    self.ob("an entry that is apart %s is not added" % name, new is edge and self.rd(b, "line") is line, what)
                elif self.ob("entries %s are compared" % name, o2 is False, what):
                    want = iadd(i, I(1)) if east else i
                    self.ob("an entry that touches the edge is added %s" % name, new is want, what)
                    a, z = (edge, iadd(i, I(1))) if east else (i, edge)
                    why = self.run_marked(b, self.rd(b, "line"), line, a, z)
                    self.ob("entries that are added %s are marked" % name, not why, why)
            for e in r.exit:
                self.ob("the search %s ends only with an entry that is apart conservatively" % name, self.order(e, "conservative_comparisons", inner, i, east) is True or self.beyond(e, i, which, self.rd(e, "line")), facts_show(e)[-500:])

    def order(self, s, cache, inner, i, east):
        """Is the entry at the edge certainly apart from entry i, at this height?"""
        for k, v in s.facts.items():
            if k[0] != "discr":
                continue
            c = k[1]
            if c[0] != "call" or not c[1].endswith("CurveOrder::order_at"):
                continue
            x = unref(c[2])
            if x[0] != "order" or x[1] != cache or c[3] is not self.old["y"]:
                continue
            p, q = self.position(x[2]), self.position(x[3])
            if p is None or q is None:
                continue
            p, q = (p, q) if east else (q, p)
            if isub(p, inner) is I(0) and isub(q, i) is I(0):
                if v == self.left:
                    return True
                if isinstance(v, frozenset) and self.left in v or isinstance(v, int) and v != self.left:
                    return False
        return None
