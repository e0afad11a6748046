"""Every way of adding segments is interpreted abstractly.  The entrance and exit lists of the
result must be sorted by height, and be filled by loop steps that run over every segment index from
the one the lists covered before up to the number of stored segments, each appending exactly
(height of the start, index) to the entrances, and (height of the end, index) to the exits unless
start and end are level.  How far a list reaches is established by induction over the loops; the
comparison function given to the sort is interpreted on its own."""
from props.segctx import *
from props.p06 import Local, TOP
from props.p09 import INNER, PT

FLOOR = 50
LISTS = ("enter", "exit")
SORT_OPAQUE = ["re:Segment::at_y$"]


def lpath(P, name):
    return (("f", 0, field_index(P, SEG, name)),)


def run(ctx):
    P = ctx.P
    ctx.rule("both lists sorted by height; one entrance per stored segment, one exit per stored segment that is not horizontal, with that segment's heights")
    for nm, inst in entries(P):
        ctx.guard(nm, inst, lambda: adder(ctx, P, nm, Arena(ctx, P, nm, inst, keep_rel=True)))
    froms = [i for i in P.insts if i["body"] and i["path"] in (TOP + "::<W>::from_paths", TOP + "::<bool>::from_polylines_binary",
                                                                TOP + "::from_polylines_binary")
             or i["body"] and i["path"].endswith("::from_polylines_binary")]
    names = {}
    for i in sorted(froms, key=lambda i: ("Binary" not in i["key"], i["key"])):
        names.setdefault(i["path"].split("::")[-1], i)
    for nm in ("from_paths", "from_polylines_binary"):
        i = names.get(nm)
        if ctx.ob("%s found" % nm, i is not None, TOP):
            ctx.guard(nm, i, lambda: adder(ctx, P, nm, local(ctx, P, nm, i)))
    ctx.guard("accessors", SEG, lambda: accessors(ctx, P))


def local(ctx, P, nm, i):
    op = OPAQUE + ["re:::from_segments$", "re:Segments::check_invariants$"]

    class L(Local):
        def __init__(self):
            self.ctx, self.P, self.name, self.inst = ctx, P, nm, i
            self.ip, self.args, self.outs = ctx.analyse(i, opaque=op, keep_rel=True)
            self.root = self.find_root()
    return L()


def accessors(ctx, P):
    for nm, t in (("entrances", "enter"), ("exits", "exit")):
        inst = P.one(SEG + "::" + nm)
        ip, a, outs = ctx.analyse(inst)
        want = ip.project(T("*", a[0]), lpath(P, t)[0], None)
        for r, s in outs:
            got = ip.read_loc(s, (r[1], r[2])) if r[0] == "ref" else unref(r)
            ctx.ob("%s gives the whole list" % nm, got is want, inst, show(r)[:200])


class Cover:
    def __init__(self, ctx, P, ar, nm):
        self.ctx, self.P, self.ar, self.nm, self.ip = ctx, P, ar, nm, ar.ip
        self.memo = {}
        self.sorts = {}

    def get(self, st, path):
        return self.ip.read_loc(st, (self.ar.root, path))

    def upto(self, v, hyp, st):
        """Number of segments that list value v covers in state st; hyp: known answers (value -> length)."""
        if v in hyp:
            return hyp[v]
        if v[0] in ("empty", "default"):
            return I(0)
        if v[0] == "sorted":
            return self.upto(v[1], hyp, st)
        if v not in self.memo:
            self.memo[v] = None
            self.memo[v] = self.loop(v, hyp)
        r = self.memo[v]
        if isinstance(r, tuple) and not isinstance(r, Term):
            i, n = r
            # the counter never passes the number of segments, so it is equal once it has reached it
            return n if "<" not in int_orders(st, i, n) else i
        return r

    def loop(self, v, hyp):
        l = loop_at(self.ip, v)
        if l is None or l[1][1] != self.ar.root:
            return None
        lid, _, path, init = l
        which = [n for n in LISTS if lpath(self.P, n) == path]
        if not which:
            return None
        recs = [r for r in self.ip.records if r.lid == lid]
        mine = [r for r in recs if self.get(r.head, path) is v]
        if not mine:
            return None
        if any(self.grows(r, b, path) for r in mine for b in r.back):
            return self.filler(v, which[0], path, init, mine, hyp)
        return self.outer(v, path, init, mine, hyp)

    def grows(self, r, b, path):
        h, x = self.get(r.head, path), self.get(b, path)
        return x is not h and x[0] == "push" and x[1] is h

    def filler(self, v, which, path, init, mine, hyp):
        e0 = self.upto(init, hyp, mine[0].head)
        if e0 is None:
            self.note("what the list covered before the loop: %s" % show(init)[:200])
            return None
        found, bound = None, self.ip.length(self.get(mine[0].head, tpath(self.P, "segs")))
        for r in mine:
            for b in r.back:
                idxs = self.step(which, path, r, b)
                if idxs is None:
                    return None
                i = idxs
                start = at_entry(self.ip, r.lid, i)
                if start is None:
                    self.note("index %s is not a loop counter" % show(i)[:150])
                    return None
                cur = after_step(self.ip, r.lid, i, b)
                if isub(cur, i) is not I(1):
                    self.note("index goes from %s to %s" % (show(i)[:100], show(cur)[:100]))
                    return None
                if start is not e0 and int_orders(r.head, start, e0) != frozenset("="):
                    self.note("loop starts at %s, the list covers up to %s" % (show(start)[:150], show(e0)[:150]))
                    return None
                if found is not None and found is not i:
                    self.note("two counters")
                    return None
                found = i
                if bound is not None and ">" in int_orders(b, cur, bound):
                    bound = None
        if bound is not None and found is not None and self.grown(self.get(mine[0].head, tpath(self.P, "segs")), e0):
            return found, bound
        return found

    def grown(self, v, n):
        """v has at least n elements, because n is the length of a value that it was grown from."""
        while True:
            if self.ip.length(v) is n:
                return True
            if v[0] in ("push", "store"):
                v = v[1]
                continue
            l = loop_at(self.ip, v)
            if l is None or l[1][1] != self.ar.root:
                return n is I(0)
            for r in self.ip.records:
                if r.lid == l[0]:
                    h = self.get(r.head, l[2])
                    for b in r.back:
                        if not self.down(self.get(b, l[2]), h):
                            return False
            v = l[3]

    def down(self, v, h):
        while v is not h:
            if v[0] in ("push", "store"):
                v = v[1]
                continue
            l = loop_at(self.ip, v)
            if l is None:
                return False
            if not all(self.down(self.get(b, l[2]), self.get(r.head, l[2])) for r in self.ip.records if r.lid == l[0] for b in r.back):
                return False
            v = l[3]
        return True

    def seg(self, r, i):
        return T("sel", self.get(r.head, tpath(self.P, "segs")), i)

    def step(self, which, path, r, b):
        """The segment index that this step adds to the list (or leaves out because it is horizontal)."""
        ip, P = self.ip, self.P
        h, x = self.get(r.head, path), self.get(b, path)
        segs_h, segs_b = (self.get(s, tpath(P, "segs")) for s in (r.head, b))
        if segs_h is not segs_b:
            self.note("segments change while the list is filled")
            return None
        if x is h:
            if which == "enter":
                self.ctx.fail("%s: every segment enters" % self.nm, r.fn if isinstance(r.fn, dict) else self.ar.inst, facts_show(b)[-600:])
                return None
            # which segment was left out: the one whose kind was looked at
            cand = [k[1][1][2] for k in b.facts if k[0] == "discr" and k[1][0] == "fld" and k[1][1][0] == "sel" and k[1][1][1] is segs_h]
            cand = [i for i in dict.fromkeys(cand) if at_entry(ip, r.lid, i) is not None]
            if len(cand) != 1:
                self.note("cannot tell which segment this step is about")
                return None
            i = cand[0]
            seg = T("sel", segs_h, i)
            inner = ip.project(seg, ("f", 0, 0), None)
            d = b.facts.get(T("discr", inner))
            ends = self.ends(seg, d)
            ok = ends is not None and flt_orders(b, ends[0], ends[1], False) == frozenset("=")
            self.ctx.ob("%s: only horizontal segments have no exit" % self.nm, ok, self.ar.inst, facts_show(b)[-600:])
            return i if ok else None
        if x[0] != "push" or x[1] is not h:
            self.ctx.fail("%s: one element per step" % self.nm, self.ar.inst, show(x)[:300])
            return None
        e = x[2]
        y, i = fld(e, 0), fld(fld(e, 1), 0)
        seg = T("sel", segs_h, i)
        d = b.facts.get(T("discr", ip.project(seg, ("f", 0, 0), None)))
        ends = self.ends(seg, d)
        ok = ends is not None and y is ends[0 if which == "enter" else 1]
        self.ctx.ob("%s: the recorded %s height is the segment's %s" % (self.nm, which, "start" if which == "enter" else "end"), ok, self.ar.inst,
                    "%s for segment %s" % (show(y)[:300], show(i)[:100]))
        if which == "exit":
            hor = ends is not None and d == 0 and "=" in flt_orders(b, ends[0], ends[1], False)
            self.ctx.ob("%s: horizontal segments have no exit" % self.nm, not hor, self.ar.inst, facts_show(b)[-600:])
        return i if ok else None

    def ends(self, seg, d):
        ip, P = self.ip, self.P
        if d not in (0, 1):
            return None
        inner = ip.project(seg, ("f", 0, 0), None)
        y = field_index(P, PT, "y")
        return tuple(ip.project(ip.project(inner, ("f", d, k), None), ("f", 0, y), None) for k in (0, 1 if d == 0 else 3))

    def outer(self, v, path, init, mine, hyp):
        """Induction over a loop that maintains 'covers all stored segments'."""
        for r in mine:
            segs = self.get(r.head, tpath(self.P, "segs"))
            l = loop_at(self.ip, segs)
            s0 = l[3] if l and l[0] == r.lid else segs
            e0 = self.upto(init, hyp, r.head)
            if e0 is None or e0 is not self.ip.length(s0):
                self.note("before the loop the list covers %s of %s" % (show(e0)[:150] if e0 else None, show(s0)[:150]))
                return None
            h2 = dict(hyp)
            h2[v] = self.ip.length(segs)
            for b in r.back:
                if not self.all(self.get(b, path), self.get(b, tpath(self.P, "segs")), b, h2):
                    self.note("a step leaves segments out")
                    return None
        return self.ip.length(self.get(mine[0].head, tpath(self.P, "segs")))

    def all(self, v, segs, st, hyp):
        n = self.upto(v, hyp, st)
        if n is None:
            return False
        m = self.ip.length(segs)
        return n is m or "<" not in int_orders(st, n, m)

    def sorted(self, v, st, entry):
        """'' if the list is in order (entry: a list known to be), otherwise the reason why not."""
        if v is entry or v[0] in ("empty", "default") or ">" not in int_orders(st, self.ip.length(v), I(1)):
            return ""
        if v[0] == "sorted":
            if v not in self.sorts:
                g, text = sorted_by(self.ctx, v, lambda e: T("fld", e, 0, 0), SORT_OPAQUE)
                self.sorts[v] = "" if g else text
            return self.sorts[v]
        l = loop_at(self.ip, v)
        if l is None:
            return "not sorted: %s" % show(v)[:300]
        why = self.sorted(l[3], st, entry)
        for r in self.ip.records:
            if not why and r.lid == l[0] and self.get(r.head, l[2]) is v:
                for b in r.back:
                    why = why or self.sorted(self.get(b, l[2]), b, v)
        return why

    def note(self, text):
        self.why = text


def adder(ctx, P, nm, ar):
    ip, inst = ar.ip, ar.inst
    cv = Cover(ctx, P, ar, nm)
    n = 0
    for v, s in ar.outs:
        if v[0] == "agg" and v[1] == "core::result::Result" and v[2] == 1:
            continue
        n += 1
        a = None
        if isinstance(ar, Local):
            if v[0] == "agg" and v[1] == "core::result::Result":
                v = v[3]
            a = ar.arg(v, s)
        elif nm == "from_closed_polyline":
            a = v

        def fin(path):
            if a is None:
                return cv.get(s, path)
            t = a
            for e in path:
                t = ip.project(t, e, s)
            return t
        segs = fin(tpath(P, "segs"))
        me = T("*", ar.args[0]) if a is None else None
        for which in LISTS:
            path = lpath(P, which)
            t = fin(path)
            hyp = {}
            if me is not None:
                e, g = me, me
                for p in path:
                    e = ip.project(e, p, None)
                for p in tpath(P, "segs"):
                    g = ip.project(g, p, None)
                hyp[e] = ip.length(g)
                if t is e and segs is g:
                    continue
            cv.why, cv.memo = "", {}
            why = cv.sorted(t, s, e if me is not None else None)
            ctx.ob("%s: the %s list is ordered by height" % (nm, which), not why, inst, why)
            ctx.ob("%s: the %s list covers all stored segments" % (nm, which), cv.all(t, segs, s, hyp), inst,
                   "%s; list %s" % (cv.why, show(t)[:300]))
    ctx.ob("%s: succeeds on some path" % nm, n > 0, inst)
    ctx.stats[nm] = "%d outcomes" % n

