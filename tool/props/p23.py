"""The function that lays out a group of nearby curves between two heights, and the one that approximates
them, are interpreted abstractly.  Every outcome that leaves the paths alone has to show one of the
reasons for which that is allowed; otherwise the paths go through two loops, one that brings every member
to the start and one that appends one piece per member and interval.  What the steps of these loops append
is compared with the members' own curves and approximations; polynomials are compared by their normal
form over the reals."""
from lib import *
from props.p22 import Positions, strip, HOV, LINE, QUAD, CURVE

FLOOR = 30
POS = CRATE + "position::"
OPAQUE = ["re:next_subsegment$", "re:transversal_(after|before)$", "re:::approximate$", "re:bez_end$",
          "re:^linesweeper::curve::", "re:to_kurbo_cubic$"]


def run(ctx):
    P = ctx.P
    ctx.assumption("the lists of members and of their input segments have the same length and belong together (P22); coordinates are not NaN (P05)")
    ctx.rule("untouched <=> all lines or two transversal members; else every path is brought to the start and gets one piece per interval, x = running maximum of its own approximation")
    inst = P.one(POS + "ordered_curves_all_close")
    ctx.guard("group", inst, lambda: Group(ctx, P, inst).check())
    inst2 = P.one(POS + "approximate")
    ctx.guard("approximate", inst2, lambda: approximate(ctx, P, inst2))


class Group(Positions):
    def __init__(self, ctx, P, inst):
        self.ctx, self.P, self.inst = ctx, P, inst
        self.ip, self.args, self.outs = ctx.analyse(inst, opaque=OPAQUE, keep_rel=True)
        lst, num = {}, []
        for k, a in enumerate(self.args):
            t = P.types[strip(P, inst["body"]["locals"][k + 1])]
            if t["k"] == "slice":
                lst[P.types[t["t"]].get("path")] = T("*", a)
            elif t.get("path") == HOV:
                ep = T("*", a)
            elif t.get("path") == CRATE + "topology::OutputSegVec":
                self.outarg = a
            elif t.get("path") == CRATE + "segments::Segments":
                self.segarg = a
            elif t["k"] == "float" or t.get("k") == "prim":
                num.append(a)
        self.order, self.members = lst[CRATE + "segments::SegIdx"], lst[CRATE + "topology::OutputSegIdx"]
        self.y0, self.y1, self.acc = num
        self.ends = [self.ip.project(ep, ("f", 0, field_index(P, HOV, n)), None) for n in ("start", "end")]
        self.base = self.ip.project(T("*", self.outarg), ("f", 0, 0), None)
        self.out = (("P", self.outarg), (("f", 0, 0),))

    # ---- the members

    def member(self, k):
        return self.ip.project(T("sel", self.members, k), ("f", 0, 0), None)

    def seg(self, k):
        return self.ip.project(T("sel", self.order, k), ("f", 0, 0), None)

    def is_seg(self, t, k):
        return t[0] == "sel" and contains(t[1], lambda x: x is self.segarg) and t[2] is self.seg(k)

    def line(self, s, k):
        """State s shows that member k's segment is a straight line."""
        return any(a[0] == "discr" and d == 0 and any(x[0] == "sel" and self.is_seg(x, k) for x in subterms(a[1])) for a, d in s.facts.items())

    def through(self, st, lid):
        """In state st, loop lid has gone through all members."""
        return [c for c in self.counter(lid) if self.past(st, c)]

    def past(self, st, c):
        for coll in (self.order, self.members):
            if exhausted(self.ip, st, coll, c):
                return True
        return any(a[0] == "done" and x is True and a[2] is c and contains(a[1], lambda y: y in (self.order, self.members) or (y[0] == "sym" and T("*", y) in (self.order, self.members)))
                   for a, x in s_facts(st))

    # ---- outcomes

    def check(self):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        touched = 0
        why = []
        for v, s in self.outs:
            t = self.paths(s)
            if t is self.base:
                w = self.reason(s)
                why.append(w)
                ctx.ob("a group is left alone only if all members are lines or two members are transversal", w is not None, inst, facts_show(s)[:600])
                continue
            touched += 1
            chain = []
            while True:
                l = self.locate(t)
                if l is None:
                    break
                chain.append(l)
                t = l[2]
            if not ctx.ob("paths are changed by two loops", len(chain) == 2 and t is self.base, inst, show(self.paths(s))[:300]):
                continue
            (main, _, _), (bring, _, init) = chain
            ctx.ob("pieces are added until the end of the interval is reached", self.finished(s, main), inst, facts_show(s)[-500:])
            self.lids = {"main": main, "bring": bring}
        ctx.ob("groups are laid out", touched > 0, inst)
        ctx.stats["left alone"] = sorted(map(str, why))
        if not touched:
            return
        for r in self.recs("bring"):
            for b in r.back:
                ctx.guard("start", inst, lambda: self.start(r, b))
        for r in self.recs("main"):
            ctx.ob("every member is brought to the start", len(self.through(r.pre, self.lids["bring"])) > 0, inst, facts_show(r.pre)[-400:])
            for b in r.back:
                ctx.guard("interval", inst, lambda: self.interval(r, b))
        ctx.stats["steps"] = {k: sum(len(r.back) for r in self.recs(k)) for k in self.lids}

    def reason(self, s):
        ip = self.ip
        if any(a[0] == "allchecked" and x is True and self.all_lines(a[1]) for a, x in s_facts(s)):
            return "lines"
        for r in ip.records:
            if r.no in s.via and r.back and any(self.past(s, c) and all(self.line(b, c) for b in r.back) for c in self.counter(r.lid)):
                return "lines"
        for a, x in s_facts(s):
            if x is True and a[0] == "call" and matches(a[1], "transversal_after") and self.test(s, a, True):
                return "after"
            if x is True and a[0] == "call" and matches(a[1], "transversal_before") and self.test(s, a, False):
                return "before"
        return None

    def all_lines(self, lid):
        bs = [b for r in self.ip.records if r.lid == lid for b in r.back]
        return len(bs) > 0 and all(any(self.line_any(a, d) for a, d in b.facts.items()) for b in bs)

    def line_any(self, a, d):
        for x in subterms(a[1]) if a[0] == "discr" and d == 0 else ():
            if x[0] == "sel" and contains(x[1], lambda y: y is self.segarg):
                for y in subterms(x[2]):
                    if y[0] == "sel" and y[1] is self.order and y[2][0] == "any":
                        return True
        return False

    def test(self, s, c, after):
        ip = self.ip
        if int_orders(s, ip.length(self.order), I(2)) != frozenset("="):
            if int_orders(s, ip.length(self.members), I(2)) != frozenset("="):
                return False
        if c[4] is not (self.y1 if after else self.y0):
            return False
        for k in (0, 1):
            if not self.piece(unref(c[2 + k]), I(k), self.base, self.y1):
                return False
            i = self.member(I(k))
            if after:
                y = self.y(self.tip(T("sel", self.base, i)))
                ok = flt_orders(s, y, self.y0, False) == frozenset("=")
            else:
                ok = flt_orders(s, self.y(self.end(1, i)), self.y1, False) == frozenset("=")
            if not ok:
                return False
        return True

    def tip(self, e):
        """The term for the last point of the path of an element of the table."""
        f = self.ip.project(e, ("f", 0, field_index(self.P, POS + "PositionedOutputSeg", "path")), None)
        return T("call", self.fname("bez_end"), T("&", f))

    def fname(self, n):
        return self.P.one(POS + n)["path"]

    def piece(self, c, k, table, y):
        """c is the next piece of member k's own curve, from where its path ends to height y."""
        if c[0] != "call" or not matches(c[1], "next_subsegment") or len(c) != 6:
            return False
        i = self.member(k)
        path = self.ip.project(T("sel", table, i), ("f", 0, field_index(self.P, POS + "PositionedOutputSeg", "path")), None)
        return self.is_seg(unref(c[2]), k) and unref(c[3]) is path and c[4] is y and c[5] is self.end(1, i)

    # ---- bringing the paths to the start

    def start(self, r, b):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        table = self.paths(r.head)
        ch = self.change(r, b)
        if ch is None or len({c[0] for c in ch}) > 1:
            return ctx.fail("one path is brought to the start per step", inst, show(self.paths(b))[:300])
        ks = self.counter(r.lid)
        if not ch:
            ok = any("<" not in flt_orders(b, self.y(self.tip(T("sel", table, self.member(k)))), self.y0, False) for k in ks)
            return ctx.ob("a path is left as it is only if it reaches the start", ok, inst, facts_show(b)[-400:])
        i, old, new = ch[0][0], ch[-1][1], ch[0][2]
        k = [k for k in ks if self.member(k) is i]
        if not ctx.ob("the members are brought to the start one by one", len(k) == 1, inst, show(i)[:200]):
            return
        k = k[0]
        p, (q, copied) = self.parts(old)[0], self.parts(new)
        if not ctx.ob("bringing a path to the start adds one piece", q[0] == "push" and q[1] is p, inst, show(q)[:300]):
            return
        o = flt_orders(b, self.y(self.tip(T("sel", table, i))), self.y0, False)
        ctx.ob("only paths that end above the start are continued", o == frozenset("<"), inst, "".join(sorted(o)))
        kind, a = self.el(q[2])
        c = a[-1][1] if a and a[-1][0] == "fld" else None
        ok = kind in (LINE, CURVE) and c is not None and self.piece(c, k, table, self.y0)
        pts = [T("fld", c, 0, 3)] if kind == LINE else [T("fld", c, 0, j) for j in (1, 2, 3)]
        ctx.ob("a path is brought to the start, and no further, along its own curve", ok and a == pts, inst, show(q[2])[:400])
        if kind == LINE:
            ctx.ob("only straight segments are continued by lines", self.line(b, k), inst, facts_show(b)[-400:])
        ctx.ob("the index of the copied part is recorded", copied[0] == "agg" and copied[2] == 1 and copied[3] is isub(ip.length(p), I(1)), inst, show(copied)[:200])

    # ---- intervals

    def current(self, r):
        """The slots that hold the height reached: initially the start."""
        out = []
        for root, path, h in slots(self.ip, r.head):
            l = loop_at(self.ip, h)
            if l and l[0] == r.lid and l[3] is self.y0:
                out.append((h, (root, path)))
        return out

    def finished(self, s, lid):
        for r in recs_of(self.ip, lid, s):
            for h, _ in self.current(r):
                if "<" not in flt_orders(s, h, self.y1, False):
                    return True
        return False

    def interval(self, r, b):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        l = self.locate(self.paths(b))
        if not ctx.ob("the pieces of an interval are added by a loop over the members", l is not None and l[0] != r.lid and l[2] is self.paths(r.head), inst, show(self.paths(b))[:300]):
            return
        cur = None
        for h, loc in self.current(r):
            v = ip.read_loc(b, loc)
            if v[0] == "call" and matches(v[1], "approximate"):
                cur = (h, v)
        if not ctx.ob("an interval ends where the approximations do", cur is not None, inst):
            return
        h, c = cur
        nums = [a for a in c[2:] if a in (h, self.y1, self.acc, self.y0)]
        ctx.ob("the next interval starts where the last one ended and goes towards the end", nums == [h, self.y1, self.acc], inst, show(c)[:300])
        lists = [self.content(a) for a in c[2:]]
        ctx.ob("the members' curves are approximated in order", self.order in lists and T("*", self.segarg) in lists, inst, show(c)[:300])
        bufs = [k for k, a in enumerate(c[2:]) if a[0] == "&" and a[1] is T("empty")]
        if not ctx.ob("approximations go into an empty list", len(bufs) == 1, inst, show(c)[:300]):
            return
        apx = T("after", c, 0, T("empty"))
        inner = recs_of(ip, l[0], b)
        n = 0
        for q in inner:
            for st in q.back:
                n += 1
                ctx.guard("piece", inst, lambda: self.quad(q, st, h, c, apx))
        ok = any(self.past(b, k) or exhausted(ip, b, apx, k) or any(a[0] == "done" and x is True and a[2] is k and contains(a[1], lambda y: y is apx) for a, x in s_facts(b)) for k in self.counter(l[0]))
        ctx.ob("every member gets its piece", n > 0 and ok, inst, facts_show(b)[-300:])

    def content(self, a):
        return T("*", a) if a[0] == "sym" else unref(a)

    def quad(self, r, b, h, c, apx):
        ctx, ip, inst = self.ctx, self.ip, self.inst
        ch = self.change(r, b)
        if not ctx.ob("one piece is added per step", ch is not None and len(ch) == 1, inst, str(ch and len(ch))):
            return
        i, old, new = ch[0]
        ks = [k for k in self.counter(r.lid) if self.member(k) is i]
        if not ctx.ob("the members get their pieces one by one, in order", len(ks) == 1, inst, show(i)[:200]):
            return
        k = ks[0]
        p, q = self.parts(old)[0], self.parts(new)[0]
        kind, a = self.el(q[2]) if q[0] == "push" and q[1] is p else (None, [])
        if not ctx.ob("a piece is a quadratic", kind == QUAD, inst, show(q)[:300]):
            return
        x = lambda pt: ip.project(pt, ("f", 0, 0), None)
        f = lambda t: fpoly(t)
        two = T("f", "2.0")
        mid = T("fdiv", T("fadd", h, c), two)
        d = T("fdiv", T("fsub", c, h), two)
        co = [T("fld", T("sel", apx, k), 0, field_index(self.P, CRATE + "curve::EstParab", n)) for n in ("c0", "c1", "c2")]
        ctx.ob("a piece's control point is half way down the interval", f(self.y(a[0])) == f(mid), inst, show(self.y(a[0]))[:200])
        ctx.ob("a piece ends where the interval does", f(self.y(a[1])) == f(c), inst, show(self.y(a[1]))[:200])
        dd = T("fmul", d, d)
        want = [T("fsub", co[0], T("fmul", dd, co[2])), T("fadd", T("fadd", co[0], T("fmul", d, co[1])), T("fmul", dd, co[2]))]
        used = []
        for pt, w, name in zip(a, want, ("control point", "end")):
            run = self.running(r, b, x(pt), f(w))
            used.append(run)
            ctx.ob("a piece's %s is the maximum of the member's own approximation and those of all members west of it" % name, run is not None, inst, show(x(pt))[:500])
        ctx.ob("control points and ends are bounded separately", None in used or used[0] != used[1], inst)

    def running(self, r, b, v, want):
        """The slot that holds the maximum so far: -inf before the first member, v afterwards."""
        ip = self.ip
        low = lambda t: t[0] == "f" and float(t[1]) == float("-inf")
        for root, path, h in slots(ip, r.head):
            l = loop_at(ip, h)
            if not l or l[0] != r.lid or not low(l[3]) or ip.read_loc(b, (root, path)) is not v:
                continue
            if v[0] == "fmax":
                o = [t for t in v[1:] if t is not h]
                if len(o) == 1 and fpoly(o[0]) == want:
                    return (root, path)
            elif v is h:
                if any(t is not v and fpoly(t) == want and ">" not in flt_orders(b, t, v, False) for k in b.rel for t in k):
                    return (root, path)
            elif fpoly(v) == want and "<" not in flt_orders(b, v, h, False):
                return (root, path)
        return None


def s_facts(s):
    return list(s.facts.items())


def approximate(ctx, P, inst):
    ip, args, outs = ctx.analyse(inst, opaque=["re:^linesweeper::curve::", "re:to_kurbo_cubic$", "re:horizontal_error_weight$"], keep_rel=True)
    num = []
    for k, a in enumerate(args):
        t = P.types[inst["body"]["locals"][k + 1]]
        if t["k"] in ("float", "prim"):
            num.append(a)
        elif t["k"] == "ref" and t.get("mut"):
            buf = a
        elif P.types[t["t"]]["k"] == "slice":
            order = T("*", a)
        else:
            segs = a
    y0, y1, acc = num
    loc = (("P", buf), ())
    base = T("*", buf)
    two = T("f", "2.0")

    def counters(lid):
        out = set()
        for r in ip.records:
            if r.lid == lid:
                for b in r.back:
                    for root, path, h in slots(ip, r.head):
                        l = loop_at(ip, h)
                        if l and l[0] == lid and l[3] is I(0) and isub(ip.read_loc(b, (root, path)), h) is I(1):
                            out.add(h)
        return out
    retry = None
    n = 0
    for v, s in outs:
        t = ip.read_loc(s, loc)
        l = loop_at(ip, t)
        if not ctx.ob("approximations are collected by a loop over the curves", l is not None, inst, show(t)[:200]):
            continue
        inner = l[0]
        ctx.ob("every curve is approximated", any(exhausted(ip, s, order, k) for k in counters(inner)), inst, facts_show(s)[:300])
        lv = loop_at(ip, v)
        if not ctx.ob("the height returned is the one the approximations were made for", lv is not None and lv[3] is y1, inst, show(v)[:200]):
            continue
        retry = lv[0]
        outer = loop_at(ip, l[3])
        ctx.ob("the approximations start from an untouched list", outer is not None and outer[0] == retry and outer[3] is base, inst, show(l[3])[:200])
        for r in recs_of(ip, inner, s):
            for b in r.back:
                n += 1
                new = pushed(ip, r.head, b, *loc)
                if not ctx.ob("one approximation is added per curve", new is not None and len(new) == 1, inst, show(ip.read_loc(b, loc))[:200]):
                    continue
                a = new[0]
                ok = a[0] == "call" and matches(a[1], "from_cubic")
                if not ctx.ob("an approximation is made from the curve", ok, inst, show(a)[:300]):
                    continue
                cub = a[2]
                pts = [ip.project(unref(cub), ("f", 0, j), None) for j in range(4)]
                subs = calls_in(cub, "re:y_subsegment$")
                if not ctx.ob("the part within the interval is approximated", len(set(subs)) == 1, inst, show(cub)[:300]):
                    continue
                sub = subs[0]
                own = [k for k in counters(inner) if any(x[0] == "sel" and contains(x[1], lambda y: y is segs) and x[2] is ip.project(T("sel", order, k), ("f", 0, 0), None) for x in subterms(sub[2]))]
                ctx.ob("the curve approximated is the next one", len(own) == 1 and sub[2][0] == "call" and matches(sub[2][1], "re:to_kurbo_cubic$"), inst, show(sub[2])[:300])
                ctx.ob("all curves are approximated over the interval returned", sub[3] is y0 and sub[4] is v, inst, show(sub)[-200:])
                mid = T("fdiv", T("fadd", y0, v), two)
                for j, p in enumerate(pts):
                    o = T("fld", sub, 0, j)
                    ok = fpoly(ip.project(p, ("f", 0, 1), None)) == fpoly(T("fsub", T("fld", o, 0, 1), mid)) and fpoly(ip.project(p, ("f", 0, 0), None)) == fpoly(T("fld", o, 0, 0))
                    ctx.ob("heights are taken relative to the middle of the interval", ok, inst, show(p)[:300])
                ctx.ob("an approximation is accepted only if it is accurate or the interval is short", accepted(ip, b, a, y0, v, acc), inst, facts_show(b)[:500])
    ctx.ob("approximations are added", n > 0, inst)
    if retry is None:
        return
    for r in ip.records:
        if r.lid != retry:
            continue
        for b in r.back:
            cut = ip.read_loc(b, loc)
            ok = cut is base or cut is T("empty")
            l = loop_at(ip, cut)
            N = ip.length(base)
            if cut[0] == "slice" and cut[2] is I(0) and cut[3] is N and loop_at(ip, cut[1]):
                ok = True
            if l is not None and l[0] != retry and ">" not in int_orders(b, ip.length(cut), N):
                ok = True
            ctx.ob("before another attempt the list is cut back to what it was", ok, inst, show(cut)[:300])
            for root, path, h in slots(ip, r.head):
                l = loop_at(ip, h)
                if l and l[0] == retry and l[3] is y1:
                    v = ip.read_loc(b, (root, path))
                    if v is h:
                        continue
                    ctx.ob("another attempt is made for half the interval", fpoly(v) == fpoly(T("fdiv", T("fadd", y0, h), two)), inst, show(v)[:200])


def accepted(ip, s, a, y0, y1, acc):
    if "<" not in flt_orders(s, T("fadd", y0, acc), y1, False):
        return True
    for k in s.rel:
        for x in k:
            if x is not acc and flt_orders(s, x, acc, False) == frozenset("<") and bound(x, a):
                return True
    return False


def bound(x, a):
    """x is the weighted error bound of the approximation a: max(dmax, -dmin) * weight."""
    if x[0] != "fmul":
        return False
    w = [y for y in x[1:] if y[0] == "call" and matches(y[1], "re:horizontal_error_weight$") and y[2] is a[2]]
    m = [y for y in x[1:] if y[0] == "fmax" and all(contains(z, lambda u: u is a) for z in y[1:]) and any(z[0] == "fneg" for z in y[1:])]
    return len(w) == 1 and len(m) == 1
