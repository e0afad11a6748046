"""How two curves are compared.  Every outcome of the comparison is interpreted abstractly, with the recursive call, the
approximating parabolas and the solver kept as terms: what is appended to the result has to continue, interval by interval, from the
beginning of the range to its end, and every verdict needs its ground among the comparisons on the path to it, and a recursive call an interval shorter by a constant factor.  The
sign analysis of a quadratic is decided by following the two thresholds through their roots; formulas are compared as rational functions."""
from lib import *
import models
from props.p28 import frat, is_zero, same_rat, mul, add

FLOOR = 40
CU = CRATE + "curve::"
CO = CU + "CurveOrder"
CE = CU + "CurveOrderEntry"
OR = CU + "Order"
CURVE = "kurbo::cubicbez::CubicBez"
REC, PUSH, ROT, SIGNS, PARAB, SUB = (("re:^%scurve::%s$" % (CRATE, n)) for n in ("intersect_cubics_rec", "CurveOrder::push", "with_rotation", "push_quadratic_signs", "EstParab::from_cubic", "y_subsegment"))
QUIET = ["re:with_y_slop$", "re:solve_x_for_y$", "re:bounding_box$", "re:rotate_about$", "re:Affine::inverse$", "re:affine::.*::mul$"]
OPAQUE = [REC, PUSH, ROT, SIGNS, PARAB, SUB] + QUIET


def run(ctx):
    P = ctx.P
    ctx.rule("the intervals of a comparison follow each other from one end of the common range to the other; every verdict has its ground")
    ctx.assumption("the parabola and its error bounds (P33), appending an interval (P29) and the restriction to a range (P32) are decided there; kurbo's bounding boxes and rotations are as documented; formulas are compared over the real numbers")
    c = Comparison(ctx, P)
    for n in ("whole", "step", "rotated", "signs"):
        ctx.guard(n, CU + n, lambda: getattr(c, n)())


def nonneg(p):
    """A polynomial with positive coefficients over absolute values, largest ones of these, and squares."""
    def fine(v):
        if v[0] == "fabs":
            return True
        if v[0] == "fmax":
            return any(nonneg(fpoly(x)) for x in v[1:])
        if v[0] == "fmul":
            return nonneg(fpoly(v))
        return v[0] == "f" and float(v[1]) >= 0
    return all(c >= 0 and all(fine(v) for v in set(m) if sum(1 for x in m if x is v) % 2) for m, c in p.items())


def minus(a, b):
    out = dict(fpoly(a) if isinstance(a, Term) else a)
    for m, c in (fpoly(b) if isinstance(b, Term) else b).items():
        out[m] = out.get(m, 0) + -1 * c
        if not out[m]:
            del out[m]
    return out


class Comparison:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.fs, self.fc = field_index(P, CO, "start"), field_index(P, CO, "cmps")
        self.fe, self.fo = field_index(P, CE, "end"), field_index(P, CE, "order")
        self.var = {n: variant_index(P, OR, n) for n in ("Left", "Right", "Ish")}
        self.name = {v: n for n, v in self.var.items()}
        self.pt = [field_index(P, CURVE, "p%d" % i) for i in range(4)]

    def at(self, ip, c, i, d):
        return ip.project(ip.project(c, ("f", 0, self.pt[i]), None), ("f", 0, d), None)

    def orders(self, s, t):
        if t[0] == "agg" and t[1] == OR:
            return {self.name[t[2]]}
        d = s.facts.get(T("discr", t))
        return {n for n, v in self.var.items() if d is None or (v not in d if isinstance(d, frozenset) else v == d)}

    def story(self, t):
        """What was done to a comparison, oldest first, and what it was before: ('push', end, order) or ('rec', arguments)."""
        out = []
        while True:
            if t[0] == "after" and t[1][0] == "call" and matches(t[1][1], PUSH):
                out.append(("push", t[1][3], t[1][4]))
            elif t[0] == "after" and t[1][0] == "call" and matches(t[1][1], REC):
                out.append(("rec", *t[1][2:8]))
            else:
                return out[::-1], t
            t = t[3]

    def inst(self, n):
        return self.P.one(key=CU + n)

    # ---- the whole range

    def whole(self):
        inst = self.inst("intersect_cubics")
        ip, args, outs = self.ctx.analyse(inst, opaque=OPAQUE, keep_rel=True, pull=True)
        a, b, tol, acc = args
        top = self.pick("fmax", self.at(ip, a, 0, 1), self.at(ip, b, 0, 1))
        bot = self.pick("fmin", self.at(ip, a, 3, 1), self.at(ip, b, 3, 1))
        seen = set()
        for v, s in outs:
            ev, base = self.story(v)
            rel = flt_orders(s, top, bot)
            text = "%s where %s" % (show(v)[:300], facts_show(s)[:300])
            fresh = base[0] == "agg" and ip.project(base, ("f", 0, self.fs), s) is top and ip.project(base, ("f", 0, self.fc), s)[0] == "empty"
            self.ctx.ob("a comparison begins where both curves have begun", fresh, inst, text)
            if rel == {"<"}:
                seen.add("range")
                ok = len(ev) == 1 and ev[0][0] == "rec" and ev[0][1:7] == (a, b, top, bot, tol, acc)
                self.ctx.ob("the common range of the curves is compared", ok, inst, text)
            elif rel == {"="}:
                seen.add("point")
                ok = len(ev) == 1 and ev[0][0] == "push" and ev[0][1] is bot
                self.ctx.ob("curves that meet at one height are compared there", ok and self.touching(ip, s, a, b, tol, ev[0][2]), inst, text)
            elif "<" not in rel and "=" not in rel:
                self.ctx.ob("curves without a common height have an empty comparison", not ev, inst, text)
            else:
                self.ctx.fail("the common range of the curves is compared", inst, "no comparison of its ends: " + text)
        self.ctx.ob("common ranges and single heights are told apart", seen == {"range", "point"}, inst, str(seen))

    def pick(self, op, a, b):
        return T(op, *sorted((a, b), key=engine.atom_no))

    def touching(self, ip, s, a, b, tol, order):
        os = self.orders(s, order)
        if len(os) != 1:
            return False
        up = flt_orders(s, self.at(ip, a, 0, 1), self.at(ip, b, 3, 1))
        dn = flt_orders(s, self.at(ip, a, 3, 1), self.at(ip, b, 0, 1))
        for i, j, here in ((0, 3, up == {"="}), (3, 0, dn == {"="} or "=" not in up)):
            if here and self.beside(s, os, self.at(ip, a, i, 0), self.at(ip, b, j, 0), tol):
                return True
        return False

    def beside(self, s, os, x0, x1, tol):
        """The verdict on two numbers: left if the first is smaller by more than the tolerance."""
        return {"Left": self.less(s, x0, x1, tol), "Right": self.less(s, x1, x0, tol), "Ish": self.no_less(s, x0, x1, tol) and self.no_less(s, x1, x0, tol)}[list(os)[0]]

    def gap(self, s, x, y, tol):
        """Orders of (x + tolerance, y) known from any comparison that amounts to it."""
        want = minus(minus(x, y), minus({}, tol))
        out = []
        for (p, q), o in s.rel.items():
            d = minus(p, q)
            if d == want:
                out.append(o)
            elif {m: -c for m, c in d.items()} == want:
                out.append(frozenset(engine.FLIP[z] for z in o))
        return out

    def less(self, s, x, y, tol):
        return any(o <= {"<", "="} for o in self.gap(s, x, y, tol))

    def no_less(self, s, x, y, tol):
        return any("<" not in o for o in self.gap(s, x, y, tol))

    # ---- one step

    def step(self):
        inst = self.inst("intersect_cubics_rec")
        ip, args, outs = self.ctx.analyse(inst, opaque=OPAQUE, keep_rel=True, pull=True)
        a, b, y0, y1, tol, acc, out = args
        self.now = ip, inst, a, b, y0, y1, tol, acc
        A, B = (T("call", CU + "y_subsegment", c, y0, y1) for c in (a, b))
        self.subs = A, B
        seen = set()
        for v, s in outs:
            root, path = ip.target(out)
            got = ip.read_loc(s, (root, path))
            ev, base = self.story(got)
            text = "%s where %s" % (show(got)[:300], facts_show(s)[:300])
            l = loop_at(ip, base)
            rot = [t for t in s.facts if t[0] == "call" and matches(t[1], ROT)]
            if base[0] == "after" and base[1][0] == "call" and matches(base[1][1], ROT):
                seen.add("rotated")
                c = base[1]
                ok = s.facts.get(c) is True and not ev and base[3] is T("*", out) and c[2:8] == (A, B, y0, y1, tol, acc)
                self.ctx.ob("a rotated comparison is one of the same curves and range", ok, inst, text)
                continue
            if l is None:
                ok = base is T("*", out) and len(ev) == 1 and ev[0][0] == "push" and ev[0][1] is y1
                if not self.ctx.ob("a comparison goes on to the end of its range", ok, inst, text):
                    continue
                os = self.orders(s, ev[0][2])
                seen |= os
                self.ctx.ob("a verdict on the whole range has its ground", len(os) == 1 and self.ground(ip, s, list(os)[0], A, B, tol, acc, y0, y1), inst, text)
                continue
            # the quadratic approximation
            seen.add("parabola")
            self.ctx.ob("a comparison goes on to the end of its range", not ev and self.parts(ip, inst, s, l, out), inst, text)
        self.ctx.ob("curves are compared in every way", seen >= {"Left", "Right", "Ish", "parabola"}, inst, str(seen))

    def ground(self, ip, s, o, A, B, tol, acc, y0, y1):
        if o == "Ish" and self.together(ip, s, A, B, tol):
            return True
        low = flt_orders(s, T("fsub", y1, y0), acc) <= {"<", "="}
        ba, bb = self.box(ip, s, A), self.box(ip, s, B)
        if ba is None or bb is None:
            return False
        left = [z for z in self.gap(s, ba[1], bb[0], tol)]
        right = [z for z in self.gap(s, bb[1], ba[0], tol)]
        if o == "Left":
            return any(z <= {"<", "="} for z in left)
        if o == "Right":
            return any(z <= {"<", "="} for z in right)
        return low and any("<" not in z for z in left) and any("<" not in z for z in right)

    def box(self, ip, s, c):
        """(smallest, largest) x of the bounding box of a curve."""
        R = "kurbo::rect::Rect"
        for pair in s.rel:
            for t in pair:
                for x in subterms(t):
                    if x[0] == "call" and x[1].endswith("bounding_box") and unref(x[2]) is c:
                        xs = [T("fld", x, 0, field_index(self.P, R, n)) for n in ("x0", "x1")]
                        return self.pick("fmin", *xs), self.pick("fmax", *xs)
        return None

    def together(self, ip, s, A, B, tol):
        """No two corresponding control points are farther apart than the tolerance."""
        small = set()
        for (p, q), o in s.rel.items():
            if q is tol and o <= {"<", "="} or p is tol and o <= {">", "="}:
                small |= leaves_of(p if q is tol else q)
        for i in range(4):
            for d in (0, 1):
                x, y = self.at(ip, A, i, d), self.at(ip, B, i, d)
                if not ({T("fabs", T("fsub", x, y)), T("fabs", T("fsub", y, x))} & small):
                    return False
        return True

    def parts(self, ip, inst, s, l, out):
        """The loop over the intervals of the quadratic approximation."""
        _, _, a, b, y0, y1, tol, acc = self.now
        rs = [r for r in recs_of(ip, l[0], s)]
        init = l[3]
        if init[0] == "after" and init[1][0] == "call" and matches(init[1][1], ROT) and s.facts.get(init[1]) is False:
            init = init[3]      # it left it alone
        if not self.ctx.ob("the intervals are gone through in one loop", len(rs) == 1 and init is T("*", out), inst, show(l[3])[:200]):
            return False
        r = rs[0]
        ok = False
        for root, p, h in slots(ip, r.head):
            hl = loop_at(ip, h)
            if hl is None or hl[0] != r.lid or not (hl[3] is y0):
                continue
            if all(self.goes_on(ip, r, bk, h, ip.read_loc(bk, (root, p)), l) for bk in r.back):
                ok = True
                self.mark = root, p
        if not self.ctx.ob("the intervals follow each other", ok and r.back, inst, "no place keeps where the next interval begins"):
            return False
        C = None
        for bk in r.back:
            end = ip.read_loc(bk, self.mark)
            if end[0] == "fld" and end[3] == self.fe and end[1][0] == "sel":
                C = end[1][1]
        if not self.ctx.ob("an interval ends where it ends in the approximation", C is not None, inst, ""):
            return False
        # all of them
        self.ctx.ob("the loop ends after the last interval", self.at_end(ip, s, r, C), inst, facts_show(s)[-400:])
        last = C[0] == "store" and C[2] is isub(ip.length(C[1]), I(1)) and ip.project(C[3], ("f", 0, self.fe), s) is y1
        self.ctx.ob("the last interval ends where the range ends", last, inst, show(C)[:300])
        if not self.ctx.ob("the intervals are those of the difference of the parabolas", self.scaled(ip, inst, C[1] if last else C, s), inst, show(C)[:300]):
            return False
        for bk in r.back:
            self.verdict(ip, inst, r, bk, l)
        return True

    def at_end(self, ip, s, r, C):
        n = ip.length(C)
        for root, p, h in slots(ip, r.head):
            l = loop_at(ip, h)
            if l and l[0] == r.lid and h[0] != "agg" and l[3] is I(0) and "<" not in int_orders(s, h, n):
                return True
        return False

    def events(self, ip, r, bk, l):
        h, b = ip.read_loc(r.head, (l[1][1], l[2])), ip.read_loc(bk, (l[1][1], l[2]))
        ev, base = self.story(b)
        return ev if base is h else None

    def goes_on(self, ip, r, bk, h, nxt, l):
        ev = self.events(ip, r, bk, l)
        if not ev:
            return False
        e = h
        for x in ev:
            if x[0] == "rec":
                if x[3] is not e:
                    return False
                e = x[4]
            else:
                e = x[1]
        return e is nxt

    def verdict(self, ip, inst, r, bk, l):
        _, _, a, b, y0, y1, tol, acc = self.now
        ev = self.events(ip, r, bk, l)
        end = ip.read_loc(bk, self.mark)
        text = "%s where %s" % (show(ip.read_loc(bk, (l[1][1], l[2])))[:300], facts_show(bk)[:400])
        if not (end[0] == "fld" and end[3] == self.fe and end[1][0] == "sel"):
            self.ctx.fail("an interval ends where it ends in the approximation", inst, show(end)[:300])
            return None
        entry = end[1]
        o = T("fld", entry, 0, self.fo)
        cnt = loop_at(ip, entry[2])
        self.ctx.ob("intervals are taken in order", cnt is not None and cnt[0] == r.lid and cnt[3] is I(0) and self.counts(ip, r, bk, entry[2]), inst, show(entry[2])[:200])
        os = self.orders(bk, o)
        if ev[0][0] == "rec":
            ok = all(x[0] == "rec" and x[1:3] == (a, b) and x[5:7] == (tol, acc) for x in ev)
            self.ctx.ob("an interval is looked at more closely with the same curves and tolerance", ok, inst, text)
            inner = [fpoly(x[4]) for x in ev[:-1] if x[0] == "rec"]
            ok = all(set(p) <= {(ev[0][3],), (end,)} and all(c >= 0 for c in p.values()) and abs(sum(p.values()) - 1) < 1e-12 for p in inner)
            self.ctx.ob("an interval is cut inside", ok, inst, text)
            self.ctx.ob("a closer look is taken at a shorter interval", ok and self.shorter(bk, ev, end), inst, text)
            return entry[1]
        ok = len(ev) == 1 and ev[0][1] is end
        if os and "Ish" not in os:
            self.ctx.ob("a decided interval is one of the approximation", ok and (ev[0][2] is o or len(os) == 1 and self.orders(bk, ev[0][2]) == os), inst, text)
        else:
            self.ctx.ob("an uncertain interval is one of the approximation", ok and os == {"Ish"} and self.orders(bk, ev[0][2]) == {"Ish"}, inst, text)
            self.ctx.ob("an uncertain interval is not looked at more closely only within the accuracy", self.fine(ip, bk), inst, text)
        return entry[1]

    def shorter(self, s, ev, end):
        """Every piece is at most nine tenths of the range under comparison, itself longer than nothing."""
        _, _, a, b, y0, y1, tol, acc = self.now
        e = ev[0][3]
        if flt_orders(s, T("fsub", y1, y0), acc) & {"<"}:
            return False
        cuts = [0.0] + [fpoly(x[4]).get((end,), 0) for x in ev[:-1]] + [1.0]
        if all(0 < v - u <= 0.9 for u, v in zip(cuts, cuts[1:])):
            return True
        piece = minus(end, e)
        for (p, q), o in s.rel.items():
            for d, known in ((minus(p, q), o <= {"<", "="}), (minus(q, p), o <= {">", "="})):
                n = d.get((end,), 0)
                if not known or n <= 0:
                    continue
                d = {m: c / n for m, c in d.items()}
                k = -1 * d.get((y1,), 0)
                if 0 < k <= 0.9 and d == minus(piece, {(y1,): k, (y0,): -k}):
                    return True
        return False

    def counts(self, ip, r, bk, h):
        return any(x is h and ip.read_loc(bk, (root, p)) is iadd(h, I(1)) for root, p, x in slots(ip, r.head))

    def parabolas(self, s):
        return [t for t in dict.fromkeys(x for pair in s.rel for y in pair for x in subterms(y) if x[0] == "call" and matches(x[1], PARAB))]

    def field(self, ip, t, n):
        return ip.project(t, ("f", 0, field_index(self.P, CU + "EstParab", n)), None)

    def fine(self, ip, s):
        _, _, a, b, y0, y1, tol, acc = self.now
        if flt_orders(s, T("fsub", y1, y0), acc) <= {"<", "="}:
            return True
        e0, e1 = self.eps
        spread = minus(minus(self.field(ip, e1, "dmax"), self.field(ip, e0, "dmin")), minus(self.field(ip, e1, "dmin"), self.field(ip, e0, "dmax")))
        for (p, q), o in s.rel.items():
            if q is acc and o <= {"<", "="} and nonneg(minus(p, spread)) or p is acc and o <= {">", "="} and nonneg(minus(q, spread)):
                return True
        return False

    def scaled(self, ip, inst, C, s):
        """The call that found the intervals, and the way back from its coordinates."""
        _, _, a, b, y0, y1, tol, acc = self.now
        l = loop_at(ip, C)
        call = self.found(l[3] if l else C)
        if call is None:
            return False
        A2, A1, A0, lower, upper, lo, hi = call[2:9]
        es = list(dict.fromkeys(x for t in (A2, A1, A0, lower, upper) for x in subterms(t) if x[0] == "call" and matches(x[1], PARAB)))
        pair = [(p, q) for p in es for q in es if p is not q and self.stems(ip, p, self.subs[0]) and self.stems(ip, q, self.subs[1])]
        if not self.ctx.ob("the parabolas approximate the two curves", len(pair) == 1, inst, str([show(x)[:200] for x in es])):
            return False
        e0, e1 = self.eps = pair[0]
        for n, t in (("c2", A2), ("c1", A1), ("c0", A0)):
            self.ctx.ob("the difference of the parabolas is that of their coefficients", not minus(t, minus(self.field(ip, e1, n), self.field(ip, e0, n))), inst, show(t)[:200])
        most = minus(self.field(ip, e1, "dmax"), self.field(ip, e0, "dmin"))
        least = minus(self.field(ip, e1, "dmin"), self.field(ip, e0, "dmax"))
        low = minus(minus(minus({}, most), tol), lower)     # how much lower than it has to be
        high = minus(upper, minus(tol, least))
        self.ctx.ob("left means smaller by the tolerance whatever the errors", nonneg(high), inst, show(upper)[:300])
        self.ctx.ob("right means larger by the tolerance whatever the errors", nonneg(low), inst, show(lower)[:300])
        # back from the scaled heights
        back = self.way_back(ip, inst, l) if l else None
        if not self.ctx.ob("heights are scaled back", back is not None, inst, show(C)[:300]):
            return False
        expr, z = back
        here = lambda t: subst_term(expr, z, t)
        eq = lambda t, u: same_rat(frat(here(t), {}), frat(u, {}))
        self.ctx.ob("the range is scaled as the heights are scaled back", eq(lo, y0) and eq(hi, y1), inst, "%s %s" % (show(lo)[:100], show(expr)[:200]))
        ok = linear_in(expr, z)
        for e, c in ((e0, self.subs[0]), (e1, self.subs[1])):
            arg = e[2]
            for i in range(4):
                ok = ok and self.at(ip, arg, i, 0) is self.at(ip, c, i, 0) and eq(self.at(ip, arg, i, 1), self.at(ip, c, i, 1))
        self.ctx.ob("the curves are scaled as the heights are scaled back", ok, inst, show(e0)[:300])
        return True

    def found(self, t):
        """The call of the sign analysis that made these intervals from nothing."""
        if t[0] == "fld" and t[3] == self.fc:
            t = t[1]
        if t[0] == "after" and t[1][0] == "call" and matches(t[1][1], SIGNS):
            c = t[3]
            if c[0] == "agg" and c[3 + self.fc][0] == "empty":
                return t[1]
        return None

    def stems(self, ip, e, c):
        return self.at(ip, e[2], 0, 0) is self.at(ip, c, 0, 0)

    def way_back(self, ip, inst, l):
        """(the new end, the old one) in the loop that scales heights back; order and number of intervals are kept."""
        _, _, a, b, y0, y1, tol, acc = self.now
        for r in ip.records:
            if r.lid != l[0] or not r.back:
                continue
            got = None
            for bk in r.back:
                h, x = ip.read_loc(r.head, (l[1][1], l[2])), ip.read_loc(bk, (l[1][1], l[2]))
                if x[0] != "store" or x[1] is not h or not self.counts(ip, r, bk, x[2]) or ip.project(x[3], ("f", 0, self.fo), bk) is not T("fld", T("sel", h, x[2]), 0, self.fo):
                    return None
                e = ip.project(x[3], ("f", 0, self.fe), bk)
                z = T("fld", T("sel", h, x[2]), 0, self.fe)
                while True:
                    if e[0] == "fclamp" and e[2:] == (y0, y1):
                        e = e[1]
                    elif e[0] in ("fmax", "fmin") and any(x is (y0 if e[0] == "fmax" else y1) for x in e[1:]):
                        e = [x for x in e[1:] if x is not (y0 if e[0] == "fmax" else y1)][0]
                    else:
                        break
                if got is not None and got[0] is not e:
                    return None
                got = e, z
            return got
        return None


    # ---- the rotated curves

    def rotated(self):
        inst = self.inst("with_rotation")
        ip, args, outs = self.ctx.analyse(inst, opaque=OPAQUE + ["re:kurbo.*Affine.*::mul$"], keep_rel=True, pull=True)
        a, b, y0, y1, tol, acc, out = args
        old = T("*", out)
        seen = set()
        for v, s in outs:
            got = ip.read_loc(s, ip.target(out))
            text = "%s: %s where %s" % (show(v), show(got)[:300], facts_show(s)[:300])
            if v[1] is False:
                seen.add("not")
                self.ctx.ob("a comparison that does not rotate appends nothing", got is old, inst, text)
                continue
            if not self.ctx.ob("it is known whether the comparison was made", v[1] is True, inst, text):
                continue
            turned = self.turned(s, a), self.turned(s, b)
            ok = None not in turned and turned[0][2] is turned[1][2] and turned[0][2][0] == "call" and turned[0][2][1].endswith("rotate_about")
            if not self.ctx.ob("both curves are rotated alike", ok, inst, text):
                continue
            A, B = turned
            rising = all("<" not in flt_orders(s, self.at(ip, c, i + 1, 1), self.at(ip, c, i, 1)) for c in (A, B) for i in range(3))
            self.ctx.ob("rotated curves are compared only if they still go one way", rising, inst, text)
            top, bot = self.pick("fmax", self.at(ip, A, 0, 1), self.at(ip, B, 0, 1)), self.pick("fmin", self.at(ip, A, 3, 1), self.at(ip, B, 3, 1))
            rel = flt_orders(s, top, bot)
            ev, base = self.story(got)
            if base is old:
                seen.add("apart")
                ok = "<" not in rel and len(ev) == 1 and ev[0][0] == "push" and ev[0][1] is y1
                os = self.orders(s, ev[0][2]) if ok else ()
                self.ctx.ob("rotated curves without a common height are compared where they begin", ok and len(os) == 1 and self.beside(s, os, self.at(ip, a, 0, 0), self.at(ip, b, 0, 0), tol), inst, text)
                continue
            seen.add("compared")
            self.unrotated(ip, inst, s, got, A, B, top, bot, args)
        self.ctx.ob("curves are rotated, compared, or left alone", seen >= {"not", "compared"}, inst, str(seen))

    def turned(self, s, c):
        got = {x for pair in s.rel for t in pair for x in subterms(t) if x[0] == "call" and "Affine" in x[1] and x[1].endswith("::mul") and x[3] is c}
        return got.pop() if len(got) == 1 else None

    def unrotated(self, ip, inst, s, got, A, B, top, bot, args):
        a, b, y0, y1, tol, acc, out = args
        C = ip.project(got, ("f", 0, self.fc), s)
        if "<" not in int_orders(s, I(0), ip.length(C)):
            return      # nothing was appended (by a loop that is looked at in other outcomes)
        ok = C[0] == "store" and C[2] is isub(ip.length(C[1]), I(1)) and ip.project(C[3], ("f", 0, self.fe), s) is y1
        keeps = ok and ip.project(C[3], ("f", 0, self.fo), s) is T("fld", T("sel", C[1], C[2]), 0, self.fo)
        self.ctx.ob("the last interval ends where the range ends", ok and keeps, inst, show(C)[:300])
        l = loop_at(ip, C[1][1]) if ok and C[1][0] == "fld" and C[1][3] == self.fc else None
        if not self.ctx.ob("the intervals of the rotated curves are appended", l is not None and l[3] is T("*", out), inst, show(C)[:300]):
            return
        for r in recs_of(ip, l[0], s):
            for bk in r.back:
                ev = self.events(ip, r, bk, l)
                text = show(ip.read_loc(bk, (l[1][1], l[2])))[:1500]
                if not self.ctx.ob("every interval of the rotated curves is appended", ev is not None and len(ev) == 1 and ev[0][0] == "push", inst, text):
                    continue
                _, end, order = ev[0]
                ok = order[0] == "fld" and order[3] == self.fo and order[1][0] == "sel"
                if not self.ctx.ob("an interval keeps its verdict when it is rotated back", ok, inst, show(order)[:300]):
                    continue
                S, i = order[1][1:3]
                h = loop_at(ip, i)
                self.ctx.ob("the intervals of the rotated curves are taken in order", h is not None and h[0] == r.lid and h[3] is I(0) and self.counts(ip, r, bk, i), inst, show(i))
                self.ctx.ob("every interval of the rotated curves is appended", exhausted(ip, s, S, i), inst, facts_show(s)[-300:])
                c = S[1] if S[0] == "fld" and S[3] == self.fc else None
                ok = c is not None and c[0] == "after" and c[1][0] == "call" and matches(c[1][1], REC) and c[1][2:8] == (A, B, top, bot, tol, acc)
                fresh = ok and c[3][0] == "agg" and ip.project(c[3], ("f", 0, self.fs), s) is top and ip.project(c[3], ("f", 0, self.fc), s)[0] == "empty"
                self.ctx.ob("the common range of the rotated curves is compared", ok and fresh, inst, show(S)[:300])
                y = T("fld", order[1], 0, self.fe)
                self.ctx.ob("the end of an interval is rotated back", self.turned_back(ip, end, y, A, B, y0, y1), inst, show(end)[:1500])

    def turned_back(self, ip, e, y, A, B, y0, y1):
        ends = set()
        while True:
            if e[0] == "fclamp" and e[2:] == (y0, y1):
                e, ends = e[1], {0, 1}
            elif e[0] in ("fmax", "fmin") and any(x is (y0 if e[0] == "fmax" else y1) for x in e[1:]):
                ends |= {0 if e[0] == "fmax" else 1}
                e = [x for x in e[1:] if x is not (y0 if e[0] == "fmax" else y1)][0]
            else:
                break
        if ends != {0, 1} or e[0] != "fld" or e[3] != 1 or e[1][0] != "call" or not e[1][1].endswith("::mul"):
            return False
        back, p = e[1][2:4]
        if not (back[0] == "call" and back[1].endswith("inverse") and unref(back[2]) is A[2]):
            return False
        x, py = ip.project(p, ("f", 0, 0), None), ip.project(p, ("f", 0, 1), None)
        on = [T("call", CU + "solve_x_for_y", c, y) for c in (A, B)]
        mean = T("fdiv", T("fadd", *on), F(2.0))
        return py is y and any(same_rat(frat(x, {}), frat(w, {})) for w in (mean, *on))


    # ---- the signs of a quadratic

    def signs(self):
        inst = self.inst("push_quadratic_signs")
        opaque = [PUSH, "re:monic_quadratic_roots$"]
        wrap = self.wrapper(inst, opaque)
        if not self.ctx.ob("intervals are clipped in one place", wrap is not None and wrap is not inst, inst, "no function or closure that clips what is appended"):
            return
        old, models.UNROLL = models.UNROLL, 8
        try:
            ip, args, outs = self.ctx.analyse(inst, opaque=opaque, models={wrap["path"]: lambda *a: self.clipped(inst, wrap, *a)}, keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "fis_finite")
        finally:
            models.UNROLL = old
        a, b, c, lower, upper, y0, y1, out = args
        seen = set()
        for v, s in outs:
            got = ip.read_loc(s, ip.target(out))
            ev = []
            while got[0] == "after" and got[1][0] == "call" and got[1][1] == wrap["path"]:
                ev.append(got[1][2:4])
                got = got[3]
            text = "%s where %s" % ([(show(e)[:200], show(o)) for e, o in ev[::-1]], facts_show(s)[:400])
            if self.ctx.ob("all that is appended is clipped", got is T("*", out) and all(len(self.orders(s, o)) == 1 for _, o in ev), inst, text):
                self.sequence(inst, s, [(e, list(self.orders(s, o))[0]) for e, o in ev[::-1]], args, seen, text)
        self.ctx.ob("all kinds of differences are looked at", len(seen) == 7, inst, str(sorted(seen)))

    def wrapper(self, inst, opaque):
        """The function or closure that calls the one that appends an interval."""
        class Found(Exception):
            pass

        def stop(ip, fn, args, atys, rty, s, site, fr):
            e = Found()
            e.inst = fr.inst
            raise e
        try:
            self.ctx.analyse(inst, opaque=opaque, models={CO + "::push": stop})
        except Found as e:
            return e.inst
        return None

    def clipped(self, inst, wrap, ip, fn, args, atys, rty, s, site, fr):
        """What the clipping does is decided here, from this state on; from then on it stands for an interval that was asked for."""
        top = ip.sym_args(inst)
        y0, y1, out = top[5:8]
        loc = ip.target(out)
        before = ip.read_loc(s, loc)
        C = ip.project(before, ("f", 0, self.fc), None)
        outs = ip.call_body(wrap, args, s, (site, wrap["id"]), fr.depth + 1, fr.stack)
        asked = set()
        for v, o in outs:
            ev, base = self.story(ip.read_loc(o, loc))
            if base is before and len(ev) == 1 and ev[0][0] == "push":
                e = ev[0][1]
                asked.add(((([x for x in e[1:] if x is not y1] or [y1])[0] if e[0] == "fmin" and y1 in e[1:] else e), ev[0][2], e))
        if not self.ctx.ob("clipping appends one interval", len(asked) == 1, wrap, str([(show(e)[:100], show(o)) for e, o, _ in asked])):
            raise engine.EngineError("what is appended is not known")
        end, order, at = asked.pop()
        self.ctx.ob("an interval ends in the range", at is y1 or at is not end, wrap, show(at)[:200])
        le = T("fld", T("sel", C, isub(ip.length(C), I(1))), 0, self.fe)
        for v, o in outs:
            ev, base = self.story(ip.read_loc(o, loc))
            text = "%s where %s" % (show(end)[:200], facts_show(o)[:400])
            order_of = lambda x, y: flt_orders(o, x, y) - {"u"}
            known = [order_of(le, x) for x in {end, y1, at}]
            here = [order_of(x, y0) for x in {end, at}]
            empty = "<" not in int_orders(o, I(0), ip.length(C))
            filled = "=" not in int_orders(o, I(0), ip.length(C))
            if ev:
                below = order_of(le, at) == {"<"} or order_of(le, end) == {"<"} and order_of(le, y1) == {"<"}
                self.ctx.ob("an interval is appended only beyond the last one", base is before and len(ev) == 1 and {">"} in here and (empty or below), wrap, text)
            else:
                self.ctx.ob("an interval is left out only if it has no height in the range", base is before and (any(">" not in x for x in here) or filled and any("<" not in k for k in known)), wrap, text)
        s = s.copy()
        log = T("after", T("call", wrap["path"], end, order), 0, before)
        ip.write_loc(s, loc, log)
        return [(engine.UNIT, s)]

    def sequence(self, inst, s, ev, args, seen, text):
        a, b, c, lower, upper, y0, y1, out = args
        fr = lambda t: frat(t, {})
        quot = lambda p, q: fr(T("fdiv", p, q))
        kinds = []
        for e, o in ev:
            k = "end" if e is y1 else None
            if e[0] == "fld" and e[1][0] == "call" and e[1][1].endswith("monic_quadratic_roots") and same_rat(fr(e[1][2]), quot(b, a)):
                for n, th in (("lower", lower), ("upper", upper)):
                    if same_rat(fr(e[1][3]), quot(T("fsub", c, th), a)):
                        k = (n, e[3])
                if all(s.facts.get(T("fis_finite", x)) is not True for x in e[1][3:4]):
                    k = None
            for n, th in (("lower", lower), ("upper", upper)):
                if k is None and same_rat(fr(e), quot(T("fsub", th, c), b)):
                    k = (n, "only") if s.facts.get(T("fis_finite", e)) is True else None
            kinds.append((k, o))
        small = any(v is False and k[0] == "fis_finite" and (same_rat(fr(k[1]), quot(b, a)) or any(same_rat(fr(k[1]), quot(T("fsub", c, th), a)) for th in (lower, upper))) for k, v in s.facts.items())
        level = any(v is False and k[0] == "fis_finite" and any(same_rat(fr(k[1]), quot(T("fsub", th, c), b)) for th in (lower, upper)) for k, v in s.facts.items())
        over = lambda x, y: flt_orders(s, x, y, False)
        zero = F(0.0)
        table = {
            "open up": ([(("upper", 0), "Left"), (("lower", 0), "Ish"), (("lower", 1), "Right"), (("upper", 1), "Ish"), ("end", "Left")], over(a, zero) == {">"}),
            "open down": ([(("lower", 0), "Right"), (("upper", 0), "Ish"), (("upper", 1), "Left"), (("lower", 1), "Ish"), ("end", "Right")], ">" not in over(a, zero)),
            "rising": ([(("lower", "only"), "Right"), (("upper", "only"), "Ish"), ("end", "Left")], small and over(b, zero) == {">"}),
            "falling": ([(("upper", "only"), "Left"), (("lower", "only"), "Ish"), ("end", "Right")], small and ">" not in over(b, zero)),
            "low": ([("end", "Right")], small and level and over(c, lower) == {"<"}),
            "high": ([("end", "Left")], small and level and over(c, upper) == {">"}),
            "between": ([("end", "Ish")], small and level and "<" not in over(c, lower) and ">" not in over(c, upper)),
        }
        ok = [n for n, (seq, when) in table.items() if seq == kinds and when]
        seen |= set(ok)
        self.ctx.ob("the signs follow each other as the thresholds are crossed", bool(ok), inst, text + str(kinds))


def subst_term(t, z, new):
    if t is z:
        return new
    if not isinstance(t, Term) or not any(isinstance(x, Term) for x in t):
        return t
    return T(*[subst_term(x, z, new) if isinstance(x, Term) else x for x in t])


def linear_in(t, z):
    return all(sum(1 for x in m if x is z) <= 1 for m in fpoly(t)) and any(z in m for m in fpoly(t))


def leaves_of(t):
    return set().union(*(leaves_of(x) for x in t[1:])) if t[0] == "fmax" else {t}
