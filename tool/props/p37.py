"""The test for transversal curves and the weight of horizontal errors.  The functions are interpreted abstractly.  The extreme value of
a quadratic has to be among the values at both ends of the range and, unless that is known to be outside, where the derivative is zero
(compared as rational functions).  For every way in which the test can answer yes, the facts that hold then have to bound the slope of
the left curve by that of the right one: either the left one goes left and the right one right, or the products of the bounds of
horizontal and vertical speed are in order, each bound being the one (least or greatest) that the sign it is multiplied with calls
for.  The weight has to be at least the greatest share that the legs of the control polygon have in height, and one if two of them can
point to different sides."""
from lib import *
import engine
from props.linectx import surely
from props.p28 import frat, same_rat, is_zero, add, mul, cadd, cmul
from props.p33 import proportional, scaled

FLOOR = 13
TV = CRATE + "curve::transverse::"
MAX, MIN = TV + "quad_max_between", TV + "quad_min_between"
SOLVE = CRATE + "curve::solve_t_for_y"
CURVE = "kurbo::cubicbez::CubicBez"
ONE = F(1.0)


def run(ctx):
    P = ctx.P
    ctx.rule("two curves that meet are only taken for ordered without a closer look if the slope of the left one is bounded by that of the right one; horizontal errors get the weight of the most upright leg, or one if the legs point to both sides")
    ctx.assumption("formulas are compared over the real numbers; along both curves the height increases")
    t = Transversal(ctx, P)
    for n, w in (("quad_max", MAX), ("quad_min", MIN), ("after", TV + "transversal_after"), ("before", TV + "transversal_before"), ("weight", CRATE + "position::horizontal_error_weight")):
        ctx.guard(n, w, lambda: getattr(t, n)())


def square_rat(t):
    """The square of a float term as a rational function."""
    k = t[0]
    if k in ("fabs", "fneg"):
        return square_rat(t[1])
    if k == "fsqrt":
        return frat(t[1], {})
    if k == "fhypot":
        return cadd(square_rat(t[1]), square_rat(t[2]))
    if k == "fmul":
        return cmul(square_rat(t[1]), square_rat(t[2]))
    if k == "fdiv":
        a, b = square_rat(t[1]), square_rat(t[2])
        return cmul(a, (b[1], b[0]))
    r = frat(t, {})
    return cmul(r, r)


def nonneg(t):
    return t[0] in ("fabs", "fsqrt", "fhypot") or t[0] in ("fmul", "fdiv") and nonneg(t[1]) and nonneg(t[2])


def signs(s, p):
    """How a polynomial can stand to zero, from the comparisons that are known."""
    can = set("<=>")
    if not p:
        return {"="}
    if set(p) == {()}:
        return {"<" if p[()] < 0 else ">"}
    for a, b in s.rel:
        if a is b:
            continue
        d = add(poly(a), poly(b), -1)
        for k in (1, -1):
            if d and proportional([p], [scaled(d, k)]) and next(iter(p.values())) * next(v for m, v in d.items() if m == next(iter(p))) * k > 0:
                got = set(flt_orders(s, a, b, False)) - {"u"}
                can &= got if k == 1 else {{"<": ">", ">": "<", "=": "="}[x] for x in got}
    return can


def poly(t):
    try:
        return fpoly(t)
    except (OverflowError, ValueError):
        return {(t,): 1}


class Transversal:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.pt = [field_index(P, CURVE, "p%d" % i) for i in range(4)]

    def at(self, ip, c, i, d, s=None):
        return ip.project(ip.project(c, ("f", 0, self.pt[i]), s), ("f", 0, d), s)

    # ---- the extreme value of a quadratic

    def quad_max(self):
        inst = self.P.one(key=MAX)
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True, pull=True)
        a, b, c, r = args

        def value(t):
            u = T("fsub", ONE, t)
            return frat(T("fadd", T("fadd", T("fmul", a, T("fmul", t, t)), T("fmul", F(2.0), T("fmul", b, T("fmul", t, u)))), T("fmul", c, T("fmul", u, u))), {})
        ends = [ip.project(r, ("f", 0, i), None) for i in (0, 1)]
        crit = T("fdiv", T("fsub", c, b), T("fadd", T("fsub", a, b), T("fsub", c, b)))
        cr = frat(crit, {})
        curv = poly(crit[2])
        for v, s in outs:
            ls = [frat(x, {}) for x in leaves_of(v, "fmax")]
            for e, n in zip(ends, ("start", "end")):
                w = value(e)
                self.ctx.ob("the greatest value includes that at the %s of the range" % n, any(same_rat(w, x) for x in ls), inst, "%s\nwhere %s" % (show(v)[:700], facts_show(s)[:400]))
            w = value(crit)
            ok = any(same_rat(w, x) for x in ls) or self.outside(s, ends, cr) or signs(s, curv) == {"="}
            self.ctx.ob("and that where the derivative is zero, unless it is outside", ok, inst, "%s\nwhere %s" % (show(v)[:700], facts_show(s)[:400]))
            known = [value(e) for e in ends] + [w]
            self.ctx.ob("nothing else is the greatest value", all(any(same_rat(k, x) for k in known) for x in ls), inst, show(v)[:700])

    def outside(self, s, ends, cr):
        for a, b in s.rel:
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x in ends and x is not y and y[0] != "f" and same_rat(frat(y, {}), cr):
                    got = set(flt_orders(s, x, y, False)) - {"u"}
                    if not got & set("<" if x is ends[0] else ">"):
                        return True
        return False

    def quad_min(self):
        inst = self.P.one(key=MIN)
        ip, args, outs = self.ctx.analyse(inst, opaque=[MAX], keep_rel=True, pull=True)
        for v, s in outs:
            cs = [x for x in subterms(v) if x[0] == "call" and x[1].endswith("quad_max_between")]
            ok = len(cs) == 1 and poly(v) == {(cs[0],): -1} and all(poly(x) == {(y,): -1} for x, y in zip(cs[0][2:5], args[:3])) and cs[0][5] is args[3]
            self.ctx.ob("the least value is that of the negated quadratic, negated", ok, inst, show(v)[:400])

    # ---- transversal curves

    def bound(self, ip, s, t, curves, y1):
        """(greatest or least, curve, direction) for a bound of the speed of a curve up to the height."""
        flip = False
        if t[0] == "fneg":
            t, flip = t[1], True
        if t[0] != "call" or t[1].rsplit("::", 1)[-1] not in ("quad_max_between", "quad_min_between"):
            return None
        kind = "max" if "max" in t[1].rsplit("::", 1)[-1] else "min"
        co = [poly(x) for x in t[2:5]]
        if flip:
            co, kind = [scaled(x, -1) for x in co], "min" if kind == "max" else "max"
        r = t[5]
        lo, hi = ip.project(r, ("f", 0, 0), s), ip.project(r, ("f", 0, 1), s)
        if lo is not F(0.0):
            return None
        for n, c in curves.items():
            if hi is not ONE and not (hi[0] == "call" and hi[1] == SOLVE and hi[2] is c and hi[3] is y1):
                continue
            for d in (0, 1):
                want = [poly(T("fsub", self.at(ip, c, i + 1, d), self.at(ip, c, i, d))) for i in (2, 1, 0)]
                if proportional(want, co):
                    m = next(iter(want[0]))
                    k = co[0][m] / want[0][m]
                    if k > 0:
                        return kind, n, "xy"[d], k
        return None

    def after(self):
        inst = self.P.one(key=TV + "transversal_after")
        ip, args, outs = self.ctx.analyse(inst, opaque=[MAX, MIN, SOLVE], keep_rel=True, pull=True)
        curves, y1 = {"left": args[0], "right": args[1]}, args[2]
        yes = 0
        for v, s in outs:
            if v is FALSE:
                continue
            for z in ([s] if v is TRUE else engine.assume(s.copy(), v, True)):
                yes += 1
                why = self.ordered(ip, z, curves, y1)
                self.ctx.ob("the answer is yes only if the slope of the left curve is bounded by that of the right one", why, inst, "%s\nwhere %s" % (show(v)[:900], facts_show(z)[:900]))
        self.ctx.ob("the answer can be yes", yes > 0, inst, "%d outcomes" % len(outs))

    def ordered(self, ip, s, curves, y1):
        zero = F(0.0)
        terms = {x for k in s.rel for t in k for x in subterms(t) if x[0] == "call"}
        b = {}
        for t in terms:
            g = self.bound(ip, s, t, curves, y1)
            if g:
                b[t] = g
        isb = lambda t, *w: t in b and b[t][:3] == w
        lx = [t for t in b if isb(t, "max", "left", "x")]
        rx = [t for t in b if isb(t, "min", "right", "x")]
        if any(surely(s, t, zero, "<=") for t in lx) and any(surely(s, t, zero, ">=") for t in rx) and (any(surely(s, t, zero, "<") for t in lx) or any(surely(s, t, zero, ">") for t in rx)):
            return True
        for k in list(s.rel):
            for p, q in (k, k[::-1]):
                if p is q or not surely(s, p, q, "<") or p[0] != "fmul" or q[0] != "fmul":
                    continue
                for l, ry in ((p[1], p[2]), (p[2], p[1])):
                    for r, ly in ((q[1], q[2]), (q[2], q[1])):
                        if l not in lx or r not in rx or ly not in b or ry not in b:
                            continue
                        ok = b[ly][1:3] == ("left", "y") and b[ry][1:3] == ("right", "y") and b[l][3] * b[ry][3] == b[r][3] * b[ly][3]
                        kind = b[ly][0]
                        ok &= surely(s, l, zero, "<=" if kind == "max" else ">=")
                        kind = b[ry][0]
                        ok &= surely(s, r, zero, ">=" if kind == "max" else "<=")
                        if ok:
                            return True
        return False

    def before(self):
        inst = self.P.one(key=TV + "transversal_before")
        ip, args, outs = self.ctx.analyse(inst, opaque=["re:transversal_after$"], keep_rel=True, pull=True)
        for v, s in outs:
            ok = v[0] == "call" and v[1].endswith("transversal_after") and poly(v[4]) == scaled(poly(args[2]), -1)
            if ok:
                for c, a in zip(v[2:4], args[:2]):
                    for i in range(4):
                        ok &= self.at(ip, c, i, 0, s) is self.at(ip, a, 3 - i, 0) and poly(self.at(ip, c, i, 1, s)) == scaled(poly(self.at(ip, a, 3 - i, 1)), -1)
            self.ctx.ob("the test upwards is the test downwards of the mirrored curves", ok, inst, show(v)[:700])

    # ---- the weight of horizontal errors

    def weight(self):
        inst = self.P.one(key=CRATE + "position::horizontal_error_weight")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True, pull=True)
        c = args[0]
        legs = [[poly(T("fsub", self.at(ip, c, i + 1, d), self.at(ip, c, i, d))) for d in (0, 1)] for i in range(3)]
        for v, s in outs:
            ls = leaves_of(v, "fmax")
            if any(x is ONE for x in ls):
                self.ctx.ob("the weight is one", True, inst, "")
                continue
            for i in range(3):
                for j in range(i):
                    a, b = signs(s, legs[i][0]), signs(s, legs[j][0])
                    ok = not ("<" in a and ">" in b or ">" in a and "<" in b) or "<" not in signs(s, mul(legs[i][0], legs[j][0]))
                    self.ctx.ob("a weight below one needs legs %d and %d not to point to different sides" % (j, i), ok, inst, "%s\nwhere %s" % (show(v)[:500], facts_show(s)[:500]))
            for i in range(3):
                x, y = legs[i]
                h = add(mul(x, x), mul(y, y))
                want = mul(y, y), h
                ok = any(nonneg(t) and same_rat(square_rat(t), want) for t in ls) or self.none(s, h) or signs(s, y) == {"="}
                self.ctx.ob("the weight includes the share of height of leg %d" % i, ok, inst, "%s\nwhere %s" % (show(v)[:700], facts_show(s)[:500]))

    def none(self, s, h):
        """The length is known to be zero."""
        if signs(s, h) == {"="}:
            return True
        zero = F(0.0)
        for a, b in s.rel:
            for t, z in ((a, b), (b, a)):
                if engine.fconst(z) == 0 and t[0] in ("fsqrt", "fhypot") and surely(s, t, z, "=<") and same_rat(square_rat(t), (h, {(): 1})):
                    return True
        return False
