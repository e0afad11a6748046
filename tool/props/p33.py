"""The approximation of a curve by a parabola with error bounds.  The function is interpreted abstractly, with the cubic solver kept
as a term.  The parabola has to be at both ends and to have the integral over y that the curve has.  What the two bounds collect are errors of one formula at the roots that the solver finds: the formula, split by the
coefficients of the parabola, has to be the difference of a quadratic curve and the parabola, the polynomial given to the solver its
derivative, and the two quadratic curves the ones that mix to the given cubic.  Newton steps on the roots have to be those of the
same polynomial.  Formulas are compared as rational functions."""
from fractions import Fraction

from lib import *
import models
from props.p28 import frat, same_rat, add, mul

FLOOR = 14
CU = CRATE + "curve::"
EP = CU + "EstParab"
CURVE = "kurbo::cubicbez::CubicBez"
SOLVE = "re:solve_cubic_in_unit_interval$"


def run(ctx):
    P = ctx.P
    ctx.rule("the parabola goes through both ends; the error bounds contain zero and the error of both mixed quadratic curves wherever it can be extreme")
    ctx.assumption("kurbo::common::solve_cubic finds the roots of the polynomial it is given; formulas are compared over the real numbers")
    c = Parabola(ctx, P)
    for n in ("from_cubic", "sub", "newton"):
        ctx.guard(n, EP + "::" + n, lambda: getattr(c, n)())


def subst_term(t, m, cache=None):
    cache = {} if cache is None else cache
    r = m.get(t)
    if r is not None:
        return r
    if t in cache:
        return cache[t]
    r = T(*[subst_term(x, m, cache) if isinstance(x, Term) else x for x in t]) if any(isinstance(x, Term) for x in t) else t
    cache[t] = r
    return r


def by_power(p, z):
    """Coefficients of a polynomial in z: {degree: polynomial}."""
    out = {}
    for m, c in p.items():
        d = sum(1 for x in m if x is z)
        out.setdefault(d, {})[tuple(x for x in m if x is not z)] = c
    return out


def scaled(p, k):
    return {m: c * k for m, c in p.items()}


def proportional(ps, qs):
    """ps and qs (lists of polynomials) are the same up to one constant factor that is not zero."""
    k = None
    for p, q in zip(ps, qs):
        if bool(p) != bool(q):
            return False
        if p and k is None:
            m = next(iter(p))
            if not q.get(m):
                return False
            k = q[m] / p[m]
        if p and scaled(p, k) != q:
            return False
    return k is not None


class Parabola:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.f = {n: field_index(P, EP, n) for n in ("c0", "c1", "c2", "dmin", "dmax")}
        self.pt = [field_index(P, CURVE, "p%d" % i) for i in range(4)]

    def at(self, ip, c, i, d):
        return ip.project(ip.project(c, ("f", 0, self.pt[i]), None), ("f", 0, d), None)

    def from_cubic(self):
        inst = self.P.one(key=EP + "::from_cubic")
        ip, args, outs = self.ctx.analyse(inst, opaque=[SOLVE], keep_rel=True, pull=True)
        c = args[0]
        for v, s in outs:
            g = {n: ip.project(v, ("f", 0, i), s) for n, i in self.f.items()}
            sym = [T("sym", "P%d" % i) for i in range(3)]
            for e in (0, 3):
                x, y = self.at(ip, c, e, 0), self.at(ip, c, e, 1)
                val = T("fadd", g["c0"], T("fmul", y, T("fadd", g["c1"], T("fmul", y, g["c2"]))))
                self.ctx.ob("the parabola goes through the ends of the curve", same_rat(frat(val, {}), frat(x, {})), inst, "end %d: %s" % (e, show(val)[:600]))
            diff, size = self.moment(ip, c, g["c2"])
            self.ctx.ob("as much lies between the parabola and the chord as between the curve and the chord", diff <= 1e-9 * size, inst, show(g["c2"])[:600])
            self.bounds(ip, inst, s, c, g, {g["c0"]: sym[0], g["c1"]: sym[1], g["c2"]: sym[2]}, sym)

    def moment(self, ip, c, c2):
        """Whether c2 dy^3 is minus six times the integral of x dy along the curve less that along its chord: (largest coefficient
        of the difference, of the value)."""
        p = [[fpoly(self.at(ip, c, i, d)) for d in (0, 1)] for i in range(4)]
        bern = [[1, -3, 3, -1], [0, 3, -6, 3], [0, 0, 3, -3], [0, 0, 0, 1]]
        dy = add(p[3][1], p[0][1], -1)
        area = scaled(mul(add(p[0][0], p[3][0]), dy), Fraction(-1, 2))
        for i in range(4):
            for j in range(4):
                w = sum(Fraction(bern[i][a] * b * bern[j][b], a + b) for a in range(4) for b in range(1, 4))
                area = add(area, scaled(mul(p[i][0], p[j][1]), w))
        num, den = frat(c2, {})
        want = mul(scaled(area, -6), den)
        diff = add(mul(num, mul(dy, mul(dy, dy))), want, -1)
        big = lambda q: max([abs(float(k)) for k in q.values()], default=0)
        return big(diff), big(want)

    def bounds(self, ip, inst, s, c, g, short, sym):
        """Both bounds start at zero and go through the same loops, each over all roots of one polynomial."""
        steps = []
        lo, hi = g["dmin"], g["dmax"]
        while True:
            a, b = loop_at(ip, lo), loop_at(ip, hi)
            if a is None or b is None:
                break
            if not self.ctx.ob("both bounds are collected together", a[0] == b[0], inst, "%s %s" % (show(lo)[:200], show(hi)[:200])):
                return
            steps.append((a, b, lo, hi))
            lo, hi = a[3], b[3]
        zero = F(0.0)
        self.ctx.ob("the bounds contain zero", (lo is zero or frat(lo, {})[0] == {}) and (hi is zero or frat(hi, {})[0] == {}), inst, "%s %s" % (show(lo)[:200], show(hi)[:200]))
        quads = []
        for a, b, lo, hi in steps:
            quads += self.collected(ip, inst, s, c, a, b, lo, hi, short, sym)
        B = [[fpoly(self.at(ip, c, i, d)) for i in range(4)] for d in (0, 1)]
        bern = [[{0: 1, 1: -3, 2: 3, 3: -1}, {1: 3, 2: -6, 3: 3}, {2: 3, 3: -3}, {3: 1}]]
        cubic = []
        for d in (0, 1):
            co = {}
            for i in range(4):
                for k, w in bern[0][i].items():
                    co[k] = add(co.get(k, {}), scaled(B[d][i], w))
            cubic.append({k: p for k, p in co.items() if p})
        ok = any(all(self.mix(p[d], q[d]) == cubic[d] for d in (0, 1)) for p in quads for q in quads)
        self.ctx.ob("the error is looked at on two quadratic curves that mix to the given one", ok, inst, "%d quadratic curves" % len(quads))

    def mix(self, p, q):
        """(1 - t) p(t) + t q(t)"""
        out = {}
        for k, v in p.items():
            out[k] = add(out.get(k, {}), v)
            out[k + 1] = add(out.get(k + 1, {}), scaled(v, -1))
        for k, v in q.items():
            out[k + 1] = add(out.get(k + 1, {}), v)
        return {k: v for k, v in out.items() if v}

    def collected(self, ip, inst, s, c, a, b, lo, hi, short, sym):
        out = []
        for r in [r for r in ip.records if r.lid == a[0]]:
            hl, hh = (ip.read_loc(r.head, (x[1][1], x[2])) for x in (a, b))
            if hl is not lo or hh is not hi or not r.back:
                continue
            errs, items = set(), set()
            for bk in r.back:
                nl, nh = (ip.read_loc(bk, (x[1][1], x[2])) for x in (a, b))
                for n, h, op in ((nl, hl, "fmin"), (nh, hh, "fmax")):
                    if n is not h:
                        errs |= set(n[1:]) - {h} if n[0] == op and h in n[1:] else {n}
            if not self.ctx.ob("both bounds collect the same error", len(errs) == 1, inst, str([show(x)[:200] for x in errs])):
                continue
            e = errs.pop()
            items = [x for x in dict.fromkeys(subterms(e)) if x[0] in ("item", "sel") and contains(x[1], lambda y: y[0] == "call" and matches(y[1], SOLVE))]
            if not self.ctx.ob("the error is that at a root", len(items) == 1, inst, show(e)[:300]):
                continue
            t = items[0]
            src = [y for y in subterms(t) if y[0] == "call" and matches(y[1], SOLVE)][0]
            for bk in r.back:
                nl, nh = (ip.read_loc(bk, (x[1][1], x[2])) for x in (a, b))
                inside = ">" not in flt_orders(bk, F(0.0), t) and "<" not in flt_orders(bk, F(1.0), t)
                outside = not ({"<", "="} & flt_orders(bk, F(0.0), t)) or not ({">", "="} & flt_orders(bk, F(1.0), t))
                low = nl[0] == "fmin" or nl is e and ">" not in flt_orders(bk, e, hl) or nl is hl and "<" not in flt_orders(bk, e, hl)
                high = nh[0] == "fmax" or nh is e and "<" not in flt_orders(bk, e, hh) or nh is hh and ">" not in flt_orders(bk, e, hh)
                self.ctx.ob("no root inside is left out", outside or low and high, inst, facts_show(bk)[:300])
            done = all(any(v is True and k[0] == "done" and contains(k[1], lambda y: y is src) for k, v in x.facts.items()) or t[0] == "sel" and "<" not in int_orders(x, t[2], ip.length(t[1])) for x in r.exit)
            self.ctx.ob("all roots are gone through", done and r.exit, inst, "")
            z = T("sym", "t")
            e, fs = subst_term(e, {t: z}), [subst_term(x, short) for x in src[2:6]]
            num, den = frat(subst_term(e, short), {})
            if not self.ctx.ob("the error is a polynomial", list(den) == [()], inst, show(e)[:300]):
                continue
            num = scaled(num, 1 / den[()])
            q = self.split(num, sym)
            self.ctx.ob("the error is how far a quadratic curve is from the parabola", q is not None, inst, "%s" % show(subst_term(e, short))[:500])
            co = by_power(num, z)
            want = [scaled(co.get(k + 1, {}), k + 1) for k in range(4)]
            frs = [frat(x, {}) for x in fs]
            ok = all(list(d) == [()] for _, d in frs) and max(co, default=0) <= 4 and proportional(want, [scaled(n, 1 / d[()]) for n, d in frs])
            self.ctx.ob("errors are looked at where they can be extreme", ok, inst, "%s" % [show(x)[:200] for x in fs])
            if q is not None:
                out.append(tuple({k: v for k, v in by_power(x, z).items() if v} for x in q))
        return out

    def split(self, num, sym):
        """(x, y) of the curve if num is x - P0 - P1 y - P2 y^2."""
        part = lambda v: {tuple(x for x in m if x is not v): c for m, c in num.items() if sum(1 for x in m if x is v) == 1 and not any(x in sym and x is not v for x in m)}
        x = {m: c for m, c in num.items() if not any(v in sym for v in m)}
        one, y = part(sym[0]), scaled(part(sym[1]), -1)
        want = add(x, {(sym[0],): 1}, -1)
        want = add(want, mul(y, {(sym[1],): 1}), -1)
        want = add(want, mul(mul(y, y), {(sym[2],): 1}), -1)
        return (x, y) if one == {(): -1} and want == num else None

    # ---- differences

    def sub(self):
        inst = [i for i in self.P.insts if i["local"] and i["body"] and i["name"] == "sub" and "EstParab" in i["path"]]
        if not self.ctx.ob("parabolas have a difference", len(inst) == 1, None, str([i["path"] for i in inst])):
            return
        ip, args, outs = self.ctx.analyse(inst[0])
        a, b = args
        get = lambda t, n: ip.project(t, ("f", 0, self.f[n]), None)
        other = {"c0": "c0", "c1": "c1", "c2": "c2", "dmin": "dmax", "dmax": "dmin"}
        for v, s in outs:
            for n, o in other.items():
                want = add(fpoly(get(a, n)), fpoly(get(b, o)), -1)
                self.ctx.ob("the difference of parabolas has the difference of coefficients, and the error of both", fpoly(get(v, n)) == want, inst[0], "%s: %s" % (n, show(get(v, n))[:200]))

    # ---- refined roots

    def newton(self):
        inst = self.P.one(key=CU + "solve_cubic_in_unit_interval")
        old, models.UNROLL = models.UNROLL, 8
        try:
            ip, args, outs = self.ctx.analyse(inst, opaque=["re:solve_cubic$"], keep_rel=True, pull=True)
        finally:
            models.UNROLL = old
        zero = F(0.0)
        for v, s in outs:
            base = v
            while True:
                l = loop_at(ip, base)
                if l is None:
                    break
                base = l[3]
            ok = base[0] == "call" and base[1].endswith("solve_cubic") and base[2:4] == tuple(args[0:2]) and base[4] in (args[2], zero) and base[5] in (args[3], zero)
            for c, b in zip(args[2:4], base[4:6] if ok else ()):
                # (an unordered comparison has a coefficient that is not a number)
                self.ctx.ob("a leading coefficient is left out only if it is small beside the others", b is c or self.small(s, c, args), inst, "%s where %s" % (show(base)[:200], facts_show(s)[:300]))
            self.ctx.ob("the roots are those of the polynomial, or of it without its smallest leading coefficients", ok, inst, show(base)[:300])
        # every step divides the value of the polynomial by that of its derivative
        seen = set()
        for st in [b for r in ip.records for b in r.back]:
            for root, p, x in slots(ip, st):
                while x[0] == "store":
                    seen.add((x[1], x[2], x[3]))
                    x = x[1]
        for coll, i, new in seen:
            x0 = T("sel", coll, i)
            bad = self.path(new, x0, args)
            self.ctx.ob("roots are only refined by Newton's steps of the same polynomial", bad is None, inst, show(bad)[:600] if bad is not None else "")
        self.ctx.ob("roots are refined", bool(seen), inst, "")

    def small(self, s, c, args):
        sizes = {T("fabs", x) for x in args[:4]}
        for (a, b), o in s.rel.items():
            for p, q, less in ((a, b, "<"), (b, a, ">")):
                p, q = fpoly(p), fpoly(q)
                if list(p) != [(T("fabs", c),)] or len(q) != 1 or not set(o) <= {less, "=", "u"}:
                    continue
                (m, k), = q.items()
                if len(m) == 1 and leaves_of(m[0], "fmax") <= sizes and 0 < k <= p[T("fabs", c),] / 1000:
                    return True
        return False

    def path(self, t, x0, args):
        """The first value on the way from the old root to t that is not made by a Newton step; None if there is none."""
        while t is not x0:
            if t[0] == "fsub":
                prev, step = t[1], t[2]
            else:
                return t
            if not self.newtons(prev, step, args):
                return t
            t = prev
        return None

    def newtons(self, x, step, args):
        z = T("sym", "x")
        step = subst_term(step, {x: z})
        quot = step
        if step[0] == "fcopysign":
            quot = step[2]
            size = step[1]
            if not (size is T("fabs", quot) or size[0] == "fmin" and T("fabs", quot) in size[1:]):
                return False
        if quot[0] != "fdiv":
            return False
        val, der = fpoly(quot[1]), fpoly(quot[2])
        c0, c1, c2, c3 = args[:4]
        power = lambda k: {(z,) * k: 1}
        want = {}
        dwant = {}
        for k, c in enumerate((c0, c1, c2, c3)):
            want = add(want, mul(fpoly(c), power(k)))
            if k:
                dwant = add(dwant, scaled(mul(fpoly(c), power(k - 1)), k))
        return val == want and der == dwant
