"""Segments as curves over the height.  The small functions that read a segment are interpreted abstractly in every case; what they
answer is compared with the end points, with the largest or smallest of the right coordinates, or, as rational functions, with the
formula of a line or curve.  The search for the parameter at a height is decided with the solver as a term: it has to be given the
polynomial of the curve less the height, and the ends of the curve are answered exactly."""
from lib import *
from props.p28 import frat, same_rat, add
from props.p33 import by_power, proportional, subst_term

FLOOR = 40
GE = CRATE + "geom::"
SG = GE + "Segment"
SI = GE + "SegmentInner"
PT = GE + "Point"
CURVE = "kurbo::cubicbez::CubicBez"
SOLVE_T, SOLVE_X = CRATE + "curve::solve_t_for_y", CRATE + "curve::solve_x_for_y"
OPAQUE = [SOLVE_T, SOLVE_X, "re:bounding_box$", "re:subsegment$"]


def run(ctx):
    P = ctx.P
    ctx.rule("a segment's ends, bounds and places at a height are those of the line or curve that it stores")
    ctx.assumption("kurbo's bounding box, subsegment and eval, and the root finder of polycool, are as documented; level segments are lines")
    c = Geometry(ctx, P)
    for n in ("points", "ends", "made", "kurbo", "level", "bounds", "place", "near", "parameter", "curves"):
        ctx.guard(n, SG, lambda: getattr(c, n)())


class Geometry:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.inner = field_index(P, SG, "inner")
        self.line, self.cubic = variant_index(P, SI, "Line"), variant_index(P, SI, "Cubic")
        self.fl = [variant_field(P, SI, "Line", "p%d" % i) for i in range(2)]
        self.fc = [variant_field(P, SI, "Cubic", "p%d" % i) for i in range(4)]
        self.px, self.py = field_index(P, PT, "x"), field_index(P, PT, "y")
        self.ck = [field_index(P, CURVE, "p%d" % i) for i in range(4)]

    def inst(self, n, of=SG):
        return self.P.one(key=of + "::" + n)

    def pts(self, ip, seg, s):
        """Control points of a stored segment, or None if it is not known which kind it is."""
        i = ip.project(seg, ("f", 0, self.inner), s)
        k = i[2] if i[0] == "agg" else s.facts.get(T("discr", i))
        if isinstance(k, frozenset):
            k = [x for x in (self.line, self.cubic) if x not in k]
            k = k[0] if len(k) == 1 else None
        if k == self.line:
            return [ip.project(i, ("f", k, f), s) for f in self.fl]
        if k == self.cubic:
            return [ip.project(i, ("f", k, f), s) for f in self.fc]
        return None

    def x(self, ip, p):
        return ip.project(p, ("f", 0, self.px), None)

    def y(self, ip, p):
        return ip.project(p, ("f", 0, self.py), None)

    def k(self, ip, c, i, d):
        return ip.project(ip.project(c, ("f", 0, self.ck[i]), None), ("f", 0, d), None)

    def cases(self, n, opaque=OPAQUE, kinds=2):
        """(interp, args, value, state, control points) of every outcome of a method."""
        inst = self.inst(n)
        ip, args, outs = self.ctx.analyse(inst, opaque=opaque, keep_rel=True, pull=True, keep_facts=lambda k: k[0] == "discr")
        seen = set()
        for v, s in outs:
            p = self.pts(ip, T("*", args[0]), s)
            if self.ctx.ob("%s tells lines from curves" % n, p is not None, inst, facts_show(s)[:200]):
                seen.add(len(p))
                yield inst, ip, args, v, s, p
        self.ctx.ob("%s answers for lines and curves" % n, seen == {2, 4} or kinds == 1, inst, str(seen))

    def same(self, a, b):
        return same_rat(frat(a, {}), frat(b, {}))

    # ---- points

    def points(self):
        for n in ("new", "affine", "to_kurbo", "from_kurbo"):
            inst = self.inst(n, PT)
            ip, args, outs = self.ctx.analyse(inst)
            for v, s in outs:
                if n == "new":
                    ok = self.x(ip, v) is args[0] and self.y(ip, v) is args[1]
                    self.ctx.ob("a point has the coordinates it is made from", ok, inst, show(v)[:200])
                elif n == "affine":
                    a, b, t = T("*", args[0]), T("*", args[1]), args[2]
                    ok = all(self.same(g(ip, v), T("fadd", T("fmul", T("fsub", F(1.0), t), g(ip, a)), T("fmul", t, g(ip, b)))) for g in (self.x, self.y))
                    self.ctx.ob("an affine combination is on the line through both points", ok, inst, show(v)[:300])
                else:
                    kx, ky = (lambda t: ip.project(t, ("f", 0, 0), None)), (lambda t: ip.project(t, ("f", 0, 1), None))
                    a, b = (args[0], v) if n == "to_kurbo" else (v, args[0])
                    ok = self.x(ip, a) is kx(b) and self.y(ip, a) is ky(b)
                    self.ctx.ob("points keep their coordinates when they are converted", ok, inst, show(v)[:200])
        for inst in [i for i in self.P.insts if i["local"] and i["body"] and i["name"] == "from" and "geom" in i["path"] and "Point" in i["path"]]:
            ip, args, outs = self.ctx.analyse(inst)
            for v, s in outs:
                b, a = inst["body"]["locals"][0], inst["body"]["locals"][1]
                get = []
                for ty, t in ((a, args[0]), (b, v)):
                    ours = self.P.types[ty]["k"] == "adt" and self.P.types[ty]["path"] == PT
                    get.append([ip.project(t, ("f", 0, i), None) for i in ((self.px, self.py) if ours else (0, 1))])
                self.ctx.ob("points keep their coordinates when they are converted", get[0] == get[1], inst, show(v)[:200])

    # ---- ends

    def ends(self):
        for n, i in (("start", 0), ("end", -1)):
            for inst, ip, args, v, s, p in self.cases(n):
                self.ctx.ob("a segment %ss at its %s control point" % (n, "last" if i else "first"), v is p[i] or [self.x(ip, v), self.y(ip, v)] == [self.x(ip, p[i]), self.y(ip, p[i])], inst, show(v)[:200])
        for inst, ip, args, v, s, p in self.cases("is_line"):
            self.ctx.ob("only lines are lines", v[1] is (len(p) == 2), inst, show(v)[:100])

    def made(self):
        for n, of in (("straight", None), ("monotonic_cubic", None), ("from_kurbo_cubic", CURVE)):
            inst = self.inst(n)
            ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
            given = [[self.k(ip, args[0], i, d) for d in (0, 1)] for i in range(4)] if of else [[self.x(ip, a), self.y(ip, a)] for a in args]
            for v, s in outs:
                p = self.pts(ip, v, s)
                if not self.ctx.ob("%s makes a line or a curve" % n, p is not None, inst, show(v)[:200]):
                    continue
                got = [[self.x(ip, q), self.y(ip, q)] for q in p]
                level = "=" in flt_orders(s, given[0][1], given[-1][1])
                if n == "straight":
                    self.ctx.ob("a straight segment has the given ends", got == given, inst, show(v)[:200])
                elif len(p) == 2:
                    self.ctx.ob("only a level curve becomes a line, with the same ends", got == [given[0], given[3]] and flt_orders(s, given[0][1], given[3][1]) == {"="}, inst, show(v)[:200])
                else:
                    self.ctx.ob("a curve that is not level keeps its control points", got == given and not level, inst, "%s where %s" % (show(v)[:200], facts_show(s)[:200]))

    def kurbo(self):
        for inst, ip, args, v, s, p in self.cases("to_kurbo_cubic"):
            got = [[self.k(ip, v, i, d) for d in (0, 1)] for i in range(4)]
            if len(p) == 4:
                self.ctx.ob("a curve has the same control points for kurbo", got == [[self.x(ip, q), self.y(ip, q)] for q in p], inst, show(v)[:300])
                continue
            ok = True
            for d, g in ((0, self.x), (1, self.y)):
                a, b = g(ip, p[0]), g(ip, p[1])
                for i in range(4):
                    q = fpoly(got[i][d])
                    ok = ok and set(q) <= {(a,), (b,)} and abs(q.get((b,), 0) - i / 3) < 1e-12 and abs(q.get((a,), 0) - (1 - i / 3)) < 1e-12
            self.ctx.ob("a line is the curve that runs evenly between its ends", ok, inst, show(v)[:400])

    def level(self):
        for inst, ip, args, v, s, p in self.cases("is_horizontal"):
            if len(p) == 4:
                self.ctx.ob("a curve is never level", v[1] is False, inst, show(v)[:100])
            else:
                a, b = self.y(ip, p[0]), self.y(ip, p[1])
                for val in (True, False):
                    for st in (engine.assume(s, v, val) if v[1] not in (True, False) else [s] if v[1] is val else []):
                        o = flt_orders(st, a, b, False)
                        self.ctx.ob("a line is level if its ends are at the same height", o == {"="} if val else "=" not in o, inst, "%s where %s" % (show(v), facts_show(st)[:200]))

    def bounds(self):
        for n, op in (("min_x", "fmin"), ("max_x", "fmax")):
            for inst, ip, args, v, s, p in self.cases(n):
                got = leaves_of(v, op) - {F(float("inf" if op == "fmin" else "-inf"))}
                want = {self.x(ip, q) for q in p}
                # a coordinate may be left out where it is known not to matter
                out, far = [g for g in got], set(got)
                while out:
                    g = out.pop()
                    for w in want - far:
                        if ("<" if op == "fmin" else ">") not in flt_orders(s, w, g, False):
                            far.add(w)
                            out.append(w)
                ok = got and got <= want <= far
                self.ctx.ob("%s bounds all control points" % n, ok, inst, "%s where %s" % (show(v)[:200], facts_show(s)[:200]))

    # ---- at a height

    def on_line(self, ip, p, y):
        (x0, y0), (x1, y1) = ((self.x(ip, q), self.y(ip, q)) for q in p)
        t = T("fdiv", T("fsub", y, y0), T("fsub", y1, y0))
        return T("fadd", T("fmul", T("fsub", F(1.0), t), x0), T("fmul", t, x1))

    def curve(self, ip, c, p):
        return [[self.k(ip, c, i, d) for d in (0, 1)] for i in range(4)] == [[self.x(ip, q), self.y(ip, q)] for q in p]

    def place(self):
        for inst, ip, args, v, s, p in self.cases("at_y"):
            y = args[1]
            text = "%s where %s" % (show(v)[:300], facts_show(s)[:200])
            if len(p) == 4:
                c = unref(v[2]) if v[0] == "call" else None
                self.ctx.ob("a curve is where it crosses the height", v[0] == "call" and v[1] == SOLVE_X and self.curve(ip, c, p) and v[3] is y, inst, text)
                continue
            o = flt_orders(s, self.y(ip, p[0]), self.y(ip, p[1]), False)
            if o == {"="}:
                self.ctx.ob("a level line is at its eastern end", v is self.x(ip, p[1]), inst, text)
            else:
                self.ctx.ob("a line is where it crosses the height", "=" not in o and self.same(v, self.on_line(ip, p, y)), inst, text)

    def near(self):
        for n, op, other in (("lower", "fmin", "fsub"), ("upper", "fmax", "fadd")):
            for inst, ip, args, v, s, p in self.cases(n):
                y, eps = args[1:3]
                a, b = self.y(ip, p[0]), self.y(ip, p[-1])
                text = "%s where %s" % (show(v)[:600], facts_show(s)[:200])
                if len(p) == 2 and "=" in flt_orders(s, a, b, False):
                    self.ctx.ob("level lines are told apart", flt_orders(s, a, b, False) == {"="}, inst, text)
                    continue        # level lines are not in the sweep line
                rest = [x for x in v[1:] if x is not eps]
                if not self.ctx.ob("%s keeps away by the tolerance" % n, v[0] == other and len(rest) == 1 and (v[0] != "fsub" or v[2] is eps), inst, text):
                    continue
                pick = lambda f, *xs: T(f, *sorted(xs, key=engine.atom_no))
                lo, hi = T("fsub", y, eps), pick("fadd", y, eps)
                first = [pick("fmax", lo, a)] + [p for p, q in ((lo, a), (a, lo)) if "<" not in flt_orders(s, p, q)]
                last = [pick("fmin", hi, b)] + [p for p, q in ((hi, b), (b, hi)) if ">" not in flt_orders(s, p, q)]
                got = leaves_of(rest[0], op)
                dual = {"fmin": "fmax", "fmax": "fmin"}[op]
                got = {g for g in got if g[0] != dual or not leaves_of(g, dual) & (got - {g})}        # absorption
                if len(p) == 2:
                    want = [[frat(self.on_line(ip, p, e), {}) for e in es] for es in (first, last)]
                    have = [frat(g, {}) for g in got]
                    ok = all(any(same_rat(w, h) for h in have for w in ws) for ws in want) and all(any(same_rat(w, h) for ws in want for w in ws) for h in have)
                    self.ctx.ob("%s looks at both ends of the part of a line near the height" % n, ok, inst, text)
                    continue
                R = "kurbo::rect::Rect"
                boxes = {g[1] for g in got if g[0] == "fld"}
                ok = len(boxes) == 1 and {g[3] for g in got} == {field_index(self.P, R, "x0"), field_index(self.P, R, "x1")}
                box = boxes.pop() if boxes else None
                sub = unref(box[2]) if ok and box[0] == "call" and box[1].endswith("bounding_box") else None
                ok = sub is not None and sub[0] == "call" and sub[1].endswith("subsegment") and self.curve(ip, unref(sub[2]), p)
                ts = [ip.project(sub[3], ("f", 0, i), s) for i in (0, 1)] if ok else []
                ok = ok and all(t[0] == "call" and t[1] == SOLVE_T and self.curve(ip, t[2], p) and t[3] in es for t, es in zip(ts, (first, last)))
                self.ctx.ob("%s looks at the part of a curve near the height" % n, ok, inst, text)

    # ---- the parameter at a height

    def height(self, ip, c):
        """Coefficients of the height of a curve as polynomials, from the constant one on."""
        y = [fpoly(self.k(ip, c, i, 1)) for i in range(4)]
        W = [[1], [-3, 3], [3, -6, 3], [-1, 3, -3, 1]]
        out = []
        for w in W:
            p = {}
            for k, q in zip(w, y):
                p = add(p, q, k)
            out.append(p)
        return out

    def parameter(self):
        inst = self.P.one(key=SOLVE_T)
        ip, args, outs = self.ctx.analyse(inst, opaque=["re:polycool.*::roots_between$"], keep_rel=True, pull=True)
        c, y = args
        y0, y1 = self.k(ip, c, 0, 1), self.k(ip, c, 3, 1)
        want = self.height(ip, c)
        want[0] = add(want[0], fpoly(y), -1)
        seen = set()
        for v, s in outs:
            text = "%s where %s" % (show(v)[:300], facts_show(s)[:300])
            o0, o1 = flt_orders(s, y, y0, False), flt_orders(s, y, y1, False)
            if v is F(0.0) or v is F(1.0):
                here, there = (o0, o1) if v is F(0.0) else (o1, o0)
                if here == {"="}:
                    seen.add("start" if v is F(0.0) else "end")
                    continue
                self.ctx.ob("the ends of a curve are found exactly", "=" not in there, inst, text)
                call = self.roots(s)
                none = call is not None and "<" not in int_orders(s, I(0), ip.length(call))
                self.ctx.ob("an end is answered only if there is no root", none and self.polynomial(ip, call, want, s), inst, text)
                a, b = ({T("fabs", T("fsub", y, z)), T("fabs", T("fsub", z, y))} for z in ((y0, y1) if v is F(0.0) else (y1, y0)))
                self.ctx.ob("without a root the nearer end is answered", any(">" not in flt_orders(s, p, q, False) for p in a for q in b), inst, text)
                continue
            self.ctx.ob("the ends of a curve are found exactly", "=" not in o0 and "=" not in o1, inst, text)
            seen.add("root")
            call = v[1] if v[0] == "sel" else None
            self.ctx.ob("the parameter is a root of the height less the given one", call is not None and call[0] == "call" and self.polynomial(ip, call, want, s), inst, text)
            self.ctx.ob("the root that is answered is there", call is not None and int_orders(s, v[2], ip.length(call)) == {"<"}, inst, text)
        self.ctx.ob("ends and roots are answered", seen == {"start", "end", "root"}, inst, str(seen))

    def roots(self, s):
        for k in s.iv:
            for t in subterms(k):
                if t[0] == "call" and t[1].endswith("roots_between"):
                    return t
        return None

    def polynomial(self, ip, call, want, s):
        if not call[1].endswith("roots_between"):
            return False
        poly = unref(call[2])
        arrs = [x for x in subterms(poly) if x[0] == "agg" and x[1] == "array"]
        if len(arrs) != 1 or len(arrs[0]) - 3 != 4:
            return False
        return proportional(want, [fpoly(x) for x in arrs[0][3:]]) and call[3] is F(0.0) and call[4] is F(1.0)

    def curves(self):
        inst = self.P.one(key=SOLVE_X)
        ip, args, outs = self.ctx.analyse(inst, opaque=[SOLVE_T], keep_rel=True)
        c, y = args
        t = T("call", SOLVE_T, c, y)
        z = T("sym", "t")
        x = [fpoly(self.k(ip, c, i, 0)) for i in range(4)]
        W = [[1], [-3, 3], [3, -6, 3], [-1, 3, -3, 1]]
        for v, s in outs:
            co = by_power(fpoly(subst_term(v, {t: z})), z)
            ok = set(co) <= {0, 1, 2, 3}
            for d, w in enumerate(W):
                p = {}
                for k, q in zip(w, x):
                    p = add(p, q, k)
                ok = ok and co.get(d, {}) == p
            self.ctx.ob("the place at a height is that of the curve at the parameter of this height", ok, inst, show(v)[:300])
        inst = self.P.one(key=CRATE + "curve::y_subsegment")
        ip, args, outs = self.ctx.analyse(inst, opaque=[SOLVE_T, "re:subsegment$"], keep_rel=True)
        c, y0, y1 = args
        for v, s in outs:
            subs = {x for x in subterms(v) if x[0] == "call" and x[1].endswith("subsegment")}
            ok = len(subs) == 1
            if ok:
                sub = subs.pop()
                ok = unref(sub[2]) is c and [ip.project(sub[3], ("f", 0, i), s) for i in (0, 1)] == [T("call", SOLVE_T, c, y) for y in (y0, y1)]
                for i in range(4):
                    ok = ok and self.k(ip, v, i, 0) is self.k(ip, sub, i, 0) and self.k(ip, v, i, 1) is {0: y0, 3: y1}.get(i, self.k(ip, sub, i, 1))
            self.ctx.ob("a restricted curve is the part between the heights, and ends exactly there", ok, inst, show(v)[:400])
