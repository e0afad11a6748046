"""The comparison cache and the functions that delegate to it are interpreted abstractly, the comparison of two curves
being left uninterpreted: on every path the result is either what the map holds for the pair, or the comparison of
exactly these two curves with the tolerances of the cache, and then the map holds it for the pair and its mirror image
for the swapped pair."""
from lib import *

FLOOR = 12
CC = CRATE + "order::ComparisonCache"
SW = CRATE + "sweep::sweep_line::"
OPAQUE = ["re:^linesweeper::curve::", "re:to_kurbo_cubic$"]
CO = CRATE + "curve::CurveOrder"


def run(ctx):
    ctx.rule("a cached comparison is that of the pair asked about, with the tolerances of the cache; the swapped pair holds its mirror image")
    ctx.assumption("what curve::intersect_cubics, CurveOrder::with_y_slop and CurveOrder::flip compute is a matter of other properties")
    c = Cache(ctx)
    for n in ("compare", "new", "sweeper", "delegates"):
        ctx.guard(n, CC, getattr(c, n))


class Cache:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.f = {n: field_index(self.P, CC, n) for n in ("inner", "accuracy", "tolerance", "y_slop")}
        self.nf = 2

    def same(self, ip, s, a, b):
        """Two comparisons are the same, field by field."""
        return a is b or all(ip.project(a, ("f", 0, i), s) is ip.project(b, ("f", 0, i), s) for i in range(self.nf))

    def compare(self):
        inst = self.P.one(key=CC + "::compare_segments")
        ip = self.ctx.interp(OPAQUE, keep_rel=True)
        args = ip.sym_args(inst)
        i, j = (ip.project(a, ("f", 0, 0), None) for a in args[2:4])
        seeds = assume(State(), engine.cmp_term("Eq", "i", i, j), False)
        assert len(seeds) == 1
        outs = ip.run(inst, args, seeds[0])
        self.ctx.funcs |= ip.analysed
        me = T("*", args[0])
        at = lambda n: ip.project(me, ("f", 0, self.f[n]), None)
        M0 = at("inner")
        key = lambda x: tuple(ip.project(ip.project(x, ("f", 0, k), None), ("f", 0, 0), None) for k in (0, 1)) if x[0] == "agg" else None
        fwd, bwd = (i, j), (j, i)
        segs = T("*", args[1])
        n = {"hit": 0, "miss": 0}

        def known(s, want):
            """Does the map hold this pair at the start?  (True / False / None)"""
            for t, v in s.facts.items():
                if t[0] == "haskey" and t[1] is M0 and key(t[2]) == want:
                    return v
            return None

        for v, s in outs:
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:300])
            for nm in ("accuracy", "tolerance", "y_slop"):
                now = ip.read_loc(s, self.at(ip, args[0], nm))
                self.ctx.ob("comparing leaves the %s alone" % nm, now is at(nm), inst, show(now)[:200])
            M = ip.read_loc(s, self.at(ip, args[0], "inner"))
            stored = {}
            m = M
            while m[0] == "store":
                k = key(m[2])
                if k is None:
                    raise EngineError("which pair is stored: %s" % show(m[2])[:200])
                stored.setdefault(k, m[3])
                m = m[1]
            if m is not M0:
                raise EngineError("what becomes of the map: %s" % show(m)[:200])
            self.ctx.ob("only the pair and the swapped pair are stored", set(stored) <= {fwd, bwd}, inst, show(M)[:300])
            fresh = any(x[0] == "call" and "intersect_cubics" in x[1] for x in subterms(v))
            if not fresh:
                n["hit"] += 1
                direct = [x for x in self.held(ip, v, M0, key)]
                ok = any(k == fwd and not fl and known(s, fwd) is True or k == bwd and fl and known(s, bwd) is True for k, fl in direct)
                self.ctx.ob("a pair that is held is answered with what is held", ok, inst, what)
                for k, x in stored.items():
                    self.ctx.ob("what is stored along with a held pair is the same comparison",
                                self.same(ip, s, x, v) if k == fwd else self.flipped(ip, s, x, v), inst, show(M)[:400])
                continue
            n["miss"] += 1
            self.ctx.ob("the comparison is that of the two curves, in order", self.right(ip, s, v, segs, i, j, at), inst, what)
            self.ctx.ob("the pair is stored", fwd in stored and self.same(ip, s, stored[fwd], v), inst, show(M)[:600])
            self.ctx.ob("the swapped pair is stored, mirrored", bwd in stored and self.flipped(ip, s, stored[bwd], v), inst, show(M)[:600])
        self.ctx.ob("a pair is compared at most once", n["hit"] > 0, inst, str(n))
        self.ctx.ob("a pair that is not held is compared", n["miss"] > 0, inst, str(n))

    def at(self, ip, ref, n):
        root, path = ip.target(ref)
        return root, path + (("f", 0, self.f[n]),)

    def base(self, ip, v, s):
        """The term all of whose fields make up v."""
        if v[0] == "agg" and v[1] == CO:
            b = v[3]
            if b[0] == "fld" and self.same(ip, s, b[1], v):
                return b[1]
        return v

    def flipped(self, ip, s, x, v):
        x = self.base(ip, x, s)
        return x[0] == "call" and x[1].endswith("CurveOrder::flip") and self.same(ip, s, unref(x[2]), v)

    def held(self, ip, v, M0, key):
        """[(pair, mirrored?)] the entries of the map v may be."""
        out = []
        for x in {y for y in subterms(v) if y[0] == "sel" and y[1] is M0}:
            if self.same(ip, None, x, v):
                out.append((key(x[2]), False))
            elif self.flipped(ip, None, v, x):
                out.append((key(x[2]), True))
        return out

    def right(self, ip, s, v, segs, i, j, at):
        v = self.base(ip, v, s)
        if not (v[0] == "call" and v[1].endswith("CurveOrder::with_y_slop") and v[3] is at("y_slop")):
            return False
        c = self.base(ip, v[2], s)
        if not (c[0] == "call" and c[1].endswith("curve::intersect_cubics") and c[4] is at("tolerance") and c[5] is at("accuracy")):
            return False
        return all(self.curve(ip, x, segs, k) for x, k in ((c[2], i), (c[3], j)))

    def curve(self, ip, t, segs, k):
        """t is the cubic of segment k."""
        if not (t[0] == "call" and t[1].endswith("to_kurbo_cubic")):
            return False
        x = unref(t[2])
        f = ip.project(segs, ("f", 0, field_index(self.P, CRATE + "segments::Segments", "segs")), None)
        return x[0] == "sel" and x[2] is k and contains(x[1], lambda y: y is f)

    # ---- making caches

    def made(self, ip, v, s, inst, tol, acc, slop, what):
        g = lambda n: ip.project(v, ("f", 0, self.f[n]), s)
        eq = lambda a, b: fpoly(a) == fpoly(b)
        self.ctx.ob("%s: nothing is held at first" % what, ip.length(g("inner")) is I(0) or g("inner")[0] == "empty", inst, show(v)[:200])
        self.ctx.ob("%s: tolerance" % what, eq(g("tolerance"), tol), inst, show(v)[:200])
        self.ctx.ob("%s: accuracy" % what, eq(g("accuracy"), acc), inst, show(v)[:200])
        self.ctx.ob("%s: slop" % what, eq(g("y_slop"), slop), inst, show(v)[:200])

    def new(self):
        for n, slop in (("new", None), ("new_without_y_slop", F(0.0))):
            inst = self.P.one(key=CC + "::" + n)
            ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
            for v, s in outs:
                self.made(ip, v, s, inst, args[0], args[1], args[0] if slop is None else slop, n)

    def sweeper(self):
        inst = self.P.one(key=SW + "Sweeper::<'_>::new")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True, opaque=OPAQUE + ["re:EventQueue::"])
        eps = args[1]
        half = T("fdiv", eps, F(2.0))
        for v, s in outs:
            for n, tol in (("comparisons", eps), ("conservative_comparisons", T("fmul", F(4.0), eps))):
                c = ip.project(v, ("f", 0, field_index(self.P, SW + "Sweeper", n)), s)
                self.made(ip, c, s, inst, tol, half, tol, "the sweep's %s" % n)

    # ---- delegates

    def delegates(self):
        for n, cache in (("Sweeper::<'_>::compare_segments", "comparisons"),
                         ("Sweeper::<'_>::compare_segments_conservatively", "conservative_comparisons"),
                         ("SweepLine::<'_, '_, '_>::compare_segments", "comparisons")):
            inst = self.P.one(key=SW + n)
            ip, args, outs = self.ctx.analyse(inst, keep_rel=True, opaque=OPAQUE + ["re:ComparisonCache::"])
            me = T("*", args[0])
            if n.startswith("SweepLine"):
                me = T("*", ip.project(me, ("f", 0, field_index(self.P, SW + "SweepLine", "state")), None))
            want = ip.project(me, ("f", 0, field_index(self.P, SW + "Sweeper", cache)), None)
            segs = ip.project(me, ("f", 0, field_index(self.P, SW + "Sweeper", "segments")), None)
            for v, s in outs:
                ok = v[0] == "call" and v[1].endswith("ComparisonCache::compare_segments") and unref(v[2]) is want and v[3:] == (segs, args[1], args[2])
                self.ctx.ob("%s asks the right cache about the pair" % n.replace("::<'_>", "").replace("::<'_, '_, '_>", ""), ok, inst, show(v)[:300])
