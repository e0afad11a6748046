"""Points, numbers and typed lists.  Every conversion, operation and accessor is interpreted abstractly on symbolic values; the result
is compared with what it stands for: coordinates with coordinates, sums with sums (as rational functions), elements with the elements of the
list inside at the number of the index, and iterators with pairs of every position and the element there.  What is fed to a hasher has to
be determined by what equality looks at; signed zeros, which are equal, have to be made one before their bits are taken."""
from lib import *
import models
from props.p28 import frat, same_rat

FLOOR = 60
PT, KP, NUM = CRATE + "geom::Point", "kurbo::point::Point", CRATE + "num::CheapOrderedFloat"
LISTS = (("segments::SegVec", "segments::SegIdx"), ("topology::OutputSegVec", "topology::OutputSegIdx"), ("topology::PointVec", "topology::PointIdx"))
HALVES = CRATE + "topology::HalfOutputSegVec"
HASH = "re:Hash>?( for [^:]*)?(>)?::hash$"


def run(ctx):
    P = ctx.P
    ctx.rule("conversions keep coordinates, operations are those of the numbers inside, accessors of typed lists give the element with the number of the index, and equal values feed the same to a hasher")
    ctx.assumption("numbers are not NaN; formulas are compared over the real numbers")
    c = Values(ctx, P)
    for n in ("points", "numbers", "lists", "halves", "hashes"):
        ctx.guard(n, CRATE + n, lambda: getattr(c, n)())


class Values:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.xy = {t: [field_index(P, t, n) for n in "xy"] for t in (PT, KP)}

    def find(self, pred):
        seen, out = set(), []
        for i in self.P.insts:
            if i["local"] and i["body"] and not i["closure"] and i["path"] not in seen and pred(i["path"]):
                seen.add(i["path"])
                out.append(i)
        return out

    def one(self, path):
        c = self.find(lambda p: p == path)
        if not c:
            raise EngineError("%s was not found" % path)
        return c[0]

    def ob(self, name, ok, inst, detail=""):
        return self.ctx.ob(name, ok, inst, detail)

    def at(self, ip, v, ty, k, s=None):
        return ip.project(v, ("f", 0, self.xy[ty][k]), s)

    # ---- points

    def points(self):
        conv = [("<%s as core::convert::From<(f64, f64)>>::from" % PT, None, PT), ("<%s as core::convert::From<%s>>::from" % (PT, KP), KP, PT),
                (CRATE + "geom::<impl core::convert::From<%s> for %s>::from" % (PT, KP), PT, KP), (PT + "::from_kurbo", KP, PT), (PT + "::to_kurbo", PT, KP)]
        for path, a, b in conv:
            inst = self.one(path)
            ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
            for v, s in outs:
                for k in (0, 1):
                    want = ip.project(args[0], ("f", 0, k), s) if a is None else self.at(ip, args[0], a, k, s)
                    self.ob("converting a point keeps its coordinates", same_rat(frat(self.at(ip, v, b, k, s), {}), frat(want, {})), inst, "%s: %s" % ("xy"[k], show(v)[:300]))
        inst = self.one(PT + "::new")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        for v, s in outs:
            for k in (0, 1):
                self.ob("a new point has the given coordinates", self.at(ip, v, PT, k, s) is args[k], inst, show(v)[:300])
        inst = self.one(PT + "::affine")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        t = args[2]
        for v, s in outs:
            for k in (0, 1):
                p, q = (self.at(ip, T("*", a), PT, k) for a in args[:2])
                want = T("fadd", T("fmul", T("fsub", F(1.0), t), p), T("fmul", t, q))
                self.ob("an affine combination has both coordinates combined with the given weight", same_rat(frat(self.at(ip, v, PT, k, s), {}), frat(want, {})), inst, show(v)[:300])

    # ---- numbers

    def numbers(self):
        n = 0
        for op in ("Add", "Sub", "Mul", "Div", "Neg"):
            for inst in self.find(lambda p: p.startswith("<" + NUM + " as core::ops::arith::" + op)):
                n += 1
                ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
                vs = [ip.project(T("*", a) if i and "<&" in inst["path"] else a, ("f", 0, 0), None) for i, a in enumerate(args)]
                want = T("f" + op.lower(), *vs)
                for v, s in outs:
                    got = ip.project(v, ("f", 0, 0), s)
                    self.ob("arithmetic is that of the numbers inside", same_rat(frat(got, {}), frat(want, {})), inst, show(v)[:200])
        for inst in self.find(lambda p: p == "<%s as core::convert::From<f64>>::from" % NUM or p == NUM + "::into_inner"):
            n += 1
            ip, args, outs = self.ctx.analyse(inst)
            for v, s in outs:
                a, b = (ip.project(x, ("f", 0, 0), s) for x in (v, args[0]))
                self.ob("the number put in is the one taken out", a is args[0] or v is b, inst, show(v)[:200])
        self.ob("numbers are made and compared", n > 0, None, "")

    # ---- lists

    def lists(self):
        for vec, idx in LISTS:
            vec, idx = CRATE + vec, CRATE + idx
            f = field_index(self.P, vec, "inner")
            num = lambda ip, v, s: ip.project(v, ("f", 0, 0), s)
            for m in ("index", "index_mut"):
                inst = self.one("<%s<T> as core::ops::index::%s<%s>>::%s" % (vec, "Index" if m == "index" else "IndexMut", idx, m))
                ip, args, outs = self.ctx.analyse(inst)
                for v, s in outs:
                    want = T("sel", T("fld", T("*", args[0]), 0, f), num(ip, args[1], s))
                    self.ob("an index gives the element with its number", models.deref(ip, s, v) is want, inst, show(v)[:200])
            own = {i["name"]: i for i in self.find(lambda p: p.startswith(vec + "::<T>::"))}
            for m in sorted(own):
                self.method(own[m], m, vec, idx, f)

    def method(self, inst, m, vec, idx, f):
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        inner = T("fld", T("*", args[0]), 0, f) if args else None
        what = lambda v: "%s: %s" % (m, show(v)[:300])
        get = lambda v, s: ip.project(v, ("f", 0, f), s)
        for v, s in outs:
            if m == "from_vec":
                self.ob("a typed list has the elements of the list it is made of", get(v, s) is args[0], inst, what(v))
            elif m == "with_capacity":
                self.ob("a new list is empty", ip.length(get(v, s)) is I(0), inst, what(v))
            elif m in ("len", "is_empty"):
                n = ip.length(inner)
                ok = v is n if m == "len" else v in (T("cmp", "Eq", "i", n, I(0)), T("cmp", "Eq", "i", I(0), n)) or v[0] == "b" and ("=" in int_orders(s, n, I(0))) == v[1] and (v[1] is False or int_orders(s, n, I(0)) == {"="})
                self.ob("the length is that of the list inside", ok, inst, what(v))
            elif m == "push":
                now = get(models.deref(ip, s, args[0]), s)
                self.ob("a new element is the last one", now is T("push", inner, args[1]), inst, show(now)[:300])
                self.ob("the index answered is that of the new element", v[0] == "agg" and v[1] == idx and v[3] is ip.length(inner), inst, what(v))
            elif m in ("indices", "iter", "iter_mut"):
                self.every(ip, inst, v, s, idx, inner, m)
            elif m == "with_size":
                self.sized(ip, inst, [get(v, s)], args[0], s)

    def every(self, ip, inst, it, s, idx, inner, m):
        """At every position the index with this number and the element there, and nothing beyond the end."""
        k = T("sym", "k")
        s = engine.int_restrict(s, k, I(0), frozenset(">=")) or s
        if models.is_iter(it):
            els, skips, ends = models.gen_elem(ip, it, s, ("p40", 0), engine.Frame(inst, "p40", 0, None, ()), k)
        elif it[0] == "agg" and it[1].endswith("::Range"):
            els, skips, ends = [], [1], []
        else:
            els, skips, ends = [], [1], []
        n = ip.length(inner)
        ok = bool(els) and not skips
        for e, st in els:
            ok &= int_orders(st, k, n) <= {"<"}
            i = e if m == "indices" else e[3] if e[0] == "agg" else e
            ok &= i[0] == "agg" and i[1] == idx and i[3] is k
            if m != "indices":
                ok &= e[0] == "agg" and len(e) == 5 and models.deref(ip, st, e[4]) is T("sel", inner, k)
        ok &= all("<" not in int_orders(st, k, n) for st in ends)
        self.ob("every element is given once, in order, with its own index", ok, inst, "%s: %s" % (m, [show(e)[:200] for e, _ in els]))

    def sized(self, ip, inst, lists, size, s):
        for t in lists:
            self.ob("a list of a given size has as many elements", self.counted(ip, inst, t, size, s), inst, show(t)[:300])

    def counted(self, ip, inst, t, size, s):
        if t[0] == "after" and t[1][0] == "call" and matches(t[1][1], "re:::resize(_with)?$"):
            return t[2] == 0 and t[1][3] is size
        if t[0] == "loop":
            return self.filled(ip, t, size, s)
        if t[0] != "collect":
            return ip.length(t) is size
        n = models.known_len(ip, t[1], s)
        if n is not None:
            return n is size

        def bare(x):
            while models.is_iter(x) and x[4] is I(0):
                x = x[3]
            return x
        src = bare(t[1])
        if src[0] != "take" or src[2] is not size:
            return False
        inner = bare(src[1])
        if inner[0] == "call" and matches(inner[1], "re:iter::.*::repeat(_with)?$"):
            return True
        if inner[0] != "fromfn":
            return False
        # as many as asked for, if what they are taken from does not end by itself
        k = T("sym", "k")
        st = engine.int_restrict(s, k, I(0), frozenset(">=")) or s
        els, skips, ends = models.elems(ip, inner, k, st, ("p40", 0), engine.Frame(inst, "p40", 0, None, ()))
        return bool(els) and not skips and not ends

    def filled(self, ip, t, size, s):
        """One element is added in each round, and there are as many rounds."""
        l = loop_at(ip, t)
        if l is None or ip.length(l[3]) is not I(0):
            return False
        rs = recs_of(ip, l[0], s)
        ok = bool(rs)
        for r in rs:
            for z in r.back:
                h, n = (ip.length(ip.read_loc(x, (l[1][1], l[2]))) for x in (r.head, z))
                ok &= n is iadd(h, I(1))
                count = [(rt, p) for rt, p, x in slots(ip, z) if (rt, p) != (l[1][1], l[2])]
                ok &= any(self.steps(ip, r, z, rt, p) and ip.read_loc(r.pre, (rt, p)) is I(0) and int_orders(z, ip.read_loc(r.head, (rt, p)), size) <= {"<"}
                          and all("<" not in int_orders(x, ip.read_loc(x, (rt, p)), size) for x in r.exit) for rt, p in count)
        return ok

    def steps(self, ip, r, z, rt, p):
        try:
            return ip.read_loc(z, (rt, p)) is iadd(ip.read_loc(r.head, (rt, p)), I(1))
        except (EngineError, TypeError, IndexError):
            return False

    # ---- lists for both halves

    def halves(self):
        P = self.P
        a, b = field_index(P, HALVES, "start"), field_index(P, HALVES, "end")
        H = CRATE + "topology::HalfOutputSegIdx"
        first, num = field_index(P, H, "first_half"), field_index(P, H, "idx")
        used = {}
        for m in ("index", "index_mut"):
            inst = self.one("<%s<T> as core::ops::index::%s<%s>>::%s" % (HALVES, "Index" if m == "index" else "IndexMut", H, m))
            ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
            half = T("fld", args[1], 0, first)
            for v, s in outs:
                got = models.deref(ip, s, v)
                for h in (True, False):
                    if not holds(s, {half: h}, partial=True):
                        continue
                    if got[0] != "sel" or got[1][0] != "fld" or got[1][1] is not T("*", args[0]):
                        self.ob("a half's index gives an element of its list", False, inst, show(got)[:200])
                        continue
                    n = T("fld", T("fld", args[1], 0, num), 0, 0)
                    self.ob("a half's index gives the element with its number", got[2] is n, inst, show(got)[:200])
                    used.setdefault((m, h), set()).add(got[1][3])
        both = [used.get(("index", h), set()) for h in (True, False)]
        self.ob("each half has its own list", all(len(x) == 1 for x in both) and both[0] != both[1] and both[0] | both[1] == {a, b}, None, str(both))
        self.ob("elements are changed where they are found", both == [used.get(("index_mut", h), set()) for h in (True, False)], None, str(used))
        inst = self.one(HALVES + "::<T>::with_size")
        ip, args, outs = self.ctx.analyse(inst, keep_rel=True)
        for v, s in outs:
            self.sized(ip, inst, [ip.project(v, ("f", 0, f), s) for f in (a, b)], args[0], s)

    # ---- hashes

    def hashes(self):
        for inst in self.find(lambda p: p.endswith(" as core::hash::Hash>::hash")):
            ty = inst["path"][1:].split(" as ")[0]
            if not ty.startswith(CRATE):
                continue
            ip, args, outs = self.ctx.analyse(inst, opaque=[HASH], keep_rel=True)
            for v, s in outs:
                for e in s.ev:
                    if e[0] == "call" and matches(e[1], HASH):
                        self.fed(ip, inst, args[0], models.deref(ip, s, e[2][0]), s)

    def fed(self, ip, inst, me, t, s):
        bits = [x for x in subterms(t) if x[0] == "fto_bits"]
        for x in bits:
            y = x[1]
            z = y[0] == "f" and y is not F(-0.0) or "=" not in flt_orders(s, y, F(0.0)) or y[0] == "fadd" and any(w is F(0.0) and str(w[1]) == "0.0" for w in y[1:])
            self.ob("zeros of both signs, which are equal, are fed to the hasher as one", z, inst, show(t)[:200])
        self.ob("a hasher is fed with what equality compares", contains(t, lambda x: x is T("*", me)) or not contains(t, lambda x: x[0] in ("sym", "fld", "sel", "arg")), inst, show(t)[:200])
