"""The winding-number types of the public API are interpreted abstractly on symbolic arguments and
their outcome tables compared with the algebra the documentation promises: the contribution of one
edge is +1 or -1 (by direction) in the counter of the edge's own set and 0 in the other, addition
and in-place addition are component-wise and agree, the default is zero, equality holds exactly when
all components agree, and an edge is invisible exactly when both of its sides agree."""
from lib import *

FLOOR = 11
BW = CRATE + "topology::BinaryWindingNumber"
HW = CRATE + "topology::HalfSegmentWindingNumbers"
TR = CRATE + "topology::WindingNumber"
VALS = (-2**31, -7, -1, 0, 1, 2, 5, 2**31 - 1)
SMALL = (-7, -1, 0, 1, 2, 5)


def impl(P, ty, trait, name):
    k = "<%s as %s>::%s" % (ty, trait, name)
    r = [i for i in P.insts if i["key"] == k and i["body"]]
    if not r:
        raise EngineError("anchor not found: %s" % k)
    return r[0]


def run(ctx):
    P = ctx.P
    ctx.rule("outcome table of each winding-number operation = the documented algebra")
    ia, ib = field_index(P, BW, "shape_a"), field_index(P, BW, "shape_b")

    def pair(v):
        return (v[2 + ia], v[2 + ib])

    def f(t, i):
        return T("fld", t, 0, i)

    def single():
        inst = impl(P, BW, TR, "single")
        ip, a, outs = ctx.analyse(inst)
        for tag in (True, False):
            for pos in (True, False):
                v = pair(table(outs, {a[0]: tag, a[1]: pos}))
                s = 1 if pos else -1
                ctx.ob("binary single(tag=%s, positive=%s)" % (tag, pos), v == ((s, 0) if tag else (0, s)), inst, "gives %s" % (v,))
    ctx.guard("binary single", BW, single)

    def isingle():
        inst = impl(P, "i32", TR, "single")
        ip, a, outs = ctx.analyse(inst)
        for pos in (True, False):
            v = table(outs, {a[1]: pos})
            ctx.ob("i32 single(positive=%s)" % pos, v == (1 if pos else -1), inst, "gives %s" % (v,))
    ctx.guard("i32 single", "i32", isingle)

    def add():
        inst = impl(P, BW, "core::ops::arith::Add", "add")
        ip, a, outs = ctx.analyse(inst)
        for v, s in outs:
            for nm, i in (("shape_a", ia), ("shape_b", ib)):
                got = v[3 + i] if v[0] == "agg" else f(v, i)
                ctx.ob("add: %s is the sum of the two %s" % (nm, nm), got is iadd(f(a[0], i), f(a[1], i)), inst, show(got))
    ctx.guard("add", BW, add)

    def addassign():
        inst = impl(P, BW, "core::ops::arith::AddAssign", "add_assign")
        ip, a, outs = ctx.analyse(inst)
        for v, s in outs:
            new = ip.read_loc(s, (("P", a[0]), ()))
            old = T("*", a[0])
            for nm, i in (("shape_a", ia), ("shape_b", ib)):
                got = new[3 + i] if new[0] == "agg" else f(new, i)
                ctx.ob("add_assign: %s" % nm, got is iadd(f(old, i), f(a[1], i)), inst, show(got))
    ctx.guard("add_assign", BW, addassign)

    def default():
        inst = impl(P, BW, "core::default::Default", "default")
        ip, a, outs = ctx.analyse(inst)
        for v, s in outs:
            ctx.ob("default is zero", pair(ev(v, {})) == (0, 0), inst, show(v))
    ctx.guard("default", BW, default)

    def eq():
        inst = impl(P, BW, "core::cmp::PartialEq", "eq")
        ip, a, outs = ctx.analyse(inst)
        l, r = T("*", a[0]), T("*", a[1])
        bad = []
        n = 0
        for x in SMALL:
            for y in SMALL:
                for z in SMALL:
                    for w in SMALL:
                        n += 1
                        got = table(outs, {f(l, ia): x, f(l, ib): y, f(r, ia): z, f(r, ib): w})
                        if got != ((x, y) == (z, w)):
                            bad.append((x, y, z, w))
        ctx.stats["equality rows"] = n
        ctx.ob("eq compares both components", not bad, inst, str(bad[:5]))
    ctx.guard("eq", BW, eq)

    def trivial():
        inst = [i for i in P.insts if i["body"] and i["path"] == HW + "::<W>::is_trivial" and i["key"].endswith("<%s>::is_trivial" % BW)]
        if not inst:
            return    # a private helper; P14 looks at the decision where it is taken
        inst = inst[0]
        ip, a, outs = ctx.analyse(inst)
        icc, icw = field_index(P, HW, "counter_clockwise"), field_index(P, HW, "clockwise")
        h = T("*", a[0])
        bad = []
        for x in SMALL:
            for y in SMALL:
                for z in SMALL:
                    for w in SMALL:
                        env = {f(f(h, icc), ia): x, f(f(h, icc), ib): y, f(f(h, icw), ia): z, f(f(h, icw), ib): w}
                        if table(outs, env) != ((x, y) == (z, w)):
                            bad.append((x, y, z, w))
        ctx.ob("an edge is invisible exactly when its two sides agree", not bad, inst, str(bad[:5]))
    ctx.guard("trivial", HW, trivial)
