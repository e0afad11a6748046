"""Every call path of the two public entry points is interpreted abstractly for each of the 2x4
concrete (fill rule, operation) pairs with everything else symbolic.  On each path that answers Ok
the result must be the contours of the topology built from exactly the caller's two sets (first set
tagged true, second tagged false, no argument swapped or dropped), and the inside-predicate that is
handed over, evaluated abstractly on a symbolic pair of winding numbers, must have the truth table of
the requested operation over the requested fill rule.  The predicate's path conditions may only use
comparisons, remainders and linear arithmetic with constants, so the finite grid of winding numbers
on which the table is compared (all sign and residue classes of every constant that occurs, and the
extreme i32 values) decides it for all integers.  That the accuracy chosen is coarse enough at every
coordinate follows from how it is put together of extremes and absolute values."""
from lib import *

FLOOR = 40
FR, BO, BW = CRATE + "FillRule", CRATE + "BinaryOp", CRATE + "topology::BinaryWindingNumber"
WANT = {
    "Union": lambda a, b: a or b,
    "Intersection": lambda a, b: a and b,
    "Difference": lambda a, b: a and not b,
    "Xor": lambda a, b: a != b,
}
RULE = {"EvenOdd": lambda w: w % 2 != 0, "NonZero": lambda w: w != 0}

POLY = {"i", "b", "cmp", "not", "and", "or", "xor", "lin", "intRem", "intBitAnd", "intDiv", "bool2int", "call"}


def consts(t, out):
    for x in subterms(t):
        if x[0] == "i":
            out.add(abs(x[1]))
        if x[0] == "lin":
            out.add(abs(x[1]))
            out |= {abs(c) for _, c in x[2]}


def grid(outs, a, b):
    """Winding numbers representing all classes the predicate can tell apart."""
    cs = {1, 2}
    for v, s in outs:
        ts = [v] + list(s.facts) + [x for k in s.rel for x in k] + [y for f in s.iv for y, _ in f[1]]
        for t in ts:
            consts(t, cs)
        for lo, hi, ex in s.iv.values():
            cs |= {abs(x) for x in ex} | {abs(x) for x in (lo, hi) if x is not None}
    cs = {c for c in cs if c <= 4096}
    r = max(12, 2 * max(cs) + 3)
    r = min(r, 60)
    return sorted(set(range(-r, r + 1)) | {-2**31, -2**31 + 1, 2**31 - 2, 2**31 - 1} | {s * c + d for c in cs for s in (-1, 1) for d in (-1, 0, 1)})


def check_table(ctx, name, inst, w, outs, fr, op):
    ia, ib = field_index(ctx.P, BW, "shape_a"), field_index(ctx.P, BW, "shape_b")
    A, Bt = T("fld", T("*", w), 0, ia), T("fld", T("*", w), 0, ib)
    g = grid(outs, A, Bt)
    bad = []
    small = [x for x in g if abs(x) < 20]
    pairs = [(x, y) for x in g for y in small] + [(x, y) for x in small for y in g if abs(y) >= 20]
    n = 0
    for x, y in pairs:
        n += 1
        got = table(outs, {A: x, Bt: y})
        want = WANT[op](RULE[fr](x), RULE[fr](y))
        if got != want:
            bad.append((x, y, got, want))
            if len(bad) > 5:
                break
    ctx.stats["winding pairs compared"] = ctx.stats.get("winding pairs compared", 0) + n
    ctx.ob(name, not bad, inst, "; ".join("windings (%d,%d): inside=%s, must be %s" % x for x in bad))


def wref(ip, st, ct):
    return T("sym", "windings", ct)


def run(ctx):
    P = ctx.P
    ctx.rule("Ok result = contours(topology of [(first set,true),(second set,false)], predicate with the truth table of (rule, op))")
    fr_names = [v["name"] for ty in P.types if ty["k"] == "adt" and ty["path"] == FR for v in ty["vs"]]
    bo_names = [v["name"] for ty in P.types if ty["k"] == "adt" and ty["path"] == BO for v in ty["vs"]]
    ctx.ob("fill rules known", sorted(fr_names) == sorted(RULE), FR, str(fr_names))
    ctx.ob("operations known", sorted(bo_names) == sorted(WANT), BO, str(bo_names))
    bref = [i for i, ty in enumerate(P.types) if ty["k"] == "ref" and not ty["mut"] and P.types[ty["t"]].get("path") == BW]
    for entry in ("binary_op", "binary_op_with_eps"):
        inst = P.one(CRATE + entry)
        for fr in fr_names:
            for op in bo_names:
                name = "%s(%s, %s)" % (entry, fr, op)
                ctx.guard(name, inst, lambda: one(ctx, P, inst, entry, name, fr, op, bref))


def one(ctx, P, inst, entry, name, fr, op, bref):
    got = []

    def contours(ip, fn, args, atys, rty, s, site, f):
        st = s.copy()
        w = T("sym", "windings", bref[0] if bref else None)
        outs = ip.call_value(args[1], [w], st, site, f, None)
        if outs is None:
            outs = ip.call_value(T("ref", ("L", -1, 0), ()), [w], st, site, f, None)
        # only what the predicate itself learnt about the windings matters
        base = (dict(s.facts), dict(s.rel), dict(s.iv))
        red = []
        for v, s2 in outs:
            s3 = State()
            s3.facts = {k: x for k, x in s2.facts.items() if k not in base[0]}
            s3.rel = {k: x for k, x in s2.rel.items() if base[1].get(k) != x}
            s3.iv = {k: x for k, x in s2.iv.items() if base[2].get(k) != x}
            red.append((v, s3))
        got.append((ip.content(args[0], s), w, red))
        return None
    ip = ctx.interp()
    args = ip.sym_args(inst)
    args[2] = T("agg", FR, variant_index(P, FR, fr))
    args[3] = T("agg", BO, variant_index(P, BO, op))
    mods = hooks(P, "topology::Topology::<W>::contours", contours)
    opq = ["topology::Topology::<W>::contours", "topology::Topology::<W>::from_paths", "re:::bounding_box$",
           "re:::is_nan$", "re:::is_finite$", "re:::check_finite$"]
    ip, args, outs = ctx.analyse(inst, args, opaque=opq, models=mods)
    nok = 0
    for v, s in outs:
        if v[0] != "agg":
            ctx.fail(name + ": result form", inst, show(v)[:300])
            continue
        if v[2] != 0:
            continue
        nok += 1
        r = v[3]
        ok = r[0] == "call" and matches(r[1], "topology::Topology::<W>::contours")
        ctx.ob(name + ": Ok result is contours() of the topology", ok, inst, show(r)[:300])
        if not ok:
            continue
        top = r[2]
        while top[0] == "&":
            top = top[1]
        src = [x for x in subterms(top) if x[0] == "call" and matches(x[1], "topology::Topology::<W>::from_paths")]
        ok = len(src) == 1 and top[0] == "fld" and top[1] is src[0] and top[2] == 0
        if ctx.ob(name + ": topology comes from from_paths", ok, inst, show(top)[:300]):
            want = (args[0], args[1])
            it = src[0][2]
            pairs = [tuple(x for x in e[3:]) for e in it[3:]] if it[0] == "agg" else []
            pairs = [(strip(p), strip(t)) for p, t in pairs] if all(len(p) == 2 for p in pairs) else []
            okw = sorted(pairs, key=str) == sorted([(args[0], TRUE), (args[1], FALSE)], key=str)
            ctx.ob(name + ": first set tagged true, second false", okw, inst, show(it)[:300])
            if entry == "binary_op":
                accuracy(ctx, P, name, inst, src[0][3], args[:2], s)
            if entry == "binary_op_with_eps":
                ctx.ob(name + ": accuracy passed on", src[0][3] is args[4], inst, show(src[0][3])[:200])
    ctx.ob(name + ": has an Ok path", nok > 0, inst)
    ctx.ob(name + ": predicate found", len(got) > 0, inst)
    for i, (top, w, red) in enumerate(got):
        check_table(ctx, name + ": truth table", inst, w, red, fr, op)


def accuracy(ctx, P, name, inst, eps, paths, s):
    """The accuracy is not finer than what can be told apart at the coordinates of the paths."""
    R = "kurbo::rect::Rect"

    def below(x):
        """What is known not to be above x."""
        return [b if x is a else a for a, b in s.rel if x in (a, b) and not set(flt_orders(s, x, b if x is a else a, False)) & {"<"}]
    small = 1e-6
    leaves = [x for t in [eps] + below(eps) for x in (leaves_of(t, "fmax") if t[0] == "fmax" else [t])]
    low, high = {}, {}      # coordinate: the other one of the same box that it is not above, or not below
    for p in paths:
        boxes = {x for t in leaves for x in subterms(t) if x[0] == "call" and x[1].endswith("bounding_box") and strip(x[2]) is strip(p)}
        if not ctx.ob(name + ": the accuracy depends on both paths", bool(boxes), inst, show(eps)[:400]):
            return
        for b in boxes:
            for n in "xy":
                l, h = (T("fld", b, 0, field_index(P, R, n + i)) for i in "01")
                low[l], high[h] = h, l
    ctx.ob(name + ": the accuracy is not below 1e-6", any(x[0] == "f" and float(x[1]) >= small for x in leaves) or "<" not in flt_orders(s, eps, F(small), False), inst, show(eps)[:400])

    def least(x, sign, a, deep=True):
        """x >= sign * a"""
        k = x[0]
        if k == "fmax":
            return least(x[1], sign, a, deep) or least(x[2], sign, a, deep)
        if k == "fmin":
            return least(x[1], sign, a, deep) and least(x[2], sign, a, deep)
        if k == "fabs" and (least(x[1], sign, a, deep) or most(x[1], -sign, a)):
            return True
        if k == "fneg":
            return most(x[1], -sign, a)
        return sign > 0 and (x is a or high.get(x) is a) or deep and any(least(y, sign, a, False) for y in below(x))

    def most(x, sign, a):
        k = x[0]
        if k == "fmin":
            return most(x[1], sign, a) or most(x[2], sign, a)
        if k == "fmax":
            return most(x[1], sign, a) and most(x[2], sign, a)
        if k == "fneg":
            return least(x[1], -sign, a)
        return sign > 0 and (x is a or low.get(x) is a)

    def scaled(x):
        f = 1.0
        while x[0] in ("fmul", "fdiv"):
            if x[2][0] == "f":
                f, x = (f * float(x[2][1]) if x[0] == "fmul" else f / float(x[2][1])), x[1]
            elif x[0] == "fmul" and x[1][0] == "f":
                f, x = f * float(x[1][1]), x[2]
            else:
                return None, x
        return f, x
    cs = [scaled(x) for x in leaves]
    spacing = 2.0 ** -52
    bad = [show(a)[-30:] for a in list(low) + list(high) for g in (1, -1)
           if not any(f is not None and f >= 8 * spacing and least(x, g, a) for f, x in cs)]
    ctx.ob(name + ": the accuracy is coarser than the spacing of floats at every coordinate", not bad, inst, "%s: %s" % (bad, show(eps)[:600]))


def strip(t):
    while t[0] == "&":
        t = t[1]
    return t
