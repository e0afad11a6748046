"""Quadratics.  The methods of Quadratic and both solvers are interpreted completely; what they calculate is compared with the
polynomial as a rational function, and every outcome in which a solver leaves out roots, or tells a sign, has to come with the
conditions that make that the right answer."""
from props.p28 import *
from models import deref

FLOOR = 25
Q = CRATE + "curve::Quadratic"
INF = float("inf")


def run(ctx):
    P = ctx.P
    ctx.rule("what is calculated from a quadratic is what the polynomial has; roots are left out, and signs told, only under the conditions that imply it")
    ctx.assumption("formulas are compared over the real numbers; a root with a vanishing denominator is infinite")
    ctx.guard("eval", Q, lambda: formulas(ctx, P))
    ctx.guard("signs", Q, lambda: signs(ctx, P))
    ctx.guard("monic", CRATE + "curve", lambda: monic(ctx, P))


def coeffs(P):
    return [field_index(P, Q, n) for n in ("c0", "c1", "c2")]


def method(P, n):
    return P.one(key=Q + "::" + n)


def fields(ip, q, ix, s=None):
    return [ip.project(q, ("f", 0, i), s) for i in ix]


def const(n):
    return {(): n}, {(): 1}


def neg(x):
    return add({}, x[0], -1), x[1]


def formulas(ctx, P):
    ix = coeffs(P)
    inst = method(P, "eval")
    ip, a, outs = ctx.analyse(inst)
    for v, s in outs:
        c = [frat(x, {}) for x in fields(ip, deref(ip, s, a[0]), ix, s)]
        ctx.ob("the value is that of the polynomial", same_rat(frat(v, {}), quadratic(c[0], c[1], c[2], frat(a[1], {}), {})), inst, show(v)[:300])
    inst = method(P, "max_coeff")
    ip, a, outs = ctx.analyse(inst)
    for v, s in outs:
        c = fields(ip, deref(ip, s, a[0]), ix, s)
        ctx.ob("the largest coefficient is the maximum of all three, without sign", largest(v, c, s), inst, show(v)[:300])
    inst = method(P, "shift")
    ip, a, outs = ctx.analyse(inst)
    for v, s in outs:
        c = [frat(x, {}) for x in fields(ip, a[0], ix, s)]
        d = [frat(x, {}) for x in fields(ip, v, ix, s)]
        h = frat(a[1], {})
        want = [quadratic(c[0], c[1], c[2], neg(h), {}), cadd(c[1], neg(cmul(const(2), cmul(c[2], h)))), c[2]]
        for x, y, n in zip(d, want, ("constant", "linear", "quadratic")):
            ctx.ob("shifting gives the %s coefficient of q(x - shift)" % n, same_rat(x, y), inst, show(v)[:300])
    c = [i for i in P.insts if i["body"] and not i["closure"] and i["path"].startswith("<" + Q + " as core::ops::arith::Add<f64>>")]
    ctx.ob("a number can be added to a quadratic", len(c) == 1, Q)
    for inst in c:
        ip, a, outs = ctx.analyse(inst)
        for v, s in outs:
            x, y = ([frat(t, {}) for t in fields(ip, q, ix, s)] for q in (a[0], v))
            ctx.ob("adding a number changes the constant by it, and nothing else", same_rat(y[0], cadd(x[0], frat(a[1], {}))) and same_rat(x[1], y[1]) and same_rat(x[2], y[2]), inst, show(v)[:300])


def largest(v, c, s):
    """A maximum of the absolute values of exactly these numbers."""
    got, todo = set(), [v]
    while todo:
        t = todo.pop()
        if t[0] == "fmax":
            todo += [t[1], t[2]]
        elif t[0] == "fabs":
            got.add(t[1][1] if t[1][0] == "fneg" else t[1])
        else:
            return False
    return got == set(c)


# what a state tells about numbers

def is_finite(s, want):
    """Whether a number that equals this one is known to be finite: True, False or None."""
    flags = {}
    for t, k in s.facts.items():
        if t[0] in ("fis_finite", "fis_infinite", "fis_nan") and k in (True, False):
            n, d = frat(t[1], {})
            if same_rat((n, d), want):
                flags[t[0]] = k
    if flags.get("fis_finite") is not None:
        return flags["fis_finite"]
    if flags.get("fis_infinite") is True or flags.get("fis_nan") is True:
        return False
    if flags.get("fis_infinite") is False and flags.get("fis_nan") is False:
        return True
    return None


def zeros(s):
    """Terms that are known to be zero."""
    zero = lambda t: t[0] == "f" and float(t[1]) == 0.0
    out = []
    for a, b in s.rel:
        for x, y in ((a, b), (b, a)):
            if zero(x) and flt_orders(s, y, x) == {"="}:
                out.append(y)
    return out


def terms(s):
    return {x for p in s.rel for x in p}


def scale_of(x, y):
    """The constant k with x = k y, for a product of y with constants."""
    if x is y:
        return 1.0
    if x[0] == "fneg":
        k = scale_of(x[1], y)
        return None if k is None else -k
    if x[0] in ("fmul", "fdiv"):
        for a, b in ((x[1], x[2]), (x[2], x[1])) if x[0] == "fmul" else ((x[1], x[2]),):
            k, n = scale_of(a, y), number(b)
            if k is not None and n:
                return k * n if x[0] == "fmul" else k / n
    return None


def number(t):
    if t[0] == "f":
        return float(t[1])
    if t[0] == "fpowi" and t[2][0] == "i":
        b = number(t[1])
        return None if b is None else b ** t[2][1]
    if t[0] == "frecip":
        b = number(t[1])
        return 1 / b if b else None
    if t[0] in ("fmul", "fdiv"):
        a, b = number(t[1]), number(t[2])
        return None if a is None or b is None or (t[0] == "fdiv" and not b) else a * b if t[0] == "fmul" else a / b
    if t[0] == "fneg":
        a = number(t[1])
        return None if a is None else -a
    return None


# nothing is lost to cancellation

def direction(t):
    """(sign, w): the term has the sign of w (None: positive), or the opposite one."""
    n = number(t)
    if n is not None and n != 0:
        return (1 if n > 0 else -1, None)
    k = t[0]
    if k in ("fsqrt", "fabs"):
        return (1, None)
    if k == "fneg":
        d, w = direction(t[1])
        return (-d, w)
    if k == "fcopysign":
        return direction(t[2])
    if k == "fsignum":
        return direction(t[1])
    if k in ("fmul", "fdiv"):
        (a, v), (b, w) = direction(t[1]), direction(t[2])
        if v is None or w is None:
            return (a * b, v if w is None else w)
        if v is w:
            return (a * b, None)
    if k in ("fadd", "fsub"):
        (a, v), (b, w) = direction(t[1]), direction(t[2])
        if v is w and (a == b if k == "fadd" else a == -b):
            return (a, v)
    return (1, t)


def cancels(t, seen=None):
    """A sum of a square root with something that does not have its sign."""
    def rooted(x):
        return x[0] == "fsqrt" or x[0] in ("fcopysign", "fneg", "fmul", "fdiv") and any(isinstance(y, tuple) and rooted(y) for y in x[1:3])
    hit = None
    if t[0] in ("fadd", "fsub") and (rooted(t[1]) or rooted(t[2])):
        (a, v), (b, w) = direction(t[1]), direction(t[2])
        if v is not w or (a != b if t[0] == "fadd" else a == b):
            return t
    if t[0] == "fsqrt":
        return None
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            hit = hit or cancels(x)
    return hit


# the sign of a quadratic

def signs(ctx, P):
    inst = method(P, "signs")
    ip, args, outs = ctx.analyse(inst, opaque=["re:^%s::signs$" % Q], keep_rel=True)
    ix = coeffs(P)
    QS = CRATE + "curve::QuadraticSigns"
    sx = [field_index(P, QS, n) for n in ("smaller_root", "bigger_root", "initial_sign")]
    seen = set()
    for v, s in outs:
        c0, c1, c2 = fields(ip, deref(ip, s, args[0]), ix, s)
        f0, f1, f2 = (frat(x, {}) for x in (c0, c1, c2))
        disc = cadd(cmul(f1, f1), neg(cmul(const(4), cmul(f2, f0))))
        fin = is_finite(s, disc)
        if v[0] == "call":
            seen.add("scaled")
            q = fields(ip, unref(v[2]), ix, s)
            k = [scale_of(x, y) for x, y in zip(q, (c0, c1, c2))]
            ctx.ob("coefficients are only scaled down, all alike", None not in k and len(set(k)) == 1 and 0 < k[0] <= 2.0 ** -512, inst, show(v)[:300])
            ctx.ob("only what overflows is scaled", fin is False, inst, facts_show(s)[:300])
            continue
        ctx.ob("signs are told only if nothing overflows", fin is True, inst, facts_show(s)[:300])
        lo, hi, init = fields(ip, v, sx, s)
        zs = zeros(s)
        known0 = lambda f: any(same_rat(frat(z, {}), f) for z in zs)
        # nothing is left of the root and the linear coefficient
        flat = known0(f1) and (known0(disc) or known0(f2) or known0(f0)) or any(shifted_root(z, f1, disc) for z in zs)
        fm = [number(x) for x in (lo, hi)]
        if fm == [-INF, -INF] or fm == [INF, INF]:
            d = [t for t in terms(s) if same_rat(frat(t, {}), disc)]
            if any(flt_orders(s, t, F(0.0)) == {"<"} for t in d):
                seen.add("none")
                ok = init in (c2, c0)
            else:
                seen.add("constant")
                ok = flat and known0(f2) and init is c0
            ctx.ob("no roots are told only of a constant, or for a negative discriminant, with the sign of the coefficient that is left", ok, inst, show(init) + " where " + facts_show(s)[:500])
            continue
        if fm == [0.0, 0.0]:
            seen.add("double")
            ctx.ob("a double root at zero is told only of a multiple of the square, with its sign", flat and "=" not in flt_orders(s, c2, F(0.0)) and init is c2, inst, show(init) + " where " + facts_show(s)[:500])
            continue
        # two roots
        a, b = pair_of(lo, hi, s)
        if not ctx.ob("roots are told in order", a is not None, inst, show(v)[:400]):
            continue
        sq = {}
        ra, rb = frat(a, sq), frat(b, sq)
        for r, t in ((ra, a), (rb, b)):
            ctx.ob("what is told is a root", is_zero(quadratic(f0, f1, f2, r, sq), sq), inst, show(t)[:300])
        ctx.ob("the two roots are different ones", not is_zero(cadd(ra, neg(rb)), sq), inst, show(a)[:300])
        bad = cancels(a) or cancels(b)
        ctx.ob("no root is calculated as the difference of a square root and its like", bad is None, inst, "" if bad is None else show(bad)[:300])
        ctx.ob("roots are not calculated from zero divided by zero", not flat and any(shifted_root(t, f1, disc) and "=" not in flt_orders(s, t, F(0.0)) for t in terms(s)), inst, facts_show(s)[:500])
        far = [t for t in (a, b) if depends(t, c2)]
        at = lambda x, ts: any(flt_orders(s, t, F(x)) == {"="} for t in ts)
        off = lambda x, ts: any("=" not in flt_orders(s, t, F(x), False) for t in ts)
        if at(INF, far + [hi]):
            seen.add("falls")
            want, ok = "-c1", same_rat(frat(init, {}), neg(f1))
        elif at(-INF, far + [lo]):
            seen.add("rises")
            want, ok = "c1", same_rat(frat(init, {}), f1)
        else:
            seen.add("two")
            want, ok = "c2", same_rat(frat(init, {}), f2) and ("=" not in flt_orders(s, c2, F(0.0), False) or off(INF, far + [hi]) and off(-INF, far + [lo]))
        ctx.ob("the sign before the roots is that of the leading coefficient", ok, inst, "%s, not %s where %s" % (show(init), want, facts_show(s)[-500:]))
    ctx.ob("overflow, no roots, constants, squares, lines both ways and two roots are told apart",
           seen >= {"scaled", "none", "constant", "two", "falls", "rises"}, inst, " ".join(sorted(seen)))


def shifted_root(z, f1, disc):
    """z = +-(c1 + a square root of the discriminant, with the sign of c1)"""
    if cancels(z):
        return False
    for k in (1, -1):
        sq = {}
        d = cadd(frat(z, sq), neg(cmul(const(k), f1)))
        if sq and is_zero(cadd(cmul(d, d), neg(disc)), sq):
            return True
    return False


def depends(t, c):
    """The root that is divided by this coefficient."""
    while t[0] == "fneg":
        t = t[1]
    if t[0] == "fmul":
        return depends(t[1], c) or depends(t[2], c)
    if t[0] == "frecip":
        return scale_of(t[1], c) is not None
    return t[0] == "fdiv" and scale_of(t[2], c) is not None


def pair_of(lo, hi, s):
    """The two numbers that these are the smaller and the bigger one of."""
    if lo[0] == "fmin" and hi[0] == "fmax" and {lo[1], lo[2]} == {hi[1], hi[2]}:
        return lo[1], lo[2]
    if lo is not hi and "<" not in flt_orders(s, hi, lo, False):
        return lo, hi
    return None, None


# the solver for monic quadratics

def monic(ctx, P):
    inst = solver(P)
    ip, args, outs = ctx.analyse(inst, keep_rel=True)
    b, c = args
    fb, fc = frat(b, {}), frat(c, {})
    disc = cadd(cmul(fb, fb), neg(cmul(const(4), fc)))
    scaled = cmul(disc, (mul({(): 1}, cmul(fb, fb)[1]), cmul(fb, fb)[0]))
    seen = set()
    for v, s in outs:
        r = list(v[3:5])
        fm = [number(x) for x in r]
        d = [t for t in terms(s) if same_rat(frat(t, {}), disc)]
        e = [t for t in terms(s) if same_rat(frat(t, {}), scaled)]
        upto0 = lambda ts: any(">" not in flt_orders(s, t, F(0.0), False) for t in ts)
        df, ef = is_finite(s, disc), is_finite(s, scaled)
        if fm in ([-INF, -INF], [INF, INF]):
            ok = df is True and upto0(d) or df is False and (upto0(e) or ef is False and flt_orders(s, c, F(0.0)) == {">"})
            seen.add("none")
            ctx.ob("no roots are told only where the discriminant is not positive, or the constant outweighs everything", ok, inst, facts_show(s)[:500])
        elif fm == [-INF, INF]:
            seen.add("far")
            ctx.ob("a quadratic is taken as negative throughout only if the discriminant overflows even when scaled, and the constant is not positive",
                   df is False and ef is False and ">" not in flt_orders(s, c, F(0.0), False), inst, facts_show(s)[:500])
        else:
            sq = {}
            t = [frat(x, sq) for x in r]
            used = list(sq.values())
            over = [x for x in used if same_rat(x, disc)] and df is True or [x for x in used if same_rat(x, scaled)] and ef is True
            seen.add("plain" if df is True else "scaled")
            ctx.ob("roots are taken of a discriminant that is a positive number", bool(over) and any("<" not in flt_orders(s, x, F(0.0), False) and "=" not in flt_orders(s, x, F(0.0), False) for x in d + e), inst, facts_show(s)[:500])
            bad = cancels(r[0]) or cancels(r[1])
            ctx.ob("no root is calculated as the difference of a square root and its like", bad is None, inst, "" if bad is None else show(bad)[:300])
            for x, y in zip(r, t):
                ctx.ob("what is answered is a root", is_zero(quadratic(fc, fb, const(1), y, sq), sq), inst, show(x)[:300])
            ctx.ob("the two roots are different ones", not is_zero(cadd(t[0], neg(t[1])), sq), inst, show(v)[:300])
            ctx.ob("roots are answered in order", "<" not in flt_orders(s, r[1], r[0], False), inst, facts_show(s)[-400:])
    ctx.ob("roots are found whether or not the discriminant overflows", {"none", "plain", "scaled"} <= seen, inst, " ".join(sorted(seen)))
