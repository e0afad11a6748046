"""How a path becomes segments.  The iterator over the elements of one subpath, and the one over subpaths, are interpreted
from the state in which they are made and from the one after the first element; the loops of the functions that add paths
and polylines over all subpaths, segments, pieces and pairs of points have to append a segment for everything they come by,
and to end only where there is nothing left.  The cutting of a curve is interpreted completely: in every outcome the pieces
that were made or left out have to form a chain from one end to the other, cut at the zeros of the derivative of the height,
which is decided by calculating with the formulas as rational functions; so is the answer of the quadratic solver."""
from props.segctx import *
from props.linectx import *
from props.sweepctx import strip_ty

FLOOR = 30
CURVE = "kurbo::cubicbez::CubicBez"
MP = CRATE + "geom::MonotonicPiece"


def run(ctx):
    P = ctx.P
    ctx.rule("subpaths, segments and pieces follow each other without a gap; pieces are cut where the derivative of the height vanishes")
    ctx.assumption("kurbo's iterator over segments, subsegment and eval are as documented; formulas are compared over the real numbers")
    ctx.guard("pieces", CRATE + "geom", lambda: pieces(ctx, P))
    ctx.guard("roots", CRATE + "curve", lambda: roots(ctx, P))
    ctx.guard("subpaths", SEG, lambda: subpaths(ctx, P))
    for nm, inst in entries(P):
        ctx.guard(nm, inst, lambda: adder(ctx, P, nm, inst))


# formulas as rational functions

def frat(t, square):
    """(numerator, denominator) of a float term as polynomials; variables with a known square are reduced."""
    def go(t):
        k = t[0]
        if k in ("fadd", "fsub"):
            (a, b), (c, d) = go(t[1]), go(t[2])
            return add(mul(a, d), mul(c, b), 1 if k == "fadd" else -1), mul(b, d)
        if k == "fneg":
            a, b = go(t[1])
            return add({}, a, -1), b
        if k == "fmul":
            (a, b), (c, d) = go(t[1]), go(t[2])
            return mul(a, c), mul(b, d)
        if k == "fdiv":
            (a, b), (c, d) = go(t[1]), go(t[2])
            return mul(a, d), mul(b, c)
        if k == "frecip":
            a, b = go(t[1])
            return b, a
        if k == "fpowi" and t[2][0] == "i" and 1 <= t[2][1] <= 8:
            (a, b), n = go(t[1]), t[2][1]
            p, q = a, b
            for _ in range(n - 1):
                p, q = mul(p, a), mul(q, b)
            return p, q
        if k == "fcopysign" and t[1][0] == "fsqrt":
            square[t] = go(t[1][1])
        elif k == "fsqrt":
            square[t] = go(t[1])
        elif k == "f" or k not in ("fld", "sym", "*", "at", "loop", "sel", "after", "call", "fcopysign", "fsqrt"):
            return fpoly(t), {(): 1}
        return {(t,): 1}, {(): 1}
    return go(t)


def add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
    return {m: c for m, c in out.items() if c}


def mul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=id))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def is_zero(fr, square):
    """The numerator vanishes, squares of roots being replaced."""
    n = fr[0]
    for _ in range(12):
        hit = None
        for m in n:
            for v in m:
                if v in square and sum(1 for x in m if x is v) >= 2:
                    hit = v
        if hit is None:
            return not n
        p, q = square[hit]
        out = {}
        for m, c in n.items():
            k = sum(1 for x in m if x is hit)
            rest = tuple(x for x in m if x is not hit)
            term = {rest: c}
            if k >= 2:
                term = mul(term, p)
                k -= 2
                term = mul(term, {(hit,) * k: 1})
            else:
                term = mul({m: c}, q)
            out = add(out, term)
        n = out
    return False


def cadd(x, y):
    (a, b), (c, d) = x, y
    return add(mul(a, d), mul(c, b)), mul(b, d)


def cmul(x, y):
    return mul(x[0], y[0]), mul(x[1], y[1])


def quadratic(c, b, a, t, square):
    """c + b t + a t^2"""
    return cadd(c, cadd(cmul(b, t), cmul(a, cmul(t, t))))


# the solver

def solver(P):
    c = [i for i in P.insts if i["body"] and not i["closure"] and i["path"].startswith(CRATE) and i["name"] == "monic_quadratic_roots"]
    if len(c) != 1:
        raise EngineError("the quadratic solver was not found")
    return c[0]


def roots(ctx, P):
    inst = solver(P)
    ip, args, outs = ctx.analyse(inst, keep_rel=True)
    b, c = (frat(a, {}) for a in args)
    one = ({(): 1}, {(): 1})
    n = 0
    for v, s in outs:
        if v[0] != "agg" or len(v) != 5:
            ctx.fail("form of the roots", inst, show(v)[:200])
            continue
        r = list(v[3:])
        inf = [x[0] == "f" and abs(float(x[1])) == float("inf") for x in r]
        if any(inf):
            # no roots, or none within reach: not if the discriminant is a number greater than zero
            d = [t for t, k in disc_of(s, args)]
            if d and not all("<" not in flt_orders(s, F(0.0), t[1], False) for t in d):
                ctx.fail("roots are not left out", inst, facts_show(s)[:400])
                continue
            ctx.ob("no roots are answered in order", all(inf) and float(r[0][1]) == float("-inf"), inst, show(v))
            if d:
                ctx.ob("no roots are answered as two infinities of one sign", r[0] is r[1], inst, show(v))
            continue
        n += 1
        sq = {}
        for x in r:
            t = frat(x, sq)
            ctx.ob("what is answered is a root", is_zero(quadratic(c, b, one, t, sq), sq), inst, show(x)[:300])
        ctx.ob("the two roots are different ones", r[0] is not r[1], inst, show(v)[:300])
        ctx.ob("roots are answered in order", "<" not in flt_orders(s, r[1], r[0], False), inst, facts_show(s)[-400:])
    ctx.ob("two roots are found", n > 0, inst)


def disc_of(s, args):
    """Facts that tell that the discriminant is a number."""
    b, c = args
    want = fpoly(T("fsub", T("fmul", b, b), T("fmul", F(4.0), c)))
    return [(t, k) for t, k in s.facts.items() if t[0] == "fis_finite" and k is True and fpoly(t[1]) == want]


# the pieces of a curve

def pieces(ctx, P):
    c = [i for i in P.insts if i["body"] and i["path"].startswith(CRATE) and not i["closure"] and i["name"] == "monotonic_pieces"]
    if len(c) != 1:
        raise EngineError("the function that cuts curves was not found")
    inst = c[0]
    sol = solver(P)["path"]
    ip, args, outs = ctx.analyse(inst, opaque=["re:ParamCurve>::subsegment$", sol], keep_rel=True,
                                 keep_facts=lambda k: k[0] in ("discr", "fis_infinite", "fis_finite", "fis_nan"))
    cub = args[0]
    h = [ip.project(ip.project(cub, ("f", 0, i), None), ("f", 0, 1), None) for i in range(4)]
    h = [frat(x, {}) for x in h]
    neg = lambda x: (add({}, x[0], -1), x[1])
    k = lambda n: ({(): n}, {(): 1})
    # derivative of the height, up to a factor of three
    c0 = cadd(h[1], neg(h[0]))
    c1 = cmul(k(2), cadd(h[2], cadd(cmul(k(-2), h[1]), h[0])))
    c2 = cadd(h[3], cadd(cmul(k(-3), h[2]), cadd(cmul(k(3), h[1]), neg(h[0]))))
    co = (c0, c1, c2)
    n = {"pieces": 0, "cut": 0, "left out": 0}
    first = lambda t: t[0] == "f" and float(t[1]) == 0.0
    for v, s in outs:
        got = made(v)
        if got is None:
            ctx.fail("form of the pieces", inst, show(v)[:300])
            continue
        subs = cuts_in(v, s)
        chain = [(x[3][3], x[3][4]) for x in subs]
        order = follow(subs, s)
        if not ctx.ob("the pieces follow each other from one end of the curve to the other", order is not None, inst, " ".join("%s..%s" % (show(a)[:60], show(b)[:60]) for a, b in chain)):
            continue
        n["cut"] += len(order) - 1
        inner = [x[3][4] for x in order[:-1]]
        for t in inner:
            ctx.ob("curves are cut inside", flt_orders(s, F(0.0), t) == {"<"} and flt_orders(s, t, F(1.0)) == {"<"}, inst, show(t)[:200])
            ctx.ob("curves are cut where the height turns", vanishing(t, co, sol, s), inst, show(t)[:300])
        for a, b in zip(inner, inner[1:]):
            ctx.ob("cuts are in order", in_order(a, b, sol, s), inst, show(b)[:200])
        asked = [t for t in solved(s, v, sol)]
        for t in asked:
            for i in (0, 1):
                r = T("fld", t, 0, i)
                out = r in inner or "<" not in flt_orders(s, F(0.0), r) or "<" not in flt_orders(s, r, F(1.0)) \
                    or i == 1 and ">" not in flt_orders(s, r, T("fld", t, 0, 0))      # the same one: the smaller one comes first
                ctx.ob("no turn is passed over", out, inst, "%s: %s" % (show(r)[:100], facts_show(s)[-500:]))
        if not asked and not inner:
            # treated as linear: the root of the linear part is not inside
            lin = [t for pair in s.rel for t in pair if linear(t, co)]
            ctx.ob("no turn of an almost quadratic curve is passed over", any("<" not in flt_orders(s, F(0.0), t) or "<" not in flt_orders(s, t, F(1.0)) for t in lin),
                   inst, facts_show(s)[-500:])
        if not asked:
            ctx.ob("a curve is taken as quadratic only if its cubic part is negligible", negligible(s, co), inst, facts_show(s)[:500])
        kept = [payload_of(ip, g, subs, s) for g in got]
        if not ctx.ob("every piece is one of these", all(x is not None for x in kept), inst, show(v)[:400]):
            continue
        ctx.ob("pieces are in order", kept == [x for x in order if x in kept], inst, show(v)[:300])
        for g, x in zip(got, kept):
            n["pieces"] += 1
            piece(ctx, inst, ip, P, g, x, s)
        for x in order:
            if x not in kept:
                n["left out"] += 1
                e = [ip.project(ip.project(x, ("f", 0, i), s), ("f", 0, d), s) for d in (0, 1) for i in (0, 3)]
                ctx.ob("only single points are left out", flt_orders(s, e[0], e[1], False) == {"="} and flt_orders(s, e[2], e[3], False) == {"="}, inst,
                       facts_show(s)[-500:])
    ctx.ob("curves are cut", n["cut"] > 0 and n["pieces"] > 0 and n["left out"] > 0, inst, str(n))
    ctx.stats["pieces"] = n


def made(v):
    out = []
    while v[0] == "push":
        out.append(v[2])
        v = v[1]
    return out[::-1] if v[0] == "empty" else None


def cuts_in(v, s):
    """Parts of the curve that were looked at."""
    out = []
    for t in [v] + list(s.facts) + [x for p in s.rel for x in p]:
        for c in calls_in(t, "re:ParamCurve>::subsegment$"):
            if c not in out and c[3][0] == "agg" and len(c[3]) == 5:
                out.append(c)
    return out


def follow(subs, s):
    """The parts in order, if they are a chain from 0 to 1."""
    start = [x for x in subs if x[3][3][0] == "f" and float(x[3][3][1]) == 0.0]
    if len(start) != 1:
        return None
    out = [start[0]]
    while len(out) < len(subs):
        nx = [x for x in subs if x not in out and x[3][3] is out[-1][3][4]]
        if len(nx) != 1:
            return None
        out.append(nx[0])
    e = out[-1][3][4]
    return out if e[0] == "f" and float(e[1]) == 1.0 else None


def solved(s, v, sol):
    out = []
    for t in [v] + list(s.facts) + [x for p in s.rel for x in p]:
        for c in calls_in(t, sol):
            if c not in out:
                out.append(c)
    return out


def same_rat(x, y):
    return is_zero(cadd(x, (add({}, y[0], -1), y[1])), {})


def linear(t, co):
    """The zero of the derivative without its quadratic term."""
    if t[0] == "f":
        return False
    r = frat(t, {})
    return is_zero(cadd(co[0], cmul(co[1], r)), {})


def negligible(s, co):
    """The state knows that a coefficient divided by that of the cubic part is infinite, or that the latter is zero."""
    for t, k in s.facts.items():
        if t[0] == "fis_infinite" and k is True:
            r = frat(t[1], {})
            if any(same_rat(cmul(r, co[2]), c) for c in co[:2]):
                return True
    for (a, b), o in s.rel.items():
        for x, y in ((a, b), (b, a)):
            if y[0] == "f" and float(y[1]) == 0.0 and same_rat(frat(x, {}), co[2]) and flt_orders(s, x, y, False) == {"="}:
                return True
    return False


def vanishing(t, co, sol, s):
    if t[0] == "fld" and t[1][0] == "call" and matches(t[1][1], sol):
        b, c = (frat(x, {}) for x in t[1][2:4])
        return same_rat(cmul(b, co[2]), co[1]) and same_rat(cmul(c, co[2]), co[0])
    return linear(t, co)


def in_order(a, b, sol, s):
    if flt_orders(s, a, b, False) == {"<"}:
        return True
    # the solver answers the smaller root first
    return a[0] == "fld" and b[0] == "fld" and a[1] is b[1] and a[1][0] == "call" and matches(a[1][1], sol) and (a[3], b[3]) == (0, 1)


def payload_of(ip, g, subs, s):
    """The part of the curve that a piece was made of."""
    if g[0] != "agg" or g[1] != MP:
        return None
    x = [c for c in subs if contains(g, lambda y: y is c)]
    return x[0] if len(x) == 1 else None


def piece(ctx, inst, ip, P, g, x, s):
    a, b = (g[3 + field_index(P, MP, n)] for n in ("start_t", "end_t"))
    c = g[3 + field_index(P, MP, "piece")]
    ctx.ob("a piece has the parameters it was cut at", a is x[3][3] and b is x[3][4], inst, show(g)[:300])
    pt = lambda q, i: ip.project(q, ("f", 0, i), s)
    co = lambda q, i, d: ip.project(pt(q, i), ("f", 0, d), s)
    same = all(co(c, i, d) is co(x, i, d) for i in (0, 3) for d in (0, 1))
    if not ctx.ob("a piece has the ends of the part of the curve", same, inst, show(c)[:400]):
        return
    y = [co(x, i, 1) for i in range(4)]
    o = flt_orders(s, y[0], y[3], False)
    if o == {"<"} or o == {">"}:
        up = o == {">"}
        ctx.ob("control points of a piece are not moved sideways", all(co(c, i, 0) is co(x, i, 0) for i in (1, 2)), inst, show(c)[:400])
        for i, e, k in ((1, 0, "fmin" if up else "fmax"), (2, 3, "fmax" if up else "fmin")):
            ctx.ob("the height does not turn back at the ends of a piece", bound(co(c, i, 1), k, y[i], y[e], s), inst, show(co(c, i, 1))[:300])
    elif "<" in o or ">" in o:
        ctx.fail("a piece is rising, falling, or level", inst, facts_show(s)[-400:])


def bound(t, k, a, b, s):
    """t is the maximum (minimum) of a and b."""
    if t[0] == k:
        return {t[1], t[2]} == {a, b}
    o = flt_orders(s, a, b, False)
    bad = "<" if k == "fmax" else ">"
    return t is a and bad not in o or t is b and not (o & ({"<", ">"} - {bad}))


# subpaths

def subpaths(ctx, P):
    """Where a subpath begins and ends."""
    its = {}
    for i in P.insts:
        if i["body"] and i["name"] == "next" and i.get("trait") == "core::iter::traits::iterator::Iterator" and i["path"].startswith("<" + CRATE + "segments::"):
            its[i["path"]] = i
    mk = [i for i in P.insts if i["body"] and not i["closure"] and i["path"].startswith(CRATE + "segments::") and not i.get("trait")
          and (lambda r: r.get("path") == "core::option::Option" and any(P.types[a].get("path", "") and "<" + P.types[a]["path"] in p for a in targs(r) for p in its))(P.types[i["body"]["locals"][0]])]
    paths = {i["path"] for i in mk}
    if len(paths) != 1:
        raise EngineError("the iterator over subpaths was not found: %s" % sorted(paths))
    mk = mk[0]
    it = P.types[[a for a in targs(P.types[mk["body"]["locals"][0]])][0]]["path"]
    nx = [i for p, i in its.items() if ("<" + it) in p]
    if len(nx) != 1:
        raise EngineError("the iterator over a subpath was not found")
    nx = nx[0]
    els = T("*", T("&", T("sym", "elements")))
    ROOT = ("H", ("elements",))

    def start(pos):
        st = State()
        src = T("peekable", mkiter(T("copied", mkiter(T("refs", els[1]), I(0))), I(0)))
        st.mem[ROOT] = mkiter(src, pos)
        return st
    pos = T("sym", "pos")
    # making one
    ip = ctx.interp((), keep_rel=True, keep_facts=keep)
    st = start(pos)
    me = mk["body"]["locals"][1]
    S = ("H", ("subpaths",))
    st.mem[S] = T("agg", strip_ty(P, me)["path"], 0, st.mem.pop(ROOT))
    outs = ip.run(mk, [T("ref", S, ())], st)
    made_ = []
    for v, s in outs:
        e = at_end(s, els, pos)
        some = v[0] == "agg" and v[2] == 1
        ctx.ob("there is a subpath exactly while elements are left", e is (not some), mk, "%s %s" % (show(v)[:100], facts_show(s)[:300]))
        ctx.ob("asking for a subpath takes no element", position(ip, s, S) is pos, mk, show(s.mem[S])[:200])
        if some:
            made_.append((v[3], s))
    if not ctx.ob("subpaths are made", len(made_) > 0, mk):
        return
    # from the beginning
    for v, s in made_:
        L = ("H", ("subpath",))
        st = s.copy()
        st.mem[L] = v
        seen = {"end": 0, "move": 0, "some": 0}
        for w, s2 in ip.run(nx, [T("ref", L, ())], st):
            ctx.ob("the first element is taken in any case", w[0] == "agg" and w[2] == 1 and w[3] is T("sel", els, pos) and position(ip, s2, S) is iadd(pos, I(1)),
                   nx, "%s %s" % (show(w)[:200], show(s2.mem[S])[:200]))
            seen["some"] += 1
            later(ctx, P, ip, nx, s2, L, S, els, pos)
        ctx.ob("a subpath has elements", seen["some"] > 0, nx)


def later(ctx, P, ip, nx, s, L, S, els, pos):
    p1 = iadd(pos, I(1))
    head = s.mem[L]
    n = {"end": 0, "move": 0, "some": 0}
    mv = variant_index(P, "kurbo::bezpath::PathEl", "MoveTo")
    for w, s2 in ip.run(nx, [T("ref", L, ())], s.copy()):
        e = at_end(s2, els, p1)
        el = T("sel", els, p1)
        d = s2.facts.get(T("discr", el))
        if w[0] == "agg" and w[2] == 0:
            if e is True:
                n["end"] += 1
            else:
                n["move"] += 1
                ctx.ob("a subpath ends only where the next one starts", d == mv, nx, facts_show(s2)[:400])
            ctx.ob("the end of a subpath takes no element", position(ip, s2, S) is p1, nx, show(s2.mem[S])[:200])
        else:
            n["some"] += 1
            ctx.ob("every element of a subpath is given", w[0] == "agg" and w[2] == 1 and w[3] is el and position(ip, s2, S) is iadd(p1, I(1)), nx, show(w)[:200])
            ctx.ob("a subpath ends where the next one starts", isinstance(d, frozenset) and mv in d or isinstance(d, int) and d != mv, nx, facts_show(s2)[:400])
            ctx.ob("a subpath goes on as it began", s2.mem[L] is head, nx, show(s2.mem[L])[:300])
    ctx.ob("subpaths go on, and end", all(n.values()), nx, str(n))


def keep(k):
    return k[0] in ("discr", "done")


def targs(r):
    return r.get("args") or []


def at_end(s, els, pos):
    n = T("len", els)
    o = int_orders(s, pos, n)
    if "<" not in o:
        return True
    if o == {"<"}:
        return False
    return s.facts.get(T("done", els, pos))


def position(ip, s, S):
    v = s.mem[S]
    while v[0] == "agg" and v[1] != "it":
        v = v[3]
    return v[4] if v[0] == "agg" else None


# adding

def adder(ctx, P, nm, inst):
    ar = Arena(ctx, P, nm, inst, keep_rel=True, keep_facts=lambda k: k[0] == "discr")
    (curves if "bez" in nm else lines)(ctx, P, nm, inst, ar)


def grown(ar, s, head):
    return appended(ar.table(s, "segs"), ar.table(head, "segs"))


def passed_loop(ip, s, lid):
    return bool(recs_of(ip, lid, s))


def lines(ctx, P, nm, inst, ar):
    ip = ar.ip
    closed = nm != "add_points"
    loops, kinds = {}, set()
    for r in ip.records:
        if any(grown(ar, b, r.head) for b in r.back):
            loops.setdefault(r.lid, []).append(r)
    if not ctx.ob("%s: lines are added in one loop" % nm, len(loops) == 1, inst, str(sorted(loops))):
        return
    lid, recs = list(loops.items())[0]
    coll = None
    for r in recs:
        for b in r.back:
            g = grown(ar, b, r.head)
            if not ctx.ob("%s: every pair of points gives a line" % nm, g is not None and len(g) == 1, inst, facts_show(b)[:400]):
                continue
            src = appended(ar.table(b, "input_segs"), ar.table(r.head, "input_segs"))
            sel = [list(dict.fromkeys(t for t in subterms(ip.project(ip.project(src[0], ("f", 0, 0), b), ("f", 0, i), b)) if t[0] == "sel")) for i in (0, 1)] \
                if src and len(src) == 1 and src[0][0] == "agg" else [[], []]
            if not ctx.ob("%s: a line joins two of the points" % nm, len(sel[0]) == len(sel[1]) == 1 and sel[0][0][1] is sel[1][0][1], inst, show(src)[:300]):
                continue
            coll, a, z = sel[0][0][1], sel[0][0][2], sel[1][0][2]
            n = ip.length(coll)
            k = pair(ip, b, lid, a, z, n)
            kinds.add(k)
            ctx.ob("%s: a line joins a point to the next one%s" % (nm, ", or the last one to the first" if closed else ""),
                   k == "next" or closed and k in ("last", "both"), inst, "%s, %s" % (show(a)[:200], show(z)[:200]))
        for b in r.exit:
            ctx.ob("%s: lines end with the points" % nm, ended(ip, b, lid, coll, closed), inst, facts_show(b)[:400])
    if coll is None:
        return
    if closed:
        ctx.ob("%s: the last point is joined to the first one" % nm, bool(kinds & {"last", "both"}), inst, str(sorted(map(str, kinds))))
    ctx.ob("%s: a point is joined to the next one" % nm, bool(kinds & {"next", "both"}), inst, str(sorted(map(str, kinds))))
    ctx.ob("%s: all points are used" % nm, whole(ip, coll), inst, show(coll)[:300])
    # everywhere else the points are less than two
    many = nm == "add_closed_polylines"
    outer = [r for r in ip.records if r.lid != lid and any(passed_loop(ip, b, lid) for b in r.back)]
    for s in ([b for r in outer for b in r.back] if many else [s for v, s in ar.outs]):
        ctx.ob("%s: points are left out only if there is no pair" % nm,
               passed_loop(ip, s, lid) or "<" in int_orders(s, ip.length(coll), I(2)) and not int_orders(s, ip.length(coll), I(2)) & {"=", ">"}, inst, facts_show(s)[:400])
    if many:
        ctx.ob("%s: polylines are added in a loop" % nm, len(outer) > 0, inst)
        for r in outer:
            for b in r.exit:
                d = [k for t, k in b.facts.items() if t[0] == "discr" and t[1][0] == "call" and "::next" in t[1][1]]
                ctx.ob("%s: polylines end with the input" % nm, d == [0] or any(t[0] == "done" and k is True for t, k in b.facts.items()), inst, facts_show(b)[:300])


def counter(ip, t, lid):
    """The term counts the steps of the loop from zero."""
    if t[0] == "pos" and t[1] == "c1":
        t = t[2]
    l = loop_at(ip, t)
    return bool(l) and l[0] == lid and l[3] is I(0)


def pair(ip, s, lid, a, z, n):
    if counter(ip, a, lid):
        if z is iadd(a, I(1)):
            return "next"
        if z[0] == "intRem" and z[1] is iadd(a, I(1)) and z[2] is n:
            return "both"
    if int_orders(s, z, I(0)) == {"="} and int_orders(s, iadd(a, I(1)), n) == {"="}:
        return "last"
    return None


def ended(ip, s, lid, coll, closed):
    if any(t[0] == "done" and k is True and counter(ip, t[2], lid) for t, k in s.facts.items()):
        return True
    n = ip.length(coll) if coll is not None else None
    for root, p, x in slots(ip, s):
        if n is not None and counter(ip, x, lid) and "<" not in int_orders(s, x if closed else iadd(x, I(1)), n):
            return True
    return False


def whole(ip, coll):
    """Every element of the input gives one point."""
    l = loop_at(ip, coll)
    if l:
        def next_of(t):
            return t[0] == "call" and t[1].split("::")[-1] == "next"

        def one_more(head, b):
            g = pushed(ip, head, b, l[1][1], l[2])
            return g is not None and len(g) == 1 and contains(g[0], next_of)
        return l[3][0] == "empty" and any(
            r.lid == l[0] and r.back and all(one_more(r.head, b) for b in r.back)
            and all(any(t[0] == "discr" and next_of(t[1]) and k == 0 for t, k in x.facts.items()) for x in r.exit) for r in ip.records)
    if coll[0] != "collect":
        return False
    return all(re_any(t[1]) for t in subterms(coll) if t[0] == "call" and t[1].startswith("core::iter")) \
        and not any(t[0] in ("filter", "filter_map", "skip", "take", "step_by", "take_while", "skip_while", "dedup", "slice", "flat_map", "rev", "pos") for t in subterms(coll))


def re_any(p):
    return p.split("::")[-1] in ("map", "into_iter", "copied", "cloned", "next")


def curves(ctx, P, nm, inst, ar):
    ip = ar.ip
    mono = "re:::monotonic_pieces$"
    nxt = "re:^<kurbo::bezpath::Segments<.*::next$"
    inner, middle = {}, {}
    for r in ip.records:
        for b in r.back:
            for t, k in b.facts.items():
                if t[0] == "done" and t[1][0] == "call" and matches(t[1][1], mono) and loop_at(ip, t[2]) and loop_at(ip, t[2])[0] == r.lid:
                    inner.setdefault(r.lid, r)
                if t[0] == "discr" and t[1][0] == "call" and matches(t[1][1], nxt) and k == 1 and asks(ip, t[1], r.lid):
                    middle.setdefault(r.lid, r)
    if not ctx.ob("%s: segments are added in a loop over segments, and pieces in another one in it" % nm, len(inner) == len(middle) == 1, inst, "%s %s" % (sorted(inner), sorted(middle))):
        return
    il, ml = list(inner)[0], list(middle)[0]
    n = {"line": 0, "point": 0, "curve": 0}
    for r in ip.records:
        if r.lid == il:
            for b in r.back + r.exit:
                f = [(t, k) for t, k in b.facts.items() if t[0] == "done" and t[1][0] == "call" and matches(t[1][1], mono)]
                ok = len(f) == 1 and counter(ip, f[0][0][2], il)
                ctx.ob("%s: pieces are taken one by one" % nm, ok, inst, facts_show(b)[:300])
                if not ok:
                    continue
                if any(b is x for x in r.back):
                    g = grown(ar, b, r.head)
                    ctx.ob("%s: every piece is added" % nm, f[0][1] is False and g is not None and len(g) == 1 and contains(g[0], lambda y: y is T("item", f[0][0][1], f[0][0][2])), inst, show(g)[:300])
                else:
                    ctx.ob("%s: adding pieces ends with the pieces" % nm, f[0][1] is True, inst, facts_show(b)[:300])
        elif r.lid == ml:
            for b in r.exit:
                d = [k for t, k in b.facts.items() if t[0] == "discr" and t[1][0] == "call" and matches(t[1][1], nxt) and asks(ip, t[1], ml)]
                ctx.ob("%s: a subpath is added to its end" % nm, d == [0], inst, facts_show(b)[:300])
            for b in r.back:
                one_segment(ctx, P, nm, inst, ar, r, b, il, ml, nxt, mono, n)
    ctx.ob("%s: lines and curves are added, and points left out" % nm, all(n.values()), inst, str(n))
    # the loop over subpaths
    outer = [r for r in ip.records if r.lid not in (il, ml) and any(passed_loop(ip, b, ml) for b in r.back)]
    ctx.ob("%s: subpaths are added in a loop" % nm, len(outer) > 0, inst)
    for r in outer:
        for b in r.back:
            ctx.ob("%s: every subpath is added" % nm, passed_loop(ip, b, ml), inst, facts_show(b)[:300])
    ok = 0
    for v, s in ar.outs:
        good = v[0] == "agg" and v[2] == variant_index(P, "core::result::Result", "Ok")
        if good:
            ok += 1
            ctx.ob("%s: adding succeeds only at the end of the path" % nm, path_done(ip, s), inst, facts_show(s)[:300])
    ctx.ob("%s: adding succeeds" % nm, ok > 0, inst)
    ctx.stats["%s steps" % nm] = n


def asks(ip, call, lid):
    """The call asks for the next element of an iterator that the loop changes."""
    return any((lambda l: l and l[0] == lid)(loop_at(ip, t)) for t in subterms(call))


def path_done(ip, s):
    for t, k in s.facts.items():
        if t[0] == "done" and k is True and contains(t[1], lambda y: y is T("sym", "p") or y[0] == "*"):
            return True
    return any(t[0] == "len" and "<" not in int_orders(s, I(0), t) for d in s.iv for t in subterms(d))


def one_segment(ctx, P, nm, inst, ar, r, b, il, ml, nxt, mono, n):
    ip = ar.ip
    c = [t[1] for t, k in b.facts.items() if t[0] == "discr" and t[1][0] == "call" and matches(t[1][1], nxt) and k == 1 and asks(ip, t[1], ml)]
    if not ctx.ob("%s: one segment after the other" % nm, len(c) == 1, inst, facts_show(b)[:300]):
        return
    seg = T("fld", c[0], 1, 0)
    d = b.facts.get(T("discr", seg))
    line = variant_index(P, "kurbo::bezpath::PathSeg", "Line")
    t0, h0 = ar.table(b, "segs"), ar.table(r.head, "segs")
    if d == line and not passed_loop(ip, b, il):
        g = appended(t0, h0)
        pl = T("fld", seg, line, 0)
        e = [T("fld", T("fld", pl, 0, i), 0, k) for k in (0, 1) for i in (0, 1)]
        same = flt_orders(b, e[0], e[1], False) == {"="} and flt_orders(b, e[2], e[3], False) == {"="}
        differ = "=" not in flt_orders(b, e[0], e[1], False) or "=" not in flt_orders(b, e[2], e[3], False)
        n["line" if g else "point"] += 1
        ctx.ob("%s: a line is added exactly if its ends are different" % nm, g is not None and (same if not g else differ and len(g) == 1), inst, facts_show(b)[:500])
    else:
        n["curve"] += 1
        # all pieces of this very segment, and nothing else
        l = loop_at(ip, t0)
        cub = [t[1][2] for t, k in b.facts.items() if t[0] == "done" and k is True and t[1][0] == "call" and matches(t[1][1], mono)]
        ok = bool(l) and l[0] == il and l[3] is h0 and len(set(cub)) == 1 and whole_of(ip, unref(cub[0]), seg)
        ctx.ob("%s: a curve is added as its pieces" % nm, ok and passed_loop(ip, b, il), inst, "%s %s" % (show(t0)[:200], facts_show(b)[:400]))


def whole_of(ip, cub, seg):
    """The curve has the control points of the segment, or those it has as a cubic."""
    if cub[0] == "fld" and cub[1] is seg and cub[3] == 0:
        return True
    if cub[0] == "call" and cub[1].endswith("::to_cubic"):
        return unref(cub[2]) is seg
    if cub[0] != "agg":
        return False
    from fractions import Fraction as Q
    pt = lambda t, i, d: ip.project(ip.project(t, ("f", 0, i), None), ("f", 0, d), None)
    for var, rows in ((1, ((1, 0, 0), (Q(1, 3), Q(2, 3), 0), (0, Q(2, 3), Q(1, 3)), (0, 0, 1))), (2, ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)))):
        src = T("fld", seg, var, 0)
        ok = True
        for i, row in enumerate(rows):
            for d in (0, 1):
                want = {(pt(src, j, d),): c for j, c in enumerate(row) if c}
                got = fpoly(pt(cub, i, d))
                ok = ok and all(abs(got.get(m, 0) - want.get(m, 0)) < 1e-12 for m in set(got) | set(want))
        if ok:
            return True
    return False
