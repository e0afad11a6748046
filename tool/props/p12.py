"""The comparison functions of every type the crate sorts by or keeps in an ordered collection are
interpreted abstractly on two symbolic values; the resulting outcome table (which depends on nothing
but how the components compare) is evaluated for all pairs of values with components from a
three-element chain, so on all weak orderings of three values per component.  On all triples
the result must be a total order (reflexive, antisymmetric, transitive), its primary key the documented
one, partial comparison the same, and equality true exactly when the comparison says equal."""
from lib import *

FLOOR = 40
LESS, EQUAL, GREATER = "<", "=", ">"


def specs(P):
    def f(ty, *names):
        return [field_index(P, CRATE + ty, n) for n in names]
    cof = (("f", 0, 0),)

    def at(*i):
        return tuple(("f", 0, k) for k in i)
    y, x = f("geom::Point", "y", "x")
    ey, el, er = f("sweep::sweep_line::IntersectionEvent", "y", "left", "right")
    x0, x1 = f("sweep::output_event::OutputEvent", "x0", "x1")
    hy, hi = f("position::HeapEntry", "y", "idx")
    return [
        # type, components, sort key (as a tuple; compared as Python tuples), full key?, equality too?
        ("geom::Point", [at(y), at(x)], lambda v: v, True, True, "first by height, then by horizontal position"),
        ("num::CheapOrderedFloat", [at(0)], lambda v: v, True, True, "by value"),
        ("segments::SegIdx", [at(0)], lambda v: v, True, True, "by index"),
        ("topology::OutputSegIdx", [at(0)], lambda v: v, True, True, "by index"),
        ("sweep::sweep_line::IntersectionEvent", [at(ey), at(el, 0), at(er, 0)], lambda v: v[:1], False, True, "first by height"),
        ("sweep::output_event::OutputEvent", [at(x0), at(x1)], lambda v: (min(v), max(v)), False, False, "by smallest, then largest horizontal position"),
        ("position::HeapEntry", [at(hy, 0), at(hi, 0)], lambda v: (-v[0],), False, True, "highest (smallest y) is greatest"),
    ]


def run(ctx):
    P = ctx.P
    ctx.assumption("components are not NaN (property P05 for boolean operations)")
    ctx.rule("total order on all triples; primary key as documented; partial_cmp = Some(cmp); eq iff cmp is Equal")
    for ty, comps, key, full, eq, text in specs(P):
        ctx.guard(ty, CRATE + ty, lambda: one(ctx, P, ty, comps, key, full, eq, text))


def outcomes(ctx, P, ty, tr, m):
    inst = P.one("<%s%s as core::cmp::%s>::%s" % (CRATE, ty, tr, m))
    ip, a, outs = ctx.analyse(inst, keep_rel=True)
    return inst, ip, a, outs


def comp(ip, ref, path):
    v = T("*", ref)
    for e in path:
        v = ip.project(v, e, None)
    return v


def one(ctx, P, ty, comps, key, full, eq, text):
    nm = ty.split("::")[-1]
    inst, ip, a, outs = outcomes(ctx, P, ty, "Ord", "cmp")
    vals = [()]
    for c in comps:
        vals = [v + (k,) for v in vals for k in (0, 1, 2)]

    def env(ip, a, v, w):
        e = {comp(ip, a[0], c): x for c, x in zip(comps, v)}
        e.update({comp(ip, a[1], c): x for c, x in zip(comps, w)})
        return e
    R = {}
    for v in vals:
        for w in vals:
            R[v, w] = table(outs, env(ip, a, v, w))
    bad = [(v, R[v, v]) for v in vals if R[v, v] != EQUAL]
    ctx.ob("%s: a value equals itself" % nm, not bad, inst, str(bad[:3]))
    flip = {LESS: GREATER, GREATER: LESS, EQUAL: EQUAL}
    bad = [(v, w, R[v, w], R[w, v]) for v, w in R if R[v, w] != flip[R[w, v]]]
    ctx.ob("%s: swapping the operands swaps the answer" % nm, not bad, inst, str(bad[:3]))
    le = {p for p, r in R.items() if r != GREATER}
    bad = [(u, v, w) for u, v in le for w in vals if (v, w) in le and (u, w) not in le]
    ctx.ob("%s: transitive" % nm, not bad, inst, str(bad[:3]))
    bad = [(v, w, R[v, w]) for v, w in R if key(v) != key(w) and R[v, w] != (LESS if key(v) < key(w) else GREATER)]
    ctx.ob("%s: ordered %s" % (nm, text), not bad, inst, str(bad[:3]))
    if eq:
        bad = [(v, w) for v, w in R if v != w and R[v, w] == EQUAL]
        ctx.ob("%s: different values are never equal" % nm, not bad, inst, str(bad[:3]))
    i2, p2, a2, o2 = outcomes(ctx, P, ty, "PartialOrd", "partial_cmp")
    some = lambda r: ("core::option::Option", 1, r)
    bad = [(v, w) for v, w in R if table(o2, env(p2, a2, v, w)) != some(R[v, w])]
    ctx.ob("%s: partial comparison agrees" % nm, not bad, i2, str(bad[:3]))
    if eq:
        i3, p3, a3, o3 = outcomes(ctx, P, ty, "PartialEq", "eq")
        bad = [(v, w) for v, w in R if bool(table(o3, env(p3, a3, v, w))) != (R[v, w] == EQUAL)]
        ctx.ob("%s: equality agrees" % nm, not bad, i3, str(bad[:3]))
    ctx.stats[nm] = "%d pairs" % len(R)
