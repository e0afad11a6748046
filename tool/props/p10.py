"""The contour links of the arena are followed through every way of adding segments.  On each loop
step that appends a segment its previous link is the index before its own and its next link the
index after it; every other change of the two link tables must be the pair of writes that finishes
one subpath: the previous link of the subpath's first segment and the next link of its last, either
closing the cycle (last / first index) or both ending the chain, and no way out or outer loop step
may leave a grown subpath without it.  For paths, the cycle is closed on exactly those paths on
which the original start of the first segment equals the original end of the last one."""
from props.segctx import *
from props.p09 import point

FLOOR = 20


def run(ctx):
    P = ctx.P
    ctx.rule("prev = index-1, next = index+1 inside a subpath; first.prev and last.next are both the cycle's or both none; cycle iff start = end")
    for nm, inst in entries(P):
        ctx.guard(nm, inst, lambda: adder(ctx, P, nm, inst))


def strip_stores(v):
    """(base, {index: value} in order of writing)"""
    w = []
    while v[0] == "store":
        w.append((v[2], v[3]))
        v = v[1]
    return v, w


class Norm:
    """Integers over the table lengths, every length expressed as that of the segment table (all
    tables have equal lengths, property P07)."""
    def __init__(self, ar, ln):
        self.ar, self.ln = ar, ln
        self.memo = {}

    def len(self, v):
        """(origin, k) as a linear form."""
        o, k = self.ln.key(v)
        return self.form(o, k)

    def form(self, o, k):
        return ("len", o, k)

    def int(self, t):
        """Value of an index term: ('len', origin, k), or None."""
        if t[0] == "i":
            return ("len", "empty", t[1])
        c, m = lin_of(t)
        items = list(m.items()) if isinstance(m, dict) else list(m)
        if len(items) != 1 or items[0][1] != 1 or items[0][0][0] != "len":
            return None
        o, k = self.ln.key(items[0][0][1])
        return ("len", o, k + c)


def adder(ctx, P, nm, inst):
    ar = Arena(ctx, P, nm, inst, keep_rel=True)
    ln = Lengths(ar.ip)
    nz = Norm(ar, ln)
    ip = ar.ip
    ss = steps(ar)
    ctx.ob("%s: appends segments" % nm, len(ss) > 0, inst)
    growing = set()
    for st in ss:
        growing.add(st.rec.lid)
        if st.v is None:
            ctx.fail("%s: one segment per step" % nm, inst, "tables do not grow by one each")
            continue
        head = ar.table(st.rec.head, "segs")
        o, k = ln.key(head)
        me = ("len", o, k)

        def idx(t):
            t = some_index(t)
            return nz.int(t) if t is not None else None
        pv, nx = idx(st.v["contour_prev"]), idx(st.v["contour_next"])
        ctx.ob("%s: a new segment is linked to the one after it" % nm, nx == ("len", o, k + 1), inst, "%s, own index %s" % (nx, me))
        empty = int_orders(st.back, ip.length(head), I(0)) == frozenset("=")
        ctx.ob("%s: a new segment is linked to the one before it" % nm, pv == ("len", o, k - 1) or empty, inst, "%s, own index %s" % (pv, me))
        # the step must not touch other links
        for t in ("contour_prev", "contour_next"):
            b, w = strip_stores(ar.table(st.back, t))
            ctx.ob("%s: appending changes no other link" % nm, not w, inst, show(ar.table(st.back, t))[:300])
    # everything else
    n = {"closed": 0, "open": 0, "none": 0}
    for r in ip.records:
        # loops that never write links are inside a subpath; whoever contains them finishes it
        if not finished_inside(ar, ln, r.lid):
            continue
        for b in r.back:
            finish(ctx, P, ar, ln, nz, nm, inst, b, lambda t, s=b: ar.table(s, t), lambda t, h=r.head: ar.table(h, t), n)
    for v, s in ar.outs:
        if v[0] == "agg" and v[1] == "core::result::Result" and v[2] == 1:
            continue
        finish(ctx, P, ar, ln, nz, nm, inst, s, lambda t: ar.final(v, s, t), None, n)
    ctx.stats[nm] = dict(n)
    if nm == "add_points":
        ctx.ob("add_points: ends of the chain are open", n["open"] > 0 and n["closed"] == 0, inst, str(n))
    elif nm == "add_non_closed_bez_path":
        ctx.ob("%s: both kinds of subpath" % nm, n["closed"] > 0 and n["open"] > 0, inst, str(n))
    else:
        ctx.ob("%s: every chain is closed" % nm, n["closed"] > 0 and n["open"] == 0, inst, str(n))


def some_index(t):
    """The index inside Some(SegIdx(i)); None for anything else."""
    if t[0] == "agg" and t[1] == "core::option::Option" and t[2] == 1:
        return fld(t[3], 0)
    return None


def is_none(t):
    return t[0] == "agg" and t[1] == "core::option::Option" and t[2] == 0


def finish(ctx, P, ar, ln, nz, nm, inst, s, table, head, n):
    """The state after an outer step or at the end: the last grown run, if any, is finished."""
    ip = ar.ip
    pb, pw = strip_stores(table("contour_prev"))
    nb, nw = strip_stores(table("contour_next"))
    sb, _ = strip_stores(table("segs"))
    l = loop_at(ip, sb)
    if head is not None and all(table(t) is head(t) for t in ("segs", "contour_prev", "contour_next")):
        return
    if head is not None and sb is head("segs") or l is None or ln.flat(l[0], l[1], l[2]):
        # nothing was appended since the enclosing loop started / the function was entered
        ctx.ob("%s: links only change when segments were appended" % nm, not pw and not nw, inst,
               "%s / %s" % (show(pb)[:100], show(nb)[:100]))
        n["none"] += 1
        return
    # a loop appended segments; is it one whose every step finishes its own subpaths?
    if finished_inside(ar, ln, l[0]):
        ctx.ob("%s: links only change when segments were appended" % nm, not pw and not nw, inst, show(table("contour_prev"))[:300])
        n["none"] += 1
        return
    first = ln.key(l[3])
    last = ln.key(sb)
    start = ("len", first[0], first[1])
    end = ("len", last[0], last[1] - 1)
    if not pw and not nw:
        # must be impossible that anything was appended
        o = int_orders(s, ip.length(l[3]), ip.length(sb))
        ctx.ob("%s: every subpath that got segments is finished" % nm, "<" not in o, inst,
               "a path leaves a subpath unfinished: %s" % facts_show(s)[-300:])
        n["none"] += 1
        return
    ok = len(pw) == 1 and len(nw) == 1 and nz.int(pw[0][0]) == start and nz.int(nw[0][0]) == end
    if not ctx.ob("%s: exactly first.prev and last.next are rewritten" % nm, ok, inst,
                  "prev at %s, next at %s; first %s, last %s" % ([nz.int(x) for x, _ in pw], [nz.int(x) for x, _ in nw], start, end)):
        return
    p, q = pw[0][1], nw[0][1]
    if is_none(p) and is_none(q):
        kind = "open"
    else:
        pi, qi = some_index(p), some_index(q)
        kind = "closed"
        ctx.ob("%s: a closed subpath is linked cyclically" % nm,
               pi is not None and qi is not None and nz.int(pi) == end and nz.int(qi) == start, inst,
               "first.prev=%s last.next=%s" % (show(p)[:150], show(q)[:150]))
    n[kind] += 1
    if "bez" in nm:
        eq = ends_equal(P, ar, s, table, pw[0][0], nw[0][0])
        if kind == "closed":
            ctx.ob("%s: only a subpath that ends where it starts is linked cyclically" % nm, eq == "equal", inst, eq)
        else:
            ctx.ob("%s: a subpath that ends where it starts is linked cyclically" % nm, eq == "different", inst, eq)


def finished_inside(ar, ln, lid):
    """The loop's own steps, or loops they contain, write links (i.e. each step handles whole
    subpaths)."""
    if not hasattr(ar, "whole"):
        ar.whole = {}
    if lid not in ar.whole:
        ar.whole[lid] = False
        ar.whole[lid] = finished_inside1(ar, ln, lid)
    return ar.whole[lid]


def finished_inside1(ar, ln, lid):
    for r in ar.ip.records:
        if r.lid != lid:
            continue
        for b in r.back:
            for t in ("contour_prev", "contour_next"):
                x, h = ar.table(b, t), ar.table(r.head, t)
                if x is h:
                    continue
                while x is not h:
                    y, w = strip_stores(x)
                    if w:
                        return True
                    if y is h:
                        break
                    if y[0] == "push":
                        x = y[1]
                        continue
                    l = loop_at(ar.ip, y)
                    if l is None or l[0] == lid:
                        break
                    if finished_inside(ar, ln, l[0]):
                        return True
                    x = l[3]
    return False


def end_points(P, ar, s, table, i, j):
    """((y, x) of the original start of segment i, (y, x) of the original end of segment j)."""
    ip = ar.ip
    segs, ori = table("segs"), table("orientation")

    def end(k, first):
        o = s.facts.get(ip.select(ori, k, s))
        inner = ip.project(ip.select(segs, k, s), ("f", 0, 0), s)
        d = s.facts.get(T("discr", inner))
        if o is None or d is None:
            return None
        last = {0: 1, 1: 3}[d]
        return point(P, ip, T("fld", inner, d, 0 if o == first else last))
    return end(norm_index(ar, table, i), True), end(norm_index(ar, table, j), False)


def ends_equal(P, ar, s, table, i, j):
    """Does the path know whether the original start of segment i is the original end of segment j?"""
    a, b = end_points(P, ar, s, table, i, j)
    if a is None or b is None:
        return "the path does not look at the end points"
    oy, ox = flt_orders(s, a[0], b[0]), flt_orders(s, a[1], b[1])
    if oy == ox == frozenset("="):
        return "equal"
    if "=" not in oy or "=" not in ox:
        return "different"
    return "unknown: y %s, x %s" % ("".join(sorted(oy)), "".join(sorted(ox)))


def norm_index(ar, table, j):
    """j with any table's current length replaced by the segment table's."""
    segs = ar.ip.length(strip_stores(table("segs"))[0])
    m = {}
    for t in TABLES:
        x = ar.ip.length(strip_stores(table(t))[0])
        if x is not segs and x[0] == "len":
            m[x] = segs
    return subst(j, m)
