"""The part of the contour walk that places a contour in the hierarchy is interpreted abstractly for
an arbitrary inside predicate.  The search for the neighbour to the west is the loop that follows
the recorded west links: it starts at the edge's own link, passes over an edge exactly if it is
deleted or not on the boundary.  On every path to the walk, the parent and kind of the reserved
contour are compared with the rule in all combinations of the neighbour's kind and of what lies
between; contours cut off are children, of the other kind, of the one they are cut from; and every
edge put into a contour is entered in the table that the search looks contours up in."""
from props.walkctx import *
from props import p30

FLOOR = 14


def run(ctx):
    w = Walk(ctx)
    P, ip, inst = w.P, w.ip, w.inst
    ctx.rule("outer = outside to the west; parent = west contour if kinds differ, else its parent; cut-off = child of other kind")
    ipar, iout = field_index(P, CONTOUR, "parent"), field_index(P, CONTOUR, "outer")
    walks, syms = w.walks(w.rotations())
    if not ctx.ob("the walk along the boundary is found", bool(walks), inst):
        return
    west = searches(ctx, w)
    tabs = set()
    for r, n, xs, slot in walks:
        ctx.guard("reserve", inst, lambda: reserve(ctx, w, r, slot, west, ipar, iout, tabs))
        ctx.guard("cut", inst, lambda: cuts(ctx, w, r, n, ipar, iout))
    ctx.guard("registry", inst, lambda: registry(ctx, w, walks, tabs))


def none_of(s, t):
    d = s.facts.get(T("discr", t))
    return d == 0 or isinstance(d, frozenset) and 1 in d


def searches(ctx, w):
    """West-neighbour searches, over optional edges or over edges: {symbol: (first link, edge)}."""
    ip, inst = w.ip, w.inst
    out = {}
    table = w.otab("scan_west")
    for r in ip.records:
        for root, paths in r.mods.items():
            for p in paths:
                x = ip.read_loc(r.head, (root, p))
                if x[0] != "loop" or not r.back:
                    continue
                link = None
                for e, want in ((fld(fld(x, 0, 1), 0), lambda l: l), (fld(x, 0), lambda l: fld(l, 0, 1)), (x, lambda l: fld(fld(l, 0, 1), 0))):
                    nxt = T("sel", table, e)
                    if all(ip.read_loc(b, (root, p)) is want(nxt) for b in r.back):
                        link = nxt
                        break
                if link is None:
                    continue
                opt = want(nxt) is nxt
                init = [T("sel", table, i) for i in (y[2] for y in subterms(x[3]) if y[0] == "sel" and y[1] is table) if want(T("sel", table, i)) is x[3]]
                if len(init) != 1:
                    continue
                out[x] = (init[0], e, link, opt)
                for b in r.back:
                    ok = w.deleted(b, e) is True or w.boundary(b, e) is False
                    ctx.ob("passes over an edge only if it is deleted or off the boundary", ok, inst, facts_show(b)[-400:])
                for b in r.exit:
                    ok = none_of(b, x if opt else link) or w.deleted(b, e) is False and w.boundary(b, e) is True
                    ctx.ob("stops only at a boundary edge or at the end", ok, inst, facts_show(b)[-400:])
    ctx.ob("the search for the neighbour to the west is found", bool(out), inst)
    return out


def reserve(ctx, w, r, slot, west, ipar, iout, tabs):
    ip, inst, s = w.ip, w.inst, r.pre
    cont = p30.contours_slot(w, r)
    if not ctx.ob("a contour is reserved before the walk", cont is not None, inst):
        return
    cs = ip.read_loc(s, cont)
    base, new = cs[1], cs[2]
    e0 = w.edge(ip.read_loc(s, slot))
    xs = [x for x, (first, e, link, opt) in west.items()
          if (T("discr", x) in s.facts if opt else none_of(s, first) or none_of(s, link) or w.boundary(s, e) is True)]
    if not ctx.ob("the west neighbour is looked for before the walk", len(xs) == 1, inst, "%d searches decided" % len(xs)):
        return
    x = xs[0]
    first, e, link, opt = west[x]
    ctx.ob("the search starts at the edge's own west link", first is T("sel", w.otab("scan_west"), e0), inst, show(first)[:200])
    par, out = fld(new, ipar), decide(s, fld(new, iout))
    if none_of(s, x) if opt else none_of(s, first) or none_of(s, link):
        ctx.ob("without a west neighbour: an outer contour without parent", discr_is(s, par, 0) and out is True, inst,
               "parent %s, outer %s" % (show(par)[:200], out))
        return
    outside = w.boundary_side(s, e)
    # the neighbour's contour
    look = [t[1] for t, v in s.facts.items() if t[0] == "discr" and v == 1 and t[1][0] == "sel" and t[1][2] is e and t[1][1][0] in ("loop", "store", "repeat")]
    if not ctx.ob("the west neighbour's contour is looked up", len(look) == 1, inst, "; ".join(show(t)[:150] for t in look)):
        return
    tabs.add(look[0][1])
    c = fld(look[0], 0, 1)
    old = T("sel", base, fld(c, 0))
    kind = decide(s, fld(old, iout))
    if not ctx.ob("the kind of the neighbour and what lies between decide", outside is not None and kind is not None, inst,
                  "outside=%s neighbour outer=%s" % (outside, kind)):
        return
    ctx.ob("outer exactly if the outside is to the west (outside %s, neighbour outer %s)" % (outside, kind), out is outside, inst, "outer=%s" % out)
    if outside == kind:
        ctx.ob("sibling: the neighbour's parent (outside %s)" % outside, par is fld(old, ipar), inst, show(par)[:300])
    else:
        ok = par[0] == "agg" and par[2] == 1 and par[3] is c
        ctx.ob("child: the neighbour is the parent (outside %s)" % outside, ok, inst, show(par)[:300])


def discr_is(s, t, k):
    if t[0] == "agg":
        return t[2] == k
    return s.facts.get(T("discr", t)) == k


def cuts(ctx, w, r, n, ipar, iout):
    """Cut-off contours: the one with the walk's first edge gets the reserved slot."""
    ip, inst = w.ip, w.inst
    cont = p30.contours_slot(w, r)
    idx = ip.length(ip.read_loc(r.pre, cont)[1])
    segs = p30.segs_slot(w, r, n)
    rest = rest_index(ctx, w, r)
    if rest is None:
        return
    n_cut = 0
    for b in r.back:
        c0, c1 = ip.read_loc(r.head, cont), ip.read_loc(b, cont)
        s1 = next_rest(w, r, b, rest)
        if c1 is c0:
            ctx.ob("without a cut the slot for the rest stays", s1 is rest, inst, show(s1)[:200])
            continue
        u, wr = w.updates(c0, c1), w.paths_written(c0, c1)
        if not ctx.ob("a cut adds one contour", u is not None and u[0] is not None and len(wr) == 1, inst, show(c1)[:200]):
            continue
        n_cut += 1
        new, old = u[0], T("sel", c0, idx)
        par, out = fld(new, ipar), fld(new, iout)
        kind = decide(b, fld(old, iout))
        if kind is True:
            ok = par[0] == "agg" and par[2] == 1 and fld(par[3], 0) is idx
        else:
            ok = kind is False and par is fld(old, ipar)
        ctx.ob("an added contour is a child of the reserved one if that is an outer one, else its sibling", ok, inst, "outer=%s parent=%s" % (kind, show(par)[:200]))
        ctx.ob("an added contour is an inner one", decide(b, out) is False, inst, show(out)[:200])
        for i, v in u[1]:
            same = all(any(fld(v, k) is fld(x, k) for x in prev(c0, new, i, ip)) for k in (ipar, iout))
            ctx.ob("storing a path leaves parent and kind alone", same, inst, show(v)[:300])
        sv = ip.read_loc(b, segs)
        if not ctx.ob("a cut shortens the walk", sv[0] == "slice", inst, show(sv)[:200]):
            continue
        want = cut_index(w, b, sv[3], rest, idx, c0)
        ctx.ob("the part with the walk's first edge gets the reserved slot, others new ones",
               want is not None and same_int(w, b, wr[0][0], want), inst, "stored at %s, expected %s" % (show(wr[0][0])[:150], None if want is None else show(want)[:150]))
        want = None if want is None else ip.length(c0) if want is idx else rest
        ctx.ob("what is left of the walk gets the other slot", want is not None and same_int(w, b, s1, want), inst,
               "%s, expected %s" % (show(s1)[:150], None if want is None else show(want)[:150]))
    ctx.ob("cuts are found", n_cut > 0, inst)


def prev(c0, new, i, ip):
    """Element i of the list after `new` was added."""
    return [new] if i is ip.length(c0) else [T("sel", c0, i), T("sel", T("push", c0, new), i)]


def same_int(w, s, a, b):
    return a is b or decide(s, w.ip.binop("Eq", a, b, "i")) is True


def cut_index(w, s, k, rest, idx, c0):
    """Where the contour cut off from position k on belongs."""
    z = decide(s, w.ip.binop("Eq", k, I(0), "i"))
    e = decide(s, w.ip.binop("Eq", rest, idx, "i"))
    if z and e:
        return idx
    if z is False or e is False:
        return w.ip.length(c0)
    return None


def rest_index(ctx, w, r):
    """The loop symbol that says which contour the rest of the walk becomes."""
    cont = p30.contours_slot(w, r)
    c = w.rest_slot(r, cont)
    used = [x for x in c[1:] if any(v[0] == "store" and v[2] is x for q in w.ip.records for b in q.back for _, _, v in slots(w.ip, b))]
    if not ctx.ob("what is left of the walk goes to a slot that a cut can change", len(used) == 1, w.inst, "%d variables" % len(used)):
        return None
    return used[0]


def next_rest(w, r, b, rest):
    """The value of `rest` at the end of a step."""
    for root, paths in r.mods.items():
        for p in paths:
            x = w.ip.read_loc(r.head, (root, p))
            if x is rest:
                return w.ip.read_loc(b, (root, p))
            if fld(x, 0) is rest if x[0] == "loop" else False:
                return fld(w.ip.read_loc(b, (root, p)), 0)
    return rest


def registry(ctx, w, walks, tabs):
    """Every edge of a list that becomes a contour is entered in the lookup table."""
    ip, inst = w.ip, w.inst
    if not ctx.ob("one lookup table", len({t for t in tabs}) == 1, inst, "; ".join(show(t)[:100] for t in tabs)):
        return
    tab = next(iter(tabs))
    la = tab[2] if tab[0] == "loop" else None
    if not ctx.ob("the lookup table is kept over all contours", la is not None, inst, show(tab)[:200]):
        return
    loc = (la[1][1], tuple(la[2]))
    wl = {r.lid for r, _, _, _ in walks}
    found = {}
    for q in ip.records:
        if q.lid in wl or not q.back or tab[1] == q.lid:
            continue
        h = ip.read_loc(q.head, loc)
        vs = [ip.read_loc(b, loc) for b in q.back]
        if not all(v[0] == "store" and v[1] is h for v in vs):
            continue
        for v in vs:
            val, at = v[3], v[2]
            ok = val[0] == "agg" and val[2] == 1
            # the edge stored at is the edge of an element of a list, at the loop's position
            el = [x for x in subterms(at) if x[0] == "sel" and x[2][0] in ("loop", "lin") and w.edge(x) is at]
            if not ctx.ob("contour entries are made for the edges of a list", ok and len(el) == 1, inst, "%s at %s" % (show(val)[:100], show(at)[:200])):
                continue
            found.setdefault(q.lid, []).append((q, el[0][1], el[0][2], val[3]))
    segs = {p30.segs_slot(w, r, n) for r, n, _, _ in walks}
    kinds = set()
    for lid, es in found.items():
        for q, lst, pos, val in es:
            kinds.add(entry(ctx, w, walks, q, lst, pos, val, loc))
    ctx.ob("edges of cut-off contours are entered", "cut" in kinds, inst, str(kinds))
    ctx.ob("edges of walked contours are entered", "whole" in kinds, inst, str(kinds))


def entry(ctx, w, walks, q, lst, pos, val, loc):
    ip, inst = w.ip, w.inst
    r, n, xs, slot = walks[0]
    cont = p30.contours_slot(w, r)
    inwalk = any(e[0] == "loop" and len(e) == 2 and e[1] == r.lid for e in q.pre.ev) and in_walk(w, walks, q)
    c, m = lin_of(pos)
    sym = [a for a in m if a[0] == "loop" and a[1] == q.lid]
    if not ctx.ob("entries run over the list", len(sym) == 1 and m[sym[0]] == 1, inst, show(pos)[:200]):
        return None
    start = isub(pos, sym[0])
    first = iadd(start, sym[0][3])
    for b in q.exit:
        d = decide(b, ip.binop("Ge", pos, ip.length(lst), "i"))
        ctx.ob("entries are made up to the end of the list", d is True, inst, "position %s of %s" % (show(pos)[:150], show(ip.length(lst))[:100]))
    rest = {}
    for x, _, _, _ in walks:
        rest[x] = w.rest_slot(x, p30.contours_slot(w, x))
    if inwalk:
        # the list may or may not have been extended yet
        now = ip.read_loc(q.pre, cont)
        ok = False
        for x, _, _, _ in walks:
            c0 = ip.read_loc(x.head, cont)
            idx = rest[x][0]
            for sym in rest[x][1:]:
                want = cut_index(w, q.pre, first, sym, idx, c0)
                ok = ok or want is not None and w.updates(c0, now) is not None and same_int(w, q.pre, fld(val, 0), want)
        ctx.ob("a cut-off contour's edges are entered under its index", ok, inst, show(val)[:200])
        ok = lst[0] == "push"
        ctx.ob("entries of a cut-off contour start where the cut is", ok and cut_at(w, walks, q, first), inst, show(first)[:200])
        return "cut"
    ok = any(fld(val, 0) in rest[x][1:] for x in rest)
    ctx.ob("a walked contour's edges are entered under its index", ok, inst, show(val)[:150])
    ctx.ob("entries of a walked contour start at the beginning", first is I(0), inst, show(first)[:200])
    return "whole"


def in_walk(w, walks, q):
    """Is the loop q inside the walking loop: its effects show up in a back state of it."""
    return any(any(e[0] == "loop" and len(e) == 2 and e[1] == q.lid for e in b.ev[len(r.pre.ev):]) for r, _, _, _ in walks for b in r.back)


def cut_at(w, walks, q, k):
    """Some cut of the walk keeps exactly the first k elements."""
    for r, n, _, _ in walks:
        sl = p30.segs_slot(w, r, n)
        for b in r.back:
            v = w.ip.read_loc(b, sl)
            if v[0] == "slice" and v[3] is k:
                return True
    return False
