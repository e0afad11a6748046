"""The queries over the contours and the bounding box.  The functions are interpreted abstractly; lists are taken apart into the loops
that append to them.  Children have to be filed under their parents and the others into the list of starts (one case per outcome of a
loop step), one group made per start, and a group grown from its start by the children of what it contains: by a visitor that appends
its contour and visits all children (decided by induction over its recursion), or by a worklist.  The bounding box has to be a running
union over all segments."""
from lib import *
from props.linectx import surely

FLOOR = 14
TO = CRATE + "topology::"
CS = TO + "Contours"
TP = TO + "Topology"


def run(ctx):
    P = ctx.P
    ctx.rule("every contour is listed once, in the group of its outermost ancestor, which comes first; all contours are iterated over; the bounding box covers all segments")
    ctx.assumption("parents are as P15 has them: a contour's ancestors form a chain that ends in a contour without parent; kurbo's bounding box of a curve contains it")
    g = Queries(ctx, P)
    for n, w in (("grouped", CS + "::grouped"), ("contours", CS + "::contours"), ("index", "Contours[ContourIdx]"), ("bounds", TP + "::bounding_box")):
        ctx.guard(n, w, lambda: getattr(g, n)())


def is_some(s, t):
    if t[0] == "agg":
        return t[2] == 1
    d = s.facts.get(T("discr", t))
    if d is None:
        return None
    if isinstance(d, frozenset):
        return True if 0 in d else False if 1 in d else None
    return d == 1


def content(ip, s, t):
    """Through references."""
    for _ in range(6):
        if t[0] == "ref":
            t = ip.read_loc(s, (t[1], t[2]))
        elif t[0] == "&":
            t = t[1]
        else:
            break
    return t


def empty(t):
    return t[0] == "empty" or t[0] == "agg" and t[1] == "array" and len(t) == 3


class Queries:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.parent = field_index(P, TO + "Contour", "parent")
        self.inst = None

    def ob(self, what, ok, show_=""):
        return self.ctx.ob(what, ok, self.inst, show_)

    # ---- loops over all elements

    def enumerates(self, ip, lid, back, k, n, ends):
        """Index k takes every value below n once in loop lid."""
        e, a = at_entry(ip, lid, k), after_step(ip, lid, k, back)
        if e is None:
            return False
        if e is I(0) and a is iadd(k, I(1)):
            return all("<" not in int_orders(z, k, n) or any(f[0] == "done" and f[2] is k and v is True for f, v in z.facts.items() if isinstance(f, tuple)) for z in ends)
        if e is isub(n, I(1)) and a is isub(k, I(1)):
            return all(">" not in int_orders(z, iadd(k, I(1)), I(0)) for z in ends)
        return False

    def adds_all(self, ip, s, v, base, C):
        """List v is base followed by every element of C, each once, in any order."""
        v = content(ip, s, v)
        if v[0] == "extend" and v[1] is base:
            w = v[2]
            while w[0] in ("reversed", "collect", "refs", "&", "sorted"):
                w = w[1]
            return w is C
        l = loop_at(ip, v)
        if not l or l[3] is not base:
            return False
        lid = l[0]
        recs = recs_of(ip, lid, s)
        n = ip.length(C)
        for r in recs:
            for b in r.back:
                got = pushed(ip, r.head, b, l[1][1], l[2])
                if not got or len(got) != 1:
                    return False
                x = content(ip, b, got[0])
                if x[0] != "sel" or x[1] is not C or not self.enumerates(ip, lid, b, x[2], n, [s]):
                    return False
        return bool(recs) and any(r.back for r in recs)

    # ---- groups

    def grouped(self):
        inst = self.inst = self.P.one(key=CS + "::grouped")
        ip, args, outs = self.ctx.analyse(inst, opaque=lambda p, i: bool(i) and calls_itself(self.P, i), pull="lists")
        self.ip = ip
        me = T("*", args[0])
        self.cs = cs = ip.project(me, ("f", 0, field_index(self.P, CS, "contours")), None)
        self.n = n = ip.length(cs)
        for v, s in outs:
            v = content(ip, s, v)
            l = loop_at(ip, v)
            if not self.ob("the groups are made one by one, starting from none", bool(l) and empty(l[3]), show(v)[:300]):
                continue
            made = 0
            for r in recs_of(ip, l[0], s):
                for b in r.back:
                    got = pushed(ip, r.head, b, l[1][1], l[2])
                    if not self.ob("groups are only added", got is not None and len(got) <= 1, show(v)[:200]):
                        continue
                    if got:
                        made += 1
                        self.group(ip, l[0], b, s, got[0])
                    else:
                        i = self.current(ip, l[0], b, s)
                        self.ob("a contour that starts no group has a parent", i is not None and is_some(b, self.par(ip, i)), facts_show(b)[:300])
            self.ob("groups are made", made > 0)

    def par(self, ip, i):
        return ip.project(T("sel", self.cs, i), ("f", 0, self.parent), None)

    def current(self, ip, lid, b, s):
        """The index of the contour that a loop over all contours is at."""
        ks = set()
        for root, path, x in slots(ip, b):
            for t in subterms(x):
                l = loop_at(ip, t)
                if l and l[0] == lid:
                    ks.add(t)
        for f in list(b.facts):
            for t in subterms(f) if isinstance(f, tuple) else ():
                l = loop_at(ip, t)
                if l and l[0] == lid:
                    ks.add(t)
        ks |= {isub(k, I(1)) for k in list(ks) if loop_at(ip, k)[3][0] in ("i", "lin")}
        for k in ks:
            try:
                if self.enumerates(ip, lid, b, k, self.n, [s]):
                    return k
            except (TypeError, KeyError, IndexError):
                pass
        return None

    def group(self, ip, lid, b, s, G):
        G = content(ip, b, G)
        seed, kids = self.grown(ip, b, G)
        if not self.ob("a group consists of a contour and what is reached through children", seed is not None, show(G)[:500]):
            return
        self.starts(ip, lid, b, s, seed)
        self.children(ip, b, kids)

    def starts(self, ip, lid, b, s, seed):
        seed = content(ip, b, seed)
        if seed[0] == "sel":
            C, k = seed[1], seed[2]
            self.ob("every start makes a group", self.enumerates(ip, lid, b, k, ip.length(C), [s]), show(seed)[:300])
            l = loop_at(ip, C)
            if not self.ob("the starts are collected one by one", bool(l) and empty(l[3]), show(C)[:300]):
                return
            for r in recs_of(ip, l[0], b):
                for z in r.back:
                    got = pushed(ip, r.head, z, l[1][1], l[2])
                    i = self.current(ip, l[0], z, b)
                    if not self.ob("all contours are looked at for starts", i is not None and got is not None, show(C)[:200]):
                        continue
                    some = is_some(z, self.par(ip, i))
                    ok = some is True and not got or some is False and len(got) == 1 and fld(content(ip, z, got[0]), 0) is i
                    self.ob("exactly the contours without parent are starts", ok, "%s %s" % ([show(x)[:200] for x in got], facts_show(z)[:300]))
            return
        i = fld(seed, 0)
        self.ob("every contour is looked at for a start", self.enumerates(ip, lid, b, i, self.n, [s]), show(seed)[:300])
        self.ob("a group starts with a contour without parent", is_some(b, self.par(ip, i)) is False, facts_show(b)[:300])

    def children(self, ip, b, K):
        l = loop_at(ip, K)
        ok = bool(l) and l[3][0] == "repeat" and empty(l[3][1]) and l[3][2] is self.n
        if not self.ob("every contour has a list of children, empty at first", ok, show(K)[:300]):
            return
        for r in recs_of(ip, l[0], b):
            for z in r.back:
                i = self.current(ip, l[0], z, b)
                if not self.ob("all contours are looked at for parents", i is not None, show(K)[:200]):
                    continue
                old, new = ip.read_loc(r.head, (l[1][1], l[2])), ip.read_loc(z, (l[1][1], l[2]))
                par = self.par(ip, i)
                some = is_some(z, par)
                if some is True:
                    p = ip.project(ip.project(par, ("f", 1, 0), z), ("f", 0, 0), z)
                    ok = new[0] == "store" and new[1] is old and new[2] is p and new[3][0] == "push" and new[3][1] is T("sel", old, p) and fld(content(ip, z, new[3][2]), 0) is i
                else:
                    ok = some is False and new is old
                self.ob("a contour with a parent becomes its child, the others nobody's", ok, "%s %s" % (show(new)[:300], facts_show(z)[:300]))

    def grown(self, ip, b, G):
        """(start, children) of a group."""
        if G[0] == "after" and G[1][0] == "call" and empty(G[3]):
            return self.visited(ip, b, G[1], G[3])
        l = loop_at(ip, G)
        if not l:
            return None, None
        init = l[3]
        if init[0] == "agg" and init[1] == "array" and len(init) == 4 or init[0] == "push" and empty(init[1]):
            return self.worklist(ip, b, G, l, init[3] if init[0] == "agg" else init[2])
        if empty(init):
            return self.stack(ip, b, G, l)
        return None, None

    def visited(self, ip, b, call, old):
        cs = [i for i in self.P.insts if i["body"] and i["path"] == call[1]]
        names = {}
        for j, a in enumerate(call[2:]):
            c = content(ip, b, a)
            names["list" if empty(c) else "children" if loop_at(ip, c) and loop_at(ip, c)[3][0] == "repeat" else "start"] = j
        if not cs or len(call) != 5 or len(names) != 3:
            return None, None
        ok = self.visitor(cs[0], names)
        self.ob("the visitor appends its contour and visits all its children", ok, cs[0]["path"])
        return call[2 + names["start"]], content(ip, b, call[2 + names["children"]])

    def visitor(self, inst, names):
        ip, args, outs = self.ctx.analyse(inst, opaque=lambda p, i: bool(i) and i["path"] == inst["path"])
        idx, kids = args[names["start"]], args[names["children"]]
        root = ip.target(args[names["list"]])
        K = T("*", kids)
        C = T("sel", K, fld(idx, 0))
        n = ip.length(C)
        good = bool(outs)
        for v, s in outs:
            acc = ip.read_loc(s, root)
            l = loop_at(ip, acc)
            if not l or l[3][0] != "push" or content(ip, s, l[3][2]) is not idx or l[3][1] is not T("*", args[names["list"]]):
                return False
            recs = recs_of(ip, l[0], s)
            good &= any(r.back for r in recs)
            for r in recs:
                for z in r.back:
                    old, new = ip.read_loc(r.head, root), ip.read_loc(z, root)
                    if new[0] != "after" or new[3] is not old or new[1][0] != "call" or new[1][1] != inst["path"]:
                        return False
                    a = new[1][2:]
                    x = content(ip, z, a[names["start"]])
                    k2 = a[names["children"]]
                    same = k2 is kids or content(ip, z, k2) is K
                    good &= same and x[0] == "sel" and x[1] is C and self.enumerates(ip, l[0], z, x[2], n, [s])
        return good

    def worklist(self, ip, b, G, l, start):
        kids = None
        for r in recs_of(ip, l[0], b):
            for z in r.back:
                old, new = ip.read_loc(r.head, (l[1][1], l[2])), ip.read_loc(z, (l[1][1], l[2]))
                K = self.expanded(ip, z, new, old, lambda x: x[0] == "sel" and x[1] is old and self.walks(ip, l[0], z, b, x[2], G))
                if K is None or kids is not None and kids is not K:
                    return None, None
                kids = K
        return (start, kids) if kids is not None else (None, None)

    def walks(self, ip, lid, z, b, k, G):
        e, a = at_entry(ip, lid, k), after_step(ip, lid, k, z)
        return e is I(0) and a is iadd(k, I(1)) and "<" not in int_orders(b, k, ip.length(G))

    def expanded(self, ip, z, new, base, right):
        """The table of children if new is base with all children of the right contour appended."""
        for t in subterms(new):
            if t[0] == "sel" and t[2][0] == "fld" and right(t[2][1]) and self.adds_all(ip, z, new, base, t):
                return t[1]
        for rec in ip.records:
            for y in rec.back if rec.no in z.via else ():
                for root, path, x in slots(ip, y):
                    for t in subterms(x):
                        if t[0] == "sel" and t[2][0] == "fld" and right(t[2][1]) and self.adds_all(ip, z, new, base, t):
                            return t[1]
        return None

    def stack(self, ip, b, G, l):
        lid, kids, start = l[0], None, None
        for r in recs_of(ip, lid, b):
            for z in r.back:
                got = pushed(ip, r.head, z, l[1][1], l[2])
                x = content(ip, z, got[0]) if got and len(got) == 1 else None
                if x is None or x[0] != "sel":
                    return None, None
                S = loop_at(ip, x[1])
                n = ip.length(x[1])
                if not S or S[0] != lid or x[2] is not isub(n, I(1)) or ">" in int_orders(b, n, I(0)):
                    return None, None
                init = S[3]
                one = init[3] if init[0] == "agg" and init[1] == "array" and len(init) == 4 else init[2] if init[0] == "push" and empty(init[1]) else None
                new = ip.read_loc(z, (S[1][1], S[2]))
                K = self.expanded(ip, z, new, T("slice", x[1], I(0), x[2]), lambda y: y is x)
                if one is None or K is None or kids is not None and kids is not K:
                    return None, None
                kids, start = K, one
        return start, kids

    # ---- the other queries

    def contours(self):
        inst = self.inst = self.P.one(key=CS + "::contours")
        ip, args, outs = self.ctx.analyse(inst)
        cs = ip.project(T("*", args[0]), ("f", 0, field_index(self.P, CS, "contours")), None)
        for v, s in outs:
            ok = v[0] == "agg" and v[1] == "it" and v[4] is I(0)
            src = v[3] if ok else v
            for _ in range(4):
                src = content(ip, s, src)
                src = src[1] if src[0] == "refs" else src
            self.ob("all contours are iterated over", ok and src is cs, show(v)[:300])

    def index(self):
        inst = self.inst = [i for i in self.P.insts if i["body"] and i["key"].startswith("<" + CS + " as core::ops::index::Index<")][0]
        ip, args, outs = self.ctx.analyse(inst)
        cs = ip.project(T("*", args[0]), ("f", 0, field_index(self.P, CS, "contours")), None)
        for v, s in outs:
            got = content(ip, s, v)
            self.ob("an index gives the contour with that number", got is T("sel", cs, fld(args[1], 0)), show(v)[:300])

    def bounds(self):
        found = [i for i in self.P.insts if i["body"] and i["path"].endswith("Topology::<W>::bounding_box")] or [self.P.one(key=TP + "::<W>::bounding_box")]
        inst = self.inst = found[0]
        ip, args, outs = self.ctx.analyse(inst, opaque=["re:to_kurbo_cubic$", "re:bounding_box$"], keep_rel=True, pull=True)
        R = "kurbo::rect::Rect"
        for v, s in outs:
            for n, op, inf in (("x0", "fmin", "inf"), ("y0", "fmin", "inf"), ("x1", "fmax", "-inf"), ("y1", "fmax", "-inf")):
                j = field_index(self.P, R, n)
                t = ip.project(v, ("f", 0, j), s)
                l = loop_at(ip, t)
                if not self.ob("the bounds are collected in a loop, starting from nothing", bool(l) and l[3] is F(float(inf)), "%s: %s" % (n, show(t)[:300])):
                    continue
                for r in recs_of(ip, l[0], s):
                    for z in r.back:
                        old, new = ip.read_loc(r.head, (l[1][1], l[2])), ip.read_loc(z, (l[1][1], l[2]))
                        ls = leaves_of(new, op) | ({new} if new[0] != op else set())
                        ls.discard(new) if new[0] == op else None
                        hit = [x for x in subterms(new) if x[0] == "call" and x[1].endswith("bounding_box")]
                        hit += [x for rt, p, y in slots(ip, z) for x in subterms(y) if x[0] == "call" and x[1].endswith("bounding_box")]
                        ok = False
                        for c in hit:
                            mine = ip.project(c, ("f", 0, j), z)
                            rel = "<=" if op == "fmin" else ">="
                            ok |= all(any(x is y or surely(z, x, y, rel) for x in ls) for y in (old, mine)) and ls <= {old, mine} and self.every(ip, l[0], z, s, c)
                        self.ob("every segment's bounding box extends the bounds", ok, "%s: %s" % (n, show(new)[:400]))

    def every(self, ip, lid, z, s, c):
        """The bounding box is that of the segment at an index that takes every value."""
        segs = [x for x in subterms(c) if x[0] == "sel"]
        return any(self.enumerates(ip, lid, z, x[2], ip.length(x[1]), [s]) and self.table(x[1]) for x in segs)

    def table(self, t):
        P = self.P
        a = field_index(P, TP, "segments")
        return t[0] == "fld" and contains(t, lambda x: x[0] == "fld" and x[3] == a and x[1][0] == "*")


def calls_itself(P, inst):
    """The function, or a closure in it, calls the function."""
    p = inst["path"]
    return p.startswith(CRATE) and any(
        j["body"] and (j["path"] == p or j["path"].startswith(p + "::{closure")) and any(
            b["t"][0] == "call" and b["t"][1][0] == "k" and (b["t"][1][1].get("fn") or {}).get("rpath") == p for b in j["body"]["blocks"]) for j in P.insts)
