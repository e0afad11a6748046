"""The ordered tree, step by step.  Every operation on a node is interpreted with what it does to the children left open;
the lists of elements, children and sizes it leaves are compared, piece by piece, with those it found: nothing is lost,
duplicated or moved, a new element goes to the place asked for, the second half of a split and a merged sibling are put where
they belong, and next to each child is kept the size it has now.  The loops that look for the child an offset falls into have
to subtract the sizes of all children before it.  An iterator's steps are compared with those of a walk over the tree.
Every child that got too small has a sibling to go to, and what is filled up is filled up enough."""
import re
import engine
from props.linectx import *

FLOOR = 60
TV = CRATE + "treevec::"
LOG = ("H", ("log",))
CHANGES = ("insert", "remove", "merge_from_right", "merge_from_left")
ASKED = ("get", "get_mut", "first", "partition_point", "check_invariants")


def run(ctx):
    P = ctx.P
    ctx.rule("after every step the tree lists the elements it should, in order, and knows the size of every child; lookups and iterators go where the sizes say")
    ctx.assumption("recursive calls do what is asked of the function itself; nodes start out with as many sizes as children, all of them right")
    t = Tree(ctx)
    for nm in ("subtree_size", "get", "get_mut", "first", "insert", "merge_from_right", "merge_from_left", "remove", "partition_point"):
        ctx.guard(nm, TV + "Node", lambda: getattr(t, nm)())
    for nm in ("root_insert", "root_remove", "root_queries", "default"):
        ctx.guard(nm, TV + "TreeVec", lambda: getattr(t, nm)())
    for ty in ("TreeIter", "TreeIterMut"):
        for nm in ("descend", "descend_to", "advance"):
            ctx.guard(ty + " " + nm, TV + ty, lambda: getattr(t, nm)(ty))
    for nm in ("iter", "iter_mut", "range", "range_mut"):
        ctx.guard(nm, TV + "TreeVec", lambda: t.started(nm))
    for ty in ("Iter", "IterMut"):
        ctx.guard(ty, TV + ty, lambda: t.outer(ty))


class Unclear(EngineError):
    """It depends on the order of two numbers how the lists look."""

    def __init__(self, a, b):
        EngineError.__init__(self, "order of %s and %s" % (show(a), show(b)))
        self.pair = a, b


class Tree:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        P = self.P
        self.leaf, self.inner = variant_index(P, TV + "Node", "Leaf"), variant_index(P, TV + "Node", "Internal")
        self.data = variant_field(P, TV + "Node", "Leaf", "data")
        self.size = variant_field(P, TV + "Node", "Internal", "size")
        self.kids = variant_field(P, TV + "Node", "Internal", "children")

    # ---- the functions and what they do to children

    def inst(self, ty, name, generic=False):
        """The instance used by the sweep line, or the generic one where there is none."""
        c = [i for i in self.P.insts if i["body"] and not i["closure"] and i["name"] == name and i["path"].startswith(TV + ty + "::<")]
        m = [i for i in c if re.search(r", \d+>::", i["key"])]
        c = c if generic or not m else m
        if generic:
            c = [i for i in c if not re.search(r", \d+>::", i["key"])]
        if not c:
            raise EngineError("no function %s::%s" % (ty, name))
        self.half = None
        k = re.search(r", (\d+)>::", c[0]["key"])
        self.room = int(k.group(1)) if k else None
        return c

    def look(self, inst, more=(), **kw):
        ctx = self.ctx
        names = {i["name"]: i["path"] for i in self.P.insts if i["path"].startswith(TV + "Node::<")}
        mods = {names[n]: self.change(n) for n in CHANGES if n in names}
        mods[names["subtree_size"]] = self.measure
        own = inst["path"]
        mods.pop(own, None)
        rec = {own: self.change(inst["name"])} if inst["name"] in CHANGES else {own: self.measure} if inst["name"] == "subtree_size" else {}
        mods.update(rec)
        opaque = [names[n] for n in ASKED if n in names] + [i["path"] for i in self.P.insts if i["path"].startswith(TV + "TreeIter") and i["name"].startswith("descend") and i["path"] != own] + list(more)
        ip = ctx.interp(opaque, models=mods, keep_rel=True, bulk=True, keep_facts=lambda k: k[0] == "discr", **kw)
        args = ip.sym_args(inst)
        st = State()
        st.mem[LOG] = T("empty")
        room = I(self.room) if self.room is not None else None
        for i, a in enumerate(args):
            if "treevec::Node" not in self.P.types[inst["body"]["locals"][i + 1]]["s"] and "treevec::TreeVec" not in self.P.types[inst["body"]["locals"][i + 1]]["s"]:
                continue
            # as many sizes as children
            for n in (T("*", a), T("fld", T("*", a), 0, 0)) if a[0] != "ref" else ():
                x = engine.int_restrict(st, ip.length(T("fld", n, self.inner, self.size)), ip.length(T("fld", n, self.inner, self.kids)), frozenset("="))
                st = x or st
                for var, f in ((self.inner, self.size), (self.inner, self.kids), (self.leaf, self.data)) if room is not None else ():
                    st = engine.int_restrict(st, ip.length(T("fld", n, var, f)), room, frozenset("<=")) or st
        outs = ip.run(inst, args, st)
        ctx.funcs |= ip.analysed
        self.ip, self.where = ip, inst
        self.ob("there are results", len(outs) > 0)
        return ip, args, outs

    def change(self, name):
        def f(ip, fn, args, atys, rty, s, site, fr):
            n = 2 if name.startswith("merge") else 1
            xs = [self.node(ip, a, s) for a in args[:n]] + [ip.content(a, s) for a in args[n:]]
            st = s.copy()
            r = T("call", name, *xs, s.mem.get(LOG, T("empty")))
            st.mem[LOG] = T("push", s.mem.get(LOG, T("empty")), r)
            return [(r, st)]
        return f

    def node(self, ip, a, s):
        a = ip.read_loc(s, ip.target(a))
        while a[0] == "ref":
            a = ip.read_loc(s, ip.target(a))
        return a

    def measure(self, ip, fn, args, atys, rty, s, site, fr):
        return [(T("call", "size", self.node(ip, args[0], s), s.mem.get(LOG, T("empty"))), s)]

    def each(self, outs, step):
        """Look at every outcome; where it depends on the order of two numbers how lists look, at each case."""
        todo = [(v, s, 0) for v, s in outs]
        while todo:
            v, s, n = todo.pop()
            self.held = []
            try:
                step(v, s)
            except Unclear as e:
                if n > 3:
                    raise
                parts = [engine.int_restrict(s, *e.pair, frozenset(o)) for o in "<=>"]
                todo += [(v, x, n + 1) for x in parts if x is not None]
                continue
            finally:
                held, self.held = self.held, None
            for x in held:
                self.ob(*x)

    held = None

    def ob(self, name, ok, detail=""):
        if self.held is not None:
            self.held.append((name, ok, detail))
            return ok
        return self.ctx.ob("%s: %s" % (self.where["name"], name), ok, self.where, detail)

    def events(self, s):
        t, out = s.mem[LOG], []
        while t[0] == "push":
            out.append(t[2])
            t = t[1]
        if t is not T("empty"):
            raise EngineError("changes of children in a loop")
        return out[::-1]

    def kind(self, n, s):
        if n[0] == "agg":
            return n[2]
        k = s.facts.get(T("discr", base(n)))
        if isinstance(k, frozenset):
            k = self.leaf if self.inner in k else self.inner
        return k

    def part(self, n, var, f, s):
        return self.ip.project(n, ("f", var, f), s)

    def after(self, a, s):
        return self.node(self.ip, a, s)

    # ---- lists in pieces: ("r", list, from, to) a part of a list, ("e", element) one element

    def pieces(self, t, s):
        return self.join(self.cut(t, s), s)

    def cut(self, t, s):
        ip, k = self.ip, t[0]
        if k == "empty" or k == "agg" and t[1] == "array" and len(t) == 3:
            return []
        if k == "agg" and t[1] == "array":
            return [self.elem(x) for x in t[3:]]
        if k == "push":
            return self.cut(t[1], s) + [self.elem(t[2])]
        if k == "pushfront":
            return [self.elem(t[2])] + self.cut(t[1], s)
        if k == "extend":
            return self.cut(t[1], s) + self.cut(t[2], s)
        if k == "slice":
            n = self.len(t[1], s)
            return self.range(self.cut(t[1], s), t[2], t[3] if t[3] is not None else n, s)
        if k == "insert":
            p = self.cut(t[1], s)
            return self.range(p, I(0), t[2], s) + [self.elem(t[3])] + self.range(p, t[2], self.len(t[1], s), s)
        if k in ("remove", "store"):
            p = self.cut(t[1], s)
            return self.range(p, I(0), t[2], s) + ([self.elem(t[3])] if k == "store" else []) + self.range(p, iadd(t[2], I(1)), self.len(t[1], s), s)
        l = loop_at(ip, t)
        if l is not None:
            got = self.filled(l, t, s)
            if got is not None:
                return self.cut(l[3], s) + got
        if k in ("fld", "sym", "*", "loop"):
            return [("r", t, I(0), ip.length(t))]
        raise EngineError("list %s" % show(t)[:200])

    def filled(self, l, t, s):
        """What a loop adds to a list: all elements of another one, one by one."""
        ip, out = self.ip, None
        for r in recs_of(ip, l[0], s):
            for b in r.back:
                new = pushed(ip, r.head, b, l[1][1], l[2])
                if new is None or len(new) != 1 or new[0][0] not in ("sel", "item"):
                    return None
                _, src, k = new[0]
                c = loop_at(ip, k)
                if c is None or c[0] != l[0] or c[3] is not I(0) or not one_more(ip, l[0], k, b):
                    return None
                end = self.upto(src, k, b, s)
                if end is None or out not in (None, (src, end)):
                    return None
                out = src, end
        return None if out is None else self.range(self.cut(out[0], s), I(0), out[1], s)

    def upto(self, coll, k, b, s):
        """Where a loop ends that goes through a list from the start by index k: b a state in its middle, s one behind."""
        ip = self.ip
        if exhausted(ip, s, coll, k):
            return ip.length(coll)
        for f in s.iv:
            m = dict(f[1])
            if abs(m.get(k, 0)) != 1:
                continue
            lo, hi, _ = s.iv[f]
            rest = I(0)
            for x, n in m.items():
                for _ in range(abs(n) if x is not k else 0):
                    rest = iadd(rest, x) if n > 0 else isub(rest, x)
            end = isub(rest, I(hi)) if m[k] < 0 and hi is not None else isub(I(lo), rest) if m[k] > 0 and lo is not None else None
            if end is not None and orders(b, k, end) == {"<"} and ">" not in orders(s, I(0), end):
                return end
        return None

    def elem(self, x):
        if x[0] == "sel":
            return ("r", x[1], x[2], iadd(x[2], I(1)))
        return ("e", x)

    def len(self, t, s):
        n = I(0)
        for p in self.cut(t, s):
            n = iadd(n, isub(p[3], p[2]) if p[0] == "r" else I(1))
        return n

    def range(self, ps, a, b, s):
        """The elements from a to b of a list in pieces; where that falls between pieces has to be clear."""
        out, at = [], I(0)
        for p in ps:
            n = isub(p[3], p[2]) if p[0] == "r" else I(1)
            end = iadd(at, n)
            lo = self.later(a, at, s)
            hi = self.earlier(b, end, s)
            o = orders(s, lo, hi)
            if o == {"<"} or lo is not hi and p[0] == "r" and (">" not in o or lo is a and hi is b):
                if p[0] == "e":
                    out.append(p)
                else:
                    off = isub(p[2], at)
                    out.append(("r", p[1], iadd(lo, off), iadd(hi, off)))
            elif "<" in o:
                raise Unclear(lo, hi)
            at = end
        return out

    def later(self, a, b, s):
        o = orders(s, a, b)
        if "<" not in o:
            return a
        if ">" not in o:
            return b
        raise Unclear(a, b)

    def earlier(self, a, b, s):
        return b if self.later(a, b, s) is a else a

    def join(self, ps, s):
        out = []
        for p in ps:
            if p[0] == "r" and (p[2] is p[3] or orders(s, p[2], p[3]) == {"="}):
                continue
            if out and p[0] == out[-1][0] == "r" and p[1] is out[-1][1] and (p[2] is out[-1][3] or orders(s, p[2], out[-1][3]) == {"="}):
                out[-1] = ("r", p[1], out[-1][2], p[3])
            else:
                out.append(p)
        return out

    def same(self, p, q, s):
        def eq(a, b):
            return a is b or orders(s, a, b) == {"="}
        return len(p) == len(q) and all(x[0] == y[0] and x[1] is y[1] and (x[0] == "e" or eq(x[2], y[2]) and eq(x[3], y[3])) for x, y in zip(p, q))

    def show(self, ps):
        return " ++ ".join("%s[%s..%s]" % (show(p[1])[:60], show(p[2])[:60], show(p[3])[:60]) if p[0] == "r" else show(p[1])[:120] for p in ps)

    # ---- where an offset falls

    def located(self, idx, off, sizes, s):
        """The offset of which `off` is what remains after the sizes before idx, as far as that is known."""
        ip = self.ip
        if idx is I(0):
            return off
        ls = {loop_at(ip, a) for a in lin_of(idx)[1]} - {None}
        if len(ls) != 1:
            return None
        lid = next(iter(ls))[0]
        if at_entry(ip, lid, idx) is not I(0):
            return None
        start = at_entry(ip, lid, off)
        recs = recs_of(ip, lid, s)
        ok = start is not None and recs
        for r in recs:
            for b in r.back:
                ok = ok and after_step(ip, lid, idx, b) is iadd(idx, I(1)) and after_step(ip, lid, off, b) is isub(off, T("sel", sizes, idx))
        return start if ok else None

    def fits(self, idx, off, sizes, s, upto="<"):
        o = orders(s, off, T("sel", sizes, idx))
        return o <= frozenset(upto)

    def past(self, offset, sizes, s):
        """The offset is past all children: a loop has taken away all sizes."""
        ip = self.ip
        for r in ip.records:
            if r.no not in s.via:
                continue
            for k, v in self.counters(r):
                if not exhausted(ip, s, sizes, k):
                    continue
                for b in r.back:
                    for root, path in self.changed(r):
                        o = ip.read_loc(r.head, (root, path))
                        for x in subterms(o) if o[0] == "agg" else [o]:
                            if lin_of(x)[1] and at_entry(ip, r.lid, x) is offset and after_step(ip, r.lid, x, b) is isub(x, T("sel", sizes, k)):
                                return True
        return False

    def changed(self, r):
        return [(root, path) for root, paths in r.mods.items() for path in paths]

    def counters(self, r):
        ip, out = self.ip, []
        for root, path in self.changed(r):
            v = ip.read_loc(r.head, (root, path))
            for x in {y for y in subterms(v)}:
                l = loop_at(ip, x)
                if l is not None and l[0] == r.lid and l[3] is I(0) and r.back and all(one_more(ip, r.lid, x, b) for b in r.back):
                    out.append((x, v))
        return out

    # ---- children and their sizes

    def sizes_right(self, kids, sizes, s, old, what, fresh=None):
        """The pieces of a node's children and of its sizes belong together: unchanged children keep their entry, others
        have one that was worked out after the last change.  old: (children, sizes) at first."""
        ip = self.ip
        ev = self.events(s)
        touched = []
        for e in ev:
            touched += [x[2] for x in map(self.child_of, e[2:4]) if x is not None and x[1] is old[0]]
        kp, sp = list(self.pieces(kids, s)), list(self.pieces(sizes, s))
        detail = "%s\nwith sizes %s" % (self.show(kp), self.show(sp))
        while kp and sp:
            k, z = kp[0], sp[0]
            if z[0] == "r":
                if k[0] != "r" or k[1] is not old[0] or z[1] is not old[1] or not (k[2] is z[2] or orders(s, k[2], z[2]) == {"="}):
                    return self.ob(what, False, detail)
                end = self.earlier(k[3], z[3], s)
                for t in touched:
                    if not (orders(s, t, z[2]) <= {"<"} or orders(s, t, end) <= {">", "="}):
                        return self.ob(what, False, "the size of a changed child is the old one: " + detail)
                kp[0:1] = [] if end is k[3] else [("r", k[1], end, k[3])]
                sp[0:1] = [] if end is z[3] else [("r", z[1], end, z[3])]
                kp, sp = self.join(kp, s), self.join(sp, s)
                continue
            if k[0] == "r":
                child = T("sel", k[1], k[2])
                kp[0:1] = [("r", k[1], iadd(k[2], I(1)), k[3])]
                kp = self.join(kp, s)
            else:
                child = k[1]
                kp[0:1] = []
            sp[0:1] = []
            if not self.size_ok(child, z[1], s, ev, old):
                return self.ob(what, False, "%s is not the size of %s: %s" % (show(z[1])[:300], show(child)[:200], detail))
        return self.ob(what, not self.join(kp, s) and not self.join(sp, s), detail)

    def child_of(self, n):
        """The element of the list of children a node lies in."""
        while n[0] in ("fld", "*", "&"):
            if n[0] == "fld" and n[1][0] == "call":
                return None
            n = n[1]
        return n if n[0] == "sel" else None

    def is_node(self, n, child):
        """n is the node a child (a box) stands for."""
        a, b = self.box(n), self.box(child)
        if a[0] == b[0] == "sel" and a[1] is b[1]:
            return a[2] is b[2] or orders(self.state, a[2], b[2]) == {"="}
        return a is b

    def box(self, n):
        while True:
            if n[0] in ("*", "&"):
                n = n[1]
            elif n[0] == "fld" and n[2] == 0 and n[3] == 0 and n[1][0] in ("sel", "fld", "*", "sym"):
                n = n[1]
            elif n[0] == "ref":
                n = self.ip.read_loc(self.state, self.ip.target(n))
            else:
                return n

    def size_ok(self, child, z, s, ev, old):
        self.state = s
        mine = [e for e in ev if any(self.is_node(x, child) for x in e[2:4])]
        if z[0] == "call" and z[1] == "size":
            return self.is_node(z[2], child) and all(e in self.logged(z[3]) for e in mine)
        c = self.child_of(child)
        if c is None or c[1] is not old[0]:
            return False
        was = T("sel", old[1], c[2])
        d = 0
        for e in mine:
            if e[1] == "insert" and self.result(e, s) == "Done":
                d += 1
            elif e[1] == "remove":
                d -= 1
            else:
                return False
        return z is iadd(was, I(d))

    def logged(self, t):
        out = []
        while t[0] == "push":
            out.append(t[2])
            t = t[1]
        return out

    def result(self, e, s):
        ty = {"insert": "InsertResult", "remove": "RemoveResult"}.get(e[1], "MergeResult")
        names = {"insert": ("Done", "Split"), "remove": ("Done", "Undersize")}.get(e[1], ("Absorbed", "Rebalanced"))
        k = s.facts.get(T("discr", e))
        c = [n for n in names if (variant_index(self.P, TV + ty, n) == k if not isinstance(k, frozenset) else variant_index(self.P, TV + ty, n) not in k)]
        return c[0] if len(c) == 1 and k is not None else None

    def answer(self, v, ty):
        """(name of the variant, contents) of a result made here"""
        if v[0] != "agg":
            return None, None
        for n in {"InsertResult": ("Done", "Split"), "RemoveResult": ("Done", "Undersize"), "MergeResult": ("Absorbed", "Rebalanced")}[ty]:
            if variant_index(self.P, TV + ty, n) == v[2]:
                return n, v[3] if len(v) > 3 else None
        return None, None

    def enough(self, t, s):
        """The list has at least half of what there is room for."""
        return "<" not in orders(s, self.ip.length(t), I(self.room // 2)) or "<" not in orders(s, self.len(t, s), I(self.room // 2))

    # ---- nodes

    def subtree_size(self):
        inst = self.inst("Node", "subtree_size")[0]
        ip, args, outs = self.look(inst)
        me = T("*", args[0])
        for v, s in outs:
            if self.kind(me, s) == self.leaf:
                self.ob("a leaf has as many as it lists", v is ip.length(T("fld", me, self.leaf, self.data)), show(v)[:300])
            else:
                z = T("fld", me, self.inner, self.size)
                self.ob("an inner node has as many as all children together", self.sum(v, s) == (z, I(0), ip.length(z)), show(v)[:300])

    def sum(self, t, s):
        """(list, from, to) if t is the sum of a part of a list."""
        ip = self.ip
        if t is I(0):
            return "none"
        if t[0] == "it_sum":
            it, upto = t[1], None
            while True:
                if it[0] == "agg" and it[1] == "it" and it[4] is I(0):
                    it = it[3]
                elif it[0] in ("copied", "cloned"):
                    it = it[1]
                elif it[0] == "take" and upto is None:
                    it, upto = it[1], it[2]
                else:
                    break
            if it[0] == "refs" and it[1][0] in ("&", "ref") and len(it) == 2:
                c = it[1][1] if it[1][0] == "&" else ip.read_loc(s, ip.target(it[1]))
                a, b = I(0), None
                if c[0] == "slice":
                    a, b, c = c[2], c[3], c[1]
                b = b if b is not None else ip.length(c)
                if upto is not None:
                    return (c, a, iadd(a, upto)) if ">" not in orders(s, iadd(a, upto), b) else None
                return c, a, b
            return None
        l = loop_at(ip, t)
        if l is None or l[3] is not I(0):
            return None
        got = None
        for r in recs_of(ip, l[0], s):
            for b in r.back:
                d = isub(ip.read_loc(b, (l[1][1], l[2])), t)
                if d[0] != "sel":
                    return None
                coll, k, a, e = d[1], d[2], I(0), None
                if k[0] == "any" and len(r.back) == 1 and k[3][0] == "refs" and ip.target(k[3][1]) and deref(ip, s, k[3][1]) is coll:
                    # every element, in one go
                    e = ip.length(coll) if any(f[0] == "done" and f[1][0] == "agg" and f[1][3] is k[3] for f in s.facts) else None
                else:
                    c = loop_at(ip, k)
                    if c is not None and c[0] == l[0] and c[3] is I(0) and one_more(ip, l[0], k, b):
                        e = self.upto(coll, k, b, s)
                if e is None:
                    return None
                if coll[0] == "slice":
                    coll, a, e = coll[1], coll[2], iadd(coll[2], e)
                if got not in (None, (coll, a, e)):
                    return None
                got = coll, a, e
        return got

    def asked_for(self, v, s, name):
        """The query of a child whose answer v is."""
        if v[0] == "agg" and v[1].endswith("::Option") and v[2] == 1:
            v = v[3]
            if v[0] == "fld":
                v = v[1]
        elif v is NONE:
            c = [k[1] for k in s.facts if k[0] == "discr" and k[1][0] == "call" and matches(k[1][1], name) and s.facts[k] in (0, frozenset((1,)))]
            v = c[0] if len(c) == 1 else v
        return v if v[0] == "call" and matches(v[1], "re:::%s$" % name) else None

    def lookup(self, name):
        inst = self.inst("Node", name)[0]
        ip, args, outs = self.look(inst)
        me, off = T("*", args[0]), args[1]
        kids, sizes, data = T("fld", me, self.inner, self.kids), T("fld", me, self.inner, self.size), T("fld", me, self.leaf, self.data)
        for v, s in outs:
            self.state = s
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:400])
            if self.kind(me, s) == self.leaf:
                if v is NONE:
                    self.ob("nothing is found in a leaf only past its end", "<" not in orders(s, off, ip.length(data)), what)
                else:
                    x = self.referred(v, s)
                    self.ob("the element of a leaf is the one at the offset", x is T("sel", data, off), what)
                continue
            c = self.asked_for(v, s, name)
            if c is None:
                self.ob("nothing is found only past the last child", v is NONE and self.past(off, sizes, s), what)
                continue
            k = self.child_of(self.bare(c[2]))
            ok = k is not None and k[1] is kids and self.located(k[2], c[3], sizes, s) is off and self.fits(k[2], c[3], sizes, s)
            self.ob("a child is asked about what is left of the offset", ok, what)

    def bare(self, n):
        return unref(n)

    def referred(self, v, s):
        if v[0] == "agg" and v[1].endswith("::Option") and v[2] == 1:
            return self.node(self.ip, v[3], s)
        return None

    def get(self):
        self.lookup("get")

    def get_mut(self):
        self.lookup("get_mut")

    def first(self):
        inst = self.inst("Node", "first")[0]
        ip, args, outs = self.look(inst)
        me = T("*", args[0])
        kids, data = T("fld", me, self.inner, self.kids), T("fld", me, self.leaf, self.data)
        for v, s in outs:
            self.state = s
            of = data if self.kind(me, s) == self.leaf else kids
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:400])
            c = self.asked_for(v, s, "first") if of is kids else None
            if c is not None:
                self.ob("the first child has the first element", self.child_of(self.bare(c[2])) is T("sel", kids, I(0)), what)
            elif v is NONE:
                self.ob("there is no first element only if there are none", orders(s, ip.length(of), I(0)) == {"="}, what)
            else:
                self.ob("the first element of a leaf comes first", of is data and self.referred(v, s) is T("sel", data, I(0)), what)

    def insert(self):
        inst = self.inst("Node", "insert")[0]
        ip, args, outs = self.look(inst)
        me, off, new = T("*", args[0]), args[1], args[2]
        kids, sizes, data = T("fld", me, self.inner, self.kids), T("fld", me, self.inner, self.size), T("fld", me, self.leaf, self.data)

        def step(v, s):
            self.state = s
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:400])
            how, other = self.answer(v, "InsertResult")
            now = self.after(args[0], s)
            nodes = [now]
            if how == "Split":
                nodes.append(self.after(other, s))
            if not self.ob("the answer is known", how is not None, what):
                return
            if self.kind(me, s) == self.leaf:
                got = self.join([p for n in nodes for p in self.cut(self.part(n, self.leaf, self.data, s), s)], s)
                want = self.pieces(T("insert", data, off, new), s)
                self.ob("a leaf has its elements and the new one in its place", all(self.kind(n, s) == self.leaf for n in nodes) and self.same(got, want, s), self.show(got))
                self.halves(nodes, self.leaf, self.data, s)
                return
            ev = [e for e in self.events(s)]
            if not self.ob("the new element is put into one child", len(ev) == 1 and ev[0][1] == "insert" and ev[0][4] is new, what):
                return
            e = ev[0]
            k = self.child_of(e[2])
            ok = k is not None and k[1] is kids
            if ok:
                if k[2] is I(0) and e[3] is I(0):
                    ok = orders(s, off, I(0)) == {"="}
                else:
                    # one less is looked for, and one more is what remains
                    ok = False
                    for d in (1, 0):
                        ok |= self.located(k[2], isub(e[3], I(d)), sizes, s) is isub(off, I(d)) and self.fits(k[2], e[3], sizes, s, "<=")
            if not self.ob("the child is the one the offset falls into", ok, what):
                return
            want = self.cut(kids, s)
            r = self.result(e, s)
            if r == "Split":
                want = self.cut(T("insert", kids, iadd(k[2], I(1)), T("fld", e, variant_index(self.P, TV + "InsertResult", "Split"), 0)), s)
            else:
                self.ob("a node is split only if a child was", how == "Done" and r == "Done", what)
            got = self.join([p for n in nodes for p in self.cut(self.part(n, self.inner, self.kids, s), s)], s)
            self.ob("a node keeps its children, and what was split off follows the child", all(self.kind(n, s) == self.inner for n in nodes) and self.same(got, self.join(want, s), s), self.show(got))
            for n in nodes:
                self.sizes_right(self.part(n, self.inner, self.kids, s), self.part(n, self.inner, self.size, s), s, (kids, sizes), "every child's size is kept next to it")
            self.halves(nodes, self.inner, self.kids, s)
        self.each(outs, step)

    def halves(self, nodes, var, f, s):
        if len(nodes) == 2:
            self.ob("both halves of a split node are large enough", all(self.enough(self.part(n, var, f, s), s) for n in nodes), facts_show(s)[:300])

    def merge_from_right(self):
        self.merged("merge_from_right")

    def merge_from_left(self):
        self.merged("merge_from_left")

    def merged(self, name):
        inst = self.inst("Node", name)[0]
        ip, args, outs = self.look(inst)
        me, sib = T("*", args[0]), T("*", args[1])

        def step(v, s):
            self.state = s
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:400])
            how, _ = self.answer(v, "MergeResult")
            if not self.ob("the answer is known", how is not None, what):
                return
            k = self.kind(me, s)
            if not self.ob("siblings are of one kind", k == self.kind(sib, s) and k is not None, what):
                return
            now = [self.after(a, s) for a in args[:2]]
            fs = (self.data,) if k == self.leaf else (self.size, self.kids)
            shapes = []
            for f in fs:
                order = (0, 1) if name == "merge_from_right" else (1, 0)
                lists = [self.part(n, k, f, s) for n in now]
                want = self.join([p for i in order for p in self.cut(T("fld", (me, sib)[i], k, f), s)], s)
                mine = self.pieces(lists[0], s)
                rest = self.pieces(lists[1], s)
                if how == "Absorbed":
                    self.ob("what was absorbed is all there in order", self.same(mine, want, s) and not rest, "%s and %s" % (self.show(mine), self.show(rest)))
                else:
                    got = self.join([p for i in order for p in self.cut(lists[i], s)], s)
                    self.ob("what was moved is all there in order", self.same(got, want, s), self.show(got))
                    self.ob("the sibling keeps enough", k != self.leaf and f == self.size or self.keeps(lists, T("fld", me, k, f), s), self.show(rest))
                    self.ob("an undersized node is filled up", k != self.leaf and f == self.size or self.filled_up(lists[0], T("fld", me, k, f), s), self.show(mine))
                    self.ob("an undersized node is not left with less", "<" not in orders(s, self.len(lists[0], s), ip.length(T("fld", me, k, f))), self.show(mine))
                shapes.append([[(p[0], p[2], p[3]) if p[0] == "r" else p[0] for p in self.parallel(q, me, sib, k, f)] for q in (mine, rest)])
            if len(fs) == 2:
                self.ob("sizes are moved with their children", self.alike(shapes[0], shapes[1], s), what)
        self.each(outs, step)

    def filled_up(self, now, mine, s):
        """It gets an element, where one was missing."""
        st = engine.int_restrict(s, self.ip.length(mine), I(self.room // 2 - 1), frozenset("="))
        if st is None:
            return True
        more = isub(self.len(now, st), self.ip.length(mine))
        if more[0] == "intDiv" and more[2][0] == "i" and more[2][1] > 0:
            return "<" not in orders(st, more[1], more[2])
        return "<" not in orders(st, more, I(1))

    def keeps(self, lists, mine, s):
        """The sibling keeps half of what there is room for, where one was missing."""
        half = self.room // 2
        st = engine.int_restrict(s, self.ip.length(mine), I(half - 1), frozenset("="))
        if st is None:
            return True
        a, b = (self.len(l, st) for l in lists)
        if "<" not in orders(st, b, I(half)):
            return True
        c, m = lin_of(isub(b, a))
        for x in m:
            if m[x] == -2 and x[0] == "intDiv" and x[2] is I(2) and isub(b, a) is isub(isub(x[1], x), x) and orders(st, iadd(a, b), I(self.room - 1)) == {">"}:
                return True     # what there is was shared out evenly
        return False

    def parallel(self, ps, me, sib, k, f):
        return [("e", p[1]) if p[0] == "e" else ("r", None, p[2], p[3]) for p in ps]

    def alike(self, a, b, s):
        """The same parts of two lists; lengths of the lists are equal."""
        def eq(x, y):
            return x is y or orders(s, x, y) == {"="}
        return all(len(p) == len(q) and all(type(x) is type(y) and (x == y if isinstance(x, str) else eq(x[1], y[1]) and eq(x[2], y[2])) for x, y in zip(p, q)) for p, q in zip(a, b))

    def remove(self):
        inst = self.inst("Node", "remove")[0]
        ip, args, outs = self.look(inst)
        me, off = T("*", args[0]), args[1]
        kids, sizes, data = T("fld", me, self.inner, self.kids), T("fld", me, self.inner, self.size), T("fld", me, self.leaf, self.data)
        ends = set()

        def step(v, s):
            self.state = s
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:400])
            how, gone = self.answer(v, "RemoveResult")
            if not self.ob("the answer is known", how is not None, what):
                return
            now = self.after(args[0], s)
            if self.kind(me, s) == self.leaf:
                left = self.part(now, self.leaf, self.data, s)
                self.ob("a leaf gives the element at the offset and keeps the others", gone is T("sel", data, off) and self.same(self.pieces(left, s), self.pieces(T("remove", data, off), s), s), what)
                self.ob("a leaf that becomes too small says so", how == "Undersize" or self.enough(left, s), what)
                return
            ev = self.events(s)
            if not self.ob("one element is taken out of one child", [e[1] for e in ev][:1] == ["remove"] and len(ev) <= 2, what):
                return
            e = ev[0]
            k = self.child_of(e[2])
            ok = k is not None and k[1] is kids and self.located(k[2], e[3], sizes, s) is off and self.fits(k[2], e[3], sizes, s)
            self.ob("the child is the one the offset falls into", ok, what)
            self.ob("the element taken out is answered", gone[0] == "fld" and gone[1] is e, what)
            if not ok:
                return
            left = self.part(now, self.inner, self.kids, s)
            got, want = self.pieces(left, s), self.pieces(kids, s)
            fixed = [x for x in ev if x[1].startswith("merge")]
            small = self.result(e, s)
            self.ob("a child that became too small is merged or filled up, others are not", small is not None and (small == "Undersize") == (len(fixed) == 1), what)
            for x in fixed:
                a, b = self.child_of(x[2]), self.child_of(x[3])
                d = 1 if x[1] == "merge_from_right" else -1
                ok = a is not None and b is not None and a[1] is b[1] is kids and a[2] is iadd(b[2], I(-d)) and k[2] in (a[2], b[2])
                ok = ok and a is k
                if not self.ob("a child is merged with a sibling next to it", ok, what):
                    continue
                o = orders(s, iadd(k[2], I(1)), ip.length(kids))
                ends.update((c, d) for c in o)
                ends.update(("first", d) for c in orders(s, k[2], I(0)) if c == "=")
                r = self.result(x, s)
                self.ob("the result of merging is looked at", r is not None, what)
                if r == "Absorbed":
                    want = self.pieces(T("remove", kids, b[2]), s)
            self.ob("a node keeps its children but for one that was absorbed", self.same(got, want, s), self.show(got))
            self.sizes_right(left, self.part(now, self.inner, self.size, s), s, (kids, sizes), "every child's size is kept next to it")
            lost = not self.same(got, self.pieces(kids, s), s)
            self.ob("a node that becomes too small says so", how == "Undersize" or not lost or self.enough(left, s), what)
        self.each(outs, step)
        # (a merge that asks for a sibling which is not there ends the path)
        self.ob("there is a way out for the last child", ("=", -1) in ends, "merges are done for %s" % sorted(ends))
        self.ob("there is a way out for the first child", ("first", 1) in ends, "merges are done for %s" % sorted(ends))

    def partition_point(self):
        inst = self.inst("Node", "partition_point", generic=True)[0]
        ip, args, outs = self.look(inst)
        me, pred = T("*", args[0]), args[1]
        kids, sizes, data = T("fld", me, self.inner, self.kids), T("fld", me, self.inner, self.size), T("fld", me, self.leaf, self.data)
        for v, s in outs:
            self.state = s
            what = "%s where %s" % (show(v)[:500], facts_show(s)[:600])
            if self.kind(me, s) == self.leaf:
                self.ob("a leaf is searched by the predicate", v[0] == "partition" and v[1] is data and self.predicate(v[2], pred, s), what)
                continue
            c, m = lin_of(v)
            calls = [a for a in m if a[0] == "call" and matches(a[1], "re:::partition_point$")]
            if not calls:
                pts = [t for k in list(s.iv) for t in subterms_of(k) if t[0] == "partition" and t[1] is kids]
                self.ob("the answer is zero only if already the first child starts behind", v is I(0) and any(orders(s, t, I(0)) == {"="} and (self.firsts(t, pred, s) or orders(s, ip.length(kids), I(0)) == {"="}) for t in pts), what)
                continue
            if not self.ob("one child is searched", len(calls) == 1 and m[calls[0]] == 1, what):
                continue
            call = calls[0]
            k = self.child_of(self.bare(call[2]))
            ok = k is not None and k[1] is kids
            t = iadd(k[2], I(1)) if ok else None
            ok = ok and t[0] == "partition" and t[1] is kids and self.firsts(t, pred, s)
            self.ob("the child searched is the last that starts before", ok, what)
            rest = isub(v, call)
            self.ob("what is before the child is counted", ok and (self.sum(rest, s) == (sizes, I(0), k[2])), show(rest)[:300])

    def predicate(self, p, pred, s):
        return self.asks(p, pred, T("sym", "element"), lambda x: x is T("sym", "element"), s)

    def firsts(self, t, pred, s):
        """The predicate of this search looks at the first element of a child and asks the one given about it."""
        child = T("sel", t[1], T("sym", "number"))

        def first(x):
            x = x[1] if x[0] == "fld" else x
            return x[0] == "call" and matches(x[1], "re:::first$") and self.child_of(unref(x[2])) is child
        return self.asks(t[2], pred, child, first, s)

    def asks(self, p, pred, element, about, s):
        """p, called with the element, says what pred says about the right thing."""
        ip, st = self.ip, s.copy()
        while p[0] in ("&", "ref"):
            p = p[1] if p[0] == "&" else ip.read_loc(s, ip.target(p))
        if p is pred:
            return about(element)
        fr = type("Frame", (), {"depth": 0, "stack": ()})()
        root = ("H", ("asked",))
        st.mem[root] = element
        rs = ip.call_value(p, [T("ref", root, ())], st, ("asked",), fr, None)
        if not rs:
            return False

        def right(c):
            return c[0] == "call" and c[1].split("::")[-1].startswith("call") and any(x is pred for x in subterms(c[2])) and about(unref(c[3][3] if c[3][0] == "agg" and len(c[3]) == 4 else c[3]))
        for v, b in rs:
            ok = right(v) or v[0] == "b" and any(right(k) and b.facts[k] == v[1] for k in b.facts if isinstance(k, tuple) and k[0] == "call")
            ok = ok or any(k[0] == "discr" and about(k[1]) and not self.hit(k[1], b) for k in b.facts if isinstance(k, tuple))
            if not ok:
                return False
        return True

    # ---- the tree as a whole

    def root_insert(self):
        inst = self.inst("TreeVec", "insert")[0]
        ip, args, outs = self.look(inst)
        root = field_index(self.P, TV + "TreeVec", "root")
        old = self.rootbox(args[0])
        for v, s in outs:
            self.state = s
            what = "%s where %s" % (show(self.after(args[0], s))[:500], facts_show(s)[:300])
            ev = self.events(s)
            ok = len(ev) == 1 and ev[0][1] == "insert" and self.box(ev[0][2]) is self.box(old) and ev[0][3:5] == (args[1], args[2])
            if not self.ob("the root is asked to insert", ok, what):
                continue
            r = self.result(ev[0], s)
            now = ip.project(self.after(args[0], s), ("f", 0, root), s)
            if r == "Done":
                self.ob("the root stays", self.box(now) is self.box(old), what)
                continue
            self.ob("the result of inserting is looked at", r == "Split", what)
            n = self.unboxed(now, s)
            k = self.part(n, self.inner, self.kids, s)
            kp = self.pieces(k, s)
            other = T("fld", ev[0], variant_index(self.P, TV + "InsertResult", "Split"), 0)
            ok = self.kind(n, s) == self.inner and len(kp) == 2 and all(p[0] == "e" for p in kp) and self.box(kp[0][1]) is self.box(old) and kp[1][1] is other
            self.ob("a split root goes under a new one, first half first", ok, what)
            zp = self.pieces(self.part(n, self.inner, self.size, s), s)
            ok = ok and len(zp) == 2 and all(p[0] == "e" and self.size_ok(c[1], p[1], s, ev, (None, None)) for p, c in zip(zp, kp))
            self.ob("the new root knows the sizes of both halves", ok, what)

    def rootbox(self, a):
        return T("fld", T("*", a), 0, field_index(self.P, TV + "TreeVec", "root"))

    def unboxed(self, b, s):
        if b[0] == "ref":
            b = self.node(self.ip, b, s)
        return self.ip.project(b, ("f", 0, 0), s) if b[0] == "agg" and b[2] == 0 and len(b) == 4 and "Box" in str(b[1]) else b

    def root_remove(self):
        inst = self.inst("TreeVec", "remove")[0]
        ip, args, outs = self.look(inst)
        root = field_index(self.P, TV + "TreeVec", "root")
        old = self.rootbox(args[0])
        for v, s in outs:
            self.state = s
            now = ip.project(self.after(args[0], s), ("f", 0, root), s)
            what = "%s where %s" % (show(now)[:500], facts_show(s)[:300])
            ev = self.events(s)
            ok = len(ev) == 1 and ev[0][1] == "remove" and self.box(ev[0][2]) is self.box(old) and ev[0][3] is args[1]
            if not self.ob("the root is asked to remove", ok, what):
                continue
            self.ob("what was removed is answered", v[0] == "fld" and v[1] is ev[0], show(v)[:200])
            if self.box(now) is self.box(old):
                self.ob("the root stays", True)
                continue
            c = self.child_of(now) if now[0] != "sel" else now
            n = self.ip.length(c[1]) if c is not None else None
            ok = c is not None and self.box(c[1]) is not None and c[1][0] == "fld" and c[1][2:4] == (self.inner, self.kids) and self.box(c[1][1]) is self.box(old)
            self.ob("the root is replaced by its only child", ok and orders(s, n, I(1)) == {"="} and c[2] is I(0) or ok and orders(s, n, I(1)) == {"="} and orders(s, c[2], I(0)) == {"="}, what)

    def root_queries(self):
        for nm in ("len", "get", "get_mut", "partition_point", "is_empty"):
            inst = self.inst("TreeVec", nm)[0]
            ip, args, outs = self.look(inst)
            old = self.rootbox(args[0])
            for v, s in outs:
                self.state = s
                if nm == "is_empty":
                    z = [x for x in subterms_of((v,) + tuple(s.iv)) if x[0] == "call" and x[1] == "size" and self.box(x[2]) is self.box(old)]
                    if z:
                        self.ob("a tree is empty if it has no elements", holds_empty(engine, s, v, z[0]), show(v)[:200])
                        continue
                    leaf = [k for k, x in s.facts.items() if k[0] == "discr" and self.box(k[1]) is self.box(old) and (x == self.leaf or isinstance(x, frozenset) and self.inner in x)]
                    if leaf:
                        z = [p for p in ip_lens(s, v) if p[1][0] == "fld" and p[1][2:4] == (self.leaf, self.data) and self.box(p[1][1]) is self.box(old)]
                        ok = bool(z) and all(holds_empty(engine, s, v, p) for p in z[:1])
                        self.ob("a leaf is empty if it has no elements", ok, "%s where %s" % (show(v)[:200], facts_show(s)[:300]))
                    else:
                        self.ob("a tree with inner nodes is not empty", v[0] == "b" and not v[1], show(v)[:200])
                    continue
                want = "size" if nm == "len" else nm
                c = v if nm in ("len", "partition_point") else self.asked_for(v, s, nm)
                ok = c is not None and c[0] == "call" and matches(c[1], "re:(^|::)%s$" % want) and self.box(self.bare(c[2])) is self.box(old)
                ok = ok and (nm == "len" or c[3] is args[1])
                self.ob("the root is asked", ok, show(v)[:300])

    def default(self):
        c = [i for i in self.P.insts if i["body"] and i["name"] == "default" and i["key"].startswith("<" + TV + "TreeVec<") and re.search(r", \d+> as", i["key"])]
        self.room = None
        ip, args, outs = self.look(c[0])
        for v, s in outs:
            n = self.unboxed(ip.project(v, ("f", 0, field_index(self.P, TV + "TreeVec", "root")), s), s)
            ok = self.kind(n, s) == self.leaf and not self.pieces(self.part(n, self.leaf, self.data, s), s)
            self.ob("a new tree is empty", ok, show(v)[:300])

    # ---- iterators

    def fields(self, ty):
        return [field_index(self.P, TV + ty, n) for n in ("stack", "leaf", "remaining")]

    def covers(self, it, s):
        """(list, from, to): what an iterator over references still goes through."""
        ip, at = self.ip, I(0)
        while it[0] == "agg" and it[1] == "it":
            at = iadd(at, it[4])
            it = it[3]
            if it[0] in ("copied", "cloned", "fuse"):
                it = it[1]
        if it[0] != "refs" or len(it) != 2 or it[1][0] not in ("&", "ref"):
            return None
        c = it[1][1] if it[1][0] == "&" else ip.read_loc(s, ip.target(it[1]))
        if c[0] == "slice":
            return c[1], iadd(at, c[2]), c[3] if c[3] is not None else ip.length(c[1])
        return c, at, ip.length(c)

    def walk(self, ty, name):
        """The loop of a descent: what is left to do at each node is noted, and the way goes on in one of its children."""
        inst = self.inst(ty, name)[0]
        ip, args, outs = self.look(inst)
        stack, leaf, rem = self.fields(ty)
        n = 0
        for v, s in outs:
            self.state = s
            now, me = self.after(args[0], s), T("*", args[0])
            l = loop_at(ip, self.part(now, 0, stack, s))
            what = "%s where %s" % (show(now)[:400], facts_show(s)[:300])
            if not self.ob("the way down is a loop", l is not None and l[3] is T("fld", me, 0, stack), what):
                continue
            self.ob("how much remains is not touched", self.part(now, 0, rem, s) is T("fld", me, 0, rem), what)
            recs = recs_of(ip, l[0], s)
            node = self.here(recs, s, l[0], args[1])
            if not self.ob("the way down starts at the node", node is not None, what):
                continue
            off = None
            if name == "descend_to":
                off = self.offset(recs, l[0], args[2])
                if not self.ob("the offset is followed", off is not None, what):
                    continue
            sizes, kids, data = (T("fld", T("*", node), k, f) for k, f in ((self.inner, self.size), (self.inner, self.kids), (self.leaf, self.data)))
            if self.kind(T("*", node), s) == self.leaf:
                n += 1
                got = self.covers(self.part(now, 0, leaf, s), s)
                self.ob("the way ends at the rest of a leaf", got == (data, off or I(0), ip.length(data)), what)
            else:
                self.ob("the way ends early only past the last element", off is not None and self.past(off, sizes, s), what)
            for r in recs:
                for b in r.back:
                    self.state = b
                    n += 1
                    self.ob("the way goes on at inner nodes", self.kind(T("*", node), b) == self.inner, facts_show(b)[:300])
                    new = pushed(ip, r.head, b, l[1][1], l[2])
                    nxt = self.follow(node, b)
                    k = self.child_of(nxt) if nxt is not None else None
                    what = "%s then %s" % (show(ip.read_loc(b, (l[1][1], l[2])))[:300], show(nxt)[:200] if nxt else "")
                    if not self.ob("the way goes on in a child", k is not None and k[1] is kids, what):
                        continue
                    self.ob("the children behind are noted", new is not None and len(new) == 1 and self.covers(new[0], b) == (kids, iadd(k[2], I(1)), ip.length(kids)), what)
                    if off is None:
                        self.ob("the first child comes first", k[2] is I(0), what)
                    else:
                        left = self.follow(off, b)
                        self.ob("the child is the one the offset falls into", self.located(k[2], left, sizes, b) is off and self.fits(k[2], left, sizes, b), what)
        self.ob("there are leaves and inner nodes on the way", n > 1)

    def here(self, recs, s, lid, init):
        for r in recs:
            for root, path in self.changed(r):
                x = self.ip.read_loc(r.head, (root, path))
                l = loop_at(self.ip, x)
                if l is not None and l[0] == lid and l[3] is init:
                    return x
        return None

    def offset(self, recs, lid, init):
        return self.here(recs, None, lid, init)

    def follow(self, x, b):
        """The value of a loop's variable in the next round."""
        l = loop_at(self.ip, x)
        y = self.ip.read_loc(b, (l[1][1], l[2]))
        if y[0] == "ref":
            y = self.ip.read_loc(b, self.ip.target(y))
        return y

    def descend(self, ty):
        self.walk(ty, "descend")

    def descend_to(self, ty):
        self.walk(ty, "descend_to")

    def advance(self, ty):
        inst = self.inst(ty, "next")[0]
        ip, args, outs = self.look(inst)
        stack, leaf, rem = self.fields(ty)
        me = T("*", args[0])
        old = [T("fld", me, 0, f) for f in (stack, leaf, rem)]
        seen = set()
        for v, s in outs:
            self.state = s
            now = self.after(args[0], s)
            st, lf, left = (self.part(now, 0, f, s) for f in (stack, leaf, rem))
            what = "%s gives %s where %s" % (show(now)[:400], show(v)[:200], facts_show(s)[:300])
            o = orders(s, old[2], I(0))
            first = self.taken(old[1], s)
            if o == {"="}:
                seen.add("none remain")
                self.ob("nothing is given if nothing remains", v is NONE and (st, lf, left) == tuple(old), what)
                continue
            self.ob("one less remains", "=" not in o and (self.inside(left) is isub(old[2], I(1))), what)
            if first is None:
                self.ob("the leaf is asked first", False, what)
                continue
            if self.hit(first, s):
                seen.add("from the leaf")
                ok = (v is first or v[0] == "agg" and v[2] == 1 and v[3][0] == "fld" and v[3][1] is first) and lf == T("after", first, 0, old[1]) and st is old[0]
                self.ob("the next element of the leaf is given", ok, what)
                continue
            if v is NONE:
                seen.add("at the end")
                self.ob("nothing is given only if no siblings are left", orders(s, self.len(st, s) if st[0] != "loop" and st[0] != "fld" else ip.length(st), I(0)) == {"="}, what)
                self.shrunk(st, s, old[0])
                continue
            d = self.from_leaf(v, s)
            if not self.ob("otherwise the next leaf is entered", d is not None, what):
                continue
            seen.add("from the next leaf")
            at, node = d
            ps = self.pieces(self.part(at, 0, stack, s), s)
            ok = len(ps) in (1, 2) and ps[-1][0] == "e" and ps[-1][1][0] == "after"
            top = ps[-1][1] if ok else None
            src = ps[0][1] if ok and len(ps) == 2 else top[3][1] if ok and top[3][0] == "sel" else None
            ok = ok and src is not None and top[3] is T("sel", src, isub(ip.length(src), I(1))) and (len(ps) == 1 or ps[0][2] is I(0) and ps[0][3] is isub(ip.length(src), I(1)))
            self.ob("the siblings behind and above are kept", ok, self.show(ps))
            if not ok:
                continue
            item = node
            while item[0] in ("*", "&") or item[0] == "fld" and item[1][0] != "call":
                item = item[1]
            self.ob("the next leaf is the first of the next sibling", item[0] == "fld" and item[1] is top[1] and self.hit(top[1], s), show(node)[:300])
            self.shrunk(src, s, old[0])
        self.ob("all cases occur", seen == {"none remain", "from the leaf", "at the end", "from the next leaf"}, str(seen))

    def inside(self, t):
        """The field of what a call left behind, if it was handed on as it was."""
        while t[0] == "fld" and t[1][0] == "after" and t[1][1][0] == "call" and matches(t[1][1][1], "re:::descend$") and t[1][2] == 0:
            t = self.part(t[1][3], t[2], t[3], self.state)
        return t

    def taken(self, it, s):
        """The call that asked an iterator for its next element."""
        for k in s.facts:
            if k[0] == "discr" and k[1][0] == "call" and matches(k[1][1], "re:Iterator>::next$") and unref(k[1][2]) is it:
                return k[1]
        return None

    def hit(self, c, s):
        k = s.facts.get(T("discr", c))
        return k == 1 or isinstance(k, frozenset) and 0 in k

    def from_leaf(self, v, s):
        """(iterator before, node) if v is the first element of a leaf entered by a descent."""
        if v[0] == "agg" and v[2] == 1 and v[3][0] == "fld":
            v = v[3][1]
        if v[0] != "call" or not matches(v[1], "re:Iterator>::next$"):
            return None
        x = unref(v[2])
        while x[0] in ("fld", "&", "*"):
            x = x[1]
        if x[0] == "after" and x[1][0] == "call" and matches(x[1][1], "re:::descend$") and x[2] == 0:
            return x[3], x[1][3]
        return None

    def shrunk(self, st, s, old):
        """Stacks only lose iterators that have nothing left."""
        ip = self.ip
        if st is old:
            return
        l = loop_at(ip, st)
        if not self.ob("siblings are looked for from the innermost", l is not None and l[3] is old, show(st)[:200]):
            return
        for r in recs_of(ip, l[0], s):
            h = ip.read_loc(r.head, (l[1][1], l[2]))
            for b in r.back:
                self.state = b
                ps = self.pieces(ip.read_loc(b, (l[1][1], l[2])), b)
                n = isub(ip.length(h), I(1))
                c = self.taken(T("sel", h, n), b)
                ok = len(ps) == 1 and ps[0][:3] == ("r", h, I(0)) and ps[0][3] is n and c is not None and not self.hit(c, b)
                self.ob("only siblings that have nothing left are dropped", ok, "%s where %s" % (self.show(ps), facts_show(b)[:300]))

    def started(self, nm):
        ty = "TreeIter" + ("Mut" if nm.endswith("mut") else "")
        stack, leaf, rem = self.fields(ty)
        top = TV + ("IterMut" if nm.endswith("mut") else "Iter")
        insts = self.inst("TreeVec", nm)
        insts += [i for i in (self.inst("TreeVec", nm, generic=True) if nm.startswith("range") else ()) if i not in insts]
        for inst in insts:
            ip, args, outs = self.look(inst)
            root = self.rootbox(args[0])
            incl, anyrange = False, re.search(r", \d+>::", inst["key"]) is None
            if nm.startswith("range") and not anyrange:
                t = self.P.types[inst["body"]["locals"][2]]
                if t["k"] != "adt" or not t["path"].startswith("core::ops::range::Range"):
                    continue
                incl = t["path"].endswith("RangeInclusive")
            n = 0
            for v, s in outs:
                self.state = s
                what = "%s where %s" % (show(v)[:500], facts_show(s)[:300])
                if incl and s.facts.get(T("fld", args[1], 0, 2)) is not False:
                    continue        # (a range that was used up)
                x = v[3] if v[0] == "agg" and len(v) == 4 else None
                if not self.ob("an iterator of either form is made", x is not None and x[0] == "agg" and len(x) == 4, what):
                    continue
                n += 1
                a, b = I(0), None
                if nm.startswith("range") and anyrange:
                    a, b = self.bound("start_bound", s), self.bound("end_bound", s)
                    if not self.ob("the bounds are looked at", a is not None and b is not None, what):
                        continue
                elif nm.startswith("range"):
                    a, b = T("fld", args[1], 0, 0), T("fld", args[1], 0, 1)
                    b = iadd(b, I(1)) if incl else b
                if x[2] == variant_index(self.P, top + "Inner", "Simple"):
                    c = self.covers(x[3], s)
                    ok = c is not None and c[0][0] == "fld" and c[0][2:4] == (self.leaf, self.data) and self.box(c[0][1]) is self.box(root)
                    ends = (ip.length(c[0]),) + tuple(z for z in (c[2],) if self.rootsize(z, root)) if b in (None, "all") and ok else (b,)
                    self.ob("a leaf is gone through from start to end", ok and c[1] is a and c[2] in ends, what)
                    continue
                y = x[3]
                to = y[0] == "after" and y[1][0] == "call" and matches(y[1][1], "re:::descend_to$")
                ok = to or y[0] == "after" and y[1][0] == "call" and matches(y[1][1], "re:::descend$") and ">" not in orders(s, a, I(0))
                ok = ok and y[2] == 0
                if not self.ob("the way to the first element is gone", ok, what):
                    continue
                it, c = y[3], y[1]
                self.ob("the way starts at the root", self.box(unref(c[3])) is self.box(root) and (not to or c[4] is a), what)
                self.ob("nothing else is noted before", not self.pieces(self.part(it, 0, stack, s), s), what)
                left = self.part(it, 0, rem, s)
                sizes = [z for z in subterms_of(tuple(s.iv) + (left,)) if self.rootsize(z, root)]
                if b is None:
                    self.ob("as many remain as there are elements", left in sizes, what)
                elif b == "all":
                    self.ob("as many remain as the range has", any(left is isub(z, a) for z in sizes), what)
                else:
                    self.ob("as many remain as the range has", left is isub(b, a), what)
                    self.ob("a range beyond the last element is refused", any(">" not in orders(s, b, z) for z in sizes), what)
            self.ob("iterators are made", n > 1)

    def rootsize(self, z, root):
        return z[0] == "call" and z[1] == "size" and self.box(z[2]) is self.box(root)

    def bound(self, name, s):
        """Where a range starts (the element that comes first) or ends (the one behind), "all" if it goes to the end."""
        d = [k for k in s.facts if k[0] == "discr" and k[1][0] == "call" and matches(k[1][1], "re:(^|::)%s$" % name)]
        if len(d) != 1:
            return None
        c, k = d[0][1], s.facts[d[0]]
        k = k if not isinstance(k, frozenset) else next(iter({0, 1, 2} - k)) if len({0, 1, 2} - k) == 1 else None
        if k is None:
            return None
        if k == 2:
            return I(0) if name == "start_bound" else "all"
        x = T("*", T("fld", c, k, 0))
        return iadd(x, I(1)) if (k == 0) == (name == "end_bound") else x

    def outer(self, ty):
        c = [i for i in self.P.insts if i["body"] and i["name"] == "next" and i["key"].startswith("<%s%s<" % (TV, ty)) and re.search(r", \d+> as", i["key"])]
        if len(c) != 1:
            raise EngineError("%s was not found" % ty)
        inner = [i["path"] for i in self.P.insts if i["path"].startswith(TV + "Tree" + ty + "::<") and i["name"] == "next"]
        self.room = None
        ip, args, outs = self.look(c[0], more=inner)
        me = T("fld", T("*", args[0]), 0, field_index(self.P, TV + ty, "inner"))
        n = set()
        for v, s in outs:
            what = "%s where %s" % (show(v)[:300], facts_show(s)[:300])
            if v[0] == "agg" and v[2] == 1 and v[3][0] == "fld":
                v = v[3][1]
            if v is NONE:
                c = [k[1] for k in s.facts if k[0] == "discr" and k[1][0] == "call" and not self.hit(k[1], s)]
                v = c[0] if len(c) == 1 else v
            x = unref(v[2]) if v[0] == "call" and v[1].endswith("::next") else None
            ok = x is not None and x[0] == "fld" and x[1] is me and self.kind_of(me, s) == x[2]
            n.add(x[2] if ok else None)
            self.ob("the iterator inside is asked", ok, what)
            now = self.after(args[0], s)
            self.ob("the iterator inside moves on", x is not None and ip.project(ip.project(now, ("f", 0, me[3]), s), ("f", x[2], 0), s) is T("after", v, 0, x), show(now)[:300])
        self.ob("both forms are handled", len(n) == 2, str(n))

    def kind_of(self, n, s):
        k = s.facts.get(T("discr", n))
        if isinstance(k, frozenset):
            r = {0, 1} - k
            return next(iter(r)) if len(r) == 1 else None
        return k


def orders(s, a, b):
    """How two integers may be ordered, from what is known about them, their parts, and up to two differences of these."""
    o = int_orders(s, a, b)
    if len(o) == 1:
        return o
    lo, hi = bounds(s, *lin_of(isub(a, b)), 2)
    return o - ({"<"} if lo is not None and lo >= 0 else set()) - ({">"} if hi is not None and hi <= 0 else set()) \
        - ({"="} if lo is not None and lo > 0 or hi is not None and hi < 0 else set())


def bounds(s, c, m, depth):
    lo, hi = c, c
    for x, n in m.items():
        l, h = alone(s, x)
        lo, hi = plus(lo, l if n > 0 else h, n), plus(hi, h if n > 0 else l, n)
    if not depth:
        return lo, hi
    for f in s.iv:
        for x, n in f[1][:1]:
            if len(f[1]) < 2 or x not in m and not any(y in m for y, _ in f[1]):
                continue
            for k in (1, -1):
                rest = dict(m)
                for y, q in f[1]:
                    rest[y] = rest.get(y, 0) - k * q
                    if not rest[y]:
                        del rest[y]
                if len(rest) > len(m):
                    continue
                l, h, _ = s.iv[f]
                l, h = (l, h) if k > 0 else (plus(0, h, -1), plus(0, l, -1))
                a, b = bounds(s, c, rest, depth - 1)
                a, b = plus(a, l), plus(b, h)
                lo = a if lo is None else lo if a is None else max(a, lo)
                hi = b if hi is None else hi if b is None else min(b, hi)
    return lo, hi


def plus(a, b, n=1):
    return None if a is None or b is None else a + n * b


def alone(s, x):
    lo, hi, _ = s.iv.get(T("diff", ((x, 1),)), (None, None, None))
    if x[0] in ("len", "intDiv", "sel") or x[0] == "sym" and len(x) > 3:
        lo = max(lo or 0, 0)      # (no such number is negative)
    return lo, hi


def ip_lens(s, v):
    out = {x for x in subterms(v) if x[0] == "len"}
    for k in s.iv:
        out |= {x for x in subterms_of(k) if x[0] == "len"}
    return sorted(out, key=str)


def holds_empty(engine, s, v, n):
    """v tells whether n is zero"""
    out = True
    for b in (True, False):
        for st in engine.assume(s, v, b):
            o = orders(st, n, I(0))
            out = out and (o <= {"="} if b else "=" not in o)
    return out


def subterms_of(k):
    """The terms in a key of a table of facts."""
    if isinstance(k, tuple) and k and isinstance(k[0], str):
        yield from subterms(k)
    elif isinstance(k, tuple):
        for x in k:
            yield from subterms_of(x)


def base(n):
    """The value a partly changed one comes from."""
    while n[0] == "upd":
        n = n[1]
    return n


def one_more(ip, lid, k, b):
    return after_step(ip, lid, k, b) is iadd(k, I(1))
