"""The path that is drawn for a closed walk over output segments.  The function that draws it is interpreted abstractly, with
the decision whether an end can be merged left as a symbol: one step of its loop is compared, in every combination of what
can be merged, with what it has to append, replace and remember.  The decision itself is interpreted in turn: every outcome
in which an end can be merged has to satisfy all the conditions, every other one has to fail one of them, and the parameter
answered has to be that of the far end of the part of the segment that was copied from the input."""
from engine import Frame
from props.linectx import *
from props.sweepctx import *
from props.p25 import Base, some_in, payload, called, no_opt
from props.p14 import half_index
from props.walkctx import HV, HO, NB

FLOOR = 20


def run(ctx):
    ctx.rule("a contour is drawn through its edges in order; pieces of one input curve are joined where both were copied")
    ctx.assumption("tables of output segments have equal lengths (P07); the positioned path of a segment starts with a move and has a drawn element (P22)")
    for name, f in (("drawing a walk", Drawing), ("what can be merged", Merging), ("positions", Asking)):
        ctx.guard(name, TOP, lambda: f(ctx).check())


def top_method(P, pred, what):
    """A method of the topology of two sets (or of any winding number), found by its types."""
    c = [i for i in P.insts if i["body"] and not i["closure"] and "::Topology::<" in i["key"] and pred(i)]
    two = [i for i in c if "::Topology::<%s>::" % BW in i["key"]]
    paths = {i["path"] for i in c}
    if len(paths) != 1:
        raise EngineError("%s: found %s" % (what, sorted(paths)))
    return (two or c)[0]


def arg_types(P, i):
    return [strip_ty(P, i["body"]["locals"][k + 1]) for k in range(i["body"]["argc"])]


def ret_type(P, i):
    return P.types[i["body"]["locals"][0]]


POSV = CRATE + "position::PositionedOutputSeg"
HALF = CRATE + "topology::HalfOutputSegIdx"
TOI = CRATE + "topology::"
BP = "kurbo::bezpath::BezPath"
EL = "kurbo::bezpath::PathEl"


def draw_fn(P):
    return top_method(P, lambda i: (lambda a: len(a) == 3 and a[1]["k"] == "slice" and ret_type(P, i).get("path") == "kurbo::bezpath::BezPath")(arg_types(P, i)), "the drawing of a walk")


def merge_fn(P):
    return top_method(P, lambda i: (lambda a: len(a) == 3 and a[1].get("path") == HALF and ret_type(P, i).get("path") == "core::option::Option")(arg_types(P, i)), "what can be merged")


def half_models():
    return {"<" + HV + "<T> as core::ops::index::Index%s<%s>>::index%s" % (x, HO, y): half_index for x, y in (("", ""), ("Mut", "_mut"))}


class Tables(Base):
    """Terms for what the topology stores."""

    def setup(self, inst, opaque, **kw):
        self.inst = inst
        self.ip, self.args, self.outs = self.ctx.analyse(inst, opaque=opaque, models=half_models(), **kw)
        self.me = T("*", self.args[0])
        self.iidx, self.ihalf = field_index(self.P, HO, "idx"), field_index(self.P, HO, "first_half")

    def f(self, n):
        return T("fld", self.me, 0, field_index(self.P, TOP, n))

    def edge(self, h):
        return fld(fld(h, self.iidx), 0)

    def seg_of(self, e):
        """The raw index of the input piece an output segment comes from."""
        return fld(T("sel", T("fld", self.f("orig_seg"), 0, 0), e), 0)

    def segments(self, n):
        return T("fld", self.f("segments"), 0, field_index(self.P, CRATE + "segments::Segments", n))

    def coord(self, h, which):
        """A coordinate of the end point of a half."""
        p = T("sel", T("fld", self.f("points"), 0, 0), fld(T("sel", self.f("point_idx"), h), 0))
        return T("fld", p, 0, field_index(self.P, CRATE + "geom::Point", which))

    def flips(self, s, a, b):
        """Does half a lie at the other end of the segment of b? None if it is not known, or is another segment."""
        if self.edge(a) is not self.edge(b):
            return None
        x, y = fld(a, self.ihalf), fld(b, self.ihalf)
        if x is self.ip.bnot(y):
            return True
        return decide(s, self.ip.bxor(x, y))

    def path(self, pos, e):
        """The elements of the positioned path of a segment, as stored."""
        p = T("sel", T("fld", T("*", pos), 0, 0), e)
        return T("fld", T("fld", p, 0, field_index(self.P, POSV, "path")), 0, 0)

    def content(self, r):
        return unref(r) if r[0] == "&" else self.ip.content(r, State())


class Drawing(Tables):
    """One step of the loop that draws a walk."""

    def check(self):
        P = self.P
        self.can = merge_fn(P)["path"]
        self.setup(draw_fn(P), [self.can, "re:BezPath::reverse_subpaths$", "re:PathSeg::(reverse|as_path_el)$", "re:PathSeg as .*ParamCurve>::subsegment$",
                                "re:^linesweeper::curve::", "re:to_kurbo_cubic$"], keep_rel=True, keep_facts=lambda k: k[0] == "discr")
        ip = self.ip
        self.segs = T("*", self.args[1])
        self.n = ip.length(self.segs)
        self.ob("drawing returns", bool(self.outs))
        done = {}
        for v, s in self.outs:
            l = fld(v, 0)
            close = variant_index(P, EL, "ClosePath")
            ok = l[0] == "push" and l[2][0] == "agg" and l[2][2] == close and loop_at(ip, l[1])
            if not self.ob("what is returned is what the loop drew, and the path is closed", ok, show(l)[:300]):
                continue
            lid, root, path, _ = loop_at(ip, l[1])
            for r in recs_of(ip, lid, s):
                key = (r.no, self.place(r, l[1]))
                if key not in done:
                    done[key] = self.loop(r, key[1])
                if done[key]:
                    k0, cnt = done[key]
                    self.ob("every edge of the walk has been drawn", not set(int_orders(s, ip.read_loc(r.head, cnt), self.n)) & {"<"}, show(v)[:200])
                    self.start(s, r, key[1], k0)
        self.ob("the loop that draws is found", any(done.values()))

    def place(self, r, t):
        """Where in memory a value generalised by this loop stands."""
        for root, p, x in slots(self.ip, r.head):
            if x is t:
                return root, p
        raise EngineError("no place for %s" % show(t)[:100])

    def loop(self, r, place):
        ip = self.ip
        cnt = [(root, p) for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == r.lid
               and ip.read_loc(r.pre, (root, p)) is I(0) and r.back and all(ip.read_loc(b, (root, p)) is iadd(x, I(1)) for b in r.back)]
        opt = [(root, p) for root, p, x in slots(ip, r.head) if loop_at(ip, x) and loop_at(ip, x)[0] == r.lid
               and no_opt(ip.read_loc(r.pre, (root, p)))]
        kinds = {}
        for c in cnt:
            J = ip.read_loc(r.head, c)
            es = [self.handled(b, J) for b in r.back]
            if all(es):
                break
        else:
            self.ob("each step handles one edge of the walk, in order from the first to be drawn", False, "%d counters" % len(cnt))
            return None
        self.ob("each step handles one edge of the walk, in order from the first to be drawn", True)
        k0s = {k for _, k in es}
        if not self.ob("all steps count from the same edge", len(k0s) == 1, str([show(k) for k in k0s])):
            return None
        names = None
        for o in opt:
            res = [(b, E, self.remember(b, o, r, E)) for b, (E, _) in zip(r.back, es)]
            bad = [x for x in res if x[2]]
            if names is None or len(bad) < len(names[1]):
                names = (o, bad, res)
        if not self.ob("what can be merged into is remembered", names is not None):
            return None
        o, _, res = names
        for b, E, why in res:
            self.ob("what can be merged into is remembered", not why, why and why + facts_show(b)[:900])
        for b, E, _ in res:
            why = self.drawn(b, E, r, place, o)
            self.ob("each step draws its edge, joined to the one before where both ends can be merged", not why, why and why + facts_show(b)[:900])
        return next(iter(k0s)), c

    def handled(self, b, J):
        """The half handled by a step: walk[first + counter], or that minus the length from where the walk wraps round."""
        ip = self.ip
        found = set()
        for k in list(b.facts) + [v for v in b.mem.values() if isinstance(v, tuple)]:
            for x in subterms(k):
                if x[0] == "sel" and x[1] is self.segs:
                    found.add(x)
        for E in found:
            rem = E[2][0] == "intRem" and E[2][2] is self.n
            c, m = lin_of(E[2][1] if rem else E[2])
            m = dict(m)
            if c or m.pop(J, 0) != 1:
                continue
            wrapped = m.pop(self.n, 0)
            if len(m) != 1 or set(m.values()) != {1}:
                continue
            k0 = next(iter(m))
            d = int_orders(b, iadd(k0, J), self.n)
            if wrapped == 0 and (rem or not set(d) - {"<"}) or wrapped == -1 and not set(d) & {"<"}:
                return E, k0
        return None

    def can_merge(self, s, E, other):
        """(Can this end of the edge be merged, up to where) or None if it was not asked."""
        for k in s.facts:
            if k[0] == "discr" and k[1][0] == "call" and self.asked(s, k[1], E, other):
                d = some_in(s, k[1])
                if d is not None:
                    return d, payload(k[1])
        return None

    def asked(self, s, c, E, other):
        return c[1] == self.can and c[2] is self.args[0] and c[4] is self.args[2] and self.flips(s, c[3], E) is other

    def remember(self, b, o, r, E):
        """Why what is remembered after a step is wrong."""
        ip = self.ip
        U, after = ip.read_loc(r.head, o), ip.read_loc(b, o)
        m = self.merged(b, U, E)
        e = self.can_merge(b, E, False)
        if m is None:
            return "it is not known if the start is merged: "
        if e is None and not m and after[0] == "call" and self.asked(b, after, E, False):
            return None
        if e is None:
            return "it is not known if the end can be merged: "
        if not e[0]:
            return None if some_in(b, after) is False else "something is remembered though the end cannot be merged: "
        if m:
            return None if after is U else "a longer merge is not continued: "
        return None if some_in(b, after) and payload(after) is e[1] else "the end is not remembered: "

    def merged(self, b, U, E):
        u = some_in(b, U)
        a = self.can_merge(b, E, True)
        if u is False or a is not None and not a[0]:
            return False
        return True if u and a is not None else None

    def drawn(self, b, E, r, place, o):
        """Why what a step draws is wrong."""
        ip = self.ip
        U = ip.read_loc(r.head, o)
        m = self.merged(b, U, E)
        h = ip.read_loc(r.head, place)
        v = ip.read_loc(b, place)
        d = decide(b, fld(E, self.ihalf))
        if m is None or d is None:
            return "the direction or the merge is not known: "
        src = self.path(self.args[2], self.edge(E))
        skip = 2 if m else 1
        pre, got = v, None
        lp = loop_at(ip, v)
        if lp and v is not h:
            pres = set()
            for q in recs_of(ip, lp[0], b):
                pl = self.place(q, v)
                pres.add(ip.read_loc(q.pre, pl))
                for bb in q.back:
                    w = ip.read_loc(bb, pl)
                    if not (w[0] == "push" and w[1] is v and w[2][0] == "sel"):
                        return "a step of the inner loop does not append one element: "
                    got = (w[2][1], w[2][2], q, bb)
                    why = self.whole(b, got, skip)
                    if why:
                        return why
                    why = self.source(b, got[0], src, d)
                    if why:
                        return why
            if len(pres) != 1:
                return "it is not known what was drawn before: "
            pre = next(iter(pres))
        else:
            n = {x for x in (ip.length(src), self.rev_len(b, src)) if x is not None}
            if not any(not set(int_orders(b, x, I(skip))) & {">"} for x in n):
                return "nothing is drawn: "
        if not m:
            return None if pre is h else "what was drawn before is changed: "
        if pre[0] != "store" or pre[1] is not h or pre[2] is not iadd(ip.length(h), I(-1)):
            return "the element before is not replaced: "
        return self.joined(b, pre[3], payload(U), self.can_merge(b, E, True)[1], E)

    def reversal(self, t):
        """The path that t is the reversal of, as stored, or None."""
        if t[0] == "fld" and (t[2], t[3]) == (0, 0) and called(t[1], "reverse_subpaths"):
            a = self.content(t[1][2])
            return fld(a, 0)
        return None

    def rev_len(self, b, src):
        for k in b.iv:
            for x in subterms(k):
                if x[0] == "len" and self.reversal(x[1]) is src:
                    return x
        return None

    def source(self, b, got, src, first):
        if first:
            return None if self.reversal(got) is src else "an edge walked backwards is not drawn from its reversed path: "
        return None if got is src else "an edge is not drawn from its path: "

    def whole(self, b, got, skip):
        """All elements of the path from some position on are appended, in order."""
        ip = self.ip
        coll, idx, q, bb = got
        for root, p, x in slots(ip, q.head):
            if not (loop_at(ip, x) and loop_at(ip, x)[0] == q.lid):
                continue
            c = lin_of(iadd(idx, engine.imul(x, I(-1))))
            if c[1] or ip.read_loc(bb, (root, p)) is not iadd(x, I(1)):
                continue
            pre = ip.read_loc(q.pre, (root, p))
            if affine(idx, lambda a: pre if a is x else a) is not I(skip):
                return "the elements appended do not start at number %d: " % skip
            if not all(not set(int_orders(e, idx, ip.length(coll))) & {"<"} for e in [b]):
                return "not all elements are appended: "
            return None
        return "the inner loop does not count: "

    def joined(self, b, el, unf, our, E):
        ip = self.ip
        if not called(el, "as_path_el"):
            return "the element before is not replaced by a piece of the input: "
        sub = self.content(el[2])
        if not called(sub, "subsegment"):
            return "the element before is not replaced by a piece of the input: "
        inp = T("sel", T("fld", self.segments("input_segs"), 0, 0), self.seg_of(self.edge(E)))
        of, rng = self.content(sub[2]), sub[3]
        a, z = fld(rng, 0), fld(rng, 1)
        one = F(1.0)
        if of is inp:
            if a is not unf or z is not our:
                return "the piece of the input is not between the two ends: %s " % show(rng)[:300]
            return None if surely(b, our, unf, ">=") else "a piece of the input is drawn backwards: "
        if called(of, "reverse"):
            x = self.content(of[2])
            if x is inp:
                w = (ip.binop("Sub", one, unf, "f"), ip.binop("Sub", one, our, "f"))
                if (a, z) != w:
                    return "the piece of the reversed input is not between the two ends: %s " % show(rng)[:300]
                return None if surely(b, our, unf, "<=") or not set(flt_orders(b, our, unf, True)) & {">"} else "a piece of the input is drawn backwards: "
        return "it is another input curve: %s, not %s " % (show(of)[:200], show(inp)[:200])

    def start(self, s, r, place, k0):
        """The path starts at the start of the first edge, which is not merged into anything."""
        ip = self.ip
        l = ip.read_loc(r.pre, place)
        mv = variant_index(self.P, EL, "MoveTo")
        ok = l[0] == "push" and l[1] is T("empty") and l[2][0] == "agg" and l[2][2] == mv
        if not self.ob("the path starts with a move", ok, show(l)[:300]):
            return
        E = T("sel", self.segs, k0)
        p = fld(l[2], 0, mv)
        hs = {x[2] for x in subterms(p) if x[0] == "sel" and x[1] is self.f("point_idx")}
        h = next((h for h in hs if self.flips(s, h, E)), None)
        self.ob("the path starts at the start of its first edge", h is not None and fld(p, 0) is self.coord(h, "x") and fld(p, 1) is self.coord(h, "y"), show(p)[:300])
        a = self.can_merge(s, E, True)
        self.ob("the first edge drawn is not to be merged into the one before", a is not None and not a[0], facts_show(s)[:500])


def merge_fn(P):
    return top_method(P, lambda i: (lambda a: len(a) == 3 and a[1].get("path") == HALF and ret_type(P, i).get("path") == "core::option::Option")(arg_types(P, i)), "what can be merged")


class Merging(Tables):
    """Which ends can be merged with their neighbour, and up to where in the input curve."""

    def check(self):
        P = self.P
        ring, half = field_index(P, TOP, "point_neighbors"), field_index(P, HO, "first_half")
        self.setup(merge_fn(P), GEOM + ["re:^linesweeper::curve::"], keep_rel=True,
                   keep_facts=lambda k: k[0] == "discr" or k[0] == "fld" and k[3] == half and k[1][0] == "sym" or contains(k, lambda x: x[0] == "fld" and x[3] == ring and x[1][0] == "*"))
        yes = no = 0
        for v, s in self.outs:
            if some_in(s, v) is None:
                self.ob("it is known if an end can be merged", False, show(v)[:200])
                continue
            self.state(s)
            if some_in(s, v):
                yes += 1
                for name, c in self.conditions(s):
                    self.ob("an end is only merged if " + name, c is True, facts_show(s)[:900])
                why = self.value(s, payload(v))
                self.ob("a merge goes up to the end of the copied part, in the input's parameters", not why, why)
            else:
                no += 1
                c = [n for n, c in self.conditions(s) if c is False]
                self.ob("an end is not merged only if a condition fails", bool(c) or self.broken(s), facts_show(s)[:900])
        self.ob("some ends can be merged and some cannot", yes and no, "%d, %d" % (yes, no))

    def state(self, s):
        P = self.P
        self.h = self.args[1]
        self.e = self.edge(self.h)
        self.d = decide(s, fld(self.h, self.ihalf))
        self.o = self.seg_of(self.e)
        self.src = self.path(self.args[2], self.e)
        self.n = self.ip.length(self.src)
        self.split = T("sel", T("fld", self.segments("split_from_predecessor"), 0, 0), self.o)
        self.up = decide(s, T("sel", T("fld", self.segments("orientation"), 0, 0), self.o))
        self.seg = T("sel", T("fld", self.segments("segs"), 0, 0), self.o)
        self.el = None if self.d is None else self.ip.select(self.src, I(1) if self.d else iadd(self.n, I(-2)), s)

    def mk(self, b):
        x = [None, None]
        x[self.iidx], x[self.ihalf] = fld(self.h, self.iidx), b if isinstance(b, tuple) else B(b)
        return T("agg", HO, 0, *x)

    def conditions(self, s):
        ip = self.ip
        here, there = [self.coord(self.h, "y")], [self.coord(self.mk(ip.bnot(fld(self.h, self.ihalf))), "y")]
        if self.d is not None:
            here.append(self.coord(self.mk(self.d), "y"))
            there.append(self.coord(self.mk(not self.d), "y"))
        pairs = [(a, b) for a in here for b in there] + [(self.coord(self.mk(True), "y"), self.coord(self.mk(False), "y"))]
        yield "its output segment is not level", self.either([self.relation(s, a, b, "<>") for a, b in pairs])
        c = fld(T("sel", T("fld", T("*", self.args[2]), 0, 0), self.e), field_index(self.P, POSV, "copied_idx"))
        copied = some_in(s, c)
        if copied:
            copied = None
            if self.d is not None:
                r = set(int_orders(s, payload(c), I(0) if self.d else iadd(self.n, I(-2))))
                copied = True if r == {"="} else False if "=" not in r else None
        yield "the piece at this end is copied from the input", copied
        if self.d is None or self.up is None:
            yield "the input goes on at this end", None
            yield "this is the end of its input piece", None
        else:
            same = self.d == self.up
            a, b = (F(0.0), fld(self.split, 0)) if same else (fld(self.split, 1), F(1.0))
            yield "the input goes on at this end", self.relation(s, a, b, "<")
            end = "start" if self.d else "end"
            ys = [fld(x, field_index(self.P, CRATE + "geom::Point", "y")) for x in self.calls(s, end)]
            yield "this is the end of its input piece", self.either([self.relation(s, a, b, "=") for a in here for b in ys])
        n = T("sel", self.f("point_neighbors"), self.h)
        a, b = fld(n, field_index(self.P, NB, "clockwise")), fld(n, field_index(self.P, NB, "counter_clockwise"))
        t = ip.band(ip.binop("Eq", self.edge(a), self.edge(b), "i"), ip.bnot(ip.bxor(fld(a, self.ihalf), fld(b, self.ihalf))))
        yield "only two segments meet there", decide(s, t)
        yield "the other segment there is of the next piece of the input curve", self.next_piece(s, a, b)

    def next_piece(self, s, *around):
        """Whether one of the segments next to this end comes from the piece at this end of the input piece."""
        if self.d is None or self.up is None:
            return None
        x = T("sel", T("fld", self.segments("contour_prev" if self.d == self.up else "contour_next"), 0, 0), self.o)
        there = some_in(s, x)
        if not there:
            return there
        return self.either([self.same(s, fld(payload(x), 0), self.seg_of(self.edge(h))) for h in around])

    def same(self, s, a, b):
        r = set(int_orders(s, a, b))
        return True if r == {"="} else False if "=" not in r else None

    def either(self, rs):
        return True if True in rs else False if False in rs else None

    def relation(self, s, a, b, o):
        r = set(flt_orders(s, a, b, False)) - {"u"}
        return True if r and not r - set(o) else False if not r & set(o) else None

    def calls(self, s, name):
        """Results of asking the input piece for its start or end."""
        out = set()
        for k in list(s.facts) + list(s.rel):
            for t in (k if isinstance(k, tuple) and k and isinstance(k[0], tuple) else (k,)):
                for x in subterms(t):
                    if called(x, name) and self.content(x[2]) is self.seg:
                        out.add(x)
        return out

    def broken(self, s):
        """The positioned path has no piece with an end here (P22 decides that it has)."""
        if self.el is None:
            return False
        d = s.facts.get(T("discr", self.el))
        return d == variant_index(self.P, EL, "ClosePath") or not set(int_orders(s, self.n, I(2))) & {"=", ">"}

    def value(self, s, v):
        """Why the parameter is wrong."""
        ip = self.ip
        ts = {x for x in subterms(v) if called(x, "solve_t_for_y")}
        if len(ts) != 1:
            return "the parameter on the input piece is not solved for: %s" % show(v)[:300]
        t = next(iter(ts))
        a, y = t[2], t[3]
        if not called(a, "to_kurbo_cubic") or self.content(a[2]) is not self.seg:
            return "the parameter of another curve is solved for: %s" % show(a)[:300]
        if y not in self.ends(s):
            return "the merge does not end where the copied part ends, but at height %s" % show(y)[:300]
        if self.up is None:
            return "the direction of the input piece is not known"
        x = self.clamped(v)
        if x is None:
            return "the parameter is not clamped: %s" % show(v)[:300]
        f = lambda op, a, b: ip.binop(op, a, b, "f")
        s0, s1 = fld(self.split, 0), fld(self.split, 1)
        w = f("Mul", t, f("Sub", s1, s0))
        w = f("Add", s0, w) if self.up else f("Sub", s1, w)
        return None if fpoly(x) == fpoly(w) else "the parameter is not between those at the ends of the piece: %s" % show(x)[:400]

    def ends(self, s):
        d = s.facts.get(T("discr", self.el)) if self.el is not None else None
        for name, k in (("MoveTo", 0), ("LineTo", 0), ("QuadTo", 1), ("CurveTo", 2)):
            if d == variant_index(self.P, EL, name):
                return [fld(fld(self.el, k, d), 1)]
        return []

    def clamped(self, v):
        if v[0] == "fclamp" and v[2] is F(0.0) and v[3] is F(1.0):
            return v[1]
        for o, i, a, b in (("fmin", "fmax", F(1.0), F(0.0)), ("fmax", "fmin", F(0.0), F(1.0))):
            if v[0] == o and a in v[1:]:
                w = v[2] if v[1] is a else v[1]
                if w[0] == i and b in w[1:]:
                    return w[2] if w[1] is b else w[1]
        return None


class Asking(Tables):
    """What the positions of the output segments are computed from."""

    def check(self):
        P = self.P
        inst = self.asks()
        self.setup(inst, [self.target, "re:build_scan_line_orders$", "re:ComparisonCache::new$"], keep_rel=True)
        ip = self.ip
        self.ob("positions are computed", bool(self.outs))
        for v, s in self.outs:
            if not self.ob("what is returned is what the positioning computed", v[0] == "call" and v[1] == self.target, show(v)[:300]):
                continue
            a = [ip.content(x, s) if x[0] in ("ref", "sym") else unref(x) for x in v[2:]]
            self.ob("positions are computed for the stored segments", a[0] is self.f("segments") and a[1] is self.f("orig_seg"), "%s, %s" % (show(a[0])[:200], show(a[1])[:200]))
            eps = self.f("eps")
            part = lambda t, k: fpoly(t) == fpoly(ip.binop("Div", eps, F(k), "f"))
            self.ob("curves are compared as by the sweep", called(a[2], "new") and part(a[2][2], 1.0) and part(a[2][3], 2.0), show(a[2])[:200])
            self.ob("positions are within a quarter of the tolerance", part(v[7], 4.0), show(v[7])[:200])
            self.ob("positions follow the recorded scan lines", called(a[4], "build_scan_line_orders") and a[4][2] is self.args[0], show(a[4])[:200])
            why = self.filled(s, a[3])
            self.ob("each output segment starts and ends in its points", not why, why)

    def asks(self):
        P = self.P
        c = [i for i in P.insts if i["body"] and not i["closure"] and ret_type(P, i).get("path", "").endswith("::OutputSegVec")
             and any(t.get("path") == POSV for t in (P.types[x] for x in ret_type(P, i).get("args", []) if isinstance(x, int)))]
        out = [i for i in c if i["body"]["argc"] == 1]
        self.target = [i for i in c if i["body"]["argc"] == 6][0]["path"]
        return ([i for i in out if BW in i["key"]] or out)[0]

    def filled(self, s, t):
        """Why a table by halves does not hold the points of all halves."""
        ip = self.ip
        left = {True, False}
        while left:
            lp = loop_at(ip, t)
            if not lp:
                return "the table is not filled: %s" % show(t)[:300]
            pres = set()
            for r in recs_of(ip, lp[0], s):
                root, p = next((root, p) for root, p, x in slots(ip, r.head) if x is t)
                pres.add(ip.read_loc(r.pre, (root, p)))
                got = [self.stored(r, b, ip.read_loc(b, (root, p)), t) for b in r.back]
                if None in got or len({frozenset(g) for g in got}) != 1:
                    return "a step of the loop does not store the points of one segment: %s" % [show(ip.read_loc(b, (root, p)))[:300] for b in r.back]
                e = {k for k, _ in got[0]}
                if len(e) != 1 or not self.all(r, next(iter(e)), s):
                    return "the loop does not pass all segments"
                left -= {d for _, d in got[0]}
            if len(pres) != 1:
                return "it is not known what was in the table before"
            t = next(iter(pres))
        return None

    def stored(self, r, b, v, t):
        """{(index, half)} of correct entries made in a step."""
        out = set()
        while v is not t:
            if v[0] != "store":
                return None
            h, p = v[2], v[3]
            d = decide(b, fld(h, self.ihalf))
            if d is None or p[0] != "agg" or p[3] is not self.coord(h, "x") or p[4] is not self.coord(h, "y"):
                return None
            out.add((self.edge(h), d))
            v = v[1]
        return out

    def all(self, r, e, s):
        """The index of the loop runs through all output segments."""
        ip = self.ip
        n = {ip.length(T("fld", self.f(x), 0, 0)) for x in ("orig_seg", "scan_west", "scan_east")} | {ip.length(T("fld", self.f("winding"), 0, 0))}
        for root, p, x in slots(ip, r.head):
            if x is e and ip.read_loc(r.pre, (root, p)) is I(0) and all(ip.read_loc(b, (root, p)) is iadd(x, I(1)) for b in r.back):
                return any(not set(int_orders(s, e, m)) & {"<"} for m in n)
        return False
