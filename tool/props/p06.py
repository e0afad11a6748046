"""Every path through the entry points that demand closed paths is interpreted abstractly, down to
the function that cuts paths into segments.  A path that answers with success may only contain
finished subpaths whose first segment's original start is known to equal the last one's original
end; a path on which the two differ must end in the non-closed-path error, carrying exactly these
two points, and the callers up to the boolean operations must hand that error on, never turning it
into a success or another error."""
from props.segctx import *
from props import p10
from props.p09 import kpoint

FLOOR = 20
NCP = CRATE + "segments::NonClosedPath"
ERR = CRATE + "Error"
TOP = CRATE + "topology::Topology"


class Local(Arena):
    """A function that builds an arena of its own, handed to `sink` in the end."""
    def find_root(self):
        cands = set()
        for r in self.ip.records:
            for root, v in r.head.mem.items():
                if v[0] == "agg" and v[1] == SEG:
                    cands.add(root)
        if len(cands) != 1:
            raise EngineError("cannot find the arena in %s: %s" % (self.name, sorted(map(str, cands))))
        return cands.pop()

    def final(self, v, s, name):
        a = self.arg(v, s)
        for e in tpath(self.P, name):
            a = self.ip.project(a, e, s)
        return a

    def arg(self, v, s):
        """The arena that was passed on."""
        cs = list(dict.fromkeys(y for x in subterms(v) if x[0] == "call" for y in x[2:] if y[0] == "agg" and y[1] == SEG))
        if len(cs) != 1:
            raise EngineError("%s does not pass on one arena: %s" % (self.name, show(v)[:200]))
        return cs[0]


def run(ctx):
    P = ctx.P
    ctx.rule("success => all subpaths end where they start; otherwise the error with exactly these two points, handed on by all callers")
    inst = P.one(SEG + "::add_bez_path")
    ctx.guard("add_bez_path", inst, lambda: closed(ctx, P, "add_bez_path", Arena(ctx, P, "add_bez_path", inst, keep_rel=True)))
    froms = [i for i in P.insts if i["body"] and i["path"] == TOP + "::<W>::from_paths"]
    froms.sort(key=lambda i: ("Binary" not in i["key"], i["key"]))
    ctx.ob("from_paths found", len(froms) > 0, TOP)
    for i in froms[:1]:
        ctx.guard("from_paths", i, lambda: from_paths(ctx, P, i))
    for nm in ("binary_op", "binary_op_with_eps"):
        i = P.one(CRATE + nm)
        ctx.guard(nm, i, lambda: caller(ctx, P, nm, i))


def from_paths(ctx, P, i):
    op = OPAQUE + ["re:::from_segments$", "re:Segments::check_invariants$"]

    class L(Local):
        def __init__(self):
            self.ctx, self.P, self.name, self.inst = ctx, P, "from_paths", i
            self.ip, self.args, self.outs = ctx.analyse(i, opaque=op, keep_rel=True)
            self.root = self.find_root()
    closed(ctx, P, "from_paths", L())


def closed(ctx, P, nm, ar):
    ip, inst = ar.ip, ar.inst
    ln = Lengths(ip)
    nz = p10.Norm(ar, ln)
    n = {"closed": 0, "open": 0, "none": 0}
    for r in ip.records:
        if not p10.finished_inside(ar, ln, r.lid):
            continue
        for b in r.back:
            fin(ctx, P, ar, ln, nz, nm, inst, b, lambda t, s=b: ar.table(s, t), lambda t, h=r.head: ar.table(h, t), n)
    errs = 0
    for v, s in ar.outs:
        if v[0] == "agg" and v[1] == "core::result::Result" and v[2] == 1:
            errs += 1
            error(ctx, P, ar, ln, nm, inst, v[3], s)
            continue
        ok = v[0] == "agg" and v[1] == "core::result::Result" and v[2] == 0
        if ctx.ob("%s: form of the result" % nm, ok, inst, show(v)[:200]):
            fin(ctx, P, ar, ln, nz, nm, inst, s, lambda t: ar.final(v[3], s, t) if isinstance(ar, Local) else ar.table(s, t), None, n)
    ctx.ob("%s: accepted subpaths are linked cyclically" % nm, n["closed"] > 0 and n["open"] == 0, inst, str(n))
    ctx.ob("%s: reports non-closed paths" % nm, errs > 0, inst)


def fin(ctx, P, ar, ln, nz, nm, inst, s, table, head, n):
    """The closedness part of P10's condition on finished subpaths (names there carry 'bez')."""
    p10.finish(ctx, P, ar, ln, nz, nm + " (bez)", inst, s, table, head, n)


def error(ctx, P, ar, ln, nm, inst, e, s):
    ip = ar.ip
    if e[0] != "agg" or e[1] != NCP:
        return ctx.fail("%s: the error is the non-closed-path error" % nm, inst, show(e)[:200])
    sp = ip.project(e, ("f", 0, field_index(P, NCP, "start_point")), s)
    ep = ip.project(e, ("f", 0, field_index(P, NCP, "end_point")), s)
    a, b = kpoint(ip, sp), kpoint(ip, ep)
    oy, ox = flt_orders(s, a[0], b[0]), flt_orders(s, a[1], b[1])
    ctx.ob("%s: an error means that the two reported points differ" % nm, "=" not in oy or "=" not in ox, inst,
           "y %s x %s" % ("".join(sorted(oy)), "".join(sorted(ox))))
    # the tables the points were read from: the arena itself may be gone by now
    def tables(terms, name):
        vs = [x for t in terms for x in subterms(t) if x[0] in ("fld", "loop")]
        return [x for x in dict.fromkeys(vs) if (lambda l: l is not None and l[1][1] == ar.root and l[2] == tpath(P, name))(loop_at(ip, x))]
    segs, ori = tables(a + b, "segs"), tables(list(s.facts), "orientation")
    ok = False
    for v in segs:
        l = loop_at(ip, v)
        for o in ori:
            if loop_at(ip, o)[0] != l[0]:
                continue
            tb = {t: v for t in TABLES}
            tb["orientation"] = o
            try:
                ok = ok or p10.end_points(P, ar, s, tb.get, ip.length(l[3]), isub(ip.length(v), I(1))) == (a, b)
            except KeyError:
                pass
    ctx.ob("%s: the error carries the start and the end of the subpath" % nm, ok, inst,
           "reported %s" % [show(x)[:120] for x in a + b])


def caller(ctx, P, nm, inst):
    ip, args, outs = ctx.analyse(inst, opaque=["topology::Topology::<W>::contours", "topology::Topology::<W>::from_paths",
                                               "re:::bounding_box$", "re:kurbo::bezpath::.*::is_nan$", "re:kurbo::bezpath::.*::is_finite$"])
    vi = variant_index(P, ERR, "NonClosedPath")
    seen = set()
    for v, s in outs:
        calls = [t for t in s.facts if t[0] == "discr" and t[1][0] == "call" and matches(t[1][1], "topology::Topology::<W>::from_paths")]
        made = [e for e in s.ev if e[0] == "call" and matches(e[1], "topology::Topology::<W>::from_paths")]
        if not calls:
            ctx.ob("%s: the result of reading the paths is examined" % nm, not made, inst, show(v)[:200])
            continue
        c = calls[0]
        d = s.facts[c]
        if d == 1:
            want = T("fld", c[1], 1, 0)
            ok = v[0] == "agg" and v[2] == 1 and v[3][0] == "agg" and v[3][1] == ERR and v[3][2] == vi and v[3][3] is want
            ctx.ob("%s: the error is handed on unchanged" % nm, ok, inst, show(v)[:200])
        else:
            ctx.ob("%s: closed paths are accepted" % nm, d == 0 and v[0] == "agg" and v[2] == 0, inst, show(v)[:200])
        seen.add(d)
    ctx.ob("%s: both outcomes are handled" % nm, seen == {0, 1}, inst, str(seen))
