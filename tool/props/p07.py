"""All ways of adding segments to the arena, and the one function that creates output segments, are
interpreted abstractly with their helpers inlined and loops generalised.  On every loop step and on
every way out (error exits included) all per-segment tables of the arena must have grown by the same
number of elements, and likewise all per-output-segment tables of the topology; the tables start
equal in the constructors.  By induction they always have equal lengths, so every index that is
handed out is valid in, and refers to the same segment in, all of them."""
from props.segctx import *

FLOOR = 12
TOP = CRATE + "topology::Topology"


def run(ctx):
    P = ctx.P
    ctx.rule("on each loop step and exit, all parallel tables grow by the same number of elements")
    for nm, inst in entries(P):
        ctx.guard("arena: " + nm, inst, lambda: arena(ctx, P, nm, inst))
    ctx.guard("index bound", SEG, lambda: bound(ctx, P))
    ctx.guard("topology", TOP, lambda: topology(ctx, P))
    ctx.guard("topology starts empty", TOP, lambda: start(ctx, P))


def agree(ctx, ln, name, where, tables):
    keys = [(t, ln.key(v)) for t, v in tables]
    ctx.ob(name, len({k for _, k in keys}) == 1 and "'other'" not in str(keys[0][1]), where,
           "; ".join("%s: %s" % (t, str(k)[:150]) for t, k in keys))


def arena(ctx, P, nm, inst):
    ar = Arena(ctx, P, nm, inst)
    ln = Lengths(ar.ip)
    n = 0
    for r in ar.ip.records:
        for b in r.back:
            n += 1
            agree(ctx, ln, "arena: %s: each step appends the same number to every table" % nm, inst,
                  [(t, ar.table(b, t)) for t in TABLES])
    for v, s in ar.outs:
        agree(ctx, ln, "arena: %s: tables agree at the end" % nm, inst, [(t, ar.final(v, s, t)) for t in TABLES])
    ctx.stats["steps"] = ctx.stats.get("steps", 0) + n
    grow = sum(1 for r in ar.ip.records for b in r.back if ln.key2(ar.table(b, "segs"), ar.table(r.head, "segs")))
    ctx.ob("arena: %s: appends segments" % nm, grow > 0, inst)


def bound(ctx, P):
    """len() and indices() are those of one of the tables."""
    inst = P.one(SEG + "::len")
    ip, a, outs = ctx.analyse(inst)
    tabs = []
    for t in TABLES:
        v = T("*", a[0])
        for e in tpath(P, t):
            v = ip.project(v, e, None)
        tabs.append(v)
    for v, s in outs:
        ctx.ob("arena: len() is the length of the tables", v[0] == "len" and v[1] in tabs, inst, show(v)[:200])


# ------------------------------------------------------------------------------- topology

def outseg_tables(P):
    """Paths of all vectors in the topology indexed by output segments."""
    out = []
    for ty in P.types:
        if ty["k"] == "adt" and ty["path"] == TOP:
            for i, f in enumerate(ty["vs"][0]["fs"]):
                ft = P.types[f[1]]
                if ft["k"] != "adt":
                    continue
                if ft["path"] == CRATE + "topology::OutputSegVec":
                    out.append((f[0], (("f", 0, i), ("f", 0, 0))))
                elif ft["path"] == CRATE + "topology::HalfOutputSegVec":
                    out.append((f[0] + " (first halves)", (("f", 0, i), ("f", 0, 0))))
                    out.append((f[0] + " (second halves)", (("f", 0, i), ("f", 0, 1))))
            return out
    raise EngineError("anchor not found: " + TOP)


def topology(ctx, P):
    from props.sweepctx import process_range
    inst, ip, args, outs = process_range(ctx)
    me = ("P", args[0])
    tabs = outseg_tables(P)
    ctx.ob("topology: tables known", len(tabs) >= 9, inst, str([t for t, _ in tabs]))
    n = 0
    ln = Lengths(ip)
    for r in ip.records:
        for b in r.back:
            n += 1 if ln.key2(ip.read_loc(b, (me, tabs[0][1])), ip.read_loc(r.head, (me, tabs[0][1]))) else 0
            agree(ctx, ln, "topology: each step appends the same number to every table", inst,
                  [(t, ip.read_loc(b, (me, p))) for t, p in tabs])
    for v, s in outs:
        agree(ctx, ln, "topology: tables agree at the end", inst, [(t, ip.read_loc(s, (me, p))) for t, p in tabs])
    ctx.ob("topology: appends output segments", n > 0, inst)


def start(ctx, P):
    """The topology's tables are empty when the first range is processed."""
    cands = [i for i in P.insts if i["body"] and i["path"] == TOP + "::<W>::from_segments"]
    cands = [i for i in cands if "Binary" in i["key"]] or cands
    if not cands:
        raise EngineError("anchor not found: from_segments")
    inst = cands[0]
    tabs = outseg_tables(P)
    bad = []
    n = [0]

    def range_hook(ip, fn, args, atys, rty, s, site, fr):
        n[0] += 1
        root, p = ip.target(args[0])
        for t, path in tabs:
            v = ip.read_loc(s, (root, p + path))
            l = v
            while loop_at(ip, l):
                l = loop_at(ip, l)[3]
            if l[0] != "empty":
                bad.append((t, show(v)[:100]))
        return None
    from props.sweepctx import range_fn
    rf = range_fn(P)["path"]
    ctx.analyse(inst, models={rf: range_hook}, opaque=[rf, "re:merge_coincident$", "re:Sweeper.*::", "re:SweepLine.*::(next_range|line_segment|line|seg_range)"])
    ctx.ob("topology: all tables start empty", n[0] > 0 and not bad, inst, str(bad[:6]))
