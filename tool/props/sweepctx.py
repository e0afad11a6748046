"""Shared by the checks that look at how the topology is built from one sweep-line range."""
from lib import *

TOP = CRATE + "topology::Topology"
BW = CRATE + "topology::BinaryWindingNumber"
HW = CRATE + "topology::HalfSegmentWindingNumbers"
RANGE_OPAQUE = ["re:SweepLineRange.*::(x|update_segments_at_x|increase_x|active_horizontals|active_horizontals_and_orientations|line|seg_range)$",
                "re:SweepLine.*::(line_segment|line_entry|y)$", "re:Segments::positively_oriented$",
                "re:WindingNumber>::single$", "re:SegmentsConnectedAtX::"]


def strip_ty(P, t):
    while P.types[t]["k"] == "ref":
        t = P.types[t]["t"]
    return P.types[t]


def callees(P, k):
    body = P.by_id[k]["body"] if k in P.by_id else None
    for b in body["blocks"] if body else ():
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"].get("id") in P.by_id:
            yield t[1][1]["fn"]["id"]


def range_fn(P):
    """The method of the topology (of two sets) that consumes one sweep-line range: found by its
    argument types, not by its name."""
    c = []
    for i in P.insts:
        if not i["body"] or i["closure"] or "Topology::<%s>::" % BW not in i["key"]:
            continue
        tys = [strip_ty(P, i["body"]["locals"][k + 1]) for k in range(i["body"]["argc"])]
        ps = [t.get("path") for t in tys]
        if TOP in ps and CRATE + "sweep::range::SweepLineRange" in ps:
            c.append(i)
    # helpers that only look at the range do not consume it: the one we want moves through it
    cand = {i["id"] for i in c}
    moving, called = set(), set()
    for i in c:
        seen, todo = {i["id"]}, [i["id"]]
        while todo:
            for k in callees(P, todo.pop()):
                if k in seen:
                    continue
                seen.add(k)
                if k in cand:
                    called.add(k)
                if P.by_id[k]["key"].startswith(CRATE):
                    todo.append(k)
                if "SweepLineRange" in P.by_id[k]["key"] and P.by_id[k]["key"].endswith("::increase_x"):
                    moving.add(i["id"])
    c = [i for i in c if i["id"] in moving] or c
    c = [i for i in c if i["id"] not in called] or c
    if len(c) != 1:
        raise EngineError("cannot tell which method consumes a sweep-line range: %s" % [i["key"] for i in c])
    return c[0]


def process_range(ctx, tables=True, **kw):
    """Analyse the consumption of one range.  With tables=False, tables per half-edge are taken as one
    map each (P03 decides that they are)."""
    from props.p14 import half_index
    from props.walkctx import HV, HO
    P = ctx.P
    inst = range_fn(P)
    m = {"<" + HV + "<T> as core::ops::index::Index%s<%s>>::index%s" % (x, HO, y): half_index for x, y in (("", ""), ("Mut", "_mut"))}
    ip, args, outs = ctx.analyse(inst, opaque=RANGE_OPAQUE, models=None if tables else m, **kw)
    return inst, ip, args, outs


def tf(P, name):
    return ("f", 0, field_index(P, TOP, name))


def inner(P, name):
    return (tf(P, name), ("f", 0, 0))


class Creation:
    """One place where an output segment is appended to the tables."""
    def __init__(self, rec, back, new):
        self.rec, self.back, self.new = rec, back, new


def creations(ctx, P, ip, selfroot, outs):
    """All (loop, back state) pairs that append to the winding table, and the appended terms found
    anywhere else (must be none)."""
    wpath = inner(P, "winding")
    found, seen = [], set()
    for r in ip.records:
        for b in r.back:
            new = pushed(ip, r.head, b, selfroot, wpath)
            if new:
                found.append(Creation(r, b, new))
                seen |= set(new)
    stray = set()
    for v, s in outs:
        for x in subterms(ip.read_loc(s, (selfroot, wpath))):
            if x[0] == "push" and x[2] not in seen:
                stray.add(x[2])
    for r in ip.records:
        for b in r.back:
            for x in subterms(ip.read_loc(b, (selfroot, wpath))):
                if x[0] == "push" and x[2] not in seen:
                    stray.add(x[2])
    return found, stray
