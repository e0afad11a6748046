"""Shared by the checks that look at how the arena of input segments is filled."""
from lib import *

SEG = CRATE + "segments::Segments"
TABLES = ("segs", "orientation", "split_from_predecessor", "input_segs", "contour_prev", "contour_next")
OPAQUE = ["re:::monotonic_pieces$"]


def entries(P):
    """(name, instance) of the public ways to add segments."""
    out = []
    for nm in ("add_points", "add_closed_polyline", "add_closed_polylines", "add_bez_path",
               "add_non_closed_bez_path", "from_closed_polyline"):
        r = [i for i in P.insts if i["body"] and i["path"] == SEG + "::" + nm]
        g = [i for i in r if "<P" in i["key"]] or r
        if not g:
            raise EngineError("anchor not found: %s::%s" % (SEG, nm))
        out.append((nm, g[0]))
    return out


def tpath(P, name):
    return (("f", 0, field_index(P, SEG, name)), ("f", 0, 0))


def inst_of(ctx, P, nm):
    return dict(entries(P))[nm]


class Arena:
    """One adder, interpreted."""
    def __init__(self, ctx, P, name, inst, **kw):
        self.ctx, self.P, self.name, self.inst = ctx, P, name, inst
        self.ip, self.args, self.outs = ctx.analyse(inst, opaque=OPAQUE, **kw)
        self.root = self.find_root()

    def find_root(self):
        if self.name != "from_closed_polyline":
            return ("P", self.args[0])
        cands = set()
        for r in self.ip.records:
            for root, v in r.head.mem.items():
                if v[0] == "agg" and v[1] == SEG:
                    cands.add(root)
        if len(cands) != 1:
            raise EngineError("cannot find the arena in %s: %s" % (self.name, sorted(map(str, cands))))
        return cands.pop()

    def table(self, st, name):
        return self.ip.read_loc(st, (self.root, tpath(self.P, name)))

    def final(self, v, s, name):
        if self.name == "from_closed_polyline":
            for e in tpath(self.P, name):
                v = self.ip.project(v, e, s)
            return v
        return self.table(s, name)


class Lengths:
    """Lengths of collections relative to where they come from.  A loop that appends nothing to a
    collection is passed through."""
    def __init__(self, ip):
        self.ip = ip
        self.memo = {}

    def key(self, v):
        """(origin, k): v has k more elements than what it comes from; collections that go through
        the same loops and start alike have the same origin."""
        k = 0
        while True:
            if v[0] in ("push", "pushfront"):
                k += 1
                v = v[1]
            elif v[0] in ("store", "sorted"):
                v = v[1]
            else:
                l = loop_at(self.ip, v)
                if l and self.flat(l[0], l[1], l[2]):
                    v = l[3]
                    continue
                break
        l = loop_at(self.ip, v)
        if l:
            return (("loop", l[0]), self.key(l[3])), k
        if v[0] in ("empty", "default"):
            return "empty", k
        if v[0] == "fld" and (v[1][0] == "*" or v[1][0] == "fld" and v[1][1][0] == "*"):
            return "entry", k
        return ("other", v), k

    def flat(self, lid, rootname, path):
        m = (lid, rootname, path)
        if m not in self.memo:
            self.memo[m] = False
            n = 0
            ok = True
            for r in self.ip.records:
                if r.lid != lid:
                    continue
                root = rootname[1]
                h = self.ip.read_loc(r.head, (root, path))
                for b in r.back:
                    n += 1
                    if self.key2(self.ip.read_loc(b, (root, path)), h) != 0:
                        ok = False
            self.memo[m] = ok and n > 0
        return self.memo[m]

    def key2(self, v, head):
        """Elements appended since head, None if unknown."""
        k = 0
        while v is not head:
            if v[0] in ("push", "pushfront"):
                k += 1
                v = v[1]
            elif v[0] in ("store", "sorted"):
                v = v[1]
            else:
                l = loop_at(self.ip, v)
                if l and self.flat(l[0], l[1], l[2]):
                    v = l[3]
                    continue
                return None
        return k


def appended(v, base):
    """Elements pushed on top of base, stores into earlier elements ignored; oldest first."""
    out = []
    while v is not base:
        if v[0] == "push":
            out.append(v[2])
            v = v[1]
        elif v[0] == "store":
            v = v[1]
        else:
            return None
    return out[::-1]


class Step:
    """A loop step that appends one segment."""
    def __init__(self, rec, back, vals):
        self.rec, self.back, self.v = rec, back, vals


def steps(ar):
    """Distinct segment-appending loop steps."""
    out, seen = [], set()
    for r in ar.ip.records:
        for b in r.back:
            vals = {}
            for t in TABLES:
                vals[t] = appended(ar.table(b, t), ar.table(r.head, t))
            if not vals["segs"]:
                continue
            if any(v is None or len(v) != 1 for v in vals.values()):
                out.append(Step(r, b, None))
                continue
            st = Step(r, b, {t: v[0] for t, v in vals.items()})
            key = (r.lid, tuple(st.v[t] for t in TABLES), tuple(b.rel.items()))
            if key not in seen:
                seen.add(key)
                out.append(st)
    return out
