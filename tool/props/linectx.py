"""Shared by the checks of the sweep line: the ordered tree taken as a sequence, comparisons of segments taken as
uninterpreted results of the cache they are asked for, and the geometry of segments uninterpreted."""
from lib import *
from models import MODELS, refto, deref, int_restrict, it_next, mkiter, must_call, NONE, some

SW = CRATE + "sweep::sweep_line::"
TV = CRATE + "treevec::TreeVec"
SWEEPER = SW + "Sweeper"
GEOM = ["re:^linesweeper::geom::Segment::(start|end|min_x|max_x|is_horizontal|lower|upper|at_y|to_kurbo_cubic)$"]
VECP = "alloc::vec::Vec::<T>::"


def method(P, name, ty="Sweeper", where=SW):
    c = [i for i in P.by_id.values() if i["key"].startswith(where + ty) and i["name"] == name and i["body"]
         and i["key"][len(where + ty):].lstrip(":").startswith(("<", name))]
    if len(c) != 1:
        raise EngineError("cannot tell which function is %s::%s: %s" % (ty, name, [i["key"] for i in c]))
    return c[0]


def fields(P, adt):
    for ty in P.types:
        if ty["k"] == "adt" and ty["path"] == adt and ty["ak"] == "struct":
            return [f[0] for f in ty["vs"][0]["fs"]]
    raise EngineError("no struct %s" % adt)


def sf(P, name):
    return ("f", 0, field_index(P, SWEEPER, name))


def path_of(P, *names):
    """Path to a part of the sweeper, by field names."""
    out, ty = [], SWEEPER
    nxt = {"line": SW + "SegmentOrder", "events": SW + "EventQueue"}
    for n in names:
        out.append(("f", 0, field_index(P, ty, n)))
        ty = nxt.get(n)
    return tuple(out)


def bounds(ip, r, t, n, s):
    """(first, one after the last) of a range of positions."""
    ty = ip.p.types[t] if t is not None else None
    p = ty["path"].split("::")[-1] if ty is not None and ty["k"] == "adt" else None
    g = lambda k: ip.project(r, ("f", 0, k), s)
    return {"Range": lambda: (g(0), g(1)), "RangeFrom": lambda: (g(0), n), "RangeTo": lambda: (I(0), g(0)),
            "RangeFull": lambda: (I(0), n), "RangeInclusive": lambda: (g(0), iadd(g(1), I(1))),
            "RangeToInclusive": lambda: (I(0), iadd(g(0), I(1)))}[p]()


def line_models(P, compare=True):
    def idx(ip, fn, args, atys, rty, s, site, fr):
        r = int_restrict(s, args[1], ip.length(deref(ip, s, args[0])), frozenset("<"))
        return [] if r is None else [(refto(ip, args[0], ("idx", args[1])), r)]

    def as_vec(name):
        return lambda ip, fn, args, atys, rty, s, site, fr: MODELS[VECP + name](ip, dict(fn, name=name, path=VECP + name), args, atys, rty, s, site, fr)

    def it(ip, fn, args, atys, rty, s, site, fr):
        return [(mkiter(T("refs", args[0])), s)]

    def rng(ip, fn, args, atys, rty, s, site, fr):
        n = ip.length(deref(ip, s, args[0]))
        a, b = bounds(ip, args[1], atys[1], n, s)
        return [(mkiter(T("refs", refto(ip, args[0], ("slc", a, b)))), s)]
    m = {"<%s<T, B> as core::ops::index::Index<usize>>::index" % TV: idx, "<%s<T, B> as core::ops::index::IndexMut<usize>>::index_mut" % TV: idx}
    for n in ("len", "is_empty", "get", "get_mut", "insert", "remove", "partition_point"):
        m[TV + "::<T, B>::" + n] = as_vec(n)
    for n in ("iter", "iter_mut"):
        m[TV + "::<T, B>::" + n] = it
    for n in ("range", "range_mut"):
        m[TV + "::<T, B>::" + n] = rng
    its = [CRATE + "treevec::"] + ([CRATE + "curve::CurveOrderIter"] if compare else [])
    for i in P.insts:
        if i["key"].startswith(tuple("<" + x for x in its)) and i["key"].endswith("Iterator>::next"):
            m[i["key"]] = m[i["path"]] = it_next
    if compare:
        m[CRATE + "order::ComparisonCache::compare_segments"] = comparing(P)
        m[CRATE + "curve::CurveOrder::iter"] = intervals
    return m


def comparing(P):
    which = {field_index(P, SWEEPER, n): n for n in ("comparisons", "conservative_comparisons")}

    def f(ip, fn, args, atys, rty, s, site, fr):
        r = args[0]
        while True:
            root, path = ip.target(r)
            v = ip.read_loc(s, (root, path))
            if v[0] != "ref":
                break
            r = v
        fs = [e for e in path if e[0] == "f"]
        if not fs or fs[-1][2] not in which:
            name = ip.content(args[0], s)
        else:
            name = which[fs[-1][2]]
        return [(T("order", name, args[2], args[3]), s)]
    return f


def intervals(ip, fn, args, atys, rty, s, site, fr):
    c = deref(ip, s, args[0])
    root = ("H", ("intervals", site))
    st = s.copy()
    st.mem[root] = T("intervals", c)
    return [(mkiter(T("copied", T("refs", T("ref", root, ())))), st)]


# ---- facts

def never(s, a, b, o):
    """a never stands in any of these relations to b."""
    return not set(flt_orders(s, a, b, False)) & set(o)


def surely(s, a, b, o):
    """a stands in one of these relations to b."""
    return not set(flt_orders(s, a, b, False)) - set(o) - {"u"}


def leaves(t, k="fmin"):
    return leaves(t[1], k) + leaves(t[2], k) if t[0] == k else [t]


def is_least(s, t, want, k="fmin"):
    """t is the least (greatest) of these, in this state."""
    ls = leaves(t, k)
    rel = "<=" if k == "fmin" else ">="
    flat = [y for x in want for y in leaves(x, k)]
    return all(any(x is y for y in flat) for x in ls) and all(any(x is y or surely(s, x, y, rel) for x in ls) for y in flat)


def loops_in(ip, t):
    out = []
    for x in subterms(t):
        if loop_at(ip, x) and x not in out:
            out.append(x)
    return out
