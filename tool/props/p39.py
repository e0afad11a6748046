"""The ways in and out.  The constructors of topologies and the two functions that drive the sweep are interpreted with everything
below them opaque; every round of their loops has to hand on what it got: each path with its own tag, each line, each range of
a line and each event of a range, and no loop may end, or go on to the next line or range, before the one below it has
answered that there is nothing left."""
from lib import *
from engine import fconst

FLOOR = 25
TOP = CRATE + "topology::Topology"
ADD, ADDP, LEN, UPD, INTO, INV = ("re:::add_path_without_updating_enter_exit$", "re:Segments::add_closed_polylines$", "re:Segments::len$",
                                  "re:::update_enter_exit$", "re:::from_segments$", "re:::check_invariants$")
NEW, LINE, RANGE, EVENTS = "re:Sweeper::<.*>::new$", "re:Sweeper::<.*>::next_line$", "re:::next_range$", "re:SweepLineRange::<.*>::events$"
HANDLE, MERGE, SEGAT, YOF = "re:::process_sweep_line_range$", "re:::merge_coincident$", "re:::line_segment$", "re:SweepLine::<.*>::y$"
CALL = "re:ops::function::FnMut::call_mut$"


def run(ctx):
    P = ctx.P
    ctx.rule("every path is added with its tag, and every line, range and event of the sweep is handed on, before the next is asked for")
    ctx.assumption("iterators of the caller give each element once")
    for n in ("from_path", "from_paths_binary"):
        ctx.guard(n, TOP, lambda: ways(ctx, P, n))
    ctx.guard("from_paths", TOP, lambda: paths(ctx, P))
    ctx.guard("from_polylines_binary", TOP, lambda: polylines(ctx, P))
    ctx.guard("from_segments", TOP, lambda: drive(ctx, P, "from_segments"))
    ctx.guard("sweep", CRATE + "sweep::sweep", lambda: drive(ctx, P, "sweep"))


def insts(P, n):
    c = [i for i in P.insts if i["body"] and not i["closure"] and i["name"] == n and i["path"].startswith(CRATE)]
    if not c:
        raise EngineError("%s was not found" % n)
    return c


def is_call(t, pat):
    return isinstance(t, tuple) and t and t[0] == "call" and matches(t[1], pat)


def base(t):
    """What a value was before calls changed it, and the calls, the last one first."""
    out = []
    while t[0] == "after":
        out.append(t[1])
        t = t[3]
    return t, out


# one path, two paths

def ways(ctx, P, n):
    for inst in insts(P, n)[:1]:
        ip, a, outs = ctx.analyse(inst, opaque=["re:Topology::<W>::from_paths$"], keep_rel=True)
        for v, s in outs:
            ok = is_call(v, "re:Topology::<W>::from_paths$") and v[3] is a[-1]
            ctx.ob("%s makes the topology of its paths, with its tolerance" % n, ok, inst, show(v)[:300])
            if not ok:
                continue
            els = listed(v[2])
            if n == "from_path":
                ok = els is not None and len(els) == 1 and ip.project(els[0], ("f", 0, 0), s) is a[0]
                ctx.ob("from_path hands on its path, once", ok, inst, show(v)[:300])
            else:
                ok = els is not None and len(els) == 2
                got = {(ip.project(x, ("f", 0, 0), s), ip.project(x, ("f", 0, 1), s)) for x in els} if ok else set()
                ctx.ob("from_paths_binary tags the first path as the first set, the second as the other", ok and got == {(a[0], T("b", True)), (a[1], T("b", False))}, inst, show(v)[:300])


def listed(t):
    """The elements of a list that is written down, in any order."""
    if t[0] in ("it", "iter", "refs", "agg") and t[1] == "it":
        return listed(t[3]) if t[4] is I(0) else None
    if t[0] == "it":
        return listed(t[1]) if len(t) < 3 or t[2] is I(0) else None
    if t[0] == "array":
        return list(t[1:])
    if t[0] == "agg" and t[1] == "array":
        return list(t[3:])
    return None


# any number of paths

def paths(ctx, P):
    c = insts(P, "from_paths")
    c.sort(key=lambda i: ("Binary" not in i["key"], i["key"]))
    for inst in c:
        ip, a, outs = ctx.analyse(inst, opaque=[ADD, LEN, UPD, INTO, INV], keep_rel=True, pull=True)
        n = {"made": 0, "added": 0}
        lids = set()
        for v, s in outs:
            if not ctx.ob("from_paths answers a topology or an error", v[0] == "agg" and v[1].endswith("result::Result"), inst, show(v)[:200]):
                continue
            if v[2] == 1:
                bad = [x for x in subterms(v) if is_call(x, ADD)]
                ctx.ob("an error is that of a path that could not be added", len(bad) == 1 and s.facts.get(T("discr", bad[0])) == 1 and first(v[3]) is bad[0], inst, show(v)[:200])
                continue
            m = v[3]
            if not ctx.ob("the topology is made of the segments of all paths, with the tolerance asked for", is_call(m, INTO) and m[4] is a[1], inst, show(m)[:300]):
                continue
            n["made"] += 1
            segs, calls = base(m[2])
            l = loop_at(ip, segs)
            tag = ip.project(m[3], ("f", 0, 0), s) if m[3][0] == "agg" else m[3]
            k = loop_at(ip, tag)
            ok = l is not None and k is not None and l[0] == k[0] and calls and all(is_call(x, UPD) or is_call(x, INV) for x in calls)
            if not ctx.ob("segments and tags are those that the paths gave", ok, inst, "%s ... %s" % (show(m[2])[:200], show(m[3])[:200])):
                continue
            ctx.ob("tags are counted from the first segment on", k[3] is T("empty") or k[3][0] in ("empty", "default"), inst, show(k[3])[:200])
            ctx.ob("no path is left out", finished(ip, s, a[0]), inst, facts_show(s)[:400])
            for r in recs_of(ip, l[0], s):
                for b in r.back:
                    n["added"] += 1
                    added(ctx, inst, ip, r, b, l, k, a[0])
        ctx.ob("paths are added one by one", n["made"] > 0 and n["added"] > 0, inst, str(n))


def first(t):
    while t[0] in ("fld", "vf", "down"):
        t = t[1]
    return t


def finished(ip, s, src):
    """The iterator that was handed over has answered that there is nothing left."""
    if any(t[0] == "done" and k is True and t[1] is src for t, k in s.facts.items()):
        return True
    res = [(t[1], k) for t, k in s.facts.items() if t[0] == "discr" and t[1][0] == "call" and t[1][1].endswith("::next")]
    return bool(res) and all(none(k) and source(ip, c) is src for c, k in res)


def source(ip, c):
    """What the iterator that is asked in a call came from."""
    o = origin(ip, unref(c[2]))
    return o[2] if o[0] == "call" and o[1].endswith("::into_iter") else o


def none(k):
    return k == 0 or isinstance(k, frozenset) and 1 in k


def some(k):
    return k == 1 or isinstance(k, frozenset) and 0 in k


def added(ctx, inst, ip, r, b, l, k, src):
    h = ip.read_loc(r.head, (l[1][1], l[2]))
    segs, calls = base(ip.read_loc(b, (l[1][1], l[2])))
    ok = segs is h and len(calls) == 1 and is_call(calls[0], ADD)
    if not ctx.ob("each path is added once", ok, inst, show(ip.read_loc(b, (l[1][1], l[2])))[:300]):
        return
    call = calls[0]
    ctx.ob("only a path that could be added is counted", b.facts.get(T("discr", call)) == 0, inst, facts_show(b)[:300])
    path = call[3]
    item = elem_of(path)
    ctx.ob("paths are taken from the ones handed over, all of them", item is not None and from_start(ip, r, b, item, src), inst, show(path)[:200])
    ctx.ob("paths have to be closed", call[4] is T("b", True), inst, show(call)[:300])
    ctx.ob("what is added is the path that was handed over", item is not None and path is ip.project(item, ("f", 0, 0), b), inst, show(path)[:200])
    was, now = ip.read_loc(r.head, (k[1][1], k[2])), ip.read_loc(b, (k[1][1], k[2]))
    got = filled(ip, b, was, now)
    if ctx.ob("the tags of earlier paths stay, and new ones are added", got is not None, inst, show(now)[:300]):
        S = ip.read_loc(b, (l[1][1], l[2]))
        ctx.ob("there are as many tags as segments", any(is_call(n, LEN) and unref(n[2]) is S for n in got[0]), inst, " ".join(show(n)[:300] for n in got[0]))
        ctx.ob("the segments of a path have the tag that came with it", item is not None and got[1] is ip.project(item, ("f", 0, 1), b), inst, show(got[1])[:200])


def filled(ip, b, was, now):
    """(Terms for the length, value) if a list was filled up with copies of a value, by resize or by a loop that pushes."""
    if now[0] == "resized":
        return ([now[2]], now[3]) if now[1] is was else None
    lp = loop_at(ip, now)
    if not lp or lp[3] is not was:
        return None
    root, path = lp[1][1], lp[2]
    vals, ends = set(), None
    for r in recs_of(ip, lp[0], b):
        h = ip.read_loc(r.head, (root, path))
        for x in r.back:
            els = pushed(ip, r.head, x, root, path)
            if els is None or len(els) != 1:
                return None
            vals.add(els[0])
            # a step is made only below the length that is reached when it ends
            ns = {n for n in lengths(x) if set(int_orders(x, ip.length(h), n)) == {"<"}}
            ends = ns if ends is None else ends & ns
    ends = [n for n in ends or () if "<" not in int_orders(b, ip.length(now), n)]
    return (ends, vals.pop()) if len(vals) == 1 and ends else None


def lengths(s):
    """The lengths asked for that a state knows something about."""
    out, todo, seen = set(), [list(s.iv)], set()
    while todo:
        t = todo.pop()
        if id(t) in seen or not isinstance(t, (tuple, list, frozenset)):
            continue
        seen.add(id(t))
        if isinstance(t, tuple) and t and isinstance(t[0], str) and is_call(t, LEN):
            out.add(t)
        todo.extend(t)
    return out


def from_start(ip, r, b, item, src):
    """An element of the collection, or the next one of its iterator, going through it from the start."""
    if item[0] == "item":
        l = loop_at(ip, item[2])
        return item[1] is src and l is not None and l[0] == r.lid and l[3] is I(0) and after_step(ip, r.lid, item[2], b) is iadd(item[2], I(1))
    return source(ip, first(item)) is src


def elem_of(t):
    """What the iterator gave, of which t is a part."""
    while t[0] == "fld":
        if t[1][0] == "call" and t[1][1].endswith("::next"):
            return t
        t = t[1]
    return t if t[0] == "item" else None


# two sets of polylines

def polylines(ctx, P):
    for inst in insts(P, "from_polylines_binary")[:1]:
        ip, a, outs = ctx.analyse(inst, opaque=[ADDP, LEN, INTO, INV], keep_rel=True)
        for v, s in outs:
            if not ctx.ob("the topology is made of the segments of both sets, with the tolerance asked for", is_call(v, INTO) and v[4] is a[2], inst, show(v)[:300]):
                continue
            segs, calls = base(v[2])
            ok = len(calls) == 2 and all(is_call(x, ADDP) for x in calls) and {calls[0][3], calls[1][3]} == {a[0], a[1]}
            if not ctx.ob("both sets are added, each once", ok, inst, " ".join(show(x)[-100:] for x in calls)):
                continue
            t = ip.project(v[3], ("f", 0, 0), s)
            for call, S in ((calls[0], v[2]), (calls[1], v[2][3])):
                want = T("b", call[3] is a[0])
                ok = t[0] == "resized" and is_call(t[2], LEN) and unref(t[2][2]) is S
                ok = ctx.ob("tags are counted after each set", ok, inst, show(t)[-300:])
                if not ok:
                    break
                ctx.ob("the first set is tagged as the first, the second as the other", t[3] is want, inst, show(t[3]))
                t = t[1]
            else:
                ctx.ob("there are no other tags", t[0] in ("empty", "default"), inst, show(t)[:200])


# the sweep

def drive(ctx, P, name):
    inst = insts(P, name)[0]
    top = name == "from_segments"
    ip, a, outs = ctx.analyse(inst, opaque=[NEW, LINE, RANGE, EVENTS, HANDLE, MERGE, SEGAT, YOF, CALL, LEN, INV], keep_rel=True, pull=True,
                              keep_facts=lambda k: k[0] in ("discr", "done"))
    asks = [LINE, RANGE] + ([] if top else [EVENTS])
    what = ["line", "range"] + ([] if top else ["event list"])
    segs, eps = a[0], a[2] if top else a[1]
    mine = (lambda t: unref(t) is segs) if top else (lambda t: t is segs)
    n = {"rounds": 0}

    def level(e):
        for i, p in enumerate(asks):
            if e[0] == "call" and matches(e[1], p):
                return i
        return None

    def calls(s):
        """What was asked, in order, with the place in the sequence of events."""
        return [(i, level(e), e) for i, e in enumerate(s.ev) if level(e) is not None]

    def answer(s, e):
        """The answer to what was asked in this event."""
        for t, k in s.facts.items():
            if t[0] == "discr" and t[1][0] == "call" and t[1][1] == e[1] and tuple(t[1][2:]) == e[2]:
                return True if some(k) else False if none(k) else None
        return None

    def got_from(t, e):
        """What was given as the answer in this event, and nothing else."""
        f = first(t)
        return f is not t and f[0] == "call" and f[1] == e[1] and tuple(f[2:]) == e[2]

    def emptied(s, q, d):
        """The last question of level d after event q was answered: nothing left."""
        later = [(i, e) for i, l, e in calls(s) if l == d and i > q]
        return bool(later) and answer(s, later[-1][1]) is False

    def all_done(s, q):
        """The events of the last list have all been gone through."""
        return any(t[0] == "done" and k is True and t[1] is not first(t[1]) and is_call(first(t[1]), EVENTS) for t, k in s.facts.items())

    for v, s in outs:
        cs = calls(s)
        tops = [e for i, l, e in cs if l == 0]
        ctx.ob("%s ends only when the sweep has no more lines" % name, bool(tops) and answer(s, tops[-1]) is False and cs[-1][1] == 0, inst, facts_show(s)[-300:])
        made = [e for e in s.ev if e[0] == "call" and matches(e[1], NEW)]
        ctx.ob("%s sweeps over its segments, with its tolerance" % name, len(made) == 1 and mine(made[0][2][0]) and made[0][2][1] is eps, inst, " ".join(show(e)[:200] for e in made))
        if top:
            ret, cs = base(v)
            ok = bool(cs) and any(is_call(x, MERGE) for x in cs) and all(is_call(x, MERGE) or is_call(x, INV) for x in cs)
            ctx.ob("coincident edges are merged at the end", ok, inst, show(v)[:200])
            result(ctx, inst, ip, P, ret, a, s)
    for r in ip.records:
        for b in r.back:
            q = [i for i, e in enumerate(b.ev) if e[0] == "loop" and e[1] == r.lid]
            q = q[-1] if q else None
            if q is None:
                continue
            cs = [(i, l, e) for i, l, e in calls(b) if i > q]
            if not cs:
                if not top:
                    n["rounds"] += one_event(ctx, inst, ip, r, b, name)
                continue
            i, l, e = cs[0]
            n["rounds"] += 1
            got = answer(b, e)
            ctx.ob("%s: a loop goes on only with a %s that was given" % (name, what[l]), got is True, inst, facts_show(b)[-300:])
            for j, m, e2 in cs:
                if m > 0:
                    of = origin(ip, unref(e2[2][0]))
                    ctx.ob("%s: a %s is asked of the %s that was given" % (name, what[m], what[m - 1]), is_call(first(of), asks[m - 1]), inst, show(of)[:200])
            if l + 1 < len(asks):
                ctx.ob("%s: a %s is left only when it has no more of what it is made of" % (name, what[l]), emptied(b, i, l + 1), inst, facts_show(b)[-300:])
                ctx.ob("%s: the next %s is not asked for before" % (name, what[l]), not any(m == l for j, m, _ in cs[1:]), inst, str([m for _, m, _ in cs]))
                if l == 0:
                    for j, m, e2 in cs:
                        if m == 1:
                            ctx.ob("%s: ranges are those of these segments" % name, mine(e2[2][2]), inst, show(e2)[:300])
            elif top:
                done = [(j, x) for j, x in enumerate(b.ev) if j > i and x[0] == "call" and matches(x[1], HANDLE)]
                ok = len(done) == 1 and got_from(done[0][1][2][1], e) and mine(done[0][1][2][2])
                ctx.ob("from_segments: every range is processed, once", ok, inst, " ".join(show(x)[:200] for _, x in done))
            else:
                ctx.ob("sweep: a list of events is left only when all were handed on", all_done(b, i), inst, facts_show(b)[-300:])
    ctx.ob("%s goes through lines and ranges" % name, n["rounds"] >= len(asks) + (0 if top else 1), inst, str(n))


def origin(ip, t):
    """What a value was before loops and calls changed it."""
    while True:
        v, _ = base(t)
        l = loop_at(ip, v)
        if l is None:
            return v
        t = l[3]


def one_event(ctx, inst, ip, r, b, name):
    """A round of the loop over the events of a range."""
    q = max(i for i, e in enumerate(b.ev) if e[0] == "loop" and e[1] == r.lid)
    told = [e for e in b.ev[q + 1:] if e[0] == "call" and matches(e[1], CALL)]
    ctx.ob("sweep: every event is handed to the callback, once", len(told) == 1, inst, " ".join(show(e)[:200] for e in told))
    for e in told:
        arg = e[2][1]
        y, ev = ip.project(arg, ("f", 0, 0), b), ip.project(arg, ("f", 0, 1), b)
        ctx.ob("sweep: events come with the height of their line", is_call(y, YOF) and contains(y, lambda x: is_call(x, LINE)), inst, show(y)[:300])
        ok = ev[0] == "item" and contains(ev[1], lambda x: is_call(x, EVENTS)) and first(ev[1])[0] == "call"
        l = loop_at(ip, ev[2]) if ok else None
        ok = ok and l is not None and l[0] == r.lid and l[3] is I(0) and after_step(ip, r.lid, ev[2], b) is iadd(ev[2], I(1))
        ctx.ob("sweep: the events of a list are handed on in order, from the first on", ok, inst, show(ev)[:300])
    return 1


def result(ctx, inst, ip, P, ret, a, s):
    """The topology keeps what it was made of."""
    get = lambda n: ip.project(ret, ("f", 0, field_index(P, TOP, n)), s)
    for n, want in (("segments", a[0]), ("tag", a[1]), ("eps", a[2])):
        ctx.ob("the topology keeps its %s" % n, origin(ip, get(n)) is want, inst, show(get(n))[:200])
