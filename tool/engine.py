"""Path-sensitive abstract interpretation of the dumped MIR.

The domain: every value is a hash-consed *term* (global value numbering); memory maps storage
roots to terms; a state carries facts - which of the orderings {<,=,>,unordered} are still
possible between two terms, intervals of integer differences, truth of opaque booleans, variants
of enums.  Branches whose facts are decided are pruned, the others split the state (trace
partitioning); states that agree on memory and events are joined again at control-flow merges.
Loops are not unrolled: everything a loop body may change is widened to an unknown of that loop
and the body is interpreted once from there.  Calls into the crate (and into small std functions)
are interpreted in the caller's context, so moving code into a helper does not change a result.
Nothing is executed and no solver is involved.
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class EngineError(Exception):
    pass


class Limit(EngineError):
    pass


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.insts = d["insts"]
        self.items = d["items"]
        self.by_id = {i["id"]: i for i in self.insts}
        self.by_path = {}
        for i in self.insts:
            self.by_path.setdefault(i["path"], []).append(i)
        self._cfg = {}

    def ty(self, t):
        return self.types[t]

    def find(self, path=None, key=None, must=True, pred=None):
        """Instances with a body by path (generic arguments ignored) or exact key."""
        r = [i for i in self.insts if i["body"] and (path is None or i["path"] == path)
             and (key is None or i["key"] == key) and (pred is None or pred(i))]
        if must and not r:
            raise EngineError("anchor not found: %s" % (key or path))
        return r

    def one(self, path=None, key=None, pred=None):
        r = self.find(path, key, True, pred)
        if len(r) > 1:
            raise EngineError("anchor ambiguous: %s: %s" % (path or key, [x["key"] for x in r]))
        return r[0]

    def cfg(self, inst):
        c = self._cfg.get(inst["id"])
        if c is None:
            c = Cfg(inst["body"])
            self._cfg[inst["id"]] = c
        return c


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def place_locals(p):
    r = [p[0]]
    for e in p[1]:
        if e[0] == "i":
            r.append(e[1])
    return r


def op_locals(o):
    return place_locals(o[1]) if o[0] in "cm" else []


def rv_uses(r):
    k = r[0]
    if k in ("use", "repeat"):
        return op_locals(r[1])
    if k == "ref":
        return place_locals(r[2])
    if k == "discr":
        return place_locals(r[1])
    if k in ("cast", "un"):
        return op_locals(r[2])
    if k == "bin":
        return op_locals(r[2]) + op_locals(r[3])
    if k == "agg":
        return [x for o in r[2] for x in op_locals(o)]
    return []


class Cfg:
    def __init__(self, body):
        self.blocks = body["blocks"]
        n = len(self.blocks)
        self.succ = [term_succ(b["t"]) for b in self.blocks]
        # postorder
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = list(reversed(order))
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = [[] for _ in range(n)]
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # blocks from which the function can return
        self.returning = set()
        st = [b for b in self.rpo if self.blocks[b]["t"][0] == "ret"]
        while st:
            b = st.pop()
            if b not in self.returning:
                self.returning.add(b)
                st.extend(self.pred[b])
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(self.pred[x])
                elif self.num[s] <= self.num[b]:
                    raise EngineError("irreducible control flow")
        # liveness; borrowed locals are always live
        self.borrowed = set()
        use, df = [set() for _ in range(n)], [set() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            u, d = use[bi], df[bi]

            def touch(l):
                if l not in d:
                    u.add(l)
            for s in b["s"]:
                if s[0] == "=":
                    for l in rv_uses(s[2]):
                        touch(l)
                    if s[2][0] == "ref" and "*" not in s[2][2][1]:
                        self.borrowed.add(s[2][2][0])
                    if s[1][1]:
                        for l in place_locals(s[1]):
                            touch(l)
                    else:
                        d.add(s[1][0])
                else:
                    for l in place_locals(s[1]):
                        touch(l)
            t = b["t"]
            if t[0] == "switch":
                for l in op_locals(t[1]):
                    touch(l)
            elif t[0] == "call":
                for o in [t[1]] + t[2]:
                    for l in op_locals(o):
                        touch(l)
                if t[3][1]:
                    for l in place_locals(t[3]):
                        touch(l)
                else:
                    d.add(t[3][0])
            elif t[0] == "assert":
                for l in op_locals(t[1]):
                    touch(l)
            elif t[0] == "drop":
                for l in place_locals(t[1])[1:]:
                    touch(l)
            elif t[0] == "ret":
                touch(0)
        live = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - df[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live

    def _inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]


# ------------------------------------------------------------------ terms

_intern = {}


def T(*xs):
    """Hash-consed term."""
    r = _intern.get(xs)
    if r is None:
        _intern[xs] = r = Term(xs)
    return r


class Term(tuple):
    """A tuple with identity semantics for equality after interning."""
    __slots__ = ()
    _h = {}

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)


UNIT = T("agg", "tuple", 0)
TRUE = T("b", True)
FALSE = T("b", False)


def I(n):
    return T("i", n)


def F(x):
    return T("f", repr(float(x)))


def B(b):
    return TRUE if b else FALSE


def tup(*xs):
    return T("agg", "tuple", 0, *xs)


def short(p):
    p = str(p)
    out, word = [], ""
    for ch in p:
        if ch.isalnum() or ch == "_" or ch == ":":
            word += ch
        else:
            out.append(word.split("::")[-1] if "::" in word else word)
            out.append(ch)
            word = ""
    out.append(word.split("::")[-1] if "::" in word else word)
    return "".join(out)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return short(t)
    if not t:
        return "()"
    if depth > 40:
        return "..."
    s = lambda x: show(x, depth + 1)
    k = t[0]
    if k == "i":
        return str(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "f":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "sym":
        return str(t[1])
    if k == "agg":
        n = short(t[1]) if isinstance(t[1], str) else s(t[1])
        return "%s%s(%s)" % ("" if n == "tuple" else n, "#%d" % t[2] if t[2] else "", ", ".join(s(x) for x in t[3:]))
    if k == "fld":
        return "%s.%s%s" % (s(t[1]), "%d:" % t[2] if t[2] else "", t[3])
    if k == "sel":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "*":
        return "*%s" % s(t[1])
    if k == "lin":
        return "(" + " + ".join(["%s*%s" % (c, s(x)) if c != 1 else s(x) for x, c in t[2]] + ([str(t[1])] if t[1] else [])) + ")"
    if k == "upd":
        return "%s{%s:=%s}" % (s(t[1]), t[2][2], s(t[3]))
    if k == "loop":
        if len(t) == 2:
            return "loop%s" % t[1]
        return "L%s<%s>" % (t[1], s(t[2]) if isinstance(t[2], tuple) else t[2])
    if k == "ref":
        return "&%s" % (show_loc(t[1], t[2]))
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))


def show_loc(root, path):
    r = {"L": "l", "P": "*", "H": "heap", "K": "const"}.get(root[0], root[0]) if isinstance(root, tuple) else str(root)
    if root[0] == "P":
        r = "*" + show(root[1])
    elif root[0] == "L":
        r = "_%s@%s" % (root[2], root[1])
    elif root[0] == "H":
        r = "heap%s" % (root[1],)
    elif root[0] == "K":
        r = "const(%s)" % show(root[1])
    for e in path:
        r += ".%s" % (show(e) if isinstance(e, tuple) else e)
    return r


def subterms(t, seen=None):
    """All distinct subterms (pre-order)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
        st.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---- integer linear forms: ("lin", const, ((atom, coef), ...)) sorted by intern order

_atom_no = {}


def atom_no(t):
    n = _atom_no.get(t)
    if n is None:
        n = _atom_no[t] = len(_atom_no)
    return n


def lin_of(t):
    if t[0] == "i":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return T("lin", c, tuple(sorted(m.items(), key=lambda kv: atom_no(kv[0]))))


def iadd(a, b, sign=1):
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    m = dict(ma)
    for k, v in mb.items():
        m[k] = m.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, m)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    if a[0] == "i":
        a, b = b, a
    if b[0] == "i":
        c, m = lin_of(a)
        return mk_lin(c * b[1], {k: v * b[1] for k, v in m.items()})
    return T("imul", *sorted((a, b), key=atom_no))


def upd_chain(v):
    """({(variant, field): value}, base) of a chain of single-field updates."""
    c = {}
    while v[0] == "upd":
        c.setdefault((v[2][1], v[2][2]), v[3])
        v = v[1]
    return c, v


# ------------------------------------------------------------------ states

class State:
    __slots__ = ("mem", "facts", "rel", "iv", "ev", "nheap", "via")

    def __init__(self):
        self.mem = {}
        self.facts = {}      # term -> True/False or variant discriminant (int)
        self.rel = {}        # (a, b) -> frozenset of '<=>u'   (non-integer comparisons)
        self.iv = {}         # difference form -> (lo, hi, frozenset(excluded))
        self.ev = ()         # events, in order
        self.via = frozenset()   # numbers of the loop records passed through on the way here
        self.nheap = 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.iv = dict(self.iv)
        s.ev = self.ev
        s.via = self.via
        s.nheap = self.nheap
        return s

    def key(self):
        return (tuple(sorted(((hash_root(k), v) for k, v in self.mem.items()), key=lambda kv: str(kv[0]))), self.ev)


def hash_root(r):
    return (r[0], id(r[1]) if isinstance(r[1], tuple) else r[1]) + tuple(r[2:])


def both_exclude(a, b):
    """Values within the hull of two ranges that neither has."""
    def out(v, r):
        return v in r[2] or r[0] is not None and v < r[0] or r[1] is not None and v > r[1]
    c = set(a[2] | b[2])
    for x, y in ((a, b), (b, a)):
        if x[1] is not None and y[0] is not None and 1 < y[0] - x[1] <= 8:
            c.update(range(x[1] + 1, y[0]))
    return frozenset(v for v in c if out(v, a) and out(v, b) and not all(r[0] is not None and v < r[0] for r in (a, b)) and not all(r[1] is not None and v > r[1] for r in (a, b)))


def merge_states(items, keep=(False, None)):
    """items: list of (extra, State); join those with equal memory, events and extra, and, with
    keep = (True, ..), equal non-integer comparisons, with keep = (.., test) equal facts about the
    terms and differences that pass the test."""
    krel, kfact = keep
    groups = {}
    out = []
    for x, s in items:
        k = (x, frozenset((r, v) for r, v in s.mem.items()), s.ev, frozenset(s.rel.items()) if krel else None,
             (frozenset((t, v) for t, v in s.facts.items() if kfact(t)), frozenset((t, v) for t, v in s.iv.items() if kfact(t))) if kfact else None)
        g = groups.get(k)
        if g is None:
            groups[k] = [x, s, False]
            out.append(groups[k])
        else:
            t = g[1]
            if not g[2]:
                t = t.copy()
                g[1], g[2] = t, True
            t.facts = {k2: v for k2, v in t.facts.items()
                       if k2 in s.facts and type(s.facts[k2]) is type(v) and s.facts[k2] == v}
            t.rel = {k2: v | s.rel[k2] for k2, v in t.rel.items() if k2 in s.rel}
            niv = {}
            for k2, (lo, hi, ex) in t.iv.items():
                o = s.iv.get(k2)
                if o is None:
                    continue
                lo2 = None if lo is None or o[0] is None else min(lo, o[0])
                hi2 = None if hi is None or o[1] is None else max(hi, o[1])
                ex2 = ex & o[2] if ex is o[2] else both_exclude((lo, hi, ex), o)
                if lo2 is not None or hi2 is not None or ex2:
                    niv[k2] = (lo2, hi2, ex2)
            t.iv = niv
            t.nheap = max(t.nheap, s.nheap)
            t.via = t.via | s.via
    return [(g[0], g[1]) for g in out]


# ------------------------------------------------------------------ comparisons as facts

ALL4 = frozenset("<=>u")
ALL3 = frozenset("<=>")
FLIP = {"<": ">", ">": "<", "=": "=", "u": "u"}


def diff_key(a, b):
    """Canonical (form, const, sign): a - b = sign*form + const."""
    c, m = lin_of(isub(a, b))
    if not m:
        return None, c, 1
    items = sorted(m.items(), key=lambda kv: atom_no(kv[0]))
    sg = 1 if items[0][1] > 0 else -1
    form = T("diff", tuple((k, v * sg) for k, v in items))
    return form, c, sg


def iv_of(st, form):
    r = st.iv.get(form)
    if r is None:
        # lengths and lone unsigned atoms are non-negative
        items = form[1]
        if len(items) == 1 and items[0][1] == 1 and nonneg(items[0][0]):
            return (0, None, frozenset())
        return (None, None, frozenset())
    lo, hi, ex = r
    items = form[1]
    if len(items) == 1 and items[0][1] == 1 and nonneg(items[0][0]):
        lo = 0 if lo is None else max(lo, 0)
    return lo, hi, ex


def nonneg(t):
    return t[0] in ("len", "usize") or (t[0] == "sym" and len(t) > 3 and t[3] == "usize")


def int_orders(st, a, b):
    """Possible orderings of integers a, b."""
    form, c, sg = diff_key(a, b)
    if form is None:
        return frozenset("<" if c < 0 else ">" if c > 0 else "=")
    lo, hi, ex = iv_of(st, form)
    # a-b = sg*f + c
    if sg < 0:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    lo = None if lo is None else lo + c
    hi = None if hi is None else hi + c
    zero = -c * sg  # value of form making difference zero
    r = set()
    if lo is None or lo < 0:
        r.add("<")
    if hi is None or hi > 0:
        r.add(">")
    if (lo is None or lo <= 0) and (hi is None or hi >= 0) and zero not in ex:
        r.add("=")
    return frozenset(r)


def int_restrict(st, a, b, orders):
    """State with a ? b restricted to the given orderings (None if impossible)."""
    cur = int_orders(st, a, b)
    new = cur & orders
    if not new:
        return None
    if new == cur:
        return st
    form, c, sg = diff_key(a, b)
    lo, hi, ex = iv_of(st, form)
    # work on d = a-b: bounds in d, then back
    if sg > 0:
        dlo = None if lo is None else lo + c
        dhi = None if hi is None else hi + c
    else:
        dlo = None if hi is None else -hi + c
        dhi = None if lo is None else -lo + c
    if "<" not in new:
        b0 = 0 if "=" in new else 1
        dlo = b0 if dlo is None else max(dlo, b0)
    if ">" not in new:
        b0 = 0 if "=" in new else -1
        dhi = b0 if dhi is None else min(dhi, b0)
    if "=" not in new:
        ex = ex | {-c * sg}
    if dlo is not None and dhi is not None and dlo > dhi:
        return None
    if sg > 0:
        lo = None if dlo is None else dlo - c
        hi = None if dhi is None else dhi - c
    else:
        lo = None if dhi is None else -(dhi - c)
        hi = None if dlo is None else -(dlo - c)
    while lo is not None and lo in ex:
        lo += 1
    while hi is not None and hi in ex:
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return None
    s = st.copy()
    s.iv[form] = (lo, hi, ex)
    return s


def rel_key(a, b):
    if atom_no(a) <= atom_no(b):
        return (a, b), False
    return (b, a), True


def fconst(t):
    return float(t[1]) if t[0] == "f" else None


def flt_orders(st, a, b, u=True):
    ca, cb = fconst(a), fconst(b)
    if ca is not None and cb is not None:
        if ca != ca or cb != cb:
            return frozenset("u")
        return frozenset("<" if ca < cb else ">" if ca > cb else "=")
    k, fl = rel_key(a, b)
    r = st.rel.get(k)
    if r is None:
        if a is b:
            return frozenset("=u") if u else frozenset("=")
        if not u:
            return ALL3
        na, nb = is_nan(st, a), is_nan(st, b)
        return frozenset("u") if na or nb else ALL3 if na is False and nb is False else ALL4
    if fl:
        r = frozenset(FLIP[x] for x in r)
    if u and a is not b and "u" in r and len(r) > 1:
        na, nb = is_nan(st, a), is_nan(st, b)
        r = frozenset("u") if na or nb else r - {"u"} if na is False and nb is False else r
    return r


def is_nan(st, a):
    """What the state knows about it, None for nothing."""
    c = fconst(a)
    if c is not None:
        return c != c
    r = st.rel.get(rel_key(a, a)[0])
    return None if r is None or len(r) > 1 else "u" in r


def flt_restrict(st, a, b, orders, u=True):
    cur = flt_orders(st, a, b, u)
    new = cur & orders
    if not new:
        return None
    if new == cur:
        return st
    k, fl = rel_key(a, b)
    s = st.copy()
    s.rel[k] = frozenset(FLIP[x] for x in new) if fl else new
    return s


CMP = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "=", "Ne": "<>u"}
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}


def cmp_term(op, kind, a, b):
    """kind: 'i' integers, 'f' floats (possibly unordered), 'o' opaque total order/equality."""
    if op in ("Gt", "Ge"):
        op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
    if op in ("Eq", "Ne"):
        for x, y in ((a, b), (b, a)):
            if x[0] == "discr" and y[0] == "i":
                t = T("isdiscr", x, y[1])
                return t if op == "Eq" else T("not", t)
        if atom_no(a) > atom_no(b):
            a, b = b, a
    return T("cmp", op, kind, a, b)


def decide(st, t):
    """True/False/None for a boolean term."""
    k = t[0]
    if k == "b":
        return t[1]
    if k == "not":
        r = decide(st, t[1])
        return None if r is None else not r
    if k == "and":
        a, b = decide(st, t[1]), decide(st, t[2])
        if a is False or b is False:
            return False
        if a and b:
            return True
    if k == "or":
        a, b = decide(st, t[1]), decide(st, t[2])
        if a or b:
            return True
        if a is False and b is False:
            return False
    if k == "xor":
        a, b = decide(st, t[1]), decide(st, t[2])
        if a is not None and b is not None:
            return a != b
    if k == "cmp":
        _, op, kind, a, b = t
        o = int_orders(st, a, b) if kind == "i" else flt_orders(st, a, b, kind == "f")
        want = frozenset(CMP[op])
        if o <= want:
            return True
        if not (o & want):
            return False
        return None
    if k == "isdiscr":
        v = st.facts.get(t[1])
        if isinstance(v, int) and not isinstance(v, bool):
            return v == t[2]
        if isinstance(v, frozenset) and t[2] in v:
            return False
    v = st.facts.get(t)
    return v if isinstance(v, bool) else None


def assume(st, t, val):
    """All states in which boolean term t has the given value."""
    d = decide(st, t)
    if d is not None:
        return [st] if d == val else []
    k = t[0]
    if k == "not":
        return assume(st, t[1], not val)
    if k == "and":
        if val:
            return [s2 for s1 in assume(st, t[1], True) for s2 in assume(s1, t[2], True)]
        return assume(st, t[1], False) + [s2 for s1 in assume(st, t[1], True) for s2 in assume(s1, t[2], False)]
    if k == "or":
        if not val:
            return [s2 for s1 in assume(st, t[1], False) for s2 in assume(s1, t[2], False)]
        return assume(st, t[1], True) + [s2 for s1 in assume(st, t[1], False) for s2 in assume(s1, t[2], True)]
    if k == "xor":
        out = []
        for x in (False, True):
            for s1 in assume(st, t[1], x):
                out += assume(s1, t[2], x != val)
        return out
    if k == "cmp":
        _, op, kind, a, b = t
        want = frozenset(CMP[op])
        if not val:
            want = ALL4 - want
        r = int_restrict(st, a, b, want) if kind == "i" else flt_restrict(st, a, b, want, kind == "f")
        return [r] if r is not None else []
    if k == "isdiscr":
        s = st.copy()
        if val:
            s.facts[t[1]] = t[2]
        else:
            old = s.facts.get(t[1])
            s.facts[t[1]] = (old if isinstance(old, frozenset) else frozenset()) | {t[2]}
        return [s]
    s = st.copy()
    s.facts[t] = val
    return [s]


# ------------------------------------------------------------------ interpreter

class Frame:
    __slots__ = ("inst", "fid", "depth", "cfg", "stack")

    def __init__(self, inst, fid, depth, cfg, stack):
        self.inst, self.fid, self.depth, self.cfg, self.stack = inst, fid, depth, cfg, stack


class Rec:
    """A loop at its fixpoint: state before, generalised state at the head, states at the back edges
    and where it is left."""
    __slots__ = ("lid", "fn", "pre", "head", "back", "mods", "exit", "no")
    count = 0

    def __init__(self, lid, fn, pre, head, back, mods, exit=()):
        Rec.count += 1
        self.no = Rec.count
        self.lid, self.fn, self.pre, self.head, self.back, self.mods, self.exit = lid, fn, pre, head, back, mods, exit


class Interp:
    """One analysis run.  Options:
    opaque(path, inst) -> True to keep a call opaque; model(self, name, ...) may be extended."""

    def __init__(self, prog, opaque=None, max_depth=40, max_states=4000, models=None, watch=None,
                 quiet_calls=None, keep_rel=False, keep_facts=None, pull=False, bulk=False):
        self.p = prog
        self.bulk = bulk       # lists of lists: what is appended or collected as a whole is
        self.pull = pull       # go through the crate's own iterators element by element
        self.keep_rel = (keep_rel, keep_facts)    # do not join states that differ in non-integer comparisons
        self.opaque = opaque or (lambda path, inst: False)
        self.max_depth = max_depth
        self.max_states = max_states
        self.fids = {}
        self.records = []      # completed loops: Rec, inner ones before the loop around them
        self.loop_fn = {}
        self.steps = 0
        self.analysed = set()
        self.unmodelled = {}
        self.extra_models = models or {}
        self.watch = watch or (lambda path: True)
        self.panics = []
        self.variants = {}      # value -> what may say which variant of an enum it is
        self.left_out = {}     # where filters leave elements out: {(source, site): [states]}
        self.el_skip, self.el_end = [], []

    # -------- frames / roots

    def fid(self, *key):
        v = self.fids.get(key)
        if v is None:
            v = self.fids[key] = len(self.fids)
        return v

    # -------- types

    def deref_ty(self, t):
        if t is None:
            return None
        ty = self.p.types[t]
        if ty["k"] in ("ref", "ptr"):
            return ty["t"]
        return None

    def place_type(self, fr, place):
        t = fr.inst["body"]["locals"][place[0]]
        for e in place[1]:
            t = self.proj_type(t, e)
        return t

    def proj_type(self, t, e):
        if e == "*":
            return self.deref_ty(t)
        if e[0] == "f":
            return e[2]
        if e[0] == "d":
            return t
        if e[0] in ("i", "ci"):
            if t is None:
                return None
            ty = self.p.types[t]
            return ty.get("t") if ty["k"] in ("array", "slice") else None
        return t

    def variant_fields(self, t, var):
        ty = self.p.types[t] if t is not None else None
        if ty is None:
            return None
        if ty["k"] == "adt":
            if ty["ak"] == "union":
                return None
            return [f[1] for f in ty["vs"][var]["fs"]]
        if ty["k"] == "tuple":
            return ty["ts"]
        if ty["k"] == "closure":
            return ty["up"]
        return None

    def is_enum(self, t):
        ty = self.p.types[t]
        return ty["k"] == "adt" and ty["ak"] == "enum"

    def agg_name(self, t):
        ty = self.p.types[t]
        if ty["k"] == "adt":
            return ty["path"]
        return ty["k"]

    # -------- reading and writing values along paths

    def project(self, v, e, st):
        """v projected by a resolved path element."""
        k = e[0]
        if k == "f":
            var, i = e[1], e[2]
            if v[0] == "agg":
                if v[1] == "array":
                    return T("fld", v, var, i)
                if 3 + i < len(v) and (v[2] == var):
                    return v[3 + i]
                return T("undef", v, var, i)
            if v[0] == "ref":
                return v  # Box/NonNull wrappers around a reference
            while v[0] == "upd" and v[2][0] == "f":
                if v[2][1] == var and v[2][2] == i:
                    return v[3]
                v = v[1]
                if v[0] == "agg":
                    return self.project(v, e, st)
            return T("fld", v, var, i)
        if k == "idx":
            return self.select(v, e[1], st)
        if k == "slc":
            return self.slice_of(v, e[1], e[2], st)
        if k == "cell":
            return v
        raise EngineError("project %r" % (e,))

    def slice_of(self, v, a, b, st):
        if v[0] == "agg" and v[1] == "array" and a[0] == "i" and b is not None and b[0] == "i":
            return T("agg", "array", 0, *v[3 + a[1]:3 + b[1]])
        return T("slice", v, a, b)

    def select(self, v, i, st):
        if v[0] == "agg" and v[1] == "array" and i[0] == "i" and 0 <= i[1] < len(v) - 3:
            return v[3 + i[1]]
        if v[0] == "agg" and v[1] == "array" and len(v) == 4:
            return v[3]     # any index but 0 has been refused
        if v[0] == "store":
            o = int_orders(st, v[2], i)
            if o == frozenset("="):
                return v[3]
            if "=" not in o:
                return self.select(v[1], i, st)
            return T("sel", v, i)
        if v[0] == "push":
            o = int_orders(st, self.length(v[1]), i)
            if o == frozenset("="):
                return v[2]
            if "=" not in o:
                return self.select(v[1], i, st)
            return T("sel", v, i)
        if v[0] == "pushfront":
            o = int_orders(st, i, I(0))
            if o == frozenset("="):
                return v[2]
            if "=" not in o:
                return self.select(v[1], isub(i, I(1)), st)
            return T("sel", v, i)
        if v[0] == "repeat":
            return v[1]
        if v[0] == "slice":
            return self.select(v[1], iadd(v[2], i), st)
        return T("sel", v, i)

    def length(self, v):
        if v[0] == "agg" and v[1] == "array":
            return I(len(v) - 3)
        if v[0] == "store":
            return self.length(v[1])
        if v[0] in ("push", "pushfront"):
            return iadd(self.length(v[1]), I(1))
        if v[0] == "resized":
            return v[2]
        if v[0] == "empty":
            return I(0)
        if v[0] in ("sorted", "reversed", "clonecoll"):
            return self.length(v[1])
        if v[0] == "repeat":
            return v[2]
        if v[0] == "slice" and v[3] is not None:
            return isub(v[3], v[2])
        if v[0] == "str":
            return I(len(v[1].encode()))
        if self.bulk and v[0] == "extend":
            return iadd(self.length(v[1]), self.length(v[2]))
        if self.bulk and v[0] in ("insert", "remove"):
            return iadd(self.length(v[1]), I(1 if v[0] == "insert" else -1))
        return T("len", v)

    def get_root(self, st, root, ty=None):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "P":
            v = T("*", root[1])
        elif root[0] == "K":
            v = root[1]
        elif root[0] == "L":
            v = T("undef", root[1], root[2])
        else:
            v = T("undef", *root)
        return v

    def read_loc(self, st, loc):
        root, path = loc
        v = self.get_root(st, root)
        for e in path:
            v = self.project(v, e, st)
        return v

    def update(self, v, path, new, tys, st):
        """v with the part at path replaced; tys = type of v and along the path (may be None)."""
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            var, i = e[1], e[2]
            if v[0] == "agg" and v[2] == var and v[1] != "array":
                fs = list(v[3:])
                while len(fs) <= i:
                    fs.append(T("undef", v, var, len(fs)))
                fs[i] = self.update(fs[i], path[1:], new, tys[1:], st)
                return T("agg", v[1], v[2], *fs)
            t = tys[0]
            n = None
            if t is not None:
                f = self.variant_fields(t, var)
                n = len(f) if f is not None else None
            if n is None:
                new = self.update(self.project(v, e, st), path[1:], new, tys[1:], st)
                chain = []
                while v[0] == "upd":
                    if (v[2][1], v[2][2]) != (var, i):
                        chain.append(v)
                    v = v[1]
                chain.append(T("upd", v, T("f", var, i), new))
                if new is self.project(v, e, st):
                    chain.pop()
                items = sorted({(c[2][1], c[2][2]): c for c in reversed(chain)}.values(), key=lambda c: (c[2][1], c[2][2]))
                for c in items:
                    v = T("upd", v, c[2], c[3])
                return v
            fs = [self.project(v, ("f", var, j), None) if v[0] != "undef" else T("undef", v, var, j) for j in range(n)]
            fs[i] = self.update(fs[i], path[1:], new, tys[1:], st)
            return T("agg", self.agg_name(t), var, *fs)
        if e[0] == "idx":
            i = e[1]
            inner = self.update(self.select(v, i, st), path[1:], new, tys[1:], st)
            return self.store(v, i, inner, st)
        if e[0] == "cell":
            return self.update(v, path[1:], new, tys[1:], st)
        if e[0] == "slc":
            inner = self.update(self.project(v, e, st), path[1:], new, tys[1:], st)
            if inner[0] == "store" and inner[1] is self.project(v, e, st):
                return self.store(v, iadd(e[1], inner[2]), inner[3], st)
            return T("splice", v, e[1], e[2] if e[2] is not None else T("end"), inner)
        raise EngineError("update %r" % (e,))

    def store(self, v, i, x, st):
        if v[0] == "agg" and v[1] == "array" and i[0] == "i" and 0 <= i[1] < len(v) - 3:
            fs = list(v[3:])
            fs[i[1]] = x
            return T("agg", "array", 0, *fs)
        if v[0] == "store" and int_orders(st, v[2], i) == frozenset("="):
            return T("store", v[1], v[2], x)
        if v[0] == "push":
            o = int_orders(st, self.length(v[1]), i)
            if o == frozenset("="):
                return T("push", v[1], x)
            if "=" not in o:
                return T("push", self.store(v[1], i, x, st), v[2])
        if self.select(v, i, st) is x:
            return v
        return T("store", v, i, x)

    def write_loc(self, st, loc, new, tys=None):
        root, path = loc
        v = self.get_root(st, root)
        if tys is None:
            tys = [None] * (len(path) + 1)
        nv = self.update(v, path, new, tys, st)
        st.mem[root] = nv

    # -------- places

    def resolve(self, fr, st, place):
        """(location, types along the location's path) of a MIR place."""
        root = ("L", fr.fid, place[0])
        path = ()
        t = fr.inst["body"]["locals"][place[0]]
        tys = [t]
        var = 0
        for e in place[1]:
            if e == "*":
                v = self.read_loc(st, (root, path))
                t = self.deref_ty(t)
                root, path = self.target(v)
                # types along an existing path are unknown except the end
                tys = [None] * len(path) + [t]
                var = 0
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "f":
                ty = self.p.types[t] if t is not None else None
                path = path + (("f", var, e[1]),)
                t = e[2]
                tys = tys + [t]
                var = 0
            elif e[0] == "i":
                i = self.read_loc(st, (("L", fr.fid, e[1]), ()))
                path = path + (("idx", i),)
                t = self.proj_type(t, e)
                tys = tys + [t]
            elif e[0] == "ci":
                if e[2]:
                    base = self.read_loc(st, (root, path))
                    i = isub(self.length(base), I(e[1]))
                else:
                    i = I(e[1])
                path = path + (("idx", i),)
                t = self.proj_type(t, e)
                tys = tys + [t]
            elif e[0] == "sub":
                base = self.read_loc(st, (root, path))
                b = isub(self.length(base), I(e[2])) if e[3] else I(e[2])
                path = path + (("slc", I(e[1]), b),)
                tys = tys + [t]
            else:
                pass
        return (root, path), tys

    def target(self, v):
        """Location a reference value points to."""
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] == "agg" and len(v) == 4:  # Box/Unique/NonNull/newtype around a pointer
            return self.target(v[3])
        return ("P", v), ()

    def mkref(self, loc):
        root, path = loc
        if root[0] == "P" and not path:
            return root[1]
        return T("ref", root, path)

    # -------- operands and rvalues

    def const(self, c):
        if "fn" in c:
            return T("fn", c["fn"]["id"] if c["fn"]["id"] is not None else -1, c["fn"]["rpath"] or c["fn"]["path"])
        if "b" in c:
            return B(c["b"])
        if "i" in c:
            return I(int(c["i"]))
        if "f" in c:
            return F(float(c["f"].replace("inf", "inf")))
        if "str" in c:
            return T("str", c["str"])
        if "agg" in c:
            ty = self.p.types[c["t"]]
            name = ty["path"] if ty["k"] == "adt" else ("array" if ty["k"] == "array" else "tuple")
            return T("agg", name, c.get("var", 0), *[self.const(x) for x in c["agg"]])
        if "ref" in c:
            return T("ref", ("K", self.const(c["ref"])), ())
        if "z" in c:
            ty = self.p.types[c["t"]]
            if ty["k"] == "closure":
                return T("closure", ty["path"])
            if ty["k"] == "adt":
                return T("agg", ty["path"], 0)
            return UNIT
        return T("konst", c.get("name") or c.get("op"), c["t"])

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(o[1])
        loc, _ = self.resolve(fr, st, o[1])
        return self.read_loc(st, loc)

    def op_type(self, fr, o):
        if o[0] == "k":
            return o[1]["t"]
        return self.place_type(fr, o[1])

    def num_kind(self, t):
        if t is None:
            return "o"
        k = self.p.types[t]["k"]
        return {"int": "i", "uint": "i", "char": "i", "float": "f", "bool": "bool"}.get(k, "o")

    def binop(self, op, a, b, kind):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op in CMP:
            if kind == "bool":
                if op == "Eq":
                    return self.bnot(self.bxor(a, b))
                if op == "Ne":
                    return self.bxor(a, b)
                return T("cmp", op, "o", a, b)
            t = cmp_term(op, kind, a, b)
            d = decide(State(), t)
            return t if d is None else B(d)
        if op == "Cmp":
            return T("ord", kind, a, b)
        if kind == "i":
            if op == "Add":
                return iadd(a, b)
            if op == "Sub":
                return isub(a, b)
            if op == "Mul":
                return imul(a, b)
            if a[0] == "i" and b[0] == "i":
                x, y = a[1], b[1]
                if op == "BitAnd":
                    return I(x & y)
                if op == "BitOr":
                    return I(x | y)
                if op == "BitXor":
                    return I(x ^ y)
                if op == "Shl":
                    return I(x << y)
                if op == "Shr":
                    return I(x >> y)
                if op == "Div" and y:
                    q = abs(x) // abs(y)
                    return I(q if (x < 0) == (y < 0) else -q)
                if op == "Rem" and y:
                    r = abs(x) % abs(y)
                    return I(-r if x < 0 else r)
            return T("int" + op, a, b)
        if kind == "f":
            return self.fop(op, a, b)
        if kind == "bool":
            if op == "BitAnd":
                return self.band(a, b)
            if op == "BitOr":
                return self.bor(a, b)
            if op == "BitXor":
                return self.bxor(a, b)
        return T("op" + op, a, b)

    def band(self, a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE or a is b:
            return a
        return T("and", a, b)

    def bor(self, a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE or a is b:
            return a
        return T("or", a, b)

    def bxor(self, a, b):
        if a[0] == "b" and b[0] == "b":
            return B(a[1] != b[1])
        if a[0] == "b":
            return self.bnot(b) if a[1] else b
        if b[0] == "b":
            return self.bnot(a) if b[1] else a
        if a is b:
            return FALSE
        return T("xor", a, b)

    def bnot(self, a):
        if a[0] == "b":
            return B(not a[1])
        if a[0] == "not":
            return a[1]
        if a[0] == "cmp" and a[2] == "i":
            return cmp_term(NEG[a[1]], "i", a[3], a[4])
        if a[0] == "cmp" and a[1] in ("Eq", "Ne"):
            return T("cmp", NEG[a[1]], a[2], a[3], a[4])
        return T("not", a)

    def fop(self, op, a, b):
        ca, cb = fconst(a), fconst(b)
        if ca is not None and cb is not None:
            try:
                r = {"Add": ca + cb, "Sub": ca - cb, "Mul": ca * cb,
                     "Div": ca / cb if cb else None}.get(op)
            except OverflowError:
                r = None
            if r is not None:
                return F(r)
        if op in ("Add", "Mul") and atom_no(a) > atom_no(b):
            a, b = b, a
        return T("f" + op.lower(), a, b)

    def rvalue(self, fr, st, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            loc, _ = self.resolve(fr, st, r[2])
            return self.mkref(loc)
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            kind = self.num_kind(self.op_type(fr, r[2]))
            v = self.binop(r[1], a, b, kind)
            if r[1].endswith("WithOverflow"):
                return tup(v, FALSE)
            return v
        if k == "un":
            a = self.operand(fr, st, r[2])
            kind = self.num_kind(self.op_type(fr, r[2]))
            if r[1] == "Not":
                return self.bnot(a) if kind == "bool" else T("intNot", a)
            if r[1] == "Neg":
                if kind == "i":
                    return imul(a, I(-1))
                c = fconst(a)
                if c is not None:
                    return F(-c)
                if a[0] == "fneg":
                    return a[1]
                return T("fneg", a)
            if r[1] == "PtrMetadata":
                loc = self.target(a)
                return self.length(self.read_loc(st, loc))
            return T("un" + r[1], a)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            src, dst = self.op_type(fr, r[2]), r[3]
            kd = self.p.types[dst]["k"]
            ks = self.p.types[src]["k"] if src is not None else None
            if r[1] in ("IntToInt",):
                if v[0] == "b":
                    return I(1 if v[1] else 0)
                if ks == "bool":
                    return T("bool2int", v)
                return v
            if r[1] == "IntToFloat":
                if v[0] == "i":
                    return F(float(v[1]))
                return T("i2f", v)
            if r[1] in ("FloatToInt",):
                return T("f2i", v)
            if "ReifyFnPointer" in r[1] or "ClosureFnPointer" in r[1]:
                return v
            return v  # pointer casts, unsizing, transmutes keep the term
        if k == "discr":
            loc, _ = self.resolve(fr, st, r[1])
            return self.discr(self.read_loc(st, loc), self.place_type(fr, r[1]))
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return tup(*ops)
            if kk[0] == "array":
                return T("agg", "array", 0, *ops)
            if kk[0] == "adt":
                if kk[3] is not None:
                    return T("union", kk[3], *ops)
                return T("agg", self.agg_name(kk[1]), kk[2], *ops)
            if kk[0] == "closure":
                return T("agg", T("closure", kk[2], kk[1]), 0, *ops)
            return T("rawagg", *ops)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            if r[2] is not None and r[2] <= 16:
                return T("agg", "array", 0, *([v] * r[2]))
            return T("repeat", v, I(r[2]) if r[2] is not None else T("unknown"))
        return T("rv", k)

    def discr(self, v, t):
        ty = self.p.types[t] if t is not None else None
        if v[0] == "agg" and ty is not None and ty["k"] == "adt":
            if ty["path"] == "core::cmp::Ordering":
                return I(v[2] - 1)
            return I(int(ty["vs"][v[2]]["d"]))
        if v[0] == "ord":
            return v
        if ty is not None and ty["k"] == "adt" and ty.get("ak") == "enum":
            self.variants[v] = frozenset(int(x["d"]) for x in ty["vs"])
        return T("discr", v)

    # -------- running a function

    def run(self, inst, args, st=None):
        """Outcomes [(value, state)] of calling inst with the given argument terms."""
        st = st or State()
        return self.call_body(inst, args, st, ("top", inst["id"]), 0, ())

    def sym_args(self, inst, names=None):
        b = inst["body"]
        out = []
        nm = {}
        for n, pl in b["names"]:
            if not pl[1] and 1 <= pl[0] <= b["argc"]:
                nm.setdefault(pl[0], n)
        for i in range(1, b["argc"] + 1):
            n = nm.get(i, "arg%d" % i)
            if names and i - 1 < len(names) and names[i - 1]:
                n = names[i - 1]
            out.append(self.sym(n, b["locals"][i]))
        return out

    def sym(self, name, t=None):
        if t is not None and self.p.types[t]["s"] == "usize":
            return T("sym", name, t, "usize")
        return T("sym", name, t)

    def call_body(self, inst, args, st, key, depth, stack):
        b = inst["body"]
        fid = self.fid(key)
        cfg = self.p.cfg(inst)
        fr = Frame(inst, fid, depth, cfg, stack + (inst["id"],))
        self.analysed.add(inst["id"])
        s = st.copy()
        if len(args) != b["argc"]:
            raise EngineError("arity of %s: %d for %d" % (inst["key"], len(args), b["argc"]))
        for i, a in enumerate(args):
            s.mem[("L", fid, i + 1)] = a
        rets = []
        res = self.region(fr, 0, [s], None, None)
        for s2 in res["ret"]:
            v = s2.mem.get(("L", fid, 0), UNIT)
            for k in [k for k in s2.mem if k[0] == "L" and k[1] == fid]:
                del s2.mem[k]
            rets.append((v, s2))
        return merge_states(rets, self.keep_rel)

    def kill_dead(self, fr, s, blk):
        live = fr.cfg.live[blk]
        bor = fr.cfg.borrowed
        for k in [k for k in s.mem if k[0] == "L" and k[1] == fr.fid]:
            if k[2] not in live and k[2] not in bor:
                del s.mem[k]

    def region(self, fr, entry, states, blocks, header):
        """Run a region of the CFG from `entry`.  blocks=None: the whole function.
        Returns {'ret': [...], 'back': [...], 'exit': {block: [...]}}."""
        cfg = fr.cfg
        pend = {entry: list(states)}
        out = {"ret": [], "back": [], "exit": {}}
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.num[x])
            ss = pend.pop(b)
            if len(ss) > 1:
                for s in ss:
                    self.kill_dead(fr, s, b)
                ss = [s for _, s in merge_states([(None, s) for s in ss], self.keep_rel)]
            if len(ss) > self.max_states:
                raise Limit("too many states (%d) in %s block %d" % (len(ss), fr.inst["key"], b))
            if b in cfg.loops and not (b == header and first):
                # a loop nested in this region
                for s in ss:
                    r = self.loop(fr, b, s)
                    out["ret"] += r["ret"]
                    for blk, xs in r["exit"].items():
                        self.route(blk, xs, blocks, header, pend, out)
                first = False
                continue
            first = False
            nxt = []
            for s in ss:
                nxt += self.block(fr, b, s)
            for blk, s in nxt:
                if blk == "ret":
                    out["ret"].append(s)
                else:
                    self.route(blk, [s], blocks, header, pend, out)
        return out

    def route(self, blk, xs, blocks, header, pend, out):
        if header is not None and blk == header:
            out["back"] += xs
        elif blocks is not None and blk not in blocks:
            out["exit"].setdefault(blk, []).extend(xs)
        else:
            pend.setdefault(blk, []).extend(xs)

    # -------- loops

    def loop(self, fr, h, s):
        lid = self.fid("loop", fr.fid, h)
        self.loop_fn[lid] = (fr.inst["id"], h)
        self.kill_dead(fr, s, h)
        body = fr.cfg.loops[h]
        live, bor = fr.cfg.live[h], fr.cfg.borrowed

        def step(hs):
            r = self.region(fr, h, [hs.copy()], body, h)
            for b in r["back"]:
                self.kill_dead(fr, b, h)
            # leaving towards a panic is no way to leave
            r["left"] = [x.copy() for blk, xs in r["exit"].items() if blk in fr.cfg.returning for x in xs]
            return r["back"], r
        r = self.unroll(fr, h, s, step)
        return r if r is not None else self.fix(lid, s, step)

    def unroll(self, fr, h, s, step):
        """A loop that walks over a few known elements (an array, a constant range) is run element by
        element; None if this is not one."""
        from models import few_left
        nrec = len(self.records)
        for (root, v) in list(s.mem.items()):
            if root[0] != "L" or root[1] != fr.fid:
                continue
            n = few_left(self, v, s)
            if n is None:
                continue
            res = self.unrolled(root, n, s, step)
            if res is not None:
                return res
            del self.records[nrec:]
        return None

    def unrolled(self, root, n, s, step):
        from models import few_left
        res = {"ret": [], "back": [], "exit": {}}
        states = [s]
        for _ in range(n + 1):
            nxt = []
            for x in states:
                back, r = step(x)
                res["ret"] += r["ret"]
                for b, xs in r["exit"].items():
                    res["exit"].setdefault(b, []).extend(xs)
                for y in back:
                    w = y.mem.get(root)
                    m = None if w is None else few_left(self, w, y)
                    if m is None or m >= few_left(self, x.mem[root], x):
                        return None
                    nxt.append(y)
            states = [x for _, x in merge_states([(None, x) for x in nxt], self.keep_rel)]
            if not states:
                return res
        return None

    def fix(self, lid, s, step):
        mods = {}
        bounds = []
        alias = None
        for _ in range(60):
            hs = self.havoc(lid, s, mods, alias or {})
            for (form_a, form_b) in bounds:
                r = int_restrict(hs, form_a, form_b, frozenset(">="))
                if r is not None:
                    hs = r
            hs.ev = s.ev + (T("loop", lid),)
            nrec = len(self.records)
            back, res = step(hs)
            new = {}
            for b in back:
                self.diff_states(hs, b, new)
            grown = False
            for k, paths in new.items():
                cur = mods.setdefault(k, set())
                for p in paths:
                    if not any(p[:len(q)] == q for q in cur):
                        for q in [q for q in cur if q[:len(p)] == p]:
                            cur.discard(q)
                        cur.add(p)
                        grown = True
            if not grown:
                # counters that go along with one another are one
                if alias and not self.in_step(s, hs, back, mods, alias):
                    alias = {}
                    bounds = []
                    del self.records[nrec:]
                    continue
                if alias is None:
                    alias = self.lockstep(s, hs, back, mods)
                    if alias:
                        bounds = []
                        del self.records[nrec:]
                        continue
                # inductive lower bounds: x = loop var that only grows
                nb = self.grow_bounds(lid, s, hs, back, mods)
                if nb and not bounds:
                    bounds = nb
                    del self.records[nrec:]
                    continue
                self.records.append(Rec(lid, self.loop_fn[lid][0], s, hs, back, mods,
                                        res.get("left", []) + list(res.get("after", ()))))
                no = frozenset([self.records[-1].no])
                seen = set()
                for x in res["ret"] + list(res.get("after", ())) + res.get("left", []) + [y for xs in res.get("exit", {}).values() for y in xs]:
                    x = x if isinstance(x, State) else x[1]
                    if id(x) not in seen:
                        seen.add(id(x))
                        x.via = x.via | no
                return res
            del self.records[nrec:]
        raise Limit("loop does not stabilise")

    def lockstep(self, s, hs, back, mods):
        """Counters with the same start and the same steps: {slot: slot it goes along with}."""
        groups = {}
        for root, paths in mods.items():
            for p in paths:
                try:
                    h = self.read_loc(hs, (root, p))
                    init = self.read_loc(s, (root, p))
                    if h[0] != "loop" or init[0] not in ("i", "lin", "len", "sym", "fld"):
                        continue
                    ds = []
                    for b in back:
                        v = self.read_loc(b, (root, p))
                        if not (v is h or v[0] in ("i", "lin")):
                            raise EngineError("not a counter")
                        c, m = lin_of(isub(v, h))
                        if m:
                            raise EngineError("not a counter")
                        ds.append(c)
                except EngineError:
                    continue
                if any(ds):
                    groups.setdefault((init, tuple(ds)), []).append((root, p))
        out = {}
        for g in groups.values():
            g = sorted(g, key=lambda x: (len(str(x)), str(x)))
            for x in g[1:]:
                out[x] = g[0]
        return out

    def in_step(self, s, hs, back, mods, alias):
        for x, y in alias.items():
            if x[1] not in mods.get(x[0], ()) or y[1] not in mods.get(y[0], ()) or self.read_loc(s, x) is not self.read_loc(s, y):
                return False
            if any(self.read_loc(b, x) is not self.read_loc(b, y) for b in back):
                return False
        return True

    def grow_bounds(self, lid, s, hs, back, mods):
        out = []
        for root, paths in mods.items():
            for p in paths:
                try:
                    h = self.read_loc(hs, (root, p))
                    init = self.read_loc(s, (root, p))
                except EngineError:
                    continue
                if h[0] != "loop" or init[0] not in ("i", "lin", "len", "sym"):
                    continue
                ok = bool(back)
                for b in back:
                    v = self.read_loc(b, (root, p))
                    c, m = lin_of(isub(v, h)) if v[0] in ("i", "lin") or v is h else (None, None)
                    if c is None or m or c < 0:
                        ok = False
                        break
                if ok:
                    out.append((h, init))
        return out

    def havoc(self, lid, s, mods, alias):
        hs = s.copy()
        for root, paths in mods.items():
            v = self.get_root(hs, root)
            for p in sorted(paths, key=lambda p: (len(p), str(p))):
                init = self.read_loc(s, (root, p))
                r2, p2 = alias.get((root, p), (root, p))
                sym = T("loop", lid, T("at", self.rootname(r2), p2), init)
                v = self.put(v, p, sym, hs)
            hs.mem[root] = v
        return hs

    def put(self, v, path, new, st):
        if not path:
            return new
        e = path[0]
        if e[0] == "f" and v[0] == "agg":
            fs = list(v[3:])
            fs[e[2]] = self.put(fs[e[2]], path[1:], new, st)
            return T("agg", v[1], v[2], *fs)
        return self.update(v, path, new, [None] * (len(path) + 1), st)

    def rootname(self, root):
        return T("root", root)

    def diff_states(self, a, b, out):
        for root in set(a.mem) | set(b.mem):
            va = self.get_root(a, root)
            vb = self.get_root(b, root)
            if va is vb:
                continue
            if root[0] == "L" and (root not in b.mem):
                continue
            self.diff_val(va, vb, root, (), out)

    def diff_val(self, va, vb, root, path, out):
        if va is vb:
            return
        if (va[0] == "agg" and vb[0] == "agg" and va[1] is vb[1] or
                va[0] == "agg" and vb[0] == "agg" and va[1] == vb[1]) and va[2] == vb[2] and len(va) == len(vb) and va[1] != "array":
            for i in range(len(va) - 3):
                self.diff_val(va[3 + i], vb[3 + i], root, path + (("f", va[2], i),), out)
            return
        if vb[0] == "agg" and va[0] != "agg" and vb[1] != "array":
            # va is opaque and was expanded by a partial write: compare field-wise when every
            # unchanged field is still the projection of va
            fs = [self.project(va, ("f", vb[2], i), None) for i in range(len(vb) - 3)]
            same = [f is vb[3 + i] for i, f in enumerate(fs)]
            if any(same):
                for i, f in enumerate(fs):
                    self.diff_val(f, vb[3 + i], root, path + (("f", vb[2], i),), out)
                return
        if va[0] == "upd" or vb[0] == "upd":
            ca, ba = upd_chain(va)
            cb, bb = upd_chain(vb)
            if ba is bb:
                for k in sorted(set(ca) | set(cb)):
                    pa = ca[k] if k in ca else self.project(ba, ("f",) + k, None)
                    pb = cb[k] if k in cb else self.project(ba, ("f",) + k, None)
                    self.diff_val(pa, pb, root, path + (("f",) + k,), out)
                return
        out.setdefault(root, set()).add(path)

    # -------- blocks

    def block(self, fr, b, s0):
        self.steps += 1
        if self.steps > 3000000:
            raise Limit("step limit")
        blk = fr.cfg.blocks[b]
        s = s0
        for stt in blk["s"]:
            if stt[0] == "=":
                loc, tys = self.resolve(fr, s, stt[1])
                v = self.rvalue(fr, s, stt[2], tys[-1])
                self.assign(fr, s, loc, v, tys)
            elif stt[0] == "sd":
                loc, tys = self.resolve(fr, s, stt[1])
                v = self.read_loc(s, loc)
                f = self.variant_fields(tys[-1], stt[2]) or []
                self.assign(fr, s, loc, T("agg", self.agg_name(tys[-1]), stt[2], *[T("undef", v, stt[2], i) for i in range(len(f))]), tys)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "ret":
            return [("ret", s)]
        if k == "drop":
            return [(t[2], s)]
        if k == "assert":
            v = self.operand(fr, s, t[1])
            v = v if v[0] != "i" else B(bool(v[1]))
            return [(t[3], x) for x in assume(s, v, t[2])]
        if k == "switch":
            return self.switch(fr, s, t)
        if k == "call":
            return self.call_term(fr, b, s, t, blk["sp"])
        if k in ("unreachable", "unwind"):
            return []
        raise EngineError("terminator %s in %s" % (k, fr.inst["key"]))

    def assign(self, fr, s, loc, v, tys):
        if loc[0][0] != "L":
            self.on_write(fr, s, loc, v)
        self.write_loc(s, loc, v, tys)

    def on_write(self, fr, s, loc, v):
        pass

    def switch(self, fr, s, t):
        v = self.operand(fr, s, t[1])
        tgts = [(int(x), b) for x, b in t[2]]
        oth = t[3]
        out = []
        ty = self.p.types[t[4]]
        if ty["k"] == "bool":
            if v[0] == "i":
                v = B(bool(v[1]))
            d = dict(tgts)
            for val in (False, True):
                tb = d.get(int(val), oth)
                for x in assume(s, v, val):
                    out.append((tb, x if x is not s else s.copy()))
            return out
        if v[0] == "i":
            for x, b in tgts:
                if x == v[1]:
                    return [(b, s)]
            return [(oth, s)]
        if v[0] == "ord":
            rest = set("<=>")
            code = {-1: "<", 0: "=", 1: ">"}
            for x, b in tgts:
                c = code.get(x)
                if c is None:
                    continue
                rest.discard(c)
                r = self.restrict(s, v[1], v[2], v[3], frozenset(c))
                if r is not None:
                    out.append((b, r.copy()))
            if rest:
                r = self.restrict(s, v[1], v[2], v[3], frozenset(rest))
                if r is not None:
                    out.append((oth, r.copy()))
            return out
        if v[0] == "discr":
            f = s.facts.get(v)
            if isinstance(f, int) and not isinstance(f, bool):
                for x, b in tgts:
                    if x == f:
                        return [(b, s)]
                return [(oth, s)]
            ex = f if isinstance(f, frozenset) else frozenset()
            for x, b in tgts:
                if x in ex:
                    continue
                c = s.copy()
                c.facts[v] = x
                out.append((b, c))
            if self.p_unreach(fr, oth):
                return out
            c = s.copy()
            c.facts[v] = ex | frozenset(x for x, _ in tgts)
            if not self.variants.get(v[1], frozenset((None,))) <= c.facts[v]:
                out.append((oth, c))
            return out
        # an opaque integer
        cur = s
        for x, b in tgts:
            r = int_restrict(cur, v, I(x), frozenset("="))
            if r is not None:
                out.append((b, r if r is not cur else r.copy()))
            cur = int_restrict(cur, v, I(x), frozenset("<>"))
            if cur is None:
                return out
        out.append((oth, cur if cur is not s else s.copy()))
        return out

    def p_unreach(self, fr, b):
        blk = fr.cfg.blocks[b]
        return blk["t"][0] == "unreachable" and not blk["s"]

    def restrict(self, s, kind, a, b, orders):
        if kind == "i":
            return int_restrict(s, a, b, orders)
        return flt_restrict(s, a, b, orders, kind == "f")

    # -------- calls

    def call_term(self, fr, b, s, t, sp):
        f = t[1]
        args = [self.operand(fr, s, o) for o in t[2]]
        atys = [self.op_type(fr, o) for o in t[2]]
        dloc, dtys = self.resolve(fr, s, t[3])
        site = (fr.fid, b)
        if f[0] == "k" and "fn" in f[1]:
            fn = f[1]["fn"]
        else:
            v = self.operand(fr, s, f)
            fn = self.fn_of_value(v)
        outs = self.invoke(fn, args, atys, dtys[-1], s, site, fr, sp)
        if t[4] is None:
            self.panics.append((fr.inst["key"], fn and fn["path"], sp))
            return []
        res = []
        for v, s2 in outs:
            if s2 is s:
                s2 = s.copy()
            self.assign(fr, s2, dloc, v, dtys)
            res.append((t[4], s2))
        return res

    def fn_of_value(self, v):
        if v[0] == "fn":
            inst = self.p.by_id.get(v[1])
            return {"path": v[2], "name": v[2].split("::")[-1], "targs": [], "trait": None, "rpath": v[2],
                    "rk": "item", "id": v[1] if inst is not None else None}
        return {"path": "<fn pointer>", "name": "", "targs": [], "trait": None, "rpath": None, "rk": None, "id": None, "val": v}

    def invoke(self, fn, args, atys, rty, s, site, fr, sp):
        from models import MODELS, TRAIT_MODELS
        path = fn["path"]
        rpath = fn["rpath"] or path
        # calls of closures and function values
        if fn.get("trait") in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            r = self.call_value(args[0], self.untuple(args[1], s), s, site, fr, rty)
            if r is not None:
                return r
        for tab, name in ((self.extra_models, rpath), (self.extra_models, path)):
            m = tab.get(name)
            if m is not None:
                r = m(self, fn, args, atys, rty, s, site, fr)
                if r is not None:
                    return r
        inst = self.p.by_id.get(fn["id"]) if fn["id"] is not None else None
        op = self.opaque(rpath, inst)
        if not op:
            m = MODELS.get(rpath) or MODELS.get(path) or TRAIT_MODELS.get((fn.get("trait"), fn["name"]))
            local = inst is not None and inst["local"]
            if m is not None and not (local and fn.get("trait") and not getattr(m, "even_local", False)):
                r = m(self, fn, args, atys, rty, s, site, fr)
                if r is not None:
                    return r
            if inst is not None and inst["body"] is not None:
                if inst["id"] in fr.stack:
                    pass
                elif fr.depth < self.max_depth:
                    if local or self.inline_std(inst):
                        return self.call_body(inst, args, s, (site, inst["id"]), fr.depth + 1, fr.stack)
                else:
                    raise Limit("call depth")
        return self.opaque_call(rpath, args, atys, rty, s, site, fr, sp)

    def inline_std(self, inst):
        p = inst["path"].lstrip("<")
        if p.startswith(("kurbo::", "polycool")):
            cfg = self.p.cfg(inst)
            return not cfg.loops and len(cfg.blocks) < 60
        if p.startswith(("core::option", "core::result", "core::cmp", "core::bool", "core::tuple", "core::convert", "core::ops", "core::default", "core::clone", "core::num", "core::f64", "core::mem")):
            cfg = self.p.cfg(inst)
            return not cfg.loops and len(cfg.blocks) < 80
        return inst["closure"]

    def untuple(self, v, s):
        if v[0] == "agg":
            return list(v[3:])
        return None

    def call_value(self, f, args, s, site, fr, rty):
        """Call a closure or function value; None if the callee is unknown."""
        if f[0] == "ref" or f[0] not in ("agg", "fn", "closure"):
            if f[0] == "ref":
                v = self.read_loc(s, (f[1], f[2]))
                if v[0] == "ref" or (v[0] not in ("agg", "fn", "closure")):
                    if v[0] == "ref":
                        return self.call_value(v, args, s, site, fr, rty)
                    return None
                if v[0] in ("fn", "closure"):
                    return self.call_value(v, args, s, site, fr, rty)
                selfref = f
            else:
                return None
        else:
            v = f
            selfref = None
        if v[0] == "fn":
            fn = self.fn_of_value(v)
            if args is None:
                return None
            return self.invoke(fn, args, [None] * len(args), rty, s, site, fr, "")
        if v[0] == "closure":
            cands = [i for i in self.p.by_path.get(v[1], []) if i["body"]]
            if not cands:
                return None
            inst = cands[0]
        elif v[0] == "agg" and isinstance(v[1], tuple) and v[1][0] == "closure":
            inst = self.p.by_id[v[1][2]]
        else:
            return None
        if not inst["body"] or args is None or inst["id"] in fr.stack and fr.depth > 12:
            return None
        t1 = inst["body"]["locals"][1]
        byref = self.p.types[t1]["k"] == "ref"
        st = s.copy()
        if byref:
            if selfref is None:
                root = ("L", self.fid("clos", site, inst["id"]), 0)
                st.mem[root] = v
                selfref = T("ref", root, ())
            a0 = selfref
        else:
            a0 = v
        if inst["body"]["argc"] != 1 + len(args):
            raise EngineError("closure arity %s" % inst["key"])
        m = self.extra_models.get(inst["path"])
        if m is not None:
            r = m(self, {"id": inst["id"]}, [a0] + args, None, rty, st, site, fr)
            if r is not None:
                return r
        outs = self.call_body(inst, [a0] + args, st, (site, inst["id"]), fr.depth + 1, fr.stack)
        return outs

    def content(self, v, s, depth=0):
        """The value a shared reference stands for, for value numbering."""
        if depth > 8:
            return v
        if v[0] == "ref":
            if v[1][0] == "P" and v[1] not in s.mem:
                pass
            return T("&", self.content(self.read_loc(s, (v[1], v[2])), s, depth + 1))
        if v[0] == "agg":
            if any(isinstance(x, tuple) and x[0] in ("ref", "agg") for x in v[3:]):
                return T("agg", v[1], v[2], *[self.content(x, s, depth + 1) for x in v[3:]])
            return v
        if v[0] == "sym" and ("P", v) in s.mem:
            return T("&", s.mem[("P", v)])
        return v

    def opaque_call(self, path, args, atys, rty, s, site, fr, sp):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        cargs = [self.content(a, s) for a in args]
        st = s.copy()
        n = 0
        callt = T("call", path, *cargs)
        muts = []
        for a, t in zip(args, atys):
            self.havoc_muts(a, t, callt, st, muts, 0)
        if self.watch(path):
            st.ev = st.ev + (T("call", path, tuple(cargs), fr.inst["path"], sp),)
        if rty is not None:
            k = self.p.types[rty]["k"]
            if k == "never":
                return []
            if k == "tuple" and not self.p.types[rty]["ts"]:
                return [(UNIT, st)]
        return [(callt, st)]

    def havoc_muts(self, a, t, callt, st, muts, depth):
        """Everything reachable through a mutable reference in the argument becomes unknown."""
        if t is None or depth > 4:
            return
        ty = self.p.types[t]
        if ty["k"] == "ref" or ty["k"] == "ptr":
            if ty["mut"]:
                loc = self.target(a)
                old = self.read_loc(st, loc)
                # references stored behind the pointer may be written through as well
                self.write_loc(st, loc, T("after", callt, len(muts), old))
                muts.append(loc)
            return
        if a[0] == "agg":
            if ty["k"] in ("adt", "tuple", "closure"):
                f = self.variant_fields(t, a[2])
                if f:
                    for x, ft in zip(a[3:], f):
                        if isinstance(x, tuple):
                            self.havoc_muts(x, ft, callt, st, muts, depth + 1)
