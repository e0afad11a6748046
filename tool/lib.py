"""Shared machinery of the property checks: obligations, the table evaluator, helpers."""
import itertools
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import engine
import extract
from engine import (Program, Interp, State, Term, T, I, F, B, TRUE, FALSE, UNIT, show, subterms, contains,
                    EngineError, Limit, int_orders, flt_orders, decide, assume, tup, lin_of, isub, iadd)

CRATE = "linesweeper::"


class Undet(Exception):
    """A term the table evaluator cannot evaluate over the finite domain."""


ANALYSIS_ERRORS = (EngineError, Undet, KeyError, IndexError, TypeError, AttributeError, ValueError,
                   RecursionError, AssertionError, ZeroDivisionError)


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (name, ok, where, detail), each once
        self._seen = set()
        self.funcs = set()
        self.rules = []
        self.assume = []
        self.stats = {}
        self._prog = {}

    def prog(self, features=()):
        features = tuple(features)
        if features not in self._prog:
            self._prog[features] = Program(extract.load(features))
        return self._prog[features]

    @property
    def P(self):
        return self.prog()

    def fnames(self):
        P = self.P
        return {P.by_id[i]["key"] if i in P.by_id else str(i) for i in self.funcs}

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, text):
        self.assume.append(text)

    def where(self, inst):
        if inst is None:
            return "?"
        return "%s (%s)" % (inst["path"], inst.get("span") or inst.get("sp") or "")

    def ob(self, name, ok, where="", detail=""):
        if isinstance(where, dict):
            where = self.where(where)
        o = (name, bool(ok), str(where), str(detail)[:2000] if not ok else "")
        if o not in self._seen:
            self._seen.add(o)
            self.obs.append(o)
        return bool(ok)

    def fail(self, name, where="", detail=""):
        return self.ob(name, False, where, detail)

    def guard(self, name, where, fn):
        """Run fn; an analysis that cannot reach a verdict is an undischarged obligation."""
        try:
            return fn()
        except ANALYSIS_ERRORS as e:
            if os.environ.get("LS_DEBUG"):
                raise
            self.fail(name, where, "analysis could not establish this: %s: %s" % (type(e).__name__, e))
            return None

    def interp(self, opaque=(), models=None, **kw):
        op = opaque
        if not callable(op):
            pats = tuple(op)
            op = lambda path, inst: any(matches(path, p) for p in pats)
        base = op
        op = lambda path, inst: base(path, inst) or is_debug(path)
        return Interp(self.P, opaque=op, models=models, **kw)

    def analyse(self, inst, args=None, opaque=(), st=None, models=None, **kw):
        ip = self.interp(opaque, models, **kw)
        if args is None:
            args = ip.sym_args(inst)
        outs = ip.run(inst, args, st)
        self.funcs |= ip.analysed
        return ip, args, outs


def is_debug(path):
    return False


def matches(path, pat):
    if pat.startswith("re:"):
        import re
        return re.search(pat[3:], path) is not None
    return path == pat or path.endswith("::" + pat) or path == CRATE + pat


# --------------------------------------------------------------------------- table evaluation

def ev(t, env):
    """Value of a term under an assignment of its atoms (finite-domain evaluation)."""
    v = env.get(t)
    if v is not None or t in env:
        return v
    k = t[0]
    if k == "i":
        return t[1]
    if k == "b":
        return t[1]
    if k == "f":
        return float(t[1])
    if k == "cmp":
        a, b = ev(t[3], env), ev(t[4], env)
        op = t[1]
        if op == "Lt":
            return a < b
        if op == "Le":
            return a <= b
        if op == "Eq":
            return a == b
        if op == "Ne":
            return a != b
    if k == "not":
        return not ev(t[1], env)
    if k == "and":
        return ev(t[1], env) and ev(t[2], env)
    if k == "or":
        return ev(t[1], env) or ev(t[2], env)
    if k == "xor":
        return ev(t[1], env) != ev(t[2], env)
    if k == "lin":
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if k == "imul":
        return ev(t[1], env) * ev(t[2], env)
    if k == "bool2int":
        return int(ev(t[1], env))
    if k == "intRem":
        x, y = ev(t[1], env), ev(t[2], env)
        r = abs(x) % abs(y)
        return -r if x < 0 else r
    if k == "intDiv":
        x, y = ev(t[1], env), ev(t[2], env)
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    if k == "intBitAnd":
        return ev(t[1], env) & ev(t[2], env)
    if k == "intBitOr":
        return ev(t[1], env) | ev(t[2], env)
    if k == "intBitXor":
        return ev(t[1], env) ^ ev(t[2], env)
    if k in ("iabs", "intabs", "unsigned_abs"):
        return abs(ev(t[1], env))
    if k == "call" and len(t) == 3 and t[1].split("::")[-1] in ("abs", "unsigned_abs"):
        return abs(ev(t[2], env))
    if k == "call" and len(t) == 4 and t[1].split("::")[-1] == "rem_euclid":
        return ev(t[2], env) % abs(ev(t[3], env))
    if k == "call" and len(t) == 3 and t[1].split("::")[-1] == "signum" and "num" in t[1]:
        x = ev(t[2], env)
        return (x > 0) - (x < 0)
    if k == "fmin":
        return min(ev(t[1], env), ev(t[2], env))
    if k == "fmax":
        return max(ev(t[1], env), ev(t[2], env))
    if k == "fneg":
        return -ev(t[1], env)
    if k == "ord":
        a, b = ev(t[2], env), ev(t[3], env)
        return "<" if a < b else ">" if a > b else "="
    if k == "agg":
        if t[1] == "core::cmp::Ordering":
            return "<=>"[t[2]]
        return (t[1], t[2]) + tuple(ev(x, env) for x in t[3:])
    raise Undet("cannot evaluate %s" % show(t)[:300])


def holds(s, env, partial=False):
    """Does the path condition of state s hold under env?  With partial, conditions that cannot be
    evaluated are ignored (the answer is then an over-approximation)."""
    def go(f):
        try:
            return f()
        except Undet:
            if partial:
                return True
            raise

    def rel(a, b, r):
        x, y = ev(a, env), ev(b, env)
        return ("<" if x < y else ">" if x > y else "=") in r

    def iv(form, lo, hi, ex):
        v = sum(c * ev(a, env) for a, c in form[1])
        return not (lo is not None and v < lo or hi is not None and v > hi or v in ex)

    def fact(t, x):
        if t[0] == "discr":
            v = ev(t, env)
        elif isinstance(x, bool):
            v = ev(t, env)
        else:
            v = ev(T("discr", t), env)
        return v not in x if isinstance(x, frozenset) else v == x
    return (all(go(lambda: rel(a, b, r)) for (a, b), r in s.rel.items())
            and all(go(lambda: iv(form, *x)) for form, x in s.iv.items())
            and all(go(lambda: fact(t, x)) for t, x in s.facts.items()))


def table(outs, env):
    """The single outcome value under env (Undet unless exactly one value)."""
    vals = {}
    for v, s in outs:
        if holds(s, env):
            vals.setdefault(ev(v, env), s)
    if len(vals) != 1:
        raise Undet("%d outcomes for %s" % (len(vals), {show(k): x for k, x in env.items()}))
    return next(iter(vals))


def atoms_of(outs, pred):
    """Maximal subterms satisfying pred in outcome values and path conditions."""
    found = []
    seen = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if isinstance(t, Term):
            if t in seen:
                return
            seen.add(t)
            if pred(t):
                found.append(t)
                return
        for x in t:
            if isinstance(x, tuple):
                go(x)
    for v, s in outs:
        go(v)
        for (a, b) in s.rel:
            go(a), go(b)
        for f in s.iv:
            for a, _ in f[1]:
                go(a)
        for t in s.facts:
            go(t)
    return found


def strip_refs(t):
    return t


def is_fld_of(t, root):
    """t is a chain of field projections / derefs rooted at `root`."""
    while isinstance(t, tuple) and t and t[0] in ("fld", "*"):
        if t is root:
            return True
        t = t[1]
    return t is root


def subst(t, m):
    """Rebuild a term with atoms replaced."""
    cache = {}

    def go(t):
        if not isinstance(t, tuple):
            return t
        if isinstance(t, Term):
            r = m.get(t)
            if r is not None:
                return r
            r = cache.get(t)
            if r is not None:
                return r
            n = tuple(go(x) for x in t)
            r = T(*n) if any(a is not b for a, b in zip(n, t)) else t
            cache[t] = r
            return r
        return tuple(go(x) for x in t)
    return go(t)


# --------------------------------------------------------------------------- looking things up

def field_index(P, adt_path, name):
    """Index of a named field of a struct."""
    for ty in P.types:
        if ty["k"] == "adt" and ty["path"] == adt_path and ty["ak"] == "struct":
            for i, f in enumerate(ty["vs"][0]["fs"]):
                if f[0] == name:
                    return i
    raise EngineError("no field %s in %s" % (name, adt_path))


def variant_field(P, adt_path, variant, name):
    """Index of a named field of a variant."""
    for ty in P.types:
        if ty["k"] == "adt" and ty["path"] == adt_path:
            for v in ty["vs"]:
                if v["name"] == variant:
                    for i, f in enumerate(v["fs"]):
                        if f[0] == name:
                            return i
    raise EngineError("no field %s in %s of %s" % (name, variant, adt_path))


def variant_index(P, adt_path, name):
    for ty in P.types:
        if ty["k"] == "adt" and ty["path"] == adt_path:
            for i, v in enumerate(ty["vs"]):
                if v["name"] == name:
                    return i
    raise EngineError("no variant %s in %s" % (name, adt_path))


def inst_paths(P, pat):
    return sorted({i["path"] for i in P.insts if matches(i["path"], pat)})


def hooks(P, pat, cb):
    """Models (by resolved path) for all functions matching pat."""
    r = {p: cb for p in inst_paths(P, pat)}
    if not r:
        raise EngineError("anchor not found: %s" % pat)
    return r


def loc_of(inst):
    return "%s @ %s" % (inst["key"], inst.get("span", ""))


def ev_calls(s, pat):
    return [e for e in s.ev if e[0] == "call" and matches(e[1], pat)]


def facts_show(s):
    return ", ".join(["%s=%s" % (show(k)[:160], x) for k, x in s.facts.items()]
                     + ["%s %s %s" % (show(a)[:100], "".join(sorted(r)), show(b)[:100]) for (a, b), r in s.rel.items()]
                     + ["%s in [%s,%s]%s" % (show(k)[:100], x[0], x[1], " not in %s" % sorted(x[2]) if x[2] else "") for k, x in s.iv.items()])


# --------------------------------------------------------------------------- sorting

def sorted_by(ctx, t, leaf, opaque=(), same=None):
    """Does the sort recorded in the `sorted` term order by leaf(element) first, ascending?  Returns
    (verdict, explanation).  Instead of the leaf there can be a predicate same(term, element) that tells it."""
    how, f = t[2], t[3]
    ra, rb = T("sym", "sort a"), T("sym", "sort b")
    a, b = T("*", ra), T("*", rb)
    if f is not None and f[0] == "agg" and isinstance(f[1], tuple) and f[1][0] == "closure":
        inst, clos = ctx.P.by_id[f[1][2]], True
    elif f is not None and f[0] in ("closure", "fn"):
        cands = [i for i in ctx.P.by_path.get(f[1], []) if i["body"]]
        if not cands:
            return False, "unknown comparison %s" % show(f)[:200]
        inst, clos = cands[0], f[0] == "closure"
    else:
        return False, "no comparison function: %s" % show(t)[:200]
    ip = ctx.interp(opaque, keep_rel=True)
    st = State()

    def call(args):
        env = [f] if clos else []
        if clos:
            t0 = ctx.P.types[inst["body"]["locals"][1]]
            if t0["k"] == "ref":
                env = [T("&", f)]
        outs = ip.run(inst, env + args, st)
        ctx.funcs |= ip.analysed
        return outs

    def known(outs):
        if same is None:
            return leaf
        found = {}
        for e in (a, b):
            ts = {x for v, s in outs for y in [v] + list(s.facts) + [z for k in s.rel for z in k] + [a for f in s.iv for a, _ in f[1]] for x in subterms(y) if same(x, e)}
            found[e] = ts.pop() if len(ts) == 1 else T("sym", "unknown")
        return found.get
    if how.endswith("_key"):
        ka = call([ra])
        leaf = known(ka)
        if len(ka) != 1:
            return False, "%d keys" % len(ka)
        k = ka[0][0]
        while k[0] == "agg" and len(k) > 3 and k is not leaf(a):
            k = k[3]
        return k is leaf(a), "sorted by %s first" % show(ka[0][0])[:200]
    outs = call([ra, rb])
    leaf = known(outs)
    for x, y, want in ((0.0, 1.0, LESS_), (1.0, 0.0, GREATER_)):
        env = {leaf(a): x, leaf(b): y, T("total", leaf(a)): x, T("total", leaf(b)): y}
        got = {v[2] if v[0] == "agg" else show(v) for v, s in outs if holds(s, env, partial=True)}
        if got != {want}:
            return False, "answers %s when the first is %s" % (got, "smaller" if x < y else "larger")
    return True, ""


LESS_, GREATER_ = 0, 2


# --------------------------------------------------------------------------- loops and growth

def pushed(ip, head, back, root, path):
    """Elements appended to the collection at (root, path) between two states, oldest first;
    None if it changed in any other way."""
    h, b = ip.read_loc(head, (root, path)), ip.read_loc(back, (root, path))
    out = []
    while b is not h:
        if b[0] != "push":
            return None
        out.append(b[2])
        b = b[1]
    return out[::-1]


def slots(ip, st):
    """(root, path, value) of all scalar places in local memory, aggregates taken apart."""
    for root, v in list(st.mem.items()):
        stack = [((), v)]
        while stack:
            p, x = stack.pop()
            yield root, p, x
            if x[0] == "agg" and x[1] != "array" and isinstance(x[1], (str, tuple)):
                for i in range(len(x) - 3):
                    stack.append((p + (("f", x[2], i),), x[3 + i]))


def fld(t, i, var=0):
    if t[0] == "agg" and t[1] != "array" and t[2] == var and 3 + i < len(t):
        return t[3 + i]
    return T("fld", t, var, i)


def calls_in(t, pat):
    return [x for x in subterms(t) if x[0] == "call" and matches(x[1], pat)]


def unref(t):
    while isinstance(t, tuple) and t and t[0] == "&":
        t = t[1]
    return t


def loop_at(ip, t):
    """(loop, root name, path, value on entry) if t is (part of) a value generalised by a loop."""
    path = ()
    while t[0] == "fld":
        path = (("f", t[2], t[3]),) + path
        t = t[1]
    if t[0] != "loop" or len(t) != 4:
        return None
    init = t[3]
    for e in path:
        init = ip.project(init, e, None)
    return t[1], t[2][1], tuple(t[2][2]) + path, init


def affine(t, f):
    """The linear form t with every atom replaced by f(atom)."""
    c, m = lin_of(t)
    out = I(c)
    for a, k in m.items():
        out = iadd(out, engine.imul(f(a), I(k)))
    return out


def at_entry(ip, lid, t):
    """Value of an index on entry to loop lid, None if it does not depend on the loop's counters."""
    hit = []

    def f(a):
        l = loop_at(ip, a)
        if l is None or l[0] != lid:
            return a
        hit.append(a)
        return l[3]
    r = affine(t, f)
    return r if hit else None


def after_step(ip, lid, t, back):
    """Value of the same index in the next round of the loop."""
    def f(a):
        l = loop_at(ip, a)
        return a if l is None or l[0] != lid else ip.read_loc(back, (l[1][1], l[2]))
    return affine(t, f)


def recs_of(ip, lid, st):
    """The analyses of loop lid that state st may have come through."""
    return [r for r in ip.records if r.lid == lid and r.no in st.via]


def leaves_of(t, op):
    """The operands of a nest of one operation."""
    return set().union(*(leaves_of(x, op) for x in t[1:])) if t[0] == op else {t}


def fpoly(t):
    """The polynomial that a float term stands for over the reals: {sorted monomial: coefficient}."""
    from fractions import Fraction

    def add(a, b, k=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + k * c
        return {m: c for m, c in out.items() if c}
    cache = {}

    def go(t):
        if t in cache:
            return cache[t]
        k = t[0]
        if k == "f" and abs(float(t[1])) < float("inf"):
            r = {(): Fraction(float(t[1]))} if float(t[1]) else {}
        elif k == "fadd":
            r = add(go(t[1]), go(t[2]))
        elif k == "fsub":
            r = add(go(t[1]), go(t[2]), -1)
        elif k == "fneg":
            r = add({}, go(t[1]), -1)
        elif k == "fmul":
            r = {}
            for m1, c1 in go(t[1]).items():
                for m2, c2 in go(t[2]).items():
                    r = add(r, {tuple(sorted(m1 + m2, key=id)): c1 * c2})
        elif k == "fpowi" and t[2][0] == "i" and 1 <= t[2][1] <= 8:
            r = go(t[1] if t[2][1] == 1 else T("fmul", t[1], T("fpowi", t[1], T("i", t[2][1] - 1))))
        elif k == "fdiv" and list(go(t[2])) == [()]:
            r = {m: c / go(t[2])[()] for m, c in go(t[1]).items()}
        else:
            r = {(t,): Fraction(1)}
        cache[t] = r
        return r
    return go(t)


def exhausted(ip, st, coll, k):
    """In state st, index k has run past the last element of the collection value."""
    return "<" not in int_orders(st, k, ip.length(coll)) or st.facts.get(T("done", coll, k)) is True
