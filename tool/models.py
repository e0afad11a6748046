"""Models of the standard-library functions the crate uses.

A model takes (interp, fn, args, arg types, result type, state, site, frame) and returns outcomes
[(value, state)], or None to decline.
"""
from engine import (subterms, T, I, B, F, TRUE, FALSE, UNIT, tup, iadd, isub, int_restrict, flt_restrict,
                    assume, decide, cmp_term, fconst, int_orders, flt_orders, Term, EngineError, merge_states)

MODELS = {}
TRAIT_MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def tmodel(trait, *names):
    def deco(f):
        for n in names:
            TRAIT_MODELS[(trait, n)] = f
        return f
    return deco


OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def some(v):
    return T("agg", OPT, 1, v)


NONE = T("agg", OPT, 0)
LESS, EQUAL, GREATER = T("agg", ORD, 0), T("agg", ORD, 1), T("agg", ORD, 2)


def deref(ip, s, v):
    return ip.read_loc(s, ip.target(v))


def at(ip, ref, *path):
    root, p = ip.target(ref)
    return ip.mkref_path(root, p + path)


def wr(ip, s, ref, v):
    s = s.copy()
    ip.write_loc(s, ip.target(ref), v)
    return s


def refto(ip, ref, step):
    root, p = ip.target(ref)
    return T("ref", root, p + (step,))


def two(ip, s, t):
    """Outcomes of a boolean term: kept symbolic."""
    return [(t, s)]


def split(s, t):
    d = decide(s, t)
    if d is not None:
        return [(d, s)]
    return [(v, x) for v in (True, False) for x in assume(s, t, v)]


# ------------------------------------------------------------------ clone, deref, conversions

def _content(ip, fn, args, atys, rty, s, site, fr):
    return [(deref(ip, s, args[0]), s)]


TRAIT_MODELS[("core::clone::Clone", "clone")] = _content
_content.even_local = False
MODELS["alloc::slice::<impl [T]>::to_vec"] = _content
MODELS["alloc::slice::hack::to_vec"] = _content
TRAIT_MODELS[("alloc::borrow::ToOwned", "to_owned")] = _content
MODELS["core::option::Option::<&T>::cloned"] = None
MODELS["core::option::Option::<&T>::copied"] = None


@model("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
       "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied")
def opt_cloned(ip, fn, args, atys, rty, s, site, fr):
    v = args[0]
    out = []
    for d, st in opt_cases(ip, v, s):
        if d is None:
            out.append((NONE, st))
        else:
            out.append((some(deref(ip, st, d)), st))
    return out


def opt_cases(ip, v, s):
    """[(payload or None, state)] for an Option value."""
    if v[0] == "agg":
        return [(v[3] if v[2] == 1 else None, s)]
    d = T("discr", v)
    f = s.facts.get(d)
    out = []
    if isinstance(f, int) and not isinstance(f, bool):
        return [(T("fld", v, 1, 0) if f == 1 else None, s)]
    for k in (1, 0):
        if isinstance(f, frozenset) and k in f:
            continue
        st = s.copy()
        st.facts[d] = k
        out.append((T("fld", v, 1, 0) if k else None, st))
    return out


def ident(ip, fn, args, atys, rty, s, site, fr):
    return [(args[0], s)]


for _t, _n in (("core::ops::deref::Deref", "deref"), ("core::ops::deref::DerefMut", "deref_mut"),
               ("core::borrow::Borrow", "borrow"), ("core::convert::AsRef", "as_ref"),
               ("core::convert::AsMut", "as_mut")):
    TRAIT_MODELS[(_t, _n)] = ident
for _n in ("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
           "<T as core::convert::From<T>>::from", "alloc::boxed::Box::<T, A>::leak",
           "core::hint::black_box", "alloc::vec::Vec::<T, A>::into_boxed_slice",
           "alloc::slice::<impl [T]>::into_vec", "core::iter::traits::iterator::Iterator::by_ref",
           "alloc::vec::Vec::<T, A>::reserve_dummy"):
    MODELS[_n] = ident


@model("<T as core::convert::Into<U>>::into")
def into(ip, fn, args, atys, rty, s, site, fr):
    # the body calls From::from, resolved
    if atys[0] is not None and atys[0] == rty:
        return [(args[0], s)]
    inst = ip.p.by_id.get(fn["id"])
    if inst and inst["body"]:
        return ip.call_body(inst, args, s, (site, inst["id"]), fr.depth + 1, fr.stack)
    return None


@model("core::mem::swap")
def mem_swap(ip, fn, args, atys, rty, s, site, fr):
    a, b = deref(ip, s, args[0]), deref(ip, s, args[1])
    s = wr(ip, s, args[0], b)
    s = wr(ip, s, args[1], a)
    return [(UNIT, s)]


@model("core::mem::replace")
def mem_replace(ip, fn, args, atys, rty, s, site, fr):
    a = deref(ip, s, args[0])
    return [(a, wr(ip, s, args[0], args[1]))]


@model("core::mem::take")
def mem_take(ip, fn, args, atys, rty, s, site, fr):
    a = deref(ip, s, args[0])
    return [(a, wr(ip, s, args[0], default_of(ip, rty)))]


@model("arrayvec::arrayvec::ArrayVec::<T, CAP>::take")
def array_take(ip, fn, args, atys, rty, s, site, fr):
    return [(deref(ip, s, args[0]), wr(ip, s, args[0], T("empty")))]


@model("core::mem::drop")
def mem_drop(ip, fn, args, atys, rty, s, site, fr):
    return [(UNIT, s)]


def default_of(ip, t):
    ty = ip.p.types[t] if t is not None else None
    if ty is None:
        return T("default", t)
    k = ty["k"]
    if k in ("int", "uint"):
        return I(0)
    if k == "float":
        return F(0.0)
    if k == "bool":
        return FALSE
    if k == "tuple":
        return tup(*[default_of(ip, x) for x in ty["ts"]])
    if k == "adt":
        if is_coll_path(ty["path"]):
            return T("empty")
        if ty["path"] == OPT:
            return NONE
    return T("default", t)


def is_coll_path(p):
    return p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "arrayvec::arrayvec::ArrayVec",
                 "alloc::collections::btree::set::BTreeSet", "alloc::collections::btree::map::BTreeMap",
                 "alloc::collections::binary_heap::BinaryHeap", "std::collections::hash::map::HashMap",
                 "std::collections::hash::set::HashSet", "alloc::string::String")


@tmodel("core::default::Default", "default")
def default(ip, fn, args, atys, rty, s, site, fr):
    v = default_of(ip, rty)
    if v[0] == "default":
        return None
    return [(v, s)]


# ------------------------------------------------------------------ comparisons

def ordering_outcomes(ip, kind, a, b, s, partial):
    """Three (or four) outcomes of comparing two scalars."""
    out = []
    for o, val in (("<", LESS), ("=", EQUAL), (">", GREATER)):
        r = ip.restrict(s, kind, a, b, frozenset(o))
        if r is not None:
            out.append((some(val) if partial else val, r))
    if partial and kind == "f":
        r = ip.restrict(s, kind, a, b, frozenset("u"))
        if r is not None:
            out.append((NONE, r))
    return out


def scalar_kind(ip, t):
    while t is not None and ip.p.types[t]["k"] == "ref":
        t = ip.p.types[t]["t"]
    return (ip.num_kind(t) if t is not None else "o"), t


def strip(ip, s, v, t):
    """Dereference v : t through references."""
    while t is not None and ip.p.types[t]["k"] == "ref":
        v = deref(ip, s, v)
        t = ip.p.types[t]["t"]
    return v


def num(v):
    return I(int(v[1])) if v[0] == "b" else (T("bool2int", v) if v[0] in ("cmp", "not", "and", "or", "isdiscr") else v)


@tmodel("core::cmp::Ord", "cmp")
def ord_cmp(ip, fn, args, atys, rty, s, site, fr):
    k, t = scalar_kind(ip, atys[0] if atys[0] is not None else (fn["targs"][0] if fn["targs"] else None))
    if k not in ("i", "bool"):
        if k == "o" and t is not None and ip.p.types[t]["k"] == "tuple":
            return lex_cmp(ip, strip(ip, s, args[0], atys[0]), strip(ip, s, args[1], atys[1]), t, s, site, fr, False)
        return None
    a, b = strip(ip, s, args[0], atys[0]), strip(ip, s, args[1], atys[1])
    return ordering_outcomes(ip, "i", num(a), num(b), s, False)


@tmodel("core::cmp::PartialOrd", "partial_cmp")
def partial_cmp(ip, fn, args, atys, rty, s, site, fr):
    k, t = scalar_kind(ip, atys[0])
    if k not in ("i", "bool", "f"):
        if k == "o" and t is not None and ip.p.types[t]["k"] == "tuple":
            return lex_cmp(ip, strip(ip, s, args[0], atys[0]), strip(ip, s, args[1], atys[1]), t, s, site, fr, True)
        return None
    a, b = strip(ip, s, args[0], atys[0]), strip(ip, s, args[1], atys[1])
    kk = "f" if k == "f" else "i"
    return ordering_outcomes(ip, kk, num(a) if kk == "i" else a, num(b) if kk == "i" else b, s, True)


@model("core::f64::<impl f64>::total_cmp", "std::f64::<impl f64>::total_cmp")
def total_cmp(ip, fn, args, atys, rty, s, site, fr):
    a, b = deref(ip, s, args[0]), deref(ip, s, args[1])
    return ordering_outcomes(ip, "t", T("total", a), T("total", b), s, False)


def lex_cmp(ip, a, b, t, s, site, fr, partial):
    ty = ip.p.types[t]
    states = [s]
    out = []
    for i, ft in enumerate(ty["ts"]):
        k = ip.num_kind(ft)
        nxt = []
        for st in states:
            x = ip.project(a, ("f", 0, i), st)
            y = ip.project(b, ("f", 0, i), st)
            if k in ("i", "f"):
                res = ordering_outcomes(ip, k, x, y, st, partial)
            else:
                name = "core::cmp::PartialOrd" if partial else "core::cmp::Ord"
                res = user_cmp(ip, x, y, ft, st, site, fr, partial)
                if res is None:
                    return None
            for v, st2 in res:
                if v in (EQUAL, some(EQUAL)):
                    nxt.append(st2)
                else:
                    out.append((v, st2))
        states = nxt
    for st in states:
        out.append((some(EQUAL) if partial else EQUAL, st))
    return out


def user_cmp(ip, x, y, t, s, site, fr, partial):
    """Compare two values of a crate type through its own impl."""
    name = "partial_cmp" if partial else "cmp"
    tr = "core::cmp::PartialOrd" if partial else "core::cmp::Ord"
    tyn = ip.p.types[t]["s"]
    c = [i for i in ip.p.insts if i["body"] and i["trait"] == tr and i["name"] == name and i["self"] == tyn]
    if not c:
        return None
    st = s.copy()
    rx, ry = ("H", ("cmp", site, 0)), ("H", ("cmp", site, 1))
    st.mem[rx], st.mem[ry] = x, y
    return ip.call_body(c[0], [T("ref", rx, ()), T("ref", ry, ())], st, (site, c[0]["id"]), fr.depth + 1, fr.stack)


def _cmpop(op):
    def f(ip, fn, args, atys, rty, s, site, fr):
        k, t = scalar_kind(ip, atys[0])
        a, b = args
        if k in ("i", "f"):
            return [(ip.binop(op, strip(ip, s, a, atys[0]), strip(ip, s, b, atys[1]), k), s)]
        if t is None:
            return None
        if op in ("Eq", "Ne"):
            if not structural(ip, t):
                return None
            x, y = strip(ip, s, a, atys[0]), strip(ip, s, b, atys[1])
            r = struct_eq(ip, s, x, y, t)
            if r is None:
                return None
            return [(ip.bnot(r) if op == "Ne" else r, s)]
        x, y = strip(ip, s, a, atys[0]), strip(ip, s, b, atys[1])
        if ip.p.types[t]["k"] == "tuple":
            res = lex_cmp(ip, x, y, t, s, site, fr, True)
        elif ip.p.types[t]["k"] == "adt" and ip.p.types[t]["local"]:
            res = user_cmp(ip, x, y, t, s, site, fr, True)
        else:
            return None
        if res is None:
            return None
        yes = {"Lt": (LESS,), "Le": (LESS, EQUAL), "Gt": (GREATER,), "Ge": (GREATER, EQUAL)}[op]
        return [(B(v[0] == "agg" and v[2] == 1 and v[3] in yes), st) for v, st in res]
    return f


def structural(ip, t, depth=0):
    """Types whose == is structural on scalars (derived or standard)."""
    ty = ip.p.types[t]
    k = ty["k"]
    if k in ("int", "uint", "float", "bool", "char", "str"):
        return True
    if k == "tuple":
        return all(structural(ip, x, depth + 1) for x in ty["ts"])
    if k == "ref":
        return structural(ip, ty["t"], depth + 1)
    if k == "adt" and depth < 6:
        if ty["path"] in (OPT, RES, ORD, "kurbo::point::Point", "kurbo::vec2::Vec2"):
            return all(structural(ip, f[1], depth + 1) for v in ty["vs"] for f in v["fs"])
        if ty["local"]:
            if not any(i["k"] == "impl" and i["trait"] == "core::cmp::PartialEq" and i["self"].split("<")[0] == ty["s"].split("<")[0] and i["derived"] for i in ip.p.items):
                return False
            return all(structural(ip, f[1], depth + 1) for v in ty["vs"] for f in v["fs"])
    return False


def struct_eq(ip, s, x, y, t):
    ty = ip.p.types[t]
    k = ty["k"]
    if k in ("int", "uint", "char"):
        return ip.binop("Eq", x, y, "i")
    if k == "float":
        return ip.binop("Eq", x, y, "f")
    if k == "bool":
        return ip.binop("Eq", x, y, "bool")
    if k == "ref":
        return struct_eq(ip, s, deref(ip, s, x), deref(ip, s, y), ty["t"])
    if k == "tuple":
        r = TRUE
        for i, ft in enumerate(ty["ts"]):
            r = ip.band(r, struct_eq(ip, s, ip.project(x, ("f", 0, i), s), ip.project(y, ("f", 0, i), s), ft))
        return r
    if k == "adt":
        vs = ty["vs"]
        if ty["ak"] == "struct":
            r = TRUE
            for i, f in enumerate(vs[0]["fs"]):
                r = ip.band(r, struct_eq(ip, s, ip.project(x, ("f", 0, i), s), ip.project(y, ("f", 0, i), s), f[1]))
            return r
        if x[0] == "agg" and y[0] == "agg":
            if x[2] != y[2]:
                return FALSE
            r = TRUE
            for i, f in enumerate(vs[x[2]]["fs"]):
                r = ip.band(r, struct_eq(ip, s, x[3 + i], y[3 + i], f[1]))
            return r
        if x[0] != "agg" and y[0] == "agg":
            x, y = y, x
        if x[0] == "agg":
            d = int(vs[x[2]]["d"])
            r = isdiscr(s, y, d)
            for i, f in enumerate(vs[x[2]]["fs"]):
                r = ip.band(r, struct_eq(ip, s, x[3 + i], T("fld", y, x[2], i), f[1]))
            return r
        if x is y and not has_float(ip, t):
            return TRUE
        return T("cmp", "Eq", "o", *sorted((x, y), key=id)) if False else T("cmp", "Eq", "o", x, y)
    return None


def has_float(ip, t, d=0):
    ty = ip.p.types[t]
    if ty["k"] == "float":
        return True
    if d > 5:
        return False
    if ty["k"] == "tuple":
        return any(has_float(ip, x, d + 1) for x in ty["ts"])
    if ty["k"] == "adt":
        return any(has_float(ip, f[1], d + 1) for v in ty["vs"] for f in v["fs"])
    return False


def isdiscr(s, v, d):
    if v[0] == "agg":
        return B(v[2] == d)
    return T("isdiscr", T("discr", v), d)


for _n, _o in (("eq", "Eq"), ("ne", "Ne")):
    TRAIT_MODELS[("core::cmp::PartialEq", _n)] = _cmpop(_o)
for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    _f = _cmpop(_o)
    _f.even_local = True
    TRAIT_MODELS[("core::cmp::PartialOrd", _n)] = _f


@tmodel("core::cmp::Ord", "max", "min")
def ord_max(ip, fn, args, atys, rty, s, site, fr):
    k, t = scalar_kind(ip, rty)
    name = fn["name"]
    a, b = args
    if k == "i":
        res = ordering_outcomes(ip, "i", a, b, s, False)
    elif t is not None and ip.p.types[t]["k"] == "adt" and ip.p.types[t]["local"]:
        res = user_cmp(ip, a, b, t, s, site, fr, False)
        if res is None:
            return None
    else:
        return None
    out = []
    for v, st in res:
        if name == "max":
            out.append((a if v is GREATER else b, st))
        else:
            out.append((b if v is GREATER else a, st))
    return out


MODELS["core::cmp::max"] = None
MODELS["core::cmp::min"] = None


@model("core::cmp::max", "core::cmp::min")
def cmp_max(ip, fn, args, atys, rty, s, site, fr):
    return ord_max(ip, dict(fn, name=fn["path"].split("::")[-1]), args, atys, rty, s, site, fr)


# ------------------------------------------------------------------ f64 / integers

def _fun1(name):
    def f(ip, fn, args, atys, rty, s, site, fr):
        a = args[0]
        c = fconst(a)
        if name == "fabs":
            if c is not None:
                return [(F(abs(c)), s)]
            if a[0] in ("fneg",):
                a = a[1]
            if a[0] == "fabs":
                return [(a, s)]
            if a[0] == "fsub" and str(id(a[1])) and False:
                pass
        return [(T(name, a), s)]
    return f


for _b in ("core::f64::<impl f64>::", "std::f64::<impl f64>::", "std::num::f64::<impl f64>::", "core::num::f64::<impl f64>::"):
    for _m in ("abs", "sqrt", "floor", "ceil", "round", "signum", "sin", "cos", "cbrt", "exp", "ln", "trunc", "fract",
               "to_bits", "recip", "acos", "tan", "to_radians", "exp2", "log2"):
        MODELS[_b + _m] = _fun1("f" + _m)

    def _minmax(which):
        def f(ip, fn, args, atys, rty, s, site, fr):
            a, b = args
            ca, cb = fconst(a), fconst(b)
            if ca is not None and cb is not None:
                if ca != ca:
                    return [(b, s)]
                if cb != cb:
                    return [(a, s)]
                return [(F((min if which == "min" else max)(ca, cb)), s)]
            from engine import atom_no
            if atom_no(a) > atom_no(b):
                a, b = b, a
            if a is b:
                return [(a, s)]
            return [(T("f" + which, a, b), s)]
        return f
    MODELS[_b + "min"] = _minmax("min")
    MODELS[_b + "max"] = _minmax("max")

    def _isnan(ip, fn, args, atys, rty, s, site, fr):
        return [(ip.binop("Ne", args[0], args[0], "f"), s)]
    MODELS[_b + "is_nan"] = _isnan

    def _pred(name):
        def f(ip, fn, args, atys, rty, s, site, fr):
            c = fconst(args[0])
            if c is not None:
                import math
                r = {"is_finite": math.isfinite(c), "is_infinite": math.isinf(c),
                     "is_sign_negative": math.copysign(1, c) < 0, "is_sign_positive": math.copysign(1, c) > 0}[name]
                return [(B(r), s)]
            return [(T("f" + name, args[0]), s)]
        return f
    for _m in ("is_finite", "is_infinite", "is_sign_negative", "is_sign_positive"):
        MODELS[_b + _m] = _pred(_m)

    def _fn2(name):
        def f(ip, fn, args, atys, rty, s, site, fr):
            return [(T("f" + name, *args), s)]
        return f
    for _m in ("powi", "powf", "hypot", "atan2", "mul_add", "clamp", "copysign", "rem_euclid"):
        MODELS[_b + _m] = _fn2(_m)

for _t in ("usize", "u64", "u32", "i32", "i64", "isize", "u8"):
    _b = "core::num::<impl %s>::" % _t

    def _sat_sub(ip, fn, args, atys, rty, s, site, fr):
        a, b = args
        out = []
        r = int_restrict(s, a, b, frozenset(">="))
        if r is not None:
            out.append((isub(a, b), r))
        r = int_restrict(s, a, b, frozenset("<"))
        if r is not None:
            out.append((I(0), r))
        return out
    if _t[0] == "u":
        MODELS[_b + "saturating_sub"] = _sat_sub

        def _chk_sub(ip, fn, args, atys, rty, s, site, fr):
            a, b = args
            out = []
            r = int_restrict(s, a, b, frozenset(">="))
            if r is not None:
                out.append((some(isub(a, b)), r))
            r = int_restrict(s, a, b, frozenset("<"))
            if r is not None:
                out.append((NONE, r))
            return out
        MODELS[_b + "checked_sub"] = _chk_sub

    def _wadd(ip, fn, args, atys, rty, s, site, fr):
        return [(iadd(args[0], args[1]), s)]

    def _wsub(ip, fn, args, atys, rty, s, site, fr):
        return [(isub(args[0], args[1]), s)]
    MODELS[_b + "wrapping_add"] = _wadd
    MODELS[_b + "saturating_add"] = _wadd
    MODELS[_b + "wrapping_sub"] = _wsub


# operators on references (`&a + b`) and compound assignment on scalars
_ARITH = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}
for _n, _o in _ARITH.items():
    def _mk(op):
        def f(ip, fn, args, atys, rty, s, site, fr):
            k, _ = scalar_kind(ip, atys[0])
            k2, _ = scalar_kind(ip, atys[1])
            if k not in ("i", "f", "bool") or k2 not in ("i", "f", "bool"):
                return None
            return [(ip.binop(op, strip(ip, s, args[0], atys[0]), strip(ip, s, args[1], atys[1]), k), s)]
        return f
    _tr = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(_n)
    if _tr:
        TRAIT_MODELS[("core::ops::arith::" + _tr, _n)] = _mk(_o)

        def _mka(op):
            def f(ip, fn, args, atys, rty, s, site, fr):
                k, _ = scalar_kind(ip, atys[0])
                k2, _ = scalar_kind(ip, atys[1])
                if k not in ("i", "f") or k2 not in ("i", "f"):
                    return None
                v = ip.binop(op, deref(ip, s, args[0]), strip(ip, s, args[1], atys[1]), k)
                return [(UNIT, wr(ip, s, args[0], v))]
            return f
        TRAIT_MODELS[("core::ops::arith::" + _tr + "Assign", _n + "_assign")] = _mka(_o)


# ------------------------------------------------------------------ Vec and slices

VEC = ("alloc::vec::Vec::<T>::", "alloc::vec::Vec::<T, A>::", "core::slice::<impl [T]>::", "alloc::slice::<impl [T]>::",
       "alloc::collections::vec_deque::VecDeque::<T, A>::", "alloc::collections::vec_deque::VecDeque::<T>::",
       "arrayvec::arrayvec::ArrayVec::<T, CAP>::")


def vec(*names):
    def deco(f):
        for n in names:
            for p in VEC:
                MODELS[p + n] = f
        return f
    return deco


@vec("new", "with_capacity", "new_const", "with_capacity_in", "new_in")
def vec_new(ip, fn, args, atys, rty, s, site, fr):
    return [(T("empty"), s)]


@vec("push", "push_back")
def vec_push(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    st = wr(ip, s, args[0], T("push", v, args[1]))
    return [(UNIT, st)]


@vec("len")
def vec_len(ip, fn, args, atys, rty, s, site, fr):
    return [(ip.length(deref(ip, s, args[0])), s)]


def room(ip, t):
    """The capacity in the type of a list."""
    while t is not None and ip.p.types[t]["k"] == "ref":
        t = ip.p.types[t]["t"]
    s = ip.p.types[t]["s"] if t is not None else ""
    n = s.rpartition(", ")[2].rstrip(">")
    return I(int(n)) if s.startswith("arrayvec::") and n.isdigit() else None


@vec("is_full")
def vec_is_full(ip, fn, args, atys, rty, s, site, fr):
    n = room(ip, atys[0])
    return None if n is None else [(ip.binop("Eq", ip.length(deref(ip, s, args[0])), n, "i"), s)]


@vec("capacity")
def vec_capacity(ip, fn, args, atys, rty, s, site, fr):
    n = room(ip, atys[0])
    return None if n is None else [(n, s)]


@vec("remaining_capacity")
def vec_remaining(ip, fn, args, atys, rty, s, site, fr):
    n = room(ip, atys[0])
    return None if n is None else [(isub(n, ip.length(deref(ip, s, args[0]))), s)]


@vec("is_empty")
def vec_is_empty(ip, fn, args, atys, rty, s, site, fr):
    n = ip.length(deref(ip, s, args[0]))
    return [(ip.binop("Eq", n, I(0), "i"), s)]


@vec("clear")
def vec_clear(ip, fn, args, atys, rty, s, site, fr):
    return [(UNIT, wr(ip, s, args[0], T("empty")))]


@vec("reserve", "shrink_to_fit", "reserve_exact")
def vec_reserve(ip, fn, args, atys, rty, s, site, fr):
    return [(UNIT, s)]


@vec("pop", "pop_back")
def vec_pop(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    n = ip.length(v)
    out = []
    r = int_restrict(s, n, I(0), frozenset("="))
    if r is not None:
        out.append((NONE, r))
    r = int_restrict(s, n, I(0), frozenset(">"))
    if r is not None:
        if v[0] == "push":
            out.append((some(v[2]), wr(ip, r, args[0], v[1])))
        else:
            x = ip.select(v, isub(n, I(1)), r)
            out.append((some(x), wr(ip, r, args[0], T("slice", v, I(0), isub(n, I(1))))))
    return out


@vec("pop_front")
def vec_pop_front(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    n = ip.length(v)
    out = []
    r = int_restrict(s, n, I(0), frozenset("="))
    if r is not None:
        out.append((NONE, r))
    r = int_restrict(s, n, I(0), frozenset(">"))
    if r is not None:
        out.append((some(ip.select(v, I(0), r)), wr(ip, r, args[0], T("slice", v, I(1), n))))
    return out


@vec("push_front")
def vec_push_front(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    return [(UNIT, wr(ip, s, args[0], T("pushfront", v, args[1])))]


@vec("resize")
def vec_resize(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    return [(UNIT, wr(ip, s, args[0], T("resized", v, args[1], args[2])))]


@vec("last", "last_mut", "first", "first_mut", "back", "back_mut", "front", "front_mut")
def vec_last(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    n = ip.length(v)
    last = fn["name"].startswith(("last", "back"))
    out = []
    r = int_restrict(s, n, I(0), frozenset(">"))
    if r is not None:
        i = isub(n, I(1)) if last else I(0)
        out.append((some(refto(ip, args[0], ("idx", i))), r))
    r = int_restrict(s, n, I(0), frozenset("="))
    if r is not None:
        out.append((NONE, r))
    return out


@vec("split_first", "split_last", "split_first_mut", "split_last_mut")
def vec_split_off_one(ip, fn, args, atys, rty, s, site, fr):
    n = ip.length(deref(ip, s, args[0]))
    last = fn["name"].startswith("split_last")
    out = []
    r = int_restrict(s, n, I(0), frozenset(">"))
    if r is not None:
        m = isub(n, I(1))
        i, a, b = (m, I(0), m) if last else (I(0), I(1), n)
        out.append((some(tup(refto(ip, args[0], ("idx", i)), refto(ip, args[0], ("slc", a, b)))), r))
    r = int_restrict(s, n, I(0), frozenset("="))
    if r is not None:
        out.append((NONE, r))
    return out


@vec("get", "get_mut")
def vec_get(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    i = args[1]
    if i[0] == "agg" and i[1].startswith("core::ops::range"):
        return None
    n = ip.length(v)
    out = []
    r = int_restrict(s, i, n, frozenset("<"))
    if r is not None:
        out.append((some(refto(ip, args[0], ("idx", i))), r))
    r = int_restrict(s, i, n, frozenset(">="))
    if r is not None:
        out.append((NONE, r))
    return out


@tmodel("core::ops::index::Index", "index")
def index(ip, fn, args, atys, rty, s, site, fr):
    t = atys[0]
    t = ip.p.types[t]["t"] if t is not None and ip.p.types[t]["k"] == "ref" else None
    ty = ip.p.types[t] if t is not None else None
    if ty is None or not (ty["k"] in ("slice", "array") or ty["k"] == "adt" and is_coll_path(ty["path"])):
        return None
    i = args[1]
    it = ip.p.types[atys[1]]
    if it["k"] == "adt" and it["path"].startswith("core::ops::range"):
        v = deref(ip, s, args[0])
        n = ip.length(v)
        p = it["path"].split("::")[-1]
        g = lambda k: ip.project(i, ("f", 0, k), s)
        a, b = {"Range": lambda: (g(0), g(1)), "RangeFrom": lambda: (g(0), n), "RangeTo": lambda: (I(0), g(0)),
                "RangeFull": lambda: (I(0), n), "RangeInclusive": lambda: (g(0), iadd(g(1), I(1))),
                "RangeToInclusive": lambda: (I(0), iadd(g(0), I(1)))}[p]()
        return [(refto(ip, args[0], ("slc", a, b)), s)]
    if "hash" in ty.get("path", "") or "BTreeMap" in ty.get("path", ""):
        i = ip.content(i, s)
        if i[0] == "&":
            i = i[1]
        return [(refto(ip, args[0], ("idx", i)), st) for b, st in map_has(ip, deref(ip, s, args[0]), i, s) if b]
    else:
        v = deref(ip, s, args[0])
        r = int_restrict(s, i, ip.length(v), frozenset("<"))
        if r is None:
            return []
        s = r
    return [(refto(ip, args[0], ("idx", i)), s)]


TRAIT_MODELS[("core::ops::index::IndexMut", "index_mut")] = index


@vec("swap")
def vec_swap(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    a, b = ip.select(v, args[1], s), ip.select(v, args[2], s)
    w = ip.store(ip.store(v, args[1], b, s), args[2], a, s)
    return [(UNIT, wr(ip, s, args[0], w))]


@vec("reverse")
def vec_reverse(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    return [(UNIT, wr(ip, s, args[0], v[1] if v[0] == "reversed" else T("reversed", v)))]


@vec("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def vec_sort(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    keyf = ip.content(args[1], s) if len(args) > 1 else UNIT
    return [(UNIT, wr(ip, s, args[0], T("sorted", v, fn["name"], keyf)))]


@vec("truncate")
def vec_truncate(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    if args[1] is I(0):
        return [(UNIT, wr(ip, s, args[0], T("empty")))]
    n = ip.length(v)
    out = []
    r = int_restrict(s, args[1], n, frozenset("<"))
    if r is not None:
        out.append((UNIT, wr(ip, r, args[0], T("slice", v, I(0), args[1]))))
    r = int_restrict(s, args[1], n, frozenset(">="))
    if r is not None:
        out.append((UNIT, r))
    return out


@vec("insert")
def vec_insert(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    if ip.bulk:
        s = int_restrict(s, args[1], ip.length(v), frozenset("<="))
        if s is None:
            return []
    return [(UNIT, wr(ip, s, args[0], T("insert", v, args[1], args[2])))]


@vec("remove", "swap_remove")
def vec_remove(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    if ip.bulk:
        s = int_restrict(s, args[1], ip.length(v), frozenset("<"))
        if s is None:
            return []
    x = ip.select(v, args[1], s)
    if fn["path"].startswith("alloc::collections"):
        x = some(x)
    return [(x, wr(ip, s, args[0], T(fn["name"], v, args[1])))]


@vec("contains")
def vec_contains(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    return [(T("contains", v, deref(ip, s, args[1])), s)]


@vec("extend_from_slice")
def vec_extend_from_slice(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    w = deref(ip, s, args[1])
    return [(UNIT, wr(ip, s, args[0], extend(ip, v, w)))]


def extend(ip, v, w):
    if w[0] == "empty" or w[0] == "agg" and w[1] == "array" and len(w) == 3:
        return v
    if w[0] == "agg" and w[1] == "array":
        for x in w[3:]:
            v = T("push", v, x)
        return v
    if ip.bulk and v[0] == "empty":
        return w
    return T("extend", v, w)


@vec("append")
def vec_append(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    w = deref(ip, s, args[1])
    st = wr(ip, s, args[0], extend(ip, v, w))
    return [(UNIT, wr(ip, st, args[1], T("empty")))]


@vec("retain", "retain_mut")
def vec_retain(ip, fn, args, atys, rty, s, site, fr):
    """As a loop that builds the list of what stays; the list itself is untouched meanwhile."""
    if fn["name"] != "retain":
        return None
    new, f = ("H", ("retained", site)), ("H", ("retains", site))
    st = s.copy()
    st.mem[new], st.mem[f] = T("empty"), args[1]

    def body(v, s1):
        r = ip.call_value(T("ref", f, ()), [v], s1, (site, "keep"), fr, None)
        if r is None:
            raise EngineError("retain callee")
        out = []
        for b, s2 in r:
            for keep, s3 in [(k, x) for k in (True, False) for x in assume(s2, b, k)]:
                if keep:
                    s3 = s3.copy()
                    s3.mem[new] = T("push", s3.mem[new], deref(ip, s3, v))
                out.append(("next", None, s3))
        return out
    res = internal_loop(ip, mkiter(T("refs", args[0])), st, site, fr, body, counted=True)
    return [(UNIT, wr(ip, x, args[0], x.mem[new])) for x in res["after"]]


@vec("dedup", "dedup_by_key", "dedup_by")
def vec_dedup(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    return [(UNIT, wr(ip, s, args[0], T("dedup", v, *[ip.content(a, s) for a in args[1:]])))]


@vec("split_at", "split_at_mut")
def vec_split_at(ip, fn, args, atys, rty, s, site, fr):
    k = args[1]
    n = ip.length(deref(ip, s, args[0]))
    r = int_restrict(s, k, n, frozenset("<="))
    if r is None:
        return []
    return [(tup(refto(ip, args[0], ("slc", I(0), k)), refto(ip, args[0], ("slc", k, n))), r)]


@vec("partition_point")
def vec_partition_point(ip, fn, args, atys, rty, s, site, fr):
    """The elements before the answer satisfy the predicate, those from there on do not."""
    coll = deref(ip, s, args[0])
    i = T("partition", coll, ip.content(args[1], s))
    n = ip.length(coll)
    st = int_restrict(s, i, n, frozenset("<="))
    st = st and int_restrict(st, i, I(0), frozenset(">="))
    if st is None:
        return [(i, s)]
    root, p = ip.target(args[0])

    def side(st, k, want, tag):
        r = ip.call_value(args[1], [T("ref", root, p + (("idx", k),))], st, (site, tag), fr, None)
        if r is None:
            return [st]
        return [y for b, x in r for y in assume(x, b, want)]
    out = []
    for o in ("=", ">"):
        a = int_restrict(st, i, I(0), frozenset(o))
        if a is None:
            continue
        for b in ([a] if o == "=" else side(a, isub(i, I(1)), True, "pp1")):
            for o2 in ("=", "<"):
                c = int_restrict(b, i, n, frozenset(o2))
                if c is None:
                    continue
                out += [(i, d) for d in ([c] if o2 == "=" else side(c, i, False, "pp2"))]
    return out


def cut(v, a, b):
    return T("empty") if a is b else T("slice", v, a, b)


@vec("drain")
def vec_drain(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    r = args[1]
    full = r[0] == "agg" and r[1].endswith("RangeFull")
    if r[0] == "agg" and r[1].endswith("::RangeFrom") and ip.bulk:
        n = ip.length(v)
        st = int_restrict(s, r[3], n, frozenset("<="))
        return [] if st is None else [(mkiter(T("slice", v, r[3], n)), wr(ip, st, args[0], T("slice", v, I(0), r[3])))]
    if r[0] == "agg" and r[1].endswith("::RangeFrom"):
        return [(mkiter(T("drain", v, r)), st) for _, st in vec_truncate(ip, fn, [args[0], r[3]], atys, None, s, site, fr)]
    n = ip.length(v)
    if r[0] == "agg" and r[1].endswith("::Range") and ip.bulk:
        st = int_restrict(s, r[3], r[4], frozenset("<="))
        st = st and int_restrict(st, r[4], n, frozenset("<="))
        return [] if st is None else [(mkiter(T("slice", v, r[3], r[4])), wr(ip, st, args[0], extend(ip, cut(v, I(0), r[3]), cut(v, r[4], n))))]
    to = None
    if r[0] == "agg" and r[1].endswith("::RangeTo"):
        to = r[3]
    elif r[0] == "agg" and r[1].endswith("::Range") and r[3] is I(0):
        to = r[4]
    full = full or to is n
    if to is not None and not full:
        # a drained beginning: what is left is the rest
        st = int_restrict(s, to, n, frozenset("<="))
        if st is None:
            return []
        return [(mkiter(T("slice", v, I(0), to)), wr(ip, st, args[0], T("slice", v, to, n)))]
    st = wr(ip, s, args[0], T("empty") if full else T("drained", v, r))
    return [(mkiter(v if full else T("drain", v, r)), st)]


@model("alloc::vec::from_elem")
def vec_from_elem(ip, fn, args, atys, rty, s, site, fr):
    return [(T("repeat", args[0], args[1]), s)]


@model("alloc::boxed::Box::<T>::new", "alloc::boxed::box_new")
def box_new(ip, fn, args, atys, rty, s, site, fr):
    st = s.copy()
    root = ("H", (site, st.nheap))
    st.nheap += 1
    st.mem[root] = args[0]
    return [(T("ref", root, ()), st)]


@model("alloc::slice::<impl [T]>::into_vec")
def into_vec(ip, fn, args, atys, rty, s, site, fr):
    return [(deref(ip, s, args[0]) if args[0][0] == "ref" else args[0], s)]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    while True:
        if v[0] == "union":
            v = v[2]
        elif v[0] == "upd":
            v = v[3]
        elif v[0] == "agg" and v[1] != "array" and len(v) == 4:
            v = v[3]
        else:
            break
    if v[0] == "agg" and v[1] == "array":
        r = T("empty")
        for x in v[3:]:
            r = T("push", r, x)
        v = r
    return [(v, s)]


@model("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(ip, fn, args, atys, rty, s, site, fr):
    return box_new(ip, fn, [T("undef", "uninit", site, s.nheap)], atys, rty, s, site, fr)


# ------------------------------------------------------------------ iterators
#
# An iterator is agg("it", 0, source, pos): `source` is fixed, `pos` changes with every step.
# sources: a collection value; ("refs", location); ("mapped", it-source, closure) ...

def mkiter(src, pos=None):
    return T("agg", "it", 0, src, pos if pos is not None else I(0))


def is_iter(v):
    return v[0] == "agg" and v[1] == "it"


RINC = "core::ops::range::RangeInclusive"


@model(RINC + "::<Idx>::new")
def rinc_new(ip, fn, args, atys, rty, s, site, fr):
    return [(T("agg", RINC, 0, args[0], args[1], B(False)), s)]


def plain_range(v):
    """An inclusive range of integers, to go through, as one without its end."""
    return T("agg", "core::ops::range::Range", 0, v[3], iadd(v[4], I(1))) if v[0] == "agg" and v[1] == RINC else v


def iter_of(ip, v, t, s):
    """An iterator value for IntoIterator::into_iter(v : t)."""
    if is_iter(v):
        return v
    if v[0] == "agg" and v[1] == RINC:
        return plain_range(v)
    ty = ip.p.types[t] if t is not None else None
    if ty is None:
        return None
    if ty["k"] == "adt":
        if is_coll_path(ty["path"]):
            return mkiter(v)
        if ty["path"] == OPT:
            return mkiter(T("optiter", v))
        return None
    if ty["k"] == "array":
        return mkiter(v)
    if ty["k"] in ("ref",):
        inner = ip.p.types[ty["t"]]
        if inner["k"] in ("slice", "array") or inner["k"] == "adt" and is_coll_path(inner["path"]):
            return mkiter(T("refs", v))
    return None


@tmodel("core::iter::traits::collect::IntoIterator", "into_iter")
def into_iter(ip, fn, args, atys, rty, s, site, fr):
    it = iter_of(ip, args[0], atys[0], s)
    if it is not None:
        return [(it, s)]
    # iterators are their own IntoIterator
    if atys[0] is not None and atys[0] == rty:
        return [(args[0], s)]
    return None


@vec("iter", "iter_mut")
def vec_iter(ip, fn, args, atys, rty, s, site, fr):
    return [(mkiter(T("refs", args[0])), s)]


def _setiter(name):
    def f(ip, fn, args, atys, rty, s, site, fr):
        return [(mkiter(T("refs", args[0], name)), s)]
    return f


for _p in ("alloc::collections::btree::set::BTreeSet::<T, A>::iter", "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter",
           "std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::map::HashMap::<K, V, S>::iter",
           "alloc::collections::binary_heap::BinaryHeap::<T, A>::iter"):
    MODELS[_p] = _setiter(_p.split("::")[-1])


def _slice_adapter(name):
    def f(ip, fn, args, atys, rty, s, site, fr):
        return [(mkiter(T(name, args[0], *args[1:])), s)]
    return f


for _n in ("windows", "chunks", "chunks_exact", "split", "chunk_by"):
    for _p in VEC:
        MODELS[_p + _n] = _slice_adapter(_n)

IT = "core::iter::traits::iterator::Iterator"


def own_next(ip, v):
    """The `next` of an iterator the crate defines itself, if v is one."""
    if v[0] != "agg" or not isinstance(v[1], str):
        return None
    c = getattr(ip.p, "own_nexts", None)
    if c is None:
        c = ip.p.own_nexts = {}
        for i in ip.p.insts:
            if i["body"] and i["key"].endswith("as core::iter::traits::iterator::Iterator>::next") and i["body"]["argc"] == 1:
                t = ip.p.types[i["body"]["locals"][1]]
                t = ip.p.types[t["t"]] if t["k"] == "ref" else t
                if t["k"] == "adt" and t["path"].startswith("linesweeper::"):
                    c[t["path"]] = i
    return c.get(v[1])


def pullable(ip, v):
    return ip.pull and (own_next(ip, v) is not None or v[0] == "cons" or v[0] == "agg" and v[1] == "lazy")


def pull(ip, root, path, s, site, fr):
    """[(the next element of the iterator kept at a place or None, state)]"""
    v = ip.read_loc(s, (root, path))
    if v[0] == "cons":
        if v[1] is None:
            return [(None, s)]
        st = s.copy()
        ip.write_loc(st, (root, path), v[2])
        return [(v[1], st)]
    if v[0] == "agg" and v[1] == "lazy":
        name, f = v[3], v[5]
        out = []
        for x, st in pull(ip, root, path + (("f", 0, 1),), s, site, fr):
            if x is None:
                out.append((None, st))
            elif name == "map":
                out += [(y, z) for y, z in must_call(ip, f, [x], st, (site, "map"), fr)]
            else:
                raise EngineError("adapter %s" % name)
        return out
    inst = own_next(ip, v)
    if inst is not None:
        r = ip.call_body(inst, [T("ref", root, path)], s, (site, "pull"), fr.depth + 1, fr.stack)
    elif is_iter(v):
        r = step(ip, T("ref", root, path), v[3], v[4], s, site, fr)
    else:
        raise EngineError("cannot go through %s" % str(v)[:100])
    out = []
    for x, st in r:
        out += opt_cases(ip, x, st)
    return out


def must_call(ip, f, args, s, site, fr):
    r = ip.call_value(f, args, s, site, fr, None)
    if r is None:
        raise EngineError("unknown callee")
    return r


def pull_loop(ip, root, path, s, site, fr, body):
    v = ip.read_loc(s, (root, path))
    if v[0] == "cons":
        # the element in front first: what follows is another iterator
        res = {"ret": [], "after": []}
        for x, st in pull(ip, root, path, s, site, fr):
            if x is None:
                res["after"].append(st)
                continue
            for kind, val, st2 in body(x, st):
                if kind == "stop":
                    res["ret"].append((val, st2))
                else:
                    r = pull_loop(ip, root, path, st2, (site, "rest"), fr, body)
                    res["ret"] += r["ret"]
                    res["after"] += r["after"]
        return res
    lid = ip.fid("iloop", fr.fid, site)
    ip.loop_fn[lid] = (fr.inst["id"], lid)

    def stepf(hs):
        back, exits, after = [], [], []
        for x, st in pull(ip, root, path, hs.copy(), site, fr):
            if x is None:
                after.append(st)
                continue
            for kind, val, st2 in body(x, st):
                if kind == "next":
                    back.append(st2)
                else:
                    exits.append((val, st2))
        return back, {"ret": exits, "after": after}
    return ip.fix(lid, s, stepf)


def pull_skip_while(ip, v, pred, s, site, fr):
    root = ("H", ("pull", site))
    st = s.copy()
    st.mem[root] = v
    arg = ("H", ("pulled", site))

    def body(x, s1):
        s1 = s1.copy()
        s1.mem[arg] = x
        out = []
        for b, s2 in must_call(ip, pred, [T("ref", arg, ())], s1, (site, "pred"), fr):
            for z in assume(s2, b, True):
                out.append(("next", None, z))
            for z in assume(s2, b, False):
                out.append(("stop", x, z))
        return out
    res = pull_loop(ip, root, (), st, site, fr, body)
    out = [(T("cons", x, z.mem[root]), z) for x, z in res["ret"]]
    out += [(T("cons", None, z.mem[root]), z) for z in res["after"]]
    return out


@tmodel(IT, "by_ref")
def by_ref(ip, fn, args, atys, rty, s, site, fr):
    return [(args[0], s)] if ip.pull else None


def adapter(name, *more):
    def f(ip, fn, args, atys, rty, s, site, fr):
        if pullable(ip, args[0]) or ip.pull and name == "skip_while" and is_iter(args[0]):
            if name == "skip_while":
                return pull_skip_while(ip, args[0], args[1], s, site, fr)
            if name == "map":
                return [(T("agg", "lazy", 0, name, args[0], args[1]), s)]
            if name in ("fuse", "copied", "cloned"):
                return [(args[0], s)]
            raise EngineError("adapter %s over an iterator of the crate" % name)
        if not is_iter(args[0]) and not rangelike(ip, args[0], atys[0]):
            return None
        src = plain_range(args[0])
        rest = list(args[1:])
        if name in ("zip", "chain"):
            it = iter_of(ip, rest[0], atys[1], s)
            if it is None:
                it = rest[0]
                if not (is_iter(it) or rangelike(ip, it, atys[1])):
                    return None
            rest = [it]
        if name == "flatten":
            r = known_options(ip, src, s)
            if r is not None:
                return [(mkiter(T("agg", "array", 0, *xs)), st) for xs, st in r]
        return [(mkiter(T(name, src, *rest)), s)]
    TRAIT_MODELS[(IT, name)] = f


def known_options(ip, src, s):
    """[(contents, state)] of an iterator over a handful of known options."""
    if not (is_iter(src) and src[4] is I(0) and src[3][0] == "agg" and src[3][1] == "array" and len(src[3]) - 3 <= UNROLL):
        return None
    xs = src[3][3:]
    if not xs or not all(x[0] == "agg" and x[1] == OPT for x in xs):
        return None
    return [([x[3] for x in xs if x[2] == 1], s)]


def rangelike(ip, v, t):
    if t is None:
        return v[0] == "agg" and isinstance(v[1], str) and v[1].startswith("core::ops::range::Range")
    ty = ip.p.types[t]
    return ty["k"] == "adt" and (ty["path"].startswith("core::ops::range::Range") or True)


for _n in ("map", "filter", "filter_map", "zip", "chain", "enumerate", "rev", "skip", "take", "copied", "cloned",
           "peekable", "step_by", "skip_while", "take_while", "flat_map", "flatten", "inspect", "fuse", "map_while", "scan",
           "cycle", "windows"):
    adapter(_n)


def range_next(ip, ref, s, back=False):
    v = deref(ip, s, ref)
    a, b = ip.project(v, ("f", 0, 0), s), ip.project(v, ("f", 0, 1), s)
    out = []
    r = int_restrict(s, a, b, frozenset("<"))
    if r is not None:
        root, p = ip.target(ref)
        st = r.copy()
        if back:
            ip.write_loc(st, (root, p + (("f", 0, 1),)), isub(b, I(1)), None)
            out.append((some(isub(b, I(1))), st))
        else:
            nv = T("agg", v[1] if v[0] == "agg" else "core::ops::range::Range", 0, iadd(a, I(1)), b)
            ip.write_loc(st, (root, p), nv, None)
            out.append((some(a), st))
    r = int_restrict(s, a, b, frozenset(">="))
    if r is not None:
        out.append((NONE, r))
    return out


def elem(ip, src, pos, s, site, fr):
    """Outcomes [(element, state)] of the element of a source at an abstract position."""
    k = src[0]
    if k == "refs":
        root, p = ip.target(src[1])
        return [(T("ref", root, p + (("idx", pos),)), s)]
    if is_iter(src):
        return elem(ip, src[3], pos, s, site, fr)
    if k in ("copied", "cloned"):
        return [(deref(ip, st, v), st) for v, st in elem(ip, src[1], pos, s, site, fr)]
    if k == "enumerate":
        return [(tup(pos, v), st) for v, st in elem(ip, src[1], pos, s, site, fr)]
    if k == "zip":
        out = []
        for v, st in elem(ip, src[1], pos, s, site, fr):
            for w, st2 in elem(ip, src[2], pos, st, site, fr):
                out.append((tup(v, w), st2))
        return out
    if k in ("map", "inspect"):
        out = []
        for v, st in elem(ip, src[1], pos, s, site, fr):
            r = ip.call_value(src[2], [v], st, (site, "map", src), fr, None)
            if r is None:
                c = T("apply", ip.content(src[2], st), ip.content(v, st))
                out.append((c, st))
            else:
                out += r
        return out
    if k in ("filter", "take_while"):
        out = []
        for v, st in elem(ip, src[1], pos, s, site, fr):
            root = ("H", (site, "flt"))
            st = st.copy()
            st.mem[root] = v
            r = ip.call_value(src[2], [T("ref", root, ())], st, (site, "filter", src), fr, None)
            if r is None:
                out.append((v, st))
            else:
                for b, st2 in r:
                    for st3 in assume(st2, b, True):
                        out.append((v, st3))
                    # an element left out, or the end
                    (ip.el_skip if k == "filter" else ip.el_end).extend(assume(st2, b, False))
        return out
    if k == "filter_map":
        out = []
        for v, st in elem(ip, src[1], pos, s, site, fr):
            r = ip.call_value(src[2], [v], st, (site, "fmap", src), fr, None)
            if r is None:
                out.append((T("apply", ip.content(src[2], st), ip.content(v, st)), st))
            else:
                for o, st2 in r:
                    for x, st3 in opt_cases(ip, o, st2):
                        if x is not None:
                            out.append((x, st3))
                        else:
                            ip.el_skip.append(st3)
        return out
    if k in ("skip", "take", "fuse", "peekable", "skip_while", "step_by", "rev", "cycle"):
        inner = src[1]
        p2 = T("pos", k, pos, *src[2:]) if k not in ("fuse", "peekable", "take") else pos
        if k in ("skip", ):
            p2 = iadd(pos, src[2])
        if k == "rev":
            n = known_len(ip, inner, s)
            if n is not None and inner[0] != "skip":
                p2 = isub(isub(n, I(1)), pos)
        return elem(ip, inner, p2, s, site, fr)
    if k == "fromfn":
        out = []
        for o, st in ip.call_value(src[1], [], s, (site, "fromfn", src), fr, None) or []:
            for x, st3 in opt_cases(ip, o, st):
                if x is not None:
                    out.append((x, st3))
                else:
                    ip.el_end.append(st3)
        return out
    if k == "chain":
        out = []
        for first, p2, st in chain_part(ip, src, pos, s):
            out += elem(ip, src[1] if first else src[2], p2, st, site, fr)
        return out
    if k == "agg" and isinstance(src[1], str) and src[1].startswith("core::ops::range::Range"):
        a = src[3]
        v = iadd(a, pos)
        st = s
        if src[1].endswith("::Range"):
            r = int_restrict(s, v, src[4], frozenset("<"))
            if r is None:
                return []
            st = r
        return [(v, st)]
    if k == "windows":
        root, p = ip.target(src[1])
        return [(T("ref", root, p + (("slc", pos, iadd(pos, src[2])),)), s)]
    if k in ("drain",):
        return [(T("sel", src, pos), s)]
    if k == "optiter":
        return [(v, st) for v, st in opt_cases(ip, src[1], s) if v is not None]
    if k in ("flat_map", "flatten", "map_while", "scan", "chunks", "split", "chunks_exact", "chunk_by"):
        return [(T("item", ip.content(src, s), pos), s)]
    if src[0] in ("call", "sym", "fld", "after", "*", "undef"):
        return [(T("item", src, pos), s)]
    return [(ip.select(src, pos, s), s)]


def elems(ip, src, pos, s, site, fr):
    """(outcomes of the element at a position, states in which a filter leaves it out, states in which
    the iterator ends there)"""
    old = ip.el_skip, ip.el_end
    ip.el_skip, ip.el_end = [], []
    try:
        r = elem(ip, src, pos, s, site, fr)
        return r, ip.el_skip, ip.el_end
    finally:
        ip.el_skip, ip.el_end = old


def chain_part(ip, src, pos, s):
    """[(in the first part?, position there, state)] of a position in a chain of two iterators."""
    n = known_len(ip, src[1], s)
    if n is None and pos[0] == "i":
        k = span(ip, src[1], s)
        n = I(k) if k is not None and k <= UNROLL else None
    if n is None:
        return [(True, T("pos", "c1", pos), s), (False, T("pos", "c2", pos), s.copy())]
    out = []
    r = int_restrict(s, pos, n, frozenset("<"))
    if r is not None:
        out.append((True, pos, r))
    r = int_restrict(s, pos, n, frozenset(">="))
    if r is not None:
        # too large a skip makes the length negative
        a = int_restrict(r, n, I(0), frozenset(">="))
        if a is not None:
            out.append((False, isub(pos, n), a))
        # (the position itself is never negative)
        a = int_restrict(r, n, I(0), frozenset("<")) if "<" in int_orders(r, n, pos) else None
        if a is not None:
            out.append((False, pos, a))
    return out


def inside(ip, src, pos, s, through=False):
    """[(is there an element at this position?, state)]
    through: positions are those before any filtering, the caller deals with what filters leave out."""
    out = []
    done = T("done", src, pos)
    for b, st in inside1(ip, src, pos, s, through):
        if src[0] in ("zip", "chain"):
            # what happened is also remembered as a whole
            if st.facts.get(done) is b:
                continue
            if done not in st.facts:
                st = st.copy()
                st.facts[done] = not b
        out.append((b, st))
    return out


def inside1(ip, src, pos, s, through):
    n = known_len(ip, src, s)
    if n is not None:
        out = []
        for b, o in ((True, "<"), (False, ">=")):
            r = int_restrict(s, pos, n, frozenset(o))
            if r is not None:
                out.append((b, r))
        return out
    k = src[0]
    if is_iter(src) and src[4] is I(0):
        return inside(ip, src[3], pos, s, through)
    if k in ("map", "enumerate", "copied", "cloned", "inspect", "fuse", "peekable") or through and k in ("filter", "filter_map", "take_while"):
        return inside(ip, src[1], pos, s, through)
    if k == "zip":
        out = []
        for b, st in inside(ip, src[1], pos, s, through):
            out += inside(ip, src[2], pos, st, through) if b else [(False, st)]
        return out
    if k == "chain" and known_len(ip, src[1], s) is not None:
        out = []
        for first, p2, st in chain_part(ip, src, pos, s):
            out += [(True, st)] if first else inside(ip, src[2], p2, st, through)
        return out
    out = []
    done = T("done", src, pos)
    for b in (True, False):
        if s.facts.get(done) is not b:
            st = s.copy()
            st.facts[done] = not b
            out.append((b, st))
    return out


@tmodel(IT, "next")
def it_next(ip, fn, args, atys, rty, s, site, fr):
    ref = args[0]
    v = deref(ip, s, ref)
    if v[0] == "ref":   # &mut I
        ref, v = v, deref(ip, s, v)
    if pullable(ip, v):
        return [(NONE if x is None else some(x), st) for x, st in pull(ip, *ip.target(ref), s, site, fr)]
    t = atys[0]
    ty = ip.p.types[ip.p.types[t]["t"]] if t is not None and ip.p.types[t]["k"] == "ref" else None
    if v[0] == "agg" and v[1] == RINC:
        st = s.copy()
        ip.write_loc(st, ip.target(ref), plain_range(v), None)
        return range_next(ip, ref, st)
    if ty is not None and ty["k"] == "adt" and ty["path"] in ("core::ops::range::Range", RINC):
        return range_next(ip, ref, s)
    if not is_iter(v):
        return None
    src, pos = v[3], v[4]
    if v[4][0] == "agg" and v[4][1] == "peeked":
        return None
    n = few_sifted(ip, v, s)
    if n is not None:
        return sift(ip, ref, src, pos, n, s, site, fr)
    return step(ip, ref, src, pos, s, site, fr)


def few_sifted(ip, v, s):
    """How many elements remain to be looked at by an iterator that picks from a few known ones."""
    if not is_iter(v) or v[4][0] != "i":
        return None
    n = span(ip, v[3], s)
    if n is None or n - v[4][1] > UNROLL or known_len(ip, v[3], s) is not None:
        return None
    return max(n - v[4][1], 0)


def span(ip, src, s):
    """How many elements are looked at in all by an iterator that may leave some of them out, if known."""
    k = src[0]
    if is_iter(src):
        n = span(ip, src[3], s)
        return n - src[4][1] if n is not None and src[4][0] == "i" else None
    if k in ("map", "filter", "filter_map", "copied", "cloned", "inspect"):
        return span(ip, src[1], s)
    if k == "chain":
        a, b = span(ip, src[1], s), span(ip, src[2], s)
        return None if a is None or b is None else a + b
    n = known_len(ip, src, s)
    return n[1] if n is not None and n[0] == "i" else None


def sift(ip, ref, src, pos, n, s, site, fr):
    root, p = ip.target(ref)
    out, left = [], [s]
    for i in range(n):
        after = mkiter(src, I(pos[1] + i + 1))
        nxt = []
        for st in left:
            els, skips, ends = elems(ip, src, I(pos[1] + i), st, site, fr)
            for v, st2 in els:
                st3 = st2.copy()
                ip.write_loc(st3, (root, p), after)
                out.append((some(v), st3))
            nxt += skips
            out += [(NONE, x) for x in ends]
        left = nxt
    for st in left:
        st = st.copy()
        ip.write_loc(st, (root, p), mkiter(src, I(pos[1] + n)))
        out.append((NONE, st))
    return out


def step(ip, ref, src, pos, s, site, fr, advance=True):
    out = []
    root, p = ip.target(ref)
    for b, r in inside(ip, src, pos, s):
        if not b:
            out.append((NONE, r))
            continue
        els, skips, ends = elems(ip, src, pos, r, site, fr)
        for v, st2 in els:
            st3 = st2.copy()
            if advance:
                ip.write_loc(st3, (root, p), mkiter(src, iadd(pos, I(1))))
            out.append((some(v), st3))
        out += [(NONE, x) for x in ends]
        if skips:
            ip.left_out.setdefault((src, site), []).extend(skips)
    return out


@model("core::iter::sources::from_fn::from_fn")
def from_fn(ip, fn, args, atys, rty, s, site, fr):
    c = args[0]
    if c[0] != "agg" or c[1][0] != "closure" or len(c) > 3:
        return None     # it may have a state
    return [(mkiter(T("fromfn", c)), s)]


COLLS = ("push", "pushfront", "empty", "store", "sorted", "dedup", "insert", "remove", "slice", "reversed", "repeat")


def known_len(ip, src, s):
    k = src[0]
    if k == "refs":
        if len(src) > 2:
            return None
        return ip.length(deref(ip, s, src[1]))
    if is_iter(src):
        n = known_len(ip, src[3], s)
        return None if n is None else isub(n, src[4])
    if k in ("map", "enumerate", "copied", "cloned", "rev", "inspect", "fuse", "peekable"):
        return known_len(ip, src[1], s)
    if k == "skip":
        # too large a skip makes this negative, which is as good as zero: positions are compared with it
        n = known_len(ip, src[1], s)
        return None if n is None else isub(n, src[2])
    if k == "agg" and src[1] == "core::ops::range::Range":
        return isub(src[4], src[3])
    if k == "agg" and src[1] == "array":
        return I(len(src) - 3)
    if k in ("push", "empty", "store", "sorted", "dedup", "insert", "remove", "slice", "reversed"):
        return ip.length(src)
    if k == "loop":     # (part of) something that is a collection at first
        return ip.length(src) if len(src) == 4 and src[3][0] in COLLS else None
    if k == "optiter" and src[1][0] == "agg":
        return I(1 if src[1][2] == 1 else 0)
    if k == "chain":
        a, b = known_len(ip, src[1], s), known_len(ip, src[2], s)
        return iadd(a, b) if a is not None and b is not None and a[0] == b[0] == "i" else None
    return None


@model("core::iter::adapters::peekable::Peekable::<I>::peek", "core::iter::adapters::peekable::Peekable::<I>::peek_mut")
def peek(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    if v[0] == "ref":
        return peek(ip, fn, [v], atys, rty, s, site, fr)
    if not is_iter(v):
        return None
    out = []
    for x, st in step(ip, args[0], v[3], v[4], s, site, fr, advance=False):
        if x is NONE:
            out.append((NONE, st))
        else:
            root = ("H", ("peek", v[3], v[4]))
            st = st.copy()
            st.mem[root] = x[3]
            out.append((some(T("ref", root, ())), st))
    return out


@model("core::iter::adapters::peekable::Peekable::<I>::next_if")
def next_if(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    if v[0] == "ref":
        return next_if(ip, fn, [v, args[1]], atys, rty, s, site, fr)
    got = peek(ip, fn, args[:1], atys[:1], None, s, site, fr)
    if got is None:
        return None
    out = []
    for x, st in got:
        if x is NONE:
            out.append((NONE, st))
            continue
        for c, s2 in ip.call_value(args[1], [x[3]], st, site, fr, None):
            for yes in assume(s2, c, True):
                out += step(ip, args[0], v[3], v[4], yes, site, fr)
            out += [(NONE, no) for no in assume(s2, c, False)]
    return out


def gen_elem(ip, it, s, site, fr, pos=None):
    """A generic element of an iterator for internal iteration (at the given position, if any):
    ([(elem, state)], states that leave it out, states in which the iterator ends)."""
    if is_iter(it):
        p = pos if pos is not None else T("any", site[0], site[1], it[3])
        out, skips, ends = [], [], []
        for b, r in inside(ip, it[3], p, s, pos is not None):
            if not b:
                if pos is not None:
                    ends.append(r)
                continue
            if pos is None:
                r = int_restrict(r, p, I(0), frozenset(">=")) or r
            x, y, z = elems(ip, it[3], p, r, site, fr)
            out += x
            skips += y
            ends += z
        return out, skips, ends
    return gen_other(ip, it, s, site), [], []


def gen_other(ip, it, s, site):
    if it[0] == "agg" and isinstance(it[1], str) and it[1] == "core::ops::range::Range":
        pos = T("any", site[0], site[1], it)
        r = int_restrict(s, pos, it[4], frozenset("<"))
        if r is None:
            return []
        r2 = int_restrict(r, pos, it[3], frozenset(">="))
        return [(pos, r2 if r2 is not None else r)]
    return [(T("item", it, T("any", site[0], site[1], it)), s)]


UNROLL = 4


def few_left(ip, v, s):
    n = small_count(ip, v, s)
    return few_sifted(ip, v, s) if n is None else n


def small_count(ip, v, s):
    """How many elements remain in an iterator over a few known elements; None if unknown or many."""
    if is_iter(v):
        if v[4][0] != "i":
            return None
        n = known_len(ip, v[3], s)
        if n is None or n[0] != "i":
            return None
        r = n[1] - v[4][1]
    elif v[0] == "agg" and v[1] == "core::ops::range::Range" and v[3][0] == "i" and v[4][0] == "i":
        r = v[4][1] - v[3][1]
    else:
        return None
    return max(r, 0) if r <= UNROLL else None


def internal_loop(ip, it, s, site, fr, body, counted=False, place=None):
    """Internal iteration: `body(elem, state)` -> list of ("next"|"stop", value, state).
    counted: with a counter for the position, as an explicit loop has it.
    place: where the iterator lives, if it is borrowed."""
    it = plain_range(it)
    if pullable(ip, it):
        if place is None:
            place = (("H", ("pull", site)), ())
            s = s.copy()
            s.mem[place[0]] = it
        return pull_loop(ip, place[0], place[1], s, site, fr, body)
    n = few_left(ip, it, s)
    if n is not None:
        # a handful of known elements: one after the other
        states, exits, ended = [s.copy()], [], []
        for i in range(n):
            nxt = []
            for s1 in states:
                if is_iter(it):
                    es, sk, en = elems(ip, it[3], I(it[4][1] + i), s1, site, fr)
                    nxt += sk
                    ended += en
                else:
                    es = [(I(it[3][1] + i), s1)]
                for v, st in es:
                    for kind, val, st2 in body(v, st):
                        if kind == "next":
                            nxt.append(st2)
                        else:
                            exits.append((val, st2))
            states = [x for _, x in merge_states([(None, x) for x in nxt], ip.keep_rel)]
        return {"ret": exits, "after": states + ended}
    lid = ip.fid("iloop", fr.fid, site)
    ip.loop_fn[lid] = (fr.inst["id"], site[1])
    if not is_iter(it) and it[0] == "agg" and it[1] == "core::ops::range::Range" and counted:
        it = mkiter(it)
    at = None
    if is_iter(it) and counted:
        at = ("H", ("ipos", site))
        s = s.copy()
        s.mem[at] = it[4]

    def stepf(hs):
        back, exits, after = [], [], []
        els, skips, ends = gen_elem(ip, it, hs.copy(), site, fr, hs.mem[at] if at else None)
        for v, st in els:
            for kind, val, st2 in body(v, st):
                if kind == "next":
                    back.append(st2)
                else:
                    exits.append((val, st2))
        back += skips
        if at:
            nxt = []
            for st in back:
                st = st.copy()
                st.mem[at] = iadd(st.mem[at], I(1))
                nxt.append(st)
            back = nxt
        else:
            # (internal iteration only goes on after the last element)
            hs = hs.copy()
            hs.facts[T("done", it, T("iloop", lid))] = True
            after = [hs]
        return back, {"ret": exits, "after": after + ends}
    return ip.fix(lid, s, stepf)


@tmodel(IT, "for_each")
def for_each(ip, fn, args, atys, rty, s, site, fr):
    f = args[1]
    st = s.copy()
    root = ("H", ("fe", site))
    st.mem[root] = f

    def body(v, s1):
        r = ip.call_value(T("ref", root, ()), [v], s1, (site, "fe"), fr, None)
        if r is None:
            raise EngineError("for_each callee")
        return [("next", None, s2) for _, s2 in r]
    res = internal_loop(ip, args[0], st, site, fr, body, counted=True)
    return [(UNIT, x) for x in res["after"]]


def _anyall(which):
    def f(ip, fn, args, atys, rty, s, site, fr):
        itv = args[0]
        place = ip.target(itv) if itv[0] == "ref" else None
        it = deref(ip, s, itv) if itv[0] == "ref" else itv
        if it[0] == "ref":
            place = ip.target(it)
            it = deref(ip, s, it)
        stop = which == "any"

        def body(v, s1):
            r = ip.call_value(args[1], [v], s1, (site, which), fr, None)
            if r is None:
                t = T("apply", ip.content(args[1], s1), ip.content(v, s1))
                r = [(t, s1)]
            out = []
            for b, s2 in r:
                for x in assume(s2, b, stop):
                    out.append(("stop", B(stop), x))
                for x in assume(s2, b, not stop):
                    out.append(("next", None, x))
            return out
        res = internal_loop(ip, it, s, site, fr, body, counted=ip.pull, place=place)
        out = list(res["ret"])
        for x in res["after"]:
            st = x.copy()
            st.facts[T("allchecked", ip.fid("iloop", fr.fid, site))] = True
            out.append((B(not stop), st))
        return out
    return f


TRAIT_MODELS[(IT, "any")] = _anyall("any")
TRAIT_MODELS[(IT, "all")] = _anyall("all")


@tmodel(IT, "fold")
def fold(ip, fn, args, atys, rty, s, site, fr):
    st = s.copy()
    root = ("H", ("fold", site))
    st.mem[root] = args[1]

    def body(v, s1):
        acc = s1.mem[root]
        r = ip.call_value(args[2], [acc, v], s1, (site, "fold"), fr, None)
        if r is None:
            raise EngineError("fold callee")
        out = []
        for x, s2 in r:
            s3 = s2.copy()
            s3.mem[root] = x
            out.append(("next", None, s3))
        return out
    res = internal_loop(ip, args[0], st, site, fr, body, counted=ip.pull)
    return [(x.mem[root], x) for x in res["after"]]


def _search(name):
    def f(ip, fn, args, atys, rty, s, site, fr):
        itv = args[0]
        place = ip.target(itv) if itv[0] == "ref" else None
        it = deref(ip, s, itv) if itv[0] == "ref" else itv
        if it[0] == "ref":
            place = ip.target(it)
            it = deref(ip, s, it)
        n = None
        back = name in ("rposition", "rfind")
        if back:
            n = known_len(ip, it[3], s) if is_iter(it) and it[4] is I(0) else None
            if n is None:
                raise EngineError("%s over %s" % (name, str(it)[:100]))
            if place is not None:
                s = s.copy()
                ip.write_loc(s, place, T("spent", site), None)
            it, place = mkiter(T("rev", it)), None
        # the position within the rest of the iterator, which has to start at the front
        counted = ip.pull or back or name == "position" and is_iter(it) and it[4] is I(0)

        def body(v, s1):
            if name in ("find", "rfind"):
                root = ("H", ("find", site))
                s1 = s1.copy()
                s1.mem[root] = v
                a = [T("ref", root, ())]
            else:
                a = [v]
            r = ip.call_value(args[1], a, s1, (site, name), fr, None)
            if r is None:
                r = [(T("apply", ip.content(args[1], s1), ip.content(v, s1)), s1)]
            out = []
            for b, s2 in r:
                if name == "find_map":
                    for x, s3 in opt_cases(ip, b, s2):
                        out.append(("next", None, s3) if x is None else ("stop", some(x), s3))
                    continue
                for x in assume(s2, b, True):
                    k = x.mem.get(("H", ("ipos", site))) if counted else None
                    if back and k is not None:
                        k = isub(isub(n, I(1)), k)
                    out.append(("stop", some(v if name in ("find", "rfind") else k if k is not None else T("position", v)), x))
                for x in assume(s2, b, False):
                    out.append(("next", None, x))
            return out
        res = internal_loop(ip, it, s, site, fr, body, counted=counted, place=place)
        return list(res["ret"]) + [(NONE, x) for x in res["after"]]
    return f


for _n in ("find", "position", "find_map"):
    TRAIT_MODELS[(IT, _n)] = _search(_n)
for _n in ("rposition", "rfind"):
    TRAIT_MODELS[(IT, _n)] = _search(_n)
    TRAIT_MODELS[("core::iter::traits::double_ended::DoubleEndedIterator", _n)] = _search(_n)


def vec_type(ip, t):
    return t is not None and ip.p.types[t]["k"] == "adt" and ip.p.types[t]["path"] == "alloc::vec::Vec"


def whole(ip, it, s):
    """The list an iterator goes through from its first to its last element, if it passes on its elements as they are."""
    while is_iter(it) and it[4] is I(0) and it[3][0] in ("copied", "cloned", "fuse"):
        it = it[3][1]
    if not is_iter(it) or it[4] is not I(0):
        return None
    src = it[3]
    if src[0] == "refs":
        return deref(ip, s, src[1]) if len(src) == 2 else None
    return src if src[0] in COLLS or src[0] in ("fld", "sym", "*", "extend") else None


@tmodel(IT, "collect")
def collect(ip, fn, args, atys, rty, s, site, fr):
    it = args[0]
    out = []
    if ip.bulk and (vec_type(ip, rty) or rty is not None and room(ip, rty)):
        w = whole(ip, it, s)
        if w is not None:
            return [(w, s)]
    if is_iter(it) and it[4] is I(0) and it[3][0] == "chain" and vec_type(ip, rty):
        root = ("H", ("chained", site))
        st = s.copy()
        st.mem[root] = T("empty")
        return [(x.mem[root], x) for _, x in it_extend(ip, fn, [T("ref", root, ()), it], [None, None], None, st, site, fr)]
    if ip.pull == "lists" and is_iter(it) and vec_type(ip, rty):
        # element by element, like a loop that pushes
        root = ("H", ("listed", site))
        st = s.copy()
        st.mem[root] = T("empty")

        def push(v, s1):
            s1 = s1.copy()
            s1.mem[root] = T("push", s1.mem[root], v)
            return [("next", None, s1)]
        res = internal_loop(ip, it, st, site, fr, push, counted=True)
        return [(x.mem[root], x) for x in res["after"]]

    def body(v, s1):
        out.append((v, s1))
        return [("next", None, s1)]
    try:
        res = internal_loop(ip, it, s, site, fr, body)
    except EngineError:
        return [(T("collect", ip.content(it, s)), s)]
    # what the generic element is, per collected list and way of arriving here
    ip.collects = getattr(ip, "collects", {})
    t = T("collect", ip.content(it, s), ip.fid("iloop", fr.fid, site),
          *[deref(ip, s, x[1]) for x in dict.fromkeys(subterms(it)) if x[0] == "refs"])
    ip.collects.setdefault(t, set()).update(ip.content(v, s1) for v, s1 in out)
    ip.collected = getattr(ip, "collected", {})
    ip.collected.setdefault(t, []).extend((ip.content(v, s1), s1) for v, s1 in out)
    return [(t, x) for x in res["after"]]


@tmodel("core::iter::traits::collect::Extend", "extend")
def it_extend(ip, fn, args, atys, rty, s, site, fr):
    t = atys[0]
    while t is not None and ip.p.types[t]["k"] == "ref":
        t = ip.p.types[t]["t"]
    if t is not None and ip.p.types[t]["k"] == "adt" and "BezPath" in ip.p.types[t]["path"]:
        # a list in a wrapper: its own function passes it on
        return None
    v = deref(ip, s, args[0])
    it = iter_of(ip, args[1], atys[1], s)
    if it is None:
        it = args[1]
    if is_iter(it) and it[4] is I(0) and it[3][0] == "chain":
        states = [s]
        for k in (1, 2):
            states = [st for x in states for _, st in it_extend(ip, fn, [args[0], it[3][k]], [atys[0], None], rty, x, (site, "chain", k), fr)]
        return [(UNIT, st) for st in states]
    w = whole(ip, it, s) if ip.bulk else None
    if w is not None:
        return [(UNIT, wr(ip, s, args[0], extend(ip, v, w)))]
    if is_iter(it) and it[4] is I(0) and it[3][0] in ("agg", "empty") :
        return [(UNIT, wr(ip, s, args[0], extend(ip, v, it[3])))]

    def body(x, s1):
        s2 = s1.copy()
        ip.write_loc(s2, ip.target(args[0]), T("push", ip.read_loc(s2, ip.target(args[0])), x))
        return [("next", None, s2)]
    try:
        res = internal_loop(ip, it, s, site, fr, body, counted=True)
        return [(UNIT, x) for x in res["after"]]
    except EngineError:
        return [(UNIT, wr(ip, s, args[0], T("extend", v, ip.content(it, s))))]


def _consume(name):
    """Consumers whose result stays opaque: max_by, min, sum, count, last, nth, max..."""
    def f(ip, fn, args, atys, rty, s, site, fr):
        it = args[0]
        if it[0] == "ref":
            return None
        return [(T(name, ip.content(it, s), *[ip.content(a, s) for a in args[1:]]), s)]
    return f


def _extreme(name):
    """The least or greatest of a handful of known elements, by comparing them in turn; opaque otherwise."""
    other = _consume("it_" + name)

    def f(ip, fn, args, atys, rty, s, site, fr):
        it = args[0]
        n = small_count(ip, it, s)
        if n is None or not is_iter(it):
            return other(ip, fn, args, atys, rty, s, site, fr)
        r = pick(ip, fn, it, n, args, atys, rty, s, site, fr)
        return r if r is not None else other(ip, fn, args, atys, rty, s, site, fr)

    def pick(ip, fn, it, n, args, atys, rty, s, site, fr):
        least = name.startswith("min")
        item = ip.p.types[rty]["targs"][0] if rty is not None and ip.p.types[rty].get("targs") else None
        states = [(None, None, s)]
        for i in range(n):
            nxt = []
            for best, bk, s1 in states:
                els, sk, en = elems(ip, it[3], I(it[4][1] + i), s1, (site, i), fr)
                if en:
                    return None
                nxt += [(best, bk, x) for x in sk]
                for v, s2 in els:
                    ks = [(v, s2)]
                    if name.endswith("_key"):
                        root = ("H", (site, "elem", i))
                        s2 = s2.copy()
                        s2.mem[root] = v
                        ks = must_call(ip, args[1], [T("ref", root, ())], s2, (site, "key", i), fr)
                    for k, s3 in ks:
                        if best is None:
                            nxt.append((v, k, s3))
                            continue
                        if name.endswith("_by"):
                            ra, rb = ("H", (site, "a", i)), ("H", (site, "b", i))
                            s3 = s3.copy()
                            s3.mem[ra], s3.mem[rb] = bk, k
                            res = must_call(ip, args[1], [T("ref", ra, ()), T("ref", rb, ())], s3, (site, "by", i), fr)
                        else:
                            t = fn["targs"][1] if name.endswith("_key") else item
                            res = compare(ip, bk, k, t, s3, (site, "cmp", i), fr)
                        if res is None:
                            return None
                        for o, s4 in res:
                            if o not in (LESS, EQUAL, GREATER):
                                return None
                            keep = o in (LESS, EQUAL) if least else o is GREATER
                            nxt.append((best, bk, s4) if keep else (v, k, s4))
            states = nxt
        return [(NONE if b is None else some(b), x) for b, _, x in states]
    return f


def compare(ip, a, b, t, s, site, fr):
    """How two values of a type compare by its total order."""
    if t is None:
        return None
    k, u = scalar_kind(ip, t)
    if k in ("i", "bool"):
        return ordering_outcomes(ip, "i", num(strip(ip, s, a, t)), num(strip(ip, s, b, t)), s, False)
    ty = ip.p.types[u] if u is not None else None
    if ty is None:
        return None
    a, b = strip(ip, s, a, t), strip(ip, s, b, t)
    if ty["k"] == "tuple":
        return lex_cmp(ip, a, b, u, s, site, fr, False)
    if ty["k"] == "adt" and ty["local"]:
        return user_cmp(ip, a, b, u, s, site, fr, False)
    return None


for _n in ("max_by", "min_by", "max_by_key", "min_by_key", "max", "min"):
    TRAIT_MODELS[(IT, _n)] = _extreme(_n)


@tmodel(IT, "count")
def it_count(ip, fn, args, atys, rty, s, site, fr):
    root = ("H", ("count", site))
    st = s.copy()
    st.mem[root] = I(0)

    def body(v, s1):
        s2 = s1.copy()
        s2.mem[root] = iadd(s2.mem[root], I(1))
        return [("next", None, s2)]
    if args[0][0] != "ref":
        try:
            return [(x.mem[root], x) for x in internal_loop(ip, args[0], st, site, fr, body, counted=True)["after"]]
        except EngineError:
            pass
    return _consume("it_count")(ip, fn, args, atys, rty, s, site, fr)


@tmodel("core::iter::traits::exact_size::ExactSizeIterator", "len")
def it_len(ip, fn, args, atys, rty, s, site, fr):
    t = ip.p.types[ip.p.types[atys[0]]["t"]] if atys[0] is not None and ip.p.types[atys[0]]["k"] == "ref" else {"k": None}
    v = deref(ip, s, args[0])
    if t["k"] == "adt" and t["path"] in ("core::ops::range::Range", RINC):
        v = plain_range(v)
        if v[0] == "agg" and v[1] == RINC or t["path"] == RINC and v[0] != "agg":
            return None
        a, b = ip.project(v, ("f", 0, 0), s), ip.project(v, ("f", 0, 1), s)
        full, none = int_restrict(s, a, b, frozenset("<=")), int_restrict(s, a, b, frozenset(">"))
        return ([(isub(b, a), full)] if full is not None else []) + ([(I(0), none)] if none is not None else [])
    return None


for _n in ("sum", "product", "last", "reduce", "unzip", "partition", "size_hint"):
    TRAIT_MODELS[(IT, _n)] = _consume("it_" + _n)

MODELS["core::iter::sources::once::once"] = lambda ip, fn, args, atys, rty, s, site, fr: [(mkiter(T("agg", "array", 0, args[0])), s)]
MODELS["core::iter::sources::empty::empty"] = lambda ip, fn, args, atys, rty, s, site, fr: [(mkiter(T("agg", "array", 0)), s)]


# ------------------------------------------------------------------ RefCell

@model("core::cell::RefCell::<T>::borrow_mut", "core::cell::RefCell::<T>::borrow")
def refcell_borrow(ip, fn, args, atys, rty, s, site, fr):
    return [(refto(ip, args[0], ("cell",)), s)]


@model("core::cell::RefCell::<T>::new")
def refcell_new(ip, fn, args, atys, rty, s, site, fr):
    return [(args[0], s)]


@model("core::cell::RefCell::<T>::get_mut", "core::cell::RefCell::<T>::into_inner")
def refcell_id(ip, fn, args, atys, rty, s, site, fr):
    return [(args[0], s)]


# ------------------------------------------------------------------ maps and sets

@model("alloc::collections::btree::set::BTreeSet::<T, A>::insert", "alloc::collections::binary_heap::BinaryHeap::<T, A>::push",
       "alloc::collections::binary_heap::BinaryHeap::<T>::push")
def set_insert(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    st = wr(ip, s, args[0], T("setinsert", v, args[1]))
    if ip.p.types[rty]["k"] == "bool" if rty is not None else False:
        return [(T("inserted", v, args[1]), st)]
    return [(UNIT, st)]


BS = "alloc::collections::btree::set::BTreeSet::<T, A>::"


def _least(name):
    which = "least" if name.endswith("first") else "greatest"

    def f(ip, fn, args, atys, rty, s, site, fr):
        v = deref(ip, s, args[0])
        n = ip.length(v)
        out = []
        r = int_restrict(s, n, I(0), frozenset(">"))
        if r is not None:
            x = T(which, v)
            if name.startswith("pop"):
                    out.append((some(x), wr(ip, r, args[0], T("without", v, x))))
            else:
                root = ("H", (which, site))
                r = r.copy()
                r.mem[root] = x
                out.append((some(T("ref", root, ())), r))
        r = int_restrict(s, n, I(0), frozenset("<="))
        if r is not None:
            out.append((NONE, r))
        return out
    return f


for _n in ("first", "last", "pop_first", "pop_last"):
    MODELS[BS + _n] = _least(_n)
MODELS[BS + "len"] = lambda *a: MODELS[VEC[0] + "len"](*a)
MODELS[BS + "is_empty"] = lambda *a: MODELS[VEC[0] + "is_empty"](*a)


@model("std::collections::hash::map::HashMap::<K, V, S, A>::insert", "std::collections::hash::map::HashMap::<K, V, S>::insert",
       "alloc::collections::btree::map::BTreeMap::<K, V, A>::insert")
def map_insert(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    st = wr(ip, s, args[0], T("store", v, args[1], args[2]))
    return [(T("oldentry", v, args[1]), st)]


@model("std::collections::hash::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S>::get",
       "alloc::collections::btree::map::BTreeMap::<K, V, A>::get")
def map_get(ip, fn, args, atys, rty, s, site, fr):
    v = deref(ip, s, args[0])
    k = ip.content(args[1], s)
    if k[0] == "&":
        k = k[1]
    out = []
    for b, st in map_has(ip, v, k, s):
        out.append((some(refto(ip, args[0], ("idx", k))) if b else NONE, st))
    return out


def map_has(ip, v, k, s):
    """[(does the map hold this key?, state)]"""
    while v[0] == "store":
        if v[2] is k:
            return [(True, s)]
        if not distinct(s, v[2], k):
            break
        v = v[1]
    if v[0] == "empty":
        return [(False, s)]
    return split(s, T("haskey", v, k))


def distinct(s, a, b):
    """Two keys are known to differ."""
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and len(a) == len(b):
        return a[2] != b[2] or any(distinct(s, x, y) for x, y in zip(a[3:], b[3:]))
    try:
        return "=" not in int_orders(s, a, b)
    except Exception:
        return False


HM = "std::collections::hash::map::"


@model(HM + "HashMap::<K, V, S, A>::contains_key", HM + "HashMap::<K, V, S>::contains_key", "alloc::collections::btree::map::BTreeMap::<K, V, A>::contains_key")
def map_contains(ip, fn, args, atys, rty, s, site, fr):
    k = ip.content(args[1], s)
    return [(B(b), st) for b, st in map_has(ip, deref(ip, s, args[0]), k[1] if k[0] == "&" else k, s)]


def entry_parts(e):
    """(map reference, key, does it hold a value?) of a map entry."""
    if e[0] == "agg" and e[1] == HM + "Entry":
        e = e[3]
    if e[0] == "agg" and e[1] in ("occupied", "vacant"):
        return e[3], e[4], e[1] == "occupied"
    return None


def entry_of(ip, v, s):
    return entry_parts(deref(ip, s, v) if v[0] == "ref" else v)


@model(HM + "HashMap::<K, V, S, A>::entry", HM + "HashMap::<K, V, S>::entry")
def map_entry(ip, fn, args, atys, rty, s, site, fr):
    out = []
    for b, st in map_has(ip, deref(ip, s, args[0]), args[1], s):
        out.append((T("agg", HM + "Entry", 0 if b else 1, T("agg", "occupied" if b else "vacant", 0, args[0], args[1])), st))
    return out


def _entry(name):
    def f(ip, fn, args, atys, rty, s, site, fr):
        p = entry_of(ip, args[0], s)
        if p is None:
            return None
        m, k, has = p
        ref = refto(ip, m, ("idx", k))

        def put(st, v):
            return wr(ip, st, m, T("store", deref(ip, st, m), k, v))
        if name in ("get", "get_mut", "into_mut"):
            return [(ref, s)]
        if name == "remove":
            return None
        if name == "insert_entry":
            return [(T("agg", "occupied", 0, m, k), put(s, args[1]))]
        if name == "insert":
            old = T("sel", deref(ip, s, m), k)
            return [(old if has else ref, put(s, args[1]))]
        if name == "or_insert":
            return [(ref, s if has else put(s, args[1]))]
        if name == "or_insert_with":
            if has:
                return [(ref, s)]
            return [(ref, put(st, v)) for v, st in must_call(ip, args[1], [], s, (site, "with"), fr)]
        if name == "key":
            return None
    return f


for _n in ("get", "get_mut", "into_mut", "insert"):
    MODELS[HM + "OccupiedEntry::<'a, K, V, A>::" + _n] = _entry(_n)
for _n in ("insert", "insert_entry"):
    MODELS[HM + "VacantEntry::<'a, K, V, A>::" + _n] = _entry(_n)
for _n in ("insert_entry", "or_insert", "or_insert_with"):
    MODELS[HM + "Entry::<'a, K, V, A>::" + _n] = _entry(_n)


@model("std::collections::hash::map::HashMap::<K, V>::new", "alloc::collections::btree::set::BTreeSet::<T>::new",
       "alloc::collections::btree::map::BTreeMap::<K, V>::new", "alloc::collections::binary_heap::BinaryHeap::<T>::new",
       "std::collections::hash::set::HashSet::<T>::new", "alloc::string::String::new")
def coll_new(ip, fn, args, atys, rty, s, site, fr):
    return [(T("empty"), s)]


@model("core::array::<impl [T; N]>::map")
def array_map(ip, fn, args, atys, rty, s, site, fr):
    """The elements of an array one after the other."""
    a = args[0]
    if a[0] != "agg" or a[1] != "array":
        return None
    st = s.copy()
    root = ("H", ("amap", site))
    st.mem[root] = args[1]
    outs = [((), st)]
    for i, x in enumerate(a[3:]):
        nxt = []
        for vs, s1 in outs:
            r = ip.call_value(T("ref", root, ()), [x], s1, (site, "amap", i), fr, None)
            if r is None:
                return None
            nxt += [(vs + (v,), s2) for v, s2 in r]
        outs = nxt
    return [(T("agg", "array", 0, *vs), s1) for vs, s1 in outs]
