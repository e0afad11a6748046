"""All call paths of the two public boolean operations are interpreted abstractly, keeping kurbo's
own per-path tests for NaN and finiteness symbolic.  For every combination of the four test results
in which at least one coordinate of either input is not finite, no path may reach the construction
of the topology and every path must return an error: the NaN error if a NaN occurs and nothing is
infinite, the infinity error in the converse case."""
from lib import *

FLOOR = 8
ERR = CRATE + "Error"


def run(ctx):
    P = ctx.P
    ctx.rule("some coordinate not finite => no path reaches the sweep, every path returns Err of the right kind")
    for entry in ("binary_op", "binary_op_with_eps"):
        inst = P.one(CRATE + entry)
        ctx.guard(entry, inst, lambda: one(ctx, P, entry, inst))


def test_of(t, args):
    """(which input, which test) if t is one of kurbo's tests on (part of) an input."""
    if t[0] != "call":
        return None
    n = t[1].split("::")[-1]
    if n not in ("is_nan", "is_finite", "is_infinite") or "bezpath" not in t[1]:
        return None
    x = t[2]
    while x[0] in ("&", "*", "fld"):
        x = x[1]
    if x is args[0]:
        return "a", n
    if x is args[1]:
        return "b", n
    return None


def one(ctx, P, entry, inst):
    ip, args, outs = ctx.analyse(inst, opaque=["topology::Topology::<W>::contours", "topology::Topology::<W>::from_paths",
                                               "re:::bounding_box$", "re:kurbo::bezpath::.*::is_nan$", "re:kurbo::bezpath::.*::is_finite$"])
    atoms = {}
    for v, s in outs:
        for t in list(s.facts):
            for x in subterms(t):
                k = test_of(x, args)
                if k:
                    atoms[x] = k
    for w in "ab":
        ctx.ob("%s: input %s is examined" % (entry, w), any(k[0] == w for k in atoms.values()), inst, "no test of the coordinates of this input")
    kinds = ("finite", "nan", "inf", "naninf")
    n = 0
    res_i, nan_i, inf_i = 1, variant_index(P, ERR, "NaN"), variant_index(P, ERR, "Infinity")
    for ka in kinds:
        for kb in kinds:
            env = {}
            for t, (w, nm) in atoms.items():
                k = ka if w == "a" else kb
                env[t] = {"is_nan": k in ("nan", "naninf"), "is_finite": k == "finite", "is_infinite": k in ("inf", "naninf")}[nm]
            bad = []
            hit = 0
            for v, s in outs:
                if not holds(s, env, partial=True):
                    continue
                hit += 1
                reach = any(e[0] == "call" and matches(e[1], "topology::Topology::<W>::from_paths") for e in s.ev) or \
                    contains(v, lambda x: x[0] == "call" and matches(x[1], "topology::Topology::<W>::from_paths"))
                err = None
                if v[0] == "agg" and v[2] == res_i and v[3][0] == "agg" and v[3][1] == ERR:
                    err = v[3][2]
                if (ka, kb) == ("finite", "finite"):
                    continue
                if reach:
                    bad.append("a path sweeps the input")
                elif err not in (nan_i, inf_i):
                    bad.append("a path returns %s" % show(v)[:100])
                elif "nan" in (ka, kb) and not {ka, kb} & {"inf", "naninf"} and err != nan_i:
                    bad.append("a NaN is reported as infinity")
                elif "inf" in (ka, kb) and not {ka, kb} & {"nan", "naninf"} and err != inf_i:
                    bad.append("an infinite coordinate is reported as NaN")
            n += 1
            ctx.ob("%s: first input %s, second input %s" % (entry, ka, kb), hit > 0 and not bad, inst, "; ".join(sorted(set(bad))) or "no path")
    ctx.stats[entry + " paths"] = len(outs)
    ok = any(holds(s, {t: nm == "is_finite" for t, (w, nm) in atoms.items()}, partial=True) and v[0] == "agg" and v[2] == 0 for v, s in outs)
    ctx.ob("%s: finite inputs are accepted" % entry, ok, inst)
