"""No statistic writes to its arguments or remembers them.

Every store, in-place operation and attribute write reachable from the public
evaluation and penalty methods is resolved to the object it changes; none may
be an argument array (aliases followed, copies understood).  A client that
evaluates twice must obtain for the second pair exactly what a first
evaluation of that pair gives.
"""
from .. import terms as T
from .. import spec, interp
from .stats import STATS, ARRAYS, hints

MINIMUM = 24


def check(ctx):
    for cls in sorted(STATS):
        for per_bin in (True, False):
            key = "%s.inputs(per_bin=%s)" % (cls, per_bin)
            with ctx.guard(key):
                fs = ctx.snippet("""
from echidna.fit.test_statistic import %s
def client(observed, expected, other1, other2):
    stat = %s(per_bin=%s)
    first = stat.compute_statistic(observed, expected)
    stat.get_penalty_term(first, first, first)
    return first
def again(observed, expected, other1, other2):
    stat = %s(per_bin=%s)
    stat.compute_statistic(other1, other2)
    return stat.compute_statistic(observed, expected)
""" % (cls, cls, per_bin, cls, per_bin))
                arr = ARRAYS + (T.sym("other1"), T.sym("other2"))
                r = ctx.run(fs["client"], arrays=arr)
                bad = writes(r)
                for k, e in sorted(bad.items()):
                    ctx.violate(key + k, "the caller's array %s is changed (%s)"
                                % (T.show(spec.root(e.data[0])), e.kind),
                                e.where)
                if not bad:
                    ctx.hold(key, "%d effect events resolved, none on an "
                             "argument" % len(r.kinds(*spec.EFFECTS)),
                             r.func.where)
            key = "%s.repeatable(per_bin=%s)" % (cls, per_bin)
            with ctx.guard(key):
                r1 = ctx.run(fs["client"], arrays=arr)
                r2 = ctx.run(fs["again"], arrays=arr)
                h = hints()
                h["other1[]"] = h["other2[]"] = h["observed[]"]
                a, b = r2.ret, r1.ret
                if per_bin and a is not None and b is not None:
                    a, b = T.idx(a, T.sym("bin")), T.idx(b, T.sym("bin"))
                ctx.same(key, a, b, "second evaluation",
                         where=r2.func.where, hints=h,
                         assume=[T.eq(T.length(T.idx(x, T.string("shape"))),
                                      T.ONE) for x in ()])


def writes(r):
    """Writes to the arguments: {key suffix: event}; clipping small contents
    at the limit of zero is told apart from any other write."""
    out = {}
    for e in spec.effects(r):
        a = spec.root(e.data[0])
        if a in ARRAYS and feasible(e):
            clip = e.kind == "setitem" and isinstance(e.data[2], T.Term) \
                and e.data[2].op == "num" and \
                float(e.data[2].args[0]) == 1e-34 and any(
                    g.op == "lt0" and "1e-34" in T.show(g)
                    for g in e.guards)
            out.setdefault(":" + T.show(a) + (
                " clipped" if clip else " " + e.kind), e)
    for e in r.kinds("ext", "mcall"):
        t = e.data[0]
        kws = t.args[-1]
        for k, v in kws:
            if k == "out" and spec.preexisting(T.ptr(v)):
                out.setdefault(":out", e)
    return out


def feasible(e):
    for g in e.guards:
        if g is T.FALSE:
            return False
    return True
