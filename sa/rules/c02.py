"""Total mode is the sum of per-bin mode; the mode alone selects; bad shapes
are rejected first.

For each statistic the total value graph is compared with the sum over the
bins of the per-bin value graph (no formula involved).  The raise condition of
the public entry point, in each mode, is compared with 'either array is not
one-dimensional or the lengths differ'.  With a symbolic mode the result must
be the per-bin result exactly when the mode asks for it.
"""
from .. import terms as T
from .. import interp, spec
from .stats import STATS, client, hints, ref, excess, ARRAYS

MINIMUM = 24


# the recorded deviation: per-bin mode compares sums that disagree
EXCESS = """
import numpy
def ref(observed, expected):
    if len(observed.shape) != 1 or len(expected.shape) != 1:
        raise TypeError("shape")
    if len(observed) != len(expected):
        raise ValueError("length")
    lim = 1.e-34
    full, up = 0., 0.
    for i in range(len(expected)):
        o, e = observed[i], expected[i]
        skip = o > e
        e = lim if e < lim else e
        v = 2. * (e if o < lim else e - o + o * numpy.log(o / e))
        full += v
        up += 0. if skip else v
    if not numpy.allclose(full, up):
        raise ValueError("sums")
"""


def check(ctx):
    rej = ctx.snippet("""
def ref(observed, expected):
    if len(observed.shape) != 1 or len(expected.shape) != 1:
        raise TypeError("shape")
    if len(observed) != len(expected):
        raise ValueError("length")
""")["ref"]
    for cls in sorted(STATS):
        res = {}
        for per_bin in (True, False):
            res[per_bin] = client(ctx, cls, per_bin)
        key = cls + ".sum"
        with ctx.guard(key):
            lv = T.raw("lv", T.next_id())
            dom = T.length(T.sym("observed"))
            per = res[True].ret
            n = T.length(per)
            if n.op != "len":
                dom = n
            want = T.mk_sum(dom, lv, T.idx(per, lv))
            total = res[False].ret
            if excess(ctx, cls, res[True]) and interp.compare(
                    total, T.mk_sum(dom, lv, ref(ctx, cls, lv)),
                    hints=shapes())[0] in ("equal", "same"):
                ctx.violate(key + ":excess-bins", "per-bin mode counts bins "
                            "with more observed than expected, total mode "
                            "does not", res[True].func.where)
            else:
                ctx.same(key, total, want, "total against sum of bins",
                         where=res[False].func.where, hints=shapes())
        for per_bin in (True, False):
            key = "%s.rejects(per_bin=%s)" % (cls, per_bin)
            with ctx.guard(key):
                rr = ctx.run(rej, arrays=ARRAYS)
                if per_bin and excess(ctx, cls, res[True]):
                    key += ":excess-bins"
                    dev = ctx.run(ctx.snippet(EXCESS)["ref"], arrays=ARRAYS)
                    out = spec.compare_functions(
                        res[True], dev, ret=False, unchanged=False,
                        hints=shapes(False), n=ctx.n)
                    if all(v == "same" for _, v, _, _ in out):
                        ctx.violate(key, "per-bin mode fails when a bin has "
                                    "more observed than expected",
                                    res[True].func.where)
                        continue
                ctx.functions_agree(key, res[per_bin], rr, ret=False,
                                    unchanged=False, hints=shapes(False))
        key = cls + ".mode"
        with ctx.guard(key):
            fs = ctx.snippet("""
from echidna.fit.test_statistic import %s
def client(observed, expected, mode):
    return %s(per_bin=mode).compute_statistic(observed, expected)
""" % (cls, cls))
            r = ctx.run(fs["client"], arrays=ARRAYS)
            m = T.truth(T.sym("mode"))
            ctx.same(key, r.ret, T.ite(m, res[True].ret, res[False].ret),
                     "result by mode", where=r.func.where, hints=shapes())


def shapes(equal=True):
    h = hints()

    def ln(env, v):
        if v.key.endswith(".shape"):
            return 1 if equal or env.rnd(v.key) < .6 else 2
        if equal or env.rnd("eq") < 0.5:
            return int(env.rnd("len") * 4) + 1
        return int(env.rnd("len", v.key) * 4) + 1
    h["len"] = ln
    h["mode"] = lambda env, o: env.rnd("mode") < .5
    return h
