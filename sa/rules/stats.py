"""Shared by the test-statistic rules: clients and published formulas."""
from .. import terms as T
from .. import interp

ARRAYS = (T.sym("observed"), T.sym("expected"))

# published value of one bin with content o (observed) and e (expected); lim
# is the documented stand-in for zero
STATS = {
    "BakerCousinsChi": """
        e = lim if e < lim else e
        return 2. * (e if o < lim else e - o + o * numpy.log(o / e))""",
    "BakerCousinsChiUp": """
        skip = o > e
        e = lim if e < lim else e
        return 0. if skip else 2. * (
            e if o < lim else e - o + o * numpy.log(o / e))""",
    "BakerCousinsLL": """
        e = lim if e < lim else e
        return e if o < lim else e - o + o * numpy.log(o / e)""",
    "Neyman": """
        o = lim if o < lim else o
        return o if e < lim else (e - o) ** 2 / o""",
    "Pearson": """
        e = lim if e < lim else e
        return e if o < lim else (o - e) ** 2 / e""",
    "ExtendedLL": """
        e = lim if e < lim else e
        return e - o * numpy.log(e)""",
}


def client(ctx, cls, per_bin):
    fs = ctx.snippet("""
from echidna.fit.test_statistic import %s
def client(observed, expected):
    stat = %s(per_bin=%s)
    return stat.compute_statistic(observed, expected)
""" % (cls, cls, per_bin))
    return ctx.run(fs["client"], arrays=ARRAYS)


def ref(ctx, cls, i):
    fs = ctx.snippet("import numpy\ndef ref(o, e):\n    lim = 1.e-34\n" +
                     "\n".join(l[4:] for l in STATS[cls].split("\n")))
    o, e = [T.idx(a, i) for a in ARRAYS]
    r = ctx.run(fs["ref"], {"o": o, "e": e}, arrays=ARRAYS)
    return r.ret


def excess(ctx, cls, r):
    """The recorded deviation of the upward-only statistic: its per-bin mode
    counts every bin by the two-sided formula."""
    if cls != "BakerCousinsChiUp" or r.ret is None:
        return False
    i = T.sym("bin")
    v, d = interp.compare(T.idx(r.ret, i), ref(ctx, "BakerCousinsChi", i),
                          hints=hints())
    return v in ("equal", "same")


def content(env, o):
    """Bin contents: zero, tiny, or of order one."""
    r = env.rnd("k", o.key)
    if r < 0.25:
        return 0.0
    return round(0.05 + 6 * env.rnd("n", o.key), 3)


def hints():
    n = {}

    def ln(env, v):
        # both histograms have the same number of bins
        return int(env.rnd("len") * 4) + 1
    n["observed[]"] = content
    n["expected[]"] = content
    n["len"] = ln
    n["bin"] = "nat"
    return n
