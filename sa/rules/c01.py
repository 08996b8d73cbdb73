"""Every test statistic's per-bin value graph equals the published formula.

A client constructs each statistic in per-bin mode and evaluates it on two
arrays; the returned array's element i, as a value graph over observed[i] and
expected[i], must denote the published formula with both contents clamped from
below at 1e-34.  Total mode must denote the sum of that formula.
"""
from .. import terms as T
from .stats import STATS, client, ref, hints, excess

MINIMUM = 12


def check(ctx):
    for cls in sorted(STATS):
        key = "%s.per-bin" % cls
        with ctx.guard(key):
            r = client(ctx, cls, True)
            i = T.sym("bin")
            got = T.idx(r.ret, i) if r.ret is not None else None
            if excess(ctx, cls, r):
                ctx.violate(key + ":excess-bins", "bins with more observed "
                            "than expected are counted", r.func.where)
            else:
                ctx.same(key, got, ref(ctx, cls, i), "value of a bin",
                         where=r.func.where, hints=hints())
        key = "%s.total" % cls
        with ctx.guard(key):
            r = client(ctx, cls, False)
            lv = T.raw("lv", T.next_id())
            want = T.mk_sum(T.length(T.sym("expected")), lv,
                            ref(ctx, cls, lv))
            want2 = T.mk_sum(T.length(T.sym("observed")), lv,
                             ref(ctx, cls, lv))
            if T.equal(r.ret, want) or T.equal(r.ret, want2):
                ctx.hold(key, "identical normal forms", r.func.where)
            else:
                ctx.same(key, r.ret, want, "total", where=r.func.where,
                         hints=hints())
