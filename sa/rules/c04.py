"""Penalty graphs equal the squared pull; the fit adds each exactly once.

get_penalty_term of every statistic is compared as a value graph with
((value - prior)/sigma)**2 (half of it for the log-likelihood ratio).  In the
fit's point evaluation the returned penalty must be the sum over all fit
parameters of that term of the parameter's own value, prior and sigma, with
nothing for a parameter without sigma; the same for the limit setting and the
best-fit bookkeeping.
"""
import numpy as np

from .. import terms as T
from ..spec import methodize
from .stats import STATS

MINIMUM = 6


def check(ctx):
    for cls in sorted(STATS):
        key = cls + ".penalty"
        with ctx.guard(key):
            fs = ctx.snippet("""
from echidna.fit.test_statistic import %s
def client(value, prior, sigma):
    return %s().get_penalty_term(value, prior, sigma)
def ref(value, prior, sigma):
    return %s * ((value - prior) / sigma) ** 2
""" % (cls, cls, "0.5" if cls == "BakerCousinsLL" else "1."))
            r = ctx.run(fs["client"])
            ctx.same(key, r.ret, ctx.run(fs["ref"]).ret, "penalty",
                     where=r.func.where,
                     hints={"value": "real", "prior": "real",
                            "sigma": "pos"})
    # the fit
    from . import fitlib
    key = "Fit.total-penalty"
    with ctx.guard(key):
        fs = ctx.snippet("import numpy\nimport copy\n" + fitlib.FUNCT)
        want = methodize(fs["_funct"], ctx.p.cls("Fit"))
        f = ctx.find("Fit", "_funct")
        r = ctx.run(f, selfcls=ctx.p.cls("Fit"), **fitlib.opts())
        w = ctx.run(want, selfcls=ctx.p.cls("Fit"), **fitlib.opts())
        ctx.same(key, T.idx(r.ret, T.ONE), T.idx(w.ret, T.ONE),
                 "penalty of a fit point", where=f.where,
                 hints=fitlib.hints())
    # results of a limit scan
    def row(n):
        return lambda env, o: np.array(
            [[round(.1 + env.rnd(n, i, j),
                    0 if env.rnd("coarse") < .3 else 3)
              for j in range(1 + int(3 * env.rnd("pars")))]
             for i in range(1 + int(4 * env.rnd("scales")))])
    h = {"(world)": lambda env: None, "_penalty_terms": row("pt"),
         "_stats": lambda env, o: row("st")(env, o)[:, 0],
         "i": lambda env, o: float(int(
             env.rnd("i") * (1 + int(4 * env.rnd("scales")))))}
    ctx.agree("LimitResults.get_full_stat", "LimitResults", "get_full_stat",
              "def get_full_stat(self, i):\n"
              "    return self._stats[i] + sum([x for x in "
              "self._penalty_terms[i]])\n", hints=h)
    ctx.agree("LimitResults.get_full_stats", "LimitResults",
              "get_full_stats", """
def get_full_stats(self):
    out = numpy.zeros(self._stats.shape)
    for i in range(len(self._stats)):
        out[i] = self._stats[i] + sum([x for x in self._penalty_terms[i]])
    return out
""", hints=h)
