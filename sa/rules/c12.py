"""Grids of fit parameters.

get_values is compared with the documented spacing in each of the three
modes; histories (read, update any one quantity, read again) are analysed
through client code so that a stale cached grid shows as a difference, and no
method other than the reader and the updater may write the cache.
"""
import ast

from .. import terms as T
from .. import interp
from .speclib import SELF

MINIMUM = 12

REF = """
def get_values(self):
    if self._values is not None:
        return self._values
    if self._logscale:
        a = numpy.log(self._low)
        b = numpy.log(self._high)
        return numpy.exp(numpy.linspace(a, b, self._bins))
    if self._logscale_deviation:
        below = abs(self._low - self._prior)
        above = abs(self._high - self._prior)
        n_below = numpy.rint(below / (below + above) * (self._bins + 1))
        n_above = numpy.rint(above / (below + above) * (self._bins + 1))
        x = numpy.linspace(0., numpy.log(below + 1.), n_below)
        y = numpy.linspace(0., numpy.log(above + 1.), n_above)
        return numpy.append(self._prior + 1. - numpy.exp(x[::-1]),
                            self._prior - 1. + numpy.exp(y[1:]))
    return numpy.linspace(self._low, self._high, self._bins)
"""

CLIENT = """
from echidna.core.parameter import %(cls)s
def client(name, prior, sigma, low, high, bins, log, dev, x):
    p = %(cls)s(name, prior, sigma, low, high, bins, %(dim)s logscale=log,
                logscale_deviation=dev)
    before = p.get_values()
    p.set_par(%(kw)s=x)
    return p.get_values()
def ref(name, prior, sigma, low, high, bins, log, dev, x):
    p = %(cls)s(name, prior, sigma, low, high, bins, %(dim)s logscale=log,
                logscale_deviation=dev)
    p._%(kw)s = x
    return p.get_values()
"""


def low(env, o):
    return interp.Flt(round(0.2 + 2 * env.rnd("low"), 2))


def high(env, o):
    return interp.Flt(low(env, o) + round(1.5 + 3 * env.rnd("high"), 2))


def prior(env, o):
    a, b = low(env, o), high(env, o)
    return interp.Flt(a + (b - a) * (0.3 + 0.4 * env.rnd("prior")))


def bins(env, o):
    return interp.Int(4 + int(env.rnd("bins") * 5))


def flag(name):
    def f(env, o):
        r = env.rnd(name)
        return None if r < 0.4 else r < 0.7
    return f


def update(kw):
    def f(env, o):
        if kw == "low":
            return interp.Flt(low(env, o) * 0.8)
        if kw == "high":
            return interp.Flt(high(env, o) * 1.25)
        if kw == "prior":
            return interp.Flt(prior(env, o) * 1.05)
        if kw == "bins":
            return interp.Int(bins(env, o) + 2)
        return env.rnd("newflag") < 0.5
    return f


H = {"_low": low, "_high": high, "_prior": prior, "_bins": bins,
     "low": low, "high": high, "prior": prior, "bins": bins,
     "_logscale": flag("log"), "_logscale_deviation": flag("dev"),
     "log": flag("log"), "dev": flag("dev"), "sigma": "pos",
     "_sigma": "pos",
     "_values": lambda env, o: None if env.rnd("val") < 0.7 else
     tuple([1., 2.]), "(world)": lambda env: None}


def check(ctx):
    r = ctx.agree("FitParameter.get_values", "FitParameter", "get_values",
                  REF, ["_low", "_high", "_bins", "_prior", "_sigma"],
                  hints=H)
    if r:
        ctx.untouched("FitParameter.get_values:definition", r[0], [SELF],
                      allow=("_values",))
        # what is returned is what is cached, so later reads agree
        ctx.same("FitParameter.get_values:cache", r[0].field(SELF, "_values"),
                 r[0].ret, "cached grid", where=r[0].func.where, hints=H)
    for kw in ("low", "high", "bins", "prior", "logscale",
               "logscale_deviation"):
        key = "history:%s" % kw
        with ctx.guard(key):
            fs = ctx.snippet(CLIENT % {"cls": "RateParameter", "kw": kw,
                                       "dim": ""})
            c, d = ctx.run(fs["client"]), ctx.run(fs["ref"])
            ctx.same(key, c.ret, d.ret, "grid read after updating " + kw,
                     where=ctx.find("FitParameter", "set_par").where,
                     hints=dict(H, x=update(kw)))
    ctx.agree("FitParameter.get_value_at", "FitParameter", "get_value_at", """
def get_value_at(self, index):
    return self.get_values()[index]
""", hints=dict(H, index=lambda env, o: float(int(env.rnd("i") * 3)),
                _values=lambda env, o: (2., 3., 5., 7.)))
    writers(ctx)


def writers(ctx):
    """Every writer of a quantity the grid depends on drops the cache."""
    inputs = ("_low", "_high", "_bins", "_prior", "_logscale", "_base",
              "_logscale_deviation")
    for cls in sorted(ctx.p.classes_by_name):
        for k in ctx.p.classes_by_name[cls]:
            if not any(m.name == "FitParameter" for m in ctx.p.mro(k)):
                continue
            for f in k.methods.values():
                if f.name == "__init__" or f.name.startswith("__"):
                    continue
                key = "writers:%s.%s" % (k.name, f.name)
                w = [n for n in ast.walk(f.node)
                     if isinstance(n, ast.Attribute) and isinstance(
                         n.ctx, ast.Store) and n.attr in inputs + (
                             "_values",)]
                if not w:
                    continue
                if f.name in ("get_values", "set_par"):
                    ctx.hold(key, "reader or updater analysed above")
                    continue
                with ctx.guard(key):
                    r = ctx.run(f, selfcls=k)
                    hit = [e for e in r.kinds("setattr") if T.ptr(
                        e.data[0]) is SELF and e.data[1] in inputs]
                    drop = [e for e in r.kinds("setattr") if T.ptr(
                        e.data[0]) is SELF and e.data[1] == "_values"]
                    if hit and not drop:
                        ctx.violate(key, "%s is written without dropping the "
                                    "cached grid" % hit[0].data[1],
                                    hit[0].where)
                    elif hit:
                        ctx.hold(key, "writes grid inputs and the cache",
                                 hit[0].where)
                    else:
                        ctx.hold(key, "no grid input written")
