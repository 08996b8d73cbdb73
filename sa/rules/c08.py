"""Filling: the summary of Spectra.fill equals the reference summary.

Reference: reject a keyword that is not a parameter, a missing parameter, a
value outside [low, high); otherwise exactly the element indexed by
floor((value - low) / width) along every axis grows by the weight.
"""
from .. import terms as T
from .. import interp
from .speclib import SELF, base, world_of, POOL

MINIMUM = 5

REF = """
def fill(self, weight=1.0, **kwargs):
    pars = self._config._parameters
    for name in kwargs:
        if name not in pars:
            raise Exception("unknown")
    index = []
    for name in pars:
        if name not in kwargs:
            raise Exception("missing")
    for name in pars:
        p = pars[name]
        if kwargs[name] < p._low or kwargs[name] >= p._high:
            raise ValueError("range")
    for name in pars:
        p = pars[name]
        index.append(int((kwargs[name] - p._low) /
                         ((p._high - p._low) / p._bins)))
    i = tuple(index)
    self._data[i] = self._data[i] + weight
"""


def values(env, o):
    """Keyword values: usually one per parameter, mostly in range."""
    w = world_of(env)
    out = {}
    for n in w.roots("self"):
        low, high, bins = w.axis("self", n)
        width = (high - low) / bins
        r = env.rnd("case", n)
        if r < 0.04:
            continue
        if r < 0.5:
            x = low + width * env.rnd("x", n) * bins
        elif r < 0.8:
            x = low + width * int(env.rnd("x", n) * bins)
        elif r < 0.9:
            x = low
        elif r < 0.93:
            x = high
        elif r < 0.96:
            x = high + 0.2 * width
        else:
            x = low - 0.2 * width
        out[env.key(n)] = (n, round(x, 9))
    if env.rnd("extra") < 0.05:
        out[env.key("other")] = ("other", 1.)
    return out


def check(ctx):
    h = base(kwargs=values, weight="real")
    r = ctx.agree("Spectra.fill", "Spectra", "fill", REF,
                  ["_data", "_num_decays", "_raw_events"], hints=h, ret=False)
    with ctx.guard("Spectra.fill:default-weight"):
        f = ctx.find("Spectra", "fill")
        d = f.node.args.defaults
        v = getattr(d[-1], "value", None) if d else None
        ctx.verdict("Spectra.fill:default-weight", v == 1, "default weight "
                    "%r" % (v,), f.where)
