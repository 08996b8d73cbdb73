"""Rebinning: the summary of Spectra.rebin equals the reference summary.

Reference: reject a request of the wrong rank or with a bin count that does
not divide the present one, before anything is written; otherwise element
[i, j, ...] of the new data is the sum of the group of old elements it covers,
each axis records its new bin count and keeps its bounds.
"""
import numpy as np

from .. import terms as T
from .speclib import SELF, base, world_of

MINIMUM = 7

REF = """
def rebin(self, new_bins):
    pars = self._config._parameters
    if len(new_bins) != len(pars):
        raise ValueError("rank")
    for i, name in enumerate(pars):
        if pars[name]._bins % new_bins[i] != 0:
            raise ValueError("factor")
    self._data = REBINNED(self._data, new_bins)
    for i, name in enumerate(pars):
        pars[name]._bins = new_bins[i]
"""


def request(env, o):
    w = world_of(env)
    out = []
    size = int(np.prod(w.shape("self")))
    for n in w.roots("self"):
        b = int(w.axis("self", n)[2])
        r = env.rnd("rb", n)
        if r < 0.06:
            out.append(float(b + 1))
        elif r < 0.2:
            fs = [f for f in range(1, size + 1) if size % f == 0]
            out.append(float(fs[int(env.rnd("fs", n) * len(fs))]))
        else:
            fs = [f for f in range(1, b + 1) if b % f == 0]
            out.append(float(fs[int(env.rnd("f", n) * len(fs))]))
    if env.rnd("rank?") < 0.08:
        out.append(1.)
    return tuple(out)


def check(ctx):
    h = base(new_bins=request, maxbins=6)
    par = T.idx(T.raw("attr", T.raw("attr", SELF, "_config"), "_parameters"),
                T.raw("key", T.raw("attr", T.raw("attr", SELF, "_config"),
                                   "_parameters"), T.sym("axis")))
    h["axis"] = lambda env, o: float(int(env.rnd("axis") * len(
        world_of(env).roots("self"))))
    ctx.agree("Spectra.rebin", "Spectra", "rebin", REF,
              ["_data", (par, "_bins"), (par, "_low"), (par, "_high"),
               "_num_decays", "_raw_events"], hints=h, ret=False, n=4 * ctx.n)
