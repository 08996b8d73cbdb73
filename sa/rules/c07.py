"""Shrinking, cutting, regions of interest.

The summaries of shrink, cut and shrink_to_roi are compared with reference
summaries: every request is checked before anything is written; the data are
sliced between the bin edges the new bounds name (an unaligned bound moves
outwards to the edge of the bin that contains it) and every axis records
exactly those edges and that many bins.
"""
from .. import terms as T
from .speclib import SELF, base, world_of

MINIMUM = 18

CHECK = """
    pars = self._config._parameters
    for arg in kwargs:
        side = arg.split("_")[-1]
        name = arg[:-1 * (len(side) + 1)]
        if name not in pars:
            raise IndexError("unknown")
        if side != "low" and side != "high":
            raise IndexError("suffix")
        if side == "low":
            if kwargs[arg] < pars[name]._low and not numpy.allclose(
                    kwargs[arg], pars[name]._low):
                raise ValueError("low")
        if side == "high":
            if kwargs[arg] > pars[name]._high and not numpy.allclose(
                    kwargs[arg], pars[name]._high):
                raise ValueError("high")
"""
SLICE = """
    lows = []
    highs = []
    for name in pars:
        p = pars[name]
        w = (p._high - p._low) / p._bins
        if name + "_low" in kwargs:
            lows.append(LOWEDGE((kwargs[name + "_low"] - p._low) / w))
        else:
            lows.append(0)
        if name + "_high" in kwargs:
            highs.append(HIGHEDGE((kwargs[name + "_high"] - p._low) / w))
        else:
            highs.append(p._bins)
    full = SUMALL(self._data)
    self._data = SLICED(self._data, lows, highs)
    kept = SUMALL(self._data)
    for i, name in enumerate(pars):
        p = pars[name]
        w = (p._high - p._low) / p._bins
        low = p._low
        p._low = low + lows[i] * w
        p._high = low + highs[i] * w
        p._bins = highs[i] - lows[i]
"""

REFS = {
    "shrink": "def shrink(self, **kwargs):" + CHECK + SLICE,
    "cut": "def cut(self, **kwargs):" + CHECK + SLICE + """
    if full == 0:
        raise ZeroDivisionError("empty")
    self._num_decays = self._num_decays * (kept / full)
""",
    "shrink_to_roi": """
def shrink_to_roi(self, lower_limit, upper_limit, dimension):
    kwargs = {}
    kwargs[dimension + "_low"] = lower_limit
    kwargs[dimension + "_high"] = upper_limit
""" + CHECK + SLICE + """
    q = pars[dimension]
    self._rois[dimension] = {"low": q._low, "high": q._high,
                             "efficiency": kept / full}
"""}


def bound(env, n, side):
    w = world_of(env)
    low, high, bins = w.axis("self", n)
    width = (high - low) / bins
    b = int(bins)
    lo = int(env.rnd("lo", n) * b)
    hi = lo + 1 + int(env.rnd("hi", n) * (b - lo))
    r = env.rnd("how", n, side)
    k = lo if side == "low" else hi
    if r < 0.06:
        return round(low - 0.4 * width, 6)
    if r < 0.12:
        return round(high + 0.4 * width, 6)
    if r < 0.35:
        x = 0.1 + 0.8 * env.rnd("u", n, side)
        return round(low + (k + (x if side == "low" else x - 1)) * width, 6)
    return low + k * width


def request(env, o):
    out = {}
    for n in world_of(env).roots("self"):
        for side in ("low", "high"):
            if env.rnd("has", n, side) < 0.6:
                out[n + "_" + side] = bound(env, n, side)
    r = env.rnd("bad")
    if r < 0.04:
        out["absent_low"] = 1.
    elif r < 0.08:
        out[world_of(env).roots("self")[0] + "_mid"] = 1.
    return dict((env.key(k), (k, v)) for k, v in out.items())


def dimension(env, o):
    ns = world_of(env).roots("self")
    if env.rnd("nodim") < 0.05:
        return "absent"
    return ns[int(env.rnd("dim") * len(ns))]


def limit(side):
    def f(env, o):
        n = dimension(env, o)
        return 1. if n == "absent" else bound(env, n, side)
    return f


def check(ctx):
    cfg = T.raw("attr", T.raw("attr", SELF, "_config"), "_parameters")
    par = T.idx(cfg, T.raw("key", cfg, T.sym("axis")))
    h = base(maxrank=3, maxbins=5, kwargs=request, dimension=dimension,
             lower_limit=limit("low"), upper_limit=limit("high"))
    h["axis"] = lambda env, o: float(int(env.rnd("axis") * len(
        world_of(env).roots("self"))))
    h["_rois"] = lambda env, o: dict((env.key(k), (k, 1.)) for k in ("old",))
    fields = ["_data", (par, "_low"), (par, "_high"), (par, "_bins"),
              "_num_decays", "_raw_events"]
    for m in ("shrink", "cut", "shrink_to_roi"):
        ctx.agree("Spectra." + m, "Spectra", m, REFS[m],
                  fields + (["_rois"] if m == "shrink_to_roi" else []),
                  imports="from ref import SLICED, LOWEDGE, HIGHEDGE, SUMALL",
                  hints=h, ret=False)
