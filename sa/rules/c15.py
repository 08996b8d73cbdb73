"""Scaling and shifting an axis.

The data, decay count and raw event count of the spectrum returned by
Scale.scale, Shift.shift and Shift.shift_by_bin equal those of a reference
that moves one slab of the axis at a time.  The interpolation itself is kept
symbolic (an arbitrary function of position), so what is decided is the
source position of every bin, the range guards, the split between the two
contributing slabs, the renormalisation and the bookkeeping.
"""
import numpy as np

from .. import interp
from .speclib import SPEC, base, world_of

MINIMUM = 9

MOVED = """
    low = par._low
    high = par._high
    bins = par._bins
    width = (high - low) / bins
    out = numpy.zeros(spectrum._data.shape)
    for i in range(bins):
        x = %s
        if x < low or x >= high:
            continue
        if x < low + 0.5 * width:
            x = low + 0.5 * width
        elif x > high - 0.5 * width:
            x = high - 0.5 * width - 1e-6
        y = f(x)
        if y <= 0.:
            continue
        first = int((x - low) / width)
        centre = low + (first + 0.5) * width
        if centre > x:
            second = first - 1
            if second < 0:
                second = 0
                a1 = 1.
                a2 = 0.
            else:
                left = centre - 0.5 * width
                right = x + 0.5 * width
                if right > high - 0.5 * width:
                    right = high - 0.5 * width - 1e-6
                a1 = abs(0.5 * (right - left) * (f(right) + f(left)))
                far = x - 0.5 * width
                a2 = abs(0.5 * (left - far) * (f(left) + f(far)))
        else:
            second = first + 1
            if second >= bins:
                second = bins - 1
                a1 = 1.
                a2 = 0.
            else:
                left = x - 0.5 * width
                if left < low + 0.5 * width:
                    left = low + 0.5 * width
                right = centre + 0.5 * width
                a1 = abs(0.5 * (right - left) * (f(right) + f(left)))
                far = x + 0.5 * width
                a2 = abs(0.5 * (far - right) * (f(far) + f(right)))
        if a1 == 0. and a2 == 0.:
            continue
        d1 = SLAB(spectrum._data, axis, first)
        d2 = SLAB(spectrum._data, axis, second)
        s1 = SUMALL(d1)
        s2 = SUMALL(d2)
        if s1 <= 0. and s2 <= 0.:
            continue
        if s1 <= 0.:
            out = ADDSLAB(out, axis, i, d2 * (y / s2))
        elif s2 <= 0.:
            out = ADDSLAB(out, axis, i, d1 * (y / s1))
        else:
            out = ADDSLAB(out, axis, i, d1 * (a1 / (a1 + a2)) * (y / s1) +
                          d2 * (a2 / (a1 + a2)) * (y / s2))
    result = copy.copy(spectrum)
    result._config = copy.deepcopy(spectrum._config)
    result._data = out * SUMALL(spectrum._data) / SUMALL(out)
    result._num_decays = spectrum._num_decays
    return result
"""

HEAD = """
    axis = spectrum._config.get_index(dimension)
    par = spectrum._config._parameters[dimension]
"""

SCALE = """
def scale(self, spectrum, dimension, **kwargs):
    f = spectrum.interpolate1d(dimension, **kwargs)
""" + HEAD + MOVED % "(low + (i + 0.5) * width) / self._scale_factor"

BYBIN = """
    low = par._low
    high = par._high
    bins = par._bins
    width = (high - low) / bins
    out = numpy.zeros(spectrum._data.shape)
    for i in range(bins):
        x = low + (i + 0.5) * width - self._shift
        if x < low or x > high:
            continue
        d = SLAB(spectrum._data, axis, int((x - low) / width))
        if SUMALL(d) > 0.:
            out = ADDSLAB(out, axis, i, d)
    result = copy.copy(spectrum)
    result._config = copy.deepcopy(spectrum._config)
    result._data = out
    return result
"""

WHOLE = """
def shift_by_bin(self, spectrum, dimension):
""" + HEAD + """
    if not numpy.isclose(self._shift % ((par._high - par._low) / par._bins), 0.):
        raise ValueError("not a multiple")
""" + BYBIN

SHIFT = """
def shift(self, spectrum, dimension, **kwargs):
    par = spectrum._config._parameters[dimension]
    if numpy.isclose(self._shift % ((par._high - par._low) / par._bins), 0.):
        return self.shift_by_bin(spectrum, dimension)
    f = spectrum.interpolate1d(dimension, **kwargs)
""" + HEAD + MOVED % "low + (i + 0.5) * width - self._shift"


INTERPOLATE = """
from scipy import interpolate
def interpolate1d(self, dimension, k=3):
    par = self._config._parameters[dimension]
    width = (par._high - par._low) / par._bins
    x = numpy.array([par._low + (i + .5) * width for i in range(par._bins)])
    return interpolate.InterpolatedUnivariateSpline(
        x, self.project(dimension), k=k)
"""


def inter(f):
    return f.short == "Spectra.interpolate1d"


def dimension(env, o):
    ns = world_of(env).roots("spectrum")
    return ns[int(env.rnd("dim") * len(ns))]


def shift(env):
    w = world_of(env)
    lo, hi, n = w.axis("spectrum", dimension(env, None))
    step = (hi - lo) / n
    r = env.rnd("sh")
    k = int(env.rnd("shk") * (2 * n + 3)) - n - 1
    return k * step if r < .25 else round((3 * env.rnd("sh2") - 1.5) * n *
                                          step / 2, 3)


def factor(env, o):
    r = env.rnd("sf")
    return 1. if r < .1 else round(.6 + 1.2 * r, 3)


def content(env, o):
    """Interpolated content: the spectrum's own at a bin centre, any
    function of position, sometimes <= 0, elsewhere."""
    x = float(o.key[:-1].rsplit(",", 1)[1])
    w = world_of(env)
    dim = dimension(env, None)
    lo, hi, n = w.axis("spectrum", dim)
    at = (x - lo) / ((hi - lo) / n) - .5
    if abs(at - round(at)) < 1e-6:
        d = env.hints["_data"](env, SPECTRUM)
        k = w.roots("spectrum").index(dim)
        d = d.sum(axis=tuple(i for i in range(d.ndim) if i != k))
        if 0 <= round(at) < len(d):
            return float(d[int(round(at))])
    r = env.rnd("f", "%.6f" % x)
    return 0. if r < .1 else round(4 * r - .8, 4)


SPECTRUM = interp.Obj("spectrum")


def contents(env, o):
    """Bin contents; some bins and slabs are empty."""
    d = DATA(env, o).copy()
    z = env.rnd("zero")
    if z < .4:
        for i in np.ndindex(*d.shape):
            if env.rnd("z", str(i)) < .3:
                d[i] = 0.
    if z < .2:
        d[int(env.rnd("slab") * d.shape[0])] = 0.
    if not d.any():
        d[(0,) * d.ndim] = 1.
    return d


DATA = base()["_data"]


def check(ctx):
    opts = dict(opaque=inter, pure=lambda f: "const" if inter(f) else False)
    h = base(related=(), dimension=dimension, _scale_factor=factor,
             _shift=lambda env, o: shift(env), _data=contents)
    h["apply()"] = content
    fields = ["result._data", "result._num_decays", "result._raw_events"]
    imp = "from ref import SLAB, ADDSLAB, SUMALL"
    for cls, name, ref in (("Scale", "scale", SCALE),
                           ("Shift", "shift_by_bin", WHOLE),
                           ("Shift", "shift", SHIFT)):
        o = dict(opts)
        if name == "shift":
            op = lambda f: inter(f) or f.short == "Shift.shift_by_bin"
            o = dict(opaque=op, pure=lambda f: "const" if op(f) else False)
        ctx.agree("%s.%s" % (cls, name), cls, name, ref, fields, opts=o,
                  imports=imp, hints=h, ret=False)
    proj = lambda f: f.short == "Spectra.project"
    ctx.agree("Spectra.interpolate1d", "Spectra", "interpolate1d",
              INTERPOLATE, opts=dict(opaque=proj, pure=proj),
              hints=base(dimension=selfdim, _data=contents), extra_vocab=(
                  "scipy.interpolate.InterpolatedUnivariateSpline",))


def selfdim(env, o):
    ns = world_of(env).roots("self")
    return ns[int(env.rnd("dim") * len(ns))]
