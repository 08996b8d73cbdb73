"""Smearing an axis.

The data of the spectrum returned by each weighted_smear equals, for random
small spectra and every rank, that of a reference which spreads one slab of
the axis at a time over the slabs whose centres lie in the window, with
weights normalised by their own sum.  The widths (get_sigma), windows
(get_bounds) and weight functions are checked against their formulas.
"""
import numpy as np

from .. import terms as T
from .. import interp
from .speclib import base, world_of

MINIMUM = 20

WEIGHTED = """
def weighted_smear(self, spectrum, par):
    axis = spectrum._config.get_index(par)
    low = spectrum._config._parameters[par]._low
    high = spectrum._config._parameters[par]._high
    bins = spectrum._config._parameters[par]._bins
    width = (high - low) / bins
    out = numpy.zeros(spectrum._data.shape)
    for i in range(bins):
        mean = low + (i + 0.5) * width
        sigma = {sigma}
        first = NEAREST((mean - self._num_sigma * sigma - low) / width - 0.5)
        last = NEAREST((mean + self._num_sigma * sigma - low) / width - 0.5)
        if first < 0:
            first = 0
        if last > bins - 1:
            last = bins - 1
        total = 0.
        for j in range(first, last + 1):
            x = low + (j + 0.5) * width
            total += {weight}
        for j in range(first, last + 1):
            x = low + (j + 0.5) * width
            w = {weight}
            out = ADDSLAB(out, axis, j, SLAB(spectrum._data, axis, i) * w /
                          total)
    result = copy.copy(spectrum)
    result._config = copy.deepcopy(spectrum._config)
    result._data = out
    result._num_decays = spectrum._num_decays
    result._raw_events = spectrum._raw_events
    return result
"""
GAUSS = "(numpy.exp(-(x - mean) ** 2 / (2 * sigma ** 2)) / " \
    "(sigma * numpy.sqrt(2 * numpy.pi)))"
POISSON = "(self.calc_poisson_energy(x, mean) if " \
    "self._poisson_smear is True else %s)" % GAUSS
SIGMA = {"EnergySmearLY": "numpy.sqrt(mean / self._light_yield)",
         "EnergySmearRes": "self._resolution * numpy.sqrt(mean)",
         "RadialSmear": "self._resolution"}


def symbolic(f):
    return f.name == "calc_poisson_energy"


def among(*v):
    return lambda env, o: interp.Flt(
        v[int(env.rnd("among", o.key) * len(v))] *
        (1 + round(.2 * env.rnd("amongv", o.key), 3)))


def infill(e):
    return e.func is not None and e.func.short == "Spectra.fill"


def axis(env, o):
    ns = world_of(env).roots("spectrum")
    return ns[int(env.rnd("dim") * len(ns))]


def check(ctx):
    op = dict(opaque=symbolic,
              pure=lambda f: "const" if symbolic(f) else False)
    h = base(maxrank=2, maxbins=3, related=(), positive=True, par=axis,
             _num_sigma=among(.4, 1., 1.7, 3.),
             _resolution=among(.15, .4, .8),
             _light_yield=among(2., 7., 30.),
             _poisson_smear=lambda env, o: env.rnd("poisson") < .5)
    for cls in sorted(SIGMA):
        w = GAUSS if cls == "RadialSmear" else POISSON
        ctx.agree(cls + ".weighted_smear", cls, "weighted_smear",
                  WEIGHTED.format(sigma=SIGMA[cls], weight=w),
                  ["result._data", "result._num_decays",
                   "result._raw_events"], opts=op, hints=h, ret=False,
                  drop=infill, fails=("index out of range",),
                  imports="from ref import SLAB, ADDSLAB, NEAREST")
    nw = {"(world)": lambda env: None}
    pos = dict(nw, mean="real", sigma="pos", x="real", energy="pos",
               lamb="pos", _light_yield="pos", _resolution="pos",
               _num_sigma="pos")
    ctx.agree("Smear.calc_gaussian", "Smear", "calc_gaussian", """
def calc_gaussian(self, x, mean, sigma):
    return numpy.exp(-(x - mean) ** 2 / (2. * sigma ** 2)) / (
        sigma * numpy.sqrt(2. * numpy.pi))
""", hints=pos)
    ctx.agree("Smear.get_bounds", "Smear", "get_bounds", """
def get_bounds(self, mean, sigma):
    return mean - self._num_sigma * sigma, mean + self._num_sigma * sigma
""", hints=pos)
    ctx.agree("Smear.get_bin_mean", "Smear", "get_bin_mean", """
def get_bin_mean(self, low, bin, width):
    return low + bin * width + width / 2.
""", hints=dict(nw, low="real", bin="nat", width="pos"))
    for cls, f in (("EnergySmearLY", "numpy.sqrt(energy / self._light_yield)"),
                   ("EnergySmearRes", "self._resolution * energy ** 0.5"),
                   ("RadialSmear", "self._resolution")):
        ctx.agree(cls + ".get_sigma", cls, "get_sigma",
                  "def get_sigma(self%s):\n    return %s\n" % (
                      "" if cls == "RadialSmear" else ", energy", f),
                  hints=pos)
    for cls in ("EnergySmearLY", "EnergySmearRes"):
        ctx.agree(cls + ".calc_poisson_energy", cls, "calc_poisson_energy",
                  POISSON_PDF, ["_log_factorial"], hints=dict(
                      nw, lamb=among(.3, 1., 2.), _log_factorial=cached,
                      x=lambda env, o: round(2.5 * env.rnd("x"), 3),
                      _light_yield=among(3., 8.)))
    for cls in ("EnergySmearRes", "RadialSmear"):
        ctx.agree(cls + ".calc_smear_resoluton", cls, "calc_smear_resoluton",
                  EXTRA, hints=dict(nw, new_res="pos", _resolution="pos",
                                    cur_res=among(.5, 1., 2.)))
    ctx.agree("EnergySmearLY.calc_smear_ly", "EnergySmearLY",
              "calc_smear_ly", EXTRA_LY, hints=dict(
                  nw, new_ly=among(50., 100., 200.), _light_yield=among(
                      60., 150.), cur_ly=among(60., 180.)))


POISSON_PDF = """
def calc_poisson_energy(self, x, lamb):
    k = int(x * self._light_yield)
    if k not in self._log_factorial:
        self._log_factorial[k] = numpy.sum(numpy.log(numpy.arange(1, k + 1)))
    return numpy.exp(k * numpy.log(lamb * self._light_yield) -
                     self._log_factorial[k] - lamb * self._light_yield)
"""

EXTRA = """
def calc_smear_resoluton(self, new_res, cur_res=None):
    if not cur_res:
        cur_res = self._resolution
    if new_res < cur_res:
        raise ValueError("sharper than at present")
    return numpy.sqrt(new_res ** 2 - cur_res ** 2)
"""

EXTRA_LY = """
def calc_smear_ly(self, new_ly, cur_ly=None):
    if not cur_ly:
        cur_ly = self._light_yield
    if new_ly > cur_ly:
        raise ValueError("sharper than at present")
    return 1. / (1. / new_ly - 1. / cur_ly)
"""


def cached(env, o):
    d = {}
    for k in range(30):
        if env.rnd("cached", k) < .3:
            d[env.key(float(k))] = (float(k), float(np.sum(np.log(
                np.arange(1, k + 1)))))
    return d
