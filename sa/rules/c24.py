"""The limit is the first hypothesis, from the best fit on, whose statistic
(penalties included) exceeds the reference by more than the threshold.

Limit.get_limit is analysed with the fitter replaced by a class of the rule's
own, whose fit() is a known function of the signal it holds (its number of
decays, or its absence); everything else is the repository's code.  The scan
is compared with a direct statement of the limit.
"""
import numpy as np

from .. import interp
from .. import terms as T
from .speclib import SELF

MINIMUM = 18

# a fitter whose result is a function of the decays of the signal it holds
FITTER = """
import numpy
from echidna.errors.custom_errors import LimitError, CompatibilityError

class ScanSummary(object):
    def __init__(self, x):
        self._x = x / cu

    def get_summary(self):
        return {"a": {"best_fit": 1. + self._x, "penalty_term": ca *
                      numpy.abs(self._x - 2.)},
                "b": {"best_fit": 5. - self._x, "penalty_term": cb * self._x}}

class ScanFitter(object):
    def remove_signal(self):
        self._signal = None

    def set_signal(self, signal, shrink=True):
        self._signal = signal

    def get_signal(self):
        return self._signal

    def get_fit_config(self):
        return self._fit_config

    def check_fit_config(self, signal):
        return None

    def decays(self):
        if self._signal is None:
            return 0.
        return self._signal._num_decays

    def curve(self, x):
        return c0 + c1 * x / cu + c2 * numpy.abs(x / cu - c3)

class PlainFitter(ScanFitter):
    def fit(self):
        return self.curve(self.decays())

    def get_minimiser(self):
        return None

class FloatFitter(ScanFitter):
    def fit(self):
        x = self.decays()
        return self.curve(x), c4 * x

    def get_minimiser(self):
        return ScanSummary(self.decays())

class BinnedFitter(ScanFitter):
    def fit(self):
        x = self.decays()
        return self.curve(x) * weights, c4 * x

    def get_minimiser(self):
        return ScanSummary(self.decays())
"""

BODY = """
def curve(x):
    return c0 + c1 * x / cu + c2 * numpy.abs(x / cu - c3)

def stat(x):
    return %(stat)s

def penalties(x):
    return %(pen)s

def scan(self, limit, min_stat):
    scales = self._signal._fit_config.get_par("rate").get_values()
    if min_stat is None:
        min_stat = stat(0.)
    full = numpy.array([numpy.sum(stat(s) - min_stat) + penalties(s)
                        for s in scales])
    return scales, full

def get_limit(self, limit=2.71, min_stat=None, store_limit=True,
              store_fits=False, store_spectra=False, limit_fname=None):
    scales, full = scan(self, limit, min_stat)
    best = numpy.argmin(full)
    over = [s for i, s in enumerate(scales)
            if i >= best and full[i] > limit]
    if len(over) == 0:
        raise LimitError("no crossing")
    return over[0]
"""

PENALTIES = "ca * numpy.abs(x / cu - 2.) + cb * x / cu"
MODES = {
    "plain": ("PlainFitter", "curve(x)", "0."),
    "floating": ("FloatFitter", "curve(x)", PENALTIES),
    "perbin": ("BinnedFitter", "curve(x) * weights", PENALTIES),
}

TABLES = """
def get_limit(self, limit=2.71, min_stat=None, store_limit=True,
              store_fits=False, store_spectra=False, limit_fname=None):
    scales, full = scan(self, limit, min_stat)
    if min_stat is None:
        min_stat = stat(0.)
    kept = self._limit_results
    kept._stats = numpy.array([stat(s) - min_stat for s in scales])
    kept._best_fits = numpy.array([[1. + s / cu, 5. - s / cu]
                                    for s in scales])
    kept._penalty_terms = numpy.array([[ca * numpy.abs(s / cu - 2.), cb * s / cu]
                                       for s in scales])
"""

ARRAY = """
def get_array_limit(self, array, limit=2.71):
    scales = self._signal._fit_config.get_par("rate").get_values()
    if len(scales) != len(array):
        raise CompatibilityError("length")
    over = [s for s, x in zip(scales, array) if %s > limit]
    if len(over) == 0:
        raise LimitError("no crossing")
    return over[0]
"""

STATS = """
def get_statistics(self):
    scales = self._signal._fit_config.get_par("rate").get_values()
    return numpy.array([curve(s) for s in scales])
"""


def scales(env, o=None):
    n = 1 + int(env.rnd("n") * 5)
    v = [grain(env, .5 + 1.1 * i + .5 * env.rnd("s", i)) for i in range(n)]
    if env.rnd("zero") < .6:
        v[0] = 0.
    if n > 2 and env.rnd("middle") < .2:
        v[n // 2] = 0.
    return np.array(v) * unit(env)


def unit(env):
    """Hypotheses need not be of the order of one decay."""
    r = env.rnd("unit")
    return 1. if r < .6 else 1e-3 if r < .8 else 1e3


def one(name, lo, hi):
    return lambda env, o: interp.Flt(grain(
        env, lo + (hi - lo) * env.rnd(name)))


def grain(env, x):
    """Some samples live on a coarse grid, where values meet exactly."""
    return round(2 * x) / 2. if env.rnd("ties") < .4 else round(x, 4)


def weights(env, o):
    n = 1 + int(env.rnd("nw") * 3)
    return np.array([round(.2 + env.rnd("w", i), 3) for i in range(n)])


def fitpars(env, o):
    out = {}
    for n in ("a", "b"):
        out[env.key(n)] = (n, {env.key("par"): ("par", interp.Obj(
            "fp<%s>" % n, "fitpar")), env.key("type"): ("type", "global")})
    return out


def table(env, o):
    return np.zeros((len(scales(env)), 2))


def hints(mode, **kw):
    h = {"FitParameter.get_values()": scales, "?cu": lambda env, o: interp.Flt(
        unit(env)), "?c0": one("c0", 0, 6), "?c1": one("c1", -3, 3),
         "?c2": one("c2", 0, 4), "?c3": one("c3", -1, 6),
         "?c4": one("c4", .5, 1), "?ca": one("ca", 0, 2),
         "?cb": one("cb", 0, 2), "?weights": weights,
         "limit": one("limit", .1, 6), "min_stat": lambda env, o: None
         if env.rnd("min") < .5 else interp.Flt(grain(
             env, 8 * env.rnd("min_stat"))),
         "store_limit": lambda env, o: env.rnd("sl") < .5,
         "store_fits": lambda env, o: env.rnd("sf") < .5,
         "store_spectra": lambda env, o: env.rnd("ss") < .5,
         "limit_fname": lambda env, o: None if env.rnd("fn") < .5
         else "file.hdf5", "_best_fits": table, "_penalty_terms": table,
         "_num_decays": one("nd", 1, 9), "_bins": lambda env, o: interp.Int(
             len(scales(env))), "get_bins()": lambda env, o: interp.Int(
             len(scales(env))),
         "SpectraFitConfig.get_shape()": lambda env, o: (
             interp.Int(len(scales(env))),),
         "_signal": "obj", "_limit_results": "obj"}
    h["_parameters"] = lambda env, o: fitpars(env, o) \
        if "_signal" not in o.key else {env.key("rate"): (
            "rate", interp.Obj("rate", "fitpar"))}
    if mode == "plain":
        h["?ca"] = h["?cb"] = lambda env, o: interp.Flt(0.)
    h.update(kw)
    return h


def entries(env):
    n = len(scales(env))
    if env.rnd("other length") < .15:
        n += 1
    return [grain(env, 8 * env.rnd("entry", i)) for i in range(n)]


def floats(env, o):
    return tuple(interp.Flt(x) for x in entries(env))


def rows(env, o):
    k = 1 + int(env.rnd("row") * 3)
    return np.array([[x * (j + 1) / k for j in range(k)]
                     for x in entries(env)])


def split(body):
    """The helpers of a reference, without the reference itself."""
    return body[:body.index("def get_limit")]


def opts(cls):
    quiet = ("dump", "dump_limit_results", "_dump_spectra", "get_values")
    return dict(opaque=lambda f: () if f.name in quiet else False,
                pure=lambda f: "const" if f.name in quiet else False,
                types={("Limit", "_signal"): "Spectra",
                       ("Limit", "_fitter"): cls,
                       ("Limit", "_limit_results"): "LimitResults",
                       ("LimitResults", "_fit_config"): "GlobalFitConfig",
                       ("LimitResults", "_limit_config"): "SpectraFitConfig",
                       (cls, "_fit_config"): "GlobalFitConfig",
                       (cls, "_signal"): "Spectra",
                       "item:rate": "FitParameter",
                       "item:par": "FitParameter",
                       ("Spectra", "_fit_config"): "SpectraFitConfig"})


def check(ctx):
    ctx.snippet(FITTER)
    imports = "from echidna.errors.custom_errors import LimitError, " \
        "CompatibilityError"
    for mode, (cls, stat, pen) in MODES.items():
        body = BODY % {"stat": stat, "pen": pen}
        ctx.agree("limit:" + mode, "Limit", "get_limit", body, [],
                  imports=imports, opts=opts(cls), hints=hints(mode),
                  unchanged=False)
        if mode != "plain":
            ctx.agree("kept:" + mode, "Limit", "get_limit", split(body) +
                      TABLES, [(T.raw("attr", T.sym("self"),
                                      "_limit_results"), a)
                               for a in ("_stats", "_best_fits",
                                         "_penalty_terms")],
                      imports=imports, opts=opts(cls), hints=hints(mode),
                      unchanged=False, ret=False, raises=False)
    for name, value, arr in (("floats", "x", floats),
                             ("rows", "numpy.sum(x)", rows)):
        ctx.agree("array:" + name, "Limit", "get_array_limit", ARRAY % value,
                  [], imports=imports, opts=opts("PlainFitter"),
                  hints=hints("plain", array=arr))
    ctx.agree("statistics", "Limit", "get_statistics", split(BODY % {
        "stat": "0", "pen": "0"}) + STATS, [], opts=opts("PlainFitter"),
        hints=hints("plain"), unchanged=False)
