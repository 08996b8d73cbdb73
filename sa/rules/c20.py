"""Every spectrum entering a fit is checked against region and dimensions.

The checks are inlined down to the comparisons of limits, so what is compared
with the reference is under which conditions each way of supplying a spectrum
is rejected, and what is stored (and marked unchecked) when it is not.
"""
from .. import interp
from . import fitlib

MINIMUM = 30

DIMS = ("energy", "radial3", "time")

CHECKS = """
def limits(self, spectrum):
    config = spectrum._config
    for dim in self._roi:
        name = dim + "_" + config.get_dim_type(dim)
        par = config.get_par(name)
        if not numpy.isclose(self._roi[dim][0], par._low):
            raise ValueError("low")
        if not numpy.isclose(self._roi[dim][1], par._high):
            raise ValueError("high")

def supplied(self, spectrum, shrink):
    if shrink:
        self.shrink_spectra(spectrum)
    else:
        limits(self, spectrum)

def names(self, spectrum):
    out = []
    for dim in self._roi:
        out.append(dim + "_" + spectrum._config.get_dim_type(dim))
    return out

def everything(self):
    if not self._data:
        raise CompatibilityError("no data")
    if not self._data_pars:
        raise CompatibilityError("no data parameters")
    limits(self, self._data)
    if self._fixed_background is None and self._floating_backgrounds is None:
        raise CompatibilityError("no background")
    if self._fixed_background:
        if not self._fixed_pars:
            raise CompatibilityError("no fixed parameters")
        limits(self, self._fixed_background)
    if self._signal:
        if not self._signal_pars:
            raise CompatibilityError("no signal parameters")
        limits(self, self._signal)
    if self._floating_backgrounds:
        if not self._floating_pars:
            raise CompatibilityError("no floating parameters")
        if len(self._floating_pars) != len(self._floating_backgrounds):
            raise CompatibilityError("floating parameters")
        for background in self._floating_backgrounds:
            limits(self, background)

def ready(self):
    everything(self)
    if self._floating_backgrounds:
        if len(self._fit_config.get_pars()) == 0:
            raise IndexError("no parameters")
    else:
        if len(self._fit_config.get_spectra_pars()) != 0:
            raise ValueError("parameters")
    if self._minimiser is None:
        raise AttributeError("minimiser")
    if self._per_bin:
        if not self._minimiser._per_bin:
            raise ValueError("minimiser")
        if not self._test_statistic._per_bin:
            raise ValueError("statistic")
    self._checked = True
"""
CHECKS = "from echidna.errors.custom_errors import CompatibilityError\n" \
    "from echidna.core.config import GlobalFitConfig\nimport collections\n" + CHECKS

REFS = (
    ("check_spectra", (), """
def check_spectra(self, spectra):
    limits(self, spectra)
"""),
    ("get_roi_pars", (), """
def get_roi_pars(self, spectra):
    return names(self, spectra)
"""),
    ("check_all_spectra", (), """
def check_all_spectra(self):
    everything(self)
"""),
    ("check_fitter", ("_checked",), """
def check_fitter(self):
    ready(self)
"""),
    ("set_data", ("_data", "_data_pars", "_checked"), """
def set_data(self, data, shrink=True):
    supplied(self, data, shrink)
    self._data = data
    self._data_pars = names(self, data)
    self._checked = False
"""),
    ("set_fixed_background", ("_fixed_background", "_fixed_pars", "_checked"),
     """
def set_fixed_background(self, fixed_background, shrink=True):
    supplied(self, fixed_background, shrink)
    self._fixed_background = fixed_background
    self._fixed_pars = names(self, fixed_background)
    self._checked = False
"""),
    ("set_signal", ("_signal", "_signal_pars", "_checked"), """
def set_signal(self, signal, shrink=True):
    supplied(self, signal, shrink)
    self._signal = signal
    self._signal_pars = names(self, signal)
    self._checked = False
"""),
    ("set_floating_backgrounds", ("_floating_backgrounds", "_floating_pars",
                                  "_checked"), """
def set_floating_backgrounds(self, floating_backgrounds, shrink=True):
    pars = []
    for background in floating_backgrounds:
        if background._fit_config:
            self._fit_config.add_config(background._fit_config)
        supplied(self, background, shrink)
        pars.append(names(self, background))
    self._floating_backgrounds = floating_backgrounds
    self._floating_pars = pars
    self._checked = False
"""),
    ("__init__", ("_checked", "_data", "_data_pars", "_signal",
                  "_signal_pars", "_floating_backgrounds", "_floating_pars",
                  "_per_bin", "_single_bin"), """
def __init__(self, roi, test_statistic, fit_config=None, data=None,
             fixed_backgrounds=None, floating_backgrounds=None, signal=None,
             shrink=True, per_bin=False, minimiser=None, use_pre_made=False,
             pre_made_base_dir=None, single_bin=False):
    self._checked = False
    self.set_roi(roi)
    self.set_test_statistic(test_statistic)
    if not fit_config:
        fit_config = GlobalFitConfig("fit", collections.OrderedDict())
    self.set_fit_config(fit_config)
    self._data = self._data_pars = None
    if data:
        self.set_data(data)
    self._fixed_background = self._fixed_pars = None
    if fixed_backgrounds:
        self.make_fixed_background(fixed_backgrounds)
    self._floating_backgrounds = self._floating_pars = None
    if floating_backgrounds:
        self.set_floating_backgrounds(floating_backgrounds)
    self._signal = self._signal_pars = None
    if signal:
        self.set_signal(signal)
    if shrink:
        self.shrink_all()
    self._per_bin = per_bin
    self._single_bin = single_bin
    try:
        everything(self)
    except CompatibilityError:
        pass
    except IndexError:
        pass
    self._checked = False
"""),
    ("set_test_statistic", ("_test_statistic", "_checked"), """
def set_test_statistic(self, test_statistic):
    self._test_statistic = test_statistic
    self._checked = False
"""),
    ("set_fit_config", ("_fit_config", "_checked"), """
from echidna.core.config import GlobalFitConfig
def set_fit_config(self, fit_config):
    if not isinstance(fit_config, GlobalFitConfig):
        raise TypeError("type")
    self._fit_config = fit_config
    self._checked = False
"""),
    ("set_roi", ("_roi", "_checked"), """
def set_roi(self, roi):
    if not isinstance(roi, dict):
        raise TypeError("dictionary")
    for dim in roi:
        if not isinstance(roi[dim], (tuple, list)):
            raise TypeError("pairs")
        if len(roi[dim]) != 2:
            raise CompatibilityError("pairs")
        if roi[dim][0] > roi[dim][1]:
            roi[dim] = roi[dim][::-1]
    self._roi = roi
    self._checked = False
"""),
    ("fit", ("_checked",), """
def fit(self):
    if not self._checked:
        ready(self)
    if self._floating_backgrounds:
        if self._minimiser is None:
            raise AttributeError("minimiser")
        return self._minimiser.minimise(self._funct, self._test_statistic)
    observed = self._data.nd_project(self._data_pars)
    expected = self._fixed_background.nd_project(self._fixed_pars)
    if self._signal:
        expected = expected + self._signal.nd_project(self._signal_pars)
    if self._single_bin:
        expected = numpy.sum(expected)
        observed = numpy.sum(observed)
    return self._test_statistic.compute_statistic(
        observed.ravel(), expected.ravel())
"""),
    ("set_minimiser", ("_checked",), """
def set_minimiser(self, minimiser=None):
    everything(self)
    self._checked = False
"""),
    ("shrink_all", (), """
def shrink_all(self):
    if self._data:
        self.shrink_spectra(self._data)
    if self._fixed_background:
        self.shrink_spectra(self._fixed_background)
    if self._signal:
        self.shrink_spectra(self._signal)
    if self._floating_backgrounds:
        for background in self._floating_backgrounds:
            self.shrink_spectra(background)
"""),
    ("remove_signal", ("_signal",), """
def remove_signal(self):
    self._signal = None
"""),
)


def par(env, o):
    return o.key.startswith("par<")


def limit(which):
    def f(env, o):
        if not o.key.startswith("par<"):
            raise interp.Stuck("limit of " + o.key[:60])
        owner, n = o.key[4:o.key.index(">")].split("|")
        d = n.rsplit("_", 1)[0]
        v = round(env.rnd("lo", d), 2) + which
        r = env.rnd("limit", which, o.key)
        calm = env.rnd("calm") < .4
        if r < .1 and not calm:
            v += .5
        elif r < .2:
            v += 1e-12
        elif r < .25 and not calm:
            v -= 1e-3
        return interp.Flt(v)
    return f


def dims(env, o):
    if "_fit_config" in o.key or o.key == "fit_config":
        return fitlib.parameters(env, o)
    out = {}
    for d in DIMS:
        if o.key.startswith("par<"):
            break
        if env.rnd("dim", d) < .7 and (
                env.rnd("absent", d, o.key) > .05 or
                env.rnd("calm") < .4) or \
                env.rnd("more", d, o.key) < .1:
            n = d + "_" + ("mc" if env.rnd("t", d, o.key) < .5 else "reco")
            out[env.key(n)] = (n, interp.Obj("par<%s|%s>" % (o.key, n),
                                             "par"))
    return out


def roi(env, o):
    out = {}
    for d in DIMS:
        if env.rnd("dim", d) < .7:
            lo = round(env.rnd("lo", d), 2)
            out[env.key(d)] = (d, interp.Tup((interp.Flt(lo), interp.Flt(lo + 1))))
    return out


def maybe(p):
    return lambda env, o: None if env.rnd("none", o.key) < p * (
        env.rnd("calm") > .3) else o


def listed(env, o):
    if env.rnd("none", o.key) < .2:
        return None
    n = int(env.rnd("nbg") * 4)
    if o.key.endswith("_pars") and env.rnd("len") < .3:
        n += 1 if env.rnd("more") < .5 or not n else -1
    return tuple(interp.Obj("%s%d" % (o.key, i), "spectrum")
                 for i in range(n))


def pars(env, o):
    r = env.rnd("pars", o.key) + (env.rnd("calm") < .4)
    return None if r < .07 else () if r < .12 else ("a", "b")


def hints(**kw):
    h = {"(world)": lambda env: None, "_parameters": dims, "_roi": roi,
         "_low": limit(0), "_high": limit(1), "_data": maybe(.1),
         "_signal": maybe(.3), "_fixed_background": maybe(.3),
         "_fit_config": lambda env, o: o if o.key.startswith("self") or
         env.rnd("none", o.key) < .6 else None,
         "_floating_backgrounds": listed, "_floating_pars": listed,
         "floating_backgrounds": lambda env, o: tuple(
             interp.Obj("bg%d" % i, "spectrum")
             for i in range(int(env.rnd("nbg") * 3))),
         "_data_pars": pars, "_fixed_pars": pars, "_signal_pars": pars,
         "_per_bin": "bool", "_minimiser": maybe(.2), "shrink": "bool",
         "_checked": "bool"}
    h["roi"], h["spectrum"] = given, "obj"
    h["spectra_dict"] = supplied
    h.update(kw)
    return h


def supplied(env, o):
    out = {}
    for i in range(1 + int(env.rnd("nfixed") * 3)):
        s = interp.Obj("fixed%d" % i, "spectrum")
        out[env.key(s)] = (s, interp.Flt(round(.1 + env.rnd("sc", i), 3)))
    return out


def given(env, o):
    """A region of interest as a caller may write it."""
    if env.rnd("roi?") < .06:
        return interp.Obj("region", "obj")
    bad = env.rnd("bad roi") < .4
    out = {}
    for d in DIMS:
        r, q = env.rnd("entry", d), env.rnd("kind", d)
        a = interp.Flt(round(env.rnd("a", d), 2))
        b = interp.Flt(round(env.rnd("b", d), 2))
        if r < .3:
            continue
        kind = interp.Tup if env.rnd("list", d) < .5 else interp.Lst
        v = kind((a, b))
        if bad and q < .2:
            v = kind((a, b, a))
        elif bad and q < .3:
            v = kind((a,))
        elif bad and q < .45:
            v = a
        out[env.key(d)] = (d, v)
    return out


TYPES = dict(fitlib.TYPES)
TYPES.update({"sym:background": "Spectra", "sym:spectra": "Spectra",
              "sym:signal": "Spectra", "sym:data": "Spectra",
              "sym:fixed_background": "Spectra",
              "sym:floating_backgrounds[]": "Spectra",
              "sym:spectra_dict[]": "Spectra",
              ("Spectra", "_config"): "SpectraConfig"})

STOP = ("Spectra.shrink", "FitParameter.check_values",
        "GlobalFitConfig.add_config", "Config.dump", "GlobalFitConfig.dump",
        "FitParameter.get_values", "GridSearch.minimise",
        "Minimiser.minimise")
CONST = ("FitParameter.check_values", "GlobalFitConfig.dump",
         "FitParameter.get_values")


def opts():
    def op(f):
        if f.short in fitlib.MUTATES and f.short.startswith("Spectra"):
            return fitlib.MUTATES[f.short]
        return f.short in STOP or f.short in fitlib.PURE and \
            f.short != "Fit.get_roi_pars"
    return dict(opaque=op, pure=lambda f: "const" if f.short in CONST else
                fitlib.pure(f), types=TYPES)


SHRUNK = """
def code(fit, p):
    fit.shrink_all()
    return (None if fit._data is None else fit._data.nd_project(p),
            None if fit._fixed_background is None else
            fit._fixed_background.nd_project(p),
            None if fit._signal is None else fit._signal.nd_project(p))

def ref(fit, p):
    for s in (fit._data, fit._fixed_background, fit._signal):
        if s:
            fit.shrink_spectra(s)
    for s in fit._floating_backgrounds:
        fit.shrink_spectra(s)
    return (None if fit._data is None else fit._data.nd_project(p),
            None if fit._fixed_background is None else
            fit._fixed_background.nd_project(p),
            None if fit._signal is None else fit._signal.nd_project(p))
"""

MAKE = """
def make_fixed_background(self, spectra_dict, shrink=True):
    total = None
    for spectrum, scaling in spectra_dict.iteritems():
        spectrum = copy.copy(spectrum)
        spectrum._config = copy.deepcopy(spectrum._config)
        if shrink:
            self.shrink_spectra(spectrum)
        spectrum.scale(scaling)
        if total is None:
            total = spectrum
        else:
            total.add(spectrum)
    if not shrink:
        limits(self, total)
    self._fixed_background = total
    self._fixed_pars = names(self, total)
    self._checked = False
"""


APPEND = """
def append_fixed_background(self, spectra_dict, shrink=True):
    if self._fixed_background is None:
        made(self, spectra_dict, shrink)
        return
    for spectrum, scaling in spectra_dict.iteritems():
        spectrum = copy.copy(spectrum)
        spectrum._config = copy.deepcopy(spectrum._config)
        if shrink:
            self.shrink_spectra(spectrum)
        spectrum.scale(scaling)
        self._fixed_background.add(spectrum)
"""

PARTS = """
def code1(fit, spectra_dict, shrink, p):
    fit.make_fixed_background(spectra_dict, shrink)
    return fit._fixed_background.nd_project(p)

def ref1(fit, spectra_dict, shrink, p):
    made(fit, spectra_dict, shrink)
    return fit._fixed_background.nd_project(p)

def code2(fit, spectra_dict, shrink, p):
    fit.append_fixed_background(spectra_dict, shrink)
    return fit._fixed_background.nd_project(p)

def ref2(fit, spectra_dict, shrink, p):
    append_fixed_background(fit, spectra_dict, shrink)
    return fit._fixed_background.nd_project(p)
"""

MOVES = ("Spectra.shrink", "Spectra.scale", "Spectra.add", "Spectra.rebin")

MOVING = ("set_data", "set_fixed_background", "set_signal",
          "set_floating_backgrounds", "shrink_all")

def made():
    """Domain of the constructor: one dimension, few backgrounds."""
    def one(f):
        def g(env, o):
            return dict((k, v) for k, v in f(env, o).items()
                        if v[0].startswith("energy"))
        return g

    def few(env, o):
        if env.rnd("few", o.key) < .4:
            return None
        return (interp.Obj(o.key + "0", "spectrum"),)

    def fixed(env, o):
        return None if env.rnd("few", o.key) < .5 else \
            dict(list(supplied(env, o).items())[:1])
    h = hints(fit_config=lambda env, o: None, floating_backgrounds=few,
              fixed_backgrounds=fixed, data=maybe(.1), signal=maybe(.3))
    h["roi"], h["_roi"] = one(roi), one(roi)
    h["_parameters"] = lambda env, o: dict(
        (k, v) for k, v in dims(env, o).items()
        if isinstance(v[0], str) and not v[0].startswith(("ra", "time")))
    return h


N = {"set_data": 40, "set_fixed_background": 40, "set_signal": 40,
     "set_floating_backgrounds": 40, "__init__": 24}


def check(ctx):
    with ctx.guard("Fit.shrink_all:parts"):
        fs = ctx.snippet(SHRUNK)
        t = dict(opts(), types=dict(TYPES, **{"sym:fit": "Fit"}))
        ctx.functions_agree("Fit.shrink_all:parts", ctx.run(fs["code"], **t),
                            ctx.run(fs["ref"], **t), hints=hints(),
                            unchanged=False, calls=MOVES)
    ctx.agree("Fit.make_fixed_background", "Fit", "make_fixed_background",
              CHECKS + MAKE, ["_fixed_background", "_fixed_pars", "_checked"],
              opts=opts(), hints=hints(), unchanged=False)
    for name, fields, ref in REFS:
        ctx.agree("Fit." + name, "Fit", name, CHECKS + ref, list(fields),
                  opts=opts(), unchanged=False,
                  hints=made() if name == "__init__" else hints(), n=N.get(name, 90), calls=MOVES if name in MOVING else ())
    fs = ctx.snippet("import numpy\nimport copy\n" + CHECKS + MAKE.replace(
        "def make_fixed_background", "def made") + APPEND + PARTS)
    t = dict(opts(), types=dict(TYPES, **{"sym:fit": "Fit"}))
    for i, name in ((1, "make"), (2, "append")):
        key = "Fit.%s_fixed_background:parts" % name
        with ctx.guard(key):
            ctx.functions_agree(
                key, ctx.run(fs["code%d" % i], **t),
                ctx.run(fs["ref%d" % i], **t), hints=hints(),
                unchanged=False, n=60, ret=False, raises=False,
                calls=MOVES)
