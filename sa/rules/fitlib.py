"""Reference for one evaluation point of the fit, and its domains.

The operations a fit point is composed of (projection, shrinking, rebinning,
scaling, the transformations of the parameters, the test statistic) are kept
symbolic: what is compared is which of them are applied to which spectrum, in
what order and with which arguments, and how the results are combined.
"""
import numpy as np

from .. import interp

MUTATES = {
    "Fit.shrink_to_data": ("spectra",),
    "Fit.shrink_spectra": ("spectra",),
    "Spectra.shrink": ("self",),
    "Spectra.rebin": ("self",),
    "Spectra.scale": ("self",),
    "Spectra.add": ("self",),
}
PURE = {
    "Spectra.nd_project": True, "Fit.load_pre_made": True,
    "TestStatistic.compute_statistic": "const",
    "TestStatistic.get_penalty_term": "const",
    "Spectra.get_background_name": "const",
    "Fit.get_roi_pars": "const",
}


def opaque(f):
    if f.short in MUTATES:
        return MUTATES[f.short]
    if f.short in PURE or f.name in ("get_penalty_term", "apply_to"):
        return True
    return False


def pure(f):
    if f.name == "get_penalty_term":
        return "const"
    if f.name == "apply_to":
        return True
    return PURE.get(f.short, False)


TYPES = {("Fit", "_data"): "Spectra", ("Fit", "_signal"): "Spectra",
         ("Fit", "_fixed_background"): "Spectra",
         ("Fit", "_floating_backgrounds[]"): "Spectra",
         ("Fit", "_fit_config"): "GlobalFitConfig",
         ("Fit", "_test_statistic"): "TestStatistic",
         ("Spectra", "_fit_config"): "SpectraFitConfig",
         "item:par": "FitParameter",
         "ret:.apply_to": "Spectra", "ret:FitParameter.apply_to": "Spectra",
         "ret:Fit.load_pre_made": "Spectra"}


def opts(extra=(), inline=(), **kw):
    def op(f):
        if f.short in inline:
            return False
        return True if f.short in extra else opaque(f)
    return dict(opaque=op, pure=pure, types=TYPES, **kw)


FUNCT = """
def _funct(self, *args):
    if self._floating_backgrounds is None:
        raise ValueError("no floating background")
    for i in range(len(args)):
        self._fit_config.get_par_by_index(i)._current_value = args[i]
    observed = self._data.nd_project(self._data_pars)
    if self._fixed_background:
        expected = self._fixed_background.nd_project(self._fixed_pars)
    else:
        expected = None
    pars = self._fit_config.get_global_pars()
    point = ""
    for par in pars:
        point += par._name + str(par._current_value) + "_"
    for i in range(len(self._floating_backgrounds)):
        spectrum = self._floating_backgrounds[i]
        own = spectrum._fit_config
        if pars:
            key = spectrum.get_background_name()
            if key not in self._global_dict:
                self._global_dict[key] = {}
            if point not in self._global_dict[key]:
                if self._use_pre_made:
                    spectrum = self.load_pre_made(spectrum, pars)
                else:
                    for par in pars:
                        spectrum = par.apply_to(spectrum)
                spectrum._fit_config = own
                self._global_dict[key][point] = spectrum
            else:
                spectrum = self._global_dict[key][point]
        spectrum = copy.copy(spectrum)
        spectrum._config = copy.deepcopy(spectrum._config)
        if spectrum._fit_config:
            for name in spectrum._fit_config.get_pars():
                spectrum = spectrum._fit_config.get_par(name).apply_to(
                    spectrum)
        self.shrink_to_data(spectrum)
        spectrum.rebin(self._data._data.shape)
        if expected is None:
            expected = spectrum.nd_project(self._floating_pars[i])
        else:
            expected = expected + spectrum.nd_project(self._floating_pars[i])
    if self._signal:
        signal = self._signal
        if pars:
            decays = signal._num_decays
            key = signal.get_background_name()
            own = signal._fit_config
            if key not in self._global_dict:
                self._global_dict[key] = {}
            if point not in self._global_dict[key]:
                if self._use_pre_made:
                    signal = self.load_pre_made(signal, pars)
                else:
                    for par in pars:
                        signal = par.apply_to(signal)
                signal._fit_config = own
                self._global_dict[key][point] = signal
            else:
                signal = self._global_dict[key][point]
            self.shrink_to_data(signal)
            signal.rebin(self._data._data.shape)
            signal.scale(decays)
        expected = expected + signal.nd_project(self._signal_pars)
    if self._single_bin:
        expected = numpy.sum(expected)
        observed = numpy.sum(observed)
    statistic = self._test_statistic.compute_statistic(
        observed.ravel(), expected.ravel())
    penalty = 0.
    for name in self._fit_config.get_pars():
        par = self._fit_config.get_par(name)
        if par._sigma is not None:
            penalty += self._test_statistic.get_penalty_term(
                par.get_current_value(), par._prior, par._sigma)
    if self._per_bin:
        statistic = statistic.reshape(spectrum._data.shape)
    return statistic, penalty
"""


NAMES = ("energy_mc_scale", "energy_mc_shift", "energy_mc_resolution",
         "te_rate", "xe_rate", "bi_rate")


def fit_names(env):
    k = int(1 + env.rnd("fitpars") * 4)
    return sorted(NAMES, key=lambda n: env.rnd("fp", n))[:k]


def parameters(env, o):
    """Entries of a config's parameter dictionary."""
    k = o.key
    out = {}
    if k.startswith("self._fit_config"):
        for n in fit_names(env):
            kind = "global" if env.rnd("kind", n) < .5 else "spectra"
            d = {}
            d[env.key("par")] = ("par", interp.Obj("fp<%s>" % n, "par"))
            d[env.key("type")] = ("type", kind)
            out[env.key(n)] = (n, d)
    else:
        for i in range(int(env.rnd("np", k) * 3)):
            n = "p%d" % i
            out[env.key(n)] = (n, interp.Obj("lp<%s|%s>" % (k, n), "par"))
    return out


def args(env, o):
    n = len(fit_names(env))
    return tuple(interp.Flt(round(0.5 + 3 * env.rnd("arg", i), 2)
                            if env.rnd("arg0", i) > .12 else 0.)
                 for i in range(n))


def some(lo, p, f):
    def g(env, o):
        return None if env.rnd("none", o.key) < p else f(env, o)
    return g


def array3(env, o):
    return np.array([round(.1 + 3 * env.rnd("v", o.key, i), 5)
                     for i in range(3)])


def hints(**kw):
    h = {"(world)": lambda env: None, "_parameters": parameters,
         "args": args, "_current_value": "real", "_prior": "real",
         "_sigma": lambda env, o: None if env.rnd("s", o.key) < .4 else
         interp.Flt(0.5 + env.rnd("n", o.key)),
         "_floating_backgrounds": lambda env, o: tuple(
             interp.Obj("bg%d" % i, "spectrum")
             for i in range(int(1 + env.rnd("nbg") * 3))),
         "_floating_pars": lambda env, o: tuple(
             interp.Obj("pars%d" % i, "pars")
             for i in range(int(1 + env.rnd("nbg") * 3))),
         "_background_name": lambda env, o: "n" + str(
             int(env.rnd("bgn", o.key) * 3)),
         "_global_dict": lambda env, o: {},
         "Spectra.nd_project()": array3,
         "TestStatistic.compute_statistic()": array3,
         "_data": lambda env, o: o if o.key == "self._data" else
         np.ones(3),
         }
    h.update(kw)
    return h
