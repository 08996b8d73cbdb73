"""Fit results accept and return only arrays of the fit's shape.

Every setter and accessor of the grid and limit results is compared with a
reference stating what is accepted, what is stored where and what is read
back; the shape of a fresh or reset grid with the shape of the fit's
parameters (and bins).
"""
import numpy as np

from .. import interp
from .speclib import SELF

MINIMUM = 40

COMMON = """
def shape(self):
    return self._fit_config.get_shape()

def bins(self):
    return self._spectra_config.get_shape()

def summed(self, x):
    if self._per_bin:
        for b in bins(self):
            x = numpy.sum(x, axis=-1)
    return x

def outside(self, indices):
    if indices[0] > shape(self)[0]:
        raise IndexError("bounds")

def known(self, parameters):
    for p in parameters:
        if p not in self._fit_config.get_pars() and \\
                p not in self._spectra_config.get_pars():
            raise IndexError("unknown")

def project(x, names, parameters):
    counter = 0
    for axis, name in enumerate(names):
        if name not in parameters:
            x = numpy.sum(x, axis=axis - counter)
            counter += 1
    return x
"""

GRID = (
    ("set_stats", ["_stats"], """
def set_stats(self, stats):
    if not isinstance(stats, numpy.ndarray):
        raise TypeError("array")
    if stats.shape != self._stats.shape:
        raise ValueError("shape")
    self._stats = stats
"""),
    ("set_penalty_terms", ["_penalty_terms"], """
def set_penalty_terms(self, penalty_terms):
    if not isinstance(penalty_terms, numpy.ndarray):
        raise TypeError("array")
    if penalty_terms.shape != shape(self):
        raise ValueError("shape")
    self._penalty_terms = penalty_terms
"""),
    ("set_stat", ["_stats"], """
def set_stat(self, stat, indices):
    outside(self, indices)
    if not isinstance(stat, numpy.ndarray):
        raise TypeError("array")
    self._stats[indices] = stat
"""),
    ("set_penalty_term", ["_penalty_terms"], """
def set_penalty_term(self, penalty_term, indices):
    outside(self, indices)
    self._penalty_terms[indices] = penalty_term
"""),
    ("get_stats", [], """
def get_stats(self):
    return summed(self, self._stats) + self._penalty_terms
"""),
    ("get_stat", [], """
def get_stat(self, indices):
    outside(self, indices)
    return summed(self, self._stats[indices]) + self._penalty_terms[indices]
"""),
    ("get_raw_stat", [], """
def get_raw_stat(self, indices):
    return self._stats[indices]
"""),
    ("get_penalty_term", [], """
def get_penalty_term(self, indices):
    outside(self, indices)
    return self._penalty_terms[indices]
"""),
    ("nd_project_stats", [], """
def nd_project_stats(self, *parameters):
    known(self, parameters)
    if all([p in self._fit_config.get_pars() for p in parameters]):
        return project(summed(self, self._stats) + self._penalty_terms,
                       self._fit_config.get_pars(), parameters)
    return project(self._stats, list(self._fit_config.get_pars()) +
                   list(self._spectra_config.get_pars()), parameters)
"""),
    ("nd_project_stat", [], """
def nd_project_stat(self, indices, *parameters):
    known(self, parameters)
    if all([p in self._fit_config.get_pars() for p in parameters]):
        outside(self, indices)
        return summed(self, self._stats[indices]) + \\
            self._penalty_terms[indices]
    return project(self._stats[indices], self._spectra_config.get_pars(),
                   parameters)
"""),
    ("get_resets", [], """
def get_resets(self):
    return self._resets
"""),
    ("get_scales", [], """
def get_scales(self, par):
    return self._fit_config.get_par(par).get_values()
"""),
    ("get_penalty_at", [], """
def get_penalty_at(self, **kwargs):
    where = []
    for name in self._fit_config.get_pars():
        where.append(self._fit_config.get_par(name).get_bin(kwargs[name]))
    return self._penalty_terms[tuple(where)]
"""),
    ("reset_grids", ["_stats", "_penalty_terms"], """
def reset_grids(self):
    s = shape(self)
    if self._per_bin:
        s = s + bins(self)
    self._stats = numpy.zeros(s)
    self._penalty_terms = numpy.zeros(shape(self))
"""),
)

MADE = """
from echidna.fit.minimise import GridSearch
from echidna.fit.fit_results import LimitResults
from echidna.core.config import GlobalFitConfig, SpectraConfig

def grid(fit_config, spectra_config, per_bin):
    g = GridSearch(fit_config, spectra_config, "n", per_bin)
    return g._stats, g._penalty_terms, g._resets, g.get_name()

def gridref(fit_config, spectra_config, per_bin):
    s = fit_config.get_shape()
    if per_bin:
        s = s + spectra_config.get_shape()
    return numpy.zeros(s), numpy.zeros(fit_config.get_shape()), 0, "n"

def limits(fit_config, spectra_config, limit_config):
    r = LimitResults(fit_config, spectra_config, limit_config, "n")
    return r._stats, r._penalty_terms, r._best_fits, r.get_name()

def limitsref(fit_config, spectra_config, limit_config):
    n = limit_config.get_par("rate")._bins
    k = len(fit_config.get_pars())
    return numpy.zeros(n), numpy.zeros((n, k)), numpy.zeros((n, k)), "n"
"""

LIMIT = (
    ("set_best_fit", ["_best_fits"], """
def set_best_fit(self, scale_idx, best_fit, par):
    self._best_fits[scale_idx][self._fit_config.get_index(par)] = best_fit
"""),
    ("set_penalty_term", ["_penalty_terms"], """
def set_penalty_term(self, scale_idx, penalty_term, par):
    self._penalty_terms[scale_idx][self._fit_config.get_index(par)] = \\
        penalty_term
"""),
    ("set_limit_stat", ["_stats"], """
def set_limit_stat(self, scale_idx, stat):
    self._stats[scale_idx] = stat
"""),
    ("set_fit_result", ["_fit_results"], """
def set_fit_result(self, scale_idx, fit_result):
    self._fit_results[scale_idx] = fit_result
"""),
    ("get_best_fit", [], """
def get_best_fit(self, i, par):
    return self._best_fits[i][self._fit_config.get_index(par)]
"""),
    ("get_best_fits", [], """
def get_best_fits(self, par):
    return self._best_fits[:, self._fit_config.get_index(par)]
"""),
    ("get_penalty_term", [], """
def get_penalty_term(self, scale_idx, par):
    return self._penalty_terms[scale_idx, self._fit_config.get_index(par)]
"""),
    ("get_penalty_terms", [], """
def get_penalty_terms(self, par):
    return self._penalty_terms[:, self._fit_config.get_index(par)]
"""),
    ("get_penalty_terms_at_scale", [], """
def get_penalty_terms_at_scale(self, i):
    return self._penalty_terms[i]
"""),
    ("get_limit_stat", [], """
def get_limit_stat(self, i):
    return self._stats[i]
"""),
    ("get_stats", [], """
def get_stats(self):
    return self._stats
"""),
    ("get_scales", [], """
def get_scales(self):
    return self._limit_config.get_par("rate").get_values()
"""),
    ("get_full_stat", [], """
def get_full_stat(self, i):
    return numpy.sum(self._stats[i]) + sum([x for x in
                                            self._penalty_terms[i]])
"""),
    ("get_full_stats", [], """
def get_full_stats(self):
    out = numpy.zeros(len(self._stats))
    for i in range(len(self._stats)):
        out[i] = numpy.sum(self._stats[i]) + sum(
            [x for x in self._penalty_terms[i]])
    return out
"""),
)

FITPARS = ("energy_mc_scale", "te_rate", "xe_rate")
SPECPARS = ("energy_mc", "radial3_mc", "time_mc")


def fitpars(env):
    k = 1 + int(env.rnd("nfit") * 3)
    return sorted(FITPARS, key=lambda n: env.rnd("f", n))[:k]


def specpars(env):
    k = 1 + int(env.rnd("nspec") * 2)
    return sorted(SPECPARS, key=lambda n: env.rnd("s", n))[:k]


def size(env, n):
    return 1 + int(env.rnd("size", n) * 3)


def shape(env):
    return tuple(size(env, n) for n in fitpars(env))


def bins(env):
    return tuple(size(env, n) for n in specpars(env))


def parameters(env, o):
    out = {}
    if "fit_config" in o.key:
        for n in fitpars(env):
            d = {env.key("par"): ("par", interp.Obj("fp<%s>" % n, "fitpar")),
                 env.key("type"): ("type", "global")}
            out[env.key(n)] = (n, d)
    elif "limit" in o.key:
        out[env.key("rate")] = ("rate", interp.Obj("fp<rate>", "fitpar"))
    else:
        for n in specpars(env):
            out[env.key(n)] = (n, interp.Obj("fp<%s>" % n, "fitpar"))
    return out


def nbins(env, o):
    return interp.Int(size(env, o.key[3:o.key.index(">")]))


def array(tag, sh):
    return lambda env, o: values(env, tag, sh(env, o))


def values(env, tag, s):
    n = int(np.prod(s))
    # now and then whole numbers: entries that equal each other
    places = 0 if env.rnd("coarse") < .3 else 4
    return np.array([round(.6 + 3 * env.rnd(tag, i), places)
                     for i in range(n)]).reshape(s)


def perbin(env):
    return env.rnd("per_bin") < .5


def full(env, o=None):
    return shape(env) + (bins(env) if perbin(env) else ())


def odd(env, s):
    r = env.rnd("odd")
    if r < .2 and len(s) > 1:
        return s[::-1]
    if r < .35:
        return s[:-1] + (s[-1] + 1,)
    if r < .45:
        return s + (1,)
    if r < .5 and len(s) > 1:
        return (int(np.prod(s)),)
    return s


def indices(env, o):
    """A point of the grid; now and then one beyond its first axis."""
    s = shape(env)
    out = [interp.Int(int(env.rnd("i", i) * n)) for i, n in enumerate(s)]
    if env.rnd("out") < .15:
        out[0] = interp.Int(s[0] + 1)
    return tuple(out)


def named(env, o):
    pool = list(fitpars(env)) + list(specpars(env))
    if env.rnd("only fit") < .4 or not perbin(env):
        pool = list(fitpars(env))
    out = tuple(n for n in pool if env.rnd("named", n) < .5)
    if env.rnd("unknown") < .1:
        out += ("nothing",)
    return out


def kwargs(env, o):
    return dict((env.key(n), (n, interp.Flt(round(env.rnd("kw", n), 2))))
                for n in fitpars(env))


def grids(**kw):
    h = {"(world)": lambda env: None, "_parameters": parameters,
         "_bins": nbins, "_stats": array("st", full),
         "_penalty_terms": array("pt", lambda env, o: shape(env)),
         "_per_bin": lambda env, o: perbin(env),
         "per_bin": lambda env, o: perbin(env),
         "stats": array("ns", lambda env, o: odd(env, full(env))),
         "penalty_terms": array("np", lambda env, o: odd(env, shape(env))),
         "indices": indices, "parameters": named, "kwargs": kwargs,
         "stat": array("one", lambda env, o: bins(env) if perbin(env)
                       else ()),
         "penalty_term": "real", "_resets": "nat",
         "FitParameter.get_bin()": lambda env, o: interp.Int(
             int(env.rnd("bin", o.key) * size(env, o.key[
                 o.key.index("<") + 1:o.key.index(">")]))),
         "par": lambda env, o: fitpars(env)[0]}
    h.update(kw)
    return h


def scans(**kw):
    def table(tag):
        return array(tag, lambda env, o: (size(env, "rate"),
                                          len(fitpars(env))))

    def per_scale(env, o):
        return values(env, "st", (size(env, "rate"),))
    h = {"(world)": lambda env: None, "_parameters": parameters,
         "_bins": nbins, "_stats": per_scale, "_penalty_terms": table("pt"),
         "_best_fits": table("bf"), "best_fit": "real",
         "_fit_results": per_scale, "fit_result": "real", "stat": "real",
         "penalty_term": "real",
         "i": lambda env, o: interp.Int(int(
             env.rnd("si") * size(env, "rate"))),
         "scale_idx": lambda env, o: interp.Int(int(
             env.rnd("si") * size(env, "rate"))),
         "par": lambda env, o: fitpars(env)[
             int(env.rnd("which") * len(fitpars(env)))]
         if env.rnd("bad") > .1 else "nothing"}
    h.update(kw)
    return h


TYPES = {("GridSearch", "_fit_config"): "GlobalFitConfig",
         ("GridSearch", "_spectra_config"): "SpectraConfig",
         ("LimitResults", "_fit_config"): "GlobalFitConfig",
         ("LimitResults", "_limit_config"): "SpectraFitConfig",
         "sym:fit_config": "GlobalFitConfig",
         "sym:spectra_config": "SpectraConfig",
         "sym:limit_config": "SpectraFitConfig",
         "item:par": "FitParameter", "item:rate": "FitParameter",
         ("SpectraConfig", "_parameters[]"): "SpectraParameter"}


def opts():
    stop = lambda f: f.name in ("get_values", "get_bin")
    return dict(opaque=stop, pure=lambda f: "const" if stop(f) else False,
                types=TYPES)


def check(ctx):
    for name, fields, ref in GRID:
        ctx.agree("GridSearch." + name, "GridSearch", name, COMMON + ref,
                  fields, opts=opts(), hints=grids())
    for name, fields, ref in LIMIT:
        ctx.agree("LimitResults." + name, "LimitResults", name, ref, fields,
                  opts=opts(), hints=scans())
    fs = ctx.snippet("import numpy\n" + MADE)
    for name, h in (("grid", grids), ("limits", scans)):
        with ctx.guard("made:" + name):
            ctx.functions_agree(
                "made:" + name, ctx.run(fs[name], **opts()),
                ctx.run(fs[name + "ref"], **opts()), hints=h(),
                unchanged=False)
