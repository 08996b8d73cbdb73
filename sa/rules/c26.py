"""Fit and limit results written to file read back the same."""
import numpy as np

from .. import interp
from .. import terms as T
from .storelib import RoundTrip, Skip, built

MINIMUM = 19

CONFIGS = ("SpectraConfig", "SpectraFitConfig", "GlobalFitConfig", "Config")

REF = """
from echidna.core.config import (SpectraConfig, SpectraFitConfig,
                                 GlobalFitConfig)
def spectra_config(results):
    c = results._spectra_config
    return SpectraConfig.load(c.dump(), name=c.get_name())

def fit_config(results):
    c = results._fit_config
    d = c.dump()
    if d[1]["spectral_fit_parameters"]:
        return GlobalFitConfig.load(d[0], spectral_config=d[1],
                                    name=c.get_name())
    return GlobalFitConfig.load(d[0], name=c.get_name())

def limit_config(results):
    c = results._limit_config
    return SpectraFitConfig.load(c.dump(), c._spectra_name,
                                 name=c.get_name())
"""


def stop(f):
    s = f.short.split(".")
    return s[-1] in ("load", "dump", "get_shape",
                                              "get_pars") and s[0] in CONFIGS


TYPES = {"sym:fit_results": "GridSearch", "sym:limit_results": "LimitResults",
         "sym:results": "LimitResults",
         "ret:GlobalFitConfig.load": "GlobalFitConfig",
         "ret:SpectraConfig.load": "SpectraConfig",
         "ret:SpectraFitConfig.load": "SpectraFitConfig",
         ("LimitResults", "_fit_results[]"): "GridSearch",
         ("LimitResults", "_limit_config"): "SpectraFitConfig",
         ("FitResults", "_fit_config"): "GlobalFitConfig",
         ("FitResults", "_spectra_config"): "SpectraConfig",
         ("LimitResults", "_fit_config"): "GlobalFitConfig",
         ("LimitResults", "_spectra_config"): "SpectraConfig",
         ("GridSearch", "_fit_config"): "GlobalFitConfig",
         ("GridSearch", "_spectra_config"): "SpectraConfig"}
OPTS = dict(opaque=stop, pure=stop, types=TYPES)


def fit_shape(env):
    return tuple(float(1 + int(3 * env.rnd("fit", i)))
                 for i in range(1 + int(2.5 * env.rnd("fitd"))))


def spectra_shape(env):
    return tuple(float(1 + int(3 * env.rnd("spc", i)))
                 for i in range(1 + int(2 * env.rnd("spcd"))))


def shape(env, o):
    k = o.key
    if "spectra_config" in k or "SpectraConfig" in k:
        return spectra_shape(env)
    return fit_shape(env)


def array(env, o, dims):
    n = tuple(int(x) for x in dims)
    return np.array([round(9 * env.rnd("a", o.key, i), 3) for i in range(
        int(np.prod(n)))]).reshape(n)


def scales(env):
    return 1 + int(4 * env.rnd("scales"))


def per_bin(env):
    return env.rnd("perbin") < .5


def stats(env, o):
    if o.key.startswith("limit_results._stats"):
        return array(env, o, (scales(env),))
    return array(env, o, fit_shape(env) + (
        spectra_shape(env) if per_bin(env) else ()))


def table(env, o):
    if o.key.startswith("limit_results._"):
        n = len(fit_shape(env))
        if env.rnd("zero", o.key) < .25:
            return np.zeros((scales(env), n))
        return array(env, o, (scales(env), n))
    return array(env, o, fit_shape(env))


def grids(env, o):
    if env.rnd("nogrids") < .3:
        return (None,) * scales(env)
    return tuple(None if env.rnd("grid", i) < .3 else
                 interp.Obj("grid%d" % i, "grid")
                 for i in range(scales(env)))


def dumped(env, o):
    s = {} if env.rnd("nospec") < .4 else {
        env.key("rate"): ("rate", interp.Obj("rate pars", "grid"))}
    return (interp.Obj("global part of " + o.key, "grid"),
            {env.key("spectral_fit_parameters"):
             ("spectral_fit_parameters", s)})


def kind(env, vals, kws):
    v = vals[0]
    if v is None:
        return interp.Obj("fn:NoneType")
    if isinstance(v, interp.Obj):
        return interp.Obj("fn:echidna.fit.minimise.GridSearch",
                          "echidna.fit.minimise.GridSearch")
    return NotImplemented


def isgrid(env, vals, kws):
    if "GridSearch" not in env.show(vals[1]):
        return NotImplemented
    return isinstance(vals[0], interp.Obj)


def some(env, vals, kws):
    v = vals[0]
    if isinstance(v, tuple):
        return any(x is not None and env.truth(x) for x in v)
    if isinstance(v, np.ndarray):
        return bool(v.any())
    return NotImplemented


HINTS = {"Config.get_pars()": lambda env, o: tuple(
             interp.Obj("par %d" % i, "par")
             for i in range(len(fit_shape(env)))),
         "Config.get_shape()": shape, "_stats": stats,
         "_penalty_terms": table, "_best_fits": table,
         "_fit_results": grids, "grid": "obj", "model:type": kind, "model:isinstance": isgrid,
         "model:any": some, "model:numpy.any": some, "_name": "obj",
         "_resets": "nat", "SpectraConfig.dump()": "obj",
         "SpectraFitConfig.dump()": "obj", "GlobalFitConfig.dump()": dumped,
         "_spectra_name": "text", "GlobalFitConfig.load()": "obj",
         "SpectraConfig.load()": "obj", "SpectraFitConfig.load()": "obj",
         "get_bins()": lambda env, o: float(scales(env)),
         "_bins": lambda env, o: float(scales(env)),
         "_fit_config": "obj", "_spectra_config": "obj",
         "append": lambda env, o: env.rnd("ap") < .5}


def wanted(ctx, results):
    refs = ctx.snippet(REF)
    return dict((k, ctx.run(f, args={"results": T.sym(results)}, **OPTS).ret)
                for k, f in refs.items())


def check(ctx):
    find = lambda n: ctx.p.lookup_dotted("echidna.output.store." + n)
    with ctx.guard("fit results"):
        dump = ctx.run(find("dump_fit_results"), **OPTS)
        load = ctx.run(find("load_fit_results"), **OPTS)
        me, new = T.sym("fit_results"), load.ret
        want = wanted(ctx, "fit_results")
        items = [(a.strip("_"), T.raw("attr", me, a), load.field(new, a))
                 for a in ("_name", "_stats", "_penalty_terms", "_resets")]
        items += [(a, want[a], load.field(new, "_" + a))
                  for a in ("fit_config", "spectra_config")]
        items.append(("per_bin", per_bin, load.field(new, "_per_bin")))
        RoundTrip(ctx, dump, load, items, HINTS).go("fit results")
        ctx.untouched("dump:fit_results", dump, [me])
    with ctx.guard("limit results"):
        dump = ctx.run(find("dump_limit_results"), **OPTS)
        load = ctx.run(find("load_limit_results"), **OPTS)
        me, new = T.sym("limit_results"), load.ret
        want = wanted(ctx, "limit_results")
        items = [(a.strip("_"), T.raw("attr", me, a), load.field(new, a))
                 for a in ("_name", "_stats", "_penalty_terms", "_best_fits")]
        items += [(a, want[a], load.field(new, "_" + a))
                  for a in ("fit_config", "spectra_config", "limit_config")]
        fields = ("_stats", "_resets", "_penalty_terms")
        held = T.raw("attr", me, "_fit_results")

        def original(env):
            out = {}
            for i, g in enumerate(env.ev(held)):
                if g is not None:
                    o = T.raw("idx", held, T.num(i))
                    out["%d" % i] = ("%d" % i, tuple(env.ev(T.raw(
                        "attr", o, f)) for f in fields) + (per_bin(env),))
            return out

        def loaded(env):
            got = built(env, load.events, lambda b: True,
                        fields + ("_per_bin",))
            return dict((k, (k, tuple(v.get(f) for f in
                                      fields + ("_per_bin",))))
                        for k, v in got.items())
        items.append(("grids", original, loaded))
        RoundTrip(ctx, dump, load, items, HINTS).go("limit results")
        ctx.untouched("dump:limit_results", dump, [me])
