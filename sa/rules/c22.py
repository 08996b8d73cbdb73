"""The reported best fit is the global minimum of the statistic.

GridSearch.minimise is analysed with the recording of single evaluations left
opaque, so that the grids it minimises are arbitrary; what it reports and the
best fits it stores are compared with the smallest defined entry of statistic
plus penalty.  GridSearch.find_minimum is compared with the same on arrays of
one to four dimensions.
"""
import numpy as np

from .. import interp
from .. import spec
from .. import terms as T
from ..interp import Stuck, Unknown
from .c21 import Tally, grid, instances, model, which, where, binshape

MINIMUM = 20


def some(env, tag, shape, nan, ties=False):
    v = []
    # The fit statistic may be of either sign (a log-likelihood)
    off = -5. if tag != "pens" and env.rnd("negative") < .3 else 0.
    for i in range(int(np.prod(shape))):
        if env.rnd("nan", tag, i) < nan:
            v.append(float("nan"))
        elif ties:
            v.append(float(int(4 * env.rnd("v", tag, i))) + off / 2.5)
        else:
            v.append(round(1 + 9 * env.rnd("v", tag, i) + off, 4))
    return np.array(v).reshape(shape)


def fitshape(env, n):
    return tuple(len(grid(env, i)) for i in range(n))


def stats(env, n, per_bin):
    nan = .25 if env.rnd("nans") < .5 else 0.
    return some(env, "stats", fitshape(env, n) +
                (binshape(env) if per_bin else ()),
                nan if not per_bin else nan / 3)


def penalties(env, n):
    return some(env, "pens", fitshape(env, n), 0.)


def total(env, n, per_bin):
    s = stats(env, n, per_bin)
    if per_bin:
        s = s.reshape(fitshape(env, n) + (-1,)).sum(axis=-1)
    return s + penalties(env, n)


class Statistic(interp.Ext):
    name = "test statistic"

    def key(self):
        return "test statistic"

    def call(self, env, name, args, kws):
        if name != "get_penalty_term":
            raise Unknown("test_statistic." + name)
        v = list(args)
        for k in ("value", "prior", "sigma")[len(v):]:
            if k not in kws:
                raise Unknown("arguments of get_penalty_term")
            v.append(kws[k])
        if any(x is None for x in v):
            raise Stuck("no width")
        return pull(env, *[env.number(x) for x in v])


def pull(env, best, prior, sigma):
    return round(50 * env.rnd("pull", "%.6f" % best, "%.6f" % prior,
                              "%.6f" % sigma), 5)


def prior(env, i):
    return round(1 + 4 * env.rnd("prior", i), 4)


def sigma(env, i):
    if env.rnd("free", i) < .4:
        return None
    return round(.1 + env.rnd("sigma", i), 4)


def hints(n, per_bin, use_numpy):
    def old(env, o):
        return -99. - which(o.key)
    shape = lambda env, o: tuple(float(x) for x in binshape(env))
    return {"grid": lambda env, o: grid(env, which(o.key)),
            "where()": where,
            "_stats": lambda env, o: stats(env, n, per_bin),
            "_penalty_terms": lambda env, o: penalties(env, n),
            "get_shape()": shape, "Config.get_shape()": shape,
            "_per_bin": lambda env, o: per_bin,
            "_use_numpy": lambda env, o: use_numpy,
            "sigma": lambda env, o: sigma(env, which(o.key)),
            "prior": lambda env, o: prior(env, which(o.key)),
            "apply()": lambda env, o: (
                np.zeros(binshape(env)) if per_bin else 1., 1.),
            "best": old, "pull": old,
            "test_statistic": lambda env, o: Statistic()}


def stop(f):
    return f.short in ("GridSearch.set_stat", "GridSearch.set_penalty_term",
                       "GridSearch.set_stats",
                       "GridSearch.set_penalty_terms",
                       "Config.get_shape", "SpectraConfig.get_shape",
                       "GridSearch._get_fit_par_values",
                       "GridSearch._get_values")


def stored(env, r, attr, n):
    """What the search leaves in the given attribute of each parameter."""
    out = {}
    for e in r.events:
        if e.kind != "setattr" or e.data[1] != attr:
            continue

        def note(e=e):
            o = env.concrete(env.ev(e.data[0]))
            i = which(env.key(o))
            v = env.ev(e.data[2])
            out[i] = None if v is None else env.number(v)
        instances(env, e, note)
    return out


def search(ctx, n, per_bin, use_numpy):
    types = model(ctx, n)
    f = ctx.find("GridSearch", "minimise")
    r = ctx.run(f, selfcls=ctx.p.cls("GridSearch"), opaque=stop, pure=stop,
                types=types)
    label = "%d parameter%s%s, %s:" % (
        n, "s" if n > 1 else "", ", per bin" if per_bin else "",
        "numpy" if use_numpy else "find_minimum")
    keys = [label + x for x in ("statistic", "penalty", "best fits",
                                "pulls")]
    t = Tally(ctx, f.where)
    least = ctx.n // 5
    for s in range(ctx.n):
        env = interp.Env(s, hints(n, per_bin, use_numpy))
        env.finite = False
        tot = total(env, n, per_bin)
        if np.all(np.isnan(tot)):
            continue
        best = np.nanmin(tot)
        pos = np.unravel_index(np.nanargmin(tot), tot.shape)
        if np.sum(np.abs(tot - best) < 1e-6) > 1:
            continue
        say = "sample %d: minimum of %s is at %s" % (
            s, np.round(tot, 3).tolist(), tuple(int(x) for x in pos))
        try:
            got = env.ev(r.ret)
            if not isinstance(got, tuple) or len(got) != 2:
                raise Unknown("what the search returns")
            for key, x, w in ((keys[0], got[0],
                               stats(env, n, per_bin)[pos]),
                              (keys[1], got[1], penalties(env, n)[pos])):
                try:
                    g = env.nd(x) if isinstance(x, np.ndarray) else \
                        env.number(x)
                    if np.shape(g) != np.shape(w) or not np.allclose(
                            g, w, equal_nan=True):
                        t.wrong(key, "%s, where the value is %s; reported "
                                "is %s" % (say, w, g))
                    t.ok(key)
                except (Stuck, Unknown) as x:
                    t.unk[key] = str(x)
        except (Stuck, Unknown) as x:
            t.unk[keys[0]] = t.unk[keys[1]] = str(x)
        want = [grid(env, i)[p] for i, p in enumerate(pos)]
        pulls = [0. if sigma(env, i) is None else
                 pull(env, want[i], prior(env, i), sigma(env, i))
                 for i in range(n)]
        for key, attr, w in ((keys[2], "best", want),
                             (keys[3], "pull", pulls)):
            try:
                got = stored(env, r, attr, n)
                g = [got.get(i) for i in range(n)]
                if None in g or not np.allclose(g, w):
                    t.wrong(key, "%s, that is %s for the parameters; stored "
                            "is %s" % (say, w, g))
                t.ok(key)
            except (Stuck, Unknown) as x:
                t.unk[key] = str(x)
    t.close(keys, least)


def arrays(env, o):
    n = 1 + int(4 * env.rnd("nd"))
    sh = tuple(1 + int(3 * env.rnd("sh", i)) for i in range(n))
    k = env.rnd("kind")
    return some(env, "array", sh, .3 if k < .6 else 0., ties=k > .8)


def minimum(ctx):
    f = ctx.find("GridSearch", "find_minimum")
    r = ctx.run(f, selfcls=ctx.p.cls("GridSearch"))
    keys = ["find_minimum:value", "find_minimum:position"]
    t = Tally(ctx, f.where)
    for s in range(2 * ctx.n):
        env = interp.Env(s, {"array": arrays})
        a = arrays(env, None)
        if np.all(np.isnan(a)):
            continue
        say = "sample %d: of %s" % (s, np.round(a, 3).tolist())
        try:
            got = env.ev(r.ret)
            if not isinstance(got, tuple) or len(got) != 2:
                raise Unknown("what it returns")
            v = env.number(got[0])
            if abs(v - np.nanmin(a)) > 1e-9:
                t.wrong(keys[0], "%s the minimum is %s, not %s" % (
                    say, np.nanmin(a), v))
            t.ok(keys[0])
            p = tuple(env.integer(x) for x in env.items(got[1]))
            if len(p) != a.ndim or any(
                    not 0 <= x < d for x, d in zip(p, a.shape)) or \
                    not a[p] == np.nanmin(a):
                t.wrong(keys[1], "%s the minimum is not at %s" % (say, p))
            t.ok(keys[1])
        except (Stuck, Unknown) as x:
            for k in keys:
                t.unk[k] = str(x)
    t.close(keys, ctx.n // 5)


def check(ctx):
    with ctx.guard("find_minimum"):
        minimum(ctx)
    for n in (1, 2, 3):
        for per_bin in (False, True):
            for use_numpy in (True, False):
                if n == 3 and per_bin:
                    continue
                with ctx.guard("%d parameters, per bin %s, numpy %s" % (
                        n, per_bin, use_numpy)):
                    search(ctx, n, per_bin, use_numpy)
