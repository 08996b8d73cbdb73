"""A grid search evaluates every grid point exactly once.

GridSearch.minimise is analysed with its generators expanded in place, over
configurations of one, two and three fit parameters; the calls of the fit and
the grids left behind are compared with the set of all combinations.
"""
import itertools
import re

import numpy as np

from .. import interp
from .. import spec
from .. import terms as T
from ..interp import Stuck, Unknown

MINIMUM = 15

MODEL = '''
class FitPar%(n)d(object):
    def get_values(self):
        return self.grid
    def get_value_index(self, value):
        return self.where(value)
    def get_value_at(self, index):
        return self.grid[index]
    def get_bins(self):
        return len(self.grid)
    def get_name(self):
        return self.tag
    def get_sigma(self):
        return self.sigma
    def get_prior(self):
        return self.prior
    def set_best_fit(self, value):
        self.best = value
    def set_penalty_term(self, value):
        self.pull = value
class FitConf%(n)d(object):
    def get_pars(self):
        return %(names)s
    def get_par(self, name):
        return %(byname)s
    def get_par_by_index(self, i):
        return %(byindex)s
    def get_index(self, name):
        return %(index)s
    def get_shape(self):
        return (%(shape)s,)
'''
NAMES = ("zeta", "alpha", "mu")


def model(ctx, n):
    names = NAMES[:n]

    def chain(f, var):
        out = f(n - 1)
        for i in reversed(range(n - 1)):
            out = "%s if %s == %s else (%s)" % (
                f(i), var, i if var == "i" else repr(names[i]), out)
        return out
    ctx.snippet(MODEL % dict(
        n=n, names=list(names), byname=chain(lambda i: "self.p%d" % i,
                                             "name"),
        byindex=chain(lambda i: "self.p%d" % i, "i"),
        index=chain(lambda i: str(i), "name"),
        shape=", ".join("len(self.p%d.grid)" % i for i in range(n))))
    types = {("GridSearch", "_fit_config"): "FitConf%d" % n,
             ("GridSearch", "_spectra_config"): "SpectraConfig"}
    for i in range(n):
        types[("FitConf%d" % n, "p%d" % i)] = "FitPar%d" % n
    return types


def grid(env, i):
    """The values of parameter i, in ascending or any other order."""
    k = 1 + int(3 * env.rnd("len", i))
    out = [round(1 + j + .8 * env.rnd("g", i, j), 3) + 10 * i
           for j in range(k)]
    return np.array(out)


def which(key):
    m = re.search(r"\bp(\d)\b", key)
    if m is None:
        raise Unknown("which parameter")
    return int(m.group(1))


def where(env, o):
    i = which(o.key)
    m = re.search(r"where\(([^()]*)\)$", o.key)
    g = grid(env, i)
    try:
        v = float(m.group(1))
    except (AttributeError, ValueError):
        raise Unknown("value looked up")
    hit = [j for j, x in enumerate(g) if abs(x - v) < 1e-9]
    if not hit:
        raise Stuck("value not on the grid")
    return float(hit[0])


def binshape(env):
    return tuple(1 + int(3 * env.rnd("sb", i))
                 for i in range(1 + int(2 * env.rnd("sn"))))


def values(key):
    m = re.match(r"apply\(funct,?(.*)\)$", key)
    if m is None:
        raise Unknown("call of the fit")
    out = []
    for x in m.group(1).split(","):
        if x:
            out.append(round(float(x), 6))
    return tuple(out)


def answer(env, vals, per_bin):
    s = [1 + 9 * env.rnd("stat", vals, i)
         for i in range(int(np.prod(binshape(env))))]
    pen = 1 + 9 * env.rnd("pen", vals)
    if env.rnd("nopen", vals) < .2:
        pen = 0.
    if per_bin:
        return np.array(s).reshape(binshape(env)), pen
    return s[0], pen


def hints(n, per_bin):
    def grids(extra):
        def h(env, o):
            shape = tuple(len(grid(env, i)) for i in range(n)) + (
                binshape(env) if extra else ())
            return np.array([-1 - env.rnd("old", o.key, i) for i in range(
                int(np.prod(shape)))]).reshape(shape)
        return h

    def fit(env, o):
        try:
            v = values(o.key)
        except ValueError:
            raise Unknown("arguments of the fit")
        r, p = answer(env, v, per_bin)
        return (r, p)
    def summed(env, o):
        shape = tuple(len(grid(env, i)) for i in range(n))
        return np.array([env.rnd("sum", i) for i in range(int(np.prod(
            shape)))]).reshape(shape)
    return {"grid": lambda env, o: grid(env, which(o.key)),
            "where()": where, "apply()": fit, "_stats": grids(per_bin),
            "_penalty_terms": grids(False),
            "get_shape()": lambda env, o: tuple(
                float(x) for x in binshape(env)),
            "Config.get_shape()": lambda env, o: tuple(
                float(x) for x in binshape(env)),
            "_per_bin": lambda env, o: per_bin,
            "GridSearch.get_stats()": summed,
            "GridSearch.find_minimum()": lambda env, o: (1., tuple(
                0. for i in range(n))),
            "model:isinstance": lambda env, v, kw: isinstance(
                v[0], np.ndarray) if isinstance(v[0], (float, np.ndarray))
            else NotImplemented,
            "_use_numpy": lambda env, o: env.rnd("un") < .5}


def stop(f):
    return f.short in ("GridSearch.find_minimum", "GridSearch.get_stats",
                       "Config.get_shape", "SpectraConfig.get_shape")


class Tally(object):
    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where
        self.good, self.bad, self.unk = {}, {}, {}

    def ok(self, k):
        self.good[k] = self.good.get(k, 0) + 1

    def wrong(self, k, msg):
        self.bad.setdefault(k, msg)

    def close(self, keys, least):
        for k in keys:
            if k in self.bad:
                self.ctx.violate(k, self.bad[k], self.where)
            elif k in self.unk or self.good.get(k, 0) < least:
                self.ctx.undecided(k, self.unk.get(k, "no sample in domain"),
                                   self.where)
            else:
                self.ctx.hold(k, "%d interpretations agree" % self.good[k],
                              self.where)


def instances(env, e, f):
    """f() for every valuation at which e happens."""
    def cb():
        err = None
        for g in e.guards:
            try:
                if not env.bool(g):
                    return None
            except (Unknown, Stuck) as x:
                err = err or x
        if err:
            raise err
        f()
        return None
    spec._iter_loops(env, list(e.loops), 0, cb)


def refused(env, r):
    for e in r.events:
        if e.kind == "raise" and spec.escapes(e) and spec.occurrences(env, e):
            return e
    return None


def search(ctx, n, per_bin):
    types = model(ctx, n)
    f = ctx.find("GridSearch", "minimise")
    r = ctx.run(f, selfcls=ctx.p.cls("GridSearch"), opaque=stop, pure=stop,
                types=types)
    label = "%d parameter%s%s:" % (n, "s" if n > 1 else "",
                                   ", per bin" if per_bin else "")
    keys = [label + x for x in ("accepted", "evaluations", "statistics",
                                "penalties")]
    t = Tally(ctx, f.where)
    me = T.sym("self")
    left = [r.field(me, "_stats"), r.field(me, "_penalty_terms")]
    calls = [e for e in r.events if e.kind == "call" and
             T.val(e.data[0]).op == "call" and
             T.val(e.data[0]).args[0] == "apply"]
    for s in range(ctx.n if n < 3 else ctx.n // 2):
        env = interp.Env(s, hints(n, per_bin))
        gs = [grid(env, i) for i in range(n)]
        points = list(itertools.product(*[range(len(g)) for g in gs]))
        vals = dict((p, tuple(round(float(gs[i][j]), 6)
                              for i, j in enumerate(p))) for p in points)
        try:
            e = refused(env, r)
            if e is not None:
                t.wrong(keys[0], "sample %d: the search stops (%s)" % (
                    s, e.where))
                continue
            t.ok(keys[0])
        except (Stuck, Unknown) as x:
            t.unk[keys[0]] = str(x)
        try:
            seen = []
            for e in calls:
                def note(e=e):
                    a = T.val(e.data[0]).args[1]
                    v = []
                    for x in a[1:]:
                        x = T.val(x)
                        if x.op == "starred":
                            v += list(np.ravel(env.nd(env.ev(x.args[0]))))
                        else:
                            v.append(env.number(env.ev(x)))
                    seen.append(tuple(round(float(x), 6) for x in v))
                instances(env, e, note)
            if not calls:
                raise Unknown("no call of the fit found")
            if sorted(seen) != sorted(vals.values()):
                miss = [v for v in vals.values() if v not in seen]
                t.wrong(keys[1], "sample %d: %d combinations, %d evaluations"
                        "%s" % (s, len(points), len(seen),
                                ", none at %s" % (miss[0],) if miss else ""))
            t.ok(keys[1])
        except (Stuck, Unknown) as x:
            t.unk[keys[1]] = str(x)
        for k, (key, x) in enumerate(zip(keys[2:], left)):
            try:
                got = env.nd(env.ev(x))
                for p in points:
                    w = answer(env, vals[p], per_bin)[k]
                    if got.shape[:n] != tuple(len(g) for g in gs):
                        t.wrong(key, "sample %d: grid has shape %s" % (
                            s, got.shape))
                        break
                    if not np.allclose(got[p], w):
                        t.wrong(key, "sample %d: position %s holds %s, the "
                                "evaluation there gave %s" % (
                                    s, p, got[p], w))
                t.ok(key)
            except (Stuck, Unknown) as x:
                t.unk[key] = str(x)
    t.close(keys, ctx.n // 5)


def check(ctx):
    for n in (1, 2, 3):
        for per_bin in (False, True):
            if n == 3 and per_bin:
                continue
            with ctx.guard("%d parameters, per bin %s" % (n, per_bin)):
                search(ctx, n, per_bin)
