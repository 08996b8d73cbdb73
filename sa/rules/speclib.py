"""Shared interpretation domains for rules about spectra.

A World is one random configuration of one or more spectra: which parameters
each has and the axis of each parameter.  It only supplies values for the
leaves of value graphs (fields of the spectra under analysis).
"""
import numpy as np

from .. import terms as T
from .. import interp

SELF = T.sym("self")
SPEC = T.sym("spectrum")

POOL = ("energy_mc", "radial3_reco", "time_true", "energy_reco", "cos_a_mc",
        "radial3_mc", "zradial3_mc")


class World(object):
    def __init__(self, env, maxrank=3, related=(), maxbins=4, positive=False):
        self.env, self.maxrank, self.maxbins = env, maxrank, maxbins
        self.positive = positive
        self.related = related      # roots describing the same axes as self
        self.names, self.axes = {}, {}

    def roots(self, root):
        if root not in self.names:
            e = self.env
            if root in self.related and root != self.related[0]:
                base = self.related[0]
                names = list(self.roots(base))
                r = e.rnd("rel", root)
                if r < 0.15 and len(names) > 0:     # one other name
                    i = int(e.rnd("ri", root) * len(names))
                    names[i] = POOL[int(e.rnd("rp", root) * len(POOL))]
                elif r < 0.4 and names:             # other suffix
                    i = int(e.rnd("ri", root) * len(names))
                    for i in range(len(names)) if r < 0.25 else (i,):
                        names[i] = names[i].rsplit("_", 1)[0] + "_" + (
                            "mc" if names[i].endswith("reco") else "reco")
                elif r < 0.5 and len(names) > 1:
                    names = names[:-1]
                elif r < 0.6 and len(names) > 1:
                    names = names[::-1]
                names = list(dict.fromkeys(names))
            else:
                k = 1 + int(e.rnd("rank", root) * self.maxrank)
                names = sorted(POOL, key=lambda n: e.rnd("ord", root, n))[:k]
                seen, out = set(), []
                for n in names:
                    d = n.rsplit("_", 1)[0]
                    if d not in seen:
                        out.append(n)
                        seen.add(d)
                names = out
            self.names[root] = tuple(names)
        return self.names[root]

    def axis(self, root, name):
        k = (root, name)
        if k not in self.axes:
            e = self.env
            dim = name.rsplit("_", 1)[0]
            seed = dim
            if root not in self.related:
                seed = root + dim
            low = round(-2 + 4 * e.rnd("low", seed), 1)
            if self.positive:
                low = abs(low)
            bins = 1 + int(e.rnd("bins", seed) * self.maxbins)
            width = round(0.1 + e.rnd("w", seed), 2)
            high = low + bins * width
            if root in self.related and root != self.related[0]:
                r = e.rnd("pert", root, name)
                if e.rnd("pert?", root) < 0.5:
                    pass
                elif r < 0.15:
                    low += 0.3 * width
                elif r < 0.3:
                    high += 0.3 * width
                elif r < 0.4:
                    bins += 1
                elif r < 0.45:
                    low, high = low + width, high + width
            self.axes[k] = (low, high, float(bins))
        return self.axes[k]

    def shape(self, root):
        return tuple(int(self.axis(root, n)[2]) for n in self.roots(root))


def rootof(key):
    for c in ".[":
        i = key.find(c)
        if i > 0:
            key = key[:i]
    return key


def world_of(env):
    if getattr(env, "world", None) is None:
        env.world = env.mkworld(env)
    return env.world


def hints(maxrank=3, related=("self", "spectrum"), maxbins=4, positive=False,
          **extra):
    def mk(env):
        return World(env, maxrank, related, maxbins, positive)

    world = world_of

    def params(env, o):
        root = rootof(o.key)
        return dict((n, (n, interp.Obj("par<%s|%s>" % (root, n),
                                       "_parameters[]")))
                    for n in world(env).roots(root)) if True else None

    def params_k(env, o):
        d = params(env, o)
        return dict((env.key(k), v) for k, v in d.items())

    def axis(i):
        def f(env, o):
            k = o.key
            if k.startswith("par<"):
                root, n = k[4:k.index(">")].split("|")
                return world(env).axis(root, n)[i]
            return interp.Obj(k, None)
        return f

    def pname(env, o):
        k = o.key
        if k.startswith("par<"):
            return k[4:k.index(">")].split("|")[1]
        return "name of " + k

    def data(env, o):
        root = rootof(o.key)
        sh = world(env).shape(root)
        n = int(np.prod(sh))
        v = [round(0.1 + 5 * env.rnd("d", root, i), 4) for i in range(n)]
        if env.rnd("dsign", root) < .3:  # Empty and negative bins
            for i in range(n):
                r = env.rnd("dsign", root, i)
                v[i] = 0. if r < .3 else -v[i] if r < .5 else v[i]
            if not sum(v):  # Nothing is specified for empty spectra
                v[0] = 1.5
        return np.array(v, dtype=float).reshape(sh)
    h = {"(world)": mk, "_parameters": params_k, "_low": axis(0), "_high": axis(1),
         "_bins": axis(2), "_data": data, "_num_decays": "pos",
         "_raw_events": "nat", "_name": pname}
    h.update(extra)
    return h


def base(**extra):
    return hints(**extra)
