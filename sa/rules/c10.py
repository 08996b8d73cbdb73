"""Projections: label inference for every subset of axes.

The value returned by project, surface and nd_project is compared with the
sum of the data over exactly the axes that were not requested, in worlds of
rank one to five; the spectrum itself must not be written.
"""
from .. import terms as T
from .speclib import SELF, base, world_of

MINIMUM = 8

REF = {
    "project": """
def project(self, dimension):
    return KEEP(self._data, [self._config.get_index(dimension)])
""",
    "surface": """
def surface(self, dimension1, dimension2):
    return KEEP(self._data, [self._config.get_index(dimension1),
                             self._config.get_index(dimension2)])
""",
    "nd_project": """
def nd_project(self, dimensions):
    return KEEP(self._data, [self._config.get_index(d) for d in dimensions])
""",
    "sum": """
def sum(self):
    return KEEP(self._data, [])
"""}


def pick(i):
    def f(env, o):
        ns = world_of(env).roots("self")
        k = int(env.rnd("pick") * len(ns))
        if i == 0:
            return ns[k]
        if len(ns) < 2:
            return "absent"
        rest = [n for n in ns if n != ns[k]]
        return rest[int(env.rnd("pick2") * len(rest))]
    return f


def subset(env, o):
    ns = world_of(env).roots("self")
    s = [n for n in ns if env.rnd("sub", n) < 0.5] or [ns[0]]
    return tuple(s)


def check(ctx):
    h = base(maxrank=5, maxbins=3, dimension=pick(0), dimension1=pick(0),
             dimension2=pick(1), dimensions=subset)
    for m in sorted(REF):
        r = ctx.agree("Spectra." + m, "Spectra", m, REF[m], ["_data"],
                      hints=h, raises=m != "surface")
        if r:
            ctx.untouched("Spectra.%s:spectrum" % m, r[0], [SELF])
