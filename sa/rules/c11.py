"""Bin geometry of an axis.

Each geometric accessor is compared with its formula on the uniform partition
of [low, high) into bins; the formulas are also tied to each other through
the one reference, so no two accessors can describe different partitions.
"""
from .. import terms as T
from .. import interp
from .speclib import SELF

MINIMUM = 12

PRE = """
    w = (self._high - self._low) / self._bins
"""
REF = {
    "get_width": "def get_width(self):" + PRE + "    return w\n",
    "get_low": "def get_low(self):\n    return self._low\n",
    "get_high": "def get_high(self):\n    return self._high\n",
    "get_bins": "def get_bins(self):\n    return self._bins\n",
    "get_bin_boundaries": "def get_bin_boundaries(self):" + PRE + """
    return numpy.array([self._low + i * w for i in range(self._bins + 1)])
""",
    "get_bin_centres": "def get_bin_centres(self):" + PRE + """
    return numpy.array([self._low + (i + 0.5) * w for i in range(self._bins)])
""",
    "get_bin_centre": "def get_bin_centre(self, bin):" + PRE + """
    if not isinstance(bin, int):
        raise TypeError("type")
    if bin < 0 or bin >= self._bins:
        raise ValueError("range")
    return self._low + (bin + 0.5) * w
""",
    "get_bin": "def get_bin(self, x):" + PRE + """
    if x < self._low or x > self._high:
        raise ValueError("range")
    return int((x - self._low) / w)
""",
    "round": "def round(self, x):" + PRE + """
    return self._low + numpy.rint((x - self._low) / w) * w
""",
}


def bins(env, o):
    return interp.Int(1 + int(env.rnd("bins") * 9))


def low(env, o):
    return round(-3 + 6 * env.rnd("low"), 2)


def width(env):
    return round(0.1 + env.rnd("w"), 3)


def high(env, o):
    return low(env, o) + bins(env, o) * width(env)


def value(env, o):
    n, r = bins(env, o), env.rnd("xc")
    if r < 0.4:
        return low(env, o) + width(env) * n * round(env.rnd("x"), 3)
    if r < 0.7:
        return low(env, o) + width(env) * int(env.rnd("x") * n)
    if r < 0.8:
        return low(env, o) - 0.3 - env.rnd("x")
    if r < 0.9:
        return high(env, o) + 0.3 + env.rnd("x")
    return low(env, o)


def near(env, o):
    """A point clearly nearer to one edge than to any other."""
    n = bins(env, o)
    k = int(env.rnd("x") * (n + 1))
    return low(env, o) + width(env) * (k - 0.45 + 0.9 * env.rnd("y"))


def number(env, o):
    r = env.rnd("b")
    if r < 0.15:
        return interp.Flt(1.5)
    return interp.Int(-1 + int(env.rnd("b2") * (bins(env, o) + 2)))


def check(ctx):
    h = {"_bins": bins, "_low": low, "_high": high, "x": value,
         "bin": number, "(world)": lambda env: None}
    for m in sorted(REF):
        hh = dict(h, x=near) if m == "round" else h
        r = ctx.agree("SpectraParameter." + m, "SpectraParameter", m, REF[m],
                      hints=hh)
        if r:
            ctx.untouched("SpectraParameter.%s:axis" % m, r[0], [SELF])
    # axes are created and updated as given
    for cls, args in (("SpectraParameter", "name, low, high, bins"),):
        key = cls + ".__init__"
        with ctx.guard(key):
            fs = ctx.snippet("""
from echidna.core.parameter import %s
def client(name, low, high, bins):
    p = %s(name, low, high, bins)
    return [p._low, p._high, p._bins, p._name]
def ref(name, low, high, bins):
    return [float(low), float(high), int(bins), name]
def setpar(name, low, high, bins, a, b, c):
    p = %s(name, low, high, bins)
    p.set_par(low=a, high=b, bins=c)
    return [p._low, p._high, p._bins, p._name, p.get_width()]
def refset(name, low, high, bins, a, b, c):
    return [float(a), float(b), int(c), name, (b - a) / c]
""" % (cls, cls, cls))
            hh = {"bins": "int", "c": "int", "low": "real", "high": "real",
                  "a": "real", "b": "real", "name": "obj"}
            for k, c, d in (("created", "client", "ref"),
                            ("updated", "setpar", "refset")):
                r = ctx.run(fs[c])
                ctx.same(cls + ":" + k, r.ret, ctx.run(fs[d]).ret,
                         "axis " + k, where=r.func.where, hints=hh)
