"""Updating parameters by keyword.

The summary of every keyword update is compared, over random keyword sets
(valid ones, an unknown name anywhere among valid ones, None for sigma), with
the rule: an unknown name raises before anything is written, otherwise
exactly the named quantities take the given values.
"""
from .. import terms as T
from .. import interp
from .speclib import SELF

MINIMUM = 20

SPECTRA = {"low": float, "high": float, "bins": int}
FIT = {"prior": float, "sigma": None, "low": float, "high": float,
       "bins": int, "logscale": bool, "base": float,
       "logscale_deviation": bool, "dimension": str}

OTHERS = {"SpectraParameter": ("_name", "_type", "_min", "_max"),
          "FitParameter": ("_name", "_type", "_min", "_max", "_best_fit",
                           "_current_value", "_penalty_term")}


def reference(cls, names):
    t = "def set_par(self, **kwargs):\n    for kw in kwargs:\n" \
        "        if kw not in (%s):\n            raise TypeError(kw)\n" % \
        ", ".join(repr(n) for n in sorted(names))
    for n in sorted(names):
        t += "    if %r in kwargs:\n        self._%s = kwargs[%r]\n" % (
            n, n, n)
    return t


def keywords(names):
    def f(env, o):
        out = {}
        order = sorted(list(names) + ["absent", "_low"],
                       key=lambda n: env.rnd("o", n))
        for n in order:
            p = 0.05 if n in ("absent", "_low") else 0.45
            if env.rnd("has", n) < p:
                r = env.rnd("v", n)
                k = names.get(n)
                if n == "sigma":
                    v = None if r < 0.3 else interp.Flt(round(1 + r, 3))
                elif k is int:
                    v = interp.Int(2 + int(9 * r))
                elif k is bool:
                    v = r < 0.5
                elif k is str:
                    v = "energy"
                else:
                    v = interp.Flt(round(-2 + 5 * r, 3))
                out[env.key(n)] = (n, v)
        return out
    return f


def check(ctx):
    for cls, names in (("SpectraParameter", SPECTRA), ("FitParameter", FIT)):
        r = ctx.agree(cls + ".set_par", cls, "set_par",
                      reference(cls, names), ["_" + n for n in sorted(names)] +
                      sorted(OTHERS[cls]),
                      hints={"kwargs": keywords(names), "(world)":
                             lambda env: None}, ret=False)
        if r:
            ctx.untouched(cls + ".set_par:others", r[0], [SELF], allow=tuple(
                "_" + n for n in names) + ("_values", "_bin_boundaries", "*"))
    for m in ("best_fit", "current_value", "penalty_term"):
        r = ctx.agree("FitParameter.set_" + m, "FitParameter", "set_" + m,
                      "def set_%s(self, %s):\n    self._%s = %s\n" % (
                          m, "value" if m == "current_value" else m, m,
                          "value" if m == "current_value" else m),
                      ["_current_value", "_best_fit", "_penalty_term",
                       "_prior", "_sigma", "_values"], hints={
                           "(world)": lambda env: None}, ret=False)
        ctx.agree("FitParameter.get_" + m, "FitParameter", "get_" + m,
                  "def get_%s(self):\n    if self._%s is None:\n"
                  "        raise ValueError('unset')\n"
                  "    return self._%s\n" % (m, m, m), hints={
                      "(world)": lambda env: None})
    for m in ("prior", "sigma", "dimension", "name", "low", "high", "bins"):
        ctx.agree("FitParameter.get_" + m, "FitParameter", "get_" + m,
                  "def get_%s(self):\n    return self._%s\n" % (m, m),
                  hints={"(world)": lambda env: None})
