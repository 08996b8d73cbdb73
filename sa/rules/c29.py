"""Decay conversions are mutually inverse and physically scaled.

Every conversion is compared, through a freshly constructed isotope, with the
published formula, with its inverse, and with itself given the default values
explicitly.
"""
MINIMUM = 30

ISO = ("w_iso", "w_nat", "abundance", "phase", "matrix", "loading", "radius",
       "density")
MAKE = 'DBIsotope("x", %s)' % ", ".join(ISO)

HEAD = """
import numpy
from echidna.calc.decay import DBIsotope
from echidna.calc import constants as const

def iso(%s):
    return %s
""" % (", ".join(ISO), MAKE)

REF = """
import numpy
from echidna.calc import constants as const

def atoms(%(a)s, l=None, d=None, mass=None, scint=None, r=None):
    if r is None:
        r = const._av_radius if radius is None else radius
    if l is None:
        l = const._loading if loading is None else loading
    if d is None:
        d = const._scint_density if density is None else density
    if mass is None:
        if scint is None:
            scint = d * 4. * numpy.pi * r ** 3 / 3.
        mass = abundance * w_iso / w_nat * l * scint
    return mass * const._n_avagadro / (w_iso * 0.001)

def number(%(a)s, n):
    if n is None:
        return atoms(%(a)s)
    return n

def life_of_mass(phase, matrix, m):
    return const._electron_mass ** 2 / (phase * matrix ** 2 * m ** 2)

def mass_of_life(phase, matrix, t):
    return numpy.sqrt(const._electron_mass ** 2 / (phase * matrix ** 2 * t))
""" % dict(a=", ".join(ISO))

# name, formula, extra parameters used by the formula
FORMULA = (
    ("half_life_to_activity", "n", "numpy.log(2) / x * N"),
    ("activity_to_half_life", "n", "numpy.log(2) * N / x"),
    ("eff_mass_to_half_life", "", "life_of_mass(phase, matrix, x)"),
    ("half_life_to_eff_mass", "", "mass_of_life(phase, matrix, x)"),
    ("activity_to_counts", "t", "x * t"),
    ("counts_to_activity", "t", "x / t"),
    ("half_life_to_counts", "nt", "numpy.log(2) / x * N * t"),
    ("counts_to_half_life", "nt", "numpy.log(2) * N * t / x"),
    ("eff_mass_to_counts", "nt",
     "numpy.log(2) / life_of_mass(phase, matrix, x) * N * t"),
    ("counts_to_eff_mass", "nt",
     "mass_of_life(phase, matrix, numpy.log(2) * N * t / x)"),
)
KW = {"": "", "n": ", n_atoms=n", "t": ", livetime=t",
      "nt": ", n_atoms=n, livetime=t"}

NUMBER = (("loading", "l"), ("scint_density", "d"), ("target_mass", "mass"),
          ("scint_mass", "scint"), ("outer_radius", "r"))


def unset(p, lo, hi):
    def f(env, o):
        if env.rnd("none", o) < p:
            return None
        return round(lo + (hi - lo) * env.rnd("val", o), 4)
    return f


def zero(p, lo, hi):
    def f(env, o):
        r = env.rnd("zero", o)
        if r < .2:
            return None
        if r < .2 + p:
            return 0.
        return round(lo + (hi - lo) * env.rnd("val", o), 4)
    return f


POS = lambda env, o: round(.2 + 3 * env.rnd("p", o), 3)
MANY = lambda env, o: round(.2 + 3 * env.rnd("p", o), 3) * 1e24
HINTS = dict(w_iso=POS, w_nat=POS, phase=POS, matrix=POS, x=POS, t=POS,
             abundance=lambda env, o: (0., 1., .3, .7, .9)[
                 int(5 * env.rnd("ab"))],
             loading=zero(.15, .01, 1.), radius=unset(.3, .5, 3.),
             density=unset(.3, .1, 2.), n=unset(.4, .5, 9.),
             l=zero(.15, .01, 1.), d=unset(.3, .1, 2.),
             mass=zero(.15, .1, 4.), scint=zero(.15, .1, 4.),
             r=unset(.3, .5, 3.))
NONZERO = dict(HINTS, loading=unset(.3, .01, 1.), l=unset(.3, .01, 1.),
               abundance=lambda env, o: (.1, 1., .3, .7)[
                   int(4 * env.rnd("ab"))])

CONSTANTS = (("_n_avagadro", 6.02214076e23), ("_electron_mass", 510998.95),
             ("_atomic_mass_unit", 1.66053907e-27))


def pair(ctx, key, code, ref, hints):
    with ctx.guard(key):
        f = list(ctx.snippet(HEAD + code).values())[-1]
        g = list(ctx.snippet(REF + ref).values())[-1]
        ctx.functions_agree(key, ctx.run(f), ctx.run(g), hints=hints,
                            unchanged=False)


def check(ctx):
    iso = ", ".join(ISO)
    for name, uses, formula in FORMULA:
        args = "".join(", " + u for u in uses)
        sig = "def f(%s, x%s):\n" % (iso, args)
        n = "    N = number(%s, n)\n" % iso if "n" in uses else ""
        pair(ctx, name, sig + "    return iso(%s).%s(x%s)\n" % (
            iso, name, KW[uses]), sig + n + "    return %s\n" % formula,
            NONZERO if name.endswith("eff_mass") else HINTS)
        # positional arguments mean the same
        if uses:
            pair(ctx, name + ":positional", sig +
                 "    return iso(%s).%s(x%s)\n" % (iso, name, args),
                 sig + n + "    return %s\n" % formula, NONZERO)
        # defaults equal the same values given explicitly
        if "t" in uses:
            sig = "def f(%s, x%s):\n" % (iso, ", n" if "n" in uses else "")
            body = "".join("    %s\n" % b for b in (
                ["N = number(%s, n)" % iso] if "n" in uses else []) +
                ["t = 5.0", "return " + formula])
            pair(ctx, name + ":default", sig + "    return iso(%s).%s(x%s)\n"
                 % (iso, name, ", n_atoms=n" if "n" in uses else ""),
                 sig + body, NONZERO)
    # every inverse pair
    for a in ("half_life", "activity", "eff_mass", "counts"):
        for b in ("half_life", "activity", "eff_mass", "counts"):
            ab, ba = "%s_to_%s" % (a, b), "%s_to_%s" % (b, a)
            uses = dict((f[0], f[1]) for f in FORMULA)
            if ab not in uses or ba not in uses:
                continue
            for given in (uses[ab], ""):
                sig = "def f(%s, x%s):\n" % (
                    iso, "".join(", " + u for u in given))
                kw = KW[given]
                pair(ctx, "%s inverts %s%s" % (ba, ab, "" if given else
                                               " (defaults)"),
                     sig + "    c = iso(%s)\n    return c.%s(c.%s(x%s)%s)\n"
                     % (iso, ba, ab, kw, kw), sig + "    return x\n",
                     dict(NONZERO, x=MANY) if a == "counts" else NONZERO)
    sig = "def f(%s, l, d, mass, scint, r):\n" % iso
    pair(ctx, "get_n_atoms", sig +
         "    return iso(%s).get_n_atoms(%s)\n" % (
             iso, ", ".join("%s=%s" % k for k in NUMBER)),
         sig + "    return atoms(%s, l, d, mass, scint, r)\n" % iso, HINTS)
    pair(ctx, "get_n_atoms:default", "def f(%s):\n    return "
         "iso(%s).get_n_atoms()\n" % (iso, iso),
         "def f(%s):\n    return atoms(%s)\n" % (iso, iso), HINTS)
    for u, v in NUMBER:
        pair(ctx, "get_n_atoms:%s only" % u, "def f(%s, %s):\n    return "
             "iso(%s).get_n_atoms(%s=%s)\n" % (iso, v, iso, u, v),
             "def f(%s, %s):\n    return atoms(%s, %s=%s)\n" % (
                 iso, v, iso, v, v), HINTS)
        pair(ctx, "get_n_atoms:all but %s" % u, "def f(%s, l, d, mass, scint,"
             " r):\n    return iso(%s).get_n_atoms(%s)\n" % (
                 iso, iso, ", ".join("%s=%s" % k for k in NUMBER
                                     if k[0] != u)),
             "def f(%s, l, d, mass, scint, r):\n    return atoms(%s, %s)\n"
             % (iso, iso, ", ".join("%s=%s" % (k[1], k[1]) for k in NUMBER
                                    if k[0] != u)), HINTS)
    for name, want in CONSTANTS:
        key = "constant " + name
        with ctx.guard(key):
            f = ctx.snippet("from echidna.calc import constants as const\n"
                            "def f():\n    return const.%s\n" % name)["f"]
            v = ctx.run(f).ret
            v = v.args[0] if v is not None and v.op == "num" else None
            if v is None:
                ctx.undecided(key, "not a literal")
            elif abs(float(v) / want - 1) < 1e-4:
                ctx.hold(key, "%s is %s" % (name, float(v)))
            else:
                ctx.violate(key, "%s is %s, the physical constant is %s" % (
                    name, float(v), want), "echidna/calc/constants.py")
