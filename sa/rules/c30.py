"""Decay conversions reject non-physical arguments.

For every entry point the condition under which it refuses is compared with
the stated one: nothing non-physical passes, nothing valid is refused.
"""
from .c29 import ISO, HEAD, FORMULA, KW, POS, NUMBER

MINIMUM = 14

REF = """
def physical(%(a)s):
    if abundance < 0. or abundance > 1.:
        raise ValueError("abundance")
    if loading is not None and (loading < 0. or loading > 1.):
        raise ValueError("loading")
    if radius is not None and radius <= 0.:
        raise ValueError("radius")

def positive(x):
    if x <= 0.:
        raise ValueError("not positive")

def atoms(l, r):
    if l is not None and (l < 0. or l > 1.):
        raise ValueError("loading")
    if r is not None and r <= 0.:
        raise ValueError("radius")
""" % dict(a=", ".join(ISO))


def some(*vals):
    def f(env, o):
        return vals[int(len(vals) * env.rnd("v", o))]
    return f


FRACTION = some(None, 0., 1., .3, .003, -1e-3, 1.0001, -.5, 7., 0, 1)
LENGTH = some(None, 0., 2., 1e-3, -1e-3, -5., 0, 1, 6000., None)
TIME = some(5., 0., 1e-3, -1e-3, -5., 0, 1, 365., .5)
OK = dict(w_iso=POS, w_nat=POS, phase=POS, matrix=POS, x=POS, t=TIME,
          abundance=.3, loading=some(None, .3, 1.), density=some(None, 2.),
          radius=some(None, 3.), n=some(None, 4., 1.), d=some(None, 1.5),
          l=FRACTION, r=LENGTH, mass=some(None, 1., 2.),
          scint=some(None, 1.5))
OK["abundance"] = some(.3, .9)
CTOR = dict(OK, abundance=some(0., 1., .3, -1e-3, 1.001, -3., 4., 1, 0),
            loading=FRACTION, radius=LENGTH)


def pair(ctx, key, code, ref, hints):
    with ctx.guard(key):
        f = list(ctx.snippet(HEAD + code).values())[-1]
        g = list(ctx.snippet(REF + ref).values())[-1]
        ctx.functions_agree(key, ctx.run(f), ctx.run(g), hints=hints,
                            unchanged=False)


def check(ctx):
    iso = ", ".join(ISO)
    sig = "def f(%s):\n" % iso
    pair(ctx, "DBIsotope", sig + "    iso(%s)\n    return 0\n" % iso,
         sig + "    physical(%s)\n    return 0\n" % iso, CTOR)
    sig = "def f(%s, l, d, mass, scint, r):\n" % iso
    pair(ctx, "get_n_atoms", sig +
         "    iso(%s).get_n_atoms(%s)\n    return 0\n" % (
             iso, ", ".join("%s=%s" % k for k in NUMBER)),
         sig + "    atoms(l, r)\n    return 0\n", OK)
    for name, uses, _ in FORMULA:
        mass = name.startswith("eff_mass")
        hints = dict(OK)
        if mass:
            hints["x"] = TIME
        sig = "def f(%s, x%s):\n" % (iso, "".join(", " + u for u in uses))
        ref = "    positive(x)\n" if mass else ""
        if "t" in uses:
            ref += "    positive(t)\n"
        pair(ctx, name, sig + "    iso(%s).%s(x%s)\n    return 0\n" % (
            iso, name, KW[uses]), sig + ref + "    return 0\n", hints)
        if uses and mass:
            sig = "def f(%s, x):\n" % iso
            pair(ctx, name + ":default", sig +
                 "    iso(%s).%s(x)\n    return 0\n" % (iso, name),
                 sig + "    positive(x)\n    return 0\n", hints)
