"""Convolution settings: impossible values are rejected and leave the setting.

Each setter must agree with a reference that states which values are
accepted, what is stored and that a rejecting path stores nothing; clients
then check that the value accepted is the one the next use reads.
"""
from .speclib import base

MINIMUM = 24

SETTERS = (
    ("Scale", "set_scale_factor", "scale_factor", "v > 0.",
     {"_scale_factor": "v"}),
    ("Shift", "set_shift", "shift", "True", {"_shift": "v"}),
    ("EnergySmearLY", "set_num_sigma", "num_sigma", "v > 0.",
     {"_num_sigma": "v"}),
    ("EnergySmearRes", "set_num_sigma", "num_sigma", "v > 0.",
     {"_num_sigma": "v"}),
    ("RadialSmear", "set_num_sigma", "num_sigma", "v > 0.",
     {"_num_sigma": "v"}),
    ("EnergySmearLY", "set_resolution", "light_yield", "v > 0.",
     {"_light_yield": "v"}),
    ("EnergySmearRes", "set_resolution", "resolution", "0. < v < 1.",
     {"_resolution": "v"}),
    ("RadialSmear", "set_resolution", "resolution", "v > 0.",
     {"_resolution": "v"}),
)

# setting followed by the reading the convolution makes
USES = (
    ("Scale", "set_scale_factor", "v > 0.", "get_scale_factor()", "v"),
    ("Shift", "set_shift", "True", "get_shift()", "v"),
    ("EnergySmearLY", "set_num_sigma", "v > 0.", "get_bounds(x, s)",
     "(x - v * s, x + v * s)"),
    ("EnergySmearRes", "set_num_sigma", "v > 0.", "get_num_sigma()", "v"),
    ("EnergySmearLY", "set_resolution", "v > 0.", "get_sigma(x)",
     "numpy.sqrt(x / v)"),
    ("EnergySmearLY", "set_resolution", "v > 0.", "get_resolution()", "v"),
    ("EnergySmearRes", "set_resolution", "0. < v < 1.", "get_sigma(x)",
     "v * numpy.sqrt(x)"),
    ("EnergySmearRes", "set_resolution", "0. < v < 1.",
     "calc_poisson_energy(x, s)", "poisson(int(x / v ** 2), s / v ** 2)"),
    ("EnergySmearLY", "set_resolution", "v > 0.",
     "calc_poisson_energy(x, s)", "poisson(int(x * v), s * v)"),
    ("EnergySmearRes", "set_resolution", "0. < v < 1.", "get_resolution()",
     "v"),
    ("RadialSmear", "set_resolution", "v > 0.", "get_sigma()", "v"),
    ("RadialSmear", "set_resolution", "v > 0.", "get_resolution()", "v"),
)

CLIENT = """
import numpy
def client(conv, v, x, s):
    conv.%(set)s(v)
    return conv.%(use)s

def poisson(k, mean):
    fact = numpy.sum(numpy.log(numpy.arange(1, k + 1)))
    return numpy.exp(k * numpy.log(mean) - fact - mean)

def ref(conv, v, x, s):
    if not (%(ok)s):
        raise ValueError("impossible")
    return %(want)s
"""


def value(env, o):
    r = env.rnd("v")
    return (0., -1., 1., .5, 0.04, 150., -.2, 1e-9, 2.)[int(r * 9)] \
        if r < .8 else round(6 * env.rnd("v2") - 2, 3)


def check(ctx):
    for cls, name, arg, ok, stores in SETTERS:
        ref = "def %s(self, %s):\n    v = %s\n    if not (%s):\n" \
            "        raise ValueError('impossible')\n" % (name, arg, arg, ok)
        for f, e in sorted(stores.items()):
            ref += "    self.%s = %s\n" % (f, e)
        h = base(**{arg: value})
        f = ctx.find(cls, name)
        if f is not None and len(f.node.args.args) == 2:
            h[f.node.args.args[1].arg] = value
            ref = ref.replace("(self, %s)" % arg,
                              "(self, %s)" % f.node.args.args[1].arg)
            ref = ref.replace("v = %s" % arg,
                              "v = %s" % f.node.args.args[1].arg)
        ctx.agree("%s.%s" % (cls, name), cls, name, ref, sorted(stores),
                  hints=h)
    for cls, name, ok, use, want in USES:
        key = "use:%s.%s:%s" % (cls, name, use)
        with ctx.guard(key):
            fs = ctx.snippet(CLIENT % dict(set=name, use=use, ok=ok,
                                           want=want))
            c = ctx.run(fs["client"], types={"sym:conv": cls})
            d = ctx.run(fs["ref"], types={"sym:conv": cls})
            some = dict(v=value, x="pos", s="pos", _poisson_smear="bool")
            if "poisson" in use:
                some.update(v=light if cls == "EnergySmearLY" else width,
                            x=near, s=near, _log_factorial=lambda env, o: {})
            ctx.functions_agree(key, c, d, unchanged=False,
                                hints=base(**some))


def light(env, o):
    return (0., -2., 3., 10., 7.5, 4.)[int(env.rnd("v") * 6)]


def width(env, o):
    return (0., -.1, .3, .5, .41, 1.)[int(env.rnd("v") * 6)]


def near(env, o):
    return round(.2 + env.rnd("near", o.key), 3)
