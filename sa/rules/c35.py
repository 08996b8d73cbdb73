"""Fit parameters act on spectra only as configured.

The convolutions are kept symbolic: compared is which one is applied, with
what settings (the state of the convolution object at the call), to which
spectrum and dimension, and what is handed back.
"""
from .speclib import base, SELF, SPEC

MINIMUM = 16

REFS = {
    "RateParameter": """
def apply_to(self, spectrum):
    if self._current_value is None:
        raise ValueError("unset")
    spectrum.scale(self._current_value)
    return spectrum
""",
    "ResolutionParameter": """
from echidna.core import smear
def apply_to(self, spectrum):
    if self._current_value is None:
        raise ValueError("unset")
    if self._current_value > 10.:
        smearer = smear.EnergySmearLY()
    else:
        smearer = smear.EnergySmearRes()
    smearer.set_resolution(self._current_value)
    return smearer.weighted_smear(spectrum, self._dimension)
""",
    "ScaleParameter": """
from echidna.core import scale
def apply_to(self, spectrum):
    if self._current_value is None:
        raise ValueError("unset")
    scaler = scale.Scale()
    scaler.set_scale_factor(self._current_value)
    return scaler.scale(spectrum, self._dimension)
""",
    "ShiftParameter": """
from echidna.core import shift
def apply_to(self, spectrum):
    if self._current_value is None:
        raise ValueError("unset")
    shifter = shift.Shift()
    shifter.set_shift(self._current_value)
    return shifter.shift(spectrum, self._dimension)
""",
}

MADE = """
from echidna.core.parameter import %(cls)s
def made(name, prior, sigma, low, high, bins%(dim)s):
    par = %(cls)s(name, prior, sigma, low, high, bins%(dim)s)
    return (%(min)spar._current_value, par._dimension,
            par._prior, par._sigma, par._low, par._high, par._bins)

def value(name, prior, sigma, low, high, bins%(dim)s, x, spectrum):
    par = %(cls)s(name, prior, sigma, low, high, bins%(dim)s)
    par.set_current_value(x)
    return par.get_current_value()
"""

WANT = """
import numpy
def ref(name, prior, sigma, low, high, bins%(dim)s):
    return (%(wantmin)sNone, %(dimval)s, float(prior), sigma,
            float(low), float(high), int(bins))

def valueref(name, prior, sigma, low, high, bins%(dim)s, x, spectrum):
    if x is None:
        raise ValueError("unset")
    return x
"""

CONVOLVE = ("Scale.scale", "Shift.shift", "EnergySmearLY.weighted_smear",
            "EnergySmearRes.weighted_smear", "Smear.weighted_smear")


def current(env, o):
    r = env.rnd("current")
    return (None, .05, 200., 10., 10.5, 1., -2., 0.)[int(8 * r)]


def check(ctx):
    stop = lambda f: f.short in CONVOLVE
    for cls in sorted(REFS):
        fields = ["result._data", "result._num_decays",
                  "result._raw_events", "result._config"]
        r = ctx.agree(cls + ".apply_to", cls, "apply_to", REFS[cls],
                      fields if cls == "RateParameter" else (),
                      opts=dict(opaque=stop, pure=stop,
                                types={"sym:spectrum": "Spectra"}),
                      hints=base(_current_value=current))
        if not r:
            continue
        ctx.untouched(cls + ".apply_to:parameter", r[0], [SELF])
        if cls != "RateParameter":
            ctx.untouched(cls + ".apply_to:spectrum", r[0],
                          [SPEC])
    for cls in sorted(REFS):
        rate = cls == "RateParameter"
        fill = dict(cls=cls, dim="" if rate else ", dimension",
                    min="par._min, " if rate else "",
                    wantmin="0., " if rate else "",
                    dimval="None" if rate else "dimension")
        h = base(sigma=lambda env, o: None if env.rnd("sg") < .3 else
                 round(env.rnd("sg2"), 3), x=current, bins="nat",
                 dimension=lambda env, o: "energy_mc", prior="real",
                 low="real", high="real", name="text")
        with ctx.guard(cls + ":made"):
            fs = ctx.snippet(MADE % fill)
            rf = ctx.snippet(WANT % fill)
            ctx.functions_agree(cls + ":made", ctx.run(fs["made"]),
                                ctx.run(rf["ref"]), hints=h,
                                unchanged=False)
            ctx.functions_agree(cls + ":current", ctx.run(fs["value"]),
                                ctx.run(rf["valueref"]), hints=h,
                                unchanged=False)
