"""Convolutions leave their input alone and share nothing with it.

For every convolution, every write reachable from it (through calls) is
resolved to the object it lands on; none may hang off the input spectrum.
Then a client writes to the data, the name, the counts and the axes of the
result: none of these writes may land on an object of the input either,
which is decided by the same effect analysis through the copies made.
"""
from .. import terms as T
from .speclib import SPEC

MINIMUM = 27

CLIENT = """
from echidna.core.scale import Scale
from echidna.core.shift import Shift
from echidna.core.smear import EnergySmearLY, EnergySmearRes, RadialSmear

def client(conv, spectrum, dimension, value):
    result = conv.%s(spectrum, dimension)
    result._data[0] = value
    result._data *= value
    result._data = value
    result._name = value
    result._num_decays = value
    result._raw_events = value
    result._config._parameters[dimension]._low = value
    result._config._parameters[dimension]._high = value
    result._config._parameters[dimension]._bins = value
    result._config._parameters["other"] = value
    result._config._name = value
    return result
"""

CONVOLUTIONS = (("Scale", ("scale",)), ("Shift", ("shift", "shift_by_bin")),
                ("EnergySmearLY", ("weighted_smear", "random_smear")),
                ("EnergySmearRes", ("weighted_smear", "random_smear")),
                ("RadialSmear", ("weighted_smear", "random_smear")))


def inter(f):
    return f.short == "Spectra.interpolate1d"


def check(ctx):
    opts = dict(opaque=inter, pure=lambda f: "const" if inter(f) else False)
    for cls, names in CONVOLUTIONS:
        for name in names:
            key = "%s.%s" % (cls, name)
            with ctx.guard(key):
                f = ctx.find(cls, name)
                if f is None:
                    ctx.undecided(key, "no such method")
                    continue
                r = ctx.run(f, selfcls=ctx.p.cls(cls), **opts)
                ctx.untouched(key + ":input", r, [SPEC])
                params = [a.arg for a in f.node.args.args]
                spec = T.sym(params[1])
                if r.ret is None:
                    ctx.undecided(key + ":counts", "never returns", f.where)
                    continue
                for fld in ("_num_decays", "_raw_events"):
                    ctx.same("%s:%s" % (key, fld), r.field(r.ret, fld),
                             T.raw("attr", spec, fld), "result's " + fld,
                             where=f.where)
            key += ":shared"
            with ctx.guard(key):
                fs = ctx.snippet(CLIENT % name)
                r = ctx.run(fs["client"], types={"sym:conv": cls}, **opts)
                ctx.untouched(key, r, [SPEC])
    # the input interpolated is the input's own projection, left alone
    with ctx.guard("Spectra.interpolate1d:input"):
        f = ctx.find("Spectra", "interpolate1d")
        if f is not None:
            r = ctx.run(f, selfcls=ctx.p.cls("Spectra"))
            ctx.untouched("Spectra.interpolate1d:input", r, [T.sym("self")])
