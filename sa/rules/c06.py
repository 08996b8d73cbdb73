"""Scaling: the summary of Spectra.scale equals data * N / decays, decays = N.

A second obligation composes two calls: scaling to M and then to N must leave
exactly what scaling to N alone leaves.  No other field may change.
"""
from .. import terms as T
from .speclib import SELF, base

MINIMUM = 7

REF = """
def scale(self, num_decays):
    self._data = self._data * (num_decays / self._num_decays)
    self._num_decays = num_decays
"""
FIELDS = ["_data", "_num_decays", "_raw_events", "_config", "_name",
          "_bipo", "_background_name", "_rois"]


def amount(env, o):
    """A number of decays, now and then none at all."""
    return 0. if env.rnd("none") < .15 else round(.1 + 9 * env.rnd("n"), 3)


def check(ctx):
    h = base(num_decays=amount, first="pos")
    r = ctx.agree("Spectra.scale", "Spectra", "scale", REF, FIELDS, hints=h,
                  ret=False, raises=False)
    if r:
        # only the receiver's data and decay count are written
        from .. import spec
        bad = [e for e in spec.effects(r[0])
               if not (e.kind == "setattr" and T.ptr(e.data[0]) is SELF and
                       e.data[1] in ("_data", "_num_decays") or
                       e.kind in ("inplace", "setitem") and
                       T.ptr(e.data[0]) is T.raw("attr", SELF, "_data"))]
        ctx.verdict("Spectra.scale:nothing-else", not bad, "effects beyond "
                    "data and decays: %s" % bad[:1] if bad else
                    "%d effects, all on data or decays" % len(
                        spec.effects(r[0])), r[0].func.where)
    with ctx.guard("Spectra.scale:composition"):
        fs = ctx.snippet("""
def twice(spectrum, first, num_decays):
    spectrum.scale(first)
    spectrum.scale(num_decays)
def once(spectrum, first, num_decays):
    spectrum.scale(num_decays)
""")
        a, b = ctx.run(fs["twice"]), ctx.run(fs["once"])
        for f in ("_data", "_num_decays"):
            ctx.same("Spectra.scale:composition" + f,
                     a.field(T.sym("spectrum"), f),
                     b.field(T.sym("spectrum"), f), f, hints=h,
                     where=a.func.where)
