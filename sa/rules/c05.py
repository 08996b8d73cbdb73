"""Merging spectra: the summary of Spectra.add equals the reference summary.

Reference: reject when the array shapes differ, when either spectrum has a
dimension the other lacks, or when lower bound, upper bound (numpy.allclose) or
bin count of any dimension differ, a dimension being matched by its name up to
its true/reco suffix; otherwise data, raw events and decays of the receiver
grow by those of the argument.  Nothing is written before the last rejection
and nothing of the argument is ever written.
"""
from .. import terms as T
from .. import spec
from .speclib import SELF, SPEC, base, world_of

MINIMUM = 9

MUTABLE = ("_data", "_config", "_parameters", "_rois", "_style",
           "_fit_config")

REF = """
def add(self, spectrum):
    a = self._config
    b = spectrum._config
    if self._data.shape != spectrum._data.shape:
        raise ValueError("shape")
    for v in a.get_dims():
        if v not in b.get_dims():
            raise IndexError("missing")
    for v in b.get_dims():
        if v not in a.get_dims():
            raise IndexError("missing")
    types = {}
    for v in b._parameters:
        if v not in a._parameters:
            dim = b.get_dim(v)
            types[dim] = b.get_dim_type(dim)
    for v in a._parameters:
        p = a._parameters[v]
        dim = a.get_dim(v)
        w = dim + "_" + types[dim] if dim in types else v
        q = b._parameters[w]
        if p._bins != q._bins:
            raise ValueError("bins")
        if not numpy.allclose(p._low, q._low):
            raise ValueError("low")
        if not numpy.allclose(p._high, q._high):
            raise ValueError("high")
    self._data = self._data + spectrum._data
    self._num_decays = self._num_decays + spectrum._num_decays
    self._raw_events = self._raw_events + spectrum._raw_events
"""


def check(ctx):
    r = ctx.agree("Spectra.add", "Spectra", "add", REF,
                  ["_data", "_raw_events", "_num_decays", "_config", "_name"],
                  hints=base(), ret=False, n=4 * ctx.n)
    if r:
        ctx.untouched("Spectra.add:argument", r[0], [SPEC])
        apart(ctx, "Spectra.add:shares nothing", r[0])
    # matching by name up to the suffix
    for m, ref in NAMES:
        ctx.agree("SpectraConfig." + m, "SpectraConfig", m, ref,
                  hints=base(par=some, dim=some))


NAMES = ("get_dims", """
def get_dims(self):
    return [p.rsplit("_", 1)[0] for p in sorted(self._parameters)]
"""), ("get_dim", """
def get_dim(self, par):
    return par.rsplit("_", 1)[0]
"""), ("get_dim_type", """
def get_dim_type(self, dim):
    for p in sorted(self._parameters):
        if p.rsplit("_", 1)[0] == dim:
            return p.rsplit("_", 1)[1]
    raise IndexError("no such dimension")
""")


def some(env, o):
    """A parameter of the configuration, or its dimension, or neither."""
    ns = world_of(env).roots("self") + ("cos_b_mc",)
    n = ns[int(env.rnd("some") * len(ns))]
    return n if o.key == "par" else n.rsplit("_", 1)[0]


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [T.ptr(t)]


def apart(ctx, key, res):
    """No object of the argument becomes part of the receiver: the next
    merge into the receiver would change it."""
    for e in res.kinds("setattr"):
        for x in leaves(e.data[2]):
            if x.op in ("attr", "attrv") and x.args[1] in MUTABLE and \
                    spec.root(x) is SPEC and \
                    spec.root(T.ptr(e.data[0])) is SELF:
                ctx.violate(key, "%s becomes %s itself" % (
                    e.data[1], T.show(x)), e.where)
                return
    ctx.hold(key, "%d stores" % len(res.kinds("setattr")), res.func.where)
