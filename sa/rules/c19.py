"""One fit point: accounting of the parts, and no write to what is stored.

The value graph of the fit function is compared with the required sum of
parts (fixed backgrounds; every floating background with every global
parameter and its own parameters; signal with every global parameter), with
projection, shrinking, rebinning, scaling and transformation kept symbolic
but ordered.  A second analysis follows objects: an operation that changes a
spectrum may only be applied to one made during the evaluation.  The key under
which a convolved spectrum is kept must determine the background and every
value it depends on.
"""
from .. import terms as T
from .. import interp
from ..spec import root, effects, occurrences
from . import fitlib
from .speclib import SELF

MINIMUM = 8

FIT = """
def fit(self):
    if not self._checked:
        self.check_fitter()
    if self._floating_backgrounds:
        if self._minimiser is None:
            raise AttributeError("Minimiser is not set.")
        return self._minimiser.minimise(self._funct, self._test_statistic)
    observed = self._data.nd_project(self._data_pars)
    expected = self._fixed_background.nd_project(self._fixed_pars)
    if self._signal:
        expected = expected + self._signal.nd_project(self._signal_pars)
    if self._single_bin:
        expected = numpy.sum(expected)
        observed = numpy.sum(observed)
    return self._test_statistic.compute_statistic(
        observed.ravel(), expected.ravel())
"""
SHRINK_TO_DATA = """
def shrink_to_data(self, spectra):
    shrink = {}
    config = self._data.get_config()
    for name in config.get_pars():
        par = config.get_par(name)
        dim = config.get_dim(name)
        own = dim + "_" + spectra.get_config().get_dim_type(dim)
        shrink[own + "_low"] = par._low
        shrink[own + "_high"] = par._high
    spectra.shrink(**shrink)
"""
SHRINK_SPECTRA = """
def shrink_spectra(self, spectra):
    shrink = {}
    for dim in self._roi:
        own = dim + "_" + spectra.get_config().get_dim_type(dim)
        shrink[own + "_low"] = self._roi[dim][0]
        shrink[own + "_high"] = self._roi[dim][1]
    spectra.shrink(**shrink)
"""


def check(ctx):
    r = ctx.agree("Fit._funct", "Fit", "_funct", fitlib.FUNCT,
                  opts=fitlib.opts(), hints=fitlib.hints())
    if r:
        objects(ctx, "Fit._funct", r[0])
        with ctx.guard("Fit._funct:cache-key"):
            cachekey(ctx, r[0])
    ctx.agree("Fit.fit", "Fit", "fit", FIT, opts=fitlib.opts(
        extra=("Fit.check_fitter",)),
        hints=fitlib.hints(_minimiser="obj"), raises=False)
    for m, ref in (("shrink_to_data", SHRINK_TO_DATA),
                   ("shrink_spectra", SHRINK_SPECTRA)):
        shrinkcall(ctx, m, ref)
    for m in ("make_fixed_background", "append_fixed_background"):
        f = ctx.find("Fit", m)
        with ctx.guard("Fit." + m):
            r = ctx.run(f, selfcls=ctx.p.cls("Fit"), **fitlib.opts())
            objects(ctx, "Fit." + m, r, ("spectra_dict",))


def shrinkcall(ctx, m, ref):
    """The keywords handed to Spectra.shrink."""
    key = "Fit." + m
    with ctx.guard(key):
        out = []
        fs = ctx.snippet(ref)
        from ..spec import methodize
        for f in (ctx.find("Fit", m),
                  methodize(fs[m], ctx.p.cls("Fit"))):
            r = ctx.run(f, selfcls=ctx.p.cls("Fit"), **fitlib.opts())
            calls = [e for e in r.kinds("call")
                     if e.data[1].args[0] == "Spectra.shrink"]
            if len(calls) != 1 or calls[0].loops:
                ctx.undecided(key, "%d calls of shrink" % len(calls),
                              r.func.where)
                return
            out.append((r, calls[0]))
        (r, c), (w, d) = out
        ctx.same(key, c.data[3], d.data[3], "limits handed to shrink",
                 c.where, hints=DIMS)
        ok = [T.val(g) for g in c.guards]
        ctx.verdict(key + ":receiver", T.ptr(c.data[2]) is T.ptr(d.data[2])
                    and not [g for g in ok if g not in d.guards] or None,
                    "shrink is applied to the given spectrum", c.where)


def dims(env, o):
    """Parameters of the data's or the spectrum's configuration."""
    out = {}
    for d in ("energy", "radial3", "time"):
        if env.rnd("dim", d) < .7:
            n = d + "_" + ("mc" if env.rnd("t", d, o.key) < .5 else "reco")
            out[env.key(n)] = (n, interp.Obj("par<%s|%s>" % (o.key, n),
                                             "par"))
    return out


def roi(env, o):
    out = {}
    for d in ("energy", "radial3", "time"):
        if env.rnd("dim", d) < .7:
            lo = round(env.rnd("lo", d), 2)
            out[env.key(d)] = (d, (interp.Flt(lo), interp.Flt(lo + 1)))
    return out


DIMS = {"(world)": lambda env: None, "_parameters": dims, "_roi": roi,
        "_low": "real", "_high": "pos"}


RESHAPES = ("Fit.shrink_to_data", "Fit.shrink_spectra", "Spectra.shrink",
            "Spectra.rebin")


def origin(o):
    """Is the object made during the call? (root, fresh?)"""
    while True:
        o = T.ptr(o)
        if o.op in ("copy", "new", "call", "mcall"):
            return o, True
        if o.op == "fold":
            # a fold over global parameters runs only when there are some
            a = origin(o.args[1])
            return a if a[0].op == "copy" else (o, True)
        if o.op in ("recur", "acc", "racc", "last"):
            return o, True
        if o.op == "ite":
            a, b = origin(o.args[1]), origin(o.args[2])
            return (a if not a[1] else b)
        if o.op in ("idx", "attr", "attrv"):
            if "_global_dict" in T.show(o)[:200]:
                return o, True      # kept result of an earlier evaluation
            if o.op == "idx" and o.args[0].op == "call":
                return o, True
        return o, False


def objects(ctx, key, r, roots=()):
    """Nothing that existed before the call is changed, except the values
    of fit parameters and the store of convolved spectra."""
    bad, n = [], 0
    for e in r.events:
        if T.FALSE in e.guards:
            continue
        if e.kind == "call":
            name = e.data[1].args[0]
            muts = fitlib.MUTATES.get(name)
            if not muts:
                continue
            f = e.data
            idx = 0 if muts[0] == "self" else 1
            o = T.ptr(e.data[2 + idx])
        elif e.kind == "setattr":
            if e.data[1] in ("_current_value", "_background_name",
                             "_checked", "_fixed_background", "_fixed_pars",
                             "_global_dict", "_orig_num_decays"):
                if e.data[1] != "_orig_num_decays":
                    continue
            o = T.ptr(e.data[0])
            if e.data[2] is T.raw("attr", o, e.data[1]):
                continue
        elif e.kind in ("inplace", "setitem", "append", "delitem"):
            o = T.ptr(e.data[0])
            if "_global_dict" in T.show(o):
                continue
        else:
            continue
        n += 1
        o, fresh = origin(o)
        if fresh and o.op == "copy" and o.args[0] != "deep" and \
                e.kind == "call" and e.data[1].args[0] in RESHAPES and \
                not any(x.kind == "setattr" and x.seq < e.seq and
                        T.ptr(x.data[0]) is o and x.data[1] == "_config" and
                        origin(x.data[2])[1] for x in r.events):
            bad.append((e, T.raw("attr", o.args[-1], "_config")))
            continue
        if fresh:
            continue
        top = root(o)
        if top is SELF and roots and "_fixed_background" in T.show(o):
            continue
        if top is SELF or top.op == "sym" and (
                top.args[0] in roots):
            bad.append((e, o))
    if bad:
        e, o = bad[0]
        ctx.violate(key + ":stored", "%s reaches the stored object %s" % (
            e.kind if e.kind != "call" else e.data[1].args[0],
            T.show(o)[:200]), e.where)
    else:
        ctx.hold(key + ":stored", "%d writes, all on objects made during "
                 "the evaluation" % n, r.func.where)


VALUES = (1.0, 1.5, 1.5000001, 12.0, 12.00001)


def cachekey(ctx, r):
    key = "Fit._funct:cache-key"
    ev = []
    for e in r.kinds("setitem"):
        if "_global_dict" in T.show(T.ptr(e.data[0])) and \
                T.val(e.data[2]).op != "dict":
            ev.append(e)
    if not ev:
        ctx.hold(key, "convolved spectra are not kept", r.func.where)
        return
    small = dict(fitlib.hints())
    small["args"] = lambda env, o: tuple(
        interp.Flt(VALUES[int(len(VALUES) * env.rnd("arg", i))])
        for i in range(len(fitlib.fit_names(env))))
    small["_current_value"] = lambda env, o: interp.Flt(1.0)
    seen, n = {}, 0
    for s in range(ctx.n * 10):
        env = interp.Env(s, small)
        names = fitlib.fit_names(env)
        vals = small["args"](env, None)
        dep = tuple((x, float(v)) for x, v in zip(names, vals)
                    if env.rnd("kind", x) < .5)
        for e in ev:
            try:
                for idx in occurrences(env, e):
                    env.bv.update(idx)
                    o = T.ptr(e.data[0])
                    outer = o.args[1] if o.op == "idx" else None
                    k = env.key(env.ev(e.data[1])), env.key(
                        env.ev(outer)) if outer is not None else T.show(o)
                    who = "signal" if "_signal" in T.show(e.data[1]) + \
                        T.show(o) else env.key(env.ev(outer)) \
                        if outer is not None else ""
                    d = (dep, who)
                    k = k + (tuple(n for n, _ in dep),)
                    n += 1
                    if seen.setdefault(k, d) != d and (
                            seen[k][0] != dep):
                        ctx.violate(key, "the key %s is shared by the "
                                    "values %s and %s" % (
                                        k, seen[k][0], dep), e.where)
                        return
            except (interp.Unknown, interp.Stuck):
                pass
            env.bv.clear()
    if n < 20:
        ctx.undecided(key, "only %d keys evaluated" % n, ev[0].where)
    else:
        ctx.hold(key, "%d keys evaluated, each determines the values it "
                 "depends on" % n, ev[0].where)
