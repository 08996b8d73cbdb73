"""Filling a spectrum counts each accepted event exactly once.

The two fill functions are analysed together with the extractors and the
spectrum they use, on arbitrary sequences of events in both input formats;
the counters and contents they leave are compared with a recount of the
events that pass every requirement.
"""
import numpy as np

from .. import interp
from .. import spec
from .. import terms as T
from ..interp import Stuck, Unknown
from .c21 import Tally
from .c31 import AV, Entry, Missing, Oracle, World

MINIMUM = 62

MODEL = '''
from echidna.core import spectra
from echidna.core import fill_spectrum
class %(cls)s(object):
    def get_pars(self):
        return %(dims)s
    def get_par(self, name):
        return %(par)s
    def get_index(self, name):
        return %(index)s
def append(filename, conf, decays, raw, data, flag, fv):
    spectrum = spectra.Spectra("old", decays, conf)
    spectrum._raw_events = raw
    spectrum._data = data
    spectrum._bipo = flag
    out = fill_spectrum.%(f)s(filename, spectrum=spectrum%(kw)s)
    return (out._raw_events, out._num_decays, out._bipo, out._data)
def create(filename, conf, decays, raw, data, flag, fv):
    out = fill_spectrum.%(f)s(filename, "new", conf%(kw)s)
    return (out._raw_events, out._num_decays, out._bipo, out._data)
'''


class Tagged(object):
    """The randomness of one event of the sequence."""

    def __init__(self, env, *tag):
        self.env, self.tag = env, tag

    def rnd(self, *k):
        return self.env.rnd(*(self.tag + k))


class Row(Entry):
    def __init__(self, w, index, i):
        Entry.__init__(self, w)
        self.f["evIndex"] = float(index)
        self.name = "entry%d" % i

    def key(self):
        return self.name


class Chain(interp.Ext):
    """The ntuple: a sequence of rows."""
    name = "chain"

    def __init__(self, run):
        self.run = run

    def key(self):
        return "chain"

    def length(self, env):
        return float(len(self.run.worlds))

    def item(self, env, i):
        i = env.integer(i)
        if not 0 <= i < len(self.run.worlds):
            raise Stuck("no such entry")
        return self.run.rows[i]

    def call(self, env, name, args, kws):
        if name in ("GetEntries", "GetEntriesFast"):
            return float(len(self.run.worlds))
        if name in ("Add", "AddFile"):
            return 1.
        raise Unknown("chain." + name)


class Reader(interp.Ext):
    """The event file: a sequence of simulated events."""
    name = "reader"

    def __init__(self, run):
        self.run = run

    def key(self):
        return "reader"

    def call(self, env, name, args, kws):
        if name == "GetEntryCount":
            return float(len(self.run.worlds))
        if name == "GetEntry":
            i = env.integer(args[0])
            if not 0 <= i < len(self.run.worlds):
                raise Stuck("no such entry")
            return self.run.worlds[i].ds()
        raise Unknown("reader." + name)


class Run(object):
    """A file of events, and the spectrum it is filled into."""

    def __init__(self, env, dims, vessel):
        n = int(4.3 * env.rnd("entries"))
        self.env, self.dims, self.vessel = env, dims, vessel
        self.worlds, self.rows = [], []
        for i in range(n):
            w = World(Tagged(env, "event", i))
            w.radius = 15. * (14 + int(10 * env.rnd("fv")))
            w.tag = "sim%d." % i
            if env.rnd("good", i) < .6:
                # nothing wrong with this one
                w.n = 1 + int(2.2 * env.rnd("evs", i)) % 3
                w.nmc = max(w.nmc, 1)
                for e in w.ev:
                    e.update(fit=True, hasp=True, okp=True, hase=True,
                             oke=True, energy=abs(e["energy"]) + .3)
            self.worlds.append(w)
            k = env.rnd("index", i)
            index = 0 if i == 0 and k < .9 or k < .62 else \
                -1 if k > .9 else 1 if k < .8 else 2
            self.rows.append(Row(w, index, i))

    def axis(self, d):
        """Low edge, high edge and bins of dimension d."""
        lo = round(.3 + self.env.rnd("lo", d), 3)
        hi = lo + round(.8 + 2 * self.env.rnd("hi", d), 3)
        if self.dims[d].startswith("radial3"):
            lo, hi = lo * 1e-5, hi * 1e-4
        elif self.dims[d].startswith("zradial3"):
            lo, hi = -hi * 1e-4, hi * 1e-4
        elif self.dims[d].startswith("radial"):
            lo, hi = 100 * lo, 250 * hi
        return lo, hi, 1 + int(3 * self.env.rnd("bins", d))

    def bin(self, vals):
        out = []
        for d, v in enumerate(vals):
            lo, hi, n = self.axis(d)
            if not lo <= v < hi:
                return None
            out.append(int((v - lo) / (hi - lo) * n))
        return tuple(out)

    def before(self):
        sh = tuple(self.axis(d)[2] for d in range(len(self.dims)))
        return np.array([float(int(5 * self.env.rnd("data", i)))
                         for i in range(int(np.prod(sh)))]).reshape(sh)

    def oracles(self, opts):
        return [Oracle(d, opts, None, self.vessel) for d in self.dims]

    def ntuple(self, opts, bipo):
        """Values of the accepted rows."""
        out = []
        os = self.oracles(opts)
        for i, w in enumerate(self.worlds):
            row = self.rows[i].f
            if bipo:
                if row["evIndex"] != 0:
                    continue
                if i + 1 < len(self.rows) and \
                        self.rows[i + 1].f["evIndex"] >= 1:
                    continue
            if all(o.used_ntuple(w) for o in os):
                out.append([o.value(w) for o in os])
        return out

    def root(self, opts, bipo):
        out = []
        os = self.oracles(opts)
        kinds = set(o.kind == "reco" for o in os)
        for w in self.worlds:
            if bipo and w.n != 1:
                continue
            if any(o.mixed(w) for o in os):
                raise Stuck("refused file")
            if True not in kinds:
                evs = [w]
            else:
                evs = [w.seen(i) for i in range(w.n)]
            for e in evs:
                if all(o.used_root(e) for o in os):
                    out.append([o.value(e) for o in os])
        return out


def model(ctx, n, dims, f, kw):
    def chain(g):
        out = g(n - 1)
        for i in reversed(range(n - 1)):
            out = "%s if name == %r else (%s)" % (g(i), dims[i], out)
        return out
    ctx.confs = getattr(ctx, "confs", 0) + 1
    cls = "FillConf%d" % ctx.confs
    fs = ctx.snippet(MODEL % dict(
        cls=cls, dims=list(dims), par=chain(lambda i: "self.p%d" % i),
        index=chain(str), f=f, kw=kw))
    types = {"sym:conf": cls, "cursor": ("ROOT.TChain",)}
    for i in range(n):
        types[(cls, "p%d" % i)] = "SpectraParameter"
    return fs, types


def before(env, what):
    """A count of the spectrum that is appended to, now and then zero."""
    return 0. if env.rnd("no " + what) < .2 else \
        10. + int(90 * env.rnd(what))


def hints():
    def par(field):
        def h(env, o):
            d = int(o.key.split(".p")[1].split(".")[0])
            return env.run.axis(d)[field]
        return h
    return {"conf": "obj", "_low": par(0), "_high": par(1), "_bins": par(2),
            "ROOT.TChain()": lambda env, o: Chain(env.run),
            "ROOT.RAT.DU.DSReader()": lambda env, o: Reader(env.run),
            "DSReader()": lambda env, o: Reader(env.run),
            "data": lambda env, o: env.run.before(),
            "decays": lambda env, o: before(env, "decays"),
            "raw": lambda env, o: before(env, "raw"),
            "flag": lambda env, o: float(env.rnd("flag") < .5),
            "fv": lambda env, o: 15. * (14 + int(10 * env.rnd("fv"))),
            "model:type": lambda env, v, kw: interp.Obj("cls:FillConf")
            if isinstance(v[0], interp.Obj) and v[0].key == "conf"
            else NotImplemented}


def fill(ctx, form, dims, opts, bipo, how, vessel):
    f = ctx.p.lookup_dotted("echidna.core.fill_spectrum.fill_from_" + form)
    kw = ""
    if bipo is not None:
        kw += ", bipo=%s" % bipo
    if opts.get("fv_radius"):
        kw += ", fv_radius=fv"
    if opts.get("external"):
        kw += ", external=True"
    fs, types = model(ctx, len(dims), dims, f.name, kw)
    r = ctx.run(fs[how], types=types)
    label = "%s %s, %s%s:" % (form, " ".join(dims), how, kw)
    names = ("raw events", "decays", "coincidence flag", "contents")
    keys = [label + k for k in names]
    t = Tally(ctx, f.where)
    got = T.val(r.ret)
    if got.op != "tuple":
        for k in keys:
            ctx.undecided(k, "the result is not one spectrum", f.where)
        return
    for s in range(ctx.n):
        env = interp.Env(s, hints())
        run = env.run = Run(env, dims, vessel)
        try:
            acc = getattr(run, form)(opts, bipo)
        except Stuck:
            continue
        bins = [run.bin(v) for v in acc]
        kept = [b for b in bins if b is not None]
        base = [before(env, "raw"), before(env, "decays"),
                float(env.rnd("flag") < .5), run.before()]
        if how == "create":
            base = [0., 0., 0., np.zeros(base[3].shape)]
        for b in kept:
            base[3][b] += 1.
        want = [base[0] + len(kept), base[1] + len(run.worlds),
                1. if bipo else base[2], base[3]]
        if bipo is not None and bipo and how == "append":
            want[2] = 1.
        try:
            stops = [e for e in r.events if e.kind == "raise" and
                     spec.escapes(e) and spec.occurrences(env, e)]
            if stops:
                for k in keys:
                    t.wrong(k, "sample %d: stops at %s" % (s,
                                                           stops[0].where))
        except Missing as x:
            for k in keys:
                t.wrong(k, "sample %d: %s" % (s, x))
            continue
        except (Stuck, Unknown) as x:
            for k in keys:
                t.unk[k] = str(x)
            continue
        for k, x, w in zip(keys, got.args[0], want):
            try:
                v = env.ev(x)
                v = env.nd(v) if isinstance(v, np.ndarray) else env.number(v)
                if np.shape(v) != np.shape(w) or not np.allclose(v, w):
                    t.wrong(k, "sample %d: of %d events %d pass every cut "
                            "and %d are in range; left is %s, expected %s" % (
                                s, len(run.worlds), len(acc), len(kept),
                                np.asarray(v).tolist(),
                                np.asarray(w).tolist()))
                t.ok(k)
            except Missing as x:
                t.wrong(k, "sample %d: %s" % (s, x))
            except (Stuck, Unknown) as x:
                t.unk[k] = str(x)
    t.close(keys, ctx.n // 5)


REFUSE = """
from echidna.core import fill_spectrum
def nameless(filename, conf):
    return fill_spectrum.%(f)s(filename, "", conf)
def shapeless(filename):
    return fill_spectrum.%(f)s(filename, "name", None)
def nothing(filename):
    return fill_spectrum.%(f)s(filename)
"""


def refuse(ctx, form):
    """A new spectrum needs a name and a configuration."""
    f = ctx.p.lookup_dotted("echidna.core.fill_spectrum.fill_from_" + form)
    fs = ctx.snippet(REFUSE % {"f": f.name})
    for name, what in (("nameless", "without a name"),
                       ("shapeless", "without a configuration"),
                       ("nothing", "with neither")):
        key = "%s: a new spectrum %s is refused" % (form, what)
        r = ctx.run(fs[name], types={"sym:conf": "SpectraConfig"})
        stops = [e for e in r.events if e.kind == "raise" and
                 spec.escapes(e)]
        t = Tally(ctx, f.where)
        for s in range(8):
            env = interp.Env(s, hints())
            env.run = Run(env, ("energy_mc",), 6000.)
            try:
                hit = [e for e in stops if spec.occurrences(env, e)]
                if hit and "ValueError" in str(hit[0].data[0]):
                    t.ok(key)
                else:
                    t.wrong(key, "sample %d: not refused" % s)
            except (Stuck, Unknown) as x:
                t.unk[key] = str(x)
        t.close([key], 3)


CASES = (
    ("ntuple", ("energy_mc", "radial3_mc"), {}, False, "append"),
    ("ntuple", ("energy_mc", "radial3_mc"), {"fv_radius": 1}, None,
     "append"),
    ("ntuple", ("energy_reco", "zradial3_reco"), {}, None, "create"),
    ("ntuple", ("energy_reco",), {"fv_radius": 1}, True, "append"),
    ("ntuple", ("energy_mc", "radial_reco"), {"external": True}, False,
     "create"),
    ("ntuple", ("energy_truth", "radial_reco"), {}, True, "append"),
    ("ntuple", ("energy_mc", "radial3_mc"), {}, True, "create"),
    ("root", ("energy_mc", "radial3_mc"), {}, False, "append"),
    ("root", ("energy_mc",), {"fv_radius": 1}, True, "create"),
    ("root", ("energy_reco", "radial_reco"), {}, None, "append"),
    ("root", ("energy_reco",), {}, True, "append"),
    ("root", ("energy_reco", "zradial3_reco"), {"fv_radius": 1}, False,
     "create"),
    ("root", ("energy_mc", "radial3_reco"), {}, False, "append"),
    ("root", ("energy_truth", "energy_reco"), {}, True, "create"),
)


def check(ctx):
    vessel = interp.Env(0).num(ctx.run(ctx.snippet(AV)["vessel"]).ret)
    for form in ("ntuple", "root"):
        with ctx.guard(form + " refused"):
            refuse(ctx, form)
    for case in CASES:
        with ctx.guard(" ".join(str(x) for x in case)):
            fill(ctx, *(case + (vessel,)))
