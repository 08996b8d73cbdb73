"""Extractors exist for each dimension and agree with their siblings.

Each supported dimension is built through the factory and its four methods
are analysed on arbitrary events of both input formats; whether an event is
used, and with which value, is compared with one description of the nine
dimensions.
"""
import copy
import math

from .. import interp
from .. import spec
from ..interp import Stuck, Unknown
from .c21 import Tally

MINIMUM = 100

DIMENSIONS = tuple(q + "_" + k for q in ("energy", "radial", "radial3",
                                         "zradial3") for k in ("mc", "reco"))
DIMENSIONS += ("energy_truth",)
CLASSES = {"energy_mc": "EnergyExtractMC", "energy_reco": "EnergyExtractReco",
           "energy_truth": "EnergyExtractTruth",
           "radial_mc": "RadialExtractMC", "radial_reco": "RadialExtractReco",
           "radial3_mc": "Radial3ExtractMC",
           "radial3_reco": "Radial3ExtractReco",
           "zradial3_mc": "ZRadial3ExtractMC",
           "zradial3_reco": "ZRadial3ExtractReco"}
AV = """
import echidna.calc.constants as const
def vessel():
    return const._av_radius
"""

USES = """
from echidna.core.dsextract import function_factory
from echidna.core import dsextract

def used_root(part, ds, fv, outer):
    return %(make)s.get_valid_root(part, ds)

def value_root(part, ds, fv, outer):
    return %(make)s.get_value_root(part)

def used_ntuple(entry, fv, outer):
    return %(make)s.get_valid_ntuple(entry)

def value_ntuple(entry, fv, outer):
    return %(make)s.get_value_ntuple(entry)

def called(fv, outer):
    return %(make)s._name
"""


def coin(env, *k):
    return env.rnd(*k) < .6


class Position(interp.Ext):
    def __init__(self, tag, xyz):
        self.name, self.xyz = tag, xyz

    def key(self):
        return self.name

    def item(self, env, i):
        return self.xyz[env.integer(i)]

    def call(self, env, name, args, kws):
        x, y, z = self.xyz
        m = math.sqrt(x * x + y * y + z * z)
        got = {"Mag": m, "R": m, "Mag2": m * m, "X": x, "Y": y, "Z": z,
               "x": x, "y": y, "z": z, "Perp": math.hypot(x, y),
               "Pt": math.hypot(x, y), "Px": x, "Py": y, "Pz": z,
               "Rho": math.hypot(x, y), "CosTheta": z / m}.get(name)
        if got is None:
            raise Unknown("position." + name)
        return got


class Missing(Stuck):
    """A question to an object of another kind."""


METHODS = {"vertex": "ContainsPosition ValidPosition ContainsEnergy "
           "ValidEnergy GetEnergy GetPosition ContainsTime ValidTime",
           "event": "DefaultFitVertexExists GetDefaultFitVertex GetNhits",
           "particle": "GetPosition GetKineticEnergy",
           "mc": "GetMCParticleCount GetMCParticle "
           "GetScintQuenchedEnergyDeposit GetScintEnergyDeposit",
           "ds": "GetEVCount GetEV GetMC"}


class Part(interp.Ext):
    """An object of the event model: methods answer from a table."""

    def __init__(self, tag, table):
        self.name, self.table = tag, table

    def key(self):
        return self.name

    def call(self, env, name, args, kws):
        if name not in self.table:
            if any(name in v.split() for v in METHODS.values()):
                raise Missing("%s has no %s" % (self.name, name))
            raise Unknown("%s.%s" % (self.name, name))
        v = self.table[name]
        if callable(v):
            return v(*[env.integer(x) for x in args])
        if args:
            raise Stuck("arguments")
        return v


class World(object):
    """One event, as both formats present it."""
    tag = ""

    def __init__(self, env):
        self.env = env
        d = self.pick
        self.radius = 15. * (14 + int(10 * env.rnd("fv")))
        self.true = self.place("true")
        self.n = int(2.6 * env.rnd("evs"))
        self.nmc = int(1.5 + 1.2 * env.rnd("mcs")) - (env.rnd("none") < .15)
        self.energy = {"quenched": d("eq"), "deposit": d("ed")}
        self.ev = [dict(at=self.place("ev", i), fit=coin(env, "fit", i),
                        hasp=coin(env, "hp", i), okp=coin(env, "vp", i),
                        hase=coin(env, "he", i), oke=coin(env, "ve", i),
                        energy=0. if env.rnd("neg", i) < .1 else
                        d("en", i) - (2. if env.rnd("neg", i) < .2 else 0.))
                   for i in range(3)]

    def seen(self, i):
        """The same event as its i-th reconstruction shows it."""
        w = copy.copy(self)
        w.ev = [self.ev[i]] + self.ev
        w.all = self
        return w

    def pick(self, *k):
        return round(.5 + 3 * self.env.rnd(*k), 4)

    def place(self, *k):
        """Somewhere: inside, on or outside the fiducial sphere."""
        r = self.env.rnd("r", *k)
        s = self.radius / 15.
        x = [2., 10., 11.]
        if r < .35:
            x = [x[0] * .6, x[1] * .5, x[2] * .9]
        elif r < .6:
            x = [x[0] * 1.5, x[1] * 1.4, x[2]]
        x = [y * s for y in x]
        k2 = int(3 * self.env.rnd("rot", *k))
        x = x[k2:] + x[:k2]
        x = [y if self.env.rnd("sgn", i, *k) < .5 else -y
             for i, y in enumerate(x)]
        flat = self.env.rnd("flat", *k)
        if flat < .2:
            x[2] = 0. if flat < .1 else .5 if flat < .15 else -.5
        return x

    # ---- the event model of the ROOT files
    def vertex(self, i):
        e = self.ev[i]
        return Part(self.tag + "vertex%d" % i, {
            "ContainsPosition": e["hasp"], "ValidPosition": e["okp"],
            "ContainsEnergy": e["hase"], "ValidEnergy": e["oke"],
            "GetEnergy": e["energy"],
            "ContainsTime": coin(self.env, "ht", i),
            "ValidTime": coin(self.env, "vt", i),
            "GetPosition": Position(self.tag + "at%d" % i, e["at"])})

    def event(self, i):
        if not 0 <= i < max(self.n, 1):
            raise Stuck("no such event")
        return Part(self.tag + "event%d" % i, {
            "DefaultFitVertexExists": self.ev[i]["fit"],
            "GetDefaultFitVertex": self.vertex(i),
            "GetNhits": 100. + i})

    def particle(self, i):
        if not 0 <= i < self.nmc:
            raise Stuck("no such particle")
        at = self.true if i == 0 else self.place("other", i)
        return Part(self.tag + "particle%d" % i, {
            "GetPosition": Position(self.tag + "true%d" % i, at),
            "GetKineticEnergy": self.pick("ke", i)})

    def mc(self):
        return Part(self.tag + "mc", {
            "GetMCParticleCount": float(self.nmc),
            "GetMCParticle": self.particle,
            "GetScintQuenchedEnergyDeposit": self.energy["quenched"],
            "GetScintEnergyDeposit": self.energy["deposit"]})

    def ds(self):
        return Part(self.tag + "ds", {"GetEVCount": float(self.n),
                           "GetEV": self.event, "GetMC": self.mc()})


class Entry(interp.Ext):
    """A row of an ntuple."""
    name = "entry"

    def __init__(self, w):
        env = w.env
        r = env.rnd("scint")
        self.f = {"mcPosx": w.true[0], "mcPosy": w.true[1],
                  "mcPosz": w.true[2],
                  "mcEdepQuenched": w.energy["quenched"],
                  "mcEdep": w.energy["deposit"],
                  "posx": w.ev[0]["at"][0], "posy": w.ev[0]["at"][1],
                  "posz": w.ev[0]["at"][2], "energy": w.ev[0]["energy"],
                  "scintFit": 1. if r < .7 else 0. if r < .9 else 2.,
                  "mc": 1. if env.rnd("ismc") < .7 else 0.}

    def key(self):
        return "entry"

    def attr(self, env, name):
        if name in self.f:
            return self.f[name]
        return round(7 * env.rnd("field", name), 3)


def mag(x):
    return math.sqrt(sum(y * y for y in x))


class Oracle(object):
    """What is used of an event, and its value, in one dimension."""

    def __init__(self, dim, opts, outer, vessel):
        self.what, self.kind = dim.rsplit("_", 1)
        self.opts = opts
        self.outer = outer if opts.get("outer_radius") else vessel
        mc = self.kind != "reco"
        self.recopos = opts.get("reco_pos") or not mc and not opts.get(
            "mc_pos") or mc and opts.get("external")

    def inside(self, w, at):
        return not self.opts.get("fv_radius") or mag(at) < w.radius - 1e-6

    def used_ntuple(self, w):
        e = Entry(w).f
        fv = self.opts.get("fv_radius")
        if self.kind == "reco":
            if e["scintFit"] != 1 or self.what == "energy" and \
                    not e["energy"] > 0:
                return False
        else:
            if e["mc"] != 1 or self.opts.get("external") and \
                    e["scintFit"] != 1:
                return False
            if fv and self.recopos and e["scintFit"] != 1:
                return False
        return self.inside(w, w.ev[0]["at"] if self.recopos else w.true)

    def mixed(self, w):
        """One simulated event with several fitted ones, cut on those."""
        return self.kind != "reco" and self.recopos and w.n > 1 and \
            self.opts.get("fv_radius") and w.nmc > 0

    def used_root(self, w):
        e = w.ev[0]
        fv = self.opts.get("fv_radius")
        if self.kind == "reco":
            if self.what == "energy":
                ok = e["fit"] and e["hase"] and e["oke"]
                if ok and fv and self.recopos and not (
                        e["hasp"] and e["okp"]):
                    raise Stuck("position of an unfitted event")
            else:
                ok = e["fit"] and e["hasp"] and e["okp"]
            if not ok:
                return False
        else:
            if self.opts.get("external") and w.n == 0:
                return False
            if w.nmc == 0:
                return False
            if fv and self.recopos:
                if w.n > 1:
                    raise Stuck("several events of one simulated one")
                if w.n == 0 or not (e["fit"] and e["hasp"] and e["okp"]):
                    return False
        if fv and not self.recopos and w.nmc == 0:
            raise Stuck("no true position")
        return self.inside(w, e["at"] if self.recopos else w.true)

    def value(self, w):
        if self.kind == "reco":
            if self.what == "energy":
                return w.ev[0]["energy"]
            at = w.ev[0]["at"]
        elif self.what == "energy":
            return w.energy["quenched" if self.kind == "mc" else "deposit"]
        else:
            at = w.true
        r = mag(at)
        if self.what == "radial":
            return r
        v = (r / self.outer) ** 3
        return -v if self.what == "zradial3" and at[2] < 0. else v


def hints(env_world):
    def w(env):
        if not hasattr(env, "world"):
            env.world = World(env)
        return env.world
    return {"entry": lambda env, o: Entry(w(env)),
            "ds": lambda env, o: w(env).ds(),
            "part": lambda env, o: w(env).mc() if env_world == "mc"
            else w(env).event(0),
            "fv": lambda env, o: w(env).radius,
            "outer": lambda env, o: 800. + 100 * int(9 * env.rnd("out"))}


class Fails(Exception):
    pass


def plain(env, r):
    """What the call gives; every question it asks has an answer."""
    if r.ret is None:
        raise Fails("it never answers")
    try:
        return env.ev(r.ret)
    except Stuck as x:
        raise Fails(str(x))


def dimension(ctx, dim, opts, direct, vessel):
    kw = ", ".join("%s=%s" % (k, {"fv_radius": "fv", "outer_radius": "outer"}
                              .get(k, str(v)))
                   for k, v in sorted(opts.items()))
    if direct:
        make = "dsextract.%s(%s)" % (CLASSES[dim], kw)
    else:
        make = "function_factory(%r%s)" % (dim, ", " + kw if kw else "")
    fs = ctx.snippet(USES % {"make": make})
    label = "%s(%s):" % (dim, ", ".join(sorted(opts)))
    where = ctx.p.cls(CLASSES[dim])
    where = "echidna/core/dsextract.py " + CLASSES[dim] if where else ""
    t = Tally(ctx, where)
    names = ("used_root", "value_root", "used_ntuple", "value_ntuple",
             "called")
    runs = dict((k, ctx.run(fs[k])) for k in names)
    keys = dict((k, label + k.replace("_", " in a ")) for k in names)
    forbidden = opts.get("external") and (
        dim.endswith("_mc") and dim != "energy_mc" or opts.get("mc_pos"))
    part = "ev" if dim.endswith("reco") else "mc"
    if forbidden:
        names = ("called",)
    for s in range(2 * ctx.n):
        env = interp.Env(s, hints(part))
        outer = 800. + 100 * int(9 * env.rnd("out"))
        oracle = Oracle(dim, opts, outer, vessel)
        w = env.world = World(env)
        for k in names:
            try:
                r = runs[k]
                stops = [e for e in r.events if e.kind == "raise" and
                         spec.escapes(e) and spec.occurrences(env, e)]
                if k == "called":
                    if bool(stops) != bool(forbidden):
                        t.wrong(keys[k], "%s is %s" % (
                            make, "rejected" if stops else "accepted, "
                            "though true positions of external events do "
                            "not exist"))
                    elif not forbidden and plain(env, r) != dim:
                        t.wrong(keys[k], "%s fills %s" % (
                            make, env.show(env.ev(r.ret))))
                    t.ok(keys[k])
                    continue
                what, form = k.split("_")
                if what == "used" and form == "root" and \
                        oracle.mixed(w):
                    if not stops:
                        t.wrong(keys[k], "sample %d: one simulated event "
                                "with %d fitted ones is not refused" % (
                                    s, w.n))
                    continue
                used = getattr(oracle, "used_" + form)(w)
                if what == "value":
                    if not used:
                        continue
                    want = oracle.value(w)
                    got = plain(env, r)
                    if stops or abs(got - want) > 1e-7 * abs(want) + 1e-12:
                        t.wrong(keys[k], "sample %d: true position %s, "
                                "fitted %s: value %s, expected %s" % (
                                    s, w.true, w.ev[0]["at"], got, want))
                else:
                    if stops:
                        t.wrong(keys[k], "sample %d: stops at %s" % (
                            s, stops[0].where))
                    got = env.truth(plain(env, r))
                    if got != used:
                        t.wrong(keys[k], "sample %d: %s, expected %s "
                                "(|true| %.6g, |fitted| %.6g, radius %.6g, "
                                "%d event(s), %d particle(s), fit %s)" % (
                                    s, "used" if got else "not used",
                                    "use" if used else "none", mag(w.true),
                                    mag(w.ev[0]["at"]), w.radius, w.n, w.nmc,
                                    w.ev[0]))
                t.ok(keys[k])
            except Fails as x:
                t.wrong(keys[k], "sample %d: fails (%s) though %d event(s), "
                        "%d particle(s), fit %s" % (
                            s, x, w.n, w.nmc, w.ev[0]))
            except Stuck:
                pass
            except Unknown as x:
                t.unk[keys[k]] = str(x)
    t.close([keys[k] for k in names], ctx.n // 12)


NAMED = """
from echidna.core.dsextract import function_factory
def named(dimension):
    return function_factory(dimension)._name
"""
OTHERS = ("energy", "radial", "mc", "reco", "energy_mc ", "Energy_mc",
          "radial_truth", "radial3_truth", "zradial_mc", "zradial3", "",
          "energy_reco_mc", "nhit_reco", "pos_x", "radial4_mc")


def factory(ctx):
    fs = ctx.snippet(NAMED)
    r = ctx.run(fs["named"])
    f = ctx.find("echidna.core.dsextract", "function_factory")
    keys = ["factory:supported", "factory:unsupported"]
    t = Tally(ctx, f.where)
    for d in DIMENSIONS + OTHERS:
        env = interp.Env(0, {"dimension": lambda env, o: d})
        k = keys[d not in DIMENSIONS]
        try:
            stops = [e for e in r.events if e.kind == "raise" and
                     spec.escapes(e) and spec.occurrences(env, e)]
            if bool(stops) != (d not in DIMENSIONS):
                t.wrong(k, "%r is %s" % (d, "rejected" if stops
                                         else "accepted"))
            elif d in DIMENSIONS and env.ev(r.ret) != d:
                t.wrong(k, "%r gives the extractor of %s" % (
                    d, env.show(env.ev(r.ret))))
            t.ok(k)
        except (Stuck, Unknown) as x:
            t.unk[k] = str(x)
    t.close(keys, 9)


def check(ctx):
    with ctx.guard("factory"):
        factory(ctx)
    vessel = interp.Env(0).num(ctx.run(ctx.snippet(AV)["vessel"]).ret)
    for dim in DIMENSIONS:
        combos = [({}, False), ({"fv_radius": 1}, False),
                  ({"external": True}, False),
                  ({"external": True, "fv_radius": 1}, False),
                  ({"external": False, "fv_radius": 1,
                    "outer_radius": 1}, False),
                  ({"outer_radius": 1}, False)]
        pos = "mc_pos" if dim.endswith("reco") else "reco_pos"
        combos += [({pos: True, "fv_radius": 1}, True),
                   ({pos: True}, True)]
        if pos == "mc_pos":
            combos.append(({pos: True, "external": True}, True))
        for opts, direct in combos:
            with ctx.guard("%s(%s)" % (dim, ", ".join(sorted(opts)))):
                dimension(ctx, dim, opts, direct, vessel)
