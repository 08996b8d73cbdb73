"""Configurations and parameters survive a write/read round trip.

Parameters: the value graph of "build from name and to_dict()" is compared
with the parameter it was made from.  Configurations: the reader is analysed
on the value graph the writer returns, and both are interpreted over drawn
configurations, every parameter followed by name, order, kind and values.
Files: what each file is named, what goes into it, and which file and which
name the reader hands on.
"""
from .. import interp
from .. import spec
from .. import terms as T
from ..interp import Ext, ODict, Stuck, Unknown

MINIMUM = 26

FIT = ("_name", "_prior", "_sigma", "_low", "_high", "_bins", "_logscale",
       "_base", "_logscale_deviation", "_type")
MORE_NAMES = ("current_value", "best_fit", "penalty_term")
MORE = ("_current_value", "_best_fit", "_penalty_term")
KINDS = {"ResolutionParameter": True, "ScaleParameter": True,
         "ShiftParameter": True, "RateParameter": False,
         "SpectraParameter": None}

SNIPPET = """
from echidna.core.parameter import %(cls)s
def again(name, prior, sigma, low, high, bins, dimension, logscale, base,
          deviation, cur, best, term, basic):
    p = %(make)s
    %(set)s
    q = %(load)s
    return (%(code)s)
"""


def parameter(ctx, cls, dim):
    fields = FIT if dim is not None else ("_name", "_low", "_high", "_bins",
                                          "_type")
    if dim:
        fields += ("_dimension",)
    d = "dimension=dimension, " if dim else ""
    if dim is None:
        make = "SpectraParameter(name, low, high, bins)"
    else:
        make = ("%s(name, prior, sigma, low, high, bins, %slogscale=logscale,"
                " base=base, logscale_deviation=deviation)" % (cls, d))
    states = [("all", fields + MORE, "False"), ("basic", fields, "True")]
    if dim is None:
        states = [("all", fields, "")]
    for label, fs, basic in states:
        with ctx.guard("%s:%s" % (cls, label)):
            sub = dict(cls=cls, make=make, set="pass")
            if dim is not None:
                sub["set"] = ("p._current_value = cur; p._best_fit = best; "
                              "p._penalty_term = term")
            sub["load"] = "%s(p.get_name(), %s**p.to_dict(%s))" % (
                cls, "dimension=p._dimension, " if dim else "", basic)

            def text(who):
                s = dict(sub)
                if who == "p":
                    s["load"] = "p"
                s["code"] = ", ".join("getattr(%s, %r, None)" % (who, f)
                                      for f in fs) + ","
                return SNIPPET % s
            code = ctx.run(list(ctx.snippet(text("q")).values())[-1])
            want = ctx.run(list(ctx.snippet(text("p")).values())[-1])
            ctx.functions_agree("%s:%s" % (cls, label), code, want,
                                calls=(), hints=PHINTS)


def maybe(env, o):
    r = env.rnd("none", o.key)
    return None if r < .3 else 0. if r < .45 else \
        round(1 + 8 * env.rnd("v", o.key), 2)


PHINTS = {"logscale": lambda env, o: (None, False, True)[
              int(2.99 * env.rnd("log"))],
          "deviation": maybe, "cur": maybe, "best": maybe, "term": maybe,
          "dimension": "text", "name": "text",
          "base": lambda env, o: round(2 + 8 * env.rnd("base"), 1)}


class Par(Ext):
    """One parameter of a configuration."""

    def __init__(self, name, kind, dim, i):
        self.pname, self.kind, self.dim, self.i = name, kind, dim, i

    def key(self):
        return "par%d" % self.i

    def attr(self, env, n):
        if n == "_name":
            return self.pname
        if n == "_dimension":
            return self.dim
        raise Unknown("parameter." + n)

    def call(self, env, n, args, kws):
        if n == "get_name":
            return self.pname
        if n == "get_dimension":
            return self.dim
        if n == "to_dict":
            b = args[0] if args else kws.get("basic", False)
            return written(env, interp.Obj("%s.to_dict(%s,%s)" % (
                "Parameter" if self.kind == "SpectraParameter" else
                "FitParameter", self.key(), env.key(b))))
        raise Unknown("parameter." + n)


DIMS = ("energy_mc", "energy_reco", "radial3_mc", "energy", "shift")
SYST = {"resolution": "ResolutionParameter", "shift": "ShiftParameter",
        "resolution_ly": "ResolutionParameter", "scale": "ScaleParameter"}
ISOTOPES = ("Te130_2n2b", "U238_chain", "B8_Solar", "Te130_0n2b")


def shuffled(env, tag, xs):
    return [x for _, x in sorted((env.rnd(tag, i), x)
                                 for i, x in enumerate(xs))]


def fitwide(env):
    out = []
    for d in shuffled(env, "dims", DIMS)[:int(3 * env.rnd("nd"))]:
        for s in shuffled(env, "s" + d, sorted(SYST))[
                :1 + int(2.5 * env.rnd("ns", d))]:
            out.append((d + "_" + s, SYST[s], d))
    if env.rnd("mixed") < .5:
        out = shuffled(env, "mix", out)
    return out


def rates(env, least):
    n = least + int(3 * env.rnd("nr"))
    return [(x + "_rate", "RateParameter", None)
            for x in shuffled(env, "iso", ISOTOPES)[:n]]


def axes(env, least):
    n = least + int(3 * env.rnd("na"))
    return [(d, "SpectraParameter", None)
            for d in shuffled(env, "ax", DIMS)[:n]]


def drawn(env, cls):
    """[(name, kind, dimension, group)] of the configuration, in order."""
    if cls == "SpectraConfig":
        return [x + (None,) for x in axes(env, 1)]
    if cls == "SpectraFitConfig":
        return [x + (None,) for x in rates(env, 1)]
    out = [x + ("global",) for x in fitwide(env)] + \
        [x + ("spectra",) for x in rates(env, 0)]
    if env.rnd("group") < .5:
        out = shuffled(env, "grp", out)
    return out


def grouped(pars):
    """The order of a configuration written by dimension."""
    out, dims = [], []
    for p in pars:
        if p[3] == "global" and p[2] not in dims:
            dims.append(p[2])
    for d in dims:
        out += [p for p in pars if p[3] == "global" and p[2] == d]
    return out + [p for p in pars if p[3] != "global"]


def holding(cls):
    def held(env, o):
        out = ODict()
        for i, (n, k, d, g) in enumerate(drawn(env, cls)):
            p = Par(n, k, d, i)
            if g is not None:
                p = {env.key("par"): ("par", p), env.key("type"): ("type", g)}
            out[env.key(n)] = (n, p)
        return out
    return held


def stop(f):
    s = f.short.split(".")
    return s[-1] == "to_dict" or \
        s[-1] == "__init__" and s[0].endswith("Parameter")


def instances(env, e, f):
    """f(e) for every valuation at which e happens."""
    def cb():
        err = None
        for g in e.guards:
            try:
                if not env.bool(g):
                    return None
            except (Unknown, Stuck) as x:
                err = err or x
        if err:
            raise err
        f(e)
        return None
    spec._iter_loops(env, list(e.loops), 0, cb)


def plainly(env, v):
    return env.concrete(v) if isinstance(v, interp.Obj) else v


def made(ctx, env, load):
    """{object: (class, {parameter: value})} of the parameters built."""
    out = {}
    for e in load.events:
        if e.kind != "call" or not str(e.data[1].args[0]).endswith(
                "Parameter.__init__"):
            continue
        f = ctx.p.lookup_dotted("echidna.core.parameter." + e.data[1].args[0])
        a = f.node.args
        names = [x.arg for x in a.args] + ([a.kwarg.arg] if a.kwarg else [])

        def take(e, names=names, f=f):
            o = env.key(env.ev(T.ptr(e.data[2])))
            d = {}
            for k, t in zip(names[1:], e.data[3:]):
                d[k] = env.ev(t)
            out[o] = (f.cls.name, d)
        instances(env, e, take)
    return out


VALUES = {"SpectraParameter": ("low", "high", "bins")}
FITVALUES = ("prior", "sigma", "low", "high", "bins", "logscale", "base",
             "logscale_deviation", "current_value", "best_fit",
             "penalty_term")


def signature(ctx, cls):
    f = ctx.find(cls, "__init__")
    return [x.arg for x in f.node.args.args]


def loaded(ctx, env, cls, load, field):
    """[(key, group, class, name, dimension, source of values)] in order."""
    pars = plainly(env, env.ev(field))
    if not isinstance(pars, dict):
        raise Unknown("parameters are not a mapping")
    if not isinstance(pars, ODict) and len(pars) > 1:
        return "a mapping that does not keep the order"
    built = made(ctx, env, load)
    out = []
    for _, (k, v) in pars.items():
        g = None
        v = plainly(env, v)
        if isinstance(v, dict):
            g = v[env.key("type")][1]
            v = plainly(env, v[env.key("par")][1])
        if env.key(v) not in built:
            raise Unknown("parameter made elsewhere")
        c, d = built[env.key(v)]
        src = set()
        for n in VALUES.get(c, FITVALUES):
            if n not in d:
                kw = d.get("kwargs")
                src.add(given(env, n, plainly(env, kw)))
            else:
                src.add(source(env, n, d[n]))
        out.append((k, g, c, d.get("name"), d.get("dimension"),
                    tuple(sorted(x for x in src if x))))
    return out


def given(env, n, kw):
    if isinstance(kw, dict):
        if env.key(n) in kw:
            return source(env, n, kw[env.key(n)][1])
        kw = None
    if kw is None:
        return None if n in MORE_NAMES else "%s not given" % n
    raise Unknown("keyword arguments")


def source(env, n, v):
    """Which written dictionary the value n comes from."""
    if isinstance(v, interp.Obj):
        m = str(v.key)
        for end in ("['%s']" % n, '["%s"]' % n, "[%s]" % n):
            if m.endswith(end):
                return m[:-len(end)]
        return m
    if n in MORE_NAMES and v is None:
        return None
    return "%s: %s" % (n, env.show(v))


def config(ctx, cls, basic):
    key = "%s:%s" % (cls, "basic" if basic else "all")
    with ctx.guard(key):
        opts = dict(opaque=stop, pure=stop, types=TYPES)
        args = {} if cls == "SpectraConfig" else {"basic": T.boolean(basic)}
        dump = ctx.run(ctx.find(cls, "dump"), args, selfcls=ctx.p.cls(cls),
                       **opts)
        f = ctx.find(cls, "load")
        runs = []
        if cls == "GlobalFitConfig":
            a = {"global_config": T.idx(dump.ret, T.num(0))}
            runs.append((ctx.run(f, dict(a, spectral_config=T.NONE), **opts),
                         lambda ps: [p for p in ps if p[3] == "global"]))
            a["spectral_config"] = T.idx(dump.ret, T.num(1))
            runs.append((ctx.run(f, a, **opts), lambda ps: ps))
        else:
            runs.append((ctx.run(f, {"config": dump.ret}, **opts),
                         lambda ps: ps))
        for j, (load, which) in enumerate(runs):
            compare(ctx, cls, key + (":fit-wide" if cls == "GlobalFitConfig"
                                     and j == 0 else ""), basic, load, which)


def compare(ctx, cls, key, basic, load, which):
    me = load.ret
    pf = load.field(me, "_parameters")
    nf = load.field(me, "_name")
    bad, unk, good = {}, {}, {"parameters": 0, "name": 0}
    for s in range(ctx.n):
        env = interp.Env(s, dict(HINTS, _parameters=holding(cls)))
        pars = which(drawn(env, cls))
        if cls == "GlobalFitConfig":
            pars = grouped(pars)
            if not [p for p in pars if p[3] == "spectra"] and \
                    "fit-wide" not in key:
                continue        # an empty section is refused
        ids = dict((p[0], i) for i, p in enumerate(drawn(env, cls)))
        want = [(n, g, k, n, d, "par%d" % ids[n]) for n, k, d, g in pars]
        try:
            for e in load.events:
                if e.kind == "raise" and spec.escapes(e) and \
                        spec.occurrences(env, e):
                    bad.setdefault("parameters", "sample %d: refused (%s)" % (
                        s, e.where))
            got = loaded(ctx, env, cls, load, pf)
            if isinstance(got, str) or len(got) != len(want):
                bad.setdefault("parameters", "sample %d: %s" % (
                    s, got if isinstance(got, str) else
                    "%d parameters written, %d read" % (len(want),
                                                        len(got))))
                continue
            for g, w in zip(got, want):
                if g[:5] != w[:5]:
                    bad.setdefault(
                        "parameters", "sample %d: written %s, read %s" % (
                            s, w[:5], g[:5]))
                elif len(g[5]) != 1 or w[5] not in g[5][0] or \
                        "to_dict" not in g[5][0]:
                    bad.setdefault(
                        "parameters", "sample %d: %s takes its values from "
                        "%s" % (s, w[0], g[5]))
            good["parameters"] += 1
            if env.same(env.ev(nf), env.ev(T.sym("name"))):
                good["name"] += 1
            else:
                bad.setdefault("name", "sample %d: loaded name is %s" % (
                    s, env.show(env.ev(nf))))
        except (Stuck, Unknown) as x:
            unk["parameters"] = unk["name"] = str(x) or type(x).__name__
    for l in ("parameters", "name"):
        k = "%s:%s" % (key, l)
        if l in bad:
            ctx.violate(k, bad[l], load.func.where)
        elif l in unk or good[l] < ctx.n // 5:
            ctx.undecided(k, unk.get(l, "no sample in domain"),
                          load.func.where)
        else:
            ctx.hold(k, "%d configurations agree" % good[l], load.func.where)


TYPES = {("GlobalFitConfig", "_parameters[]"): "dict", "item:par":
         "FitParameter", ("SpectraFitConfig", "_parameters[]"):
         "FitParameter", ("SpectraConfig", "_parameters[]"):
         "SpectraParameter"}


def written(env, o):
    """A parameter's dictionary: every value told apart by where it is from.
    """
    names = FITVALUES
    if o.key.startswith("Parameter.") or "SpectraParameter" in o.key:
        names = VALUES["SpectraParameter"]
    elif o.key.endswith("bTrue)"):
        names = FITVALUES[:8]
    return ODict((env.key(n), (n, interp.Obj("%s[%s]" % (o.key, n))))
                 for n in names)


HINTS = {"name": "text", "FitParameter.to_dict()": written,
         "Parameter.to_dict()": written}


class Stream(Ext):
    def __init__(self, name, mode):
        self.fname, self.mode = name, mode

    def key(self):
        return "file(%s)" % self.fname

    def call(self, env, n, args, kws):
        if n == "__enter__":
            return self
        if n in ("close", "flush", "__exit__"):
            return None
        raise Unknown("file." + n)


def opened(env, vals, kws):
    mode = vals[1] if len(vals) > 1 else kws.get("mode", "r")
    if not isinstance(vals[0], str) or not isinstance(mode, str):
        raise Unknown("file name")
    return Stream(vals[0], mode)


def among(tag, *xs):
    return lambda env, o=None: xs[int(len(xs) * env.rnd("among", tag) * .999)]


FILES = {"path": among("path", "", "/data/run.v1/", "results/"),
         "_name": among("own", "unnamed", "te130.fit"),
         "model:open": opened, "model:io.open": opened,
         "ordered_load()": lambda env, o: interp.Obj("text " + o.key)}
SLOTS = {"SpectraConfig": (("filename", "spectra_config"),),
         "SpectraFitConfig": (("spectral_fname", "spectral_fit_config"),),
         "GlobalFitConfig": (("global_fname", "global_fit_config"),
                             ("spectral_fname", "spectral_fit_config"))}
READS = {"SpectraConfig": (("filename", "config"),),
         "SpectraFitConfig": (("filename", "config"),),
         "GlobalFitConfig": (("filename", "global_config"),
                             ("sf_filename", "spectral_config"))}


def stopfile(f):
    return f.short.split(".")[-1] in ("dump", "load", "ordered_dump",
                                      "ordered_load")


class Verdict(object):
    def __init__(self, ctx, key, where):
        self.ctx, self.key, self.where = ctx, key, where
        self.bad = self.unk = None
        self.good = 0

    def wrong(self, msg):
        self.bad = self.bad or msg

    def close(self):
        if self.bad:
            self.ctx.violate(self.key, self.bad, self.where)
        elif self.unk or self.good < self.ctx.n // 5:
            self.ctx.undecided(self.key, self.unk or "no sample in domain",
                               self.where)
        else:
            self.ctx.hold(self.key, "%d interpretations agree" % self.good,
                          self.where)


def same_text(env, t, want):
    return env.same(env.ev(t), want)


def writes(ctx, cls):
    f = ctx.find(cls, "dump_to_file")
    r = ctx.run(f, selfcls=ctx.p.cls(cls), opaque=stopfile, pure=stopfile)
    v = Verdict(ctx, "%s:file written" % cls, f.where)
    parts = tuple(interp.Obj("part %d" % i)
                  for i in range(len(SLOTS[cls])))
    for s in range(ctx.n):
        h = dict(FILES)
        names = {}
        for p, d in SLOTS[cls]:
            x = among(p, None, "", "mine", "mine.yml", "my.v2")(
                interp.Env(s))
            h[p] = lambda env, o, x=x: x
            names[p] = x
        h[cls + ".dump()"] = lambda env, o: parts if len(parts) > 1 \
            else parts[0]
        env = interp.Env(s, h)
        try:
            want = {}
            for (p, d), part in zip(SLOTS[cls], parts):
                x = d if names[p] is None else \
                    h["_name"](env) if names[p] == "" else names[p]
                if not x.endswith(".yml"):
                    x += ".yml"
                want[h["path"](env) + x] = part.key
            if len(want) < len(parts):
                continue
            got = {}

            def take(e):
                d, st = e.data[2:4]
                st = plainly(env, env.ev(st))
                if st is None:
                    return
                if not isinstance(st, Stream):
                    raise Unknown("stream")
                got[st.fname] = env.key(env.ev(d)) \
                    if st.mode.startswith(("w", "x")) else "mode " + st.mode
            for e in r.events:
                if e.kind == "call" and str(e.data[1].args[0]) == \
                        "ordered_dump":
                    instances(env, e, take)
                if e.kind == "raise" and spec.escapes(e) and \
                        spec.occurrences(env, e):
                    v.wrong("sample %d: refused (%s)" % (s, e.where))
            if got != want:
                v.wrong("sample %d: files %s expected, %s written" % (
                    s, want, got))
            v.good += 1
        except (Stuck, Unknown) as x:
            v.unk = str(x) or "stuck"
    v.close()


def reads(ctx, cls):
    f = ctx.find(cls, "load_from_file")
    r = ctx.run(f, opaque=stopfile, pure=stopfile)
    g = ctx.find(cls, "load")
    params = [x.arg for x in g.node.args.args]
    v = Verdict(ctx, "%s:file read" % cls, f.where)
    for s in range(ctx.n):
        h = dict(FILES)
        e0 = interp.Env(s)
        file = among("f", "a.yml", "/data/run.v1/fit.yml", "x/y.z.yml",
                     "conf/name")(e0)
        if file == "conf/name":
            file = "conf/name.yaml"
        other = among("sf", None, "", "rates.yml")(e0)
        name = among("n", None, "", "given")(e0)
        for k, x in (("filename", file), ("sf_filename", other),
                     ("name", name)):
            h[k] = lambda env, o, x=x: x
        h["spectra_name"] = lambda env, o: "an isotope"
        env = interp.Env(s, h)
        try:
            stem = file[file.rfind("/") + 1:file.rfind(".")]
            want = {}
            for (p, q) in READS[cls]:
                x = file if p == "filename" else other
                want[q] = "text ordered_load(file(%s))" % x if x else None
            if cls == "SpectraFitConfig":
                want["spectra_name"] = "an isotope"
            nd = len(g.node.args.defaults)
            dflt = dict(zip(params[-nd:], g.node.args.defaults))
            want["name"] = name if name else stem if name == "" else \
                getattr(dflt.get("name"), "value", None)
            calls = []

            def take(e):
                calls.append(dict(zip(params, [
                    plainly(env, env.ev(x)) for x in e.data[2:]])))
            for e in r.events:
                if e.kind == "call" and str(e.data[1].args[0]) == \
                        cls + ".load":
                    instances(env, e, take)
                if e.kind == "raise" and spec.escapes(e) and \
                        spec.occurrences(env, e):
                    v.wrong("sample %d: refused (%s)" % (s, e.where))
            ret = plainly(env, env.ev(r.ret))
            if len(calls) != 1 or not isinstance(ret, interp.Obj) or \
                    not ret.key.startswith(cls + ".load("):
                v.wrong("sample %d: %d configurations loaded" % (
                    s, len(calls)))
                continue
            got = dict((k, x.key if isinstance(x, interp.Obj) else x)
                       for k, x in calls[0].items() if k in want)
            for k in want:
                a, b = got.get(k), want[k]
                if isinstance(a, str) and isinstance(b, str) and \
                        b.startswith("text "):
                    b_ = b[len("text ordered_load(") - 0:-1]
                    if not a.startswith("text ordered_load(") or \
                            b_ not in a:
                        v.wrong("sample %d: %s is %s" % (s, k, a))
                elif a != b:
                    v.wrong("sample %d: %s is %r instead of %r" % (
                        s, k, a, b))
            v.good += 1
        except (Stuck, Unknown) as x:
            v.unk = str(x) or "stuck"
    v.close()


KEYS = {"SpectraConfig": "parameters",
        "SpectraFitConfig": "spectral_fit_parameters",
        "GlobalFitConfig": "spectral_fit_parameters"}


def mapping(env, pairs):
    return ODict((env.key(k), (k, v)) for k, v in pairs)


def refuses(ctx, cls):
    """Text without the section asked for, or with a quantity of no known
    kind, is refused; nothing else is."""
    f = ctx.find(cls, "load")
    r = ctx.run(f, opaque=stop, pure=stop, types=TYPES)
    v = Verdict(ctx, "%s:refuses" % cls, f.where)
    for s in range(ctx.n):
        e0 = interp.Env(s)
        env = interp.Env(s, {})
        pars = mapping(env, [(n, interp.Obj("values")) for n in (
            "low", "high", "bins", "prior", "sigma", "logscale", "base",
            "logscale_deviation")])
        how = among("how", "good", "absent", "odd", "empty", "odd wide",
                    "absent wide", "no spectral")(e0)
        names = ["Te130_rate", "U238_rate"]
        bad = None
        if how == "odd" and cls != "SpectraConfig":
            names.insert(int(2.9 * e0.rnd("at")), "Te130_shape")
            bad = "IndexError"
        body = [(n, pars) for n in names]
        if how == "empty":
            body, bad = [], "KeyError"
        key = KEYS[cls]
        if how == "absent":
            key, bad = "fit_parameters", "KeyError"
        h = {"config": mapping(env, [(key, mapping(env, body))]),
             "spectral_config": mapping(env, [(key, mapping(env, body))])}
        wide = [("shift", pars), ("resolution_ly", pars), ("scale", pars)]
        wkey = "global_fit_parameters"
        if cls == "GlobalFitConfig":
            if how == "odd wide":
                wide.insert(int(3.9 * e0.rnd("at")), ("rate", pars))
                bad = "IndexError"
            if how == "absent wide":
                wkey, bad = "spectral_fit_parameters", "KeyError"
            if how == "no spectral":
                h["spectral_config"] = None
        h["global_config"] = mapping(env, [(wkey, mapping(env, [
            ("energy", mapping(env, wide))]))])
        env = interp.Env(s, dict((k, (lambda env, o, x=x: x))
                                 for k, x in h.items()))
        try:
            got = None
            for e in sorted((e for e in r.events if e.kind == "raise" and
                             spec.escapes(e)), key=lambda e: e.seq):
                if spec.occurrences(env, e):
                    got = str(e.data[0].args[0])
                    break
            if (got is None) != (bad is None) or got is not None and \
                    bad != got:
                v.wrong("sample %d: %s text %s" % (
                    s, how, "accepted" if got is None else
                    "refused with " + got))
            v.good += 1
        except (Stuck, Unknown) as x:
            v.unk = str(x) or "stuck"
    v.close()


def check(ctx):
    for cls, dim in sorted(KINDS.items()):
        parameter(ctx, cls, dim)
    config(ctx, "SpectraConfig", False)
    for cls in ("SpectraFitConfig", "GlobalFitConfig"):
        for basic in (False, True):
            config(ctx, cls, basic)
    for cls in sorted(SLOTS):
        with ctx.guard(cls + ":file written"):
            writes(ctx, cls)
        with ctx.guard(cls + ":refuses"):
            refuses(ctx, cls)
        with ctx.guard(cls + ":file read"):
            reads(ctx, cls)
