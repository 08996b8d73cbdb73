"""A spectrum written to file reads back as the same spectrum."""
from .. import terms as T
from .speclib import SPEC
from .storelib import RoundTrip, Node, Data, Skip

MINIMUM = 12

ITEMS = ("_name", "_config", "_fit_config", "_num_decays", "_raw_events",
         "_bipo", "_rois", "_background_name", "_data", "_style")

CONFIGS = ("SpectraConfig", "SpectraFitConfig", "GlobalFitConfig")

REF = """
from echidna.core.config import SpectraConfig, SpectraFitConfig
def config(spectrum):
    c = spectrum.get_config()
    return SpectraConfig.load(c.dump(), name=c.get_name())

def fit_config(spectrum):
    c = spectrum.get_fit_config()
    if c is None:
        return None
    return SpectraFitConfig.load(c.dump(), spectrum.get_name(),
                                 name=c.get_name())

def background(spectrum):
    return spectrum.get_background_name()

def roi(spectrum, dim):
    return spectrum.get_roi(dim)
"""


def stop(f):
    s = f.short.split(".")
    return s[-1] in ("load", "dump") and s[0] in CONFIGS or \
        s[-1] == "_load_old"


OPTS = dict(opaque=stop, pure=stop,
            types={"sym:spectrum": "Spectra",
                   ("Spectra", "_fit_config"): "SpectraFitConfig"})

NAMES = ("Te130_0n2b_mc", "B8_reco", "U238_mix", "signal", "klz_mc_x")


def name(env, o):
    return NAMES[int(len(NAMES) * env.rnd("name", o.key))]


def background(env, o):
    r = env.rnd("bg", o.key)
    return None if r < .4 else ("Te130_0n2b", "B8", "")[int(r * 10) % 3]


def rois(env, o):
    r = env.rnd("rois", o.key)
    if r < .3:
        return {}
    out = {"energy_mc": ("energy_mc", (2.1, 2.6 + round(r, 2)))}
    if r > .6:
        out["radial3_reco"] = ("radial3_reco", (0., .35))
    return out


def style(env, o):
    r = env.rnd("style", o.key)
    if r < .5:
        return {"color": ("color", "red")}
    return {"color": ("color", "blue"), "title": ("title", "t%.2f" % r)}


def number(env, o):
    r = env.rnd("nr", o.key)
    return 0. if r < .15 else round(1000 * r, 2)


HINTS = dict(_name=name, _background_name=background, _rois=rois,
             _style=style, _num_decays=number, _raw_events=number,
             _bipo=lambda env, o: float(int(2 * env.rnd("bipo"))),
             _config="obj", append=lambda env, o: env.rnd("ap") < .5,
             overwrite=lambda env, o: env.rnd("over") < .7,
             _data=lambda env, o: __import__("numpy").array(
                 [round(env.rnd("d", i), 3) for i in range(3)]),
             _fit_config=lambda env, o: None if env.rnd("fc") < .4 else
             __import__("sa.interp").interp.Obj("the fit config", "fitconf"), fitconf="obj")
HINTS.update({"SpectraConfig.load()": "obj", "SpectraFitConfig.load()": "obj",
              "SpectraConfig.dump()": "obj", "SpectraFitConfig.dump()": "obj",
              "GlobalFitConfig.dump()": "obj", "dump()": "obj"})


OLD = "old"


def earlier(env, files):
    """An earlier version of the spectrum and something else in the file."""
    root = files.open(env, ["there"], {})
    root = files.d.setdefault(env.key(env.ev(T.sym("file_path"))), root)
    if env.rnd("earlier") < .4:
        return
    g = root.sub["spectrum"] = Node("/spectrum")
    g.attrs.write(env, "fit_config", "old")
    g.attrs.write(env, "fit_config_name", "old")
    g.attrs.write(env, "name", "old")
    g.sub["data"] = Data(OLD)
    root.sub["other"] = Node("/other")


def there(env, files):
    """Is the earlier spectrum to be kept, and the one in the file now?"""
    root = files.d[env.key(env.ev(T.sym("file_path")))]
    keep = env.rnd("earlier") >= .4 and env.bool(T.sym("append")) and \
        not env.bool(T.sym("overwrite"))
    return keep, root, root.sub.get("spectrum")


def same(node):
    data = node.sub.get("data") if node else None
    return data is not None and data.value is OLD


def kept(env, files):
    """What else is in the file survives when appending."""
    keep, root, now = there(env, files)
    if env.rnd("earlier") >= .4 and env.bool(T.sym("append")) and \
            "other" not in root.sub:
        return "appending drops the other content of the file"
    if keep and not same(now):
        return "appending replaces the spectrum of the file unasked"


def refuse(env, files):
    """Appending where there is a spectrum, without overwriting, may fail."""
    keep, root, now = there(env, files)
    return keep and same(now)


def check(ctx):
    with ctx.guard("spectrum"):
        p = ctx.p
        dump = ctx.run(p.lookup_dotted("echidna.output.store.dump"), **OPTS)
        load = ctx.run(p.lookup_dotted("echidna.output.store.load"), **OPTS)
        refs = ctx.snippet(REF)
        special = {}
        for k, f in (("_config", "config"), ("_fit_config", "fit_config"),
                     ("_background_name", "background")):
            special[k] = ctx.run(refs[f], **OPTS).ret
        items = []
        for a in ITEMS:
            want = special.get(a)
            if want is None:
                want = T.raw("attr", SPEC, a)
            items.append((a.strip("_"), want, load.field(load.ret, a)))
        RoundTrip(ctx, dump, load, items, HINTS, old=("_load_old",),
                  stale=earlier, after=kept,
                  refuse=refuse).go("spectrum")
        # writing changes nothing of the spectrum but its derived name
        ctx.untouched("dump:spectrum", dump, [SPEC],
                      allow=("_background_name",))
