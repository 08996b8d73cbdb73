"""Names of pre-convolved spectra.

The directory and file name built by each parameter kind must agree with one
naming scheme; the scripts that write such files must pass the file name of
the same scheme to store.dump.  Strings are compared over random values,
directories and file names drawn by the interpretation.
"""
import ast

from .. import interp
from .. import terms as T
from ..program import Func
from .speclib import SELF

MINIMUM = 10

TEXT = """
def text(value):
    t = str(value)
    if t.endswith(".0"):
        t = t[:-2]
    return t
"""

REF = TEXT + """
def get_pre_convolved(self, directory, filename, added_dim=False):
    if self._current_value is None:
        raise ValueError("unset")
    if not directory.endswith("/"):
        directory = directory + "/"
    if added_dim:
        directory = directory + "%(kind)s/"
    else:
        parts = directory.split("/")
        last = len(parts) - parts[::-1].index(self._dimension)
        if "%(kind)s" not in parts[last:]:
            directory = directory + "%(kind)s/"
    ext = %(ext)s
    out = []
    done = False
    for x in filename[:-5].split("_"):
        if x.endswith(ext):
            out.append(text(self._current_value) + ext)
            done = True
        else:
            out.append(x)
    if not done:
        out.append(text(self._current_value) + ext)
    return directory, "_".join(out) + ".hdf5"
"""

KINDS = (("ResolutionParameter", "smear",
          '"ly" if self._current_value > 10. else "rs"'),
         ("ScaleParameter", "scale", '"sc"'),
         ("ShiftParameter", "shift", '"sh"'))

VALUES = (200., 0.05, 1., 0., 1.25, 10., 10.5, 100., 1e-10, 150.5, 0.5, None,
          0.105, 2000., 12345.678, -0.5, -10., 30., 3., 200, 5, 0, 1000)
NAMES = ("Te130.hdf5", "Te130_200ly.hdf5", "a_0.05rs_1.1sc.hdf5",
         "a_1.1sc_0.2sh_b.hdf5", "Te130_mc_200ly_2sh.hdf5", "bg_1sc.hdf5",
         "2n2b_10ly_0.05rs.hdf5", "_x_1sh.hdf5", "b_a_c.hdf5",
         "te_sc_1.0sc_a.hdf5", "bash_2sh_b.hdf5", "ly_rs_3ly_0.1rs.hdf5")
DIRS = ("/d/energy_mc", "/d/energy_mc/", "/d/energy_mc/smear/",
        "./energy_mc/smear/scale", "d/energy_mc/shift/scale/",
        "energy_mc/smear/radial3_mc/", "/d/radial3_mc/scale/energy_mc",
        "/smear/energy_mc/", "/shift/scale/energy_mc/x/",
        "/energy_mc/smear/radial3_mc/shift/energy_mc/",
        "/shifted/energy_mc/", "/scaled_up/x/energy_mc/smeared/",
        "/smeared/energy_mc/scaled")


def pick(values):
    def f(env, o):
        v = values[int(env.rnd("p", o.key) * len(values))]
        return interp.Int(v) if isinstance(v, int) else \
            interp.Flt(v) if isinstance(v, float) else v
    return f


def check(ctx):
    h = {"(world)": lambda env: None, "_current_value": pick(VALUES),
         "directory": pick(DIRS), "filename": pick(NAMES),
         "added_dim": lambda env, o: env.rnd("added") < .3,
         "_dimension": lambda env, o: "energy_mc"
         if env.rnd("dim") < .8 else "radial3_mc"}
    for cls, kind, ext in KINDS:
        r = ctx.agree(cls + ".get_pre_convolved", cls, "get_pre_convolved",
                      REF % dict(kind=kind, ext=ext), hints=h,
                      unchanged=False)
        if r:
            ctx.untouched(cls + ".get_pre_convolved:parameter", r[0], [SELF])
    writers(ctx)
    loading(ctx)


LOAD = """
import os
from echidna.output import store
def load_pre_made(self, spectrum, global_pars):
    filename = os.path.basename(spectrum._location)
    directory = os.path.dirname(spectrum._location) + "/"
    if self._pre_made_base_dir:
        directory = self._pre_made_base_dir
    for par in global_pars:
        fresh = par._dimension not in directory
        if fresh:
            directory = directory + par._dimension + "/"
        directory, filename = par.get_pre_convolved(directory, filename,
                                                    fresh)
    decays, config = spectrum._num_decays, spectrum._fit_config
    full = None
    if hasattr(spectrum, "_orig_num_decays"):
        full = spectrum._orig_num_decays
    result = store.load(directory + filename)
    if full:
        result._num_decays = full
    result.scale(decays)
    result._fit_config = config
    return result
"""


def loading(ctx):
    stop = lambda f: f.name in ("load", "get_pre_convolved")
    ctx.agree("Fit.load_pre_made", "Fit", "load_pre_made", LOAD,
              ["result._num_decays", "result._fit_config", "result._data"],
              opts=dict(opaque=stop, pure=stop, types={
                  "sym:global_pars[]": "ResolutionParameter",
                  "ret:load": "Spectra"}),
              hints={"(world)": lambda env: None,
                     "_location": pick(FILES),
                     "_pre_made_base_dir": pick((None, "/d", "/d/energy_mc/")),
                     "_dimension": pick(("energy_mc", "radial3_mc")),
                     "_num_decays": "pos", "_orig_num_decays": "pos",
                     "global_pars": lambda env, o: tuple(
                         interp.Obj("par%d" % i, "global_pars[]")
                         for i in range(1 + int(2 * env.rnd("np")))),
                     "ResolutionParameter.get_pre_convolved()": lambda env, o:
                     ("/d%d/energy_mc" % int(100 * env.rnd("d", o.key)),
                      "f%d.hdf5" % int(100 * env.rnd("f", o.key)))})


# ----------------------------------------------------------------- writers
WRITERS = (
    # script, setter, value the name must carry, path read, ending, assume
    ("dump_scaled", "Scale.set_scale_factor", "args.scale", "args.file",
     "sc", True),
    ("dump_shifted", "Shift.set_shift", "args.shift", "args.file", "sh",
     False),
    ("dump_smeared_energy", "set_resolution",
     "args.energy_resolution if args.energy_resolution else "
     "args.light_yield", "args.path",
     '" + ("rs" if args.energy_resolution else "ly") + "', True),
)

WRITTEN = TEXT + """
import os
def ref(args):
    path = %(path)s
    if %(dest)s and args.dest:
        directory = args.dest
        if directory[-1] != "/":
            directory = directory + "/"
    else:
        directory = path[:path.rfind("/") + 1]
    stem = path[path.rfind("/") + 1:path.rfind(".")]
    return directory + stem + "_" + text(%(value)s) + "%(ext)s.hdf5"

def value(args):
    return %(value)s
"""

FILES = ("/data/Te130.hdf5", "/a.b/c_0.05rs.hdf5", "d/x_1.2sc_3sh.hdf5",
         "d/Xe_200ly.hdf5", "Te130.hdf5", "Te130_2sh.hdf5")


def named(values):
    f = pick(values)
    return lambda env, o: f(env, interp.Obj(o.name, o.name))


def entry(module):
    """The function that does the script's work (main, or what runs under
    the __name__ guard)."""
    if "main" in module.functions:
        return module.functions["main"]
    body = []
    for n in module.tree.body:
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            body += n.body
    if not body:
        return None
    fn = ast.parse("def script():\n    pass").body[0]
    fn.body = body
    ast.copy_location(fn, body[0])
    return Func(module, fn)


def norm(t):
    return T.raw("call", "os.path.normpath", (T.val(t),), ())


def writers(ctx):
    h = {"(world)": lambda env: None,
         "file": named(FILES), "path": named(FILES),
         "dest": named((None, "/out", "/out/")),
         "scale": named((1.1, .95, 2., 1e-5, 120., .5, 1.05)),
         "shift": named((1.1, -.95, 2., 1e-5, 120., -.5)),
         "light_yield": named((200., 150.5, 20., 1000.)),
         "energy_resolution": named((None, .05, .1, .125))}
    conv = ("scale", "shift", "weighted_smear", "random_smear")
    for script, setter, value, path, ext, dest in WRITERS:
        key = "writer:" + script
        with ctx.guard(key):
            m = ctx.p.modules.get("echidna.scripts." + script)
            f = entry(m) if m is not None else None
            if f is None:
                ctx.undecided(key, "no such script")
                continue
            stop = lambda g: g.module.name == "echidna.output.store" or \
                g.name == setter.split(".")[-1] or g.name in conv
            r = ctx.run(f, opaque=stop, pure=stop)
            dumps = [e for e in r.kinds("call")
                     if e.data[1].args[0] == "dump" and
                     T.FALSE not in e.guards]
            sets = [e for e in r.kinds("call") if e.data[1].args[0].split(
                ".")[-1] == setter.split(".")[-1] and T.FALSE not in e.guards]
            fs = ctx.snippet(WRITTEN % dict(path=path, value=value, ext=ext,
                                            dest=dest))
            want, val = ctx.run(fs["ref"]).ret, ctx.run(fs["value"]).ret
            more = ("parse_args", "argparse.ArgumentParser")
            if not dumps:
                ctx.undecided(key, "no call to store.dump found", f.where)
            for e in dumps:
                ctx.same(key + ":name", norm(e.data[2]), norm(want),
                         "file written",
                         where=e.where, assume=e.guards, hints=h,
                         extra_vocab=more)
            if not sets:
                ctx.undecided(key + ":value", "no call of " + setter,
                              f.where)
            for e in sets:
                ctx.same(key + ":value", e.data[3], val, "value convolved",
                         where=e.where, assume=e.guards, hints=h,
                         extra_vocab=more)
