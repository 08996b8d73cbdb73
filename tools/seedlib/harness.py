"""Load the package under the interpreter at hand, in a scratch directory.

The package is Python 2 code; modules that need it are translated with
lib2to3 into a temporary copy, which is removed at exit.  Third-party
libraries that are not installed are replaced by small stand-ins.
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import types
import warnings

import numpy

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
ROOT = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, TMP, True)


def _translate():
    shutil.copytree(os.path.join(ROOT, "echidna"),
                    os.path.join(TMP, "echidna"),
                    ignore=lambda d, names: [
                        n for n in names if n.endswith(".pyc") or
                        n == "__pycache__" or n.startswith("test_") and
                        os.path.basename(d) == "test"])
    from lib2to3 import refactor
    names = ["lib2to3.fixes.fix_" + n for n in (
        "print", "except", "basestring", "xrange", "raw_input", "has_key",
        "ne", "exec", "unicode", "dict", "map", "filter", "metaclass",
        "raise", "long", "zip", "itertools", "itertools_imports")]
    tool = refactor.RefactoringTool(names)
    for base, _, files in os.walk(os.path.join(TMP, "echidna")):
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(base, f)
            with open(p, encoding="utf-8") as h:
                s = h.read()
            s = s.expandtabs(8)
            if not s.endswith("\n"):
                s += "\n"
            try:
                s = str(tool.refactor_string(s, p))
            except Exception:
                continue
            with open(p, "w", encoding="utf-8") as h:
                h.write(s)


class Anything(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = Anything(self.__name__ + "." + name)
        setattr(self, name, m)
        return m

    def __call__(self, *a, **k):
        return Anything("call")


def stub(name, **kw):
    m = Anything(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        if p not in sys.modules:
            stub(p)
        setattr(sys.modules[p], c, m)
    return m


class Spline(object):
    """Stand-in for scipy.interpolate.InterpolatedUnivariateSpline."""

    def __init__(self, x, y, k=3):
        self.x, self.y = numpy.asarray(x), numpy.asarray(y)

    def __call__(self, v):
        return numpy.interp(v, self.x, self.y)


def spectrum(axes, fill=None, name="spec", decays=100.):
    """A spectrum with parameters {name: (low, high, bins)}."""
    from echidna.core.spectra import Spectra
    from echidna.core.config import SpectraConfig
    from echidna.core.parameter import SpectraParameter
    from collections import OrderedDict
    pars = OrderedDict()
    for n, (lo, hi, b) in axes:
        pars[n] = SpectraParameter(n, lo, hi, b)
    s = Spectra(name, decays, SpectraConfig("config", pars))
    if fill is None:
        r = numpy.random.RandomState(3)
        s._data = r.uniform(1., 5., s._data.shape)
    else:
        s._data = fill(*numpy.indices(s._data.shape)).astype(float)
    return s


def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


_translate()
sys.path.insert(0, TMP)
sys.dont_write_bytecode = True
for _m in ("scipy", "scipy.interpolate", "scipy.optimize", "scipy.stats",
           "h5py", "rat", "ROOT", "matplotlib", "matplotlib.pyplot",
           "matplotlib.font_manager", "mpl_toolkits",
           "mpl_toolkits.mplot3d", "graphviz", "couchdb"):
    try:
        __import__(_m)
    except ImportError:
        stub(_m)
sys.modules["scipy.interpolate"].InterpolatedUnivariateSpline = Spline
os.chdir(TMP)


# ------------------------------------------------------- files, in memory
FILES = {}


class Group(object):
    def __init__(self):
        self.attrs, self.items_ = {}, {}

    def create_group(self, name):
        if name in self.items_:
            raise ValueError("group exists")
        self.items_[name] = Group()
        return self.items_[name]

    def create_dataset(self, name, data=None, **kw):
        d = types.SimpleNamespace(value=numpy.array(data))
        self.items_[name] = d
        return d

    def keys(self):
        return list(self.items_)

    def __contains__(self, name):
        return name in self.items_

    def __delitem__(self, name):
        del self.items_[name]

    def __getitem__(self, name):
        node = self
        for part in name.split("/"):
            if part not in node.items_:
                raise KeyError(name)
            node = node.items_[part]
        return node


class File(Group):
    def __init__(self, path, mode="r"):
        Group.__init__(self)
        if mode == "w" or path not in FILES and mode == "a":
            FILES[path] = Group()
        if path not in FILES:
            raise IOError(path)
        self.__dict__.update(FILES[path].__dict__)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


if hasattr(sys.modules["h5py"], "__getattr__"):
    sys.modules["h5py"].File = File



# ------------------------------------------------------------------ fits
def rate(name="rate", values=(10., 20., 30.), prior=20., sigma=None):
    from echidna.core.parameter import RateParameter
    v = numpy.array(values)
    return RateParameter(name, prior, sigma, v[0], v[-1], len(v), values=v)


class Stat(object):
    """A test statistic: sum of squared differences, and a pull."""

    def __init__(self, per_bin=False):
        self._per_bin = per_bin

    def compute_statistic(self, observed, expected):
        d = (observed - expected)**2
        return d if self._per_bin else d.sum()

    def get_penalty_term(self, current_value, prior, sigma):
        return ((current_value - prior) / sigma)**2


def floating(name, values, prior, sigma=None, axes=None, fill=None,
             decays=100.):
    from echidna.core.config import SpectraFitConfig
    from collections import OrderedDict
    s = spectrum(axes or [("energy_mc", (0., 10., 10))], fill, name=name,
                 decays=decays)
    s._fit_config = SpectraFitConfig(
        name + "_fit", OrderedDict([("rate", rate("rate", values, prior,
                                                  sigma))]), name)
    return s


def grid(*pars, **kw):
    """A grid search over the parameters (name, values)."""
    from collections import OrderedDict
    from echidna.core.config import GlobalFitConfig
    from echidna.fit.minimise import GridSearch
    c = GlobalFitConfig("fit", OrderedDict())
    for p in pars:
        c.add_par(p, "spectra")
    s = spectrum(kw.pop("axes", [("energy_mc", (0., 10., 2))]))
    return GridSearch(c, s.get_config(), **kw)
