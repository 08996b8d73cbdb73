"""Per-run context: obligations, verdicts, evidence."""
import json
import os
import textwrap
import traceback

from . import terms as T
from . import interp, spec
from .flow import Analyzer
from .program import AnalysisBroken


class Ctx(object):
    def __init__(self, program, prop, tier="quick", seed=1):
        self.p = program
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []          # (key, verdict, detail, where)
        self.functions = set()
        self.callsites = 0
        self.notes = {}
        self.expected = None

    @property
    def n(self):
        return 90 if self.tier == "quick" else 400

    # ------------------------------------------------------------ verdicts
    def hold(self, key, detail="", where=""):
        self.obs.append((key, "hold", detail, where))

    def violate(self, key, detail, where=""):
        self.obs.append((key, "violated", detail, where))

    def undecided(self, key, detail, where=""):
        self.obs.append((key, "undecided", detail, where))

    def verdict(self, key, ok, detail, where=""):
        if ok is None:
            self.undecided(key, detail, where)
        elif ok:
            self.hold(key, detail, where)
        else:
            self.violate(key, detail, where)

    def guard(self, key):
        """Context manager: an engine failure leaves key undecided."""
        return _Guard(self, key)

    # ------------------------------------------------------------ analysis
    def analyzer(self, types=None, **kw):
        t = dict(TYPES)
        t.update(types or {})
        return Analyzer(self.p, t, **kw)

    def run(self, func, args=None, selfcls=None, selfterm=None, types=None,
            **kw):
        a = self.analyzer(types, **kw)
        r = a.run(func, args, selfcls, selfterm)
        self.functions |= set(q for q in a.visited if q.startswith("echidna"))
        self.callsites += a.callsites
        return r

    def method(self, cls, name):
        return self.p.method(cls, name)

    def snippet(self, text):
        return spec.snippet(self.p, text)

    # ------------------------------------------------------------ compare
    def same(self, key, code, ref, what="", where="", assume=(), hints=None,
             extra_vocab=()):
        """Obligation: value graph code denotes the required graph ref."""
        if code is None:
            self.undecided(key, "no value (function never returns)", where)
            return None
        v, d = interp.compare(code, ref, assume, hints, self.n, extra_vocab)
        if v in ("equal", "same"):
            self.hold(key, (what + ": " if what else "") + d, where)
            return True
        if v == "differ":
            self.violate(key, "%s: %s" % (what or key, d), where)
            return False
        self.undecided(key, d, where)
        return None

    def functions_agree(self, key, code, ref, **kw):
        """Obligation per clause: two function summaries agree."""
        kw.setdefault("n", self.n)
        for clause, v, d, w in spec.compare_functions(code, ref, **kw):
            k = "%s:%s" % (key, clause)
            w = w or code.func.where
            if v == "same":
                self.hold(k, d, w)
            elif v == "differ":
                self.violate(k, d, w)
            else:
                self.undecided(k, d, w)


    def agree(self, key, cls, name, ref, fields=(), args=None, selfcls=None,
              imports="", opts=None, drop=None, **kw):
        """The method cls.name (or function module:name) must agree with the
        reference body ref (a def with the same parameters)."""
        with self.guard(key):
            opts = dict(opts or {})
            func = self.find(cls, name)
            if func is None:
                self.undecided(key, "%s.%s not found" % (cls, name))
                return None
            fs = self.snippet("import numpy\nimport copy\nfrom ref import KEEP, REBINNED\n" + imports + "\n" +
                              textwrap.dedent(ref))
            rf = [f for f in fs.values()][-1]
            if func.cls is not None:
                spec.methodize(rf, func.cls)
                rf.classmethod = func.classmethod
                rf.static = func.static
            sc = selfcls or (cls if "." not in cls else None)
            sc = self.p.cls(sc) if sc else None
            code = self.run(func, args, selfcls=sc, **opts)
            want = self.run(rf, args, selfcls=sc, **opts)
            if drop is not None:
                for r in (code, want):
                    r.events = [e for e in r.events if not drop(e)]
            fl = []
            for f in fields:
                if isinstance(f, str) and f.startswith("result."):
                    f = (None, f[7:])
                elif isinstance(f, str):
                    f = (T.sym("self"), f)
                fl.append(f)
            self.functions_agree(key, code, want, fields=fl, **kw)
            return code, want

    def untouched(self, key, res, roots, allow=()):
        """No effect of the analysed function reaches an object that hangs
        off one of the root terms, on any path."""
        if res is None:
            return
        bad = []
        for e in res.kinds(*spec.EFFECTS):
            if not isinstance(e.data[0], T.Term):
                continue
            o = T.ptr(e.data[0])
            if T.FALSE in e.guards or not any(
                    r in roots for r in spec.rootset(o, e.guards)):
                continue
            a = e.data[1] if e.kind == "setattr" else None
            if a in allow or any(x.op in ("attr", "attrv") and
                                 x.args[1] in allow for x in chain(o)):
                continue
            if e.kind == "setattr" and e.data[2] is T.raw("attr", o, a):
                continue
            bad.append(e)
        for e in res.kinds("ext", "mcall"):
            t = e.data[0]
            for k, v in t.args[-1]:
                if k == "out" and spec.root(T.ptr(v)) in roots:
                    bad.append(e)
        if bad:
            e = bad[0]
            self.violate(key, "%s of %s reaches %s" % (
                e.kind, T.show(T.ptr(e.data[0]))[:120],
                T.show(spec.root(T.ptr(e.data[0])))), e.where)
        else:
            self.hold(key, "%d effect events resolved, none on %s" % (
                len(res.kinds(*spec.EFFECTS)), ", ".join(
                    T.show(r) for r in roots)), res.func.where)

    def find(self, cls, name):
        if "." in cls:
            return self.p.lookup_dotted(cls + "." + name)
        if not self.p.has_cls(cls):
            return None
        return self.p.find_method(self.p.cls(cls), name)


def chain(o):
    out = [o]
    while o.op in ("attr", "attrv", "idx", "mut", "copy"):
        o = o.args[-1] if o.op == "copy" else o.args[0]
        out.append(o)
    return out


class _Guard(object):
    def __init__(self, ctx, key):
        self.ctx, self.key = ctx, key

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, AnalysisBroken):
            return False
        if issubclass(et, Exception):
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exception(et, ev, tb)
            self.ctx.undecided(self.key, "analysis gave up: %s: %s" % (
                et.__name__, str(ev)[:200]))
            return True
        return False


# default facts about which class an expression has
TYPES = {
    "sym:spectrum": "Spectra", "sym:spectra": "Spectra",
    "sym:config": "SpectraConfig",
    ("Spectra", "_config"): "SpectraConfig",
    "sym:par": "SpectraParameter",
    ("SpectraConfig", "_parameters[]"): "SpectraParameter",
    ("SpectraFitConfig", "_parameters[]"): "FitParameter",
    "attr:_parameters": "dict",
    "attr:_rois": "dict",
    "attr:_style": "dict",
}
