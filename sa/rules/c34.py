"""Showing something does not change it.

Every function of the output package and every reporting method of spectra,
configurations, parameters and results is evaluated with symbolic arguments,
following the calls it makes.  Every store, in-place operation and mutating
container or array method it may perform is resolved to the object it
changes: none may hang off an argument, through any chain of attributes,
elements, views, getters or shallow copies.  Filling a memo that was empty
(`if x._values is None: x._values = ...`) is not a change.
"""
import ast

from .. import terms as T
from .. import spec

MINIMUM = 90

PARAMS = {"limit": "Spectra", "limit_results": "LimitResults",
          "fit_results": "GridSearch", "spectrum": "Spectra",
          "spectra": "Spectra", "results": "GridSearch"}

CLASSES = ("Spectra", "SpectraConfig", "GlobalFitConfig", "SpectraFitConfig",
           "FitParameter", "RateParameter", "ResolutionParameter",
           "ScaleParameter", "ShiftParameter", "SpectraParameter",
           "FitResults", "GridSearch", "LimitResults")
OBSERVE = ("project", "surface", "nd_project", "nd_project_stat",
           "nd_project_stats", "sum", "interpolate1d", "dump", "to_string",
           "__str__", "__repr__", "__len__", "__eq__")

VIEWS = ("transpose", "reshape", "ravel", "asarray", "squeeze", "swapaxes",
         "atleast_1d", "atleast_2d", "atleast_3d", "rollaxis", "moveaxis",
         "expand_dims", "broadcast_to", "view", "diagonal", "asanyarray",
         "ascontiguousarray", "split", "flip", "flipud", "fliplr", "rot90")
FRESH = ("copy", "sum", "project", "surface", "nd_project", "mean", "tolist",
         "astype", "std", "cumsum", "min", "max", "flatten", "round", "dot",
         "repeat", "clip", "join", "format", "argsort", "nonzero", "keys")
CHANGES = ("append", "extend", "insert", "remove", "sort", "reverse",
           "update", "setdefault", "clear", "popitem", "fill", "resize",
           "discard", "put", "itemset", "pop", "partition", "byteswap",
           "move_to_end", "setflags", "setfield")
INPLACE = ("numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask",
           "numpy.random.shuffle", "random.shuffle", "numpy.fill_diagonal",
           "numpy.put_along_axis", "heapq.heapify", "numpy.add.at",
           "operator.iadd", "operator.imul", "setattr", "delattr",
           "numpy.ndarray.sort", "numpy.ndarray.fill", "numpy.ndarray.put",
           "numpy.ndarray.resize", "list.sort", "dict.update", "dict.pop",
           "dict.setdefault")


def roots(o, guards, elements=True):
    """What object o hangs off: through attributes, elements, views, getters
    and the shared contents of shallow copies.  (An element picked out of one
    of several alternatives is a number as far as this analysis can tell: its
    augmented assignment is only followed for whole objects.)"""
    o = T.ptr(o)
    deep = 0
    while True:
        if o.op in ("attr", "attrv") or o.op in ("idx", "key") and elements:
            o, deep = T.ptr(o.args[0]), 1
        elif o.op == "mut":
            o = T.ptr(o.args[0])
        elif o.op == "copy":
            if o.args[0] == "deep" or not deep:
                return {o}
            o = T.ptr(o.args[-1])
            if o.op in ("attr", "attrv") and o.args[1] in ARRAYS:
                return set()      # numbers are copied, not shared
        elif o.op == "call" and o.args[1] and (
                o.args[0].split(".")[-1] in VIEWS or
                o.args[0].startswith("popped.")):
            o = T.ptr(o.args[1][0])
        elif o.op == "ext" and o.args[0] in ("getattr", "iter", "next",
                                             "reversed"):
            o, deep = T.ptr(o.args[1][0]), 1
        elif o.op == "ext" and o.args[1] and \
                o.args[0].split(".")[-1] in VIEWS:
            o = T.ptr(o.args[1][0])
        elif o.op in ("dictvalues", "dictitems"):
            o, deep = T.ptr(o.args[0]), 1
        elif o.op == "mcall":
            if o.args[1] in FRESH:
                return {o}
            o, deep = T.ptr(o.args[0]), 1
        elif o.op == "ite":
            c, a, b = o.args
            if c in guards:
                o = T.ptr(a)
            elif T.lnot(c) in guards:
                o = T.ptr(b)
            else:
                return roots(a, guards, elements) | roots(b, guards, elements)
        else:
            return {o}


ARRAYS = set()


def arrays(p):
    """Names of attributes that hold numeric arrays."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(
                        n.value, ast.Call):
                    src = ast.unparse(n.value)
                    if src.startswith("numpy.") and "object" not in src:
                        out.add(t.attr)
    return out


def ranks(p, cls):
    """{attribute: number of axes} for the arrays a class makes (None where
    it depends on the configuration)."""
    out = {}
    for c in reversed(p.mro(p.cls(cls))):
        for f in c.methods.values():
            local = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(
                        n.targets[0], ast.Name):
                    local[n.targets[0].id] = n.value
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and ast.unparse(
                        n.value.func) in ("numpy.zeros", "numpy.ones",
                                          "numpy.empty", "numpy.full"):
                    a = n.value.args[0] if n.value.args else \
                        n.value.keywords[0].value
                    if isinstance(a, ast.Name):
                        a = local.get(a.id, a)
                    r = None
                    if isinstance(a, ast.Tuple):
                        r = len(a.elts)
                    elif isinstance(a, ast.Call) and ast.unparse(
                            a.func).split(".")[-1] in ("len", "int",
                                                       "get_bins"):
                        r = 1
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            out[t.attr] = r
    return out


def mutable(o, guards, owner):
    """Augmented assignment changes the object in place only if it is an
    array or a container; numbers and text are replaced."""
    o = T.ptr(o)
    if o.op == "mut":
        return mutable(o.args[0], guards, owner)
    if o.op == "ite":
        return any(mutable(x, guards, owner) for x in o.args[1:])
    if o.op in ("attr", "attrv"):
        return o.args[1] in ARRAYS or o.args[1] in BOXES or \
            o.args[1] in ("T", "flat", "real")
    if o.op == "copy":
        return True
    if o.op in ("idx", "key"):
        b, i = T.ptr(o.args[0]), o.args[1] if len(o.args) > 1 else None
        n = 1
        if isinstance(i, T.Term):
            i = T.val(i)
            if "slice(" in T.show(i):
                return True
            if i.op == "tuple" and isinstance(i.args[0], tuple):
                n = len(i.args[0])
        while b.op == "idx":
            n, b = n + 1, T.ptr(b.args[0])
        if b.op in ("attr", "attrv"):
            if b.args[1] in BOXES:
                return False
            if b.args[1] in ARRAYS:
                r = owner(T.ptr(b.args[0])).get(b.args[1])
                return r is None or n < r
            return False
        return True
    if o.op == "sym":
        return False
    return True


BOXES = set()


def boxes(p):
    """Names of attributes that hold lists or dictionaries."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, (ast.List, ast.Dict, ast.ListComp,
                              ast.DictComp)) or isinstance(
                    n, ast.Assign) and ast.unparse(n.value).startswith(
                    ("collections.OrderedDict(", "OrderedDict(", "dict(",
                     "list(", "defaultdict(")):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def memo(e):
    """Filling a slot known to be empty."""
    if e.kind != "setattr":
        return False
    o, name = T.ptr(e.data[0]), e.data[1]
    for g in e.guards:
        x = None
        if g.op == "isnone":
            x = g.args[0]
        elif g.op == "not" and g.args[0].op == "truthy":
            x = g.args[0].args[0]
        if isinstance(x, T.Term):
            if x.op in ("attr", "attrv") and x.args[1] == name and \
                    T.ptr(x.args[0]) is o:
                return True
    return False


def text(e):
    """Adding text to a name bound to text makes a new string."""
    v = e.data[1] if len(e.data) > 1 else None
    return e.kind in ("inplace", "augment") and isinstance(v, T.Term) and \
        T.val(v).op in ("str", "concat") and not (
            v.op == "str" and v.args[0] in CHANGES)


def augments(e):
    """x op= y on a name (not a mutating method)."""
    v = e.data[1] if len(e.data) > 1 else None
    return e.kind == "augment" or e.kind == "inplace" and not (
        isinstance(v, T.Term) and v.op == "str" and v.args[0] in CHANGES)


def mutators(p):
    """Names of package methods that store to their object."""
    out = set()
    for c in [c for cs in p.classes_by_name.values() for c in cs]:
        for name, f in c.methods.items():
            if name == "__init__":
                continue
            me = f.node.args.args[0].arg if f.node.args.args else None
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id == me:
                        out.add(name)
    return out


def changes(res, args, names, owner=lambda o: {}):
    """Events of an analysed function that change one of args."""
    bad = []
    n = 0
    for e in res.events:
        if T.FALSE in e.guards:
            continue
        if e.kind in spec.EFFECTS + ("augment",):
            o = e.data[0]
            if not isinstance(o, T.Term):
                continue
            n += 1
            hit = roots(o, e.guards, e.kind != "augment") & args
            if not hit or text(e) or memo(e):
                continue
            if augments(e) and not mutable(o, e.guards, owner):
                continue
            if e.kind == "setattr" and e.data[2] is T.raw(
                    "attr", T.ptr(o), e.data[1]):
                continue
            bad.append((e, o, hit))
        elif e.kind in ("mcall", "ext", "call"):
            t = e.data[0]
            if not isinstance(t, T.Term) or t.op not in ("mcall", "call",
                                                         "ext"):
                continue
            n += 1
            victims = [v for k, v in t.args[-1] if k == "out"]
            if t.op == "mcall":
                if t.args[1] in CHANGES or t.args[1] in names:
                    victims.append(T.ptr(e.data[1]) if len(e.data) > 1 and
                                   isinstance(e.data[1], T.Term)
                                   else t.args[0])
            elif t.args[0] in INPLACE and t.args[1]:
                victims.append(t.args[1][0])
            for o in victims:
                hit = roots(o, e.guards) & args
                if hit:
                    bad.append((e, o, hit))
    return n, bad


def subjects(ctx):
    """(key, function, class of self, {param: class})"""
    out = []
    for name, m in sorted(ctx.p.modules.items()):
        if not name.startswith("echidna.output."):
            continue
        for f in m.functions.values():
            if f.name.startswith("_"):
                continue        # judged where it is called
            if name.endswith(".store") and not f.name.startswith("dump"):
                continue
            out.append((f.qual, f, None))
        for c in m.classes.values():
            for f in c.methods.values():
                if f.name != "__init__":
                    out.append((f.qual, f, c.name))
    for c in CLASSES:
        if not ctx.p.has_cls(c):
            continue
        k, seen = ctx.p.cls(c), set()
        for b in ctx.p.mro(k):
            for name, f in sorted(b.methods.items()):
                if name in seen:
                    continue
                seen.add(name)
                if name in OBSERVE or name.startswith("get_") or \
                        name.startswith("to_"):
                    out.append(("%s.%s" % (c, name), f, c))
    return out


def check(ctx):
    names = mutators(ctx.p)
    ARRAYS.clear()
    ARRAYS.update(arrays(ctx.p))
    BOXES.clear()
    BOXES.update(boxes(ctx.p))
    found, filled = [], set()
    for key, f, cls in subjects(ctx):
        with ctx.guard(key):
            ps = [x.arg for x in f.node.args.args]
            types = {}
            for p in ps:
                if p in PARAMS:
                    types["sym:" + p] = PARAMS[p]
            types["sym:spectra_dict[]"] = "dict"
            r = ctx.run(f, selfcls=ctx.p.cls(cls), types=types) if cls else \
                ctx.run(f, types=types)
            args = set(T.sym(p) for p in ps)
            filled |= set(e.where for e in r.kinds("setattr") if memo(e))
            of = {}
            for q in ps:
                c = cls if q == ps[0] and cls else PARAMS.get(q)
                if c and ctx.p.has_cls(c):
                    of[T.sym(q)] = ranks(ctx.p, c)
            found.append((key, f, ps) + changes(
                r, args, names, lambda o, of=of: of.get(o, {})))
    for key, f, ps, n, bad in found:
        i = 0
        for e, o, hit in bad:
            # a site that only ever fills an empty memo, met again in a loop
            if e.kind == "setattr" and e.where in filled:
                continue
            what = e.kind
            if e.kind == "setattr":
                what = "set %s" % e.data[1]
            elif e.kind in ("mcall", "ext", "call"):
                t = e.data[0]
                what = "%s()" % (t.args[1] if t.op == "mcall"
                                 else t.args[0])
            if i < 3:
                ctx.violate("%s: %s%s" % (key, what, ":%d" % i if i else ""),
                            "%s reaches %s, which belongs to the argument %s"
                            % (what, T.show(T.ptr(o))[:120], ", ".join(
                                sorted(T.show(h) for h in hit))), e.where)
            i += 1
        if not i:
            ctx.hold(key, "%d effects and foreign calls resolved, none on %s"
                     % (n, ", ".join(ps)), f.where)
