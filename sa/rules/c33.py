"""Names, imports, attributes and arguments of the whole package.

No call is executed; every import statement, every name that is read, every
attribute of a package object and every call of a package function is looked
up in what the package defines.
"""
import ast
import re

from .. import lint
from ..lint import ANY, PY, Imports, Paths, Types, text

MINIMUM = 900

# attributes of foreign objects (files, arrays, figures, parsers, histograms)
# written in the style of the package
FOREIGN = set("""add_argument parse_args add_subplot add_axes add_patch
set_xlabel set_ylabel set_zlabel set_title set_xlim set_ylim set_zlim
set_xticks set_yticks set_zticks set_xscale set_yscale set_xticklabels
set_yticklabels set_visible set_color set_label set_linewidth set_data
get_xlim get_ylim get_legend_handles_labels tick_params tight_layout
fill_between plot_surface plot_wireframe set_position get_position
create_dataset create_group require_group require_dataset safe_load
safe_dump safe_load_all load_all dump_all add_constructor add_representer
represent_mapping represent_dict construct_mapping construct_pairs
flatten_mapping set_size_inches error_bars exc_info get_logger getLogger
set_aspect add_line line_color face_color set_clim set_under set_over
get_cmap set_cmap copy_abs_path file_id iter_child_nodes is_integer
set_major_locator set_minor_locator set_major_formatter
set_minor_formatter set_fontsize set_rotation get_xaxis get_yaxis
from_iterable add_mutually_exclusive_group add_argument_group print_help
set_defaults parse_known_args add_subparsers view_init w_xaxis w_yaxis
w_zaxis set_bounds get_children""".split())

AXES = re.compile("(get|set)_[xyzw](tick|lim|label|scale|axis|bound)")


def unconditional(fn, node, name):
    """Is the read outside every test of the attribute's existence?"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and \
                n.args[1].value == name:
            return False
    return True


def guarded(fn, node, kinds):
    """Inside a try whose handler expects this failure?"""
    for t in ast.walk(fn):
        if not isinstance(t, ast.Try):
            continue
        if not any(h.type is None or any(k in text(h.type) for k in kinds)
                   for h in t.handlers):
            continue
        for b in t.body:
            if any(n is node for n in ast.walk(b)):
                return True
    return False


# ------------------------------------------------------------- imports
def imports(ctx):
    seen = set()

    def report(m, n, what):
        k = "%s: %s" % (m.name, what.split(" (importing")[0])
        if k not in seen:
            seen.add(k)
            ctx.violate("import " + k, what, "%s:%d" % (m.rel, n.lineno))
    im = Imports(ctx.p, report)
    for m in mods(ctx.p):
        before = len(seen)
        im.enter(m.name)
        if len(seen) == before:
            ctx.hold("import " + m.name, "%d modules entered" % len(
                im.state), m.rel)


def mods(p):
    return [m for m in sorted(p.modules.values(), key=lambda m: m.name)
            if not m.name.startswith("echidna.test")]


# ------------------------------------------------------------- names
def module_names(m):
    got, _ = lint.bindings(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            got |= set(n.names)
    if any(isinstance(n, ast.ImportFrom) and any(
            a.name == "*" for a in n.names) for n in m.tree.body):
        return None
    return got


def names(ctx, m):
    outer = module_names(m)
    if outer is None:
        ctx.undecided("names " + m.name, "imports *", m.rel)
        return

    def scope(node, qual, visible, cls):
        """visible: names of enclosing scopes."""
        if isinstance(node, ast.ClassDef):
            for s in node.body:
                for x in inner(s):
                    scope(x, qual + "." + x.name, visible, node)
            bad = set()
            local = set(lint.bindings(node.body)[0])
            reads(node.body, visible | local, bad)
            verdict(qual, bad, node)
            return
        body = node.body
        local, glob = lint.bindings(body)
        local |= set(lint.params(node.args))
        leaked = set()
        for s in body:
            for n in lint.walk(s):
                if isinstance(n, ast.ListComp):
                    for g in n.generators:
                        leaked |= set(lint.targets(g.target))
        bad = {}

        def report(n, k, path):
            bad.setdefault(k, n.lineno)
        own = local - set(lint.params(node.args)) - leaked
        ps = Paths(own, report)
        ps.run(body, local - own)
        free = set()
        reads(body, visible | local | leaked, free, bad)
        verdict(qual, bad, node)
        for s in body:
            for x in inner(s):
                scope(x, qual + "." + x.name, visible | local, None)

    def inner(s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            yield s
            return
        for n in lint.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                yield n

    def reads(body, known, out, lines=None):
        def go(n, known):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for d in n.decorator_list + (
                        n.bases if isinstance(n, ast.ClassDef) else
                        n.args.defaults):
                    go(d, known)
                return
            if isinstance(n, ast.Lambda):
                go(n.body, known | set(lint.params(n.args)))
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                k = set(known)
                for g in n.generators:
                    k |= set(lint.targets(g.target))
                for c in ast.iter_child_nodes(n):
                    go(c, k)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id not in known:
                out.add(n.id)
                if lines is not None:
                    lines.setdefault(n.id, n.lineno)
            for c in ast.iter_child_nodes(n):
                go(c, known)
        for s in body:
            go(s, known)

    def verdict(qual, bad, node):
        for k in sorted(bad):
            ctx.violate("name %s: %s" % (qual, k),
                        "%s may be unbound where it is read" % k,
                        "%s:%d" % (m.rel, bad[k] if isinstance(bad, dict)
                                   else node.lineno))
        if not bad:
            ctx.hold("names " + qual, "every name read is bound on every "
                     "path", "%s:%d" % (m.rel, node.lineno))
    known = outer | lint.BUILTINS
    for s in m.tree.body:
        for x in inner(s):
            scope(x, m.name + "." + x.name, known, None)
    bad = {}
    top = Paths(outer, lambda n, k, p: bad.setdefault(k, n.lineno))
    top.run(m.tree.body)
    reads(m.tree.body, known, set(), bad)
    verdict(m.name, bad, m.tree.body[0] if m.tree.body else
            ast.copy_location(ast.Pass(lineno=1, col_offset=0), m.tree)
            if False else type("N", (), {"lineno": 1}))


# ------------------------------------------------------------- objects
class Objects(object):
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.ty = Types(ctx.p)
        self.bad = {}
        self.count = {}
        self.known = set()
        for (q, a) in self.ty.attrs:
            self.known.add(a)
        for m in mods(self.p):
            self.known |= set(m.functions) | set(m.assigns)
            for c in m.classes.values():
                self.known |= set(c.methods) | set(c.consts)
        self.known |= self.ty.loose
        self.ext = dict((c, lint.external(self.p, c))
                        for m in mods(self.p) for c in m.classes.values())
        self.ty.sweep(self.visit)
        self.report()

    def top(self, sc):
        """The outermost function around, and what to call it."""
        while sc.parent is not None and sc.parent.parent is not None and \
                sc.func is None:
            sc = sc.parent
        return sc

    def fnode(self, sc):
        s = self.top(sc)
        return s.func.node if s.func is not None else sc.module.tree

    def visit(self, what, e, ts, sc):
        if what == "stmt":
            return
        s = self.top(sc)
        k = s.key
        n = self.count.setdefault(k, [0, 0, sc.module.rel])
        if what == "attr":
            n[0] += 1
            why = self.attr(e, ts, sc)
        else:
            n[1] += 1
            why = self.call(e, ts, sc)
        if why:
            # known by the module and what is missing, however the code
            # around is arranged
            self.bad.setdefault((sc.module.name, what, why), (
                "%s: %s" % (text(e.func if what == "call" else e), why),
                "%s:%d %s" % (sc.module.rel, e.lineno, k), k))

    def has(self, c, name):
        if name.startswith("__") or self.ext.get(c, True):
            return True
        if self.p.find_method(c, "__getattr__") is not None:
            return True
        ks = self.p.mro(c)
        for k in self.p.subclasses(c):
            if self.ext.get(k, True):
                return True
            ks = ks + self.p.mro(k)
        return any(name in k.methods or name in k.consts or
                   (k.qual, name) in self.ty.attrs for k in ks) or \
            name in self.ty.loose

    def attr(self, e, ts, sc):
        name = e.attr
        if isinstance(e.ctx, ast.Store):
            return None
        good, bad = [], []
        for t in ts:
            if t[0] == "mod":
                d = t[1]
                m = self.p.modules[d]
                ok = name in module_all(m) or d + "." + name in \
                    self.p.modules or name.startswith("__")
                (good if ok else bad).append("module " + d)
            elif t[0] in ("inst", "cls", "super"):
                (good if self.has(t[1], name) else bad).append(t[1].name)
        fn = self.fnode(sc)
        if bad and not good:
            if ANY in ts and not any(b.startswith("module") for b in bad):
                return None     # it may be another object
            if any(text(e.value) in s.narrowed for s in chain(sc)):
                return None
            if not unconditional(fn, e, name) or guarded(
                    fn, e, ("AttributeError", "Exception", "ImportError")):
                return None
            return "%s has no %s" % (" or ".join(sorted(set(bad))), name)
        if not good and not bad and (name.startswith("_") and not
                                     name.startswith("__") or
                                     re.match(r"(get|set)_\w", name)) and \
                name not in self.known and name not in FOREIGN and \
                not AXES.match(name):
            if not unconditional(fn, e, name) or guarded(
                    fn, e, ("AttributeError", "Exception")):
                return None
            return "nothing in the package has %s" % name
        return None

    def call(self, e, ts, sc):
        fits, why = 0, []
        for t in ts:
            if t[0] == "cls":
                c = t[1]
                f = self.p.find_method(c, "__init__")
                if f is None:
                    if self.ext[c]:
                        fits += 1
                    elif e.args or e.keywords:
                        why.append("%s takes no arguments" % c.name)
                    else:
                        fits += 1
                    continue
                skip = 1
                abstract = self.abstract(c)
                if abstract:
                    why.append("%s is abstract (%s)" % (c.name, abstract))
                    continue
            elif t[0] == "func":
                f, skip = t[1], 1 if t[2] is not None else 0
                if f.decorators and not set(f.decorators) <= {
                        "staticmethod", "classmethod", "abstractmethod"}:
                    fits += 1
                    continue
                if f.classmethod:
                    skip = 1
            else:
                continue
            w = lint.misfits(f, skip, e)
            if w:
                why.append("%s: %s" % (f.short, w))
            else:
                fits += 1
        if why and not fits:
            if guarded(self.fnode(sc), e, ("TypeError",)):
                return None
            return "; ".join(sorted(set(why)))
        if not why and not fits and isinstance(e.func, ast.Attribute) and \
                ts <= {ANY, PY}:
            # an unknown object: some method of that name must fit
            name = e.func.attr
            fs = self.p.methods_by_name.get(name, [])
            if "_" in name.strip("_") or name.startswith("_"):
                if fs and name not in FOREIGN:
                    ws = [lint.misfits(f, 0 if f.static else 1, e)
                          for f in fs]
                    gs = [m.functions[name] for m in mods(self.p)
                          if name in m.functions]
                    ws += [lint.misfits(f, 0, e) for f in gs]
                    if all(ws) and name not in self.ty.loose:
                        return "%s: %s" % (fs[0].short, ws[0])
        return None

    def abstract(self, c):
        """An abstract method the class leaves open, if it is enforced."""
        enforced = any("__metaclass__" in k.consts or any(
            kw.arg == "metaclass" for kw in k.node.keywords) or any(
            text(b).endswith("ABC") for b in k.node.bases)
            for k in self.p.mro(c))
        if not enforced:
            return None
        for k in self.p.mro(c):
            for n, f in k.methods.items():
                if f.abstract:
                    g = self.p.find_method(c, n)
                    if g is not None and g.abstract:
                        return n
        return None

    def report(self):
        hit = set()
        for (m, what, t), (why, where, k) in sorted(self.bad.items()):
            hit.add((k, what))
            self.ctx.violate("%s %s: %s" % (
                "attribute" if what == "attr" else "call", m, t), why, where)
        for k, (na, nc, rel) in sorted(self.count.items()):
            if (k, "attr") not in hit:
                self.ctx.hold("attributes " + k, "%d reads" % na, rel)
            if (k, "call") not in hit:
                self.ctx.hold("calls " + k, "%d calls" % nc, rel)
            self.ctx.callsites += nc
            self.ctx.functions.add(k)


_ALL = {}


def module_all(m):
    if m.name not in _ALL:
        got = module_names(m)
        if got is None:
            got = set(lint.BUILTINS)
        _ALL[m.name] = got | set(m.imports)
    return _ALL[m.name]


def chain(sc):
    while sc is not None:
        yield sc
        sc = sc.parent


# ------------------------------------------------------- initialisation
def initialised(ctx):
    """Every attribute a class reads of itself is set when it is made."""
    p = ctx.p
    for m in mods(p):
        for c in m.classes.values():
            if p.subclasses(c) or lint.external(p, c):
                continue
            sets = made(p, c)
            if sets is None:
                continue
            have = set(sets)
            for k in p.mro(c):
                have |= set(k.methods) | set(k.consts)
            g = p.find_method(c, "__enter__")
            entered = after(p, c, g, ()) if g is not None else ()
            bad = {}
            for k in p.mro(c):
                for f in k.methods.values():
                    if p.find_method(c, f.name) is not f or f.static or \
                            not f.node.args.args:
                        continue
                    me = f.node.args.args[0].arg
                    own = set()
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.value, ast.Name) and n.value.id == me and \
                                isinstance(n.ctx, ast.Store):
                            own.add(n.attr)
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.value, ast.Name) and n.value.id == me and \
                                isinstance(n.ctx, ast.Load) and \
                                n.attr not in have and \
                                not n.attr.startswith("__"):
                            if n.attr in own and definite(f, me, n.attr):
                                continue
                            if f.name == "__exit__" and n.attr in entered:
                                continue
                            if not unconditional(f.node, n, n.attr) or \
                                    guarded(f.node, n, ("AttributeError",)):
                                continue
                            bad.setdefault((f.short, n.attr), n.lineno)
            for (f, a), line in sorted(bad.items()):
                ctx.violate("set %s: %s reads %s" % (c.qual, f, a),
                            "%s objects are made without it" % c.name,
                            "%s:%d" % (c.module.rel, line))
            if not bad:
                ctx.hold("set " + c.qual, "%d attributes set by the "
                         "constructor" % len(sets),
                         "%s:%d" % (m.rel, c.node.lineno))


def definite(f, me, attr):
    bad = []
    ps = Paths({"self." + attr}, lambda n, k, p: bad.append(n), attrs=me)
    ps.run(f.node.body)
    return not bad


def made(p, c):
    """Attributes certainly set after construction of c."""
    f = p.find_method(c, "__init__")
    if f is None:
        return set()
    return after(p, c, f, ())


def after(p, c, f, stack, me=None):
    if f in stack or len(stack) > 6 or not f.node.args.args:
        return set()
    me = me or f.node.args.args[0].arg
    names = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id == me:
            names.add("self." + n.attr)

    def calls(n):
        t = n.func
        g = None
        if isinstance(t, ast.Name) and t.id in f.module.functions:
            # a helper that is handed the object
            g = f.module.functions[t.id]
            ps = [a.arg for a in g.node.args.args]
            at = [i for i, a in enumerate(n.args) if isinstance(
                a, ast.Name) and a.id == me and i < len(ps)]
            kw = [k.arg for k in n.keywords if isinstance(
                k.value, ast.Name) and k.value.id == me and k.arg in ps]
            if not at and not kw:
                return ()
            return ["self." + x for x in after(
                p, c, g, stack + (f,), ps[at[0]] if at else kw[0])]
        if not isinstance(t, ast.Attribute):
            return ()
        if isinstance(t.value, ast.Name) and t.value.id == me:
            g = p.find_method(c, t.attr)
        elif isinstance(t.value, ast.Call) and text(
                t.value.func) == "super":
            order = p.mro(c)
            base = f.cls
            if len(t.value.args) == 2 and isinstance(
                    t.value.args[0], ast.Name):
                base = p.lookup_class(f.module, t.value.args[0].id) or base
            if base in order:
                for k in order[order.index(base) + 1:]:
                    if t.attr in k.methods:
                        g = k.methods[t.attr]
                        break
        elif t.attr == "__init__":
            k = p.resolve_class_expr(f.module, t.value)
            g = p.find_method(k, "__init__") if k is not None else None
        if g is None or g.static:
            return ()
        return ["self." + x for x in after(p, c, g, stack + (f,))]
    ps = Paths(set(), lambda *a: None, attrs=me, calls=calls)
    ends = ps.run(f.node.body)
    if not ends:
        return set()
    out = set.intersection(*[set(e.bound) for e in ends])
    return set(x[5:] for x in out if x.startswith("self."))


def check(ctx):
    with ctx.guard("imports"):
        imports(ctx)
    for m in mods(ctx.p):
        with ctx.guard("names " + m.name):
            names(ctx, m)
    with ctx.guard("objects"):
        Objects(ctx)
    with ctx.guard("initialisation"):
        initialised(ctx)
