"""Whole-program model of /repo: parsed modules, classes, functions, imports."""
import ast
import hashlib
import os
import warnings

from . import alias

warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
FIXERS = ["lib2to3.fixes.fix_" + x for x in
          "print except raise exec repr ne numliterals tuple_params throw"
          .split()]
_TOOL = []


class AnalysisBroken(Exception):
    """An anchor the analysis depends on has vanished, or cannot be read."""


def parse(text, path):
    try:
        return ast.parse(text, path), False
    except SyntaxError:
        pass
    if not _TOOL:
        from lib2to3 import refactor
        _TOOL.append(refactor.RefactoringTool(FIXERS))
    new = str(_TOOL[0].refactor_string(text + "\n", path))
    return ast.parse(new, path), True


class Func(object):
    def __init__(self, module, node, cls=None):
        self.module = module
        self.node = alias.rewrite(node)
        self.cls = cls
        self.name = node.name
        self.qual = (cls.qual + "." if cls else module.name + ".") + node.name
        self.short = (cls.name + "." if cls else "") + node.name
        decs = []
        for d in node.decorator_list:
            decs.append(ast.unparse(d).split(".")[-1])
        self.decorators = decs
        self.static = "staticmethod" in decs
        self.classmethod = "classmethod" in decs
        self.abstract = "abstractmethod" in decs
        self.property = "property" in decs

    @property
    def where(self):
        return "%s:%d %s" % (self.module.rel, self.node.lineno, self.short)


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.consts = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = Func(module, n, self)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
        self.bases = []
        self.subclasses = []


class Module(object):
    def __init__(self, name, path, root):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, root)
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.digest = hashlib.sha256(self.text.encode("utf-8")).hexdigest()
        self.tree, self.py2 = parse(self.text, path)
        self.is_pkg = path.endswith("__init__.py")
        self.imports = {}      # local name -> dotted path
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # module-level name -> list of value nodes
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.functions[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = top
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and \
                    isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append(n)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                if isinstance(n, ast.If) and "__name__" in \
                        ast.unparse(n.test):
                    continue
                self._collect(n.body)
                for h in getattr(n, "handlers", []):
                    self._collect(h.body)
                self._collect(getattr(n, "orelse", []))


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkg = os.path.join(self.root, "echidna")
        if not os.path.isdir(pkg):
            raise AnalysisBroken("no package echidna under %s" % self.root)
        for path, dirs, files in os.walk(pkg):
            dirs.sort()
            for name in sorted(files):
                if not name.endswith(".py"):
                    continue
                full = os.path.join(path, name)
                rel = os.path.relpath(full, self.root)[:-3]
                mod = rel.replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                self.modules[mod] = Module(mod, full, self.root)
        self.classes_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes_by_name.setdefault(c.name, []).append(c)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    k = self.resolve_class_expr(m, b)
                    if k is not None:
                        c.bases.append(k)
                        k.subclasses.append(c)
        self.methods_by_name = {}
        for m in self.modules.values():
            if m.name.startswith("echidna.test"):
                continue
            for c in m.classes.values():
                for f in c.methods.values():
                    self.methods_by_name.setdefault(f.name, []).append(f)

    # -- resolution
    def resolve_class_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.lookup_class(module, node.id)
        if isinstance(node, ast.Attribute):
            return self.lookup_dotted(self.dotted(module, node), Class)
        return None

    def dotted(self, module, node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if isinstance(node, ast.Name):
            base = module.imports.get(node.id, node.id)
            return ".".join([base] + parts[::-1])
        return None

    def lookup_class(self, module, name):
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            return self.lookup_dotted(module.imports[name], Class)
        return None

    def lookup_dotted(self, dotted, kind=None, _d=0):
        """Resolve 'pkg.mod.name' to Module/Class/Func or None."""
        if not dotted or _d > 6:
            return None
        if dotted in self.modules:
            r = self.modules[dotted]
            return r if kind in (None, Module) else None
        pseudo = self.__dict__.get("pseudo", {}).get(dotted.split(".")[0])
        if pseudo is not None:
            name = dotted.split(".", 1)[-1]
            r = pseudo.functions.get(name) or pseudo.classes.get(name)
            if r is None and "." in name:
                c = pseudo.classes.get(name.split(".")[0])
                r = c and c.methods.get(name.split(".")[1])
            return r if kind is None or isinstance(r, kind) else None
        if "." not in dotted:
            return None
        base, name = dotted.rsplit(".", 1)
        m = self.modules.get(base)
        if m is not None:
            r = m.classes.get(name) or m.functions.get(name)
            if r is None and name in m.imports:
                return self.lookup_dotted(m.imports[name], kind, _d + 1)
            if r is not None and (kind is None or isinstance(r, kind)):
                return r
            return None
        c = self.lookup_dotted(base, Class, _d + 1)
        if isinstance(c, Class):
            return c.methods.get(name)
        return None

    def cls(self, name):
        """The class with this simple or dotted name; broken if it vanished."""
        if "." in name:
            c = self.lookup_dotted(name, Class)
            if c is None:
                raise AnalysisBroken("class %s not found" % name)
            return c
        cs = self.classes_by_name.get(name)
        if not cs:
            raise AnalysisBroken("class %s not found" % name)
        return cs[0]

    def has_cls(self, name):
        return bool(self.classes_by_name.get(name))

    def mro(self, cls):
        out, seen = [], set()

        def rec(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(cls)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def method(self, clsname, name):
        f = self.find_method(self.cls(clsname), name)
        if f is None:
            raise AnalysisBroken("method %s.%s not found" % (clsname, name))
        return f

    def func(self, dotted):
        f = self.lookup_dotted(dotted, Func)
        if f is None:
            raise AnalysisBroken("function %s not found" % dotted)
        return f

    def subclasses(self, cls):
        out = []

        def rec(c):
            for s in c.subclasses:
                if s not in out:
                    out.append(s)
                    rec(s)
        rec(cls)
        return out

    def all_functions(self, tests=False):
        for m in self.modules.values():
            if not tests and m.name.startswith("echidna.test"):
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
