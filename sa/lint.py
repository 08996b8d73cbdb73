"""Whole-program checks of names, imports, attributes and arguments.

A flow-insensitive inference of the classes values belong to (constructors,
documented parameter types, returned values, stored attributes, elements of
containers), and on top of it four questions per construct: can the import
succeed in any import order, is the name bound on every path that reads it,
does the attribute exist on the object, do the arguments fit the parameters.
"""
import ast
import re

from .program import Class, Func, Module

BUILTINS = set("""abs all any apply basestring bin bool buffer bytearray
bytes callable chr classmethod cmp coerce compile complex copyright credits
delattr dict dir divmod enumerate eval exec execfile exit file filter float format
frozenset getattr globals hasattr hash help hex id input int intern
isinstance issubclass iter len license list locals long map max memoryview
min next object oct open ord pow print property quit range raw_input reduce
reload repr reversed round set setattr slice sorted staticmethod str sum
super tuple type unichr unicode vars xrange zip None True False Ellipsis
NotImplemented __name__ __file__ __doc__ __package__ __debug__ __import__
__builtins__ __path__ ArithmeticError AssertionError AttributeError
BaseException BufferError BytesWarning DeprecationWarning EOFError
EnvironmentError Exception FloatingPointError FutureWarning GeneratorExit
IOError ImportError ImportWarning IndentationError IndexError KeyError
KeyboardInterrupt LookupError MemoryError NameError NotImplementedError
OSError OverflowError PendingDeprecationWarning ReferenceError RuntimeError
RuntimeWarning StandardError StopIteration SyntaxError SyntaxWarning
SystemError SystemExit TabError TypeError UnboundLocalError
UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError
UnicodeWarning UserWarning ValueError Warning ZeroDivisionError""".split())
LEAVE = set("sys.exit exit quit os._exit os.abort".split())
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp,
          ast.SetComp, ast.DictComp, ast.GeneratorExp)


def walk(node, into=False):
    """Nodes below, not entering nested functions or classes."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not into and isinstance(c, (ast.FunctionDef, ast.ClassDef,
                                           ast.Lambda)):
                yield c
                continue
            todo.append(c)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for y in targets(x):
                yield y
    elif isinstance(t, ast.Starred):
        for y in targets(t.value):
            yield y


def params(args):
    out = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
    if args.vararg:
        out.append(args.vararg.arg)
    if args.kwarg:
        out.append(args.kwarg.arg)
    return out


def bindings(body):
    """Names the statements of one scope bind."""
    out, glob = set(), set()
    for s in body:
        for n in walk(s):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    out.add(a.asname or a.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Global):
                glob |= set(n.names)
    return out - glob, glob


def text(n):
    return ast.unparse(n)


def negated(t):
    """(atom, polarity) of a simple condition."""
    pol = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        flip = {ast.NotEq: "==", ast.IsNot: "is", ast.NotIn: "in"}
        same = {ast.Eq: "==", ast.Is: "is", ast.In: "in"}
        order = {ast.Lt: ("<", True), ast.GtE: ("<", False),
                 ast.Gt: ("<=", False), ast.LtE: ("<=", True)}
        o = type(t.ops[0])
        l, r = text(t.left), text(t.comparators[0])
        lc, rc = [isinstance(x, ast.Constant)
                  for x in (t.left, t.comparators[0])]
        mirror = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                  ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq,
                  ast.Is: ast.Is, ast.IsNot: ast.IsNot}
        if o in mirror and (lc and not rc or lc == rc and l > r):
            l, r, o = r, l, mirror[o]
        if o in flip:
            return "%s %s %s" % (l, flip[o], r), not pol
        if o in same:
            return "%s %s %s" % (l, same[o], r), pol
        if o in order:
            s, p = order[o]
            return "%s %s %s" % (l, s, r), pol if p else not pol
    return text(t), pol


class Path(object):
    """One way through a function: what is bound, which tests held."""
    __slots__ = ("bound", "facts")

    def __init__(self, bound, facts=()):
        self.bound, self.facts = frozenset(bound), frozenset(facts)

    def key(self):
        return self.bound, self.facts

    def bind(self, names):
        names = [n for n in names if n]
        if not names:
            return self
        fs = [f for f in self.facts if not any(
            re.search(r"\b%s\b" % re.escape(n), f[0]) for n in names)]
        return Path(self.bound | set(names), fs)

    def know(self, atom, val):
        return Path(self.bound, self.facts | {(atom, val)})

    def zero(self, n):
        return dict(self.facts).get("%s == 0" % n)

    def counts(self, n, zero):
        """A counter that is nought, or is positive."""
        if zero is None:
            return self
        return Path(self.bound, self.facts | {
            ("%s == 0" % n, zero), (n, not zero), ("%s <= 0" % n, zero),
            ("%s < 1" % n, zero)})


class Paths(object):
    """Definite assignment along the paths of one scope.

    Loops are taken to run at least once; tests written alike decide alike
    until a name they mention is bound again.
    """
    LIMIT = 400

    def __init__(self, names, report, attrs=None, calls=None):
        self.names = names          # local names to watch
        self.report = report
        self.attrs = attrs          # name of self, to watch attributes
        self.calls = calls or (lambda m: ())
        self.gave_up = False
        self.returns = []

    def run(self, body, bound=()):
        ps = self.block(body, [Path(bound)])
        return ps + self.returns

    def join(self, ps):
        out = {}
        for p in ps:
            out[p.key()] = p
        if len(out) > self.LIMIT:
            # drop the facts; what is bound on some path counts as bound
            self.gave_up = True
            return [Path(set().union(*[p.bound for p in out.values()]))]
        return list(out.values())

    def block(self, body, ps):
        for s in body:
            if not ps:
                return ps
            ps = self.join(self.stmt(s, ps))
        return ps

    # -- expressions
    def use(self, e, ps):
        """Check the reads of an expression; bind what it binds."""
        if e is None:
            return ps
        if isinstance(e, ast.IfExp):
            yes, no = self.split(e.test, ps)
            return self.join(self.use(e.body, yes) + self.use(e.orelse, no))
        if isinstance(e, ast.BoolOp):
            yes, no = self.split(e, ps)
            return self.join(yes + no)
        for n in self.reads(e):
            k = n.id if isinstance(n, ast.Name) else "self." + n.attr
            for p in ps:
                if k not in p.bound:
                    self.report(n, k, p)
                    break
        if self.attrs:
            got = set()
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    got |= set(self.calls(n))
            if got:
                ps = [p.bind(sorted(got)) for p in ps]
        return ps

    def reads(self, e, hidden=frozenset()):
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            inner = set(hidden)
            for g in e.generators:
                for n in self.reads(g.iter, frozenset(inner)):
                    yield n
                inner |= set(targets(g.target))
                for c in g.ifs:
                    for n in self.reads(c, frozenset(inner)):
                        yield n
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                for n in self.reads(x, frozenset(inner)):
                    yield n
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.names and \
                    e.id not in hidden:
                yield e
            return
        if self.attrs and isinstance(e, ast.Attribute) and isinstance(
                e.value, ast.Name) and e.value.id == self.attrs:
            if isinstance(e.ctx, ast.Load) and "self." + e.attr in self.names:
                yield e
            return
        for c in ast.iter_child_nodes(e):
            for n in self.reads(c, hidden):
                yield n

    def store(self, t, ps):
        for n in walk(t):
            if isinstance(n, ast.Subscript):
                ps = self.use(n.slice, self.use(n.value, ps))
            elif isinstance(n, ast.Attribute):
                ps = self.use(n.value, ps)
        names = list(targets(t))
        if self.attrs:
            for n in walk(t):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == self.attrs and \
                        isinstance(n.ctx, ast.Store):
                    names.append("self." + n.attr)
        return [p.bind(names) for p in ps]

    def split(self, t, ps):
        """Paths on which the test holds, and on which it fails."""
        if isinstance(t, ast.Constant):
            return (ps, []) if t.value else ([], ps)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.split(t.operand, ps)
            return b, a
        if isinstance(t, ast.BoolOp):
            yes, no = ps, []
            if isinstance(t.op, ast.And):
                for v in t.values:
                    yes, n = self.split(v, yes)
                    no = no + n
                return yes, no
            yes, no = [], ps
            for v in t.values:
                y, no = self.split(v, no)
                yes = yes + y
            return yes, no
        ps = self.use(t, ps)
        atom, pol = negated(t)
        yes, no = [], []
        for p in ps:
            f = dict(p.facts).get(atom)
            if f is None:
                yes.append(p.know(atom, pol))
                no.append(p.know(atom, not pol))
            elif f == pol:
                yes.append(p)
            else:
                no.append(p)
        return yes, no

    # -- statements
    def stmt(self, s, ps):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, ps)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                ps = self.use(c, ps)
        return ps

    def s_Expr(self, s, ps):
        ps = self.use(s.value, ps)
        if isinstance(s.value, ast.Call) and text(s.value.func) in LEAVE:
            return []
        return ps

    def s_Assign(self, s, ps):
        ps = self.use(s.value, ps)
        for t in s.targets:
            ps = self.store(t, ps)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n, v = s.targets[0].id, s.value
            if isinstance(v, ast.Constant):
                ps = [p.know(n, bool(v.value)) for p in ps]
                if v.value is None:
                    ps = [p.know(n + " is None", True) for p in ps]
                if type(v.value) is int and v.value == 0:
                    ps = [p.counts(n, True) for p in ps]
            elif isinstance(v, ast.Name):
                ps = [p.counts(n, p.zero(v.id)) for p in ps]
            elif isinstance(v, (ast.List, ast.Dict, ast.Tuple)):
                ps = [p.know(n + " is None", False) for p in ps]
        return ps

    def s_AnnAssign(self, s, ps):
        if s.value is None:
            return ps
        return self.store(s.target, self.use(s.value, ps))

    def s_AugAssign(self, s, ps):
        ps = self.use(s.value, ps)
        t = s.target
        if isinstance(t, ast.Name):
            t2 = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            ps = self.use(t2, ps)
            if isinstance(s.op, ast.Add) and isinstance(
                    s.value, ast.Constant) and type(s.value.value) is int \
                    and s.value.value > 0:
                # a counter that started at nought is positive from here on
                was = [p.zero(t.id) for p in ps]
                ps = self.store(t, ps)
                return [p if z is None else p.counts(t.id, False)
                        for p, z in zip(ps, was)]
        elif isinstance(t, ast.Attribute):
            t2 = ast.copy_location(ast.Attribute(
                value=t.value, attr=t.attr, ctx=ast.Load()), t)
            ps = self.use(t2, ps)
        return self.store(t, ps)

    def s_Delete(self, s, ps):
        for t in s.targets:
            ps = self.store(t, ps) if not isinstance(t, ast.Name) else [
                Path(p.bound - {t.id}, p.facts) for p in ps]
        return ps

    def s_FunctionDef(self, s, ps):
        for d in s.decorator_list + s.args.defaults + [
                x for x in s.args.kw_defaults if x]:
            ps = self.use(d, ps)
        return [p.bind([s.name]) for p in ps]

    def s_ClassDef(self, s, ps):
        for d in s.decorator_list + s.bases:
            ps = self.use(d, ps)
        return [p.bind([s.name]) for p in ps]

    def s_Import(self, s, ps):
        return [p.bind([a.asname or a.name.split(".")[0]
                        for a in s.names]) for p in ps]

    def s_ImportFrom(self, s, ps):
        return [p.bind([a.asname or a.name for a in s.names]) for p in ps]

    def s_Return(self, s, ps):
        self.returns += self.use(s.value, ps)
        return []

    def s_Raise(self, s, ps):
        self.use(s.exc, ps)
        return []

    def s_Assert(self, s, ps):
        yes, no = self.split(s.test, ps)
        self.use(s.msg, no)
        return yes

    def s_If(self, s, ps):
        yes, no = self.split(s.test, ps)
        return self.block(s.body, yes) + self.block(s.orelse, no)

    def loop(self, body, ps, orelse, after=None):
        old = getattr(self, "brk", None), getattr(self, "cnt", None)
        brk = []
        # twice: the second turn sees what the first one bound
        for turn in range(2):
            self.brk, self.cnt = brk, []
            end = self.block(*body(ps, turn))
            ps = self.join(end + self.cnt)
            if turn == 0:
                first = ps
        self.brk, self.cnt = old
        end = self.join(first + ps)
        if end or brk:
            # what some turn binds is taken to be found by some turn
            some = sorted(set().union(*[p.bound for p in end + brk]))
            end = [Path(p.bound | set(some), p.facts) for p in end]
            brk = [Path(p.bound | set(some), p.facts) for p in brk]
        if after is not None:
            end = after(end)
        return self.block(orelse, end) + brk

    def s_For(self, s, ps):
        ps = self.use(s.iter, ps)
        n, it = s.target, s.iter
        if isinstance(n, ast.Tuple):
            n = n.elts[0]
        counts = isinstance(n, ast.Name) and isinstance(it, ast.Call) and \
            isinstance(it.func, ast.Name) and not it.keywords and (
                it.func.id == "enumerate" and len(it.args) == 1 and
                n is not s.target or it.func.id in ("range", "xrange") and (
                    len(it.args) == 1 or len(it.args) == 2 and isinstance(
                        it.args[0], ast.Constant) and
                    it.args[0].value == 0))

        def body(ps, turn):
            ps = self.store(s.target, ps)
            if counts:
                # the first turn is number 0, no other one is
                ps = [p.counts(n.id, turn == 0) for p in ps]
            return s.body, ps
        return self.loop(body, ps, s.orelse)

    def s_While(self, s, ps):
        endless = isinstance(s.test, ast.Constant) and s.test.value
        forget = [n for n in bindings(s.body)[0]]

        def fresh(p):
            return [x.bind(sorted(x.bound & set(forget))) for x in p]
        return self.loop(
            lambda p, turn: (s.body, self.split(s.test, fresh(p))[0]), ps,
            s.orelse, lambda p: [] if endless else
            [Path(x.bound) for x in p])

    def s_Break(self, s, ps):
        self.brk += ps
        return []

    def s_Continue(self, s, ps):
        self.cnt += ps
        return []

    def s_With(self, s, ps):
        for i in s.items:
            ps = self.use(i.context_expr, ps)
            if i.optional_vars is not None:
                ps = self.store(i.optional_vars, ps)
        return self.block(s.body, ps)

    def s_Try(self, s, ps):
        start = ps
        # an exception may come before anything of the first statement that
        # can fail is bound, not before the plain assignments in front of it
        body = list(s.body)
        while body and harmless(body[0]):
            start = self.block(body[:1], start)
            body = body[1:]
        got = self.block(body, start)
        got = self.block(s.orelse, got)
        for h in s.handlers:
            hp = self.use(h.type, start)
            hp = [p.bind([h.name]) for p in hp] if h.name else hp
            got = got + self.block(h.body, [Path(p.bound) for p in hp])
        return self.block(s.finalbody, self.join(got)) if s.finalbody \
            else got


def harmless(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Assign) and all(
        isinstance(n, (ast.Constant, ast.Name, ast.List, ast.Tuple, ast.Dict,
                       ast.Load, ast.Store, ast.Assign))
        for n in ast.walk(s))


# ------------------------------------------------------------- imports
class Imports(object):
    """Executes the top levels of the modules, binding names only."""

    def __init__(self, p, report):
        self.p, self.report = p, report
        self.count = 0

    def enter(self, name):
        self.bound, self.state = {}, {}
        self.entry = name
        self.load(name)

    def load(self, name):
        """Import a module and the packages it is in."""
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            m = ".".join(parts[:i])
            if m in self.state:
                continue
            if m not in self.p.modules:
                return False
            self.state[m] = "running"
            self.bound[m] = set()
            self.body(self.p.modules[m], self.p.modules[m].tree.body)
            self.state[m] = "done"
            if i > 1:
                self.bound[".".join(parts[:i - 1])].add(parts[i - 1])
        return True

    def fail(self, m, n, what):
        self.report(m, n, "%s (importing %s)" % (what, self.entry))

    def local(self, m, name):
        """Implicit relative import: a sibling module of that name."""
        pkg = m.name if m.is_pkg else m.name.rpartition(".")[0]
        s = pkg + "." + name if pkg else name
        return s if s.split(".")[0] == "echidna" and s in self.p.modules \
            else name

    def body(self, m, body, guarded=False):
        for s in body:
            self.stmt(m, s, guarded)

    def stmt(self, m, s, guarded):
        b = self.bound[m.name]
        if isinstance(s, ast.Import):
            for a in s.names:
                self.count += 1
                name = self.local(m, a.name) if m.py2 else a.name
                if name.split(".")[0] == "echidna":
                    if not self.load(name) and not guarded:
                        self.fail(m, s, "no module %s" % name)
                    elif a.asname and self.state.get(name) == "running" \
                            and "." in name and name != m.name:
                        self.fail(m, s, "module %s is still being imported"
                                  % name)
                b.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = ".".join(parts + ([s.module] if s.module else []))
            elif m.py2:
                base = self.local(m, base)
            ours = base.split(".")[0] == "echidna"
            ok = self.load(base) if ours else True
            if not ok and not guarded:
                self.fail(m, s, "no module %s" % base)
            for a in s.names:
                self.count += 1
                if ours and ok and a.name == "*":
                    b |= self.bound[base]
                    continue
                if ours and ok and a.name not in self.bound[base] and \
                        not self.load(base + "." + a.name) and not guarded:
                    self.fail(m, s, "%s has no %s%s" % (
                        base, a.name, " yet" if self.state[base] ==
                        "running" else ""))
                b.add(a.asname or a.name)
        elif isinstance(s, ast.If):
            if "__name__" in text(s.test) and "__main__" in text(s.test):
                return
            self.body(m, s.body, guarded)
            self.body(m, s.orelse, guarded)
        elif isinstance(s, ast.Try):
            g = any(h.type is None or any(
                x in text(h.type) for x in
                ("ImportError", "Exception", "AttributeError"))
                for h in s.handlers)
            self.body(m, s.body, guarded or g)
            for h in s.handlers:
                self.body(m, h.body, guarded)
            self.body(m, s.orelse, guarded)
            self.body(m, s.finalbody, guarded)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            got, _ = bindings([s])
            b |= got
            self.body(m, s.body, guarded)
        elif isinstance(s, ast.ClassDef):
            for x in s.bases + s.decorator_list:
                self.chain(m, x)
            self.body_of_class(m, s)
            b.add(s.name)
        elif isinstance(s, ast.FunctionDef):
            for x in s.decorator_list + s.args.defaults:
                self.chain(m, x)
            b.add(s.name)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.chain(m, x)
            got, _ = bindings([s])
            b |= got

    def body_of_class(self, m, s):
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                for y in x.args.defaults:
                    self.chain(m, y)
            elif isinstance(x, (ast.Assign, ast.Expr)):
                self.chain(m, x.value)

    def chain(self, m, e):
        """Attributes of package modules read while importing."""
        for n in walk(e):
            if isinstance(n, ast.Attribute):
                d = self.p.dotted(m, n)
                if d and d.split(".")[0] == "echidna":
                    base, name = d.rsplit(".", 1)
                    if base in self.bound and name not in self.bound[base]:
                        self.fail(m, n, "%s has no %s%s" % (
                            base, name, " yet" if self.state.get(base) ==
                            "running" else ""))


# ------------------------------------------------------------- values
PY, ANY = ("py",), ("?",)
GROW = {"append": 0, "add": 0, "insert": 1, "setdefault": 1, "appendleft": 0}
SAMEBOX = set("sorted list tuple reversed set iter copy.copy copy.deepcopy "
              "filter".split())
DOC = re.compile(r"^\s*(\w+)\s*\((.*?)\)\s*:", re.M | re.S)
REFC = re.compile(r":class:`([\w.]+)`")


def doctypes(p, module, doc):
    out = {}
    for m in DOC.finditer(doc or ""):
        inside = m.group(2)
        if ":class:" not in inside or len(inside) > 200:
            continue
        ts = set()
        for r in REFC.findall(inside):
            c = p.lookup_dotted(r, Class) if "." in r else (
                p.lookup_class(module, r))
            if c is None and p.has_cls(r.split(".")[-1]):
                cs = p.classes_by_name[r.split(".")[-1]]
                c = cs[0] if len(cs) == 1 else None
            ts.add(("inst", c) if c is not None else ANY)
        rest = REFC.sub("", inside).replace("optional", "").strip(" ,\n")
        if rest:
            ts.add(ANY)
        out.setdefault(m.group(1), set()).update(ts)
    return out


class Scope(object):
    def __init__(self, module, key, parent=None, cls=None, func=None):
        self.module, self.key, self.parent = module, key, parent
        self.cls, self.func = cls, func
        self.vars = {}
        self.local = set()
        self.narrowed = set()


class Types(object):
    def __init__(self, p):
        self.p = p
        self.attrs, self.boxes, self.rets, self.pars = {}, {}, {}, {}
        self.loose, self.docs, self.declared = set(), {}, set()
        self.scopes = {}
        self.changed = True
        self.visit = None
        for f in self.functions():
            self.prepare(f)
        for m in self.modules():
            self.scopes[m.name] = Scope(m, m.name)
            for c in m.classes.values():
                for k, ts in doctypes(p, m, ast.get_docstring(
                        c.node)).items():
                    if k.startswith("_") and ANY not in ts:
                        self.docs.setdefault((c.qual, k), set()).update(ts)
        for turn in range(40):
            self.changed = False
            self.sweep()
            if not self.changed:
                break
        self.turns = turn + 1

    def modules(self):
        for m in sorted(self.p.modules.values(), key=lambda m: m.name):
            if not m.name.startswith("echidna.test"):
                yield m

    def functions(self):
        return self.p.all_functions()

    def prepare(self, f):
        a = f.node.args
        doc = doctypes(self.p, f.module, ast.get_docstring(f.node))
        if f.cls is not None and f.name == "__init__":
            for k, v in doctypes(self.p, f.module, ast.get_docstring(
                    f.cls.node)).items():
                doc.setdefault(k, v)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ts = set(doc.get(x.arg, ()))
            self.pars[(f.qual, x.arg)] = ts
            if ts and ANY not in ts:
                self.declared.add((f.qual, x.arg))

    def put(self, table, key, ts):
        old = table.setdefault(key, set())
        if not ts <= old:
            old |= ts
            self.changed = True

    # -- sweep over all code
    def sweep(self, visit=None):
        self.visit = visit
        for m in self.modules():
            s = self.scopes[m.name]
            self.sc = s
            self.stmts(m.tree.body)
        self.visit = None

    def function(self, node, outer, f=None, cls=None):
        key = f.qual if f is not None else "%s.%s" % (outer.key, node.name)
        s = self.scopes.get(key)
        if s is None:
            s = self.scopes[key] = Scope(outer.module, key, outer, cls, f)
            s.local = bindings(node.body)[0] | set(params(node.args))
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id in (
                            "isinstance", "type", "hasattr", "issubclass",
                            "getattr", "callable") and n.args:
                    s.narrowed.add(text(n.args[0]))
        args = [x.arg for x in node.args.posonlyargs + node.args.args]
        if f is not None:
            for i, x in enumerate(args):
                ts = set(self.pars.get((f.qual, x), ()))
                if i == 0 and cls is not None and not f.static:
                    ts = {("cls", cls)} if f.classmethod else \
                        {("inst", cls)}
                self.put(s.vars, x, ts)
        else:
            for x in args:
                self.put(s.vars, x, {ANY})
        for x in [node.args.vararg, node.args.kwarg]:
            if x is not None:
                self.put(s.vars, x.arg, {PY})
        old, self.sc = self.sc, s
        self.stmts(node.body)
        self.sc = old

    def stmts(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if self.visit is not None:
            self.visit("stmt", s, None, self.sc)
        if isinstance(s, ast.FunctionDef):
            for d in s.args.defaults:
                self.ev(d)
            outer, f, cls = self.sc, None, None
            if outer.key == outer.module.name:
                f = outer.module.functions.get(s.name)
                if f is not None and f.node is not s:
                    f = None
            self.function(s, outer, f, cls)
        elif isinstance(s, ast.ClassDef):
            c = self.sc.module.classes.get(s.name)
            for x in s.body:
                if isinstance(x, ast.FunctionDef) and c is not None:
                    f = c.methods.get(x.name)
                    self.function(x, self.sc, f if f is not None and
                                  f.node is x else None, c)
                elif isinstance(x, ast.Assign):
                    ts = self.ev(x.value)
                    for t in x.targets:
                        if isinstance(t, ast.Name) and c is not None:
                            self.put(self.attrs, (c.qual, t.id), ts)
        elif isinstance(s, ast.Assign):
            ts = self.ev(s.value)
            for t in s.targets:
                self.store(t, ts, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Attribute):
                self.attribute(t, load=True)
            elif isinstance(t, ast.Subscript):
                self.ev(t.value)
                self.ev(t.slice)
        elif isinstance(s, ast.Return):
            ts = self.ev(s.value) if s.value is not None else set()
            if self.sc.func is not None:
                self.put(self.rets, self.sc.func.qual, ts)
        elif isinstance(s, ast.For):
            self.bindloop(s.target, s.iter)
            self.stmts(s.body)
            self.stmts(s.orelse)
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                if h.type is not None:
                    self.ev(h.type)
                if h.name:
                    self.put(self.sc.vars, h.name, {ANY})
            self.stmts(s.body)
            for h in s.handlers:
                self.stmts(h.body)
            self.stmts(s.orelse)
            self.stmts(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                ts = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, {ANY}, None)
            self.stmts(s.body)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            if self.sc.parent is not None:
                for a in s.names:
                    name = a.asname or a.name.split(".")[0]
                    d = (s.module or "") + "." + a.name if isinstance(
                        s, ast.ImportFrom) else (
                            a.name if a.asname else name)
                    self.put(self.sc.vars, name, self.dotted(d))
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)
                elif isinstance(c, ast.stmt):
                    self.stmt(c)

    def bindloop(self, target, it):
        ts = self.ev(it)
        pair = isinstance(it, ast.Call) and (
            isinstance(it.func, ast.Attribute) and it.func.attr in (
                "items", "iteritems") or isinstance(it.func, ast.Name) and
            it.func.id == "enumerate")
        el = self.elems(ts)
        if pair and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.store(target.elts[0], {PY}, None)
            self.store(target.elts[1], el, None)
        else:
            self.store(target, {ANY} if pair else el, None)

    def elems(self, ts):
        out = set()
        for t in ts:
            if t[0] == "box":
                out |= self.boxes.get(t[1], set())
            elif t != PY:
                out.add(ANY)
            else:
                out.add(ANY)
        return out

    def store(self, t, ts, value):
        if isinstance(t, ast.Name):
            sc = self.sc
            if t.id not in sc.local and sc.parent is not None:
                sc = self.scopes[sc.module.name]
            self.put(sc.vars, t.id, ts)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            hit = False
            for b in base:
                if b[0] == "inst":
                    self.put(self.attrs, (b[1].qual, t.attr), ts)
                    hit = True
                elif b[0] == "cls":
                    self.put(self.attrs, (b[1].qual, t.attr), ts)
                    hit = True
                elif b[0] == "mod":
                    hit = True
            if not hit or ANY in base:
                self.loose.add(t.attr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            if not isinstance(t.slice, ast.Slice):
                for b in base:
                    if b[0] == "box":
                        self.put(self.boxes, b[1], ts)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.store(x, self.ev(v), v)
            else:
                for x in t.elts:
                    self.store(x, {ANY}, None)
        elif isinstance(t, ast.Starred):
            self.store(t.value, {ANY}, None)

    # -- expressions
    def dotted(self, d, _d=0):
        if d in self.p.modules:
            return {("mod", d)}
        r = self.p.lookup_dotted(d)
        if isinstance(r, Class):
            return {("cls", r)}
        if isinstance(r, Func):
            return {("func", r, None)}
        if "." in d and _d < 5:
            base, name = d.rsplit(".", 1)
            m = self.p.modules.get(base)
            if m is not None:
                if name in m.imports and m.imports[name] != d:
                    return self.dotted(m.imports[name], _d + 1)
                s = self.scopes.get(base)
                if s is not None and name in s.vars:
                    return set(s.vars[name])
        return {ANY}

    def name(self, n, sc):
        s = sc
        while s is not None and s.parent is not None:
            if n in s.local:
                return set(s.vars.get(n, ()))
            s = s.parent
        m = sc.module
        if n in m.classes:
            return {("cls", m.classes[n])}
        if n in m.functions:
            return {("func", m.functions[n], None)}
        if n in m.imports:
            return self.dotted(m.imports[n])
        v = self.scopes[m.name].vars
        if n in v:
            return set(v[n])
        return {ANY}

    def ev(self, e):
        if e is None:
            return set()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
            elif isinstance(c, ast.comprehension):
                self.bindloop(c.target, c.iter)
        return {PY}

    def e_Constant(self, e):
        return set() if e.value is None else {PY}

    def e_Name(self, e):
        if e.id == "None":
            return set()
        return self.name(e.id, self.sc)

    def e_Lambda(self, e):
        outer = self.sc
        s = Scope(outer.module, outer.key + ".<lambda>", outer, outer.cls)
        s.local = set(params(e.args))
        for x in s.local:
            s.vars[x] = {ANY}
        self.scopes.setdefault(s.key, s)
        self.sc = s
        self.ev(e.body)
        self.sc = outer
        return {ANY}

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_BoolOp(self, e):
        out = set()
        for v in e.values:
            out |= self.ev(v)
        return out

    def literal(self, e, values):
        key = ("lit", self.sc.key, e.lineno, e.col_offset)
        for v in values:
            self.put(self.boxes, key, self.ev(v))
        self.boxes.setdefault(key, set())
        return {("box", key)}

    def e_List(self, e):
        return self.literal(e, e.elts)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e):
        for k in e.keys:
            self.ev(k)
        return self.literal(e, e.values)

    def comp(self, e, values):
        old = self.sc
        key = ("comp", old.key, e.lineno, e.col_offset)
        s = self.scopes.get(key)
        if s is None:
            s = self.scopes[key] = Scope(old.module, old.key, old, old.cls,
                                         old.func)
            s.narrowed = old.narrowed
        self.sc = s
        for g in e.generators:
            s.local |= set(targets(g.target))
            self.bindloop(g.target, g.iter)
            for c in g.ifs:
                self.ev(c)
        key = ("lit", old.key, e.lineno, e.col_offset)
        for v in values:
            self.put(self.boxes, key, self.ev(v))
        self.sc = old
        return {("box", key)}

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.value])

    def e_Subscript(self, e):
        ts = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            return ts
        return self.elems(ts)

    def e_Attribute(self, e):
        return self.attribute(e)

    def fields(self, c, name):
        """Types stored under this attribute of instances of class c."""
        out, known = set(), False
        for k in self.p.mro(c) + self.p.subclasses(c):
            if (k.qual, name) in self.attrs:
                known = True
                out |= self.attrs[(k.qual, name)]
        if known and not out:
            for k in self.p.mro(c):
                out |= self.docs.get((k.qual, name), set())
        return out if known else None

    def attribute(self, e, load=True):
        base = self.ev(e.value)
        if self.visit is not None and load:
            self.visit("attr", e, base, self.sc)
        out = set()
        for b in base:
            if b[0] == "mod":
                out |= self.dotted(b[1] + "." + e.attr)
            elif b[0] in ("inst", "cls", "super"):
                c = b[1]
                if e.attr == "__class__":
                    out.add(("cls", c))
                    continue
                chain = self.p.mro(c)
                if b[0] == "super":
                    chain = chain[1:]
                f = None
                for k in chain:
                    if e.attr in k.methods:
                        f = k.methods[e.attr]
                        break
                if f is not None:
                    if f.property:
                        out |= self.rets.get(f.qual, set())
                    elif f.static:
                        out.add(("func", f, None))
                    elif b[0] == "cls" and not f.classmethod:
                        out.add(("func", f, None))
                    else:
                        out.add(("func", f, c))
                    if b[0] == "inst":
                        for k in self.p.subclasses(c):
                            g = k.methods.get(e.attr)
                            if g is not None and not g.property and \
                                    not g.static:
                                out.add(("func", g, c))
                    continue
                ts = self.fields(c, e.attr)
                out |= {ANY} if ts is None else ts
            else:
                out.add(ANY)
        return out

    def e_Call(self, e):
        fn = text(e.func)
        if fn == "super":
            if len(e.args) == 2 and isinstance(e.args[0], ast.Name):
                c = self.p.lookup_class(self.sc.module, e.args[0].id)
                if c is not None:
                    return {("super", c)}
            if not e.args and self.sc.cls is not None:
                return {("super", self.sc.cls)}
            return {ANY}
        fts = self.ev(e.func)
        args = [(None, self.ev(a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        if self.visit is not None:
            self.visit("call", e, fts, self.sc)
        if fn in SAMEBOX and args:
            return set(args[0][1])
        if fn == "enumerate" and args:
            return set(args[0][1])
        if fn in ("dict", "OrderedDict", "collections.OrderedDict",
                  "list") and not e.args:
            return self.literal(e, [k.value for k in e.keywords])
        if fn == "type" and len(args) == 1:
            return set(("cls", t[1]) if t[0] == "inst" else ANY
                       for t in args[0][1])
        if fn in ("getattr",) and len(args) >= 2:
            return {ANY}
        out = set()
        if isinstance(e.func, ast.Attribute):
            for b in self.ev(e.func.value):
                if b[0] != "box":
                    continue
                a = e.func.attr
                if a in GROW and len(args) > GROW[a]:
                    self.put(self.boxes, b[1], args[GROW[a]][1])
                if a == "extend" and args or a == "update" and args:
                    self.put(self.boxes, b[1], self.elems(args[0][1]))
                if a in ("get", "pop", "setdefault"):
                    out |= self.boxes.get(b[1], set())
                elif a in ("values", "itervalues", "copy", "items",
                           "iteritems"):
                    out.add(b)
                elif a in ("keys", "iterkeys"):
                    out.add(PY)
        for f in fts:
            if f[0] == "cls":
                out.add(("inst", f[1]))
                g = self.p.find_method(f[1], "__init__")
                if g is not None:
                    self.passed(g, 1, e, args, kws)
            elif f[0] == "func":
                self.passed(f[1], 1 if f[2] is not None else 0, e, args, kws)
                if f[1].abstract:
                    out.add(ANY)
                ts = set(self.rets.get(f[1].qual, set()))
                out |= ts
            elif f == ANY and not out:
                out.add(ANY)
        return out

    def passed(self, f, skip, e, args, kws):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        for i, (x, ts) in enumerate(args):
            if isinstance(e.args[i], ast.Starred):
                break
            if i < len(names) and not self.narrow(e.args[i]):
                self.give((f.qual, names[i]), ts)
        for (k, ts), x in zip(kws, e.keywords):
            if k is not None and k in names and not self.narrow(x.value):
                self.give((f.qual, k), ts)

    def give(self, key, ts):
        if key not in self.declared:
            self.put(self.pars, key, ts)

    def narrow(self, x):
        """Is the type of this value tested somewhere around?"""
        s, t = self.sc, text(x)
        while s is not None:
            if t in s.narrowed:
                return True
            s = s.parent
        return False


# ------------------------------------------------------------- arguments
def misfits(f, skip, call):
    """Why the arguments of the call do not fit the function, or None."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    need = len(a.posonlyargs + a.args) - len(a.defaults) - skip
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and a.vararg is None:
        return "%d positional arguments, at most %d taken" % (n, len(pos))
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in pos[:n] and not star:
            return "argument %s given twice" % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return "no argument %s" % k.arg
    if star or dstar:
        return None
    given = set(pos[:n]) | set(k.arg for k in call.keywords)
    for x in pos[:max(need, 0)]:
        if x not in given:
            return "argument %s missing" % x
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return "argument %s missing" % x.arg
    return None


def external(p, c):
    """Does the class inherit from something outside the package?"""
    for k in p.mro(c):
        for b in k.node.bases:
            if text(b) == "object":
                continue
            if p.resolve_class_expr(k.module, b) is None:
                return True
    return False
