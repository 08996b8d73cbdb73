"""Local names for an element of a container.

The value analysis keeps containers as values; `x = d[k]; x[n] = v` has to
reach d.  Where a local name is bound once to an element of a container and is
then modified through, the name is replaced by the element's path; and
`d.setdefault(k, new)` becomes the test and the store it stands for.  Only
rewritten when nothing the path is made of can change in between.
"""
import ast
import copy

MUTATORS = {"append", "extend", "insert", "update", "setdefault", "pop",
            "popitem", "clear", "remove", "sort", "reverse", "add", "discard"}
# these move or drop what is in the container
MOVES = {"insert", "pop", "popitem", "clear", "remove", "sort", "reverse"}
FRESH = {"OrderedDict", "dict", "list", "set", "defaultdict"}


def chain(n):
    return isinstance(n, ast.Name) or isinstance(n, ast.Attribute) and \
        chain(n.value)


def simple(n):
    return chain(n) or isinstance(n, ast.Constant) and isinstance(
        n.value, (str, int))


def path(n):
    """Names, attributes and items (by names and constants) of them."""
    if isinstance(n, ast.Subscript):
        return path(n.value) and simple(n.slice)
    return chain(n)


def names(n):
    return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name))


def prefixes(n):
    out = []
    while isinstance(n, ast.Subscript):
        n = n.value
        out.append(ast.dump(load(n)))
    return out


def load(n):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


class Info(object):
    def __init__(self, f):
        self.f = f
        self.order, self.parents = {}, {}
        self.stores, self.uses = {}, {}
        self.nested = set()
        self.walk(f)

    def walk(self, f):
        todo = [(f, None)]

        def visit(n, loops):
            self.order[id(n)] = len(self.order)
            self.parents[id(n)] = loops
            if isinstance(n, ast.Name):
                (self.uses if isinstance(n.ctx, ast.Load)
                 else self.stores).setdefault(n.id, []).append(n)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                              ast.SetComp, ast.DictComp, ast.GeneratorExp,
                              ast.ClassDef)) and n is not f:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        if isinstance(n, (ast.FunctionDef, ast.Lambda,
                                          ast.ClassDef)) or not isinstance(
                                              x.ctx, ast.Load):
                            self.nested.add(x.id)
            if isinstance(n, ast.Assign):
                # what is bound comes after what it is bound to
                kids = [n.value] + n.targets
            elif isinstance(n, ast.AugAssign):
                kids = [n.value, n.target]
            elif isinstance(n, (ast.For, ast.While)):
                kids = []
                head = [n.iter] if isinstance(n, ast.For) else []
                for k in head:
                    visit(k, loops)
                inner = loops + (n,)
                for k in ([n.target] if isinstance(n, ast.For)
                          else [n.test]) + n.body:
                    visit(k, inner)
                for k in n.orelse:
                    visit(k, loops)
            else:
                kids = list(ast.iter_child_nodes(n))
            for k in kids:
                visit(k, loops)
        visit(f, ())


def mutated(f, name):
    """Is something stored into what name holds?"""
    for n in ast.walk(f):
        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
            b = n.value
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
        else:
            continue
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name) and b.id == name:
            return True
    return False


def arrayish(info, f, p):
    """May an item of the path be a copy (an index that is not one item)?"""
    n = p
    while isinstance(n, ast.Subscript):
        if isinstance(n.slice, ast.Name):
            for a in ast.walk(f):
                if isinstance(a, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == n.slice.id
                        for t in a.targets) and isinstance(
                        a.value, (ast.Compare, ast.List, ast.ListComp,
                                  ast.Tuple, ast.UnaryOp, ast.BoolOp)):
                    return True
                if isinstance(a, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == n.slice.id
                        for t in a.targets) and isinstance(
                        a.value, ast.Call) and ("numpy" in ast.unparse(
                            a.value.func) or ast.unparse(a.value.func) in (
                                "slice", "tuple", "list")):
                    return True
        n = n.value
    return isinstance(n, ast.Attribute) and n.attr in ("_data",)


def stable(info, f, stmt, name, p):
    """Nothing the path is made of changes between its binding and the
    last use of the name, and the element is not replaced."""
    at = info.order[id(stmt)]
    loops = info.parents[id(stmt)]
    uses = info.uses.get(name, [])
    if any(info.order[id(u)] < at for u in uses):
        return False
    if loops and any(info.parents[id(u)][:len(loops)] != loops
                     for u in uses):
        return False
    end = max([info.order[id(u)] for u in uses] or [at])
    args = set(a.arg for a in f.args.args + f.args.posonlyargs +
               f.args.kwonlyargs)
    for x in names(p):
        ss = info.stores.get(x, [])
        if x in args and not ss:
            continue
        if x in args or x in info.nested:
            return False
        for s in ss:
            if info.order[id(s)] > at and (
                    info.order[id(s)] < end or
                    loops and info.parents[id(s)][:1] == loops[:1]):
                # bound anew while the name is in use
                return False
        ss = [s for s in ss if info.order[id(s)] < at]
        if len(ss) > 1:
            last = max(ss, key=lambda s: info.order[id(s)])
            if info.parents[id(last)] != loops[:len(
                    info.parents[id(last)])]:
                return False
    keys = set(prefixes(p))
    for n in ast.walk(f):
        if id(n) not in info.order or info.order[id(n)] < at or \
                info.order[id(n)] > end and not (
                    loops and info.parents[id(n)][:1] == loops[:1]):
            continue
        b = None
        if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(
                n.ctx, ast.Load):
            if isinstance(n, ast.Attribute):
                # the attribute itself is bound anew
                d = ast.dump(load(n))
                if d in keys:
                    return False
                continue
            b = n.value
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in MOVES:
            b = n.func.value
        if b is not None and ast.dump(load(b)) in keys:
            return False
    return True


class Put(ast.NodeTransformer):
    def __init__(self, name, p):
        self.name, self.p = name, p

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            q = load(self.p)
            for x in ast.walk(q):
                ast.copy_location(x, n)
            return q
        return n


def ensure(p, k, new, at):
    """if k not in p: p[k] = new"""
    t = ast.If(
        test=ast.Compare(left=load(k), ops=[ast.NotIn()],
                         comparators=[load(p)]),
        body=[ast.Assign(targets=[ast.Subscript(
            value=load(p), slice=load(k), ctx=ast.Store())], value=new)],
        orelse=[])
    for x in ast.walk(t):
        ast.copy_location(x, at)
    return ast.fix_missing_locations(t)


def fresh(n):
    if isinstance(n, (ast.List, ast.Dict)):
        return not any(isinstance(x, ast.Call) for x in ast.walk(n))
    if isinstance(n, ast.Call):
        return ast.unparse(n.func).split(".")[-1] in FRESH and \
            not n.args and not n.keywords
    return False


class Defaults(ast.NodeTransformer):
    """Statements that set a default and use what is then there."""

    def block(self, body):
        out = []
        for s in body:
            pre = []
            if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)):
                for n in list(ast.walk(s)):
                    for fld, v in list(ast.iter_fields(n)):
                        vs = v if isinstance(v, list) else [v]
                        for i, c in enumerate(vs):
                            if self.isdefault(c) and not any(
                                    isinstance(x, (ast.Lambda, ast.ListComp,
                                                   ast.GeneratorExp,
                                                   ast.IfExp, ast.BoolOp))
                                    for x in ast.walk(s)):
                                pre.append(ensure(c.func.value, c.args[0],
                                                  c.args[1], c))
                                new = ast.copy_location(ast.Subscript(
                                    value=c.func.value, slice=c.args[0],
                                    ctx=ast.Load()), c)
                                if isinstance(v, list):
                                    v[i] = new
                                else:
                                    setattr(n, fld, new)
            out += pre
            for fld in ("body", "orelse", "finalbody"):
                if getattr(s, fld, None) and isinstance(
                        getattr(s, fld), list):
                    setattr(s, fld, self.block(getattr(s, fld)))
            for h in getattr(s, "handlers", ()):
                h.body = self.block(h.body)
            if isinstance(s, ast.Expr) and pre and isinstance(
                    s.value, ast.Subscript):
                continue
            out.append(s)
        return out

    def isdefault(self, c):
        return isinstance(c, ast.Call) and isinstance(
            c.func, ast.Attribute) and c.func.attr == "setdefault" and \
            len(c.args) == 2 and not c.keywords and path(c.func.value) and \
            simple(c.args[0]) and fresh(c.args[1])


def candidates(f, info):
    for s in ast.walk(f):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                isinstance(s.targets[0], ast.Name)):
            continue
        x, p = s.targets[0].id, s.value
        if not isinstance(p, ast.Subscript) or not path(p):
            continue
        if len(info.stores.get(x, ())) != 1 or x in info.nested or \
                x in names(p):
            continue
        if x in set(a.arg for a in f.args.args):
            continue
        if mutated(f, x) and not arrayish(info, f, p) and \
                stable(info, f, s, x, p):
            yield s, x, p


def only_members(f):
    """Local sets that are only added to and asked for members: what is asked
    is the same of a list."""
    own = {}
    for s in ast.walk(f):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == "set" and not v.args and not v.keywords:
                own.setdefault(s.targets[0].id, []).append(s)
    for x, made in own.items():
        fine, adds = set(id(s.targets[0]) for s in made), []
        for n in ast.walk(f):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Attribute) and \
                    n.value.func.attr == "add" and \
                    isinstance(n.value.func.value, ast.Name) and \
                    n.value.func.value.id == x and \
                    len(n.value.args) == 1 and not n.value.keywords:
                fine.add(id(n.value.func.value))
                adds.append(n.value.func)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                    isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                    isinstance(n.comparators[0], ast.Name):
                fine.add(id(n.comparators[0]))
        uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and
                n.id == x]
        args = [a.arg for a in ast.walk(f) if isinstance(a, ast.arg)]
        if x in args or not all(id(n) in fine for n in uses):
            continue
        for s in made:
            s.value = ast.copy_location(ast.List(elts=[], ctx=ast.Load()),
                                        s.value)
        for a in adds:
            a.attr = "append"


def rewrite(f):
    only_members(f)
    text = [n for n in ast.walk(f) if isinstance(n, ast.Subscript)]
    calls = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and
             n.attr == "setdefault"]
    if not text and not calls:
        return f
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
        return f
    if calls:
        f.body = Defaults().block(f.body)
    for _ in range(6):
        info = Info(f)
        c = next(candidates(f, info), None)
        if c is None:
            break
        s, x, p = c
        at = info.order[id(s)]
        put = Put(x, p)
        for n in list(ast.walk(f)):
            if n is s:
                continue
            for fld, v in list(ast.iter_fields(n)):
                if isinstance(v, ast.Name):
                    setattr(n, fld, put.visit_Name(v))
                elif isinstance(v, list):
                    for i, q in enumerate(v):
                        if isinstance(q, ast.Name):
                            v[i] = put.visit_Name(q)
        # the binding itself goes
        for n in ast.walk(f):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and s in b:
                    b[b.index(s)] = ast.copy_location(ast.Pass(), s)
    return f
