"""Gated value-flow analysis (abstract interpretation to a value graph).

One structured pass per function.  Joins produce gated values, loops are
summarised (accumulations, maps, sweeps, searches), repository callees are
inlined (so an extracted helper changes nothing), and every observable effect
is recorded as an event with the facts that dominate it.  No code is run and no
path is enumerated or handed to a solver.
"""
import ast
import copy
from fractions import Fraction

from . import terms as T
from .terms import raw, val, ptr, TRUE, FALSE, NONE, ZERO, ONE
from .program import AnalysisBroken, Class, Func, Module

PLAIN = set("str unicode int long float bool list dict tuple set".split())
BUILTINS = set("""abs all any bool callable chr dict dir divmod enumerate eval
exec filter float format getattr hasattr hash id input int isinstance issubclass
iter len list map max min next object open ord pow print property range repr
reversed round set setattr slice sorted staticmethod str sum super tuple type
unicode vars xrange zip raw_input long basestring reduce file classmethod
frozenset globals locals __import__ None True False NotImplemented Ellipsis
ArithmeticError AssertionError AttributeError BaseException EOFError Exception
IOError ImportError IndexError KeyError KeyboardInterrupt LookupError NameError
NotImplementedError OSError OverflowError RuntimeError StopIteration SyntaxError
SystemExit TypeError ValueError Warning ZeroDivisionError DeprecationWarning
UserWarning FloatingPointError UnicodeDecodeError UnboundLocalError
StandardError __name__ __file__ __doc__""".split())


class Event(object):
    __slots__ = ("kind", "data", "guards", "loops", "node", "func", "seq")

    def __init__(self, kind, data, guards, loops, node, func, seq):
        self.kind, self.data, self.guards = kind, data, guards
        self.loops, self.node, self.func, self.seq = loops, node, func, seq

    @property
    def where(self):
        return "%s:%s in %s" % (self.func.module.rel if self.func else "?",
                                getattr(self.node, "lineno", "?"),
                                self.func.short if self.func else "?")

    def __repr__(self):
        return "<%s %s @%s | %s>" % (self.kind, T.show(tuple(self.data)),
                                     self.where,
                                     " & ".join(T.show(g)
                                                for g in self.guards))


class State(object):
    __slots__ = ("env", "heap", "guards", "epoch", "loopw")

    def __init__(self):
        self.env, self.heap, self.guards = {}, {}, ()
        self.epoch, self.loopw = {}, ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.guards = self.guards
        s.epoch = dict(self.epoch)
        s.loopw = self.loopw
        return s

    def assume(self, c):
        new = [f for f in T.facts(T.truth(c)) if f not in self.guards]
        if new:
            self.guards = self.guards + tuple(new)


class Frame(object):
    def __init__(self, func, module, selfcls=None):
        self.func, self.module, self.selfcls = func, module, selfcls
        self.returns = []
        self.loops = []       # stack of LoopCtx
        self.globals = set()
        self.nexc = 0


class LoopCtx(object):
    def __init__(self):
        self.breaks, self.continues = [], []


class Result(object):
    """Summary of one analysed function."""

    def __init__(self, ana, state, ret, events, func, args):
        self.ana, self.state, self.ret = ana, state, ret
        self.events, self.func, self.args = events, func, args

    def field(self, obj, name):
        return self.ana.getfield(self.state, obj, name)

    def kinds(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


def sequence(t):
    return t.op in ("tuple", "list") or (
        t.op == "call" and t.args[0] in ("tuple", "list"))


def text_eq(t, name):
    """The condition for the text t (possibly put together from literal
    pieces around one computed piece) to be name."""
    if t.op == "concat":
        parts = list(t.args[0])
        if parts and parts[0].op == "str":
            k = parts[0].args[0]
            if not name.startswith(k):
                return FALSE
            return text_eq(T.concat(parts[1:]), name[len(k):])
        if parts and parts[-1].op == "str":
            k = parts[-1].args[0]
            if not name.endswith(k):
                return FALSE
            return text_eq(T.concat(parts[:-1]), name[:len(name) - len(k)])
    if t.op == "str":
        return T.boolean(t.args[0] == name)
    return T.eq(t, T.string(name))


class Analyzer(object):
    MAXDEPTH = 14
    quiet = ("_logger", "_global_dict")

    def __init__(self, program, types=None, opaque=None, inline_all=True,
                 arrays=(), pure=None):
        self.p = program
        self.types = types or {}
        self.opaque = opaque or (lambda f: False)
        self.tried = []
        self.purefn = pure or (lambda f: False)
        self.events = []
        self.muinit = {}
        self.stack = []
        self.ngen = 0
        self.loops = []
        self.seq = 0
        self.nalloc = {}
        self.ncopy = 0
        self.visited = set()
        self.callsites = 0
        self.globcache = {}
        self.inlined = set()
        self.closures = {}
        self.abandoned = []
        T.ARRAY_SYMS = set(arrays)

    # ------------------------------------------------------------ utilities
    def emit(self, st, kind, data, node):
        self.seq += 1
        func = self.stack[-1].func if self.stack else None
        e = Event(kind, data, st.guards, tuple(self.loops), node, func,
                  self.seq)
        self.events.append(e)
        return e

    def typeof(self, t):
        """Simple class name of the repository class of term t, or None."""
        o = t.op
        if o == "mut":
            return self.typeof(t.args[0])
        if o in ("new",):
            return t.args[0]
        if o == "copy":
            return self.typeof(t.args[-1])
        if t in self.types:
            return self.types[t]
        if o == "sym":
            return self.types.get("sym:" + t.args[0])
        if o in ("attr", "attrv"):
            c = self.typeof(t.args[0])
            if c and self.p.has_cls(c):
                for k in self.p.mro(self.p.cls(c)):
                    r = self.types.get((k.name, t.args[1]))
                    if r:
                        return r
            return self.types.get("attr:" + t.args[1])
        if o == "idx" or o == "key":
            if o == "idx" and t.args[1].op == "str":
                r = self.types.get("item:" + t.args[1].args[0])
                if r:
                    return r
            b = val(t.args[0])
            while b.op == "idx" and b.args[1].op == "slice" or \
                    b.op == "call" and b.args[0] in (
                        "sorted", "reversed", "list", "tuple") and b.args[1]:
                b = val(b.args[0] if b.op == "idx" else b.args[1][0])
            if b.op in ("fmap", "map"):
                return self.typeof(b.args[-2])
            r = self.types.get(("item", b))
            if r:
                return r
            if b.op in ("attr", "attrv"):
                c = self.typeof(b.args[0])
                if c and self.p.has_cls(c):
                    for k in self.p.mro(self.p.cls(c)):
                        r = self.types.get((k.name, b.args[1] + "[]"))
                        if r:
                            return r
                return self.types.get("attr:" + b.args[1] + "[]")
            if b.op == "sym":
                return self.types.get("sym:" + b.args[0] + "[]")
        if o == "call":
            return self.types.get("ret:" + t.args[0])
        if o == "mcall":
            return self.types.get("ret:." + t.args[1])
        if o in ("fold", "last"):
            a = [self.typeof(x) for x in t.args[1:-1]
                 if isinstance(x, T.Term)]
            a = [x for x in a if x]
            return a[0] if a and len(set(a)) == 1 else None
        if o == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a == b:
                return a
            if a is None and not T.is_const(val(t.args[1])) or \
                    t.args[1] is NONE:
                return b
            if b is None and not T.is_const(val(t.args[2])) or \
                    t.args[2] is NONE:
                return a
        return None

    def getfield(self, st, obj, name):
        obj0 = obj
        obj = ptr(obj)
        if obj.op == "ite" and (obj, name) not in st.heap:
            a, b = obj.args[1], obj.args[2]
            if a is NONE:
                return self.getfield(st, b, name)
            if b is NONE:
                return self.getfield(st, a, name)
            if st.epoch.get(obj):
                return raw("attrv", obj, name, st.epoch[obj])
            return T.ite(obj.args[0], self.getfield(st, a, name),
                         self.getfield(st, b, name))
        if (obj, name) in st.heap:
            return st.heap[(obj, name)]
        for pat, lv, attr, body, dom in reversed(st.loopw):
            if attr == name:
                m = match(pat, obj, lv)
                if m is not None:
                    return T.subst(body, {lv: m})
                m = position(pat, obj, lv)
                if m is not None:
                    return T.subst(body, {lv: m})
                if may_match(pat, obj):
                    return T.unk("loop write to %s" % name)
        ep = st.epoch.get(obj, 0)
        if obj.op == "copy" and not ep:
            kind, n, src = obj.args
            v = raw("attr", src, name)
            if kind == "deep":
                return raw("copy", "deep", n, v)
            return v
        if obj.op == "new" and not ep:
            c = self.p.classes_by_name.get(obj.args[0])
            if c:
                r = self.classconst(c[0], name)
                if r is not None:
                    return r
            return raw("attr", obj, name)
        if not ep:
            c = self.typeof(obj)
            if c and self.p.has_cls(c):
                k = self.p.cls(c)
                r = self.classconst(k, name)
                if r is not None and not self.assigned_anywhere(k, name):
                    return r
        if ep:
            return raw("attrv", obj, name, ep)
        return raw("attr", obj, name)

    def assigned_anywhere(self, cls, name):
        for m in self.p.modules.values():
            if m.name.startswith("echidna.test"):
                continue
            if "." + name in m.text and (
                    "." + name + " =" in m.text or
                    "." + name + "=" in m.text):
                return True
        return False

    def classconst(self, cls, name):
        for k in self.p.mro(cls):
            if name in k.consts:
                fr = Frame(None, k.module)
                self.stack.append(fr)
                try:
                    return self.eval(k.consts[name], State())
                finally:
                    self.stack.pop()
        return None

    def setfield(self, st, obj, name, v, node):
        obj = ptr(obj)
        self.put(st, obj, name, v)
        self.emit(st, "setattr", (obj, name, v), node)

    def setnamed(self, st, obj, nm, v, node):
        """setattr with a computed name: each attribute the class of the
        object assigns anywhere may be the one that is written."""
        obj = ptr(obj)
        self.emit(st, "setattr", (obj, "*", v), node)
        t = self.typeof(obj)
        names = self.assigned_names(self.p.cls(t)) \
            if t and self.p.has_cls(t) else []
        if not names:
            st.heap[(obj, "*" + nm.key)] = v
        for a in names:
            c = text_eq(nm, a)
            if c is not FALSE:
                self.put(st, obj, a, T.ite(c, v, self.getfield(st, obj, a)))

    def assigned_names(self, cls):
        out = set()
        for k in self.p.mro(cls):
            for f in k.methods.values():
                me = f.node.args.args[:1]
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and me and isinstance(
                            x.ctx, ast.Store) and isinstance(
                            x.value, ast.Name) and x.value.id == me[0].arg:
                        out.add(x.attr)
        return sorted(out)

    def put(self, st, obj, name, v):
        if obj.op == "ite":
            c, a, b = obj.args[0], ptr(obj.args[1]), ptr(obj.args[2])
            objs = ("sym", "attr", "attrv", "idx", "new", "copy", "key",
                    "ite")
            if a.op in objs and b.op in objs and a is not b:
                oa, ob = self.getfield(st, a, name), \
                    self.getfield(st, b, name)
                st.heap.pop((obj, name), None)
                self.put(st, a, name, T.ite(c, v, oa))
                self.put(st, b, name, T.ite(c, ob, v))
                return
            if a is NONE and b.op in objs:
                return self.put(st, b, name, v)
            if b is NONE and a.op in objs:
                return self.put(st, a, name, v)
        st.heap[(obj, name)] = v

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, selfcls=None, selfterm=None):
        """Analyse func with symbolic (or given) arguments."""
        args = dict(args or {})
        st = State()
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.static:
                if func.classmethod:
                    k = selfcls or func.cls
                    bound[n] = raw("cls", k.qual)
                    continue
                bound[n] = selfterm or T.sym("self")
                if selfterm is None:
                    self.types.setdefault("sym:self", (selfcls or
                                                       func.cls).name)
                    self.types["sym:self"] = (selfcls or func.cls).name
                continue
            bound[n] = args.get(n, T.sym(n))
        for x in a.kwonlyargs:
            bound[x.arg] = args.get(x.arg, T.sym(x.arg))
        if a.vararg:
            bound[a.vararg.arg] = args.get(a.vararg.arg,
                                           T.sym(a.vararg.arg))
        if a.kwarg:
            bound[a.kwarg.arg] = args.get(a.kwarg.arg, T.sym(a.kwarg.arg))
        st.env = bound
        self.visited.add(func.qual)
        ret, out = self.body(func, st, selfcls or func.cls)
        return Result(self, out, ret, self.events, func, bound)

    def body(self, func, st, selfcls):
        fr = Frame(func, func.module, selfcls)
        self.stack.append(fr)
        base = st.guards
        try:
            end = self.block(func.node.body, st)
            if end is not None:
                fr.returns.append((end, NONE))
            if not fr.returns:
                return None, None
            names = self.paramnames(func.node)
            for s, v in fr.returns:
                e = {"$ret": v}
                for k in names:
                    if k in s.env:
                        e["$p:" + k] = s.env[k]
                s.env = e
            m = self.merge([s for s, _ in fr.returns], base)
            return m.env["$ret"], m
        finally:
            self.stack.pop()

    def paramnames(self, node):
        a = node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def passed_back(self, f, pre, env, out, st, n):
        """Containers the callee changed in place, seen from the caller."""
        if not isinstance(n, ast.Call):
            return
        names = self.paramnames(f.node)
        pairs = []
        for i, x in enumerate(n.args):
            if isinstance(x, ast.Starred) or len(pre) + i >= len(names):
                break
            pairs.append((names[len(pre) + i], x))
        pairs += [(k.arg, k.value) for k in n.keywords if k.arg in names]
        for k, x in pairs:
            new, old = out.env.get("$p:" + k), env.get(k)
            if new is None or old is None or new is old or not pathlike(x):
                continue
            if isinstance(x, ast.Name) and x.id not in st.env:
                continue
            if new.op != "mut" or ptr(new) is not ptr(old):
                # the parameter is never rebound: what it holds at the end is
                # what the caller's object has become
                if k in rebound(f.node):
                    continue
                if isinstance(x, ast.Name):
                    if st.env[x.id] is old:
                        self.writeback(x, T.mut(old, new), st)
                    continue
                new = T.mut(old, new)
                if new.op != "mut":
                    if self.eval(x, st) is old:
                        self.writeback(x, new, st)
                    continue
            if ptr(self.eval(x, st)) is ptr(old):
                self.writeback(x, new, st)

    # ------------------------------------------------------------ merging
    def merge(self, states, base):
        """Join states that share the guard prefix base."""
        out = states[-1]
        for s in reversed(states[:-1]):
            out = self.merge2(s, out, base)
        return out

    def merge2(self, a, b, base):
        ga = [g for g in a.guards if g not in base]
        gb = [g for g in b.guards if g not in base]
        common = [g for g in ga if g in gb]
        ra = [g for g in ga if g not in common]
        rb = [g for g in gb if g not in common]
        lit = None
        for g in ra:
            if T.lnot(g) in rb:
                lit = g
                break
        if lit is None:
            # one state's conjunction may be the negation of the other
            for g in ra:
                for h in rb:
                    if T.bool_equal(g, T.lnot(h)):
                        lit = g
                        rb = [x for x in rb if x is not h]
                        rb.append(T.lnot(g))
                        break
                if lit is not None:
                    break
        extra = []
        if lit is not None:
            cond = lit
            for f in ra:
                if f is not lit:
                    extra.append(T.lor(T.lnot(lit), f))
            nl = T.lnot(lit)
            for f in rb:
                if f is not nl:
                    extra.append(T.lor(lit, f))
        else:
            ca, cb = T.land(*ra), T.land(*rb)
            fact = T.lor(ca, cb)
            if fact is not TRUE:
                extra.append(fact)
            cond = ca
        out = State()
        out.guards = tuple(base) + tuple(common)
        for f in extra:
            out.assume(f)
        ite = self.gate(cond)
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            if k in a.env and k in b.env:
                out.env[k] = ite(a.env[k], b.env[k])
            else:
                out.env[k] = a.env.get(k, b.env.get(k))
                if k != "$ret":
                    out.env[k] = raw("maybe", out.env[k]) \
                        if out.env[k].op == "undef" else out.env[k]
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va = a.heap[k] if k in a.heap else self.getfield(a, *k)
            vb = b.heap[k] if k in b.heap else self.getfield(b, *k)
            out.heap[k] = ite(va, vb)
        for k in set(a.epoch) | set(b.epoch):
            out.epoch[k] = ite(a.epoch.get(k, ZERO), b.epoch.get(k, ZERO))
        if a.loopw == b.loopw:
            out.loopw = a.loopw
        else:
            n = 0
            while n < len(a.loopw) and n < len(b.loopw) and \
                    a.loopw[n] == b.loopw[n]:
                n += 1
            out.loopw = a.loopw[:n]
            for side, c in ((a, cond), (b, T.lnot(cond))):
                for pat, lv, attr, body, dom in side.loopw[n:]:
                    old = self.getfield(_with_loopw(side, a.loopw[:n]), pat,
                                        attr)
                    out.loopw += ((pat, lv, attr, T.ite(c, body, old), dom),)
        return out

    def gate(self, cond):
        def ite(x, y):
            if x is y:
                return x
            return T.ite(cond, x, y)
        return ite

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.emit(st, "unsupported", (T.string(type(n).__name__),), n)
            return st
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.emit(st, "unsupported", (T.string("yield"),), n)
            return st
        self.eval(n.value, st)
        return st if not self.dead(st) else None

    def dead(self, st):
        return getattr(self, "_dead", None) is st

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = self.modterm(
                a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = self.dotterm(
                (n.module or "") + "." + a.name)
        return st

    def s_Global(self, n, st):
        self.stack[-1].globals.update(n.names)
        return st

    def s_FunctionDef(self, n, st):
        f = Func(self.stack[-1].module, n)
        key = "%s@%s" % (n.name, len(self.closures))
        self.closures[key] = (f, st)
        st.env[n.name] = raw("closure", key)
        return st

    def s_ClassDef(self, n, st):
        plain = all(isinstance(x, (ast.Pass, ast.Expr)) for x in n.body)
        if not plain or n.keywords or n.decorator_list:
            st.env[n.name] = T.unk("local class")
            return st
        st.env[n.name] = raw("call", "localclass", (
            T.string(n.name), T.num(T.next_id())) + tuple(
                ptr(self.eval(b, st)) for b in n.bases), ())
        return st

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if self.dead(st):
            return None
        self.emit(st, "return", (v,), n)
        self.stack[-1].returns.append((st, v))
        return None

    def s_Raise(self, n, st):
        exc = None
        name = "reraise"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                for a in e.args:
                    self.eval(a, st)
            else:
                name = ast.unparse(e)
        self.emit(st, "raise", (T.string(name.split(".")[-1]),), n)
        return None

    def s_Assert(self, n, st):
        c = T.truth(self.eval(n.test, st))
        s2 = st.copy()
        s2.assume(T.lnot(c))
        self.emit(s2, "raise", (T.string("AssertionError"),), n)
        st.assume(c)
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.emit(st, "delitem", (ptr(b), i), n)
                self.writeback(t.value, T.mut(b, raw("del", val(b), i)), st)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit(st, "delattr", (ptr(b), T.string(t.attr)), n)
        return st

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        if self.dead(st):
            return None
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st, n)
        return st

    def s_AugAssign(self, n, st):
        cur = self.eval(n.target, st)
        v = self.eval(n.value, st)
        new = self.binop(n.op, cur, v)
        p = ptr(cur)
        if isinstance(n.target, ast.Name):
            if p.op in ("sym", "attr", "attrv", "idx", "copy", "new",
                        "key"):
                self.emit(st, "inplace", (p, v, new), n)
                st.env[n.target.id] = T.mut(p, new)
            else:
                if p.op in ("call", "ext", "mcall", "ite"):
                    self.emit(st, "augment", (p, v, new), n)
                st.env[n.target.id] = new
        elif isinstance(n.target, ast.Attribute):
            obj = self.eval(n.target.value, st)
            if p.op in ("sym", "attr", "attrv", "idx", "copy", "new",
                        "key"):
                self.emit(st, "inplace", (p, v, new), n)
                new = T.mut(p, new)
            self.setfield(st, obj, n.target.attr, new, n)
        elif isinstance(n.target, ast.Subscript):
            b = self.eval(n.target.value, st)
            i = self.eval(n.target.slice, st)
            self.emit(st, "setitem", (ptr(b), i, new, val(v), cur), n)
            self.writeback(n.target.value,
                           T.mut(b, self.mkstore(b, i, new)), st)
        return st

    def mkstore(self, b, i, v):
        b = val(b)
        if b.op == "dict" and T.is_const(i):
            items = [(k, x) for k, x in b.args[0] if k is not i]
            return raw("dict", tuple(sorted(items + [(i, val(v))],
                                            key=lambda kv: kv[0].key)))
        if b.op == "list" and i.op == "num" and \
                0 <= i.args[0] < len(b.args[0]):
            l = list(b.args[0])
            l[int(i.args[0])] = v
            return raw("list", tuple(l))
        if b.op == "store" and b.args[1] is i:
            return raw("store", b.args[0], i, v)
        return raw("store", b, i, v)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.stack[-1].globals:
                self.emit(st, "setglobal", (T.string(t.id), v), node)
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            if ptr(obj).op in ("fn", "mod"):
                self.emit(st, "setglobal", (T.string(ast.unparse(t)), v),
                          node)
                return
            self.setfield(st, obj, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            self.emit(st, "setitem", (ptr(b), i, v), node)
            self.writeback(t.value, T.mut(b, self.mkstore(b, i, v)), st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, T.unk("starred"), st, node)
                else:
                    self.assign(x, self.index(v, T.num(k)), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, T.unk("starred"), st, node)

    def writeback(self, node, v, st):
        """Store an updated container back where it was read from."""
        if isinstance(node, ast.Name):
            old = st.env.get(node.id)
            if old is not None:
                p = ptr(old)
                st.env[node.id] = v
                # other local names for the same object
                if p.op in ("attr", "attrv", "copy"):
                    self.sync(st, p, v)
        elif isinstance(node, ast.Attribute):
            obj = ptr(self.eval(node.value, st))
            if obj.op not in ("fn",):
                st.heap[(obj, node.attr)] = v
        elif isinstance(node, ast.Subscript):
            b = self.eval(node.value, st)
            i = self.eval(node.slice, st)
            self.writeback(node.value, T.mut(b, self.mkstore(b, i, v)), st)

    def sync(self, st, p, v):
        for k, old in list(st.heap.items()):
            if ptr(old) is p:
                st.heap[k] = v
        if p.op in ("attr", "attrv"):
            k = (p.args[0], p.args[1])
            if k not in st.heap:
                st.heap[k] = v
        for k, old in list(st.env.items()):
            if k != "$ret" and ptr(old) is p:
                st.env[k] = v

    def s_If(self, n, st):
        c = T.truth(self.eval(n.test, st))
        if self.dead(st):
            return None
        c = self.known(c, st)
        if c is TRUE:
            return self.block(n.body, st)
        if c is FALSE:
            return self.block(n.orelse, st)
        base = st.guards
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.lnot(c))
        a = self.block(n.body, a)
        b = self.block(n.orelse, b)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge2(a, b, base)

    def known(self, c, st):
        """Simplify condition c by the dominating facts."""
        if c.op == "bool":
            return c
        gs = set(st.guards)

        def simp(x):
            if x in gs:
                return TRUE
            if T.lnot(x) in gs:
                return FALSE
            if x.op == "and":
                return T.land(*[simp(y) for y in x.args[0]])
            if x.op == "or":
                return T.lor(*[simp(y) for y in x.args[0]])
            return x
        return simp(c)

    def s_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            self.emit(st, "with", (v,), n)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        base = st.guards
        pre = st.copy()
        e0 = len(self.events)
        fr = self.stack[-1]
        fr.nexc += 1
        me = fr.nexc
        left = [(fr.returns, len(fr.returns))]
        if fr.loops:
            left += [(fr.loops[-1].breaks, len(fr.loops[-1].breaks)),
                     (fr.loops[-1].continues, len(fr.loops[-1].continues))]
        mark = raw("try", fr.nexc)
        self.loops.append(("try", mark, tuple(
            ast.unparse(h.type) if h.type is not None else "*"
            for h in n.handlers)))
        self.tried.append((len(self.loops), len(base), [], tuple(
            ast.unparse(h.type) if h.type is not None else "*"
            for h in n.handlers)))
        end = self.block(n.body, st)
        seen = tuple(self.tried.pop()[2])
        self.loops.pop()
        if end is not None:
            end = self.block(n.orelse, end)
        body_raises = [e for e in self.events[e0:] if e.kind == "raise"]
        outs = []
        conds = []
        changed = {}
        nl = len(self.loops)
        for e in body_raises:
            inner = [l for l in e.loops[nl + 1:] if l[0] == "loop"]
            if all(l[2] is not None for l in inner):
                seen += (raw("tuple", (T.land(*e.guards[len(base):]),
                                       e.data[0])) if not inner else
                         raw("tuple", (T.land(*e.guards[len(base):]),
                                       e.data[0]) + tuple(
                             raw("tuple", (l[3], l[2])) for l in inner)),)
            else:
                seen += (raw("tuple", (TRUE, T.string("?"))),)
        here = set(l[1] for l in self.loops if l[0] == "loop")
        seen = tuple(q for q in seen if not any(
            x.op == "lv" and x.args[0] not in here for x in T.walk(q))
            or q.args[0][1].op == "str")
        # what leaves the guarded block did not fail there
        for l, k in left:
            for x in l[k:]:
                for h in n.handlers:
                    (x[0] if isinstance(x, tuple) else x).assume(T.lnot(raw(
                        "exc", ast.unparse(h.type) if h.type is not None
                        else "*", me, seen)))
        for h in n.handlers:
            hs = pre.copy()
            typ = ast.unparse(h.type) if h.type is not None else "*"
            hs.assume(raw("exc", typ, me, seen))
            if h.name:
                hs.env[h.name] = raw("sym", "exception")
            # variables the body may have changed before raising
            s2 = self.block(h.body, hs)
            if s2 is not None:
                outs.append(s2)
            conds.append(typ)
        if end is not None:
            for typ in conds:
                end.assume(T.lnot(raw("exc", typ, me, seen)))
            outs.append(end)
        if not outs:
            if n.finalbody:
                self.block(n.finalbody, pre)
            return None
        m = self.merge(outs, base)
        if n.finalbody:
            m = self.block(n.finalbody, m)
        return m

    s_TryStar = s_Try

    def risk(self, st, typ, cond):
        """A call of the guarded block that fails with typ when cond holds:
        the innermost handler for it gets it."""
        for depth, k, seen, kinds in reversed(self.tried):
            if len(self.loops) != depth:
                return
            if any(x == "*" or typ in x or x == "Exception" for x in kinds):
                if len(seen) < 40:
                    seen.append(raw("tuple", (T.land(cond, *st.guards[k:]),
                                              T.string(typ))))
                return

    def s_Break(self, n, st):
        if self.stack[-1].loops:
            self.stack[-1].loops[-1].breaks.append(st)
        return None

    def s_Continue(self, n, st):
        if self.stack[-1].loops:
            self.stack[-1].loops[-1].continues.append(st)
        return None

    # ------------------------------------------------------------ loops
    def iterate(self, it):
        """(dom, elem function) or ('items', list) for an iterable term."""
        v = val(it)
        if v.op in ("list", "tuple"):
            return ("items", list(v.args[0]))
        if v.op == "str":
            return ("items", [T.string(c) for c in v.args[0]])
        if v.op == "dict":
            return ("items", [k for k, _ in v.args[0]])
        if v.op == "range":
            lo, hi, step = v.args
            if step is ONE:
                return (T.sub(hi, lo), lambda lv: T.add(lo, lv))
            return (raw("call", "ceil", (T.div(T.sub(hi, lo), step),), ()),
                    lambda lv: T.add(lo, T.mul(lv, step)))
        if v.op == "zip":
            subs = [self.iterate(x) for x in v.args[0]]
            if all(s[0] == "items" for s in subs) and subs:
                n = min(len(s[1]) for s in subs)
                return ("items", [raw("tuple", tuple(s[1][i] for s in subs))
                                  for i in range(n)])
            fs, dom = [], None
            for s in subs:
                if s[0] == "items":
                    lst = raw("list", tuple(s[1]))
                    fs.append(lambda lv, l=lst: T.idx(l, lv))
                    dom = dom or T.num(len(s[1]))
                else:
                    fs.append(s[1])
                    dom = dom or s[0]
            return (dom, lambda lv: raw("tuple", tuple(f(lv) for f in fs)))
        if v.op == "enumerate":
            s = self.iterate(v.args[0])
            start = v.args[1]
            if s[0] == "items":
                return ("items", [raw("tuple", (T.add(start, T.num(i)), x))
                                  for i, x in enumerate(s[1])])
            return (s[0], lambda lv: raw("tuple", (T.add(start, lv),
                                                   s[1](lv))))
        if v.op == "dictitems":
            d = v.args[0]
            dv = val(d)
            if dv.op == "dict":
                return ("items", [raw("tuple", (k, x))
                                  for k, x in dv.args[0]])
            if dv.op == "dictmap":
                dom, kb, vb, h = dv.args
                bv = raw("bv", h)
                return (dom, lambda lv: raw("tuple", (
                    T.subst(kb, {bv: lv}), T.subst(vb, {bv: lv}))))
            return (raw("len", dv), lambda lv: raw("tuple", (
                raw("key", dv, lv), self.index(d, raw("key", dv, lv)))))
        if v.op == "dictvalues":
            d = v.args[0]
            dv = val(d)
            if dv.op == "dict":
                return ("items", [x for k, x in dv.args[0]])
            return (raw("len", dv),
                    lambda lv: self.index(d, raw("key", dv, lv)))
        if v.op == "call" and v.args[0] in ("keys",):
            dv = val(v.args[1][0])
            if dv.op == "dict":
                return ("items", [k for k, x in dv.args[0]])
            if dv.op == "dictmap":
                dom, kb, vb, h = dv.args
                bv = raw("bv", h)
                return (dom, lambda lv: T.subst(kb, {bv: lv}))
            return (raw("len", dv), lambda lv: raw("key", dv, lv))
        if v.op == "call" and v.args[0] in ("reversed",):
            s = self.iterate(v.args[1][0])
            if s[0] == "items":
                return ("items", s[1][::-1])
            return (s[0], lambda lv: s[1](T.sub(T.sub(s[0], ONE), lv)))
        if v.op == "dictmap":
            dom, kb, vb, h = v.args
            bv = raw("bv", h)
            return (dom, lambda lv: T.subst(kb, {bv: lv}))
        if v.op == "sym" and v in self.types.get("dicts", ()) or \
                v.op == "sym" and v.args[0] == "kwargs":
            return (raw("len", v), lambda lv: raw("key", v, lv))
        if v.op in ("attr", "attrv") and \
                self.types.get("attr:" + v.args[1]) == "dict":
            return (raw("len", v), lambda lv: raw("key", v, lv))
        if v.op == "fmap":
            return ("fmap", v)
        if v.op in ("store", "stores", "fold", "del", "mu") and \
                self.dictlike(v):
            return (raw("len", v), lambda lv: raw("key", v, lv))
        return (T.length(v), lambda lv: self.index(it, lv))

    def dictlike(self, v):
        """Is v known to be a dictionary?"""
        v = val(v)
        while v.op in ("store", "stores", "fold", "del"):
            v = val(v.args[1] if v.op == "fold" else v.args[0])
        if v.op == "mu" and v in self.muinit:
            i = self.muinit[v]
            return i is not v and self.dictlike(i)
        return v.op in ("dict", "dictmap") or v.op == "sym" and (
            v.args[0] == "kwargs" or v in self.types.get("dicts", ())) or \
            v.op in ("attr", "attrv") and \
            self.types.get("attr:" + v.args[1]) == "dict"

    def s_For(self, n, st):
        g = self.generator(n, st)
        if g is not None:
            self.ngen += 1
            try:
                return self.block(g, st)
            finally:
                self.ngen -= 1
        it = self.eval(n.iter, st)
        d = self.iterate(it)
        fr = self.stack[-1]
        if d[0] == "items" and len(d[1]) <= 16:
            outs = []
            brk = []
            for x in d[1]:
                ctx = LoopCtx()
                fr.loops.append(ctx)
                base = st.guards
                self.assign(n.target, x, st, n)
                end = self.block(n.body, st)
                fr.loops.pop()
                sts = ctx.continues + ([end] if end is not None else [])
                brk += ctx.breaks
                if not sts:
                    st = None
                    break
                st = self.merge(sts, base) if len(sts) > 1 else sts[0]
            if st is not None and n.orelse:
                st = self.block(n.orelse, st)
            sts = brk + ([st] if st is not None else [])
            if not sts:
                return None
            if len(sts) == 1:
                return sts[0]
            pre = []
            for g in sts[0].guards:
                if all(g in s.guards for s in sts):
                    pre.append(g)
            return self.merge(sts, tuple(pre))
        if d[0] == "items":
            l = raw("list", tuple(d[1]))
            d = (T.num(len(d[1])), lambda lv: raw("idx", l, lv))
        if d[0] == "fmap":
            fm = d[1]
            dom, c, b, h = fm.args
            bv = raw("bv", h)
            return self.loop(n, st, dom, lambda lv: T.subst(b, {bv: lv}),
                             n.target, None,
                             filt=lambda lv: T.subst(c, {bv: lv}))
        return self.loop(n, st, d[0], d[1], n.target, None)

    def cursor(self, n, st):
        """The value of type 'cursor' this loop steps through."""
        cs = self.types.get("cursor")
        if not cs or not isinstance(n, ast.For):
            return None
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id == "enumerate" and it.args:
            it = it.args[0]
        if not isinstance(it, ast.Name) or it.id not in st.env:
            return None
        v = val(st.env[it.id])
        return v if v.op == "call" and v.args[0] in cs else None

    MAXGEN = 8

    def generator(self, n, st):
        """`for T in gen(...): BODY` over a generator of this module is the
        generator's own text with each `yield V` replaced by `T = V; BODY`.
        Binds the generator's (renamed) parameters in st; None if n is not
        of that form."""
        c = n.iter
        if not isinstance(c, ast.Call) or n.orelse or \
                self.ngen >= self.MAXGEN:
            return None
        m = self.stack[-1].module
        f, pre = None, []
        if isinstance(c.func, ast.Name) and c.func.id not in st.env:
            f = m.functions.get(c.func.id)
        elif isinstance(c.func, ast.Attribute) and not (
                isinstance(c.func.value, ast.Call) and isinstance(
                    c.func.value.func, ast.Name) and
                c.func.value.func.id == "super"):
            if not isinstance(c.func.value, (ast.Name, ast.Attribute)):
                return None
            recv = self.eval(c.func.value, st)
            k = self.typeof(recv)
            k = k if isinstance(k, Class) else None
            if k is None and recv is T.sym("self") and self.stack[-1].selfcls:
                k = self.stack[-1].selfcls
            f = self.p.find_method(k, c.func.attr) if k else None
            if f is not None and not f.static:
                pre = [recv]
        if f is None or f.module is not m or f.node.args.kwarg or \
                not yields(f.node) or self.opaque(f) is not False:
            return None
        body = spliced(f.node, n, "$g%d_" % T.next_id())
        if body is None:
            return None
        stmts, prefix = body
        args, kws, star = self.call_args(c, st)
        if star is not None:
            return None
        env = self.bind_args(f, pre, args, kws, star, st)
        if self.misfit(f, len(pre) + len(args), args, kws, star):
            self.emit(st, "raise", (T.string("TypeError"),), c)
        self.visited.add(f.qual)
        self.inlined.add(f.qual)
        for k, v in env.items():
            st.env[prefix + k] = v
        return stmts

    def s_While(self, n, st):
        return self.loop(n, st, None, None, None, n.test)

    def loop(self, n, st, dom, elem, target, test, filt=None):
        fr = self.stack[-1]
        lid = T.next_id()
        lv = raw("lv", lid)
        mus, hmus = set(), set()
        pre = st
        late = [v for v in sometimes(n, fr.func)
                if v not in st.env and v not in fr.globals]
        if late:
            # assigned by some iterations only: carried through the loop
            pre = st.copy()
            for v in late:
                pre.env[v] = raw("unbound", v)
        base = pre.guards
        ev0, ret0, seq0 = len(self.events), len(fr.returns), self.seq
        pre_names = set(pre.env)
        nolen = set()

        def keeps(m, init):
            n = T.arraylen(init)
            if n is None or m in nolen:
                T.MULEN.pop(m, None)
            else:
                T.MULEN[m] = n
        for attempt in range(8):
            del self.events[ev0:]
            del fr.returns[ret0:]
            s = pre.copy()
            for v in mus:
                m = raw("mu", lid, "v:" + v)
                s.env[v] = T.mut(pre.env[v], m)
                self.muinit[m] = val(pre.env[v])
                keeps(m, pre.env[v])
            for k in hmus:
                m = raw("mu", lid, "h:%s.%s" % (k[0].key, k[1]))
                old = self.getfield(pre, *k)
                s.heap[k] = T.mut(old, m)
                self.muinit[m] = val(old)
            start = s.copy()
            ctx = LoopCtx()
            fr.loops.append(ctx)
            self.loops.append(("loop", lid, dom, lv))
            cond = TRUE
            if test is not None:
                cond = T.truth(self.eval(test, s))
                s.assume(cond)
            if target is not None:
                self.assign(target, elem(lv), s, n)
            if filt is not None:
                fs = s.copy()
                fs.assume(T.lnot(filt(lv)))
                ctx.continues.append(fs)
                s.assume(filt(lv))
            startenv = dict(s.env)
            cur = self.cursor(n, pre) if target is not None else None
            names = []
            if cur is not None:
                # while it is iterated over, it stands for its element
                names = [v for v in s.env if val(s.env[v]) is cur]
                for v in names:
                    s.env[v] = raw("idx", cur, lv)
            end = self.block(n.body, s)
            for o in ctx.continues + ctx.breaks + [end]:
                for v in names:
                    if o is not None and o.env.get(v) is raw("idx", cur, lv):
                        o.env[v] = startenv[v]
            self.loops.pop()
            fr.loops.pop()
            outs = ctx.continues + ([end] if end is not None else [])
            nxt = self.merge(outs, base) if outs else None
            new = False
            for o in ([nxt] if nxt is not None else []) + ctx.breaks:
                for v in pre_names:
                    if v in o.env and o.env[v] is not start.env.get(v) and \
                            v not in mus:
                        mus.add(v)
                        new = True
                for k, x in o.heap.items():
                    if self.depends(k[0], lid):
                        continue
                    if k in hmus:
                        continue
                    cur = start.heap[k] if k in start.heap else \
                        self.getfield(start, *k)
                    if x is not cur:
                        hmus.add(k)
                        new = True
            for v in mus:
                m = raw("mu", lid, "v:" + v)
                if m in T.MULEN and nxt is not None and T.arraylen(
                        nxt.env.get(v, m)) != T.MULEN[m]:
                    nolen.add(m)
                    new = True
            if not new:
                break
        # -------- facts that hold after every iteration
        if nxt is None:
            # body always leaves: at most one iteration
            outs = [pre] if dom is not None or test is not None else []
            res = pre.copy()
            for b in ctx.breaks:
                bb = b.copy()
                bb.guards = tuple(g for g in b.guards
                                  if not self.depends(g, lid))
                outs.append(bb)
            if len(outs) == 1:
                return outs[0]
            m = outs[0]
            for b in outs[1:]:
                x = State()
                e = raw("exists", dom if dom is not None else NONE, TRUE)
                m = self.merge_with(e, b, m, base)
            return m
        sol = {}     # mu term -> value at iteration lv

        def getnext(kind, k):
            if kind == "v":
                return nxt.env.get(k, start.env.get(k))
            return nxt.heap[k] if k in nxt.heap else self.getfield(nxt, *k)
        items = [("v", v, raw("mu", lid, "v:" + v), pre.env[v])
                 for v in sorted(mus)]
        items += [("h", k, raw("mu", lid, "h:%s.%s" % (k[0].key, k[1])),
                   self.getfield(pre, *k))
                  for k in sorted(hmus, key=lambda k: (k[0].key, k[1]))]
        nexts = {}
        for kind, k, m, init in items:
            nexts[m] = getnext(kind, k)
        # induction variables
        ind = {}
        for kind, k, m, init in items:
            d = val(nexts[m])
            dl = T.to_poly(T.sub(d, m)) if d.op in ("poly", "mu") else None
            if dl is not None:
                dt = T.from_poly(dl)
                if not self.depends(dt, lid) and \
                        val(init).op in ("num", "poly", "sym", "attr",
                                         "call", "len", "idx"):
                    ind[m] = (val(init), dt)
        if test is not None and not ctx.breaks:
            # while -> counted loop
            for m, (init, step) in ind.items():
                if cond.op == "lt0" and step is ONE:
                    bound = T.sub(m, cond.args[0])
                    if not self.depends(bound, lid):
                        dom = T.sub(bound, init)
                elif cond.op == "lt0" and step is T.num(-1):
                    # -m + b < 0  ->  m > b
                    bound = T.add(m, cond.args[0])
                    if not self.depends(bound, lid):
                        dom = T.sub(init, bound)
        closed = dict((m, T.add(i, T.mul(lv, s))) for m, (i, s)
                      in ind.items())
        if closed:
            for m in nexts:
                if m not in closed:
                    nexts[m] = T.subst(nexts[m], closed)
        for e in self.events[ev0:]:
            if closed:
                subst_event(e, closed)
            if test is not None and dom is not None:
                e.loops = tuple(("loop", lid, dom, lv)
                                if l[0] == "loop" and l[1] == lid else l
                                for l in e.loops)
        # a sweep that only writes slot lv still reads the old slot lv
        slot = {}
        for kind, k, m, init in items:
            r = self.storebuild(val(nexts[m]), m, lid, lv, val(init))
            if r is not None and r[1] is lv:
                slot[raw("idx", m, lv)] = T.idx(val(init), lv)
        if slot:
            for m in nexts:
                nexts[m] = T.mut(ptr(nexts[m]), T.subst(val(nexts[m]), slot))
            for e in self.events[ev0:]:
                subst_event(e, slot)
        out = pre.copy()
        has_break = bool(ctx.breaks)
        counted = dom is not None
        inits = dict((m, val(init)) for _, _, m, init in items)
        exits = []       # (condition, values at exit)
        if not counted and test is not None:
            exits.append((T.lnot(cond), dict((m, m) for m in nexts)))
        for b in ctx.breaks:
            gs = [g for g in b.guards if g not in base]
            if not counted and test is not None:
                pass
            vs = {}
            for kind, k, m, init in items:
                x = b.env.get(k, m) if kind == "v" else (
                    b.heap[k] if k in b.heap else m)
                vs[m] = val(x)
            exits.append((T.land(*gs) if gs else TRUE, vs))
        if closed:
            exits = [(T.subst(c, closed), dict(
                (m, T.subst(x, closed)) for m, x in vs.items()))
                for c, vs in exits]
        final, atlv = {}, dict(closed)
        if not exits:
            todo = [m for m in nexts if m not in ind]
            for m in ind:
                final[m] = T.add(ind[m][0], T.mul(dom, ind[m][1])) \
                    if dom is not None else T.unk("endless loop")
            progress = True
            while progress and todo:
                progress = False
                for m in list(todo):
                    nv = T.subst(val(nexts[m]), atlv) if atlv else nexts[m]
                    r = self.solve(m, inits[m], nv, dom, lv, lid, pre)
                    if r.op == "unk":
                        continue
                    final[m] = r
                    atlv[m] = self.at(m, inits[m], nv, lv, lid, pre)
                    todo.remove(m)
                    progress = True
            if todo:
                self.joint(todo, inits, nexts, atlv, final, dom, lv, lid,
                           exits)
            known_dom = dom
        else:
            simple = counted and all(val(nexts[m]) is m for m in nexts
                                     if m not in ind)
            if simple:
                for kind, k, m, init in items:
                    if m in ind:
                        continue
                    final[m] = self.solve_break(m, init, nexts[m],
                                                ctx.breaks, kind, k, dom, lv,
                                                lid, closed, base)
                    atlv[m] = inits[m]
                todo = [m for m in ind]
                bad = [m for m in final if final[m].op == "unk"]
                if bad:
                    todo = list(nexts)
                    for m in bad:
                        del final[m]
                        atlv.pop(m, None)
            else:
                todo = list(nexts)
            known_dom = self.joint(todo, inits, nexts, atlv, final, dom, lv,
                                   lid, exits)
        rest = dict((m, x) for m, x in atlv.items() if m not in closed)
        early = [c for c, _ in exits] + [
            T.land(*[g for g in s0.guards if g not in base])
            for s0, _ in fr.returns[ret0:]]
        early = [T.subst(c, atlv) if atlv else c for c in early]
        ran = None
        if early and len(self.events) > ev0:
            _, nb = T.bind(lv, T.lnot(T.lor(*early)))
            ran = raw("forall", lv, nb)
        for e in self.events[ev0:]:
            if rest:
                subst_event(e, rest)
            if ran is not None:
                e.guards = (ran,) + tuple(e.guards)
            e.loops = tuple(("loop", lid, known_dom, lv)
                            if l[0] == "loop" and l[1] == lid else l
                            for l in e.loops)
        for kind, k, m, init in items:
            nv = nexts[m]
            r = final[m]
            p = ptr(nv)
            if ptr(init) is p and r is not init:
                r = T.mut(p, r)
            if kind == "v":
                out.env[k] = r
            else:
                out.heap[k] = r
        closed = atlv
        # names first bound inside the loop: value of the last iteration
        for v, x in nxt.env.items():
            if v not in pre_names:
                if closed:
                    x = T.subst(x, closed)
                if self.depends(x, lid):
                    if self.has_mu(x, lid) or has_break:
                        x = T.unk("loop local")
                    else:
                        x = raw("last", known_dom, *T.bind(lv, x))
                out.env[v] = x
        # per-element object writes
        for k, x in nxt.heap.items():
            if self.depends(k[0], lid):
                if k in pre.heap and pre.heap[k] is x:
                    continue
                if closed:
                    x = T.subst(x, closed)
                    k = (T.subst(k[0], closed), k[1])
                if self.has_mu(x, lid) or has_break or \
                        self.has_mu(k[0], lid):
                    x = T.unk("loop write")
                out.loopw = out.loopw + ((k[0], lv, k[1], x, known_dom),)
        for w in nxt.loopw[len(pre.loopw):]:
            out.loopw = out.loopw + (w,)
        for o, ep in nxt.epoch.items():
            if ep is not pre.epoch.get(o, 0) and not self.depends(o, lid):
                if self.depends(ep, lid):
                    if has_break or self.has_mu(ep, lid):
                        ep = T.unk("state after loop")
                    else:
                        if closed:
                            ep = T.subst(ep, closed)
                        ep = raw("eploop", known_dom, *T.bind(lv, ep))
                out.epoch[o] = ep
        # facts
        if not has_break:
            for g in nxt.guards:
                if g in base:
                    continue
                g2 = T.subst(g, closed) if closed else g
                if g2.op == "bool" or self.has_mu(g2, lid):
                    continue
                if test is not None and g is cond:
                    continue
                if cond.op == "and" and g in cond.args[0]:
                    continue
                _, b = T.bind(lv, g2)
                out.assume(raw("forall", known_dom, b))
        # returns inside the loop
        self.fix_returns(fr, ret0, lid, lv, known_dom, closed, out)
        if n.orelse:
            r = self.block(n.orelse, out)
            return r
        return out

    def merge_with(self, cond, a, b, base):
        a, b = a.copy(), b.copy()
        a.guards = tuple(base) + (cond,)
        b.guards = tuple(base) + (T.lnot(cond),)
        return self.merge2(a, b, base)

    def fix_returns(self, fr, ret0, lid, lv, dom, closed, out):
        news = fr.returns[ret0:]
        del fr.returns[ret0:]
        for s, v in news:
            if closed:
                v = T.subst(v, closed)
            gs = [T.subst(g, closed) if closed else g for g in s.guards]
            extra = [g for g in gs if g not in out.guards]
            cond = T.land(*extra) if extra else TRUE
            s = s.copy()
            if self.has_mu(v, lid) or self.has_mu(cond, lid):
                v = T.unk("return in loop")
                ex = raw("truthy", T.unk("return in loop"))
            elif pinned(cond, lv) is not None:
                # one turn of the loop at most returns
                e = pinned(cond, lv)
                v = T.subst(v, {lv: e})
                ex = T.land(T.le0(T.neg(e)), T.lt0(T.sub(e, dom)),
                            T.subst(cond, {lv: e}))
            else:
                if self.depends(v, lid) or True:
                    _, c2, v2 = T.bind(lv, cond, v)
                    if self.depends(v, lid):
                        v = raw("first", dom, c2, v2)
                _, c2 = T.bind(lv, cond)
                ex = raw("exists", dom, c2)
            keep = tuple(g for g in s.guards if g in out.guards)
            s.guards = keep
            s.assume(ex)
            for k in list(s.heap):
                if self.depends(k[0], lid):
                    del s.heap[k]
                elif self.has_mu(s.heap[k], lid) or \
                        self.depends(s.heap[k], lid):
                    s.heap[k] = T.unk("heap at return in loop")
            out.assume(T.lnot(ex))
            fr.returns.append((s, v))

    def depends(self, t, lid):
        return T.contains(t, lambda x: x.op in ("lv", "mu") and
                          x.args[0] == lid)

    def has_mu(self, t, lid):
        return T.contains(t, lambda x: x.op == "mu" and x.args[0] == lid)

    def at(self, m, init, nv, lv, lid, pre):
        """Value of m at the start of iteration lv."""
        nv = val(nv)
        if nv is m:
            return init
        if not self.has_mu(nv, lid):
            return T.ite(T.le0(lv), init, T.subst(nv, {
                lv: T.sub(lv, ONE)}))
        return self.solve(m, init, nv, lv, lv, lid, pre)

    def joint(self, todo, inits, nexts, atlv, final, dom, lv, lid, exits):
        """Mutually recursive loop variables: one simultaneous recurrence.

        Fills final and atlv; returns the number of iterations completed.
        """
        todo = list(todo)
        sub = dict((m, x) for m, x in atlv.items() if m not in todo)
        bodies = [T.subst(val(nexts[m]), sub) for m in todo]
        conds = [T.subst(c, sub) for c, _ in exits]
        exv = [[T.subst(vs[m], sub) for m in todo] for _, vs in exits]
        flat = bodies + conds + [x for l in exv for x in l]
        if any(T.has_unk(x) for x in flat):
            for m in todo:
                final[m] = T.unk("recurrence")
                atlv[m] = T.unk("recurrence")
            return dom if dom is not None and not exits else \
                T.unk("trip count")
        ini = tuple(inits[m] for m in todo)
        b = T.bind(lv, *(flat + list(ini)))
        hgt = b[0].args[0]
        acc = dict((m, raw("racc", hgt, T.num(i)))
                   for i, m in enumerate(todo))
        out = [T.subst(x, acc) for x in b[1:1 + len(flat)]]
        nb, ne = len(bodies), len(conds)
        body = tuple(out[:nb])
        cs = tuple(out[nb:nb + ne])
        xs = tuple(tuple(out[nb + ne + i * nb:nb + ne + (i + 1) * nb])
                   for i in range(ne))
        d = dom if dom is not None else NONE

        def term(dm, j):
            return raw("recur", dm, ini, body, cs, xs, hgt, j)
        for i, m in enumerate(todo):
            final[m] = term(d, i)
            if m not in atlv:
                # reached iteration lv, so no exit before it
                atlv[m] = raw("recur", lv, ini, body, (), (), hgt, i)
        if dom is not None and not exits:
            return dom
        return term(d, "n")

    def solve(self, m, init, nv, dom, lv, lid, pre):
        nv = val(nv)
        init = val(init)
        if nv is m:
            return init
        if not self.has_mu(nv, lid):
            if not self.depends(nv, lid):
                return T.ite(T.le0(dom), init, nv) \
                    if dom.op in ("num",) else raw("last", dom, nv, nv) \
                    if False else T.ite(raw("exists", dom, TRUE), nv, init)
            end = raw("last", dom, *T.bind(lv, nv))
            if init.op == "unbound" or dom.op == "num":
                return end
            return T.ite(raw("exists", dom, TRUE), end, init)
        # accumulation
        f = self.delta(nv, m)
        if f is not None and not self.has_mu(f, lid):
            return T.add(init, T.mk_sum(dom, lv, f))
        # list building
        r = self.listbuild(nv, m)
        if r is not None:
            c, piece = r
            if not self.has_mu(piece, lid) and not self.has_mu(c, lid):
                return concatl([init, mkmap(dom, lv, c, piece)])
        # string building
        if nv.op == "concat" and nv.args[0][0] is m:
            rest = T.concat(nv.args[0][1:])
            if not self.has_mu(rest, lid):
                bv, b = T.bind(lv, rest)
                return T.concat([init, raw("strmap", dom, b, bv.args[0])])
        # stores
        r = self.storebuild(nv, m, lid, lv, init)
        if r is not None:
            c, i, v = r
            if not (self.has_mu(i, lid) or self.has_mu(v, lid) or
                    self.has_mu(c, lid)):
                if i is lv:
                    if c is not TRUE:
                        v = T.ite(c, v, T.idx(init, lv))
                    bv, ib, vb = T.bind(lv, i, v)
                    ib, vb = T.subst(lv, {lv: bv}), vb
                    return raw("arrmap", init, dom, ib, vb, bv.args[0])
                if init.op == "dict" and not init.args[0] and c is TRUE:
                    bv, ib, vb = T.bind(lv, i, v)
                    return raw("dictmap", dom, ib, vb, bv.args[0])
                if i.op == "key" and i.args[1] is lv and \
                        val(i.args[0]) is val(init) and \
                        dom is T.length(val(init)):
                    if c is not TRUE:
                        v = T.ite(c, v, self.index(init, i))
                    bv, ib, vb = T.bind(lv, i, v)
                    return raw("dictmap", dom, ib, vb, bv.args[0])
                bv, ib, vb, cb = T.bind(lv, i, v, c)
                return raw("stores", init, dom, cb, ib, vb, bv.args[0])
        # product
        if nv.op == "poly":
            q = T.div(nv, m)
            if not self.has_mu(q, lid) and len(T.to_poly(nv)) == 1:
                _, b = T.bind(lv, q)
                return T.mul(init, raw("prod", dom, b))
        # generic fold over this variable alone
        others = [x for x in T.walk(nv) if x.op == "mu" and
                  x.args[0] == lid and x is not m]
        if not others and not T.has_unk(nv):
            bv, b = T.bind(lv, nv)
            b = T.subst(b, {m: raw("acc", bv.args[0])})
            return raw("fold", dom, init, b, bv.args[0])
        return T.unk("recurrence")

    def delta(self, nv, m):
        nv = val(nv)
        if nv is m:
            return ZERO
        if nv.op == "ite":
            a, b = self.delta(nv.args[1], m), self.delta(nv.args[2], m)
            if a is None or b is None:
                return None
            return T.ite(nv.args[0], a, b)
        if nv.op == "poly":
            try:
                f = T.sub(nv, m)
            except T.TooBig:
                return None
            if not T.contains(f, lambda x: x is m):
                return f
        return None

    def listbuild(self, nv, m):
        """nv == m + [piece] under condition c -> (c, piece list term)"""
        nv = val(nv)
        if nv.op == "ite":
            c, a, b = nv.args
            if val(b) is m:
                r = self.listbuild(a, m)
                if r:
                    return (T.land(c, r[0]), r[1])
            if val(a) is m:
                r = self.listbuild(b, m)
                if r:
                    return (T.land(T.lnot(c), r[0]), r[1])
            ra, rb = self.listbuild(a, m), self.listbuild(b, m)
            if ra and rb and ra[0] is TRUE and rb[0] is TRUE and \
                    ra[1].op == rb[1].op == "list" and \
                    len(ra[1].args[0]) == len(rb[1].args[0]):
                return (TRUE, raw("list", tuple(
                    T.ite(c, x, y) for x, y in
                    zip(ra[1].args[0], rb[1].args[0]))))
            return None
        if nv.op == "concatl" and nv.args[0][0] is m:
            rest = concatl(list(nv.args[0][1:]))
            return (TRUE, rest)
        if nv.op == "poly" :
            return None
        return None

    def storebuild(self, nv, m, lid, lv, init):
        nv = val(nv)
        if nv.op == "ite":
            c, a, b = nv.args
            if val(b) is m:
                r = self.storebuild(a, m, lid, lv, init)
                if r:
                    return (T.land(c, r[0]), r[1], r[2])
            if val(a) is m:
                r = self.storebuild(b, m, lid, lv, init)
                if r:
                    return (T.land(T.lnot(c), r[0]), r[1], r[2])
            ra = self.storebuild(a, m, lid, lv, init)
            rb = self.storebuild(b, m, lid, lv, init)
            if ra and rb and ra[1] is rb[1]:
                cond = T.lor(T.land(c, ra[0]), T.land(T.lnot(c), rb[0]))
                return (cond, ra[1], T.ite(c, ra[2], rb[2]))
            return None
        if nv.op == "store" and val(nv.args[0]) is m:
            i, v = nv.args[1], val(nv.args[2])
            # reads of the same slot see the value before this iteration
            if self.injective(i, lv, init):
                v = T.subst(v, {raw("idx", m, i): T.idx(init, i)})
            return (TRUE, i, v)
        return None

    def injective(self, i, lv, init):
        """Different iterations use different slots."""
        i = val(i)
        if i is lv:
            return True
        if i.op == "key" and i.args[1] is lv:
            return True
        if i.op == "tuple":
            return any(self.injective(x, lv, init) for x in i.args[0])
        if i.op == "poly":
            rest = T.sub(i, lv)
            back = T.add(i, lv)
            return not T.contains(rest, lambda x: x is lv) or \
                not T.contains(back, lambda x: x is lv)
        return False

    def solve_break(self, m, init, nv, breaks, kind, k, dom, lv, lid,
                    closed, base=()):
        init = val(init)
        if val(nv) is not m:
            return T.unk("loop with break")
        out = init
        for b in breaks:
            bv_ = b.env.get(k) if kind == "v" else (
                b.heap[k] if k in b.heap else None)
            if bv_ is None:
                continue
            x = val(bv_)
            if x is m:
                continue
            if closed:
                x = T.subst(x, closed)
            extra = [T.subst(g, closed) if closed else g for g in b.guards]
            cond = T.land(*[g for g in extra if g not in base])
            if self.has_mu(x, lid) or self.has_mu(cond, lid):
                return T.unk("loop with break")
            _, c2, x2 = T.bind(lv, cond, x)
            _, c3 = T.bind(lv, cond)
            out = T.ite(raw("exists", dom, c3), raw("first", dom, c2, x2)
                        if self.depends(x, lid) else x, out)
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return T.unk(type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return T.boolean(v)
        if isinstance(v, (int, float)):
            return T.num(v)
        if isinstance(v, (str, bytes)):
            return T.string(v if isinstance(v, str) else v.decode("latin1"))
        return T.unk("const")

    def modterm(self, dotted):
        return raw("fn", dotted)

    def dotterm(self, dotted):
        r = self.p.lookup_dotted(dotted)
        if isinstance(r, Class):
            return raw("cls", r.qual)
        if isinstance(r, Func):
            return raw("func", r.qual)
        if isinstance(r, Module):
            return raw("fn", r.name)
        if "." in dotted:
            base, name = dotted.rsplit(".", 1)
            m = self.p.modules.get(base)
            if m is not None and name in m.assigns:
                return self.modglobal(m, name)
            if m is not None and name in m.imports:
                return self.dotterm(m.imports[name])
        return raw("fn", dotted)

    def modglobal(self, m, name):
        key = (m.name, name)
        if key in self.globcache:
            return self.globcache[key]
        self.globcache[key] = raw("glob", m.name + "." + name)
        vs = m.assigns[name]
        if len(vs) == 1 and not isinstance(vs[0], ast.AugAssign):
            self.stack.append(Frame(None, m))
            try:
                v = self.eval(vs[0], State())
            finally:
                self.stack.pop()
            if v.op in ("num", "str", "bool", "none", "tuple", "list",
                        "poly", "fn", "dict"):
                self.globcache[key] = v
        return self.globcache[key]

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        m = self.stack[-1].module
        if n.id in m.functions:
            return raw("func", m.functions[n.id].qual)
        if n.id in m.classes:
            return raw("cls", m.classes[n.id].qual)
        if n.id in m.assigns:
            return self.modglobal(m, n.id)
        if n.id in m.imports:
            return self.dotterm(m.imports[n.id])
        if n.id in BUILTINS:
            return raw("fn", n.id)
        return raw("sym", "?" + n.id)

    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        return self.attribute(b, n.attr, st)

    def constructed(self, b, name):
        """Does the constructor of b's class always store this attribute?

        Unconditional statements of __init__, and of the methods it calls
        unconditionally, count: every object that exists has them.
        """
        c = self.typeof(b)
        if not c or not self.p.has_cls(c):
            return False
        mro = self.p.mro(self.p.cls(c))
        if any(name in k.methods for k in mro):
            return True
        todo = [k.methods["__init__"] for k in mro if "__init__" in k.methods]
        done = set()

        def own(x):
            return isinstance(x, ast.Attribute) and \
                isinstance(x.value, ast.Name) and x.value.id == "self"

        while todo:
            f = todo.pop()
            if f.qual in done:
                continue
            done.add(f.qual)
            for s in f.node.body:
                for x in s.targets if isinstance(s, ast.Assign) else ():
                    if own(x) and x.attr == name:
                        return True
                x = s.value if isinstance(s, ast.Expr) else None
                if isinstance(x, ast.Call) and own(x.func):
                    g = self.p.find_method(mro[0], x.func.attr)
                    if g is not None:
                        todo.append(g)
        return False

    def attribute(self, b, name, st):
        if b.op == "fn":
            return self.dotterm(b.args[0] + "." + name)
        if b.op == "cls":
            c = self.p.lookup_dotted(b.args[0], Class)
            f = self.p.find_method(c, name) if c else None
            if f:
                return raw("bound", f.qual, b)
            if c and name == "__name__":
                return T.string(c.name)
            if c:
                r = self.classconst(c, name)
                if r is not None:
                    return r
            return raw("attr", b, name)
        if name == "__class__":
            t = self.typeof(b)
            if t:
                return raw("cls", self.p.cls(t).qual)
        c = self.typeof(b)
        if c and self.p.has_cls(c):
            f = self.p.find_method(self.p.cls(c), name)
            if f is not None and f.property:
                return self.invoke(f, [b], [], {}, st, None,
                                   self.p.cls(c))
            if f is not None:
                return raw("bound", f.qual, b)
        v = val(b)
        if name == "shape" and v.op in ("call",) and \
                v.args[0] in ("numpy.zeros", "numpy.ones") and v.args[1]:
            s = v.args[1][0]
            return s if s.op in ("tuple", "list", "attr", "concatl", "map") \
                or listed(s) \
                else raw("tuple", (s,))
        if name == "size" and T.array_like(b):
            return T.length(b)
        return self.getfield(st, b, name)

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        i = self.eval(n.slice, st)
        for depth, k, seen, _ in self.tried:
            if len(self.loops) == depth and len(seen) < 40:
                seen.append(raw("tuple", (T.land(*st.guards[k:]), val(b),
                                          val(i))))
        return self.index(b, i)

    def index(self, b, i):
        v = val(b)
        p = ptr(b)
        r = T.idx(b, i)
        if b.op == "ite" and all(x.op == "copy" for x in b.args[1:]):
            return T.ite(b.args[0], self.index(b.args[1], i),
                         self.index(b.args[2], i))
        # an element of a deep copy is a deep copy of the element
        if p.op == "copy" and p.args[0] == "deep" and b is p and \
                r.op == "idx" and r.args[0] is val(p.args[2]):
            return raw("copy", "deep", p.args[1], r)
        return r

    def e_Slice(self, n, st):
        def f(x):
            return NONE if x is None else val(self.eval(x, st))
        return raw("slice", f(n.lower), f(n.upper), f(n.step))

    def e_ExtSlice(self, n, st):
        return raw("tuple", tuple(self.eval(d, st) for d in n.dims))

    def e_Index(self, n, st):
        return self.eval(n.value, st)

    def e_Tuple(self, n, st):
        return self.seq_lit("tuple", n, st)

    def e_List(self, n, st):
        return self.seq_lit("list", n, st)

    def e_Set(self, n, st):
        return raw("set", tuple(sorted((val(self.eval(x, st))
                                        for x in n.elts),
                                       key=lambda t: t.key)))

    def seq_lit(self, op, n, st):
        items, star = [], False
        parts = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                star = True
                parts.append(raw("list", tuple(items)))
                items = []
                parts.append(val(self.eval(x.value, st)))
            else:
                items.append(self.eval(x, st))
        if star:
            parts.append(raw("list", tuple(items)))
            return concatl(parts)
        return raw(op, tuple(items))

    def e_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, st)
            if k is None:
                if val(vv).op == "dict":
                    items.extend(val(vv).args[0])
                    continue
                return T.unk("dict splat")
            items.append((val(self.eval(k, st)), vv))
        if all(T.is_const(k) for k, _ in items):
            d = {}
            for k, v in items:
                d[k] = v
            return raw("dict", tuple(sorted(d.items(),
                                            key=lambda kv: kv[0].key)))
        out = raw("dict", ())
        for k, v in items:
            out = self.mkstore(out, k, v)
        return out

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(T.string(v.value))
            elif isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st)
                if v.format_spec is not None:
                    x = raw("call", "fmt", (T.string(
                        ast.unparse(v.format_spec)), val(x)), ())
                parts.append(x)
        return raw("concat", (T.string(""),)) if not parts else \
            T.concat(parts)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return T.lnot(T.truth(v))
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return T.lnot(v) if val(v).op in T.BOOL_OPS else \
                raw("call", "~", (val(v),), ())
        return T.unk("unary")

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        x, y = val(a), val(b)
        try:
            if isinstance(op, ast.Add):
                strs = ("str", "concat", "strmap")
                if x.op in strs or y.op in strs or \
                        textual(x) or textual(y):
                    return T.concat([x, y])
                lists = ("list", "concatl", "map", "fmap")
                if listed(x) or listed(y):
                    return concatl([x, y])
                if x.op in lists or y.op in lists:
                    if not T.array_like(x) or not T.array_like(y) or \
                            "list" in (x.op, y.op):
                        return concatl([x, y])
                if x.op == "tuple" and y.op == "tuple":
                    return raw("tuple", x.args[0] + y.args[0])
                return T.add(x, y)
            if isinstance(op, ast.Sub):
                return T.sub(x, y)
            if isinstance(op, ast.Mult):
                if x.op in ("list", "str", "tuple") or \
                        y.op in ("list", "str", "tuple"):
                    s, k = (x, y) if x.op in ("list", "str", "tuple") else \
                        (y, x)
                    if k.op == "num" and k.args[0].denominator == 1 and \
                            0 <= k.args[0] <= 32:
                        return raw(s.op, s.args[0] * int(k.args[0]))
                    return raw("call", "repeat", (s, k), ())
                return T.mul(x, y)
            if isinstance(op, ast.Div):
                return T.div(x, y)
            if isinstance(op, ast.Pow):
                return T.power(x, y)
            if isinstance(op, ast.FloorDiv):
                return self.floordiv(x, y)
            if isinstance(op, ast.Mod):
                if x.op == "str":
                    return self.percent(x.args[0], b)
                return raw("call", "%", (x, y), ())
            if isinstance(op, ast.BitAnd):
                if x.op in T.BOOL_OPS and y.op in T.BOOL_OPS:
                    return T.land(x, y)
            if isinstance(op, ast.BitOr):
                if x.op in T.BOOL_OPS and y.op in T.BOOL_OPS:
                    return T.lor(x, y)
        except T.TooBig:
            return T.unk("expression too large")
        return raw("call", type(op).__name__, (x, y), ())

    def floordiv(self, x, y):
        return raw("call", "floor", (T.div(x, y),), ())

    def percent(self, fmt, args):
        v = val(args)
        items = list(v.args[0]) if v.op == "tuple" else [args]
        import re
        parts, i, pos = [], 0, 0
        for m in re.finditer(r"%(\([^)]*\))?([-+ #0-9.]*)([sdrfgeixX%])",
                             fmt):
            parts.append(T.string(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(3) == "%":
                parts.append(T.string("%"))
                continue
            if m.group(1):
                x = T.idx(args, T.string(m.group(1)[1:-1]))
            elif i < len(items):
                x = val(items[i])
                i += 1
            else:
                x = T.unk("format args")
            if m.group(3) == "s" and not m.group(2):
                parts.append(x)
            elif m.group(3) == "d" and not m.group(2):
                parts.append(x)
            else:
                parts.append(raw("call", "fmt", (T.string(
                    m.group(2) + m.group(3)), val(x)), ()))
        parts.append(T.string(fmt[pos:]))
        return T.concat(parts)

    def e_BoolOp(self, n, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        cur = st
        # short circuit: later operands evaluated under earlier facts; calls
        # in conditions are rare and side-effect free in this code base
        for x in n.values:
            vals.append(self.eval(x, cur))
        if all(val(v).op in T.BOOL_OPS for v in vals):
            return T.land(*vals) if isand else T.lor(*vals)
        out = vals[-1]
        for v in reversed(vals[:-1]):
            c = T.truth(v)
            out = T.ite(c, out, v) if isand else T.ite(c, v, out)
        return out

    def e_IfExp(self, n, st):
        c = self.known(T.truth(self.eval(n.test, st)), st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        if any(isinstance(x, ast.Call) for y in (n.body, n.orelse)
               for x in ast.walk(y)):
            return self.fork(c, st, lambda s: self.eval(n.body, s),
                             lambda s: self.eval(n.orelse, s))
        return T.ite(c, self.eval(n.body, st), self.eval(n.orelse, st))

    def fork(self, c, st, yes, no):
        """Evaluate yes where c holds and no where it does not."""
        base = st.guards
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.lnot(c))
        x = yes(a)
        gone = self.dead(a)
        y = no(b)
        if self.dead(b):
            if gone:
                self._dead = st
                return x
            out, r = a, x
        elif gone:
            out, r = b, y
        else:
            out = None
        if out is not None:
            st.env, st.heap, st.guards = out.env, out.heap, out.guards
            st.epoch, st.loopw = out.epoch, out.loopw
            return r
        m = self.merge2(a, b, base)
        st.env, st.heap, st.guards = m.env, m.heap, m.guards
        st.epoch, st.loopw = m.epoch, m.loopw
        return T.ite(c, x, y)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            out.append(self.compare(op, left, right))
            left = right
        return T.land(*out)

    def compare(self, op, a, b):
        x, y = val(a), val(b)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and \
                (sequence(x) or sequence(y)):
            if isinstance(op, (ast.LtE, ast.Gt)):
                x, y = y, x
            c = raw("truthy", raw("call", "seq<", (x, y), ()))
            return c if isinstance(op, (ast.Lt, ast.Gt)) else T.lnot(c)
        if self.plaintype(x, y) or self.plaintype(y, x):
            # the type of one of the classes analysed is no built-in type
            if isinstance(op, (ast.Eq, ast.Is)):
                return FALSE
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return TRUE
        try:
            if isinstance(op, ast.Lt):
                return T.lt0(T.sub(x, y))
            if isinstance(op, ast.LtE):
                return T.le0(T.sub(x, y))
            if isinstance(op, ast.Gt):
                return T.lt0(T.sub(y, x))
            if isinstance(op, ast.GtE):
                return T.le0(T.sub(y, x))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                c = T.eq(x, y)
                return c if isinstance(op, ast.Eq) else T.lnot(c)
        except T.TooBig:
            return raw("truthy", T.unk("comparison too large"))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if y is NONE:
                c = T.is_none(a)
            elif x is NONE:
                c = T.is_none(b)
            elif x is y:
                c = TRUE
            elif x.op == y.op == "fn" or {x.op, y.op} == {"fn", "cls"}:
                c = FALSE
            else:
                c = raw("is", x, y)
            return c if isinstance(op, ast.Is) else T.lnot(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(x, y)
            return c if isinstance(op, ast.In) else T.lnot(c)
        return raw("truthy", T.unk("compare"))

    @staticmethod
    def ontext(name, v, a):
        """The result of a text method when everything is known."""
        if v.op != "str" or not all(x.op == "str" for x in a):
            return None
        try:
            r = getattr(v.args[0], name)(*[x.args[0] for x in a])
        except (TypeError, ValueError):
            return None
        if isinstance(r, bool):
            return T.boolean(r)
        if isinstance(r, int):
            return T.num(r)
        if isinstance(r, str):
            return T.string(r)
        return raw("list" if isinstance(r, list) else "tuple",
                   tuple(T.string(x) for x in r))

    def plaintype(self, x, y):
        if x.op != "call" or x.args[0] != "type" or y.op != "fn" or \
                y.args[0] not in PLAIN or len(x.args[1]) != 1:
            return False
        c = self.typeof(x.args[1][0])
        return bool(c) and self.p.has_cls(c)

    def contains(self, x, y):
        if y.op in ("list", "tuple", "set"):
            return T.lor(*[T.eq(x, i) for i in y.args[0]])
        if y.op == "dict":
            return T.lor(*[T.eq(x, k) for k, _ in y.args[0]])
        if y.op == "call" and y.args[0] in ("keys", "sorted", "list",
                                            "set") and len(y.args[1]) == 1:
            return self.contains(x, val(y.args[1][0]))
        if y.op == "concatl":
            return T.lor(*[self.contains(x, val(p)) for p in y.args[0]])
        if x.op == "key" and x.args[0] is y:
            return TRUE
        if x.op == "idx" and x.args[0] is y and x.args[1].op != "slice" and \
                x.args[1].op in ("lv", "bv"):
            return TRUE
        if y.op == "store":
            return T.lor(T.eq(x, y.args[1]), self.contains(x,
                                                           val(y.args[0])))
        if x.op == "str" and y.op == "str":
            return T.boolean(x.args[0] in y.args[0])
        return raw("in", x, y)

    def e_Lambda(self, n, st):
        f = ast.FunctionDef(name="<lambda>", args=n.args, body=[
            ast.copy_location(ast.Return(value=n.body), n)],
            decorator_list=[], lineno=n.lineno, col_offset=0)
        fn = Func(self.stack[-1].module, f)
        key = "lambda@%s" % len(self.closures)
        self.closures[key] = (fn, st)
        return raw("closure", key)

    def e_ListComp(self, n, st):
        return self.comp(n.generators, n.elt, st)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return raw("call", "set", (self.comp(n.generators, n.elt, st),), ())

    def comp(self, gens, elt, st, kv=None):
        s = st
        saved = dict(st.env)
        g = gens[0]
        it = self.eval(g.iter, s)
        d = self.iterate(it)
        if d[0] == "fmap":
            fm = d[1]
            dom, c0, b, h = fm.args
            bvv = raw("bv", h)
            d = (dom, lambda lv: T.subst(b, {bvv: lv}))
            fil = lambda lv: T.subst(c0, {bvv: lv})
        else:
            fil = lambda lv: TRUE
        try:
            if d[0] == "items":
                parts = []
                for x in d[1]:
                    self.assign(g.target, x, s, elt)
                    cond = T.land(*[T.truth(self.eval(i, s))
                                    for i in g.ifs])
                    if cond is FALSE:
                        continue
                    if len(gens) > 1:
                        body = val(self.comp(gens[1:], elt, s))
                        if body.op != "list":
                            return T.unk("comprehension")
                    else:
                        body = raw("list", (self.eval(elt, s),))
                    if cond is not TRUE:
                        body = raw("condl", cond, body)
                    parts.append(body)
                return concatl(parts) if parts else raw("list", ())
            lid = T.next_id()
            lv = raw("lv", lid)
            self.loops.append(("loop", lid, d[0], lv))
            self.assign(g.target, d[1](lv), s, elt)
            cond = T.land(fil(lv), *[T.truth(self.eval(i, s))
                                     for i in g.ifs])
            s2 = s.copy()
            s2.assume(cond)
            if len(gens) > 1:
                body = self.comp(gens[1:], elt, s2)
            else:
                body = raw("list", (self.eval(elt, s2),))
            self.loops.pop()
            # calls in the element may have effects on the heap
            s.heap, s.epoch = s2.heap, s2.epoch
            return mkmap(d[0], lv, cond, body)
        finally:
            st.env.clear()
            st.env.update(saved)

    def e_DictComp(self, n, st):
        pair = ast.copy_location(ast.Tuple(elts=[n.key, n.value],
                                           ctx=ast.Load()), n)
        return self.todict(self.comp(n.generators, pair, st))

    def todict(self, m):
        m = val(m)
        if m.op == "list" and all(x.op == "tuple" and len(x.args[0]) == 2
                                  for x in m.args[0]):
            out = raw("dict", ())
            for x in m.args[0]:
                out = self.mkstore(out, val(x.args[0][0]), x.args[0][1])
            return out
        if m.op == "map":
            dom, b, h = m.args
            if b.op == "tuple" and len(b.args[0]) == 2:
                return raw("dictmap", dom, val(b.args[0][0]),
                           val(b.args[0][1]), h)
        return raw("call", "dict", (m,), ())

    def e_Starred(self, n, st):
        return raw("starred", self.eval(n.value, st))

    def e_Call(self, n, st):
        self.callsites += 1
        f = n.func
        # super(C, self).m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == "super":
            return self.super_call(n, st)
        r = self.keyed(n, f, st)
        if r is not None:
            return r
        args, kws, star = self.call_args(n, st)
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value, st)
            if recv.op == "fn":
                return self.apply(self.dotterm(recv.args[0] + "." + f.attr),
                                  args, kws, star, st, n)
            return self.method_call(recv, f.attr, f.value, args, kws, star,
                                    st, n)
        fn = self.eval(f, st)
        return self.apply(fn, args, kws, star, st, n)

    def keyed(self, n, f, st):
        """sorted/min/max with a key function: the keys become a list of
        their own."""
        if not (isinstance(f, ast.Name) and f.id in ("sorted", "min", "max")
                and f.id not in st.env and len(n.args) == 1 and
                not isinstance(n.args[0], ast.Starred)):
            return None
        ks = [k for k in n.keywords if k.arg == "key"]
        rest = [k for k in n.keywords if k.arg != "key"]
        if len(ks) != 1 or any(k.arg != "reverse" for k in rest):
            return None
        if f.id in self.stack[-1].module.functions or \
                isinstance(ks[0].value, ast.Constant):
            return None
        st.env["$seq"] = self.eval(n.args[0], st)
        comp = ast.ListComp(
            elt=ast.Call(func=ks[0].value, args=[ast.Name(
                id="$item", ctx=ast.Load())], keywords=[]),
            generators=[ast.comprehension(
                target=ast.Name(id="$item", ctx=ast.Store()),
                iter=ast.Name(id="$seq", ctx=ast.Load()), ifs=[],
                is_async=0)])
        for x in ast.walk(comp):
            if not hasattr(x, "lineno") and isinstance(x, (ast.expr,
                                                           ast.stmt)):
                ast.copy_location(x, n)
        keys = self.eval(comp, st)
        v = st.env.pop("$seq")
        rev = self.eval(rest[0].value, st) if rest else T.FALSE
        return raw("call", f.id + "by", (val(v), val(keys), rev), ())

    def call_args(self, n, st):
        args, kws, star = [], {}, None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                k = T.arraylen(v)
                if val(v).op in ("tuple", "list"):
                    args.extend(val(v).args[0])
                elif k is not None and k <= 8:
                    args.extend(self.index(v, T.num(i)) for i in range(k))
                else:
                    args.append(raw("starred", v))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = val(v)
                if d.op == "dict" and all(x.op == "str"
                                          for x, _ in d.args[0]):
                    for x, y in d.args[0]:
                        kws[x.args[0]] = y
                else:
                    star = v
            else:
                kws[k.arg] = v
        return args, kws, star

    def super_call(self, n, st):
        fr = self.stack[-1]
        args, kws, star = self.call_args(n, st)
        name = n.func.attr
        sup = n.func.value
        cls = None
        if sup.args and isinstance(sup.args[0], ast.Name):
            cls = self.p.lookup_class(fr.module, sup.args[0].id)
        cls = cls or (fr.func.cls if fr.func else None)
        if cls is None:
            return T.unk("super")
        selfname = fr.func.node.args.args[0].arg if fr.func and \
            fr.func.node.args.args else "self"
        obj = st.env.get(selfname, T.sym("self"))
        exact = self.typeof(obj)
        mro = self.p.mro(self.p.cls(exact)) if exact and \
            self.p.has_cls(exact) else self.p.mro(cls)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        for c in mro:
            if name in c.methods:
                return self.invoke(c.methods[name], [obj], args, kws, st, n,
                                   fr.selfcls, star)
        return NONE

    # ------------------------------------------------------------ calls
    def apply(self, fn, args, kws, star, st, n):
        if fn.op == "func":
            f = self.p.lookup_dotted(fn.args[0], Func)
            return self.invoke(f, [], args, kws, st, n, None, star)
        if fn.op == "bound":
            f = self.p.lookup_dotted(fn.args[0], Func)
            recv = fn.args[1]
            if f is not None:
                return self.call_method(f, recv, args, kws, star, st, n)
        if fn.op == "cls":
            return self.construct(fn, args, kws, star, st, n)
        if fn.op == "closure":
            f, cst = self.closures[fn.args[0]]
            return self.invoke_closure(f, cst, args, kws, st, n)
        if fn.op == "fn":
            return self.external(fn.args[0], args, kws, star, st, n)
        t = val(fn.args[0]) if fn.op == "idx" else None
        if t is not None and t.op == "dict" and t.args[0] and all(
                val(v).op in ("func", "cls", "bound", "fn") and
                T.is_const(k) for k, v in t.args[0]):
            return self.pick(t.args[0], fn, args, kws, star, st, n)
        t = raw("call", "apply", (val(fn),) + tuple(val(a) for a in args),
                tuple(sorted((k, val(v)) for k, v in kws.items())))
        self.emit(st, "call", (t,), n)
        return t

    def pick(self, items, fn, args, kws, star, st, n):
        """Call what a table of functions or classes has for a key."""
        if not items:
            self.emit(st, "raise", (T.string("KeyError"),), n)
            self._dead = st
            return NONE
        (k, v), rest = items[0], items[1:]
        c = T.eq(val(fn.args[1]), k)
        return self.fork(
            c, st,
            lambda s: self.apply(val(v), args, kws, star, s, n),
            lambda s: self.pick(rest, fn, args, kws, star, s, n))

    def construct(self, fn, args, kws, star, st, n):
        c = self.p.lookup_dotted(fn.args[0], Class)
        k = self.nalloc.get(c.name, 0)
        lvs = tuple(l[3] for l in self.loops if l[0] == "loop")
        self.nalloc[c.name] = k + 1
        obj = raw("new", c.name, k, lvs)
        init = self.p.find_method(c, "__init__")
        self.emit(st, "new", (obj,), n)
        if init is not None:
            self.invoke(init, [obj], args, kws, st, n, c, star)
        return obj

    def call_method(self, f, recv, args, kws, star, st, n):
        pre = [] if f.static else [recv]
        if recv.op == "cls" and not f.classmethod and not f.static:
            pre = []      # explicit Class.method(self, ...)
        c = None
        if recv.op == "cls":
            c = self.p.lookup_dotted(recv.args[0], Class)
        else:
            t = self.typeof(recv)
            if t and self.p.has_cls(t):
                c = self.p.cls(t)
        if f.classmethod and pre and recv.op != "cls":
            pre = [raw("cls", (c or f.cls).qual)]
        return self.invoke(f, pre, args, kws, st, n, c or f.cls, star)

    def bind_args(self, f, pre, args, kws, star, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pre) + list(args)
        for i, n in enumerate(names):
            if i < len(pos):
                env[n] = pos[i]
        rest = pos[len(names):]
        if a.vararg:
            env[a.vararg.arg] = raw("tuple", tuple(rest))
        nd = len(a.defaults)
        defs = dict(zip(names[len(names) - nd:], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defs[x.arg] = d
        extra = {}
        for k, v in kws.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        for n in names:
            if n not in env:
                d = None
                if n in defs:
                    self.stack.append(Frame(f, f.module))
                    d = self.eval(defs[n], State())
                    self.stack.pop()
                if star is not None:
                    got = self.index(star, T.string(n))
                    env[n] = got if d is None else T.ite(
                        self.contains(T.string(n), val(star)), got, d)
                elif d is not None:
                    env[n] = d
                else:
                    env[n] = raw("sym", "?missing_" + n)
        if a.kwarg:
            if star is not None and not extra:
                env[a.kwarg.arg] = star
            elif star is not None:
                o = val(star)
                for k, v in sorted(extra.items()):
                    o = self.mkstore(o, T.string(k), v)
                env[a.kwarg.arg] = o
            else:
                env[a.kwarg.arg] = raw("dict", tuple(sorted(
                    ((T.string(k), v) for k, v in extra.items()),
                    key=lambda kv: kv[0].key)))
        return env

    def misfit(self, f, npos, args, kws, star):
        """The arguments certainly do not fit the signature."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        only = [x.arg for x in a.kwonlyargs]
        if any(x.op == "starred" for x in args):
            return False
        if npos > len(names) and not a.vararg:
            return True
        given = set(names[:npos])
        for k in kws:
            if k in given or k not in names + only and not a.kwarg:
                return True
            given.add(k)
        if star is not None:
            return False
        need = names[:len(names) - len(a.defaults)] + [
            x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return any(x not in given for x in need)

    def invoke(self, f, pre, args, kws, st, n, selfcls, star=None):
        quals = [fr.func.qual for fr in self.stack if fr.func]
        env = self.bind_args(f, pre, args, kws, star, st)
        if self.misfit(f, len(pre) + len(args), args, kws, star):
            self.emit(st, "raise", (T.string("TypeError"),), n)
        if self.opaque(f) is not False or f.qual in quals or len(quals) > self.MAXDEPTH:
            return self.opaque_call(f, env, st, n)
        self.visited.add(f.qual)
        self.inlined.add(f.qual)
        s = st.copy()
        s.env = dict(env)
        if not self.stack:
            self.stack.append(Frame(f, f.module))
        ret, out = self.body(f, s, selfcls)
        if out is None:
            self._dead = st
            return T.unk("no return")
        st.heap, st.guards = out.heap, out.guards
        st.epoch, st.loopw = out.epoch, out.loopw
        self.passed_back(f, pre, env, out, st, n)
        return ret

    def invoke_closure(self, f, cst, args, kws, st, n):
        env = dict(cst.env)
        env.update(self.bind_args(f, [], args, kws, None, st))
        s = st.copy()
        s.env = env
        if len(self.stack) > self.MAXDEPTH + 6:
            return T.unk("closure depth")
        fr = Frame(f, f.module)
        self.stack.append(fr)
        base = st.guards
        try:
            end = self.block(f.node.body, s)
            if end is not None:
                fr.returns.append((end, NONE))
            if not fr.returns:
                self._dead = st
                return T.unk("no return")
            for x, v in fr.returns:
                x.env = {"$ret": v}
            m = self.merge([x for x, _ in fr.returns], base)
        finally:
            self.stack.pop()
        st.heap, st.guards = m.heap, m.guards
        st.epoch, st.loopw = m.epoch, m.loopw
        return m.env["$ret"]

    def opaque_call(self, f, env, st, n):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + \
            [x.arg for x in a.kwonlyargs] + \
            ([a.vararg.arg] if a.vararg else []) + \
            ([a.kwarg.arg] if a.kwarg else [])
        if f.cls is not None and not f.static and names:
            recv = env[names[0]]
        else:
            recv = None
        vals = tuple(val(env[k]) if not (env[k].op == "copy") else env[k]
                     for k in names)
        eps = []
        pure = self.purefn(f)
        if pure != "const":
            for i, k in enumerate(names):
                e = self.stateof(st, ptr(env[k]))
                if e is not None:
                    eps.append(raw("tuple", (T.num(i), e)))
        t = raw("call", f.short, vals,
                (("@", raw("tuple", tuple(eps))),) if eps else ())
        self.emit(st, "call", (t, T.string(f.short)) +
                  tuple(env[k] for k in names), n)
        which = self.opaque(f)
        if not pure:
            for i, k in enumerate(names):
                o = ptr(env[k])
                if isinstance(which, (tuple, list, set)):
                    hit = k in which
                else:
                    hit = env[k] is recv or o.op in ("sym", "new", "copy") \
                        or bool(self.typeof(o))
                if hit and not T.is_const(o) and o.op not in (
                        "poly", "cls", "func", "fn"):
                    self.havoc(st, o, raw("ep", t, i))
        return t

    def stateof(self, st, o):
        """What is known to have changed in object o (None: nothing)."""
        parts = []
        if st.epoch.get(o):
            parts.append(st.epoch[o])
        src = o.args[-1] if o.op == "copy" else o
        for (x, name), v in sorted(st.heap.items(),
                                   key=lambda kv: str(kv[0][1])):
            if x is o and name not in self.quiet and \
                    val(v) is not raw("attr", src, name):
                parts.append(raw("tuple", (T.string(name), v)))
        if not parts and o.op == "ite":
            a, b = (self.stateof(st, ptr(x)) for x in o.args[1:3])
            if a is not None or b is not None:
                return T.ite(o.args[0], a or NONE, b or NONE)
        return raw("tuple", tuple(parts)) if parts else None

    def havoc(self, st, o, ep):
        for k in list(st.heap):
            if k[0] is o:
                del st.heap[k]
        st.epoch[o] = ep

    # ------------------------------------------------------------ methods
    LIST_MUT = ("append", "extend", "insert", "pop", "remove", "sort",
                "reverse", "update", "setdefault", "clear", "popitem", "fill",
                "add", "resize", "discard", "put", "itemset")

    def method_call(self, recv, name, node, args, kws, star, st, n):
        v = val(recv)
        c = self.typeof(recv)
        o = ptr(recv)
        if c is None and o.op == "ite" and all(
                self.typeof(x) or ptr(x).op == "ite" for x in o.args[1:3]):
            return self.fork(
                o.args[0], st,
                lambda s: self.method_call(o.args[1], name, node, args, kws,
                                           star, s, n),
                lambda s: self.method_call(o.args[2], name, node, args, kws,
                                           star, s, n))
        if recv.op == "cls":
            k = self.p.lookup_dotted(recv.args[0], Class)
            f = self.p.find_method(k, name) if k else None
            if f is not None:
                return self.call_method(f, recv, args, kws, star, st, n)
        if recv.op in ("func", "bound", "closure"):
            return T.unk("method of function")
        if c and self.p.has_cls(c):
            f = self.p.find_method(self.p.cls(c), name)
            if f is not None:
                return self.call_method(f, recv, args, kws, star, st, n)
        r = self.container_method(recv, name, node, args, kws, st, n)
        if r is not None:
            return r
        if c is None:
            fs = self.p.methods_by_name.get(name, [])
            own = set(f.qual for f in fs)
            if len(own) == 1 and name not in ("keys", "items", "values",
                                              "get", "copy", "sum",
                                              "append"):
                f = fs[0]
                return self.call_method(f, recv, args, kws, star, st, n)
        fv = None
        p = ptr(recv)
        hv = st.heap.get((p, name))
        if hv is not None and hv.op in ("closure", "func", "bound", "cls"):
            return self.apply(hv, args, kws, star, st, n)
        t = raw("mcall", v, name, tuple(val(a) for a in args),
                tuple(sorted((k, val(x)) for k, x in kws.items())) +
                ((("**", val(star)),) if star is not None else ()))
        self.emit(st, "mcall", (t, ptr(recv), T.string(name)) +
                  tuple(args), n)
        return t

    def container_method(self, recv, name, node, args, kws, st, n):
        v = val(recv)
        a = [val(x) for x in args]
        if name == "append" and len(args) == 1:
            self.emit(st, "append", (ptr(recv), args[0]), n)
            self.writeback(node, T.mut(recv, concatl(
                [v, raw("list", (args[0],))])), st)
            return NONE
        if name == "extend" and len(args) == 1:
            self.emit(st, "append", (ptr(recv), args[0]), n)
            self.writeback(node, T.mut(recv, concatl([v, a[0]])), st)
            return NONE
        if name in ("items", "iteritems", "viewitems") and not args:
            return raw("dictitems", recv)
        if name in ("values", "itervalues") and not args:
            return raw("dictvalues", recv)
        if name in ("keys", "iterkeys") and not args:
            return raw("call", "keys", (v,), ())
        if name == "update" and len(args) == 1 and not kws:
            self.emit(st, "setitem", (ptr(recv), T.unk("update"), a[0]), n)
            if a[0].op == "dict" and v.op in ("dict", "store", "sym",
                                              "attr"):
                o = v
                for k, x in a[0].args[0]:
                    o = self.mkstore(o, k, x)
            else:
                o = raw("call", "dictupdate", (v, a[0]), ())
            self.writeback(node, T.mut(recv, o), st)
            return NONE
        if name == "get" and 1 <= len(args) <= 2 and \
                v.op in ("dict", "sym", "attr", "attrv", "store",
                         "dictmap", "idx") and self.typeof(recv) is None:
            d = args[1] if len(args) > 1 else NONE
            if v.op == "sym" and v.args[0] not in ("kwargs",) and \
                    len(args) == 1 and a[0].op != "str":
                return None
            return T.ite(self.contains(a[0], v), self.index(recv, a[0]), d)
        if name == "copy" and not args:
            return self.copyof("shallow", recv, st)
        if name == "astype":
            if val(kws.get("copy", TRUE)) is FALSE:
                return recv
            if a and (a[0].op == "str" and a[0].args[0].startswith("float")
                      or a[0].op == "fn" and "float" in a[0].args[0]):
                r = self.copyof("shallow", recv, st)
                return r
            return raw("call", "astype", (v,) + tuple(a), ())
        if name == "sum":
            ax = a[0] if a else (val(kws["axis"]) if "axis" in kws else None)
            return self.sumof(v, ax)
        if name == "mean" and not args and not kws:
            return raw("call", "numpy.mean", (v,), ())
        if name in ("tolist",) and not args:
            return v
        if name == "reshape":
            s = a[0] if len(a) == 1 else raw("tuple", tuple(a))
            return raw("call", "reshape", (v, s), ())
        if name in ("min", "max", "argmin", "argmax", "all", "any", "prod",
                    "std") and v.op not in ("sym?",):
            if len(a) <= 1:
                return self.external("numpy." + name, [recv] + args, kws,
                                     None, st, n)
        if v.op == "str" and name in ("join",):
            return raw("call", "join", (v, a[0]), ())
        if name in ("split", "rsplit", "strip", "rstrip", "lstrip",
                    "lower", "upper", "startswith", "endswith", "replace",
                    "join", "title", "rpartition", "partition", "find",
                    "isdigit", "count", "index"):
            if name == "index" and len(a) == 1:
                self.risk(st, "ValueError", T.lnot(self.contains(a[0], v)))
            t = self.ontext(name, v, a) if not kws else None
            if t is not None:
                return t
            t = raw("call", "str." + name, (v,) + tuple(a), tuple(
                sorted((k, val(x)) for k, x in kws.items())))
            return t
        if name == "format" and v.op == "str":
            import re
            parts, pos, i = [], 0, 0
            for m in re.finditer(r"\{([^{}:!]*)([^{}]*)\}", v.args[0]):
                parts.append(T.string(v.args[0][pos:m.start()]))
                pos = m.end()
                k = m.group(1)
                if k == "":
                    x = a[i] if i < len(a) else T.unk("format")
                    i += 1
                elif k.isdigit():
                    x = a[int(k)] if int(k) < len(a) else T.unk("format")
                else:
                    x = val(kws[k]) if k in kws else T.unk("format")
                if m.group(2):
                    x = raw("call", "fmt", (T.string(m.group(2)), x), ())
                parts.append(x)
            parts.append(T.string(v.args[0][pos:]))
            return T.concat(parts)
        if name in self.LIST_MUT and self.typeof(recv) is None:
            if name == "pop" and v.op in ("dict", "sym", "attr", "attrv",
                                          "store", "idx") and a:
                r = self.index(recv, a[0])
                if len(a) > 1:
                    r = T.ite(self.contains(a[0], v), r, args[1])
                self.emit(st, "delitem", (ptr(recv), a[0]), n)
                self.writeback(node, T.mut(recv, raw("del", v, a[0])), st)
                return r
            if name == "fill" and len(a) == 1 and not kws:
                self.emit(st, "inplace", (ptr(recv), a[0], a[0]), n)
                self.writeback(node, T.mut(recv, raw(
                    "call", "filled", (v, a[0]), ())), st)
                return NONE
            if name == "add" and c_is_set(v):
                self.emit(st, "append", (ptr(recv), args[0]), n)
                self.writeback(node, T.mut(recv, raw(
                    "call", "setadd", (v, a[0]), ())), st)
                return NONE
            if name in ("add", "fill"):
                return None
            self.emit(st, "inplace", (ptr(recv), T.string(name)) +
                      tuple(a), n)
            t = raw("call", "list." + name, (v,) + tuple(a), ())
            self.writeback(node, T.mut(recv, t), st)
            if name in ("pop", "setdefault", "popitem"):
                return raw("call", "popped." + name, (v,) + tuple(a), ())
            return NONE
        return None

    def copyof(self, kind, x, st):
        self.ncopy += 1
        src = ptr(x)
        v = val(x)
        if v.op in ("num", "str", "bool", "none", "poly"):
            return v
        n = self.ncopy
        if src.op in ("sym", "attr", "attrv", "idx", "new", "copy", "key",
                      "ite") and v is src or self.typeof(x):
            lvs = tuple(l[3] for l in self.loops if l[0] == "loop")
            c = raw("copy", kind, raw("tuple", (T.num(n),) + lvs), src)
            for (o, a), fv in list(st.heap.items()):
                if o is src:
                    st.heap[(c, a)] = fv if kind != "deep" else \
                        self.deepwrap(n, fv)
            if st.epoch.get(src, 0):
                st.epoch[c] = st.epoch[src]
            return c
        return v if kind == "shallow" else v

    def deepwrap(self, n, v):
        if T.is_const(v) or v.op == "poly":
            return v
        return raw("copy", "deep", raw("tuple", (T.num(n),)), v)

    def sumof(self, v, axis):
        v = val(v)
        if axis is None or axis is NONE:
            if v.op == "list":
                return T.add(*v.args[0]) if v.args[0] else ZERO
            if v.op == "map":
                dom, b, h = v.args
                return T.resum(dom, b, h) if T.contains(
                    b, lambda x: x is raw("bv", h)) else T.mul(dom, b)
            if v.op == "fmap":
                dom, c, b, h = v.args
                return T.resum(dom, T.mul(T.from_poly(T.ind_poly(c)), b), h)
            if v.op == "concatl":
                return T.add(*[self.sumof(x, None) for x in v.args[0]])
            if v.op == "poly" or T.array_like(v):
                # linear over scalar factors
                if T.array_like(v):
                    lv = raw("lv", T.next_id())
                    dom = array_len(v)
                    return T.mk_sum(dom, lv, T.elementwise(v, lv))
                p = T.to_poly(v)
                if len(p) == 1:
                    (m, c), = p.items()
                    arr = [(x, e) for x, e in m if data_like(x) and e == 1]
                    if len(arr) == 1:
                        rest = tuple(q for q in m if q != arr[0])
                        return T.mul(T.from_poly({rest: c}), raw(
                            "call", "sumall", (arr[0][0],), ()))
                else:
                    outs = []
                    ok = True
                    for m, c in p.items():
                        arr = [(x, e) for x, e in m
                               if data_like(x) and e == 1]
                        if len(arr) != 1:
                            ok = False
                            break
                        rest = tuple(q for q in m if q != arr[0])
                        outs.append(T.mul(T.from_poly({rest: c}), raw(
                            "call", "sumall", (arr[0][0],), ())))
                    if ok:
                        return T.add(*outs)
            return raw("call", "sumall", (v,), ())
        return raw("call", "sumax", (v, val(axis)), ())

    # ------------------------------------------------------------ externals
    def external(self, name, args, kws, star, st, n):
        a = [val(x) for x in args]
        k = dict((x, val(y)) for x, y in kws.items())
        short = name.split(".")[-1]
        isnp = name.startswith(("numpy.", "np.", "math.", "scipy."))
        na = len(a)
        try:
            r = self._external(name, short, isnp, args, a, kws, k, na, star,
                               st, n)
        except T.TooBig:
            r = T.unk("expression too large")
        if r is not None:
            return r
        t = raw("call", name, tuple(a), tuple(sorted(k.items())) + (
            (("**", val(star)),) if star is not None else ()))
        if name.split(".")[0] in ("logging", "print"):
            return t
        if "out" in kws:
            self.emit(st, "inplace", (ptr(kws["out"]), t, t), n)
        self.emit(st, "ext", (t, T.string(name)) + tuple(args), n)
        return t

    def _external(self, name, short, isnp, args, a, kws, k, na, star, st, n):
        if name == "print":
            return NONE
        if name in ("float", "numpy.float64", "numpy.float",
                    "numpy.double") and na == 1:
            if a[0].op == "str" or textual(a[0]):
                return raw("call", "float", (a[0],), ())
            return a[0]
        if name in ("int", "long") and na == 1:
            if a[0].op == "num":
                return T.num(int(a[0].args[0]))
            if a[0].op == "call" and a[0].args[0] in ("floor", "ceil",
                                                      "int", "round0"):
                return a[0]
            if a[0].op in ("len",):
                return a[0]
            return T.lift(a[0], lambda x: raw("call", "int", (x,), ()))
        if isnp and short == "floor" and na == 1:
            return T.lift(a[0], lambda x: raw("call", "floor", (x,), ()))
        if isnp and short == "ceil" and na == 1:
            return T.lift(a[0], lambda x: raw("call", "ceil", (x,), ()))
        if name == "str" and na == 1:
            if a[0].op in ("str", "concat"):
                return a[0]
            return raw("call", "str", (a[0],), ())
        if name == "repr" and na == 1:
            return raw("call", "repr", (a[0],), ())
        if name == "bool" and na == 1:
            return T.truth(a[0])
        if name == "len" and na == 1:
            if a[0].op == "fmap":
                dom, c, b, h = a[0].args
                return T.resum(dom, T.from_poly(T.ind_poly(c)), h)
            return T.length(a[0])
        if name in ("range", "xrange"):
            if na == 1:
                lo, hi, stp = ZERO, a[0], ONE
            elif na == 2:
                lo, hi, stp = a[0], a[1], ONE
            else:
                lo, hi, stp = a[:3]
            if all(x.op == "num" for x in (lo, hi, stp)) and \
                    stp.args[0] != 0:
                l = list(range(int(lo.args[0]), int(hi.args[0]),
                               int(stp.args[0])))
                if len(l) <= 16:
                    return raw("list", tuple(T.num(i) for i in l))
            return raw("range", lo, hi, stp)
        if name == "numpy.arange" and na == 1 and not k:
            return raw("range", ZERO, a[0], ONE)
        if name == "itertools.chain" and not k and star is None and na:
            return concatl([raw("call", "list", (x,), ())
                            if x.op not in ("list", "tuple", "map", "fmap",
                                            "concatl") and not listed(x)
                            else x for x in a])
        if name in ("zip", "itertools.izip"):
            return raw("zip", tuple(args))
        if name == "enumerate":
            return raw("enumerate", args[0], a[1] if na > 1 else
                       k.get("start", ZERO))
        if name in ("list", "tuple") and na == 1:
            if a[0].op in ("list", "tuple"):
                return raw(name, a[0].args[0])
            if a[0].op in ("map", "fmap", "concatl"):
                return a[0] if name == "list" else \
                    raw("call", "tuple", (a[0],), ())
            if a[0].op in ("range", "zip", "enumerate"):
                d = self.iterate(a[0])
                if d[0] == "items":
                    return raw(name, tuple(d[1]))
                lv = raw("lv", T.next_id())
                return mkmap(d[0], lv, TRUE, raw("list", (d[1](lv),)))
            if a[0].op == "call" and a[0].args[0] in ("keys", "sorted"):
                return a[0]
            if a[0].op == "dictvalues" or a[0].op == "dictitems":
                d = self.iterate(a[0])
                if d[0] == "items":
                    return raw(name, tuple(d[1]))
                lv = raw("lv", T.next_id())
                return mkmap(d[0], lv, TRUE, raw("list", (d[1](lv),)))
            return args[0] if a[0].op in ("sym", "attr", "idx") and False \
                else raw("call", name, (a[0],), ())
        if name in ("list", "dict", "tuple", "set") and na == 0 and not k \
                and star is None:
            if name == "set":
                return raw("set", ())
            return raw(name, ())
        if name == "dict":
            if na == 0 and star is None:
                return raw("dict", tuple(sorted(
                    ((T.string(x), kws[x]) for x in kws),
                    key=lambda kv: kv[0].key)))
            if na == 1 and not k:
                if a[0].op in ("map", "list"):
                    return self.todict(a[0])
                if a[0].op == "zip":
                    d = self.iterate(a[0])
                    if d[0] == "items":
                        return self.todict(raw("list", tuple(d[1])))
                    lv = raw("lv", T.next_id())
                    return self.todict(mkmap(d[0], lv, TRUE, raw(
                        "list", (d[1](lv),))))
                if a[0].op in ("call", "mcall", "stores") and \
                        val(args[0]) is ptr(args[0]):
                    return raw("call", "dict", (a[0],), ())
                return self.copyof("plain", args[0], st)
        if name == "numpy.array" and k.get("copy") is FALSE:
            return args[0]
        if name == "sorted" and na == 1 and not k:
            if a[0].op in ("sym", "attr", "attrv", "call", "idx"):
                return raw("call", "sorted", (a[0],), ())
        if name in ("any", "all") and na == 1 or \
                name in ("numpy.any", "numpy.all") and na == 1 and not k:
            return self.quant(short, a[0])
        if name in ("copy.copy", "numpy.copy", "numpy.array") and na >= 1:
            if name == "numpy.array":
                if a[0].op in ("list", "tuple", "map", "fmap", "concatl"):
                    return a[0]
                if a[0].op in ("range", "zip"):
                    return self._external("list", "list", False, args[:1],
                                          a[:1], {}, {}, 1, None, st, n)
            return self.copyof("shallow" if name == "copy.copy" else "array",
                               args[0], st)
        if name == "copy.deepcopy" and na >= 1:
            return self.copyof("deep", args[0], st)
        if name == "numpy.asarray" and na >= 1:
            return args[0]
        if name == "isinstance" and na == 2:
            return self.isinst(args[0], a[1])
        if name == "type" and na == 1:
            c = self.typeof(args[0])
            if args[0].op == "new":
                return raw("cls", self.p.cls(c).qual)
            if a[0].op in ("tuple", "dict", "str") and args[0].op != "mut":
                return raw("fn", a[0].op)
            if intvalued(a[0]):
                return raw("fn", "int")
            return raw("call", "type", (a[0],), ())
        if name == "getattr" and na >= 2 and a[1].op == "str":
            got = self.attribute(args[0], a[1].args[0], st)
            if na == 3 and args[0].op == "sym" and got.op == "attr" and \
                    not self.constructed(args[0], a[1].args[0]):
                return T.ite(raw("truthy", raw("call", "hasattr",
                                               (a[0], a[1]), ())),
                             got, args[2])
            return got
        if name == "setattr" and na == 3:
            nm = a[1].args[0] if a[1].op == "str" else a[1]
            if isinstance(nm, str):
                self.setfield(st, args[0], nm, args[2], n)
            else:
                self.setnamed(st, args[0], nm, args[2], n)
            return NONE
        if name in ("eval", "exec") and na >= 1:
            return self.evalstr(name, a[0], st, n)
        if isnp:
            if short in ("multiply",) and na == 2:
                return T.mul(a[0], a[1])
            if short in ("divide", "true_divide") and na == 2:
                return T.div(a[0], a[1])
            if short == "add" and na == 2:
                return T.add(a[0], a[1])
            if short == "subtract" and na == 2:
                return T.sub(a[0], a[1])
            if short == "negative" and na == 1:
                return T.neg(a[0])
            if short in ("power", "pow") and na == 2:
                return T.power(a[0], a[1])
            if short == "sqrt" and na == 1:
                return T.power(a[0], T.num(Fraction(1, 2)))
            if short == "square" and na == 1:
                return T.power(a[0], T.num(2))
            if short == "log" and na == 1:
                return T.log(a[0])
            if short == "exp" and na == 1:
                return T.fexp(a[0])
            if short in ("fabs", "abs", "absolute") and na == 1:
                return T.fabs(a[0])
            if short == "sum" and na >= 1 or short == "fsum":
                ax = a[1] if na > 1 else k.get("axis")
                return self.sumof(a[0], ax)
            if short in ("maximum", "fmax") and na == 2:
                return T.ite(T.lt0(T.sub(a[0], a[1])), a[1], a[0])
            if short in ("minimum", "fmin") and na == 2:
                return T.ite(T.lt0(T.sub(a[1], a[0])), a[1], a[0])
            if short == "where" and na == 3:
                return T.ite(T.truth(a[0]), a[1], a[2])
            if short in ("less", "greater", "less_equal", "greater_equal",
                         "equal", "not_equal") and na == 2:
                return self.compare({
                    "less": ast.Lt, "greater": ast.Gt,
                    "less_equal": ast.LtE, "greater_equal": ast.GtE,
                    "equal": ast.Eq, "not_equal": ast.NotEq}[short](),
                    a[0], a[1])
            if short == "logical_and" and na == 2:
                return T.land(a[0], a[1])
            if short == "logical_or" and na == 2:
                return T.lor(a[0], a[1])
            if short == "logical_not" and na == 1:
                return T.lnot(T.truth(a[0]))
            if short in ("allclose", "isclose") and na >= 2:
                x, y = sorted(a[:2], key=lambda t: t.key)
                return raw("call", "numpy.allclose", (x, y) + tuple(a[2:]),
                           tuple(sorted(k.items())))
            if short in ("zeros", "ones", "empty", "full") and \
                    (na >= 1 or "shape" in k):
                s = a[0] if na >= 1 else k["shape"]
                if s.op == "num" or s.op in ("len", "poly"):
                    pass
                rest = tuple(a[1:]) if short == "full" else ()
                if short == "full" and "fill_value" in k:
                    rest = (k["fill_value"],)
                return raw("call", "numpy." + short, (s,) + rest, ())
            if short in ("zeros_like", "ones_like") and na >= 1:
                return raw("call", "numpy." + short[:-5],
                           (self.attribute(args[0], "shape", st),), ())
            if short == "pi" and na == 0:
                return None
        if name in ("abs",) and na == 1:
            return T.fabs(a[0])
        if name == "pow" and na == 2:
            return T.power(a[0], a[1])
        if name == "sum" and na >= 1:
            r = self.sumof(a[0], None)
            return T.add(r, a[1]) if na > 1 else r
        if name in ("max", "min") and na == 2:
            if name == "max":
                return T.ite(T.lt0(T.sub(a[0], a[1])), a[1], a[0])
            return T.ite(T.lt0(T.sub(a[1], a[0])), a[1], a[0])
        if name == "reversed" and na == 1:
            return raw("call", "reversed", (a[0],), ())
        if name == "callable" and na == 1:
            return raw("truthy", raw("call", "callable", (a[0],), ()))
        if name == "hasattr" and na == 2:
            if a[1].op == "str" and args[0].op == "sym" and \
                    self.constructed(args[0], a[1].args[0]):
                return T.TRUE
            return raw("truthy", raw("call", "hasattr", tuple(a), ()))
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            self.emit(st, "raise", (T.string("SystemExit"),), n)
            self._dead = st
            return NONE
        if short in BUILTINS and short.endswith(("Error", "Exception")):
            return raw("call", name, tuple(a), ())
        return None

    def quant(self, which, x):
        if x.op in ("list", "tuple"):
            f = T.lor if which == "any" else T.land
            return f(*[T.truth(i) for i in x.args[0]])
        if x.op in ("map", "fmap"):
            if x.op == "map":
                dom, b, h = x.args
                c = TRUE
            else:
                dom, c, b, h = x.args
            b = T.truth(b)
            if which == "any":
                return raw("exists", dom, T.land(c, b))
            return raw("forall", dom, T.lor(T.lnot(c), b))
        if x.op in T.BOOL_OPS and T._arr_cond(x):
            lv = raw("lv", T.next_id())
            arr = [s for s in T.walk(x) if s in T.ARRAY_SYMS]
            _, b = T.bind(lv, T.elem_cond(x, lv))
            return raw("exists" if which == "any" else "forall",
                       array_len(arr[0]) if arr else raw("len", x), b)
        return raw("truthy", raw("call", which, (x,), ()))

    def isinst(self, x, c):
        o = ptr(x)
        if o.op == "ite" and "new" in (ptr(o.args[1]).op, ptr(o.args[2]).op):
            return T.lor(T.land(o.args[0], self.isinst(o.args[1], c)),
                         T.land(T.lnot(o.args[0]),
                                self.isinst(o.args[2], c)))
        t = self.typeof(x)
        cs = list(c.args[0]) if c.op == "tuple" else [c]
        if x.op == "new" or (t and self.types.get("exact")):
            k = self.p.cls(t)
            quals = set(m.qual for m in self.p.mro(k))
            if all(y.op == "cls" for y in cs):
                return T.boolean(any(y.args[0] in quals for y in cs))
        if t and self.p.has_cls(t) and all(
                y.op == "fn" and y.args[0] in PLAIN for y in cs):
            return FALSE
        v = val(x)
        if x.op in ("tuple", "dict", "str") and all(
                y.op == "fn" and y.args[0] in PLAIN for y in cs):
            return T.boolean(any(y.args[0] == x.op for y in cs))
        if intvalued(v) and all(y.op == "fn" for y in cs):
            for y in cs:
                if y.args[0] in ("int", "numbers.Integral", "numbers.Number",
                                 "numbers.Real"):
                    return TRUE
            if all(y.args[0] in ("float", "str", "list", "dict", "tuple")
                   for y in cs):
                return FALSE
        if v in T.ARRAY_SYMS or T.array_like(v):
            if all(y.op == "fn" and y.args[0] in ("float", "int", "str",
                                                  "list", "dict", "tuple")
                   for y in cs):
                return FALSE
        if len(cs) > 1:
            return T.lor(*[raw("truthy", raw("call", "isinstance", (v, y),
                                             ())) for y in cs])
        return raw("truthy", raw("call", "isinstance", (v, cs[0]), ()))

    def evalstr(self, name, s, st, n):
        """eval/exec of a string built from literals and index fragments."""
        parts = list(s.args[0]) if s.op == "concat" else [s]
        src, env = "", {}
        for p in parts:
            if p.op == "str":
                src += p.args[0]
            else:
                k = "__frag%d__" % len(env)
                env[k] = p
                if text_start(p) == "[" and src.rstrip()[-1:].isalnum():
                    src += "[" + k
                    continue
                src += k if src.rstrip()[-1:] in ("[", "(", ",", "=", "+",
                                                  "*", " ") or not src \
                    else "[" + k + "]"
        try:
            tree = ast.parse(src.strip())
        except SyntaxError:
            t = T.unk("eval of computed text")
            self.emit(st, "evalstr", (t, s), n)
            return t
        for k, v in env.items():
            st.env[k] = raw("frag", v)
        out = NONE
        for x in tree.body:
            for y in ast.walk(x):
                if hasattr(y, "lineno"):
                    y.lineno = n.lineno
            if isinstance(x, ast.Expr):
                out = self.eval(x.value, st)
            else:
                self.stmt(x, st)
        for k in env:
            st.env.pop(k, None)
        return out


# ---------------------------------------------------------------- helpers
def own(node):
    """The statements of a function without those of nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def yields(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(node))


class Splice(ast.NodeTransformer):
    """The body of a generator in the place of a loop over it."""

    def __init__(self, names, prefix, loop):
        self.names, self.prefix, self.loop = names, prefix, loop
        self.bad = False

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Name(id=self.prefix + n.id,
                                              ctx=n.ctx), n)
        return n

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Yield) and v.value is not None:
            val = self.visit(copy.deepcopy(v.value))
            t = ast.Assign(targets=[copy.deepcopy(self.loop.target)],
                           value=val)
            ast.copy_location(t, n)
            return [t] + copy.deepcopy(self.loop.body)
        if isinstance(v, ast.YieldFrom):
            tmp = self.prefix + "$from"
            y = ast.Expr(value=ast.Yield(value=ast.Name(
                id=tmp, ctx=ast.Load())))
            f = ast.For(target=ast.Name(id=tmp, ctx=ast.Store()),
                        iter=v.value, body=[y], orelse=[])
            for x in ast.walk(f):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
            return self.visit(f)
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.bad = True
        return n

    visit_YieldFrom = visit_Return = visit_Global = visit_Yield

    def visit_FunctionDef(self, n):
        self.bad = True
        return n

    visit_ClassDef = visit_Try = visit_FunctionDef


def leaves_loop(stmts):
    """A break or continue that belongs to the loop with this body."""
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        for x in ("body", "orelse", "finalbody"):
            if x != "orelse" and isinstance(s, (ast.For, ast.While)):
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if leaves_loop(getattr(s, x, None) or []):
                return True
        for h in getattr(s, "handlers", None) or []:
            if leaves_loop(h.body):
                return True
    return False


def decontinue(stmts):
    """The same statements with guarded `continue`s turned into else."""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Continue):
            return out or [ast.copy_location(ast.Pass(), s)]
        if isinstance(s, ast.If) and leaves_loop([s]):
            rest = stmts[i + 1:]
            a = decontinue(s.body + copy.deepcopy(rest))
            b = decontinue(s.orelse + rest)
            new = ast.If(test=s.test, body=a, orelse=b)
            if len(out) > 40:
                return out + stmts[i:]
            return out + [ast.copy_location(new, s)]
        out.append(s)
    return out


def spliced(node, loop, prefix):
    if leaves_loop(loop.body):
        n = sum(isinstance(x, ast.Continue) for s in loop.body
                for x in ast.walk(s))
        body = decontinue(loop.body) if n < 5 else loop.body
        if leaves_loop(body):
            return None
        loop = ast.copy_location(ast.For(
            target=loop.target, iter=loop.iter, body=body,
            orelse=loop.orelse), loop)
    a = node.args
    names = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    if a.vararg:
        names.add(a.vararg.arg)
    names |= set(x.id for x in own(node) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, (ast.Store, ast.Del)))
    t = Splice(names, prefix, loop)
    out = []
    for s in copy.deepcopy(node.body):
        r = t.visit(s)
        out += r if isinstance(r, list) else [r]
    if t.bad:
        return None
    for s in out:
        ast.fix_missing_locations(s)
        for x in ast.walk(s):
            if getattr(x, "lineno", None) is None:
                x.lineno, x.col_offset = loop.lineno, 0
    return out, prefix


def sometimes(loop, func):
    """Local names a loop body assigns in some iterations only and that are
    read outside the statement that assigns them, in the body or after the
    loop."""
    body = loop.body
    within = set(id(y) for y in ast.walk(loop))
    node = getattr(func, "node", None)
    after = set()
    if node is not None:
        last = getattr(loop, "end_lineno", loop.lineno)
        enclosing = [y for y in ast.walk(node)
                     if isinstance(y, (ast.For, ast.While)) and
                     y is not loop and any(z is loop for z in ast.walk(y))]
        for y in ast.walk(node):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and \
                    id(y) not in within and \
                    (y.lineno > last or enclosing):
                after.add(y.id)

    def targets(x):
        out = set()
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                out.add(y.id)
        return out

    def always(stmts):
        out = set()
        for x in stmts:
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                out |= targets(x)
            elif isinstance(x, ast.With):
                out |= always(x.body)
            elif isinstance(x, ast.Try):
                out |= always(x.body + x.orelse) if all(
                    leaves(h.body) for h in x.handlers) else set()
            elif isinstance(x, ast.If):
                a, b = always(x.body), always(x.orelse)
                if leaves(x.body):
                    out |= b
                elif x.orelse and leaves(x.orelse):
                    out |= a
                else:
                    out |= a & b
        return out

    def leaves(stmts):
        return bool(stmts) and isinstance(stmts[-1], (
            ast.Return, ast.Raise, ast.Continue, ast.Break))

    sure = always(body)
    out = []
    for x in body:
        if not isinstance(x, ast.If):
            continue
        for v in sorted(targets(x) - sure):
            if v in out:
                continue
            if v in after:
                out.append(v)
                continue
            for y in body:
                if y is not x and any(
                        isinstance(z, ast.Name) and z.id == v and
                        isinstance(z.ctx, ast.Load) for z in ast.walk(y)):
                    out.append(v)
                    break
    # names assigned under a condition inside an inner loop
    for x in body:
        if isinstance(x, (ast.For, ast.While)):
            for v in sorted(targets(x) - sure):
                if v in out or isinstance(x, ast.For) and \
                        v in targets(x.target):
                    continue
                if v not in always(x.body) and (v in after or any(
                        isinstance(z, ast.Name) and z.id == v and
                        isinstance(z.ctx, ast.Load)
                        for y in body if y is not x for z in ast.walk(y))):
                    out.append(v)
    return out


def subst_event(e, m):
    e.data = tuple(T.subst(x, m) if isinstance(x, T.Term) else x
                   for x in e.data)
    e.guards = tuple(T.subst(g, m) for g in e.guards)
    e.loops = tuple(("loop", l[1], T.subst(l[2], m)) + tuple(l[3:])
                    if l[0] == "loop" and isinstance(l[2], T.Term) else l
                    for l in e.loops)


def _with_loopw(st, lw):
    s = st.copy()
    s.loopw = lw
    return s


def pinned(cond, lv):
    """The only turn lv for which cond can hold, if it says so."""
    for g in cond.args[0] if cond.op == "and" else (cond,):
        if g.op != "eq0":
            continue
        rest = []
        hit = None
        for m, c in T.to_poly(g.args[0]).items():
            if len(m) == 1 and m[0][0] is lv and m[0][1] == 1:
                hit = c
            else:
                rest.append((m, c))
        if hit is None or any(T.contains(T.from_poly({m: c}), lambda x:
                                         x is lv) for m, c in rest):
            continue
        e = T.from_poly(dict((m, -c / hit) for m, c in rest))
        if intvalued(e) and not T.contains(e, lambda x: x.op == "mu"):
            return e
    return None


def intvalued(t):
    """Certainly an int object (positions, int() results, their sums)."""
    t = val(t)
    if t.op in ("lv", "len"):
        return True
    if t.op == "call":
        return t.args[0] in ("int", "len") and not T.array_like(t)
    if t.op == "poly":
        for m, c in t.args[0]:
            if c != int(c):
                return False
            for a, e in m:
                if e != int(e) or e < 0 or not intvalued(a):
                    return False
        return any(m for m, c in t.args[0])
    return False


TEXTMETHODS = ("rstrip", "strip", "lstrip", "replace", "lower", "upper",
               "title", "capitalize", "join", "format", "zfill", "ljust",
               "rjust", "center", "swapcase", "expandtabs")


# names that hold texts throughout the repository
TEXTNAMES = ("path", "file", "filename", "dest", "directory", "fname",
             "file_path", "_name", "_dimension", "_location", "dimension",
             "_background_name", "_pre_made_base_dir")


REBOUND = {}


def rebound(node):
    """Parameters that a function binds anew (x = ..., x += ..., loops)."""
    r = REBOUND.get(id(node))
    if r is None:
        r = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                r.add(x.id)
        REBOUND[id(node)] = (r, node)
        return r
    return r[0]


def pathlike(x):
    """A variable, or attributes and constant items of one."""
    if isinstance(x, ast.Name):
        return True
    if isinstance(x, ast.Attribute):
        return pathlike(x.value)
    return False


def textual(t, depth=6):
    """The expression denotes a text whatever its inputs."""
    t = val(t)
    if depth == 0:
        return False
    if t.op in ("str", "concat", "strmap"):
        return True
    if t.op in ("sym", "attr", "attrv"):
        return t.args[0 if t.op == "sym" else 1] in TEXTNAMES
    if t.op == "call":
        return t.args[0] in ("str", "join", "fmt", "repr", "unicode",
                             "os.path.basename", "os.path.dirname",
                             "os.path.join", "os.path.abspath") or \
            t.args[0].startswith("str.") and t.args[0][4:] in TEXTMETHODS
    if t.op == "mcall":
        return t.args[1] in TEXTMETHODS and t.args[1] != "replace" or \
            t.args[1] == "replace" and textual(t.args[0], depth - 1)
    if t.op == "idx":
        b = val(t.args[0])
        if val(t.args[1]).op == "slice":
            return textual(b, depth - 1)
        while b.op == "idx" and val(b.args[1]).op == "slice":
            b = val(b.args[0])
        if b.op in ("mcall", "call"):
            n = b.args[1] if b.op == "mcall" else b.args[0]
            if isinstance(n, str) and n.split(".")[-1] in (
                    "split", "rsplit", "splitlines", "partition",
                    "rpartition", "splitext", "get_pre_convolved"):
                return True
        return textual(b, depth - 1)
    if t.op == "ite":
        a, b = val(t.args[1]), val(t.args[2])
        return textual(a, depth - 1) and (textual(b, depth - 1) or b is NONE) \
            or a is NONE and textual(b, depth - 1)
    if t.op == "fold":
        return textual(t.args[1], depth - 1)
    if t.op == "recur":
        j = t.args[6]
        return j < len(t.args[1]) and textual(t.args[1][j], depth - 1)
    return False


def text_start(t):
    """First character of a text, when it is a literal one."""
    t = val(t)
    if t.op == "str":
        return t.args[0][:1]
    if t.op == "concat":
        return text_start(t.args[0][0])
    if t.op in ("chop", "frag"):
        return text_start(t.args[0])
    if t.op == "idx" and val(t.args[1]).op == "slice" and \
            val(val(t.args[1]).args[0]) in (NONE, T.num(0)):
        return text_start(t.args[0])
    if t.op == "fold":
        return text_start(t.args[1])
    return ""


def c_is_set(v):
    return v.op == "set" or v.op == "call" and v.args[0] in ("setadd", "set")


def data_like(x):
    return x.op in ("attr", "attrv", "copy", "store", "stores") or \
        x.op == "call" and x.args[0] in ("numpy.zeros", "sumax", "reshape")


def array_len(t):
    t = val(t)
    if t.op == "poly":
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == "ind":
                    for s in T.walk(a):
                        if s in T.ARRAY_SYMS or s.op in ("map", "arrmap"):
                            return T.length(s)
                elif T.array_like(a):
                    return array_len(a)
    if t.op == "ite":
        for x in t.args[1:]:
            if T.array_like(x):
                return array_len(x)
        for s in T.walk(t.args[0]):
            if s in T.ARRAY_SYMS:
                return T.length(s)
    if t.op == "call" and t.args[0] in ("log", "exp", "abs"):
        return array_len(t.args[1][0])
    return T.length(t)


def listed(t):
    """Certainly a list or tuple whose + joins."""
    t = val(t)
    if t.op == "ite":
        return listed(t.args[1]) and listed(t.args[2])
    return t.op == "call" and (t.args[0] in ("keys", "tuple", "list",
                                             "sorted") or
                               t.args[0].split(".")[-1] == "get_shape") or \
        t.op == "attr" and t.args[1] == "shape" or t.op in ("tuple",
                                                            "concatl")


def concatl(parts):
    out = []
    for p in parts:
        p = val(p)
        if p.op == "concatl":
            sub = list(p.args[0])
        else:
            sub = [p]
        for x in sub:
            if x.op in ("list", "tuple") and not x.args[0]:
                continue
            if x.op in ("list", "tuple") and out and out[-1].op == "list":
                out[-1] = raw("list", out[-1].args[0] + x.args[0])
            else:
                out.append(raw("list", x.args[0]) if x.op == "tuple" else x)
    if not out:
        return raw("list", ())
    if len(out) == 1 and out[0].op in ("list", "map", "fmap"):
        return out[0]
    return raw("concatl", tuple(out))


def mkmap(dom, lv, cond, piece):
    """Concatenation over lv of list term piece (under cond)."""
    piece = val(piece)
    if piece.op == "list" and len(piece.args[0]) == 1:
        body = piece.args[0][0]
        body = val(body) if body.op != "copy" else body
        if cond is TRUE:
            bv, b = T.bind(lv, body)
            return raw("map", dom, b, bv.args[0])
        bv, c, b = T.bind(lv, cond, body)
        return raw("fmap", dom, c, b, bv.args[0])
    if piece.op == "condl":
        return mkmap(dom, lv, T.land(cond, piece.args[0]), piece.args[1])
    bv, c, b = T.bind(lv, cond, piece)
    return raw("flatmap", dom, c, b, bv.args[0])


def match(pat, obj, lv):
    """Find i with pat[lv:=i] == obj."""
    found = []

    def rec(p, o):
        if p is lv:
            found.append(o)
            return True
        if isinstance(p, tuple):
            return isinstance(o, tuple) and len(p) == len(o) and \
                all(rec(x, y) for x, y in zip(p, o))
        if not isinstance(p, T.Term):
            return p == o
        if p is o:
            return True
        if not isinstance(o, T.Term) or p.op != o.op or \
                len(p.args) != len(o.args):
            return False
        return all(rec(x, y) for x, y in zip(p.args, o.args))
    if rec(pat, obj) and found and all(f is found[0] for f in found):
        return found[0]
    return None


def position(pat, obj, lv):
    """Index of the element obj = D[k] in a sweep over D[key(D, lv)]."""
    if pat.op != "idx" or obj.op != "idx":
        return None
    d, k = pat.args[0], pat.args[1]
    if val(d) is not val(obj.args[0]) or k.op != "key" or \
            k.args[1] is not lv or val(k.args[0]) is not val(d):
        return None
    bv = raw("lv", T.next_id())
    v, c = T.bind(bv, T.eq(raw("key", val(d), bv), obj.args[1]))
    return raw("first", T.length(val(d)), c, v)


def may_match(pat, obj):
    if pat.op == obj.op == "idx":
        return val(pat.args[0]) is val(obj.args[0])
    return False
