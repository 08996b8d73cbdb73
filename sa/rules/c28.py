"""YAML reading keeps the order of the file; writing keeps the order given.

The module's own text (module body and function together) is analysed; the
class handed to PyYAML and the functions registered on it are found in the
value graph, and the registered functions are interpreted against a model of
PyYAML's loader, dumper and nodes.
"""
import ast
import textwrap

from .. import interp
from .. import terms as T
from ..interp import Ext, ODict, Stuck, Unknown

MINIMUM = 9
MODULE = "echidna.util.yaml_loader"
MAPTAG = ("tag:yaml.org,2002:map",
          "yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG",
          "yaml.BaseResolver.DEFAULT_MAPPING_TAG",
          "yaml.resolver.Resolver.DEFAULT_MAPPING_TAG")
NODES = ("yaml.MappingNode", "yaml.nodes.MappingNode")


class Deferred(ast.NodeTransformer):
    """A constructor that yields its object once and fills it afterwards is
    one that returns the filled object."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        ys = [s for s in n.body if isinstance(s, ast.Expr) and
              isinstance(s.value, ast.Yield)]
        if len(ys) == 1 and ys[0].value.value is not None:
            body = [s for s in n.body if s is not ys[0]]
            n.body = body + [ast.Return(value=ys[0].value.value)]
        return n


def whole(ctx, call):
    """The module's text with a call of one of its functions at its end."""
    m = ctx.p.modules[MODULE]
    tree = Deferred().visit(ast.parse(ast.unparse(m.tree)))
    imports = [x for x in tree.body if isinstance(
        x, (ast.Import, ast.ImportFrom))]
    tree.body = [x for x in tree.body if x not in imports]
    src = ast.unparse(ast.fix_missing_locations(tree))
    f = ctx.snippet("\n".join(ast.unparse(x) for x in imports) +
                    "\ndef whole(data, stream, indent):\n" +
                    textwrap.indent(src, "    ") + "\n    return " + call)
    return ctx.run(list(f.values())[-1])


def name(t):
    return t.args[0] if t.op in ("str", "fn") else str(t)


def ancestry(ctx, t, seen=0):
    """Names of the classes a class term inherits from, itself included."""
    t = T.val(t)
    if t.op == "call" and t.args[0] == "localclass":
        out = [t]
        for b in t.args[1][2:]:
            out += ancestry(ctx, b)
        return out
    return [t]


def registered(ctx, res, cls, method, what):
    """Functions registered for `what` on the class or one above it."""
    up = ancestry(ctx, cls)
    out = []
    for e in res.events:
        if e.kind not in ("mcall", "ext"):
            continue
        if e.kind == "mcall":
            n, recv, args = name(e.data[2]), T.val(e.data[1]), e.data[3:]
            if n.split(".")[-1] != method or recv not in up:
                continue
        else:
            n = name(e.data[1])
            if n.split(".")[-1] != method:
                continue
            args = e.data[2:]
            recv = None
            if n == "yaml." + method:
                kw = dict(e.data[0].args[2]) if len(e.data[0].args) > 2 \
                    else {}
                recv = T.val(kw.get("Loader", kw.get("Dumper", args[-1])))
            elif n.rsplit(".", 1)[0] in [name(u) for u in up]:
                recv = up[0]
            if recv is None or recv not in up and recv is not up[0]:
                continue
        if len(args) >= 2 and name(T.val(args[0])) in what:
            out.append((e, args[1]))
    return out


class Node(Ext):
    name = "node"

    def __init__(self, pairs):
        self.pairs = pairs

    def attr(self, env, n):
        if n == "value":
            return tuple((Scalar(k), Scalar(v)) for k, v in self.pairs)
        raise Unknown("node." + n)


class Scalar(Ext):
    name = "scalar"

    def __init__(self, v):
        self.v = v

    def key(self):
        return "scalar %r" % (self.v,)

    def attr(self, env, n):
        if n == "value":
            return self.v
        raise Unknown("node." + n)


class Loader(Ext):
    name = "loader"

    def key(self):
        return "loader"

    def call(self, env, n, args, kws):
        a = env.concrete(args[0]) if args else None
        if n == "flatten_mapping":
            return None
        if n == "construct_pairs" and isinstance(a, Node):
            return tuple((k, v) for k, v in a.pairs)
        if n == "construct_object" and isinstance(a, Scalar):
            return a.v
        if n in ("construct_mapping", "construct_yaml_map") and \
                isinstance(a, Node):
            return dict((env.key(k), (k, v)) for k, v in a.pairs)
        raise Unknown("loader." + n)


class Mapping(Ext):
    name = "mapping node"

    def __init__(self, tag, v):
        self.tag, self.v = tag, v


class Dumper(Ext):
    name = "dumper"

    def key(self):
        return "dumper"

    def call(self, env, n, args, kws):
        if n == "represent_mapping":
            return Mapping(args[0], args[1])
        if n == "represent_dict":
            return Mapping(MAPTAG[0], args[0])
        raise Unknown("dumper." + n)


def pairs(env):
    n = 2 + int(4 * env.rnd("n"))
    keys = ["energy", "radius", "a", "_x", "Z", "1"]
    if env.rnd("numbers") < .25:
        keys = [interp.Int(k) for k in (10, 2, 0, 3, 1, 7)]
    keys.sort(key=lambda k: env.rnd("order", k))
    return [(k, interp.Obj("value of %s" % k)) for k in keys[:n]]


def apply(res, fn, args):
    mark = len(res.ana.events)
    r = res.ana.apply(T.val(fn), [T.sym(a) for a in args], {}, None,
                      res.state, ast.parse("0").body[0])
    return r, res.ana.events[mark:]


def judge(ctx, key, n, where, one):
    """one(env) -> message or None, over interpretations."""
    good, bad, unk = 0, None, None
    for s in range(n):
        env = interp.Env(s, {})
        try:
            m = one(env)
            if m:
                bad = bad or "sample %d: %s" % (s, m)
            else:
                good += 1
        except (Stuck, Unknown) as x:
            unk = str(x)
    if bad:
        ctx.violate(key, bad, where)
    elif unk or not good:
        ctx.undecided(key, unk or "no interpretation", where)
    else:
        ctx.hold(key, "%d interpretations agree" % good, where)


def check(ctx):
    with ctx.guard("load"):
        load(ctx)
    with ctx.guard("dump"):
        dump(ctx)


def yaml_call(res, names):
    """The PyYAML call a function makes: (event, positional, keywords)."""
    out = []
    for e in res.events:
        if e.kind == "ext" and name(e.data[1]) in names:
            t = e.data[0]
            out.append((e, [T.val(a) for a in t.args[1]],
                        dict((k, T.val(v)) for k, v in t.args[2])))
    return out


def load(ctx):
    f = ctx.p.lookup_dotted(MODULE + ".ordered_load")
    where = f.where
    res = whole(ctx, "ordered_load(data)")
    calls = yaml_call(res, ("yaml.load", "yaml.safe_load", "yaml.full_load",
                            "yaml.unsafe_load", "yaml.load_all"))
    if len(calls) != 1:
        ctx.undecided("load:reader", "%d PyYAML calls" % len(calls), where)
        return
    e, pos, kw = calls[0]
    cls = kw.get("Loader", pos[1] if len(pos) > 1 else None)
    ctx.verdict("load:stream", bool(pos) and pos[0] is T.sym("data") and
                not e.guards, "the given stream is parsed" if pos and pos[0]
                is T.sym("data") else "what is parsed is not the stream",
                where)
    ctx.verdict("load:result", T.val(res.ret) is T.val(e.data[0]),
                "what PyYAML builds is returned" if T.val(res.ret) is
                T.val(e.data[0]) else "returns %s" % res.ret, where)
    if cls is None or name(e.data[1]) != "yaml.load":
        ctx.violate("load:order", "%s builds plain mappings" %
                    name(e.data[1]), where)
        return
    up = [name(t) for t in ancestry(ctx, cls)]
    regs = [(r, fn) for r, fn in registered(ctx, res, cls, "add_constructor",
                                            MAPTAG) if r.seq < e.seq]
    unknown = [t for t in ancestry(ctx, cls) if t.op not in ("fn",) and
               not (t.op == "call" and t.args[0] == "localclass")]
    if not regs or any(r.guards for r, _ in regs):
        if unknown and any(t.op == "unk" for t in unknown):
            ctx.undecided("load:order", "loader class not resolved", where)
        else:
            ctx.violate("load:order", "no constructor for mappings is "
                        "registered with %s before the file is read" %
                        up[0], where)
        return
    ctx.hold("load:constructor", "mappings are built by the constructor "
             "registered with the loader in use", where)
    fn = regs[-1][1]
    ret, events = apply(res, fn, ("loader", "node"))

    def order(env):
        want = pairs(env)
        env.hints.update({"loader": lambda e, o: Loader(),
                          "node": lambda e, o: Node(want)})
        v = env.concrete(env.ev(ret))
        if not isinstance(v, (dict, tuple)):
            raise Unknown("constructor result")
        if not isinstance(v, ODict):
            return "mappings are built as %s, without an order" % \
                type(v).__name__
        got = [(k, x) for k, x in v.values()]
        if [k for k, _ in got] != [k for k, _ in want]:
            return "keys %s of the file come out as %s" % (
                [k for k, _ in want], [k for k, _ in got])
        for (k, a), (_, b) in zip(got, want):
            if not env.same(a, b):
                return "entry %s holds %s" % (k, env.show(a))
        return None
    judge(ctx, "load:order", ctx.n, where, order)
    flat = [x for x in events if x.kind == "mcall" and
            name(x.data[2]) == "flatten_mapping"]
    reads = [x for x in events if x.kind == "mcall" and name(x.data[2]) in (
        "construct_pairs", "construct_object")]
    ctx.verdict("load:merged keys", bool(flat) and not flat[0].guards and (
        not reads or flat[0].seq < reads[0].seq), "merge keys are resolved "
        "before the entries are built" if flat else
        "merge keys are left in the mapping", where)


def dump(ctx):
    f = ctx.p.lookup_dotted(MODULE + ".ordered_dump")
    where = f.where
    res = whole(ctx, "ordered_dump(data, stream, indent=indent)")
    calls = yaml_call(res, ("yaml.dump", "yaml.safe_dump", "yaml.dump_all"))
    if len(calls) != 1:
        ctx.undecided("dump:writer", "%d PyYAML calls" % len(calls), where)
        return
    e, pos, kw = calls[0]
    cls = kw.get("Dumper", pos[2] if len(pos) > 2 else None)
    stream = kw.get("stream", pos[1] if len(pos) > 1 else None)
    given = e.data[2] if len(e.data) > 2 else T.NONE
    plain = given.op == "copy" and given.args[0] == "plain"
    ctx.verdict("dump:data", bool(pos) and pos[0] is T.sym("data") and
                not e.guards and not plain, "the given mapping is written"
                if pos and pos[0] is T.sym("data") else
                "what is written is not the given mapping", where)
    ctx.verdict("dump:stream", stream is T.sym("stream"),
                "it is written to the given stream", where)
    ctx.verdict("dump:options", kw.get("indent") is T.sym("indent"),
                "formatting options are passed on", where)
    if cls is None or name(e.data[1]) != "yaml.dump":
        ctx.violate("dump:order", "%s refuses ordered mappings" %
                    name(e.data[1]), where)
        return
    regs = [(r, fn) for m in ("add_representer", "add_multi_representer")
            for r, fn in registered(ctx, res, cls, m,
                                    ("collections.OrderedDict", "dict")
                                    if "multi" in m else
                                    ("collections.OrderedDict",))
            if r.seq < e.seq and not r.guards]
    if not regs:
        if any(t.op == "unk" for t in ancestry(ctx, cls)):
            ctx.undecided("dump:order", "dumper class not resolved", where)
        else:
            ctx.violate("dump:order", "no representer for ordered mappings "
                        "is registered with the dumper in use", where)
        return
    ctx.hold("dump:representer", "ordered mappings are written by the "
             "representer registered with the dumper in use", where)
    ret, events = apply(res, regs[-1][1], ("dumper", "mapping"))
    keeps = kw.get("sort_keys") is T.FALSE

    def order(env):
        want = pairs(env)
        d = ODict((env.key(k), (k, v)) for k, v in want)
        env.hints.update({"dumper": lambda e, o: Dumper(),
                          "mapping": lambda e, o: d})
        v = env.concrete(env.ev(ret))
        if not isinstance(v, Mapping):
            raise Unknown("representer result")
        tag = env.concrete(v.tag)
        if not str(getattr(tag, "key", tag)).endswith(MAPTAG):
            return "mappings are written with the tag %s" % env.show(v.tag)
        x = env.concrete(v.v)
        if isinstance(x, dict):
            if not isinstance(x, ODict):
                return "the entries are written in no particular order"
            if not keeps:
                return "PyYAML sorts the entries of a mapping it is given"
            x = tuple(x.values())
        if not isinstance(x, tuple):
            raise Unknown("entries")
        if len(x) != len(want) or any(
                a[0] != b[0] or not env.same(a[1], b[1])
                for a, b in zip(x, want)):
            return "the entries %s are written as %s" % (
                [k for k, _ in want], [env.show(p) for p in x])
        return None
    judge(ctx, "dump:order", ctx.n, where, order)
