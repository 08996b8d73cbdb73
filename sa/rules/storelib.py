"""What a writer leaves in a file and what a reader makes of it.

The effects of the writer (attribute and dataset stores, group creations, with
the facts that guard them) are laid out as the content of a hierarchical file;
the value graph of the reader is then interpreted over that content, so every
item is followed from the place it is written to the place it is read from.
"""
import numpy as np

from .. import interp
from .. import spec
from .. import terms as T
from ..interp import Ext, Obj, Stuck, Unknown

WRITES = ("create_group", "require_group", "create_dataset",
          "require_dataset", "create", "modify", "update")


class Refused(Exception):
    """The file format cannot hold what is written."""


class Text(Ext):
    """json text: what it encodes, and whether the order was kept."""
    name = "json"

    def __init__(self, value):
        self.value = value

    def length(self, env):
        return 2.

    def key(self):
        return "json"

    def contains(self, env, x):
        raise Unknown("in json text")


class Data(Ext):
    name = "dataset"

    def __init__(self, value):
        self.value = value

    def attr(self, env, name):
        if name == "value":
            return self.value
        if name in ("shape", "ndim", "size"):
            v = env.nd(self.value)
            return tuple(float(x) for x in v.shape) if name == "shape" else \
                float(getattr(v, name))
        raise Unknown("dataset." + name)

    def item(self, env, i):
        if i == () or isinstance(i, Obj) and i.key in (
                "fn:Ellipsis", "slice(None,None,None)") or \
                isinstance(i, interp._Slice) and i.s == slice(None):
            return self.value
        raise Unknown("part of a dataset")

    def length(self, env):
        return env.length(self.value)


class Attrs(Ext):
    name = "attrs"

    def __init__(self, path):
        self.path, self.d = path, {}

    def key(self):
        return "attrs " + self.path

    def write(self, env, k, v):
        if v is None:
            raise Refused("%s of %s is None" % (k, self.path))
        self.d[env.key(k)] = (k, v)

    def item(self, env, i):
        k = env.key(i)
        if k not in self.d:
            raise Stuck("missing key")
        return self.d[k][1]

    def contains(self, env, x):
        return env.key(x) in self.d

    def length(self, env):
        return float(len(self.d))

    def call(self, env, name, args, kws):
        if name == "get":
            try:
                return self.item(env, args[0])
            except Stuck:
                return args[1] if len(args) > 1 else None
        if name in ("create", "modify") and len(args) >= 2:
            self.write(env, args[0], args[1])
            return None
        if name == "update" and isinstance(args[0], dict):
            for k, v in args[0].values():
                self.write(env, k, v)
            return None
        raise Unknown("attrs." + name)


class Node(Ext):
    name = "group"

    def __init__(self, path):
        self.path = path
        self.sub, self.attrs = {}, Attrs(path)

    def key(self):
        return "group " + self.path

    def text(self, env, i):
        i = env.concrete(i)
        if not isinstance(i, str):
            i = env.key(i)
        if i.startswith("str(") and i.endswith(")"):
            i = i[4:-1]
        return i.strip("/")

    def item(self, env, i):
        n = self
        for part in self.text(env, i).split("/"):
            if not isinstance(n, Node) or part not in n.sub:
                raise Stuck("missing key")
            n = n.sub[part]
        return n

    def contains(self, env, x):
        try:
            self.item(env, x)
            return True
        except Stuck:
            return False

    def attr(self, env, name):
        if name == "attrs":
            return self.attrs
        raise Unknown("group." + name)

    def put(self, env, i, v):
        i = self.text(env, i)
        n = self
        for part in i.split("/")[:-1]:
            n = n.sub.setdefault(part, Node(n.path + "/" + part))
        k = i.split("/")[-1]
        if k in n.sub:
            raise Refused("%s exists already in %s" % (k, n.path))
        n.sub[k] = v
        return v

    def delete(self, env, i):
        self.sub.pop(self.text(env, i), None)
        return self

    def call(self, env, name, args, kws):
        if name in ("create_group", "require_group"):
            if name[0] == "r" and self.contains(env, args[0]):
                return self.item(env, args[0])
            return self.put(env, args[0], Node(
                self.path + "/" + self.text(env, args[0])))
        if name in ("create_dataset", "require_dataset"):
            v = kws.get("data", args[3] if len(args) > 3 else None)
            if v is None:
                raise Unknown("dataset without data")
            return self.put(env, args[0], Data(v))
        if name == "get":
            return self.item(env, args[0]) if self.contains(env, args[0]) \
                else (args[1] if len(args) > 1 else None)
        if name in ("close", "flush"):
            return None
        raise Unknown("group." + name)


class Files(object):
    """The files of one interpretation."""

    def __init__(self):
        self.d = {}

    def open(self, env, vals, kws):
        path = env.key(vals[0])
        mode = vals[1] if len(vals) > 1 else kws.get("mode", "a")
        mode = env.text(mode) if isinstance(mode, Obj) else mode
        if mode in ("w", "w-", "x"):
            self.d[path] = Node("")
        elif mode not in ("a", "r", "r+"):
            raise Unknown("mode %s" % mode)
        return self.d.setdefault(path, Node(""))

    @staticmethod
    def dumps(env, vals, kws):
        return Text(vals[0])

    @staticmethod
    def loads(env, vals, kws):
        if not isinstance(vals[0], Text):
            raise Stuck("not json text")
        v = vals[0].value
        hook = kws.get("object_pairs_hook")
        if hook is not None and env.key(hook).endswith("OrderedDict"):
            return v
        return unordered(env, v)

    def models(self):
        return {"model:h5py.File": self.open, "model:json.dumps": self.dumps,
                "model:json.loads": self.loads}


def unordered(env, v):
    """A value whose mappings lost their order."""
    if isinstance(v, tuple):
        return tuple(unordered(env, x) for x in v)
    if isinstance(v, Obj):
        return Obj("unordered(%s)" % v.key)
    return v


def txt(x):
    return x.args[0] if isinstance(x, T.Term) and x.op == "str" else str(x)


def write(env, events):
    """Perform the file effects of a writer; True if it raised instead."""
    if spec.raised(env, [e for e in events if e.kind == "raise"])[0]:
        return True
    for e in events:
        def cb(e=e):
            err = None
            for g in e.guards:
                try:
                    if not env.bool(g):
                        return None
                except (Unknown, Stuck) as x:
                    err = err or x
            if e.kind == "ext":
                if txt(e.data[1]) != "h5py.File":
                    return None
            elif e.kind == "mcall":
                if txt(e.data[2]) not in WRITES:
                    return None
            if err:
                raise err
            if e.kind == "setitem":
                b = env.concrete(env.ev(e.data[0]))
                if isinstance(b, Attrs):
                    b.write(env, env.ev(e.data[1]), env.ev(e.data[2]))
                elif isinstance(b, Node):
                    b.put(env, env.ev(e.data[1]), Data(env.ev(e.data[2])))
            elif e.kind == "delitem":
                b = env.concrete(env.ev(e.data[0]))
                if isinstance(b, Ext):
                    b.delete(env, env.ev(e.data[1]))
            else:
                env.ev(e.data[0])
            return None
        if e.kind in ("setitem", "delitem", "ext", "mcall"):
            spec._iter_loops(env, list(e.loops), 0, cb)
    return False


def happening(env, events, want):
    """First event satisfying want that takes place."""
    for e in events:
        if want(e) and spec.occurrences(env, e):
            return e
    return None


class RoundTrip(object):
    """Write with one function, read with the other, item by item."""

    def __init__(self, ctx, dump, load, items, hints, old=(), stale=None,
                 after=None, refuse=None):
        """items: list of (label, original term, loaded term)."""
        self.ctx, self.dump, self.load = ctx, dump, load
        self.items, self.hints, self.old = items, hints, old
        self.stale, self.after, self.refuse = stale, after, refuse

    def go(self, key, n=None):
        ctx = self.ctx
        n = n or ctx.n
        good = dict((l, 0) for l, _, _ in self.items)
        bad, unk, none = {}, {}, {}
        reads = ("reads what was written",)
        good[reads[0]] = 0
        where = self.load.func.where
        seen = 0
        for s in range(n * 6):
            if seen >= n:
                break
            files = Files()
            hints = dict(self.hints)
            hints.update(files.models())
            env = interp.Env(s, hints)
            try:
                if self.stale:
                    self.stale(env, files)
                want = {}
                try:
                    if write(env, self.dump.events):
                        continue
                except Refused as x:
                    if self.refuse and self.refuse(env, files):
                        continue
                    bad.setdefault(reads[0], "sample %d: the writer fails: %s"
                                   % (s, x))
                    continue
                env.memo.clear()
                if self.after:
                    msg = self.after(env, files)
                    if msg:
                        bad.setdefault(reads[0], "sample %d: %s" % (s, msg))
                for l, a, _ in self.items:
                    want[l] = a(env) if callable(a) else env.ev(a)
            except (Stuck, Unknown) as x:
                none[str(x)[:70]] = none.get(str(x)[:70], 0) + 1
                continue
            seen += 1
            env.memo.clear()
            env.steps = 0
            try:
                e = happening(env, self.load.events, lambda e: e.kind ==
                              "raise" and spec.escapes(e) or e.kind ==
                              "call" and txt(e.data[1]).split(".")[-1] in
                              self.old)
                if e is not None:
                    bad.setdefault(reads[0], "sample %d: %s" % (s, e.where))
                    continue
                good[reads[0]] += 1
            except (Stuck, Unknown) as x:
                if str(x) == "missing key":
                    bad.setdefault(reads[0], "sample %d: the reader needs "
                                   "something the writer did not store" % s)
                else:
                    unk[reads[0]] = str(x)
                continue
            for l, _, b in self.items:
                if isinstance(want[l], Skip):
                    continue
                try:
                    v = b(env) if callable(b) else env.ev(b)
                    if env.same(v, want[l]):
                        good[l] += 1
                    else:
                        bad.setdefault(l, "sample %d: written %s, read back "
                                       "%s" % (s, env.show(want[l]),
                                               env.show(v)))
                except (Stuck, Unknown) as x:
                    if str(x) == "missing key":
                        bad.setdefault(l, "sample %d: not stored where the "
                                       "reader looks" % s)
                    else:
                        unk[l] = str(x)
        import os
        if os.environ.get("VERIF_DEBUG") and none:
            print("  outside domain", key, none)
        for l in [reads[0]] + [x[0] for x in self.items]:
            k = "%s:%s" % (key, l)
            if l in bad:
                ctx.violate(k, bad[l], where)
            elif l in unk or good[l] < max(4, n // 8):
                ctx.undecided(k, unk.get(l, "no sample in domain"), where)
            else:
                ctx.hold(k, "%d interpretations of the file agree" % good[l],
                         where)


class Skip(object):
    pass


SKIP = Skip()


def built(env, events, holder, fields):
    """{position: {field: value}} of the objects a loop of the reader makes
    and stores into the field `holder` of its result."""
    made, out = {}, {}

    def per(e, f):
        def cb():
            err = None
            for g in e.guards:
                try:
                    if not env.bool(g):
                        return None
                except (Unknown, Stuck) as x:
                    err = err or x
            if err:
                raise err
            f(e)
            return None
        spec._iter_loops(env, list(e.loops), 0, cb)

    def field(e):
        o = env.ev(T.ptr(e.data[0]))
        made.setdefault(env.key(o), {})[str(e.data[1])] = env.ev(e.data[2])

    def store(e):
        v = e.data[2]
        while v.op in ("copy", "mut"):
            v = v.args[2] if v.op == "copy" else v.args[0]
        i = env.key(env.ev(e.data[1]))
        out[i] = dict(made.get(env.key(env.ev(v)), {}))
    for e in events:
        if e.kind == "setattr" and str(e.data[1]) in fields and \
                any(l[0] == "loop" for l in e.loops):
            per(e, field)
        elif e.kind == "setitem" and holder(e.data[0]):
            per(e, store)
    return out
