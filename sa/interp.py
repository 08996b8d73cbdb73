"""Random interpretation of value graphs.

Two value graphs that are not identical after normalisation are compared as
functions of their uninterpreted leaves: every leaf (a parameter, a field, an
array element, the result of a callee that is not modelled) is an
uninterpreted function of its own operands and gets a pseudo-random value from
a hash of them, in the manner of polynomial-identity-testing value numbering
(Gulwani and Necula).  Nothing of the analysed program is executed: only the
normal forms extracted from its source are compared.  A graph that contains
something the extraction did not understand yields no verdict.
"""
import dis
import hashlib
import functools
import itertools
import math
import posixpath
from fractions import Fraction

import numpy as np

from . import terms as T


class Unknown(Exception):
    """This sample cannot be evaluated (unmodelled construct)."""


class Stuck(Exception):
    """This sample is outside the domain (division by zero, None + 1...)."""


class NotScalar(Stuck):
    """The truth of a whole array."""


class Obj(object):
    """An uninterpreted value; number, text, truth value as the use demands."""
    __slots__ = ("key", "name")

    def __init__(self, key, name=None):
        self.key, self.name = key, name

    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "<%s>" % self.key


class Ext(object):
    """An object whose behaviour a rule supplies (a file, a stream)."""
    name = "ext"

    def item(self, env, i):
        raise Unknown("item of " + self.name)

    def attr(self, env, name):
        raise Unknown("attribute of " + self.name)

    def call(self, env, name, args, kws):
        raise Unknown("method of " + self.name)

    def contains(self, env, x):
        raise Unknown("in " + self.name)

    def length(self, env):
        raise Unknown("len of " + self.name)

    def delete(self, env, i):
        return self

    def key(self):
        return "%s@%d" % (self.name, id(self))


class Int(float):
    """A value known to be an integer object."""


class Flt(float):
    """A value known to be a float object."""


class ODict(dict):
    """A mapping that keeps the order its entries were made in."""


def typename(v):
    if isinstance(v, Int):
        return "int"
    if isinstance(v, Flt):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bool):
        return "bool"
    if v is None:
        return "NoneType"
    if isinstance(v, dict):
        return "dict"
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Lst):
        return "list"
    if isinstance(v, np.ndarray):
        return "numpy.ndarray"
    if isinstance(v, float):
        return "number"
    return None


class Tup(tuple):
    """A sequence known to be a tuple."""


class Lst(tuple):
    """A sequence known to be a list."""


ISA = {"tuple": ("tuple",), "list": ("list",),
       "int": ("int", "numpy.integer", "numbers.Integral", "numbers.Number",
               "long", "numbers.Real"),
       "float": ("float", "numbers.Number", "numpy.floating", "numbers.Real"),
       "str": ("str", "basestring"), "bool": ("bool", "int"),
       "dict": ("dict", "collections.Mapping"), "NoneType": (),
       "numpy.ndarray": ("numpy.ndarray",), "number": ()}
# what a plain number certainly is not
NOTNUM = ("str", "basestring", "dict", "list", "tuple", "numpy.ndarray")
NOTA = ("int", "float", "str", "basestring", "dict", "list", "tuple",
        "bool", "long", "numpy.ndarray", "numpy.integer", "numbers.Number",
        "numbers.Integral", "numpy.floating", "numpy.int64", "numpy.int32",
        "numbers.Real", "numpy.float64")


class Arr(object):
    """An array given by a function of the index."""

    def __init__(self, f, n, key):
        self.f, self.n, self.key = f, n, key


def h(*xs):
    return hashlib.md5("\x00".join(str(x) for x in xs).encode(
        "utf-8", "replace")).hexdigest()


POOL = (0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 0.25, 4.0, 1.25, 0.75, 2.75, 6.5)

KNOWN_CALLS = set("""log exp abs floor ceil int round0 sumall len keys sorted
fmt str repr float list tuple dict numpy.sqrt numpy.zeros numpy.ones isinstance
sumax reshape numpy.allclose
numpy.isclose""".split())


class Env(object):
    """One random interpretation."""

    def __init__(self, seed, hints=None, vocab=None, strings=(), strict=True,
                 maxn=4, special=()):
        self.seed = seed
        self.hints = hints or {}
        self.vocab = vocab
        self.strings = tuple(strings)
        self.cover = None       # conditions decided, and how
        self.finite = True      # arithmetic stays within the numbers
        self.memo = {}
        self.bv = {}
        self.steps = 0
        self.maxn = maxn
        self.overrides = {}
        self.world = None
        self.mkworld = self.hints.get("(world)")
        self.pool = None
        if special and seed % 3 == 2:
            # few distinct values, taken around the constants compared with,
            # so that coincidences and exact thresholds occur
            k = 1 + int(self.rnd("npool") * 3)
            self.pool = [special[int(self.rnd("pool", i) * len(special))]
                         for i in range(k)]

    # ------------------------------------------------------- scalars
    def rnd(self, *key):
        return int(h(self.seed, *key)[:12], 16) / float(16 ** 12)

    def hint(self, o):
        hn = self.hints
        n = o.name
        if n is not None and n in hn:
            return hn[n]
        return None

    def number(self, o):
        if isinstance(o, bool):
            return 1.0 if o else 0.0
        if isinstance(o, (int, float, Fraction)):
            return float(o)
        if isinstance(o, Obj):
            hn = self.hint(o)
            if callable(hn):
                v = hn(self, o)
                if v is None or isinstance(v, str):
                    raise Stuck("not a number")
                return float(v)
            if self.pool is not None and self.rnd("pool?", o.key) < 0.7:
                v = self.pool[int(self.rnd("pv", o.key) * len(self.pool))]
                if hn in ("real", None) or hn == "pos" and v > 0:
                    return v
                if hn in ("int", "nat") and v == int(v) and \
                        (hn == "int") <= v <= self.maxn:
                    return v
            if hn == "int":
                return float(int(self.rnd("n", o.key) * self.maxn) + 1)
            if hn == "nat":
                return float(int(self.rnd("n", o.key) * (self.maxn + 1)))
            if hn == "pos":
                return 0.05 + 4 * self.rnd("n", o.key)
            if hn == "real":
                return -4 + 8 * self.rnd("n", o.key)
            if hn == "none":
                raise Stuck("None used as number")
            r = self.rnd("k", o.key)
            if r < 0.45:
                return POOL[int(self.rnd("n", o.key) * len(POOL))]
            if r < 0.6:
                return -POOL[int(self.rnd("n", o.key) * len(POOL))]
            return round(0.05 + 7 * self.rnd("n", o.key), 4)
        if o is None:
            raise Stuck("None used as number")
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return float(o)
        raise Stuck("not a number: %r" % (type(o),))

    def arith(self, o):
        """A number or an array, for element-wise arithmetic."""
        o = self.concrete(o)
        if isinstance(o, (Arr, tuple)):
            o = self.nd(o)
        if isinstance(o, np.ndarray):
            return o
        return self.number(o)

    def nd(self, o):
        """Materialise a sequence value as an array."""
        o = self.concrete(o)
        if isinstance(o, np.ndarray):
            return o
        if isinstance(o, (Arr, tuple)):
            n = self.integer(self.length(o))
            if n > 200:
                raise Stuck("array too long")
            items = [self.item(o, float(i)) for i in range(n)]
            out = []
            for x in items:
                x = self.concrete(x)
                out.append(self.nd(x) if isinstance(
                    x, (Arr, tuple, np.ndarray)) else self.number(x))
            try:
                return np.array(out, dtype=float)
            except ValueError:
                raise Stuck("ragged")
        raise Stuck("not an array")

    def concrete(self, o):
        """The value of o, using hints that fix strings or None."""
        if isinstance(o, Obj):
            hn = self.hint(o)
            if callable(hn):
                v = hn(self, o)
                return v
            if hn == "none":
                return None
        return o

    def integer(self, o):
        v = self.number(o)
        if v != int(v):
            raise Stuck("not an integer")
        return int(v)

    def truth(self, o):
        o = self.concrete(o)
        if isinstance(o, bool):
            return o
        if o is None:
            return False
        if isinstance(o, (int, float, Fraction)):
            return o != 0
        if isinstance(o, (str, tuple, dict)):
            return bool(o)
        if isinstance(o, Obj):
            if self.hint(o) in ("int", "pos", "nat", "real"):
                return self.number(o) != 0
            if self.isnone(o):
                return False
            if self.hint(o) == "obj":
                return True
            return self.rnd("t", o.key) < 0.6
        if isinstance(o, Arr):
            raise Stuck("truth of array")
        if isinstance(o, Ext):
            return True
        if isinstance(o, np.ndarray) and o.size == 1:
            return bool(o.ravel()[0])
        if isinstance(o, np.ndarray) and o.size:
            raise NotScalar("truth of an array")
        raise Stuck("truth")

    def isnone(self, o):
        o = self.concrete(o)
        if o is None:
            return True
        if isinstance(o, Obj):
            if self.hint(o) in ("int", "nat", "pos", "real", "obj"):
                return False
            return self.rnd("z", o.key) < 0.3
        return False

    def key(self, v):
        v = self.concrete(v)
        if isinstance(v, Obj):
            return v.key
        if isinstance(v, Ext):
            return v.key()
        if isinstance(v, bool):
            return "b%s" % v
        if isinstance(v, (int, float, Fraction)):
            return "%.9g" % (float(v) + 0.0)
        if isinstance(v, tuple):
            return "(" + ",".join(self.key(x) for x in v) + ")"
        if isinstance(v, np.ndarray) and v.ndim == 1:
            return "(" + ",".join(self.key(float(x)) if v.dtype != object
                                  else repr(x) for x in v) + ")"
        if isinstance(v, np.ndarray):
            return "nd%s%s" % (v.shape, ",".join("%.8g" % (x + 0.0)
                                                 for x in v.ravel()))
        if isinstance(v, dict):
            return "{" + ",".join(sorted("%s:%s" % (k, self.key(x[1]))
                                         for k, x in v.items())) + "}"
        if isinstance(v, Arr):
            n = self.integer(v.n)
            if n > 8:
                raise Stuck("array too long")
            return "(" + ",".join(self.key(v.f(float(i)))
                                  for i in range(n)) + ")"
        return repr(v)

    def eq(self, a, b):
        a, b = self.concrete(a), self.concrete(b)
        if a is None or b is None:
            return self.isnone(a) and self.isnone(b)
        num = (int, float, Fraction)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(o, Obj):
                return self.text(o) == s
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.key == b.key:
                return True
            if "fn:number" in (a.key, b.key) and not {
                    a.key[3:], b.key[3:]} & set(NOTNUM):
                raise Unknown("type of a number")
            if a.key[:3] in ("fn:", "cls") or b.key[:3] in ("fn:", "cls"):
                return False        # classes, functions, modules
            if self.strings and self.rnd("ty", a.key) < 0.5:
                return self.text(a) == self.text(b)
            return close(self.number(a), self.number(b))
        if isinstance(a, num) or isinstance(b, num):
            try:
                return close(self.number(a), self.number(b))
            except Stuck:
                return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y)
                                            for x, y in zip(a, b))
        return self.key(a) == self.key(b)

    def textual(self, o):
        """May the uninterpreted value o be taken as one of the strings?"""
        hn = self.hint(o)
        return hn == "text"

    def text(self, o):
        o = self.concrete(o)
        if isinstance(o, str):
            return o
        if isinstance(o, Obj):
            if self.strings:
                r = int(self.rnd("s", o.key) * (len(self.strings) + 1))
                if r < len(self.strings):
                    return self.strings[r]
            return "<" + o.key + ">"
        if isinstance(o, (int, float, Fraction)) and \
                not isinstance(o, bool):
            if isinstance(o, Flt):
                return repr(float(o))
            f = float(o)
            return str(int(f)) if f == int(f) else "%.10g" % f
        return "<" + self.key(o) + ">"

    # ------------------------------------------------------- evaluation
    def ev(self, t):
        if t.op in ("mut", "copy"):
            t = T.val(t)
        if self.bv:
            rel = T.bound_keys(t)
            mk = tuple((k, v.k if isinstance(v, _Box) else v)
                       for k, v in self.bv.items() if k in rel)
            mk = (t, mk if len(mk) < 2 else frozenset(mk)) if mk else t
        else:
            mk = t
        if mk in self.memo:
            r = self.memo[mk]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > 60000:
            raise Stuck("too many steps")
        try:
            r = self._ev(t)
        except RecursionError:
            raise Stuck("depth")
        except (Unknown, Stuck) as e:
            self.memo[mk] = e
            raise
        self.memo[mk] = r
        return r

    def made(self, t):
        """Is t, in this interpretation, the result of numpy.array()?"""
        while t.op == "ite":
            t = t.args[1] if self.bool(t.args[0]) else t.args[2]
        return t.op == "copy" and t.args[0] == "array"

    def num(self, t):
        return self.number(self.ev(t))

    def bool(self, t):
        r = self.truth(self.ev(t))
        if self.cover is not None:
            self.cover.add((t, bool(r)))
        return r

    def dom(self, t):
        v = self.ev(t)
        if isinstance(v, Obj) and self.hint(v) is None:
            return int(self.rnd("n", v.key) * self.maxn) + 1
        n = self.number(v)
        if n != int(n):
            raise Stuck("fractional trip count")
        if n > 12:
            raise Stuck("trip count")
        return max(0, int(n))

    def under(self, hgt, i, t):
        old = self.bv.get(hgt)
        had = hgt in self.bv
        self.bv[hgt] = i
        try:
            return self.ev(t)
        finally:
            if had:
                self.bv[hgt] = old
            else:
                del self.bv[hgt]

    def _ev(self, t):
        o, a = t.op, t.args
        m = getattr(self, "v_" + o, None)
        if m is not None:
            return m(t, a)
        if o == "unk":
            raise Unknown(a[0])
        if o in ("mu", "acc?"):
            raise Unknown("loop-carried value")
        # uninterpreted constructor
        return Obj(o + "(" + ",".join(self.argkey(x) for x in a) + ")")

    def argkey(self, x):
        if isinstance(x, T.Term):
            return self.key(self.ev(x))
        if isinstance(x, tuple):
            return "(" + ",".join(self.argkey(y) for y in x) + ")"
        return str(x)

    def items(self, v):
        """The elements of a sequence value."""
        v = self.concrete(v)
        if isinstance(v, dict):
            return [x[0] for x in v.values()]
        if isinstance(v, (np.ndarray, Arr)):
            v = self.nd(v)
            return [float(x) if np.ndim(x) == 0 else x for x in v]
        if isinstance(v, tuple):
            return list(v)
        raise Unknown("elements of %s" % self.show(v)[:60])

    def v_num(self, t, a):
        return float(a[0])

    def v_str(self, t, a):
        return a[0]

    def v_bool(self, t, a):
        return a[0]

    def v_none(self, t, a):
        return None

    def leaf(self, key, name):
        o = Obj(key, name)
        c = self.overrides.get(key, o)
        if name is not None and c is o:
            hn = self.hints.get(name)
            if callable(hn):
                return hn(self, o)
        return c

    def v_sym(self, t, a):
        if a[0].startswith("?missing") :
            raise Unknown(a[0])
        return self.leaf(a[0], a[0])

    def v_glob(self, t, a):
        return self.leaf("g:" + a[0], a[0])

    def v_new(self, t, a):
        return Obj("new:%s:%s:%s" % (a[0], a[1], self.argkey(a[2])
                                     if len(a) > 2 else ""), a[0])

    def v_fn(self, t, a):
        if a[0] in ("numpy.pi", "math.pi"):
            return math.pi
        if a[0] in ("numpy.e", "math.e"):
            return math.e
        if a[0] in ("numpy.inf", "math.inf"):
            return float("inf")
        if a[0] in ("numpy.nan", "math.nan"):
            return float("nan")
        return Obj("fn:" + a[0], a[0])

    v_func = v_cls = v_fn

    def v_bound(self, t, a):
        return Obj("bound:" + a[0] + self.argkey(a[1]))

    def v_closure(self, t, a):
        raise Unknown("closure")

    def v_attr(self, t, a):
        b = self.ev(a[0])
        if b is None:
            raise Stuck("attribute of None")
        if isinstance(b, Ext):
            return b.attr(self, str(a[1]))
        if isinstance(b, (np.ndarray, Arr)):
            b = self.nd(b)
            if a[1] == "shape":
                return tuple(float(x) for x in b.shape)
            if a[1] == "ndim":
                return float(b.ndim)
            if a[1] == "size":
                return float(b.size)
            if a[1] == "T":
                return b.T
        return self.leaf(self.key(b) + "." + str(a[1]), str(a[1]))

    def v_attrv(self, t, a):
        b = self.ev(a[0])
        if isinstance(b, Ext):
            return b.attr(self, str(a[1]))
        ep = self.key(self.ev(a[2])) if isinstance(a[2], T.Term) else a[2]
        if ep == 0 or ep == "0":
            return self.leaf("%s.%s" % (self.key(b), a[1]), str(a[1]))
        return self.leaf("%s.%s@%s" % (self.key(b), a[1], ep), str(a[1]))

    def v_ep(self, t, a):
        return Obj("ep%s(%s)" % (a[1], self.key(self.ev(a[0]))))

    def v_copy(self, t, a):
        return self.ev(a[2])

    def v_eploop(self, t, a):
        n = self.dom(a[0])
        return Obj("eploop(" + ",".join(
            self.key(self.under(a[1].args[0], float(i), a[2]))
            for i in range(n)) + ")")

    def v_key(self, t, a):
        d = self.concrete(self.ev(a[0]))
        if isinstance(d, dict):
            l = [v[0] for v in d.values()]
            n = self.integer(self.ev(a[1]))
            if not -len(l) <= n < len(l):
                raise Stuck("index out of range")
            return l[n]
        return self.leaf("key(%s,%s)" % (self.key(self.ev(a[0])),
                                         self.key(self.ev(a[1]))), "key")

    def v_poly(self, t, a):
        tot = self.polysum([(c, m) for m, c in a[0]])
        if isinstance(tot, np.ndarray):
            if self.finite and not np.all(np.isfinite(tot)):
                raise Stuck("overflow")
            return tot
        if self.finite and (tot != tot or
                            tot in (float("inf"), float("-inf"))):
            raise Stuck("overflow")
        return tot

    def polysum(self, items):
        """Sum of c * monomial; cases and sums are combined before use."""
        red, sums, mag = {}, {}, {}
        for c, m in items:
            keep, sm = [], []
            for b, e in m:
                if b.op == "ind":
                    if not self.bool(b.args[0]):
                        keep = None
                        break
                elif b.op == "sum" and e == 1:
                    sm.append(b)
                else:
                    keep.append((b, e))
            if keep is None:
                continue
            if len(sm) == 1:
                dom, body = sm[0].args
                g = (dom, self.own(body))
                sums.setdefault(g, []).append((c, tuple(keep), body))
                continue
            k = tuple(keep + [(x, 1) for x in sm])
            red[k] = red.get(k, 0) + c
            mag[k] = mag.get(k, 0) + abs(c)
        tot = 0.0
        for (dom, hgt), parts in sums.items():
            facs = []
            for c, keep, body in parts:
                facs.append((c * self.mono(keep) if keep else c, body))
            for i in range(self.dom(dom)):
                its = []
                for c, body in facs:
                    if body.op == "poly":
                        its += [(c * k if not isinstance(c, float) else
                                 c * float(k), m) for m, k in body.args[0]]
                    else:
                        its.append((c, ((body, 1),)))
                had, old = hgt in self.bv, self.bv.get(hgt)
                self.bv[hgt] = float(i)
                try:
                    tot = tot + self.polysum(its)
                finally:
                    if had:
                        self.bv[hgt] = old
                    else:
                        del self.bv[hgt]
        for m, c in red.items():
            if abs(c) > 1e-13 * mag[m]:
                try:
                    tot = tot + float(c) * self.mono(m)
                except ValueError:
                    raise Stuck("array shapes differ")
        return tot

    def mono(self, m):
        x = 1.0
        for b, e in m:
            v = self.arith(self.ev(b))
            try:
                if isinstance(v, np.ndarray):
                    if e < 0 and np.any(v == 0):
                        raise Stuck("division by zero")
                    if e != int(e) and np.any(v < 0):
                        raise Stuck("root of negative")
                    x = x * v ** (int(e) if e == int(e) else float(e))
                elif e == int(e):
                    x = x * v ** int(e)
                else:
                    if v < 0:
                        raise Stuck("root of negative")
                    x = x * v ** float(e)
            except (ZeroDivisionError, OverflowError):
                raise Stuck("division by zero")
            except ValueError:
                raise Stuck("array shapes differ")
        return x

    def v_ind(self, t, a):
        return 1.0 if self.bool(a[0]) else 0.0

    def v_pow(self, t, a):
        b, e = self.concrete(self.ev(a[0])), self.concrete(self.ev(a[1]))
        if isinstance(b, np.ndarray) or isinstance(e, np.ndarray):
            b = b if isinstance(b, np.ndarray) else self.number(b)
            e = e if isinstance(e, np.ndarray) else self.number(e)
            with np.errstate(all="ignore"):
                r = np.power(b, e)
            if not np.all(np.isfinite(r)):
                raise Stuck("power")
            return r
        b, e = self.number(b), self.number(e)
        try:
            r = b ** e
        except (ZeroDivisionError, OverflowError):
            raise Stuck("power")
        if isinstance(r, complex):
            raise Stuck("power")
        return r

    def v_ite(self, t, a):
        c, w = a[0], False
        while c.op in ("not", "truthy", "ind"):
            w = w or c.op == "truthy"
            c = c.args[0]
        if w and c.op in ("call", "mcall"):
            v = self.concrete(self.ev(c))
            if isinstance(v, np.ndarray) and v.ndim:
                return self.select(a)
        try:
            k = self.bool(a[0])
        except NotScalar:
            return self.select(a)
        except (Stuck, Unknown) as e:
            # an open question whose answer does not matter
            try:
                x, y = self.ev(a[1]), self.ev(a[2])
                if self.key(x) == self.key(y):
                    return x
            except (Stuck, Unknown):
                pass
            raise e
        if self.cover is not None:
            self.cover.add((t, bool(k)))
        return self.ev(a[1]) if k else self.ev(a[2])

    def select(self, a):
        """Elementwise choice, as numpy.where makes it."""
        m = self.mask(a[0])
        if not m.ndim:
            raise Unknown("truth of an array")
        x, y = [self.concrete(self.ev(z)) for z in a[1:]]
        x, y = [z if isinstance(z, float) else self.nd(z) for z in (x, y)]
        try:
            return np.where(m, x, y)
        except ValueError:
            raise Stuck("shapes differ")

    def v_not(self, t, a):
        return not self.bool(a[0])

    def v_and(self, t, a):
        err = None
        for x in a[0]:
            try:
                if not self.bool(x):
                    return False
            except (Unknown, Stuck) as e:
                err = err or e
        if err:
            raise err
        return True

    def v_or(self, t, a):
        err = None
        for x in a[0]:
            try:
                if self.bool(x):
                    return True
            except (Unknown, Stuck) as e:
                err = err or e
        if err:
            raise err
        return False

    def v_lt0(self, t, a):
        s = self.sequences(a[0])
        if s is not None:
            return s < 0
        return neg(self.num(a[0]))

    def v_le0(self, t, a):
        s = self.sequences(a[0])
        if s is not None:
            return s <= 0
        return not neg(-self.num(a[0]))

    def mask(self, t):
        """Value of a condition on arrays, element by element."""
        t = T.val(t)
        if t.op in ("ind", "truthy"):
            return self.mask(t.args[0])
        if t.op == "not":
            return np.logical_not(self.mask(t.args[0]))
        if t.op in ("and", "or"):
            f = np.logical_and if t.op == "and" else np.logical_or
            l = t.args[0] if isinstance(t.args[0], tuple) else t.args
            return functools.reduce(f, [self.mask(x) for x in l])
        if t.op in ("lt0", "le0", "eq0"):
            p = T.val(t.args[0])
            v = self.polysum([(c, m) for m, c in p.args[0]]) \
                if p.op == "poly" else self.concrete(self.ev(p))
            if isinstance(v, Arr):
                v = self.nd(v)
            v = np.asarray(v if isinstance(v, np.ndarray)
                           else self.number(v), dtype=float)
            if t.op == "lt0":
                return (v < -1e-11) | ((v < 0) & (v > -1e-30))
            if t.op == "le0":
                return v <= 1e-11
            return np.abs(v) <= 1e-9
        v = self.concrete(self.ev(t))
        if isinstance(v, Arr):
            v = self.nd(v)
        if isinstance(v, np.ndarray):
            return v != 0
        return np.asarray(self.truth(v))

    def sequences(self, p):
        """Order of x and y in x - y when both are lists or tuples."""
        if p.op != "poly" or len(p.args[0]) != 2:
            return None
        (m1, c1), (m2, c2) = p.args[0]
        if c1 != -c2 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1 or \
                m1[0][1] != 1 or m2[0][1] != 1:
            return None
        x, y = self.concrete(self.ev(m1[0][0])), \
            self.concrete(self.ev(m2[0][0]))
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return None
        x, y = [self.number(v) for v in x], [self.number(v) for v in y]
        r = (x > y) - (x < y)
        return r if c1 > 0 else -r

    def v_eq0(self, t, a):
        p = a[0]
        if p.op == "poly" and len(p.args[0]) == 2:
            # x - y == 0: compare as values, not as numbers
            (m1, c1), (m2, c2) = p.args[0]
            if c1 == -c2 and len(m1) == len(m2) == 1 and \
                    m1[0][1] == m2[0][1] == 1:
                return self.eq(self.ev(m1[0][0]), self.ev(m2[0][0]))
        return abs(self.num(a[0])) <= 1e-9

    def v_eq(self, t, a):
        return self.eq(self.ev(a[0]), self.ev(a[1]))

    def v_is(self, t, a):
        return self.eq(self.ev(a[0]), self.ev(a[1]))

    def v_isnone(self, t, a):
        return self.isnone(self.ev(a[0]))

    def v_truthy(self, t, a):
        return self.truth(self.ev(a[0]))

    def happens(self, c, loops):
        """Does condition c hold for some turn of the loops?"""
        if not loops:
            return self.bool(c)
        lv, dom = loops[0].args[0]
        k = "lv%s" % lv.args[0]
        old = self.bv.get(k)
        try:
            for i in range(self.dom(dom)):
                self.bv[k] = float(i)
                if self.happens(c, loops[1:]):
                    return True
            return False
        finally:
            if old is None:
                self.bv.pop(k, None)
            else:
                self.bv[k] = old

    def v_exc(self, t, a):
        # decided by the subscriptions of the guarded block when they are
        # all known, otherwise free (per exception type)
        why = {"IndexError": "index out of range",
               "KeyError": "missing key"}.get(a[0])
        if a[2]:
            known = bool(a[0])
            files = a[0] in ("*", "Exception")
            for q in a[2]:
                try:
                    c, w = q.args[0][:2]
                    if w.op == "str":
                        # an exception the block raises itself
                        t = w.args[0]
                        hit = t == a[0] or files
                        if (hit or t == "?") and self.happens(
                                c, q.args[0][2:]):
                            if hit:
                                return True
                            known = False
                        continue
                    if not self.bool(c):
                        continue
                    b, i = q.args[0][1:]
                    v = self.concrete(self.ev(b))
                    if files and isinstance(v, Ext):
                        # anything that goes wrong with it is caught
                        pass
                    elif isinstance(v, Obj):
                        known = False
                        continue
                    elif not why and not isinstance(
                            v, (dict, tuple, np.ndarray)):
                        known = False
                        continue
                    self.item(v, self.ev(i))
                except Unknown:
                    known = False
                except Stuck as e:
                    if str(e) == why or files and str(e) in (
                            "missing key", "index out of range"):
                        return True
                    if str(e) not in ("missing key", "index out of range"):
                        known = False
            if known:
                return False
        return self.rnd("exc", a[0]) < 0.3

    def v_in(self, t, a):
        x, y = self.ev(a[0]), self.concrete(self.ev(a[1]))
        if isinstance(y, Ext):
            return y.contains(self, self.concrete(x))
        if isinstance(y, tuple):
            return any(self.eq(x, z) for z in y)
        if isinstance(y, dict):
            return self.key(x) in y
        if isinstance(y, str) and isinstance(x, str):
            return x in y
        if isinstance(y, (Arr, np.ndarray)):
            raise Stuck("in array")
        if isinstance(y, str):
            return self.text(x) in y
        return self.rnd("in", self.tkey(x), self.key(y)) < 0.5

    def tkey(self, x):
        x = self.concrete(x)
        return x if isinstance(x, str) else self.key(x)

    # containers
    def v_list(self, t, a):
        return tuple(self.ev(x) for x in a[0])

    v_tuple = v_list

    def v_set(self, t, a):
        return tuple(sorted((self.ev(x) for x in (a[0] if a and isinstance(
            a[0], tuple) else a)), key=self.key))

    def v_concatl(self, t, a):
        out = ()
        for x in a[0]:
            v = self.ev(x)
            if not isinstance(v, tuple):
                return Obj("concatl(" + ",".join(
                    self.key(self.ev(y)) for y in a[0]) + ")")
            out += v
        return out

    def v_condl(self, t, a):
        return self.ev(a[1]) if self.bool(a[0]) else ()

    def v_map(self, t, a):
        dom, b, hgt = a
        return Lst(self.under(hgt, float(i), b)
                   for i in range(self.dom(dom)))

    def v_fmap(self, t, a):
        dom, c, b, hgt = a
        out = []
        for i in range(self.dom(dom)):
            if self.truth(self.under(hgt, float(i), c)):
                out.append(self.under(hgt, float(i), b))
        return Lst(out)

    def v_flatmap(self, t, a):
        dom, c, b, hgt = a
        out = ()
        for i in range(self.dom(dom)):
            if self.truth(self.under(hgt, float(i), c)):
                v = self.under(hgt, float(i), b)
                if not isinstance(v, tuple):
                    raise Unknown("flatmap")
                out += v
        return out

    def v_strmap(self, t, a):
        dom, b, hgt = a
        return "".join(self.text(self.under(hgt, float(i), b))
                       for i in range(self.dom(dom)))

    def v_concat(self, t, a):
        return "".join(self.text(self.ev(x)) for x in a[0])

    def v_chop(self, t, a):
        return self.text(self.ev(a[0]))[:-1]

    def v_dictvalues(self, t, a):
        d = self.concrete(self.ev(a[0]))
        if isinstance(d, dict):
            return tuple(v[1] for v in d.values())
        return Obj("dictvalues(%s)" % self.key(d))

    def v_dictitems(self, t, a):
        d = self.concrete(self.ev(a[0]))
        if isinstance(d, dict):
            return tuple(d.values())
        return Obj("dictitems(%s)" % self.key(d))

    def v_dict(self, t, a):
        out = {}
        for k, v in a[0]:
            kv = self.ev(k)
            out[self.key(kv)] = (kv, self.ev(v))
        return out

    def v_dictmap(self, t, a):
        dom, kb, vb, hgt = a
        out = {}
        for i in range(self.dom(dom)):
            k = self.under(hgt, float(i), kb)
            out[self.key(k)] = (k, self.under(hgt, float(i), vb))
        return out

    def v_store(self, t, a):
        b = self.ev(a[0])
        i, v = self.ev(a[1]), self.ev(a[2])
        return self.update(b, i, v)

    def update(self, b, i, v):
        if isinstance(b, Ext):
            return b        # written when its event is met
        if isinstance(b, dict):
            b = type(b)(b)
            b[self.key(i)] = (i, v)
            return b
        if isinstance(b, np.ndarray):
            b = b.copy()
            try:
                b[self.nindex(i)] = self.arith(v)
            except (IndexError, ValueError):
                raise Stuck("index out of range")
            return b
        if isinstance(b, tuple):
            n = self.integer(i)
            if not -len(b) <= n < len(b):
                raise Stuck("index")
            l = list(b)
            l[n] = v
            return tuple(l)
        return Obj("store(%s,%s,%s)" % (self.key(b), self.key(i),
                                        self.key(v)))

    def nindex(self, i):
        i = self.concrete(i)
        if isinstance(i, str):
            # index text assembled for eval: "lo:hi,lo:hi"
            out = []
            for part in i.strip(" ,[]").split(","):
                b = [x.strip() for x in part.split(":")]
                try:
                    b = [None if x in ("", "None") else int(float(x))
                         for x in b]
                except ValueError:
                    raise Unknown("index text")
                out.append(slice(*b) if len(b) > 1 else b[0])
            return tuple(out)
        if isinstance(i, _Slice):
            return i.s
        if isinstance(i, Lst):
            return self.nindex(self.nd(i))
        if isinstance(i, tuple):
            return tuple(self.nindex(x) for x in i)
        if isinstance(i, np.ndarray):
            if i.dtype == bool:
                return i
            return i.astype(int)
        if i is None:
            return None
        if isinstance(i, Obj) and i.key == "fn:Ellipsis":
            return Ellipsis
        return self.integer(i)

    def v_del(self, t, a):
        b, i = self.ev(a[0]), self.ev(a[1])
        if isinstance(b, Ext):
            return b.delete(self, self.concrete(i))
        if isinstance(b, dict):
            b = dict(b)
            b.pop(self.key(i), None)
            return b
        return Obj("del(%s,%s)" % (self.key(b), self.key(i)))

    def v_arrmap(self, t, a):
        init, dom, ib, vb, hgt = a
        n = self.dom(dom)
        if ib.op == "bv" and ib.args[0] == hgt:
            iv = self.ev(init)

            def f(i, iv=iv):
                if isinstance(i, float) and i == int(i) and 0 <= i < n:
                    return self.under(hgt, i, vb)
                return self.item(iv, i)
            ln = self.length(iv)
            bvs = dict(self.bv)

            def g(i):
                old, self.bv = self.bv, dict(bvs)
                try:
                    return f(i)
                finally:
                    self.bv = old
            return Arr(g, ln, "arr")
        out = self.ev(init)
        for i in range(n):
            ii = self.under(hgt, float(i), ib)
            out = self.update(out, ii, self.under(hgt, float(i), vb))
        return out

    def v_stores(self, t, a):
        init, dom, cb, ib, vb, hgt = a
        out = self.ev(init)
        for i in range(self.dom(dom)):
            if not self.truth(self.under(hgt, float(i), cb)):
                continue
            ii = self.under(hgt, float(i), ib)
            out = self.update(out, ii, self.under(hgt, float(i), vb))
        return out

    def v_fold(self, t, a):
        dom, init, b, hgt = a
        acc = self.ev(init)
        akey = "acc%s" % hgt
        n = self.dom(dom)
        old = self.bv.get(akey)
        for i in range(n):
            # accumulator is looked up by value key
            self.bv[akey] = _Box(acc, self.key(acc))
            acc = self.under(hgt, float(i), b)
        if old is None:
            self.bv.pop(akey, None)
        else:
            self.bv[akey] = old
        return acc

    def v_recur(self, t, a):
        dom, ini, body, cs, xs, hgt, j = a
        acc = tuple(self.ev(x) for x in ini)
        n = None if dom is T.NONE else self.dom(dom)
        akey = "acc%s" % hgt
        old = self.bv.get(akey)
        i, done = 0, None
        try:
            while n is None or i < n:
                if i > 60:
                    raise Stuck("trip count")
                self.bv[akey] = _Box(acc, self.key(acc))
                for c, x in zip(cs, xs):
                    if self.truth(self.under(hgt, float(i), c)):
                        done = tuple(self.lazy(hgt, float(i), y) for y in x)
                        break
                if done is not None:
                    acc = done
                    break
                acc = tuple(self.lazy(hgt, float(i), y) for y in body)
                i += 1
        finally:
            if old is None:
                self.bv.pop(akey, None)
            else:
                self.bv[akey] = old
        if j == "n":
            return float(i)
        r = acc[j]
        if isinstance(r, Exception):
            raise r
        return r

    def lazy(self, hgt, i, y):
        try:
            return self.under(hgt, i, y)
        except (Stuck, Unknown) as e:
            return e

    def v_racc(self, t, a):
        b = self.bv.get("acc%s" % a[0])
        if b is None:
            raise Unknown("accumulator")
        r = b.v[int(a[1].args[0])]
        if isinstance(r, Exception):
            raise r
        return r

    def v_acc(self, t, a):
        b = self.bv.get("acc%s" % a[0])
        if b is None:
            raise Unknown("accumulator")
        return b.v

    def v_bv(self, t, a):
        if a[0] not in self.bv:
            raise Unknown("unbound index")
        return self.bv[a[0]]

    def v_lv(self, t, a):
        k = "lv%s" % a[0]
        if k not in self.bv:
            raise Unknown("loop index outside its loop")
        return self.bv[k]

    def own(self, *bodies):
        """The height of the binder whose bodies are given."""
        f = frozenset().union(*[T.free_bv(b) for b in bodies])
        f = [x for x in f if x not in self.bv]
        return min(f) if f else 10 ** 6

    def v_sum(self, t, a):
        dom, b = a
        hgt = self.own(b)
        return sum(self.number(self.under(hgt, float(i), b))
                   for i in range(self.dom(dom)))

    def v_prod(self, t, a):
        dom, b = a
        hgt = self.own(b)
        r = 1.0
        for i in range(self.dom(dom)):
            r *= self.number(self.under(hgt, float(i), b))
        return r

    def v_forall(self, t, a):
        dom, b = a
        hgt = self.own(b)
        return all(self.truth(self.under(hgt, float(i), b))
                   for i in range(self.dom(dom)))

    def v_exists(self, t, a):
        dom, b = a
        hgt = self.own(b)
        return any(self.truth(self.under(hgt, float(i), b))
                   for i in range(self.dom(dom)))

    def v_first(self, t, a):
        dom, c, v = a
        hgt = self.own(c, v)
        for i in range(self.dom(dom)):
            if self.truth(self.under(hgt, float(i), c)):
                return self.under(hgt, float(i), v)
        raise Stuck("no first element")

    def v_last(self, t, a):
        dom, bv = a[0], a[1]
        b = a[2] if len(a) > 2 else a[1]
        hgt = bv.args[0] if bv.op == "bv" else self.own(b)
        n = self.dom(dom)
        if n == 0:
            raise Stuck("empty loop")
        return self.under(hgt, float(n - 1), b)

    def v_range(self, t, a):
        lo, hi, st = [self.integer(self.ev(x)) for x in a]
        if st == 0 or abs(hi - lo) > 50:
            raise Stuck("range")
        return tuple(float(x) for x in range(lo, hi, st))

    def v_enumerate(self, t, a):
        v = self.ev(a[0])
        if not isinstance(v, tuple):
            raise Unknown("enumerate")
        s = self.num(a[1])
        return tuple((s + i, x) for i, x in enumerate(v))

    def length(self, v):
        v = self.concrete(v)
        if isinstance(v, Ext):
            return v.length(self)
        if isinstance(v, (tuple, str, dict)):
            return float(len(v))
        if isinstance(v, Arr):
            return v.n
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise Stuck("len of scalar")
            return float(v.shape[0])
        if v is None:
            raise Stuck("len of None")
        if isinstance(v, Obj):
            hn = self.hints.get("len")
            if callable(hn):
                return float(hn(self, v))
            return float(int(self.rnd("len", v.key) * self.maxn) + 1)
        raise Stuck("len")

    def v_len(self, t, a):
        return self.length(self.ev(a[0]))

    def item(self, b, i):
        b = self.concrete(b)
        if isinstance(b, Ext):
            return b.item(self, self.concrete(i))
        if isinstance(b, Arr):
            if not isinstance(i, (int, float)):
                b = self.nd(b)
            else:
                return b.f(i)
        if isinstance(b, np.ndarray):
            try:
                r = b[self.nindex(i)]
            except (IndexError, ValueError):
                raise Stuck("index out of range")
            return float(r) if np.ndim(r) == 0 else r
        if isinstance(b, (tuple, str)) and isinstance(i, _Slice):
            return b[i.s]
        if isinstance(b, (tuple, str)):
            if isinstance(i, (int, float)) and not isinstance(i, bool):
                n = int(i)
                if not -len(b) <= n < len(b):
                    raise Stuck("index out of range")
                return b[n]
            i = self.concrete(i)
            if isinstance(i, Obj):
                n = self.integer(i)
                if not -len(b) <= n < len(b):
                    raise Stuck("index out of range")
                return b[n]
            if isinstance(i, slice):
                return b[i]
            raise Unknown("index")
        if isinstance(b, dict):
            k = self.key(i)
            if k in b:
                return b[k][1]
            c = self.concrete(i)
            if isinstance(c, (int, float)) and not isinstance(c, bool) and \
                    0 <= c < len(b) and all(
                        isinstance(x[0], str) for x in b.values()):
                # the element an iteration over the keys meets
                return list(b.values())[int(c)][0]
            raise Stuck("missing key")
        if b is None:
            raise Stuck("None subscripted")
        if isinstance(b, Obj):
            return self.leaf("%s[%s]" % (b.key, self.key(i)),
                             (b.name + "[]") if b.name else None)
        raise Unknown("index of %r" % (type(b),))

    def v_idx(self, t, a):
        return self.item(self.ev(a[0]), self.ev(a[1]))

    def v_slice(self, t, a):
        x = [self.ev(y) for y in a]
        try:
            return _Slice([None if y is None else self.integer(y)
                           for y in x])
        except Stuck:
            return Obj("slice(" + ",".join(self.key(y) for y in x) + ")")

    def v_frag(self, t, a):
        return self.ev(a[0])

    # calls
    def v_call(self, t, a):
        name, args, kws = a[0], a[1], a[2] if len(a) > 2 else ()
        if name == "apply" and args:
            f = self.concrete(self.ev(args[0]))
            if isinstance(f, Obj) and f.key[3:] in (
                    "int", "float", "str", "bool", "len", "abs") and \
                    f.key.startswith("fn:"):
                if f.key == "fn:str" and len(args) == 2:
                    v = self.concrete(self.ev(args[1]))
                    if isinstance(v, str):
                        return v
                if f.key == "fn:bool" and len(args) == 2:
                    return self.truth(self.ev(args[1]))
                return self.ev(T.raw("call", f.key[3:], args[1:], kws))
        if name in ("log", "exp", "abs", "floor", "ceil"):
            v = self.concrete(self.ev(args[0]))
            if isinstance(v, (np.ndarray, Arr, tuple)):
                if name == "log" and np.any(self.nd(v) <= 0):
                    raise Stuck("log of non-positive")
                return MODELS[name](self, [v], {})
        if name == "log":
            v = self.num(args[0])
            if v <= 0:
                raise Stuck("log of non-positive")
            return math.log(v)
        if name == "exp":
            v = self.num(args[0])
            if v > 300:
                raise Stuck("exp overflow")
            return math.exp(v)
        if name == "abs":
            return abs(self.num(args[0]))
        if name == "floor":
            return float(math.floor(self.num(args[0]) + 1e-9))
        if name == "ceil":
            return float(math.ceil(self.num(args[0]) - 1e-9))
        if name == "int":
            v = self.ev(args[0])
            if isinstance(v, str):
                try:
                    return Int(int(v))
                except ValueError:
                    raise Stuck("not an integer text")
            if isinstance(v, Obj) and self.hint(v) is None:
                v = self.number(v)
            v = self.number(v)
            return float(int(v + (1e-9 if v > 0 else -1e-9)))
        if name == "float" and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, str):
                try:
                    return Flt(v)
                except ValueError:
                    return Obj("float(%s)" % v)
            return v
        if name == "fmt":
            spec = args[0].args[0]
            v = self.ev(args[1])
            if isinstance(v, Obj):
                return "<fmt %s %s>" % (spec, v.key)
            try:
                return ("%" + spec.strip("':")) % v
            except Exception:
                return "<fmt %s %s>" % (spec, self.key(v))
        if name in ("list", "tuple") and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, np.ndarray) and v.ndim:
                v = tuple(float(x) if v.ndim == 1 and v.dtype != object
                          else x for x in v)
                return Tup(v) if name == "tuple" else Lst(v)
            if type(v) in (tuple, Tup, Lst):
                return Tup(v) if name == "tuple" else Lst(v)
            return v
        if name == "isinstance" and len(args) == 2 and \
                "numpy.ndarray" in T.show(args[1]) and self.made(args[0]):
            return True
        if name in ("any", "all", "numpy.any", "numpy.all") and \
                len(args) == 1 and not kws:
            m = self.mask(args[0])
            if m.ndim:
                return bool(getattr(np, name[-3:])(m))
        if name == "seq<":
            v = [self.concrete(self.ev(x)) for x in args]
            if not all(isinstance(x, tuple) for x in v):
                raise Unknown("comparison of sequences")
            for a, b in zip(*v):
                a, b = self.number(a), self.number(b)
                if a != b:
                    return a < b
            return len(v[0]) < len(v[1])
        if name == "sumall":
            v = self.concrete(self.ev(args[0]))
            if isinstance(v, (tuple, Arr, np.ndarray)):
                return float(np.sum(self.nd(v)))
            if isinstance(v, float):
                return v
        if name in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero",
                    "numpy.argwhere", "numpy.count_nonzero") and \
                len(args) == 1 and not kws:
            r = getattr(np, name[6:])(np.atleast_1d(self.mask(args[0])))
            if isinstance(r, tuple):
                return tuple(x.astype(float) for x in r)
            return float(r) if np.ndim(r) == 0 else r.astype(float)
        own = self.hints.get("model:" + name)
        for m in (own, MODELS.get(name)):
            if m is None:
                continue
            vals = []
            for x in args:
                if x.op == "starred":
                    vals.extend(self.items(self.ev(x.args[0])))
                else:
                    vals.append(self.concrete(self.ev(x)))
            kv = dict((k, self.concrete(self.ev(v))) for k, v in kws)
            try:
                r = m(self, vals, kv) if not kv or takes_kw(m) else \
                    NotImplemented
            except (IndexError, ValueError, TypeError, AttributeError,
                    np.exceptions.AxisError):
                raise Stuck("%s fails" % name)
            if r is not NotImplemented:
                return r
        if name in ("numpy.allclose", "numpy.isclose"):
            x, y = self.ev(args[0]), self.ev(args[1])
            tol = dict(zip(("rtol", "atol"), args[2:4]))
            tol.update((k, v) for k, v in kws if k in ("rtol", "atol"))
            tol = dict((k, self.num(v)) for k, v in tol.items())
            return self.allclose(x, y, **tol)
        if name == "%" and len(args) == 2:
            x, y = self.num(args[0]), self.num(args[1])
            if y == 0:
                raise Stuck("modulo zero")
            return x % y
        if self.vocab is not None and name not in KNOWN_CALLS and \
                name not in self.vocab:
            raise Unknown("call to %s" % name)
        ks = [self.key(self.ev(x)) if x.op != "copy" else
              self.key(self.ev(x)) for x in args]
        kk = ["%s=%s" % (k, self.key(self.ev(v))) for k, v in kws]
        return self.leaf("%s(%s)" % (name, ",".join(ks + kk)), name + "()")

    def allclose(self, x, y, rtol=1e-5, atol=1e-8):
        x, y = self.concrete(x), self.concrete(y)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = self.arith(x), self.arith(y)
            try:
                return bool(np.allclose(x, y, rtol, atol))
            except ValueError:
                raise Stuck("array shapes differ")
        for p, q in ((x, y), (y, x)):
            if isinstance(p, (tuple, Arr)):
                n = int(self.number(self.length(p)))
                return all(self.allclose(
                    self.item(p, float(i)),
                    self.item(q, float(i)) if isinstance(q, (tuple, Arr))
                    else q, rtol, atol) for i in range(n))
        p, q = self.number(x), self.number(y)
        return abs(p - q) <= atol + rtol * abs(q)

    def v_mcall(self, t, a):
        recv, name, args, kws = a
        m = MODELS.get("." + name)
        r0 = self.concrete(self.ev(recv))
        if isinstance(r0, Ext):
            return r0.call(self, name, [
                self.concrete(self.ev(x)) for x in args], dict(
                (k, self.concrete(self.ev(v))) for k, v in kws))
        if m is not None:
            r0 = self.concrete(self.ev(recv))
            if not isinstance(r0, Obj):
                vals = [r0] + [self.concrete(self.ev(x)) for x in args]
                kv = dict((k, self.concrete(self.ev(v))) for k, v in kws)
                try:
                    r = m(self, vals, kv) if not kv or takes_kw(m) else \
                        NotImplemented
                except (IndexError, ValueError, TypeError, AttributeError,
                        np.exceptions.AxisError):
                    raise Stuck("%s fails" % name)
                if r is not NotImplemented:
                    return r
        if self.vocab is not None and name not in self.vocab:
            raise Unknown("method %s" % name)
        ks = [self.key(self.ev(x)) for x in args]
        kk = ["%s=%s" % (k, self.key(self.ev(v))) for k, v in kws]
        return self.leaf("%s.%s(%s)" % (self.key(self.ev(recv)), name,
                                        ",".join(ks + kk)), name + "()")

    def same(self, a, b):
        """Do two evaluated values agree?"""
        a, b = self.concrete(a), self.concrete(b)
        num = (int, float, Fraction)
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            return isinstance(o, Obj) and self.isnone(o)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.key == b.key:
                return True
            if isinstance(self.hint(a), str) and \
                    isinstance(self.hint(b), str):
                return close(self.number(a), self.number(b))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (Obj, bool)) and isinstance(b, (Obj, bool)):
                return self.truth(a) == self.truth(b)
        if isinstance(a, num) and isinstance(b, num):
            return close(float(a), float(b))
        if isinstance(a, num) and isinstance(b, Obj) or \
                isinstance(b, num) and isinstance(a, Obj):
            return close(self.number(a), self.number(b))
        if isinstance(a, str) or isinstance(b, str):
            return self.text(a) == self.text(b) if isinstance(
                a, (str, Obj)) and isinstance(b, (str, Obj)) else False
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not isinstance(a, (np.ndarray, tuple, Arr)) or \
                    not isinstance(b, (np.ndarray, tuple, Arr)):
                a, b = self.arith(a), self.arith(b)
                return np.ndim(a) == 0 and np.ndim(b) == 0 and \
                    close(float(a), float(b))
            try:
                a, b = self.nd(a), self.nd(b)
            except Stuck:
                return False
            return a.shape == b.shape and bool(np.allclose(
                a, b, rtol=1e-6, atol=1e-7))
        if isinstance(a, (tuple, Arr)) and isinstance(b, (tuple, Arr)):
            la, lb = self.length(a), self.length(b)
            if self.number(la) != self.number(lb):
                return False
            return all(self.same(self.item(a, float(i)),
                                 self.item(b, float(i)))
                       for i in range(int(self.number(la))))
        if isinstance(a, Arr) and isinstance(b, Obj) or \
                isinstance(b, Arr) and isinstance(a, Obj):
            n = int(self.number(self.length(a)))
            return all(self.same(self.item(a, float(i)),
                                 self.item(b, float(i))) for i in range(n))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.same(a[k][1], b[k][1])
                                            for k in a)
        return self.key(a) == self.key(b)

    def show(self, v):
        v = self.concrete(v)
        if isinstance(v, float):
            return "%.6g" % v
        if isinstance(v, tuple):
            return "[" + ", ".join(self.show(x) for x in v[:6]) + "]"
        if isinstance(v, np.ndarray):
            return "array%s %s" % (v.shape, np.array2string(
                v.ravel()[:6], precision=4))
        if isinstance(v, Obj):
            return v.key if len(v.key) < 80 else v.key[:77] + "..."
        return str(v)[:120]


# ------------------------------------------------- models of pure functions
def _strs(v):
    return all(isinstance(x, str) for x in v)


def m_str(name):
    def f(env, v, kw):
        if isinstance(v[0], Obj) and not env.textual(v[0]):
            return NotImplemented
        if isinstance(v[0], tuple) and name in ("index", "count"):
            hit = [i for i, x in enumerate(v[0]) if env.eq(x, v[1])]
            if name == "count":
                return float(len(hit))
            if not hit:
                raise Stuck("value not in list")
            return float(hit[0])
        if not isinstance(v[0], (str, Obj)):
            return NotImplemented
        v = [env.text(v[0]) if i == 0 else
             int(x) if isinstance(x, float) else x for i, x in enumerate(v)]
        if not all(isinstance(x, (str, int)) for x in v):
            return NotImplemented
        r = getattr(v[0], name)(*v[1:])
        if isinstance(r, list):
            return tuple(r)
        if isinstance(r, bool):
            return r
        if isinstance(r, int):
            return float(r)
        return r
    return f


def m_path(name):
    def f(env, v, kw):
        if not v or any(isinstance(x, Obj) and not env.textual(x)
                        for x in v):
            return NotImplemented
        v = [env.text(x) for x in v]
        r = getattr(posixpath, name)(*v)
        return tuple(r) if isinstance(r, tuple) else r
    return f


def m_join(env, v, kw):
    if isinstance(v[1], dict):
        v[1] = tuple(x[0] for x in v[1].values())
    if isinstance(v[0], str) and isinstance(v[1], tuple):
        return v[0].join(env.text(x) for x in v[1])
    return NotImplemented


def m_keys(env, v, kw):
    if isinstance(v[0], dict):
        return tuple(x[0] for x in v[0].values())
    return NotImplemented


def m_sorted(env, v, kw):
    if kw:
        return NotImplemented
    x = v[0]
    if isinstance(x, dict):
        x = tuple(y[0] for y in x.values())
    if isinstance(x, tuple):
        if _strs(x):
            return tuple(sorted(x))
        y = [env.concrete(p) for p in x]
        if y and all(isinstance(p, tuple) and p for p in y):
            heads = [sortkey(env, p[0]) for p in y]
            if len(set(heads)) < len(y):
                raise Unknown("order of pairs")
            return tuple(p for _, p in sorted(
                zip(heads, y), key=lambda z: z[0]))
        return tuple(sorted((env.number(y) for y in x)))
    return NotImplemented


def m_by(which):
    def m(env, v, kw):
        x, keys, rev = v
        if isinstance(x, dict):
            x = tuple(y[0] for y in x.values())
        if not isinstance(x, tuple) or not isinstance(keys, tuple) or \
                len(x) != len(keys):
            return NotImplemented
        ks = [sortkey(env, k) for k in keys]
        order = sorted(range(len(x)), key=lambda i: ks[i],
                       reverse=env.truth(rev))
        if which == "sorted":
            return tuple(x[i] for i in order)
        if not order:
            raise Stuck("%s of nothing" % which)
        return x[(min if which == "min" else max)(
            range(len(x)), key=lambda i: ks[i])]
    return m


def sortkey(env, k):
    k = env.concrete(k)
    if isinstance(k, str):
        return (1, k)
    if isinstance(k, tuple):
        return (2, tuple(sortkey(env, x) for x in k))
    return (0, float(env.number(k)))


def m_reversed(env, v, kw):
    if isinstance(v[0], tuple):
        return tuple(reversed(v[0]))
    return NotImplemented


def _isnd(x):
    return isinstance(x, (np.ndarray, Arr)) or isinstance(x, tuple) and \
        all(isinstance(y, (int, float, tuple)) for y in x)


def m_sumax(env, v, kw):
    if not _isnd(v[0]):
        return NotImplemented
    ax = v[1]
    ax = tuple(env.integer(x) for x in ax) if isinstance(ax, tuple) else \
        env.integer(ax)
    r = np.sum(env.nd(v[0]), axis=ax)
    return float(r) if r.ndim == 0 else r


def m_reshape(env, v, kw):
    if not _isnd(v[0]):
        return NotImplemented
    sh = v[1]
    sh = tuple(env.integer(x) for x in sh) if isinstance(sh, tuple) else \
        env.integer(sh)
    return env.nd(v[0]).reshape(sh)


def m_ravel(env, v, kw):
    if isinstance(v[0], float):
        return np.array([v[0]])
    return env.nd(v[0]).ravel() if _isnd(v[0]) else NotImplemented


def m_full(val):
    def f(env, v, kw):
        sh = v[0]
        if isinstance(sh, Obj):
            return NotImplemented
        sh = tuple(env.integer(x) for x in sh) if isinstance(sh, tuple) \
            else env.integer(sh)
        if np.prod(sh) > 5000:
            raise Stuck("array too large")
        return np.full(sh, val if val is not None else env.number(v[1]),
                       dtype=float)
    return f


def m_linspace(env, v, kw):
    lo, hi = env.number(v[0]), env.number(v[1])
    n = v[2] if len(v) > 2 else kw.get("num", 50.)
    if set(kw) - {"num", "endpoint"}:
        return NotImplemented
    n = env.number(n)
    if n != int(n) or not 0 <= n <= 40:
        raise Stuck("number of points")
    e = v[3] if len(v) > 3 else kw.get("endpoint", True)
    return np.linspace(lo, hi, int(n), endpoint=bool(e))


def m_logspace(env, v, kw):
    if set(kw) - {"num", "base", "endpoint"}:
        return NotImplemented
    b = v[4] if len(v) > 4 else kw.get("base", 10.)
    kw = dict((k, x) for k, x in kw.items() if k != "base")
    x = m_linspace(env, v[:4], kw)
    if env.number(b) <= 0:
        raise Stuck("base")
    with np.errstate(over="ignore"):
        return env.number(b) ** x


def m_arange(env, v, kw):
    if kw:
        return NotImplemented
    x = [env.number(y) for y in v]
    start, stop, step = ([0.] + x + [1.] if len(x) == 1 else
                         x + [1.])[:3] if len(x) < 3 else x
    if not step:
        raise Stuck("zero step")
    n = max(0, int(math.ceil((stop - start) / step - 1e-9)))
    if n > 4000:
        raise Stuck("size")
    return start + step * np.arange(n)


def m_product(env, v, kw):
    if kw:
        return NotImplemented
    seqs = [env.items(x) for x in v]
    n = 1
    for s in seqs:
        n *= len(s)
    if n > 4000:
        raise Stuck("size")
    return tuple(itertools.product(*seqs))


def m_unary(fn):
    def f(env, v, kw):
        if isinstance(v[0], (np.ndarray, Arr, tuple)):
            with np.errstate(all="ignore"):
                r = fn(env.nd(v[0]))
            if not np.all(np.isfinite(r) | np.isnan(env.nd(v[0]))):
                raise Stuck("overflow")
            return r
        return NotImplemented
    return f


def m_elem(fn):
    """Elementwise function of a number or an array."""
    def f(env, v, kw):
        x = v[0]
        if kw or len(v) != 1:
            return NotImplemented
        if isinstance(x, (np.ndarray, Arr, tuple)):
            x = env.nd(x)
        elif isinstance(x, (int, float)):
            x = float(x)
        else:
            return NotImplemented
        with np.errstate(all="ignore"):
            r = fn(x)
        if not np.all(np.isfinite(r) | np.isnan(x)):
            raise Stuck("overflow")
        return r if isinstance(r, np.ndarray) else float(r)
    return f


def m_mapping(kind):
    """dict(x) and OrderedDict(x)."""
    def f(env, v, kw):
        if len(v) > 1:
            return NotImplemented
        out = kind()
        x = env.concrete(v[0]) if v else ()
        if isinstance(x, dict) and kind is ODict and \
                not isinstance(x, ODict) and not kw:
            # entries come out of a plain mapping in any order
            for k in sorted(x, key=lambda k: h("any order", k)):
                out[k] = x[k]
        elif isinstance(x, dict):
            out.update(x)
        elif isinstance(x, tuple):
            for p in x:
                p = env.concrete(p)
                if not isinstance(p, tuple) or len(p) != 2:
                    return NotImplemented
                out.pop(env.key(p[0]), None) if kind is dict else None
                out[env.key(p[0])] = (p[0], p[1])
        else:
            return NotImplemented
        for k, y in kw.items():
            out[env.key(k)] = (k, y)
        return out
    return f


def m_append(env, v, kw):
    if kw or len(v) > 2:
        return NotImplemented
    return np.append(env.nd(v[0]), env.nd(v[1]) if not isinstance(
        v[1], float) else v[1])


def m_round(env, v, kw):
    x = env.number(v[0])
    return float(np.floor(abs(x) + .5)) * (1. if x > 0 else -1.)


def m_rint(env, v, kw):
    return float(np.rint(env.number(v[0])))


def m_reduce(fn):
    def f(env, v, kw):
        if not _isnd(v[0]) or set(kw) - {"axis"}:
            return NotImplemented
        x = env.nd(v[0])
        ax = v[1] if len(v) > 1 else kw.get("axis")
        if x.size == 0:
            raise Stuck("empty reduction")
        if ax is not None:
            ax = tuple(env.integer(y) for y in ax) if isinstance(
                ax, tuple) else env.integer(ax)
        r = fn(x, axis=ax)
        return float(r) if np.ndim(r) == 0 else r
    return f


def m_through(fn, whole=()):
    """A numpy function of arrays, positions in `whole` being integers."""
    def f(env, v, kw):
        out = []
        for i, x in enumerate(list(v) + list(kw.values())):
            name = list(kw)[i - len(v)] if i >= len(v) else i
            if isinstance(x, (Obj, Ext, dict, str)):
                return NotImplemented
            if x is None or isinstance(x, bool):
                out.append(x)
            elif name == "axis" or name in whole:
                out.append(tuple(env.integer(y) for y in x)
                           if isinstance(x, (tuple, np.ndarray))
                           else env.integer(x))
            elif isinstance(x, tuple) and fn is np.concatenate:
                out.append([env.nd(y) for y in x])
            else:
                out.append(x if isinstance(x, float) else env.nd(x))
        r = fn(*out[:len(v)], **dict(zip(kw, out[len(v):])))
        if isinstance(r, (tuple, list)):
            return NotImplemented
        if isinstance(r, np.ndarray) and r.ndim:
            return r
        return bool(r) if isinstance(r, (bool, np.bool_)) else float(r)
    return f


def m_flat(env, v, kw):
    if isinstance(v[0], float) and len(v) == 1:
        return np.array([v[0]])
    return env.nd(v[0]).ravel() if len(v) == 1 and not kw else NotImplemented


def m_transpose(env, v, kw):
    if kw or not _isnd(v[0]):
        return NotImplemented
    ax = v[1:]
    if len(ax) == 1 and isinstance(ax[0], tuple):
        ax = ax[0]
    return np.transpose(env.nd(v[0]), [env.integer(x) for x in ax] or None)


def m_mreshape(env, v, kw):
    if kw:
        return NotImplemented
    return m_reshape(env, [v[0], v[1] if len(v) == 2 else tuple(v[1:])], {})


def m_unravel(env, v, kw):
    if set(kw) - {"order", "shape"}:
        return NotImplemented
    sh = v[1] if len(v) > 1 else kw["shape"]
    return tuple(float(x) for x in np.unravel_index(
        env.integer(v[0]), tuple(env.integer(x) for x in env.items(sh)),
        order=v[2] if len(v) > 2 else kw.get("order", "C")))


def m_prod(env, v, kw):
    return m_reduce(np.prod)(env, v, kw)


def m_keep(env, v, kw):
    """Reference operation: sum over every axis not listed."""
    x = env.nd(v[0])
    keep = set(env.integer(i) for i in v[1])
    if any(not 0 <= i < x.ndim for i in keep):
        raise Stuck("axis")
    ax = tuple(i for i in range(x.ndim) if i not in keep)
    r = np.sum(x, axis=ax) if ax else x
    return float(r) if np.ndim(r) == 0 else r


def m_rebinned(env, v, kw):
    """Reference operation: group sums along every axis."""
    x = env.nd(v[0])
    for i, b in enumerate(v[1]):
        b = env.integer(b)
        if b < 1 or x.shape[i] % b:
            raise Stuck("factor")
        x = np.add.reduceat(x, np.arange(0, x.shape[i], x.shape[i] // b),
                            axis=i)
    return x


def m_sliced(env, v, kw):
    x = env.nd(v[0])
    sl = []
    for a, b, n in zip(v[1], v[2], x.shape):
        a, b = env.integer(a), env.integer(b)
        if not 0 <= a < b <= n:
            raise Stuck("slice")
        sl.append(slice(a, b))
    if len(sl) != x.ndim:
        raise Stuck("rank")
    return x[tuple(sl)]


def m_nearest(env, v, kw):
    x = env.number(v[0])
    r = math.floor(x + .5)
    if abs(x - math.floor(x) - .5) < 1e-6:
        raise Stuck("tie")
    return float(r)


def m_slab(env, v, kw):
    """Reference operation: the one-bin-thick slice at a bin of an axis."""
    x = env.nd(v[0])
    a, i = env.integer(v[1]), env.integer(v[2])
    if not (0 <= a < x.ndim and 0 <= i < x.shape[a]):
        raise Stuck("slab")
    return np.take(x, [i], axis=a)


def m_addslab(env, v, kw):
    """Reference operation: the array with that slice increased."""
    x = np.array(env.nd(v[0]), dtype=float)
    a, i = env.integer(v[1]), env.integer(v[2])
    if not (0 <= a < x.ndim and 0 <= i < x.shape[a]):
        raise Stuck("slab")
    sl = [slice(None)] * x.ndim
    sl[a] = slice(i, i + 1)
    x[tuple(sl)] += env.nd(v[3])
    return x


def m_edge(fn):
    def f(env, v, kw):
        x = env.number(v[0])
        r = float(np.rint(x))
        return r if abs(x - r) < 1e-3 else float(fn(x))
    return f


def m_sumall(env, v, kw):
    return float(np.sum(env.nd(v[0])))


def m_tostr(env, v, kw):
    x = v[0]
    if isinstance(x, str):
        return x
    if isinstance(x, Int):
        return "%d" % x
    if isinstance(x, Flt):
        return repr(float(x))
    return NotImplemented


def m_type(env, v, kw):
    t = typename(v[0])
    return NotImplemented if t is None else Obj("fn:" + t, t)


def m_isinstance(env, v, kw):
    t = typename(v[0])
    if t is None or not isinstance(v[1], Obj):
        return NotImplemented
    n = v[1].key
    if not n.startswith("fn:"):
        return False if n.startswith("cls:") else NotImplemented
    if n[3:] in ISA[t]:
        return True
    if t == "number":
        return False if n[3:] in NOTNUM else NotImplemented
    return False if n[3:] in NOTA else NotImplemented


MODELS = {"collections.OrderedDict": m_mapping(ODict),
          "dict": m_mapping(dict), "type": m_type, "itertools.product": m_product, "str": m_tostr, "isinstance": m_isinstance, "ref.SLICED": m_sliced,
          "ref.NEAREST": m_nearest, "ref.SLAB": m_slab, "ref.ADDSLAB": m_addslab, "ref.LOWEDGE": m_edge(np.floor),
          "ref.HIGHEDGE": m_edge(np.ceil), "ref.SUMALL": m_sumall,
          "ref.KEEP": m_keep, "ref.REBINNED": m_rebinned, "join": m_join, "str.join": m_join, "keys": m_keys,
          "sorted": m_sorted, "reversed": m_reversed, "sumax": m_sumax,
          "reshape": m_reshape, "numpy.reshape": m_reshape,
          "numpy.ravel": m_ravel, "numpy.zeros": m_full(0.),
          "numpy.ones": m_full(1.), "numpy.full": m_full(None),
          "numpy.linspace": m_linspace, "numpy.logspace": m_logspace,
          "numpy.arange": m_arange, "numpy.append": m_append,
          "round": m_round, "numpy.rint": m_rint,
          "exp": m_unary(np.exp), "log": m_unary(np.log),
          "abs": m_unary(np.abs), "floor": m_unary(np.floor),
          "ceil": m_unary(np.ceil)}
for _n in ("log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "arccos",
           "arcsin", "arctan", "sinh", "cosh", "tanh", "sign", "square",
           "cbrt", "exp2", "degrees", "radians", "fabs", "trunc"):
    MODELS["numpy." + _n] = m_elem(getattr(np, _n))
for _n in ("log10", "log1p", "sin", "cos", "tan", "fabs", "trunc"):
    MODELS["math." + _n] = MODELS["numpy." + _n]
for _n in ("min", "max", "argmin", "argmax", "nanmin", "nanmax",
           "nanargmin", "nanargmax", "mean", "prod", "std", "sum",
           "nansum"):
    MODELS["numpy." + _n] = m_reduce(getattr(np, _n))
    MODELS["." + _n] = MODELS["numpy." + _n]
for _n, _w in (("isnan", ()), ("isinf", ()), ("isfinite", ()),
               ("concatenate", ()), ("insert", (1,)), ("delete", (1,)),
               ("take", (1,)), ("expand_dims", (1,)), ("squeeze", ()),
               ("cumsum", ()), ("cumprod", ()), ("diff", ()), ("flip", ()),
               ("hstack", ()), ("vstack", ()), ("column_stack", ()),
               ("nan_to_num", ()), ("maximum", ()), ("minimum", ())):
    if "numpy." + _n not in MODELS:
        MODELS["numpy." + _n] = m_through(getattr(np, _n), _w)
for _n, _w in (("unique", ()), ("sort", ("axis",)), ("argsort", ()),
               ("clip", ()), ("median", ()), ("roll", (1,)),
               ("repeat", (1,)), ("tile", (1,)), ("var", ()), ("dot", ()),
               ("outer", ()), ("searchsorted", ()), ("average", ()),
               ("hypot", ()), ("fmin", ()), ("fmax", ()), ("ptp", ()),
               ("reciprocal", ()), ("negative", ()), ("positive", ()),
               ("isin", ()), ("in1d", ()), ("array_equal", ()),
               ("union1d", ()), ("intersect1d", ()), ("setdiff1d", ()),
               ("fliplr", ()), ("flipud", ()), ("atleast_1d", ()),
               ("atleast_2d", ()), ("meshgrid", ()), ("interp", ()),
               ("trapz", ()), ("histogram", ()), ("digitize", ()),
               ("nancumsum", ()), ("nanmean", ()), ("nanstd", ())):
    if "numpy." + _n not in MODELS and hasattr(np, _n):
        MODELS["numpy." + _n] = m_through(getattr(np, _n), _w)
for _n in ("squeeze", "clip", "cumsum", "cumprod", "repeat", "take", "dot",
           "var", "argsort", "searchsorted", "swapaxes"):
    if "." + _n not in MODELS:
        MODELS["." + _n] = m_through(getattr(np, _n), (1,))
MODELS["numpy.amin"] = MODELS["numpy.min"]
MODELS["numpy.amax"] = MODELS["numpy.max"]
MODELS[".ravel"] = MODELS[".flatten"] = MODELS["numpy.ravel"] = m_flat


def m_get(env, v, kw):
    if not isinstance(v[0], dict):
        return NotImplemented
    k = env.key(v[1])
    if k in v[0]:
        return v[0][k][1]
    return v[2] if len(v) > 2 else kw.get("default")


MODELS[".get"] = m_get
for _n in ("sorted", "min", "max"):
    MODELS[_n + "by"] = m_by(_n)
MODELS[".transpose"] = MODELS["numpy.transpose"] = m_transpose
MODELS[".reshape"] = m_mreshape
MODELS["numpy.unravel_index"] = m_unravel
for _n in ("split", "rsplit", "strip", "rstrip", "lstrip", "lower", "upper",
           "startswith", "endswith", "replace", "title", "find", "rfind",
           "isdigit", "count", "index", "partition", "rpartition"):
    MODELS["str." + _n] = m_str(_n)
    MODELS["." + _n] = m_str(_n)
for _n in ("basename", "dirname", "splitext", "join", "split", "normpath"):
    MODELS["os.path." + _n] = m_path(_n)


_KW = {}


def takes_kw(m):
    """Does the model look at the keyword arguments it is given?"""
    r = _KW.get(m)
    if r is None:
        c = m.__code__
        name = c.co_varnames[2] if c.co_argcount > 2 else None
        r = _KW[m] = any(i.argval == name for i in dis.get_instructions(m)
                         if i.opname.startswith("LOAD")) or \
            name in c.co_cellvars
    return r


class _Box(object):
    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __eq__(self, o):
        return isinstance(o, _Box) and o.k == self.k

    def __lt__(self, o):
        return self.k < getattr(o, "k", "")

    def __hash__(self):
        return hash(self.k)


class _Slice(object):
    def __init__(self, x):
        self.x = x
        self.s = slice(*x)

    def __repr__(self):
        return "slice%r" % (self.x,)


def neg(v):
    """v < 0, where differences of rounding size count as zero."""
    return v < -1e-11 or -1e-30 < v < 0


def close(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) or \
        (a != a and b != b)


# ---------------------------------------------------------------- vocabulary
def call_names(*terms):
    out = set()
    for t in terms:
        if not isinstance(t, T.Term):
            continue
        for x in T.walk(t):
            if x.op == "call":
                out.add(x.args[0])
            elif x.op == "mcall":
                out.add(x.args[1])
    return out


def string_consts(*terms):
    out = set()
    for t in terms:
        for x in T.walk(t):
            if x.op in ("eq",):
                for y in x.args:
                    if y.op == "str":
                        out.add(y.args[0])
    return sorted(out)


def specials(*terms):
    """Values around the numeric constants of the terms."""
    cs = set((0., 1.))
    for t in terms:
        for x in T.walk(t):
            if x.op == "num":
                cs.add(float(x.args[0]))
            elif x.op == "poly":
                for m, c in x.args[0]:
                    if abs(c) != 1 or not m:
                        cs.add(abs(float(c)))
    out = set()
    for c in cs:
        if abs(c) < 1e4 and (abs(c) > 1e-4 or c == 0):
            out.update((c, c, 1.1 * c, 0.9 * c))
            if c:
                out.add(-c)
    return tuple(sorted(out))


def compare(code, ref, assume=(), hints=None, n=60, extra_vocab=()):
    """('equal'|'same'|'differ'|'unknown', detail)"""
    if T.equal(code, ref):
        return "equal", "identical normal forms"
    vocab = call_names(ref) | set(extra_vocab)
    strs = string_consts(code, ref, *assume)
    special = specials(code, ref, *assume)
    good = unknown = 0
    why = ""
    for s in range(n * 6):
        if good >= n or unknown >= n * 2:
            break
        env = Env(s, hints, vocab, strs, special=special)
        try:
            env.vocab = None
            if not all(env.bool(c) for c in assume):
                continue
            r = env.ev(ref)
            env.key(r)
        except (Stuck, Unknown):
            continue
        env.vocab = vocab
        env.memo = {}
        try:
            c = env.ev(code)
            if env.same(c, r):
                good += 1
                continue
            return "differ", "sample %d: code gives %s, required %s" % (
                s, env.show(c), env.show(r))
        except Unknown as e:
            unknown += 1
            why = str(e)
        except Stuck as e:
            # the code has no value where the specification has one
            if str(e) in ("division by zero", "log of non-positive"):
                return "differ", "sample %d: code fails (%s), required %s" \
                    % (s, e, env.show(r))
            unknown += 1
            why = str(e)
    if good >= max(4, n // 6) and not unknown:
        return "same", "%d random interpretations agree" % good
    return "unknown", why or "no sample in domain"
