"""Hash-consed value-graph terms with an algebraic normal form.

Terms are the abstract values of the value-flow analysis.  Arithmetic is kept
as multivariate polynomials (rational exponents) over atoms, so two source
fragments that compute the same expression get the same node however they are
written.  A conditional value is turned, in arithmetic, into a polynomial in
0/1 indicator atoms of its condition, so piecewise formulas normalise too.
"""
import hashlib
from fractions import Fraction

_TABLE = {}
MAX_MONO = 1500


class Term(object):
    __slots__ = ("op", "args", "key", "_h", "_unk", "size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h


def _k(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_k(x) for x in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def _size(args):
    n = 1
    for a in args:
        if isinstance(a, Term):
            n += a.size
        elif isinstance(a, tuple):
            n += _size(a)
    return n


BIG = 150


def raw(op, *args):
    text = op + "|" + "|".join(_k(a) for a in args)
    key = hashlib.md5(text.encode("utf-8", "replace")).hexdigest()
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.key = key
        t._h = hash(key)
        t._unk = None
        t.size = min(10 ** 9, _size(args))
        _TABLE[key] = t
    return t


def children(t):
    out = []

    def rec(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    for a in t.args:
        rec(a)
    return out


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def has_unk(t):
    if t._unk is None:
        t._unk = t.op == "unk" or any(has_unk(c) for c in children(t))
    return t._unk


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None
        if x is None:
            return raw("sym", "nonfinite")
    return raw("num", Fraction(x))


def string(s):
    return raw("str", s)


TRUE = raw("bool", True)
FALSE = raw("bool", False)
NONE = raw("none")
ZERO = num(0)
ONE = num(1)


def boolean(b):
    return TRUE if b else FALSE


def sym(name):
    return raw("sym", name)


_unk_n = [0]


def unk(reason):
    _unk_n[0] += 1
    return raw("unk", reason, _unk_n[0])


def is_const(t):
    return t.op in ("num", "str", "bool", "none")


def val(t):
    """Strip identity wrappers: the value an expression denotes."""
    while t.op in ("mut", "copy"):
        t = t.args[-1]
    return t


def ptr(t):
    """Identity of the object an expression denotes."""
    while t.op == "mut":
        t = t.args[0]
    return t


def mut(p, v):
    p = ptr(p)
    if p.op in ("sym", "attr", "attrv", "idx", "new", "copy", "ite", "key"):
        return raw("mut", p, val(v))
    return v


# ---------------------------------------------------------------- booleans
_LNOT = {}


def lnot(c):
    r = _LNOT.get(c)
    if r is None:
        r = _LNOT[c] = _lnot(c)
    return r


def _lnot(c):
    if c.op == "bool":
        return boolean(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "lt0":
        return le0(pneg(c.args[0]))
    if c.op == "le0":
        return lt0(pneg(c.args[0]))
    if c.op == "and":
        return lor(*[lnot(x) for x in c.args[0]])
    if c.op == "or":
        return land(*[lnot(x) for x in c.args[0]])
    if c.op == "forall":
        return raw("exists", c.args[0], lnot(c.args[1]))
    if c.op == "exists":
        return raw("forall", c.args[0], lnot(c.args[1]))
    if c.op == "ite":
        return ite(c.args[0], lnot(truth(c.args[1])), lnot(truth(c.args[2])))
    return raw("not", c)


def _assoc(op, unit, zero, xs):
    out = {}
    for x in xs:
        x = truth(x)
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            for y in x.args[0]:
                out[y.key] = y
        else:
            out[x.key] = x
    for x in list(out.values()):
        if lnot(x).key in out:
            return zero
    # absorption / unit resolution
    dual = "or" if op == "and" else "and"
    changed = True
    while changed:
        changed = False
        for x in list(out.values()):
            if x.op == dual:
                parts = x.args[0]
                if any(p.key in out for p in parts):
                    del out[x.key]
                    changed = True
                    break
                keep = [p for p in parts if lnot(p).key not in out]
                if len(keep) != len(parts):
                    del out[x.key]
                    y = (lor if dual == "or" else land)(*keep)
                    if y is zero:
                        return zero
                    if y is not unit:
                        if y.op == op:
                            for z in y.args[0]:
                                out[z.key] = z
                        else:
                            out[y.key] = y
                    changed = True
                    break
    if not out:
        return unit
    if len(out) == 1:
        return list(out.values())[0]
    return raw(op, tuple(out[k] for k in sorted(out)))


_JOINED = {}


def land(*xs):
    k = ("and", xs)
    r = _JOINED.get(k)
    if r is None:
        r = _JOINED[k] = _assoc("and", TRUE, FALSE, xs)
    return r


def lor(*xs):
    k = ("or", xs)
    r = _JOINED.get(k)
    if r is None:
        r = _JOINED[k] = _assoc("or", FALSE, TRUE, xs)
    return r


BOOL_OPS = {"bool", "not", "and", "or", "lt0", "le0", "eq0", "eq", "is", "in",
            "truthy", "forall", "exists", "exc", "isnone"}


def truth(t):
    t = val(t)
    if t.op in BOOL_OPS:
        return t
    if t.op == "num":
        return boolean(t.args[0] != 0)
    if t.op == "str":
        return boolean(bool(t.args[0]))
    if t.op == "none":
        return FALSE
    if t.op in ("list", "tuple"):
        return boolean(bool(t.args[0]))
    if t.op == "ite":
        return lor(land(t.args[0], truth(t.args[1])),
                   land(lnot(t.args[0]), truth(t.args[2])))
    if t.op == "call" and t.args[0] in ("isinstance", "numpy.allclose",
                                        "numpy.isclose", "hasattr",
                                        "callable", "any", "all"):
        return raw("truthy", t)
    if t.op in ("cls", "func", "fn", "bound", "new", "closure"):
        return TRUE
    return raw("truthy", t)


def facts(c):
    if c.op == "and":
        return list(c.args[0])
    if c is TRUE:
        return []
    return [c]


# ---------------------------------------------------------------- polynomials
# dict: monomial -> Fraction ; monomial: tuple of (atom, Fraction exp) sorted
def _mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda p: p[0].key))


class TooBig(Exception):
    pass


def to_poly(t):
    t = val(t)
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == "poly":
        return dict((m, c) for m, c in t.args[0])
    if t.op == "ite" and t.size <= BIG:
        c, a, b = t.args
        pc = ind_poly(c)
        pa, pb = to_poly(a), to_poly(b)
        return padd(pb, pmul(pc, padd(pa, pscale(pb, -1))))
    if t.op in BOOL_OPS:
        return ind_poly(t)
    return {((t, Fraction(1)),): Fraction(1)}


def ind_poly(c):
    c = truth(c)
    if c is TRUE:
        return {(): Fraction(1)}
    if c is FALSE:
        return {}
    if c.op == "not":
        return padd({(): Fraction(1)}, pscale(ind_poly(c.args[0]), -1))
    if c.op == "le0":
        return padd({(): Fraction(1)},
                    pscale(ind_poly(lt0(pneg(c.args[0]))), -1))
    if c.op == "and":
        out = {(): Fraction(1)}
        for x in c.args[0]:
            out = pmul(out, ind_poly(x))
        return out
    if c.op == "or":
        out = {(): Fraction(1)}
        for x in c.args[0]:
            out = pmul(out, padd({(): Fraction(1)},
                                 pscale(ind_poly(x), -1)))
        return padd({(): Fraction(1)}, pscale(out, -1))
    if c.op == "exists":
        return padd({(): Fraction(1)}, pscale(ind_poly(lnot(c)), -1))
    return {((raw("ind", c), Fraction(1)),): Fraction(1)}


def padd(a, b):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def pscale(a, k):
    k = Fraction(k)
    if k == 0:
        return {}
    return dict((m, c * k) for m, c in a.items())


def mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    expand = None
    for a in list(d):
        if a.op == "ind":
            d[a] = Fraction(1)
        elif a.op == "num" and d[a] not in (0,) and d[a].denominator == 1:
            pass
        elif a.op == "poly" and d[a] > 0 and d[a].denominator == 1:
            expand = (expand or []) + [(a, d.pop(a))]
    return _mono(d), expand


def pmul(a, b):
    if len(a) * len(b) > MAX_MONO * 8:
        raise TooBig()
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, expand = mmul(m1, m2)
            p = {m: c1 * c2}
            # fold numeric surds with integer exponent back to coefficients
            if any(x.op == "num" and e.denominator == 1 for x, e in m):
                d = dict(m)
                c = c1 * c2
                for x in list(d):
                    if x.op == "num" and d[x].denominator == 1:
                        c *= x.args[0] ** int(d[x])
                        del d[x]
                p = {_mono(d): c}
            if expand:
                for x, e in expand:
                    for _ in range(int(e)):
                        p = pmul(p, to_poly(x))
            for mm, cc in p.items():
                v = out.get(mm, 0) + cc
                if v == 0:
                    out.pop(mm, None)
                else:
                    out[mm] = v
    if len(out) > MAX_MONO:
        raise TooBig()
    return out


def from_poly(p):
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda it: _k(it[0]))
    return raw("poly", tuple((m, c) for m, c in items))


def add(*ts):
    try:
        out = {}
        for t in ts:
            out = padd(out, to_poly(t))
        return from_poly(out)
    except TooBig:
        return raw("call", "+big", tuple(ts), ())


_NEG = {}


def neg(t):
    r = _NEG.get(t)
    if r is None:
        r = _NEG[t] = from_poly(pscale(to_poly(t), -1))
    return r


def pneg(t):
    return neg(t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    try:
        out = {(): Fraction(1)}
        for t in ts:
            out = pmul(out, to_poly(t))
        return from_poly(out)
    except TooBig:
        return raw("call", "*big", tuple(ts), ())


def div(a, b):
    return mul(a, power(b, num(-1)))


def indicators(p):
    out = {}
    for m in p:
        for a, e in m:
            if a.op == "ind":
                out[a.key] = a
    return [out[k] for k in sorted(out)]


def assign_ind(p, a, v):
    """Substitute indicator atom a := v (0/1) in polynomial dict p."""
    out = {}
    for m, c in p.items():
        if any(x is a for x, _ in m):
            if v == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        w = out.get(m, 0) + c
        if w == 0:
            out.pop(m, None)
        else:
            out[m] = w
    return out


def lift(t, f, depth=0):
    """Apply scalar function f to t, distributing over its case splits."""
    t = val(t)
    if t.op == "ite":
        c = t.args[0]
        return from_poly(padd(to_poly(lift(t.args[2], f, depth + 1)), pmul(
            ind_poly(c), padd(to_poly(lift(t.args[1], f, depth + 1)),
                              pscale(to_poly(lift(t.args[2], f, depth + 1)),
                                     -1)))))
    if t.op == "poly" and depth < 7:
        p = to_poly(t)
        inds = indicators(p)
        if inds:
            a = inds[0]
            hi = to_poly(lift(from_poly(assign_ind(p, a, 1)), f, depth + 1))
            lo = to_poly(lift(from_poly(assign_ind(p, a, 0)), f, depth + 1))
            ia = {((a, Fraction(1)),): Fraction(1)}
            try:
                return from_poly(padd(lo, pmul(ia, padd(hi,
                                                        pscale(lo, -1)))))
            except TooBig:
                return f(t)
    return f(t)


def _content(p):
    """(coefficient, monomial dict, primitive poly)"""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                # atom absent: exponent 0
                common[a] = min(common[a], Fraction(0))
            else:
                common[a] = min(common[a], d[a])
        for a in d:
            if a not in common:
                common[a] = min(Fraction(0), d[a])
    common = dict((a, e) for a, e in common.items() if e != 0)
    inv = dict((a, -e) for a, e in common.items())
    prim = {}
    for m, c in p.items():
        d = dict(m)
        for a, e in inv.items():
            d[a] = d.get(a, 0) + e
        prim[_mono(d)] = c
    lead = prim[sorted(prim, key=_k)[0]]
    prim = pscale(prim, 1 / lead)
    return lead, common, prim


def _num_pow(c, e):
    """c**e for Fractions -> polynomial dict"""
    if e.denominator == 1:
        return {(): Fraction(c) ** int(e)}
    if c > 0:
        r = float(c) ** (1.0 / e.denominator)
        n = Fraction(r).limit_denominator(10 ** 6)
        if n ** e.denominator == c:
            return {(): n ** e.numerator}
    return {((num(c), e),): Fraction(1)}


def power(base, exp):
    base, exp = val(base), val(exp)
    if exp.op != "num":
        if base.op == "num" and base.args[0] == 1:
            return ONE
        return raw("pow", base, exp)
    e = exp.args[0]
    if e == 0:
        return ONE
    if e == 1:
        return base if base.op != "ite" else base

    def f(b):
        p = to_poly(b)
        if not p:
            return ZERO if e > 0 else raw("pow", ZERO, exp)
        if len(p) == 1:
            (m, c), = p.items()
            d = dict((a, x * e if a.op != "ind" else Fraction(1))
                     for a, x in m)
            return from_poly(pmul(_num_pow(c, e), {_mono(d): Fraction(1)}))
        if e.denominator == 1 and 0 < e <= 4:
            out = {(): Fraction(1)}
            for _ in range(int(e)):
                out = pmul(out, p)
            return from_poly(out)
        c, common, prim = _content(p)
        sign = 1
        if c < 0 and e.denominator != 1:
            # keep sign inside
            prim = pscale(prim, -1)
            c = -c
        d = dict((a, x * e) for a, x in common.items())
        atom = from_poly(prim)
        d[atom] = d.get(atom, Fraction(0)) + e
        return from_poly(pmul(_num_pow(c, e), {_mono(d): Fraction(1)}))
    try:
        return lift(base, f)
    except TooBig:
        return raw("pow", base, exp)


def log(x):
    def f(b):
        p = to_poly(b)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op == "call" and a.args[0] == "exp":
                    return a.args[1][0]
                return raw("call", "log", (a,), ())
            if c > 0:
                out = {}
                if c > 1:
                    out = to_poly(raw("call", "log", (num(c),), ()))
                elif c < 1:
                    out = pscale(to_poly(raw("call", "log", (num(1 / c),),
                                             ())), -1)
                for a, e in m:
                    out = padd(out, pscale(to_poly(log(a)), e))
                return from_poly(out)
        return raw("call", "log", (b,), ())
    x = val(x)
    if x.op == "num":
        c = x.args[0]
        if c == 1:
            return ZERO
        if 0 < c < 1:
            return neg(raw("call", "log", (num(1 / c),), ()))
        return raw("call", "log", (x,), ())
    return lift(x, f)


def lt0(p):
    return _cmp0("lt0", p)


def le0(p):
    return _cmp0("le0", p)


def _cmp0(op, t):
    t = val(t)
    if t.op == "num":
        return boolean(t.args[0] < 0 if op == "lt0" else t.args[0] <= 0)
    p = to_poly(t)
    if not p:
        return boolean(op == "le0")
    inds = indicators(p)
    if inds and len(inds) <= 6:
        a = inds[0]
        hi = _cmp0(op, from_poly(assign_ind(p, a, 1)))
        lo = _cmp0(op, from_poly(assign_ind(p, a, 0)))
        if hi is lo:
            return hi
        return lor(land(a.args[0], hi), land(lnot(a.args[0]), lo))
    items = sorted(p.items(), key=lambda it: _k(it[0]))
    scale = abs(items[0][1])
    return raw(op, from_poly(pscale(p, 1 / scale)))


def _texty(t, depth=4):
    if t.op == "ite" and depth:
        return _texty(val(t.args[1]), depth - 1) or _texty(
            val(t.args[2]), depth - 1)
    return t.op in ("str", "concat") or t.op == "call" and \
        t.args[0].startswith("str")


def eq(a, b):
    a, b = val(a), val(b)
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == "num" and b.op == "bool" or a.op == "bool" and b.op == "num":
            pass
        else:
            return FALSE
    if a.op == "ite" and is_const(b):
        return lor(land(a.args[0], eq(a.args[1], b)),
                   land(lnot(a.args[0]), eq(a.args[2], b)))
    if b.op == "ite" and is_const(a):
        return eq(b, a)
    nonnum = ("str", "none", "list", "tuple", "dict", "concat", "cls")
    if a.op in nonnum or b.op in nonnum or _texty(a) or _texty(b):
        x, y = sorted((a, b), key=lambda t: t.key)
        return raw("eq", x, y)
    p = to_poly(sub(a, b))
    if not p:
        return TRUE
    if len(p) == 1 and () in p:
        return FALSE
    items = sorted(p.items(), key=lambda it: _k(it[0]))
    return raw("eq0", from_poly(pscale(p, 1 / items[0][1])))


def is_none(t):
    t0 = t
    t = val(t)
    if t is NONE:
        return TRUE
    if is_const(t) or t.op in ("poly", "list", "tuple", "dict", "new", "cls",
                               "concat", "fmap", "map", "sum", "func",
                               "dictmap", "closure", "bound"):
        return FALSE
    if t0.op == "copy" or t.op == "store":
        return FALSE
    if t.op == "ite":
        return lor(land(t.args[0], is_none(t.args[1])),
                   land(lnot(t.args[0]), is_none(t.args[2])))
    if t.op == "call" and t.args[0].startswith("numpy."):
        return FALSE
    return raw("isnone", t)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "le0":
        return ite(lnot(c), b, a)
    # prune nested same conditions
    a = _prune(a, c, True)
    b = _prune(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if a.op == "mut" and b is a.args[0]:
        return raw("mut", b, ite(c, a.args[1], val(b)))
    if b.op == "mut" and a is b.args[0]:
        return raw("mut", a, ite(c, val(a), b.args[1]))
    if a.op == "mut" and b.op == "mut" and a.args[0] is b.args[0]:
        return raw("mut", a.args[0], ite(c, a.args[1], b.args[1]))
    return raw("ite", c, a, b)


def _prune(t, c, v):
    n = 0
    while t.op == "ite" and n < 50:
        n += 1
        if t.args[0] is c:
            t = t.args[1] if v else t.args[2]
        else:
            cs = facts(c) if v else facts(lnot(c))
            if any(f is t.args[0] for f in cs):
                t = t.args[1]
            elif any(lnot(f) is t.args[0] for f in cs):
                t = t.args[2]
            else:
                break
    return t


# ---------------------------------------------------------------- strings
def concat(parts):
    out = []

    def push(x):
        x = val(x)
        if x.op == "concat":
            for y in x.args[0]:
                push(y)
            return
        if x.op == "call" and x.args[0] == "str" and len(x.args[1]) == 1:
            push(x.args[1][0])
            return
        if x.op == "num" and x.args[0].denominator == 1:
            x = string(str(x.args[0]))
        if x.op == "str":
            if x.args[0] == "":
                return
            if out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + x.args[0])
                return
        out.append(x)
    for p in parts:
        push(p)
    if not out:
        return string("")
    if len(out) == 1 and out[0].op in ("str",):
        return out[0]
    return raw("concat", tuple(out))


# ---------------------------------------------------------------- binders
def max_bv(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    m = 0
    if t.op in ("bv", "racc", "acc"):
        m = t.args[0]
    elif t.op == "recur":
        m = t.args[5]
    for c in children(t):
        m = max(m, max_bv(c, memo))
    memo[t] = m
    return m


_FREE = {}
_HEIGHT = {"map": 2, "fmap": 3, "flatmap": 3, "strmap": 2, "arrmap": 4,
           "dictmap": 3, "stores": 5, "fold": 3, "recur": 5}


def free_bv(t):
    """Heights of the bound variables that occur free in t."""
    r = _FREE.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("bv", "racc", "acc"):
        r = frozenset([t.args[0]])
    elif o in ("sum", "prod", "forall", "exists", "first"):
        b = frozenset().union(*[free_bv(x) for x in t.args[1:]
                                if isinstance(x, Term)])
        if b:
            b = b - {min(b)}
        r = b | free_bv(t.args[0])
    else:
        r = frozenset().union(*[free_bv(c) for c in children(t)])
        if o in _HEIGHT:
            r = r - {t.args[_HEIGHT[o]]}
        elif o == "last":
            r = r - {t.args[1].args[0]} if t.args[1].op == "bv" else r
    _FREE[t] = r
    return r


_USED = {}
_IMPLICIT = ("sum", "prod", "forall", "exists", "first")


def used_bv(t):
    """Every binder height that occurs in t, free or bound."""
    r = _USED.get(t)
    if r is not None:
        return r
    l = [used_bv(c) for c in children(t)]
    if t.op in ("bv", "racc", "acc"):
        l.append(frozenset([t.args[0]]))
    elif t.op in _HEIGHT:
        l.append(frozenset([t.args[_HEIGHT[t.op]]]))
    l = [x for x in l if x]
    r = l[0] if len(l) == 1 else frozenset().union(*l)
    _USED[t] = r
    return r


_KEYS = {}


def bound_keys(t):
    """What the value of t may depend on among bound and loop variables."""
    r = _KEYS.get(t)
    if r is None:
        r = set()
        for h in used_bv(t):
            r.add(h)
            r.add("acc%s" % h)
        for x in walk(t):
            if x.op == "lv":
                r.add("lv%s" % x.args[0])
        _KEYS[t] = r
    return r


def height(*bodies):
    """A height no binder in bodies uses, below those bound outside."""
    used = frozenset().union(*[used_bv(b) for b in bodies])
    free = frozenset().union(*[free_bv(b) for b in bodies])
    if not free:
        return 1 + max(used or (0,))
    top = min(free)
    low = max([x for x in used if x < top] or [0])
    return low + 1 if low + 1 < top else (Fraction(low) + top) / 2


def bind(lv, *bodies):
    """Replace loop variable lv by the next bound variable, canonically."""
    bv = raw("bv", height(*bodies))
    return (bv,) + tuple(subst(b, {lv: bv}) for b in bodies)


def mk_sum(dom, lv, body):
    """sum over lv in range(dom) of body"""
    p = to_poly(body)
    out = {}
    for m, c in p.items():
        indep = tuple((a, e) for a, e in m
                      if not contains(a, lambda x: x is lv))
        dep = tuple((a, e) for a, e in m if (a, e) not in indep)
        if not dep:
            piece = to_poly(mul(from_poly({indep: c}), dom))
        else:
            _, b = bind(lv, from_poly({dep: Fraction(1)}))
            piece = {_mono(dict(indep + ((raw("sum", dom, b),
                                          Fraction(1)),))): c}
        out = padd(out, piece)
    return from_poly(out)


def resum(dom, body, h=None):
    """Rebuild a sum term whose body already uses bv (after a subst)."""
    lv = raw("lv", "resum%d" % next_id())
    if h is None:
        h = min(free_bv(body) or (0,))
    b = raw("bv", h)
    return mk_sum(dom, lv, subst(body, {b: lv}))


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


# ---------------------------------------------------------------- indexing
MULEN = {}      # loop variable -> the length every iteration keeps


def arraylen(t):
    """Length of an array built with a known length, else None."""
    t = val(t)
    if t.op == "call" and t.args[0] in ("numpy.zeros", "numpy.ones",
                                        "numpy.empty") and t.args[1]:
        s = val(t.args[1][0])
        if s.op == "tuple" and s.args[0]:
            s = val(s.args[0][0])
        return int(s.args[0]) if s.op == "num" else None
    if t.op in ("store", "stores", "arrmap"):
        return arraylen(t.args[0])
    if t.op == "mu":
        return MULEN.get(t)
    if t.op == "fold":
        n = arraylen(t.args[1])
        acc = raw("acc", t.args[3])
        if n is None or acc in MULEN:
            return None
        MULEN[acc] = n
        try:
            return n if arraylen(t.args[2]) == n else None
        finally:
            del MULEN[acc]
    if t.op in ("acc", "racc"):
        return MULEN.get(t)
    if t.op == "last":
        return arraylen(t.args[2])
    if t.op == "recur" and t.args[6] != "n":
        dom, ini, body, cs, xs, hgt, j = t.args
        ns = [arraylen(x) for x in ini]
        accs = [raw("racc", hgt, num(i)) for i in range(len(ini))]
        if ns[j] is None or any(a in MULEN for a in accs):
            return None
        MULEN.update((a, n) for a, n in zip(accs, ns) if n is not None)
        try:
            return ns[j] if all(
                arraylen(x[j]) == ns[j] for x in (body,) + tuple(xs)) \
                else None
        finally:
            for a in accs:
                MULEN.pop(a, None)
    if t.op == "ite":
        a = arraylen(t.args[1])
        return a if a is not None and a == arraylen(t.args[2]) else None
    return None


def length(t):
    t = val(t)
    if t.op in ("mu", "fold", "stores", "last", "recur", "acc", "racc"):
        n = arraylen(t)
        if n is not None:
            return num(n)
    if t.op in ("list", "tuple"):
        return num(len(t.args[0]))
    if t.op == "str":
        return num(len(t.args[0]))
    if t.op == "map":
        return t.args[0]
    if t.op == "store":
        return length(t.args[0])
    if t.op == "arrmap":
        return length(t.args[0])
    if t.op == "ite":
        a, b = length(t.args[1]), length(t.args[2])
        return ite(t.args[0], a, b)
    if t.op == "call" and t.args[0] in ("numpy.zeros", "numpy.ones",
                                        "numpy.empty") and t.args[1]:
        s = t.args[1][0]
        if s.op == "tuple" and s.args[0]:
            return s.args[0][0]
        if s.op in ("num", "len", "attr"):
            return s
    if t.op == "call" and t.args[0] in ("sorted", "reversed", "numpy.sort"):
        return length(t.args[1][0])
    if t.op == "call" and t.args[0] == "keys":
        return raw("len", t.args[1][0])
    return raw("len", t)


def idx(base, i):
    b0 = base
    base, i = val(base), val(i)
    if base.op == "concatl":
        parts = base.args[0]
        if i.op == "num" and parts and parts[0].op in ("list", "tuple") and \
                0 <= i.args[0] < len(parts[0].args[0]):
            return parts[0].args[0][int(i.args[0])]
    if base.op in ("list", "tuple") and i.op == "num" and \
            i.args[0].denominator == 1:
        n = int(i.args[0])
        items = base.args[0]
        if -len(items) <= n < len(items):
            return items[n]
    if base.op == "dict" and is_const(i):
        for k, v in base.args[0]:
            if k is i:
                return v
    if base.op == "map":
        if i.op != "slice":
            return subst(base.args[1],
                         {raw("bv", max(1, base.args[2])): i})
    if base.op == "arrmap":
        # (init, dom, idxbody, body, h): full sweep over index = loop var
        init, dom, ib, body, h = base.args
        if ib.op == "bv" and i.op != "slice":
            return subst(body, {raw("bv", h): i})
    if base.op == "dictmap" and i.op != "slice":
        # key expr is key(src,k): lookup with matching key term
        dom, kb, vb, h = base.args
        if kb.op == "key" and i.op == "key" and kb.args[0] is i.args[0]:
            return subst(vb, {raw("bv", h): i.args[1]})
        if kb.op == "idx" and i.op == "idx" and kb.args[0] is i.args[0] and \
                kb.args[1].op == "bv":
            return subst(vb, {raw("bv", h): i.args[1]})
        if kb.op == "bv":
            return subst(vb, {raw("bv", h): i})
        if kb.op == "key" and kb.args[1].op == "bv":
            # a value that depends on its key only, read from the same keys
            w = subst(vb, {kb: i})
            if not contains(w, lambda x: x is kb.args[1]) and contains(
                    w, lambda x: x.op == "idx" and x.args[1] is i and
                    x.args[0] is kb.args[0]):
                return w
    if base.op == "store":
        if base.args[1] is i:
            return base.args[2]
        if is_const(base.args[1]) and is_const(i):
            return idx(base.args[0], i)
    if base.op == "ite":
        return ite(base.args[0], idx(base.args[1], i), idx(base.args[2], i))
    if base.op == "call" and base.args[0] == "keys" and i.op != "num":
        return raw("key", base.args[1][0], i)
    if base.op == "str" and i.op == "num" and i.args[0].denominator == 1:
        try:
            return string(base.args[0][int(i.args[0])])
        except IndexError:
            pass
    if i.op == "slice" and base.op in ("list", "tuple", "str") and all(
            a.op in ("num", "none") for a in i.args):
        sl = slice(*[None if a.op == "none" else int(a.args[0])
                     for a in i.args])
        if base.op == "str":
            return string(base.args[0][sl])
        return raw(base.op, base.args[0][sl])
    if base.op == "concat" and i.op == "slice" and \
            i.args[0].op in ("none",) and i.args[1] is num(-1) and \
            i.args[2] is NONE:
        parts = list(base.args[0])
        last = parts[-1]
        if last.op == "str":
            parts[-1] = string(last.args[0][:-1])
        else:
            parts[-1] = raw("chop", last)
        return concat(parts)
    if base.op == "poly" and i.op != "slice" and array_like(base):
        return elementwise(base, i)
    if base.op == "call" and base.args[0] in ("log", "exp", "abs") and \
            array_like(base.args[1][0]):
        inner = idx(base.args[1][0], i)
        return FUNS[base.args[0]](inner)
    return raw("idx", base, i)


ARRAY_SYMS = set()


def array_like(t):
    t = val(t)
    if t in ARRAY_SYMS:
        return True
    if t.op == "poly":
        return any(array_like(a) or a.op == "ind" and _arr_cond(a.args[0])
                   for m, c in t.args[0] for a, e in m)
    if t.op == "ite":
        return any(array_like(x) for x in t.args[1:]) or _arr_cond(t.args[0])
    if t.op == "call" and t.args[0] in ("log", "exp", "abs"):
        return array_like(t.args[1][0])
    return t.op in ("map", "arrmap")


def _arr_cond(c):
    if c.op in ("lt0", "le0", "eq0"):
        return array_like(c.args[0])
    if c.op in ("and", "or"):
        return any(_arr_cond(x) for x in c.args[0])
    if c.op == "not":
        return _arr_cond(c.args[0])
    return False


def elementwise(t, i):
    """t[i] for elementwise array arithmetic t."""
    t = val(t)
    if t.op == "ite":
        return ite(elem_cond(t.args[0], i), elementwise(t.args[1], i),
                   elementwise(t.args[2], i))
    if not array_like(t):
        return t
    if t.op == "poly":
        out = {}
        for m, c in t.args[0]:
            piece = {(): c}
            for a, e in m:
                if a.op == "ind":
                    x = from_poly(ind_poly(elem_cond(a.args[0], i)))
                else:
                    x = elementwise(a, i)
                piece = pmul(piece, to_poly(power(x, num(e))))
            out = padd(out, piece)
        return from_poly(out)
    return idx(t, i)


def elem_cond(c, i):
    if c.op in ("lt0", "le0"):
        return _cmp0(c.op, elementwise(c.args[0], i))
    if c.op == "eq0":
        return eq(elementwise(c.args[0], i), ZERO)
    if c.op == "and":
        return land(*[elem_cond(x, i) for x in c.args[0]])
    if c.op == "or":
        return lor(*[elem_cond(x, i) for x in c.args[0]])
    if c.op == "not":
        return lnot(elem_cond(c.args[0], i))
    return c


def fexp(x):
    return lift(x, lambda b: raw("call", "exp", (b,), ()))


def fabs(x):
    def f(b):
        if b.op == "num":
            return num(abs(b.args[0]))
        p = to_poly(b)
        if not p:
            return ZERO
        items = sorted(p.items(), key=lambda it: _k(it[0]))
        if items[0][1] < 0:
            p = pscale(p, -1)
        return raw("call", "abs", (from_poly(p),), ())
    return lift(x, f)


FUNS = {"log": log, "exp": fexp, "abs": fabs}


# ---------------------------------------------------------------- rebuild
def rebuild(op, args):
    if op == "poly":
        out = {}
        for m, c in args[0]:
            piece = {(): c}
            for a, e in m:
                if a.op == "num" and e.denominator != 1:
                    piece = pmul(piece, {((a, e),): Fraction(1)})
                else:
                    piece = pmul(piece, to_poly(power(a, num(e))))
            out = padd(out, piece)
        return from_poly(out)
    if op == "ind":
        return from_poly(ind_poly(args[0]))
    if op in ("lt0", "le0"):
        return _cmp0(op, args[0])
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return lnot(truth(args[0]))
    if op == "and":
        return land(*args[0])
    if op == "or":
        return lor(*args[0])
    if op == "truthy":
        return truth(args[0])
    if op == "isnone":
        return is_none(args[0])
    if op == "ite":
        return ite(*args)
    if op == "idx":
        return idx(*args)
    if op == "len":
        return length(args[0])
    if op == "pow":
        return power(*args)
    if op == "concat":
        return concat(args[0])
    if op == "sum":
        return resum(*args)
    if op == "call" and args[0] in FUNS and len(args[1]) == 1:
        return FUNS[args[0]](args[1][0])
    if op == "mut":
        return mut(*args)
    return raw(op, *args)


def subst(t, mp, memo=None):
    memo = {} if memo is None else memo
    free = frozenset().union(*[free_bv(v) for v in mp.values()
                               if isinstance(v, Term)])
    keys = frozenset(k.args[0] for k in mp if k.op == "bv")

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in mp:
            return mp[x]
        if x in memo:
            return memo[x]
        if not x.args or x.op in ("num", "str", "sym", "bool", "none", "bv",
                                  "lv", "fn", "cls", "func"):
            memo[x] = x
            return x
        if x.op in _IMPLICIT or x.op in _HEIGHT:
            memo[x] = binder(x)
            return memo[x]
        new = tuple(rec(a) for a in x.args)
        if all(a is b or a == b for a, b in zip(new, x.args)):
            memo[x] = x
        else:
            memo[x] = rebuild(x.op, new)
        return memo[x]

    def binder(x):
        """Substitute below a binder without capture."""
        own = owner(x)
        inner = rec
        args = x.args
        if own is not None and own in free and x.op not in (
                "fold", "recur"):
            h = raw("bv", 1 + max(max(used_bv(x)), max(free)))
            args = tuple(a if i == 0 and x.op in _IMPLICIT + (
                "map", "fmap", "flatmap", "strmap", "dictmap")
                else subst_in(a, {raw("bv", own): h})
                for i, a in enumerate(args))
            if x.op in _HEIGHT:
                k = _HEIGHT[x.op]
                args = args[:k] + (h.args[0],) + args[k + 1:]
            own = h.args[0]
        elif own is not None and own in keys:
            m2 = dict((k, v) for k, v in mp.items()
                      if k is not raw("bv", own))
            inner = lambda a: subst_in(a, m2)
        new = tuple(rec(a) if i == 0 else inner(a)
                    for i, a in enumerate(args))
        if all(a is b or a == b for a, b in zip(new, x.args)):
            return x
        if x.op == "sum":
            return resum(new[0], new[1], own)
        if x.op in _IMPLICIT and own is not None:
            # the bound variable stays below every free one
            bs = [a for a in new[1:] if isinstance(a, Term)]
            others = frozenset().union(*[free_bv(b) for b in bs]) - {own}
            if others and min(others) < own:
                lv = raw("lv", "rebind%d" % next_id())
                b = tuple(subst(a, {raw("bv", own): lv}) for a in bs)
                new = new[:1] + bind(lv, *b)[1:]
        return raw(x.op, *new)
    return rec(t)


def owner(x):
    """The height bound by binder x (None: it binds nothing)."""
    if x.op in _HEIGHT:
        return x.args[_HEIGHT[x.op]]
    f = frozenset().union(*[free_bv(b) for b in x.args[1:]
                            if isinstance(b, Term)])
    return min(f) if f else None


def subst_in(a, mp):
    if isinstance(a, tuple):
        return tuple(subst_in(x, mp) for x in a)
    return subst(a, mp) if isinstance(a, Term) else a


def replace_where(t, f, memo=None):
    """Bottom-up rewrite: f(term) -> term or None."""
    memo = {} if memo is None else memo

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            new = tuple(rec(a) for a in x.args)
            if all(a is b or a == b for a, b in zip(new, x.args)):
                r = x
            else:
                r = rebuild(x.op, new)
                r2 = f(r)
                if r2 is not None:
                    r = r2
        memo[x] = r
        return r
    return rec(t)


# ---------------------------------------------------------------- equality
def poly_zero(p, depth=0):
    """Is the polynomial identically zero after clearing denominators?"""
    if not p:
        return True
    if depth > 6:
        return False
    need = {}
    for m in p:
        for a, e in m:
            if a.op == "poly" and e < 0 and e.denominator == 1:
                need[a] = max(need.get(a, 0), -e)
            if a.op == "poly" and e.denominator == 2 and e < 0:
                need[a] = max(need.get(a, 0), -e)
    if not need:
        return False
    try:
        q = pmul(p, {_mono(need): Fraction(1)})
    except TooBig:
        return False
    return poly_zero(q, depth + 1)


def equal(a, b, depth=0):
    a, b = val(a), val(b)
    if a is b:
        return True
    if a.op == "ite" or b.op == "ite":
        if depth < 12:
            c = a.args[0] if a.op == "ite" else b.args[0]
            if c.op not in ("and", "or"):
                r = equal(_case(a, c, True), _case(b, c, True), depth + 1) \
                    and equal(_case(a, c, False), _case(b, c, False),
                              depth + 1)
                if r:
                    return True
            else:
                lit = c.args[0][0]
                r = equal(_case(a, lit, True), _case(b, lit, True),
                          depth + 1) and \
                    equal(_case(a, lit, False), _case(b, lit, False),
                          depth + 1)
                if r:
                    return True
    if a.op in BOOL_OPS and b.op in BOOL_OPS:
        return bool_equal(a, b)
    nonnum = ("str", "none", "list", "tuple", "dict", "concat", "cls", "map",
              "fmap", "dictmap", "new")
    if a.op in nonnum or b.op in nonnum:
        if a.op == b.op and len(a.args) == len(b.args):
            return all(_eqa(x, y, depth) for x, y in zip(a.args, b.args))
        return False
    try:
        d = padd(to_poly(a), pscale(to_poly(b), -1))
        if poly_zero(d):
            return True
    except TooBig:
        return False
    if a.op == b.op and a.op not in ("poly", "num", "sym", "attr") and \
            len(a.args) == len(b.args):
        return all(_eqa(x, y, depth) for x, y in zip(a.args, b.args))
    # sums with different term bodies
    return False


def _eqa(x, y, depth):
    if isinstance(x, Term) and isinstance(y, Term):
        return equal(x, y, depth + 1)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eqa(p, q, depth)
                                        for p, q in zip(x, y))
    return x == y


def bool_atoms(c, out):
    if c.op in ("and", "or"):
        for x in c.args[0]:
            bool_atoms(x, out)
    elif c.op == "not":
        bool_atoms(c.args[0], out)
    elif c.op == "le0":
        bool_atoms(lt0(pneg(c.args[0])), out)
    elif c.op == "exists":
        bool_atoms(lnot(c), out)
    elif c.op != "bool":
        out[c.key] = c
    return out


def bool_eval(c, asg):
    if c.op == "bool":
        return c.args[0]
    if c.op == "and":
        return all(bool_eval(x, asg) for x in c.args[0])
    if c.op == "or":
        return any(bool_eval(x, asg) for x in c.args[0])
    if c.op == "not":
        return not bool_eval(c.args[0], asg)
    if c.op == "le0":
        return not bool_eval(lt0(pneg(c.args[0])), asg)
    if c.op == "exists":
        return not bool_eval(lnot(c), asg)
    return asg[c.key]


def bool_equal(a, b):
    atoms = {}
    bool_atoms(a, atoms)
    bool_atoms(b, atoms)
    ks = sorted(atoms)
    if len(ks) > 14:
        return False
    for n in range(1 << len(ks)):
        asg = dict((k, bool(n >> i & 1)) for i, k in enumerate(ks))
        if bool_eval(a, asg) != bool_eval(b, asg):
            return False
    return True


def implies(a, b):
    """Propositional implication over the comparison atoms of a and b."""
    a, b = truth(a), truth(b)
    if b is TRUE or a is FALSE:
        return True
    return bool_equal(lor(lnot(a), b), TRUE)


def _case(t, c, v):
    """Specialise conditional value t under condition c == v."""
    t = val(t)
    if t.op == "ite":
        cc = t.args[0]
        if cc is c:
            return _case(t.args[1] if v else t.args[2], c, v)
        nc = restrict(cc, c, v)
        return ite(nc, _case(t.args[1], c, v), _case(t.args[2], c, v))
    if t.op == "poly":
        p = to_poly(t)
        for a in indicators(p):
            if a.args[0] is c:
                return from_poly(assign_ind(p, a, 1 if v else 0))
        return t
    if t.op in BOOL_OPS:
        return restrict(t, c, v)
    return t


def restrict(cc, c, v):
    if cc is c:
        return boolean(v)
    if cc is lnot(c):
        return boolean(not v)
    if cc.op == "and":
        return land(*[restrict(x, c, v) for x in cc.args[0]])
    if cc.op == "or":
        return lor(*[restrict(x, c, v) for x in cc.args[0]])
    if cc.op == "not":
        return lnot(restrict(cc.args[0], c, v))
    return cc


# ---------------------------------------------------------------- display
def show(t, depth=0):
    if depth > 9:
        return "..."
    d = depth + 1
    s = lambda x: show(x, d)
    if isinstance(t, tuple):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.args
    if o == "num":
        f = a[0]
        if f.denominator == 1:
            return str(f.numerator)
        return "%.12g" % float(f)
    if o == "str":
        return repr(a[0])
    if o == "bool":
        return str(a[0])
    if o == "none":
        return "None"
    if o in ("sym",):
        return a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "attrv":
        return "%s.%s@%s" % (s(a[0]), a[1], a[2])
    if o in ("idx",):
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "poly":
        parts = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(s(num(c)))
            for x, e in m:
                q = s(x)
                if x.op == "poly":
                    q = "(" + q + ")"
                f.append(q if e == 1 else "%s**%s" % (q, e))
            parts.append("*".join(f))
        return " + ".join(parts)
    if o == "ind":
        return "[" + s(a[0]) + "]"
    if o == "lt0":
        return "(%s < 0)" % s(a[0])
    if o == "le0":
        return "(%s <= 0)" % s(a[0])
    if o == "eq0":
        return "(%s == 0)" % s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a[0]) + ")"
    if o == "not":
        return "not " + s(a[0])
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(
            [s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "mcall":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join(
            [s(x) for x in a[2]] + ["%s=%s" % (k, s(v)) for k, v in a[3]]))
    if o == "concat":
        return " ++ ".join(s(x) for x in a[0])
    if o in ("fn", "func", "cls"):
        return a[0]
    if o in ("list", "tuple"):
        return "%s(%s)" % (o, ", ".join(s(x) for x in a[0]))
    if o == "bv":
        return "#%s" % a[0]
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
