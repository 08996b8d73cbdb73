"""Client snippets, reference summaries and their comparison.

A rule states what it requires as a small Python fragment (never executed): a
*client* uses the public interface of the analysed code, a *reference* states
the required result.  Both are turned into value graphs by the same analysis
and compared; the fragments are only a notation for graphs.
"""
import ast
import os
import textwrap
import time

import functools
from . import terms as T
from . import interp
from .program import Func, Module, AnalysisBroken
from .flow import Analyzer


class PseudoModule(Module):
    def __init__(self, name, text, program):
        self.name = name
        self.path = "<%s>" % name
        self.rel = "<%s>" % name
        self.text = text
        self.digest = ""
        self.tree = ast.parse(textwrap.dedent(text))
        self.py2 = False
        self.is_pkg = False
        self.imports, self.functions = {}, {}
        self.classes, self.assigns = {}, {}
        self._collect(self.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                k = program.resolve_class_expr(self, b)
                if k is not None:
                    c.bases.append(k)
            # classes of a snippet are known by their simple name too
            program.classes_by_name.setdefault(c.name, []).append(c)


def snippet(program, text, name="spec"):
    """Parse text; returns {function name: Func}."""
    pseudo = program.__dict__.setdefault("pseudo", {})
    name = "%s%d" % (name, len(pseudo))
    m = pseudo[name] = PseudoModule(name, text, program)
    return m.functions


def methodize(func, cls):
    """Treat a snippet function as a method of class cls."""
    func.cls = cls
    return func


# ---------------------------------------------------------------- reaching
def _iter_loops(env, loops, i, cb, guards=()):
    """Call cb(env) for every valuation of the loop indices of loops[i:]."""
    while i < len(loops) and loops[i][0] != "loop":
        i += 1
    if i >= len(loops):
        return cb()
    _, lid, dom, lv = loops[i]
    if dom is None:
        raise interp.Unknown("loop without a trip count")
    n = env.dom(dom)
    k = "lv%s" % lid
    had, old = k in env.bv, env.bv.get(k)
    try:
        for j in range(n):
            env.bv[k] = float(j)
            r = _iter_loops(env, loops, i + 1, cb)
            if r:
                return r
    finally:
        if had:
            env.bv[k] = old
        else:
            env.bv.pop(k, None)
    return None


def escapes(e):
    """Does the exception of raise-event e leave the analysed function?"""
    name = e.data[0].args[0]
    for l in e.loops:
        if l[0] == "try":
            for h in l[2]:
                names = [x.strip().split(".")[-1]
                         for x in h.strip("()").split(",")]
                if "*" in names or name in names or "Exception" in names \
                        or "BaseException" in names or \
                        (name in ("KeyError", "IndexError") and
                         "LookupError" in names):
                    return False
    return True


def occurrences(env, e):
    """Index valuations at which event e happens, as position tuples."""
    out = []
    for g in e.guards:
        if e.loops and not T.contains(g, lambda x: x.op in ("lv", "mu")):
            try:
                if not env.bool(g):
                    return out
            except (interp.Unknown, interp.Stuck):
                pass

    def cb():
        err = None
        for g in e.guards:
            try:
                if not env.bool(g):
                    return None
            except (interp.Unknown, interp.Stuck) as x:
                err = err or x
        if err is not None:
            raise err
        out.append(dict((k, v) for k, v in env.bv.items()
                        if str(k).startswith("lv")))
        return None
    _iter_loops(env, list(e.loops), 0, cb)
    return out


def position(e, idx):
    pos = []
    for l in e.loops:
        if l[0] == "loop":
            pos.append((l[1], idx.get("lv%s" % l[1], 0)))
    return pos


def before(e1, i1, e2, i2):
    """Does occurrence (e1,i1) happen before (e2,i2)?"""
    p1, p2 = dict(position(e1, i1)), position(e2, i2)
    for lid, j in p2:
        if lid in p1:
            if p1[lid] != j:
                return p1[lid] < j
        else:
            break
    return e1.seq < e2.seq


def raised(env, events):
    """(True, event, idx) if an exception leaves; may raise Unknown."""
    unk = None
    for e in events:
        if e.kind != "raise" or not escapes(e):
            continue
        try:
            occ = occurrences(env, e)
        except interp.Unknown as x:
            unk = unk or x
            continue
        if occ:
            return (True, e, occ[0])
    if unk is not None:
        raise unk
    return (False, None, None)


def preexisting(o):
    """Object term o existed before the analysed call."""
    while o.op in ("attr", "attrv", "idx", "mut"):
        o = o.args[0]
    return o.op in ("sym", "glob", "key") and not (
        o.op == "sym" and o.args[0].startswith("?"))


EFFECTS = ("setattr", "inplace", "setitem", "delitem", "append", "delattr")


def effects(res, roots=None):
    """Effect events on objects that existed before the call."""
    out = []
    kw = getattr(res.func.node.args, "kwarg", None)
    own = T.sym(kw.arg) if kw is not None else None
    for e in res.events:
        if e.kind in EFFECTS and isinstance(e.data[0], T.Term) and \
                preexisting(T.ptr(e.data[0])) and \
                T.ptr(e.data[0]) is not own:
            out.append(e)
    return out


def root(o):
    while o.op in ("attr", "attrv", "idx", "mut", "copy"):
        o = o.args[-1] if o.op == "copy" else o.args[0]
    return o


def rootset(o, guards=()):
    """Every object o may hang off, given the guards in force."""
    while o.op in ("attr", "attrv", "idx", "mut"):
        o = o.args[0]
    if o.op == "ite":
        c, a, b = o.args
        if c in guards:
            return rootset(a, guards)
        if T.lnot(c) in guards:
            return rootset(b, guards)
        return rootset(a, guards) | rootset(b, guards)
    return {o}


def slot(env, e):
    """(slot key, new value, old value) of effect e in env (or None)."""
    k = e.kind
    if k == "setattr":
        obj, name, v = e.data[:3]
        old = T.raw("attr", T.ptr(obj), name)
        return ("a", env.key(env.ev(obj)), str(name)), env.ev(v), env.ev(old)
    return None


# ---------------------------------------------------------------- summaries
class Summary(object):
    """What a function does, as value graphs."""

    def __init__(self, res, fields=()):
        self.res = res
        self.ret = res.ret
        self.events = res.events


def compare_functions(code, ref, fields=(), ret=True, assume=(), hints=None,
                      n=80, unchanged=True, raises=True, extra_vocab=(),
                      ignore_fields=(), exc_types=None, effects_on=None,
                      fails=(), calls=()):
    """Compare two Results pointwise.

    fields: list of (object term, attribute name) whose final value must
    agree when no exception leaves.  Returns list of
    (clause, verdict, detail, where).
    """
    out = {}

    def note(clause, verdict, detail, where=""):
        cur = out.get(clause)
        rank = {"differ": 3, "unknown": 2, "same": 1}
        if cur is None or rank[verdict] > rank[cur[0]] and \
                not (cur[0] == "differ"):
            out[clause] = (verdict, detail, where)

    def owner(r, o):
        return r.ret if o is None else o

    def cname(o, a):
        return "%s.%s" % ("result" if o is None else T.show(o), a)

    clauses = (["raises"] if raises else []) + (["ret"] if ret else []) + \
        [cname(o, a) for o, a in fields] + \
        (["calls"] if calls else []) + \
        (["unchanged-on-error"] if unchanged and raises else [])
    good = dict((c, 0) for c in clauses)
    reft = [T.NONE]
    codet = [T.NONE]
    for r, lst in ((ref, reft), (code, codet)):
        if r.ret is not None:
            lst.append(r.ret)
        for e in r.events:
            if e.kind == "raise":
                lst.extend(e.guards)
        if r.state is not None:
            for o, a in fields:
                lst.append(r.field(owner(r, o), a))
    vocab = interp.call_names(*reft) | set(extra_vocab)
    strs = interp.string_consts(*(reft + codet + list(assume)))
    special = interp.specials(*(reft + codet + list(assume)))
    samples = 0
    unk, skipped = {}, {}
    seen, known, grown, stop = set(), 0, 0, time.time() + 20
    for s in range(n * 12):
        if len(seen) > known:
            known, grown = len(seen), samples
        # at least n samples, and more while they still take new branches
        if samples >= n and (samples >= grown + n or samples >= 6 * n or
                             time.time() > stop):
            break
        env = interp.Env(s, hints, None, strs, special=special)
        env.cover = seen
        try:
            if not all(env.bool(c) for c in assume):
                continue
            rr = raised(env, ref.events)[0]
            rv, rf = None, {}
            if not rr:
                if ref.ret is None:
                    continue
                if ret:
                    rv = env.ev(ref.ret)
                    env.key(rv)
                if calls:
                    rc = trace(env, ref.events, calls)
                for o, a in fields:
                    rf[(o, a)] = env.ev(ref.field(owner(ref, o), a))
                    env.key(rf[(o, a)])
        except (interp.Stuck, interp.Unknown) as x:
            skipped[str(x)[:60]] = skipped.get(str(x)[:60], 0) + 1
            continue
        samples += 1
        env.vocab = vocab
        env.memo = {}
        env.steps = 0
        try:
            cr, ce, ci = raised(env, code.events)
        except interp.Stuck as x:
            unk["raises"] = str(x)
            continue
        except interp.Unknown as x:
            unk["raises"] = str(x)
            continue
        if raises and cr != rr:
            if cr:
                note("raises", "differ", "sample %d: rejects an input that "
                     "must be accepted: %s" % (s, witness(env, ce.guards)),
                     ce.where)
            else:
                note("raises", "differ", "sample %d: accepts an input that "
                     "must be rejected%s" % (s, ref_reason(env, ref)),
                     code.func.where)
            continue
        if cr != rr:
            continue
        good["raises"] = good.get("raises", 0) + 1
        if cr:
            if unchanged and raises:
                try:
                    bad = changed_before(env, code, ce, ci, effects_on)
                    if bad is not None:
                        note("unchanged-on-error", "differ",
                             "sample %d: %s has been changed when the "
                             "exception at %s is raised" % (
                                 s, bad[0], ce.where), bad[1].where)
                    else:
                        good["unchanged-on-error"] += 1
                except (interp.Unknown, interp.Stuck) as x:
                    unk["unchanged-on-error"] = str(x)
            continue
        if code.ret is None and code.state is None:
            note("raises", "differ", "never returns", code.func.where)
            continue
        if ret:
            pointwise(env, "ret", code.ret, rv, good, unk, note, s,
                      code.func.where, "returns", fails)
        if calls:
            tracewise(env, code, rc, calls, good, unk, note, s)
        for o, a in fields:
            c = cname(o, a)
            pointwise(env, c, code.field(owner(code, o), a), rf[(o, a)], good, unk, note,
                      s, code.func.where, "%s becomes" % c, fails)
    if os.environ.get("VERIF_DEBUG") and skipped:
        print("  outside domain", code.func.short, skipped, samples)
    res = []
    for c in clauses:
        if c in out:
            v, d, w = out[c]
            res.append((c, v, d, w))
        elif c in unk:
            res.append((c, "unknown", unk[c], ""))
        elif good.get(c, 0) >= 3:
            res.append((c, "same", "%d random interpretations agree"
                        % good[c], ""))
        elif c == "unchanged-on-error":
            res.append((c, "same", "no rejecting path", ""))
        else:
            res.append((c, "unknown", "only %d samples in domain"
                        % good.get(c, 0), ""))
    return res


def trace(env, events, names):
    """What is called on each object, in order (by receiver key)."""
    found = []
    for e in events:
        if e.kind != "call" or e.data[1].args[0] not in names:
            continue
        for idx in occurrences(env, e):
            save = dict(env.bv)
            env.bv.update(idx)
            try:
                args = [env.key(env.ev(T.val(x)))
                        for x in e.data[2:] if isinstance(x, T.Term)]
            finally:
                env.bv = save
            found.append((e, idx, args))

    def order(a, b):
        return -1 if before(a[0], a[1], b[0], b[1]) else 1
    found.sort(key=functools.cmp_to_key(order))
    out = {}
    for e, idx, args in found:
        out.setdefault(args[0] if args else "", []).append(
            (e.data[1].args[0],) + tuple(args[1:]))
    return out


def tracewise(env, code, want, names, good, unk, note, s):
    env.steps = 0
    try:
        got = trace(env, code.events, names)
    except (interp.Unknown, interp.Stuck) as x:
        unk["calls"] = str(x)
        return
    if got == want:
        good["calls"] = good.get("calls", 0) + 1
        return
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            note("calls", "differ", "sample %d: on %s: %s, required %s" % (
                s, k[:60], str(got.get(k, "nothing"))[:160],
                str(want.get(k, "nothing"))[:160]), code.func.where)
            return


def pointwise(env, clause, term, want, good, unk, note, s, where, verb, fails=()):
    env.steps = 0
    try:
        got = env.ev(term)
        if env.same(got, want):
            good[clause] = good.get(clause, 0) + 1
        else:
            note(clause, "differ", "sample %d: %s %s, required %s" % (
                s, verb, env.show(got), env.show(want)), where)
    except interp.Unknown as x:
        unk[clause] = str(x)
    except interp.Stuck as x:
        if str(x) in ("division by zero", "log of non-positive") or \
                str(x) in fails:
            note(clause, "differ", "sample %d: fails (%s), required %s" % (
                s, x, env.show(want)), where)
        else:
            unk[clause] = str(x)


def witness(env, guards):
    return " and ".join(T.show(g) for g in guards)[:300]


def ref_reason(env, ref):
    r = raised(env, ref.events)
    return " (rule: %s)" % " and ".join(T.show(g)
                                        for g in r[1].guards)[:300]


def changed_before(env, code, ce, ci, effects_on=None):
    """First net change to a pre-existing object before raise (ce, ci)."""
    last = {}
    other = None
    for e in effects(code):
        o = T.ptr(e.data[0])
        if effects_on is not None and root(o) not in effects_on:
            continue
        for idx in occurrences(env, e):
            if not before(e, idx, ce, ci):
                continue
            save = dict(env.bv)
            env.bv.update(idx)
            try:
                sl = slot(env, e)
                if sl is None:
                    other = (T.show(o), e)
                else:
                    last[sl[0]] = (e, sl[1], sl[2], T.show(o) + "." +
                                   str(e.data[1]))
            finally:
                env.bv = save
    for k, (e, new, old, what) in last.items():
        if not env.same(new, old):
            return what, e
    if other:
        return other
    return None
