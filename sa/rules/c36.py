"""Errors of arrays and text forms of dictionaries."""
import numpy as np

from .. import interp
from .. import spec
from .. import terms as T

MINIMUM = 5

ERRORS = """
def get_array_errors(array, lin_err=0.01, frac_err=None, log=False,
                     log10=False):
    if array.size > 0 and not lin_err and not frac_err:
        raise ValueError("no amount")
    x = array
    if log:
        x = numpy.log(array)
    elif log10:
        x = numpy.log10(array)
    y = x + lin_err if lin_err else x * frac_err
    if log:
        y = numpy.exp(y)
    elif log10:
        y = numpy.power(10., y)
    return y - array
"""

WORDS = ("Te130", "a b", "x-1", "", "7", "2.5", "none")


def array(env, o):
    shape = [(5,), (2, 3), (1,), (2, 2, 2)][int(4 * env.rnd("shape"))]
    n = int(np.prod(shape))
    low = -2 if env.rnd("low") < .3 else .3
    return np.array([low + 4 * env.rnd("a", i) for i in range(n)]
                    ).reshape(shape)


def maybe(name):
    def f(env, o):
        r = env.rnd(name)
        return None if r < .35 else interp.Flt(round(.05 + r, 3))
    return f


def check(ctx):
    ctx.agree("array errors", "echidna.utilities", "get_array_errors",
              ERRORS, ret=True, raises=True, args={
                  "array": T.sym("array"), "lin_err": T.sym("lin_err"),
                  "frac_err": T.sym("frac_err"), "log": T.sym("log"),
                  "log10": T.sym("log10")},
              hints={"array": array, "lin_err": maybe("lin"),
                     "frac_err": maybe("frac"), "log": "bool",
                     "log10": "bool"})
    text_form(ctx)


def held(env):
    """A dictionary of the supported kinds of values."""
    out = {}
    for i in range(int(4 * env.rnd("n"))):
        k = ("mass", "loading", "n_0", "label")[
            (i + int(4 * env.rnd("k"))) % 4]
        r = env.rnd("v", i)
        kind = int(3 * env.rnd("t", i))
        v = (WORDS[int(r * len(WORDS))],
             interp.Flt((-1.5, 0., 2., 130.25, 1e-5, 1234567.25)[int(r * 6)]),
             interp.Int((-3, 0, 7, 1000)[int(r * 4)]))[kind]
        out[env.key(k)] = (k, v)
    return out


def plain(v):
    return dict((k, (interp.typename(x), x)) for k, x in v.values())


def text_form(ctx):
    """string_to_dict(dict_to_string(d)) == d, by composing the two."""
    with ctx.guard("text form"):
        to = ctx.run(ctx.find("echidna.output.store", "dict_to_string"))
        back = ctx.run(ctx.find("echidna.output.store", "string_to_dict"))
        good, bad, unk, rej, ok = 0, None, None, 0, None
        for s in range(ctx.n * 2):
            env = interp.Env(s, {"in_dict": lambda e, o: held(e)})
            other = env.rnd("other") < .2
            if other:
                def odd(e, o):
                    d = held(e)
                    d[e.key("zzz")] = ("zzz", (None, True, (), {})[
                        int(4 * e.rnd("odd"))])
                    return d
                env = interp.Env(s, {"in_dict": odd})
            try:
                r = spec.raised(env, to.kinds("raise"))[0]
                if other or r:
                    if bool(other) != bool(r):
                        ok = "sample %d: %s" % (s, "accepted a value it "
                                                "cannot write" if other else
                                                "a supported value refused")
                    else:
                        rej += 1
                    continue
                t = env.ev(to.ret)
                d = plain(held(env))
                env2 = interp.Env(s, {"in_string": lambda e, o, t=t: t})
                if spec.raised(env2, back.kinds("raise"))[0]:
                    bad = "sample %d: %s is written as %r, which is refused" \
                        % (s, d, t)
                    continue
                got = plain(env2.concrete(env2.ev(back.ret)))
                if got == d:
                    good += 1
                else:
                    bad = "sample %d: %s is written as %r, read back as %s" \
                        % (s, d, t, got)
            except (interp.Stuck, interp.Unknown) as x:
                if str(x) == "index out of range":
                    bad = "sample %d: %s cannot be read back" % (
                        s, plain(held(env)))
                else:
                    unk = str(x)
        where = to.func.where
        for key, b, n in (("text form:inverse", bad, good),
                          ("text form:other types refused", ok, rej)):
            if b:
                ctx.violate(key, b, where)
            elif unk or n < 8:
                ctx.undecided(key, unk or "no sample in domain", where)
            else:
                ctx.hold(key, "%d interpretations agree" % n, where)
