"""Sanity checks of the analysis itself (setup step)."""


def main():
    from . import terms as T
    from .program import Program
    p = Program()
    x, y = T.sym("x"), T.sym("y")
    assert T.equal(T.power(T.sub(x, y), T.num(2)),
                   T.power(T.sub(y, x), T.num(2)))
    assert not T.equal(T.add(x, y), T.sub(x, y))
    print("selftest ok: %d modules parsed" % len(p.modules))
    return 0
