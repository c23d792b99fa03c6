"""reference notions used by the properties, written over the property language (symbolic or concrete)"""
import math
from fractions import Fraction


def sort(h, xs):
    xs = list(xs)
    if not h.sym:
        return sorted(float(x) for x in xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = h.min([a, b]), h.max([a, b])
    return xs


def lin_quantile(h, xs, level):
    """linear interpolation between the order statistics, `level` a python number"""
    s = sort(h, xs)
    f = Fraction(level).limit_denominator(10**6)
    pos = f * (len(s) - 1)
    lo = int(math.floor(pos))
    w = pos - lo
    if w == 0:
        return s[lo]
    if h.sym:
        return s[lo] * (1 - w) + s[lo + 1] * w
    return s[lo] * float(1 - w) + s[lo + 1] * float(w)


def count_le(h, xs, v, eps=0):
    return h.count([x <= v + eps for x in xs])


def dot(h, a, b):
    return h.sum([x * y for x, y in zip(a, b)])


def snapshot(x):
    """deep copy of the payload / array for 'not modified' obligations"""
    from . import trace as T
    import numpy as np

    if isinstance(x, T.SymTracer):
        return x.payload.copy()
    return np.array(x)


def same(h, name, x, snap):
    """x still holds what `snap` recorded"""
    from . import elem as E
    from . import trace as T
    import numpy as np

    if isinstance(x, T.SymTracer):
        ok = x.payload.shape == snap.shape and all(E.same(a, b) if hasattr(E, "same") else (a is b or (E.is_z3(a) and E.is_z3(b) and a.eq(b)) or (not E.is_z3(a) and not E.is_z3(b) and a == b))
                                                   for a, b in zip(x.payload.reshape(-1), snap.reshape(-1)))
        h.check(name, ok)
    else:
        h.check(name, np.array_equal(np.asarray(x), snap))
