"""Resampling-based conformal intervals: jackknife+, jackknife-minmax, CV+."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import (CVPlusConformalRegressor, JackknifeMinmaxConformalRegressor, JackknifePlusConformalRegressor)

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32"]
OUTSIDE = "more than 7 training points, more than 3 folds, more than 2 test points; error levels other than the listed ones; float rounding"


def expect_plus(h, V, Y, T, err):
    """T[i][t]: prediction for test point t by the model that left i out"""
    n, m = len(V), len(T[0])
    r = [abs(Y[i] - V[i]) for i in range(n)]
    lo = [spec.lin_quantile(h, [T[i][t] - r[i] for i in range(n)], err) for t in range(m)]
    hi = [spec.lin_quantile(h, [T[i][t] + r[i] for i in range(n)], 1 - err) for t in range(m)]
    return lo, hi


def data(h, n, m, flat):
    s = (lambda *a: a) if flat else (lambda *a: a + (1,))
    v, y, t = h.real("v", s(n)), h.real("y", s(n)), h.real("t", s(n, m))
    V, Y, T = h.arr(v).reshape(n), h.arr(y).reshape(n), h.arr(t).reshape(n, m)
    return v, y, t, V, Y, T


def jack(n, m, flat, err):
    @HARNESSES(name=f"jackknife_n{n}_m{m}_{'1d' if flat else '2d'}_{float(err):.2f}", bounds=f"n={n}, {m} test points, error={err}, values in [-4,4]", obl_timeout=60)
    def body(h):
        v, y, t, V, Y, T = data(h, n, m, flat)
        e = float(err)
        ci = JackknifePlusConformalRegressor().conformal_interval(v, y, t, e)
        h.shape("plus.shape", ci, (m, 2))
        C = h.arr(ci)
        lo, hi = expect_plus(h, V, Y, T, err)
        h.eq("plus.low", C[:, 0], lo)
        h.eq("plus.high", C[:, 1], hi)
        mm = JackknifeMinmaxConformalRegressor().conformal_interval(v, y, t, e)
        h.shape("minmax.shape", mm, (m, 2))
        M = h.arr(mm)
        r = spec.lin_quantile(h, [abs(Y[i] - V[i]) for i in range(n)], 1 - err)
        h.eq("minmax.low", M[:, 0], [h.min(list(T[:, k])) - r for k in range(m)])
        h.eq("minmax.high", M[:, 1], [h.max(list(T[:, k])) + r for k in range(m)])
        h.le("minmax contains plus (low)", M[:, 0], C[:, 0])
        h.le("minmax contains plus (high)", C[:, 1], M[:, 1])


for _n, _m, _f, _e in [(2, 2, True, F(1, 10)), (3, 2, False, F(1, 10)), (4, 1, True, F(1, 20)), (3, 1, True, F(1, 2)), (3, 2, True, F(0)), (3, 1, False, F(1)),
                       (5, 1, True, F(1, 4)), (4, 1, False, F(3, 10))]:
    jack(_n, _m, _f, _e)


def cv(folds, m, flat, err):
    n = sum(folds)

    @HARNESSES(name=f"cvplus_{'_'.join(map(str, folds))}_m{m}_{'1d' if flat else '2d'}_{float(err):.2f}", bounds=f"folds of sizes {folds}, {m} test points, error={err}, values in [-4,4]", obl_timeout=60)
    def body(h):
        s = (lambda *a: a) if flat else (lambda *a: a + (1,))
        v = [h.real(f"v{k}", s(nk)) for k, nk in enumerate(folds)]
        y = [h.real(f"y{k}", s(nk)) for k, nk in enumerate(folds)]
        t = [h.real(f"t{k}", s(m)) for k, nk in enumerate(folds)]
        lists = [list(v), list(y), list(t)]
        ci = CVPlusConformalRegressor().conformal_interval(*lists, float(err))
        h.shape("shape", ci, (m, 2))
        C = h.arr(ci)
        V, Y, T = [], [], []
        for k, nk in enumerate(folds):
            for i in range(nk):
                V.append(h.arr(v[k]).reshape(nk)[i])
                Y.append(h.arr(y[k]).reshape(nk)[i])
                T.append(list(h.arr(t[k]).reshape(m)))
        lo, hi = expect_plus(h, V, Y, T, err)
        h.eq("low", C[:, 0], lo)
        h.eq("high", C[:, 1], hi)
        h.check("caller's lists unchanged", all(a is b for l, o in zip(lists, (v, y, t)) for a, b in zip(l, o)))
        if set(folds) == {1}:
            J = h.arr(JackknifePlusConformalRegressor().conformal_interval(jnp.stack([a.reshape(()) for a in v]), jnp.stack([a.reshape(()) for a in y]),
                                                                          jnp.stack([a.reshape(m) for a in t]), float(err)))
            h.eq("folds of one point give jackknife+", C, J)


for _f, _m, _fl, _e in [((2, 1), 2, True, F(1, 10)), ((1, 3), 1, False, F(1, 5)), ((2, 2), 1, True, F(1, 20)), ((1, 1, 1), 2, True, F(3, 10)), ((1, 2, 1), 1, False, F(1, 4)),
                        ((2, 1), 1, True, F(1, 2))]:
    cv(_f, _m, _fl, _e)


@HARNESSES(bounds="n=4, 1 test point, error levels 0.1 < 0.25 < 0.4", obl_timeout=60)
def nested_in_error(h):
    v, y, t, V, Y, T = data(h, 4, 1, True)
    for cls in (JackknifePlusConformalRegressor, JackknifeMinmaxConformalRegressor):
        prev = None
        for e in (0.1, 0.25, 0.4):
            C = h.arr(cls().conformal_interval(v, y, t, e))
            if prev is not None:
                h.le("low grows with the error", prev[:, 0], C[:, 0])
                h.le("high shrinks with the error", C[:, 1], prev[:, 1])
            prev = C


@HARNESSES(bounds="mismatched sizes, vector-valued outputs or targets")
def rejections(h):
    v, t = h.real("v", (3,)), h.real("t", (3, 2))
    w, tt = h.real("w", (3, 2)), h.real("tt", (3, 2, 2))
    for cls in (JackknifePlusConformalRegressor, JackknifeMinmaxConformalRegressor):
        c = cls()
        for args in ((v, v[:2], t), (w, v, t), (v, w, t), (v, v, tt), (v, v, v)):
            bad, _ = h.raises(lambda: c.conformal_interval(*args, 0.1), ValueError)
            h.check("rejected", bad)
    c = CVPlusConformalRegressor()
    for args in (([v, v], [v, v[:2]], [v, v]), ([w], [v], [v]), ([v], [w], [v]), ([v], [v], [w])):
        bad, _ = h.raises(lambda: c.conformal_interval(*args, 0.1), ValueError)
        h.check("rejected", bad)
    for args in ((v, [v], [v]), ([v], v, [v]), ([v], [v], v)):
        bad, _ = h.raises(lambda: c.conformal_interval(*args, 0.1), TypeError)
        h.check("rejected type", bad)
