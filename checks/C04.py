"""Adaptive conformal inference: the error update."""
from symx.api import Registry
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import (AdaptiveConformalClassifier, AdaptiveConformalRegressor, QuantileConformalRegressor,
                               OneDimensionalUncertaintyConformalRegressor, SimplePredictionConformalClassifier)
import fortuna.conformal.regression.adaptive_conformal_regressor as mr
import fortuna.conformal.classification.adaptive_conformal_classifier as mc

HARNESSES = Registry()
STUBS = ["the builtin float() used on the returned error is the identity on symbolic values"]
ASSUMPTIONS = ["real arithmetic instead of float32"]
OUTSIDE = "weights over more than 4 time steps; sequences longer than 3 updates; float rounding"


def clip01(h, x):
    return h.min([h.max([x, 0 * x]), 0 * x + 1])


def nofloat(h):
    f = (lambda x: x) if h.sym else float
    h.patch(mr, "float", f)
    h.patch(mc, "float", f)


@HARNESSES(bounds="every interval, target in [-4,4], error and target error in [0,1], step size in (0,8]")
def regressor_plain(h):
    nofloat(h)
    iv, y = h.real("iv", (2,)), h.real("y", (1,))
    err, te, g = h.real("err", (), 0, 1), h.real("te", (), 0, 1), h.real("g", (), F(1, 1000), 8)
    c = AdaptiveConformalRegressor(QuantileConformalRegressor())
    new = c.update_error(iv, err, y, te, gamma=g)
    I, Y, e, t, G = h.arr(iv), h.arr(y)[0], h.val(err), h.val(te), h.val(g)
    inside = h.And(I[0] <= Y, Y <= I[1])
    n = h.val(new)
    h.eq("update", [n], [clip01(h, e + G * (t - h.ite(inside, 0 * e, 0 * e + 1)))])
    h.check("in the unit interval", h.And(n >= 0, n <= 1))
    n2, w = c.update_error(iv, err, y, te, gamma=g, return_were_in=True)
    h.eq("same value", [h.val(n2)], [n])
    h.check("membership", h.And(h.Implies(inside, h.val(w) == 1), h.Implies(h.Not(inside), h.val(w) == 0)))


def clf(k, labels):
    @HARNESSES(name=f"classifier_plain_{k}", bounds=f"every target in [0,3], conformal set {labels}, error and target error in [0,1], step size in (0,8]")
    def body(h):
        nofloat(h)
        y = h.int("y", (1,), 0, 3)
        err, te, g = h.real("err", (), 0, 1), h.real("te", (), 0, 1), h.real("g", (), F(1, 1000), 8)
        c = AdaptiveConformalClassifier(SimplePredictionConformalClassifier())
        yy = y[0]
        inside = h.Or(False, [h.arr(y)[0] == l for l in labels])
        new = c.update_error(labels, err, yy, te, gamma=g)
        e, t, G = h.val(err), h.val(te), h.val(g)
        n = h.val(new)
        h.eq("update", [n], [clip01(h, e + G * (t - h.ite(inside, 0 * e, 0 * e + 1)))])
        h.check("in the unit interval", h.And(n >= 0, n <= 1))


clf(0, [])
clf(1, [1])
clf(2, [0, 2, 3])


def weighted(kind, n):
    @HARNESSES(name=f"{kind}_weighted_{n}", bounds=f"every ascending weight vector of length {n} summing to one, every membership history, error and target error in [0,1], step in (0,8]", obl_timeout=60)
    def body(h):
        nofloat(h)
        w = h.real("w", (n,), 0, 1)
        win = h.int("win", (n - 1,), 0, 1)
        W, WI = h.arr(w), h.arr(win)
        h.assume_eq(h.sum(W), 1)
        for i in range(n - 1):
            h.assume(W[i] <= W[i + 1])
        err, te, g = h.real("err", (), 0, 1), h.real("te", (), 0, 1), h.real("g", (), F(1, 1000), 8)
        e, t, G = h.val(err), h.val(te), h.val(g)
        if kind == "regressor":
            iv, y = h.real("iv", (2,)), h.real("y", (1,))
            I, Y = h.arr(iv), h.arr(y)[0]
            c = AdaptiveConformalRegressor(OneDimensionalUncertaintyConformalRegressor())
            inside = h.And(I[0] <= Y, Y <= I[1])
            args = (iv, err, y, te)
        else:
            y = h.int("y", (1,), 0, 3)
            Y = h.arr(y)[0]
            c = AdaptiveConformalClassifier(SimplePredictionConformalClassifier())
            inside = h.Or(Y == 1, Y == 3)
            args = ([1, 3], err, y[0], te)
        new, were = c.update_error(*args, gamma=g, weights=w, were_in=win, return_were_in=True)
        miss = h.sum([W[i] * (1 - WI[i]) for i in range(n - 1)]) + W[n - 1] * h.ite(inside, 0, 1)
        nv = h.val(new)
        h.eq("update", [nv], [clip01(h, e + G * (t - miss))])
        h.check("in the unit interval", h.And(nv >= 0, nv <= 1))
        h.shape("history shape", were, (n,))
        WR = h.arr(were)
        h.eq("history kept", WR[: n - 1], WI)
        h.check("history extended", h.And(h.Implies(inside, WR[n - 1] == 1), h.Implies(h.Not(inside), WR[n - 1] == 0)))


for _n in (2, 3, 4):
    weighted("regressor", _n)
    weighted("classifier", _n)


@HARNESSES(bounds="3 successive updates fed back, every interval and target, step 0.25, target error 0.1")
def history(h):
    nofloat(h)
    c = AdaptiveConformalRegressor(QuantileConformalRegressor())
    err = h.real("err", (), 0, 1)
    ref = h.val(err)
    for k in range(3):
        iv, y = h.real("iv", (2,)), h.real("y", (1,))
        I, Y = h.arr(iv), h.arr(y)[0]
        err = c.update_error(iv, err, y, 0.125, gamma=0.25)
        inside = h.And(I[0] <= Y, Y <= I[1])
        ref = clip01(h, ref + 0.25 * (0.125 - h.ite(inside, 0, 1)))
        h.eq("error", [h.val(err)], [ref])


@HARNESSES(bounds="every step size in [-2,0]; unsorted, negative, non-normalised weights of length 3; non-binary history; lengths that differ")
def rejections(h):
    nofloat(h)
    iv, y = jnp.array([0.0, 1.0]), jnp.array([0.5])
    r = AdaptiveConformalRegressor(QuantileConformalRegressor())
    k = AdaptiveConformalClassifier(SimplePredictionConformalClassifier())
    g = h.real("g", (), -2, 0)
    w = h.real("w", (3,), -1, 2)
    W = h.arr(w)
    s = h.sum(W)
    h.assume(h.Or(W[0] > W[1], W[1] > W[2], W[0] < 0, W[2] > 1, s < 0.99, s > 1.01))
    for f in (lambda **a: r.update_error(iv, 0.1, y, 0.1, **a), lambda **a: k.update_error([0], 0.1, jnp.array(1), 0.1, **a)):
        for a in (dict(gamma=g), dict(weights=w, were_in=jnp.array([0, 1])), dict(weights=jnp.array([0.0, 0.4, 0.6]), were_in=jnp.array([0, 2])),
                  dict(weights=jnp.array([0.4, 0.6]), were_in=jnp.array([0, 1])), dict(weights=jnp.array([0.4, 0.6])), dict(were_in=jnp.array([1])),
                  dict(weights=jnp.array([[0.4, 0.6]]), were_in=jnp.array([1]))):
            bad, _ = h.raises(lambda: f(**a), ValueError)
            h.check("rejected", bad)
