"""Metrics for regression and training losses."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np

from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
from fortuna.loss.classification.focal_loss import focal_loss_fn
from fortuna.loss.regression.scaled_mse import scaled_mse_fn
from fortuna.metric.regression import (mae, mean_absolute_error, mean_squared_error, mse, picp, prediction_interval_coverage_probability, rmae, rmse,
                                       root_mean_absolute_error, root_mean_squared_error)

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32; exp and log are axiomatised"]
OUTSIDE = "more than 3 data points, 2 output dimensions, 3 classes; float rounding and overflow"


def errs(n, d):
    @HARNESSES(name=f"errors_{n}x{d}", bounds=f"{n} points with {d} outputs in [-4,4]", obl_timeout=60)
    def body(h):
        p, t = h.real("p", (n, d)), h.real("t", (n, d))
        P, T = h.arr(p), h.arr(t)
        sq = h.sum([(a - b) * (a - b) for a, b in zip(P.reshape(-1), T.reshape(-1))]) / n
        ab = h.sum([h.max([a - b, b - a]) for a, b in zip(P.reshape(-1), T.reshape(-1))]) / n
        for f in (mse, mean_squared_error):
            h.eq("mean squared error", [h.val(f(p, t))], [sq])
        for f in (mae, mean_absolute_error):
            h.eq("mean absolute error", [h.val(f(p, t))], [ab])
        for f, r in ((rmse, sq), (root_mean_squared_error, sq), (rmae, ab), (root_mean_absolute_error, ab)):
            v = h.val(f(p, t))
            h.eq("root", [v * v], [r], tol=1e-3)
            h.check("non-negative", v >= 0)


errs(1, 2)
errs(3, 1)
errs(2, 2)


@HARNESSES(bounds="3 arbitrary intervals and targets, one- and two-dimensional layouts (every combination)")
def coverage(h):
    l, u, t = h.real("l", (3,)), h.real("u", (3,)), h.real("t", (3,))
    L, U, T = h.arr(l), h.arr(u), h.arr(t)
    k = h.count([h.And(a <= c, c <= b) for a, b, c in zip(L, U, T)])
    for i in range(8):
        a = [x[:, None] if i >> j & 1 else x for j, x in enumerate((l, u, t))]
        h.eq("fraction of covered targets", [3 * h.val(picp(*a))], [k])
        h.eq("same", [3 * h.val(prediction_interval_coverage_probability(*a))], [k])
    w = jnp.stack([l, u], 1)
    for a in ((w, u, t), (l, w, t), (l, u, w)):
        bad, _ = h.raises(lambda: picp(*a), ValueError)
        h.check("several components are refused", bad)


def cross(n, K):
    @HARNESSES(name=f"cross_entropy_{n}x{K}", bounds=f"{n} points, {K} logits in [-3,3], every target", obl_timeout=60, decide_ite=True)
    def body(h):
        o, t = h.real("o", (n, K), -3, 3), h.int("t", (n,), 0, K - 1)
        O, T = h.arr(o), list(h.arr(t))
        ref = 0
        for i in range(n):
            T[i] = [k for k in range(K) if k == K - 1 or h.branch(T[i] == k)][0]
            for a in range(K):
                for b in range(a):
                    h.branch(O[i, a] >= O[i, b])
            ref = ref + h.log(h.sum([h.exp(x) for x in O[i]])) - O[i, T[i]]
        v = h.val(cross_entropy_loss_fn(o, t))
        h.eq("negative log-probability", [n * v], [ref], tol=1e-3)
        if n == 1:
            h.check("non-negative", v >= -1e-4)


cross(1, 3)
cross(2, 2)


def focal(K, g):
    @HARNESSES(name=f"focal_{K}_{g:g}", bounds=f"1 point, {K} logits in [-3,3], gamma {g}", obl_timeout=60, decide_ite=True)
    def body(h):
        o, t = h.real("o", (1, K), -3, 3), h.int("t", (1,), 0, K - 1)
        O, T = list(h.arr(o)[0]), h.arr(t)[0]
        T = [i for i in range(K) if i == K - 1 or h.branch(T == i)][0]
        for a in range(K):
            for b in range(a):
                h.branch(O[a] >= O[b])
        z = h.sum([h.exp(x) for x in O])
        own = h.exp(O[T])
        v = h.val(focal_loss_fn(o, t, g))
        w = 1
        for _ in range(int(g)):
            w = w * (1 - own / z)
        h.eq("focal loss", [v], [-w * h.log(own / z)], tol=1e-3)
        if g == 2:
            h.eq("default gamma", [h.val(focal_loss_fn(o, t))], [v])
        h.check("non-negative", v >= -1e-4)


focal(2, 0.0)
focal(2, 1.0)
focal(2, 2.0)
focal(3, 0.0)
focal(3, 2.0)


@HARNESSES(bounds="2 points with 2 outputs (means and log-variances) in [-3,3]", obl_timeout=60)
def scaled_mse(h):
    o, t = h.real("o", (2, 4), -3, 3), h.real("t", (2, 2), -3, 3)
    O, T = h.arr(o), h.arr(t)
    ref = h.sum([h.exp(-O[i, 2 + j]) * (T[i, j] - O[i, j]) * (T[i, j] - O[i, j]) + O[i, 2 + j] for i in range(2) for j in range(2)])
    h.eq("Gaussian negative log-likelihood up to constants", [2 * h.val(scaled_mse_fn(o, t))], [ref], tol=1e-3)
