"""Probabilistic output layers and temperature scalers."""
from symx.api import Registry
from symx import spec
import jax
import jax.numpy as jnp
import numpy as np
import math
from fractions import Fraction as F
from flax.core import FrozenDict

from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
from fortuna.output_calibrator.regression import RegressionTemperatureScaler
from fortuna.prob_output_layer.classification import ClassificationMaskedProbOutputLayer, ClassificationProbOutputLayer
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer

HARNESSES = Registry()
STUBS = ["jax.random.normal / uniform return arbitrary values (every draw) where stated"]
ASSUMPTIONS = ["real arithmetic instead of float32; exp and log axiomatised; logits in [-3,3]"]
OUTSIDE = "more than 3 classes, 3 inputs, 4 samples; float rounding and overflow of exp"
KEY = jax.random.PRNGKey(0)


def order(h, rows):
    for r in rows:
        for a in range(len(r)):
            for b in range(a):
                h.branch(r[b] >= r[a])


def target(h, t, K):
    return [k for k in range(K) if k == K - 1 or h.branch(t == k)][0]


def cls(n, K, masked):
    @HARNESSES(name=f"{'masked_' if masked else ''}log_prob_{n}x{K}", bounds=f"{n} inputs, {K} logits in [-3,3], every target", obl_timeout=60, decide_ite=True)
    def body(h):
        o, t = h.real("o", (n, K), -3, 3), h.int("t", (n,), 0, K - 1)
        O = h.arr(o)
        order(h, O)
        T = [target(h, x, K) for x in h.arr(t)]
        l = (ClassificationMaskedProbOutputLayer if masked else ClassificationProbOutputLayer)()
        lp = h.arr(l.log_prob(o, t))
        h.shape("one value per input", lp, (n,))
        M = h.arr(l.mean(o))
        V, S = h.arr(l.variance(o)), h.arr(l.std(o))
        for i in range(n):
            z = h.sum([h.exp(x) for x in O[i]])
            ref = O[i, T[i]] - h.log(z)
            h.eq("log-probability", [lp[i]], [0 * z if masked and T[i] == 0 else ref], tol=1e-3)
            h.check("not positive", lp[i] <= 1e-4)
            for k in range(K):
                h.eq("mean is the softmax", [M[i, k]], [h.exp(O[i, k]) / z], tol=1e-3)
                h.check("in the open unit interval", h.And(M[i, k] > 0, M[i, k] < 1 + 1e-6))
                h.eq("variance", [V[i, k]], [M[i, k] * (1 - M[i, k])], tol=1e-3)
                h.eq("squared standard deviation", [S[i, k] * S[i, k]], [V[i, k]], tol=1e-3)
            h.eq("probabilities sum to one", [h.sum(list(M[i]))], [1], tol=1e-3)


cls(1, 2, False)
cls(2, 2, False)
cls(1, 3, False)
cls(1, 3, True)


@HARNESSES(bounds="2 inputs, 3 distinct logits in [-3,3]")
def argmax_predictions(h):
    o = h.real("o", (2, 3), -3, 3)
    O = h.arr(o)
    l = ClassificationProbOutputLayer()
    for f in (l.predict, l.mode):
        r = h.arr(f(o))
        for i in range(2):
            for k in range(3):
                h.check("most probable class", h.Implies(r[i] == k, h.And([O[i, k] >= x for x in O[i]])))
            h.check("valid class", h.And(r[i] >= 0, r[i] <= 2))


@HARNESSES(bounds="1 input, 2 logits in [-3,3]", obl_timeout=60, decide_ite=True)
def classification_entropy(h):
    o = h.real("o", (1, 2), -3, 3)
    O = h.arr(o)
    order(h, O)
    l = ClassificationProbOutputLayer()
    e = h.arr(l.entropy(o))[0]
    lp = [h.arr(l.log_prob(o, jnp.array([k])))[0] for k in range(2)]
    P = h.arr(l.mean(o))[0]
    h.eq("expected surprise", [e], [-(P[0] * lp[0] + P[1] * lp[1])], tol=1e-3)
    h.check("non-negative", e >= -1e-4)


@HARNESSES(bounds="2 inputs, 3 class probabilities on the simplex, 2 draws, every uniform draw", decide_ite=False, obl_timeout=60)
def classification_sampling(h):
    p = h.real("p", (2, 3), 0, 1)
    P = h.arr(p)
    for r in P:
        h.assume_eq(h.sum(list(r)), 1)
        for x in r:
            h.assume(h.Or(x == 0, x >= 0.01))
    U = h.real("u", (2, 2), 0, F(999, 1000))
    if h.sym:
        from symx import trace as TR
        import jax._src.random as jr
        calls = []

        def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
            return U[0]
        h.patch(jax.random, "uniform", uniform)
        h.patch(jr, "uniform", uniform)
    l = ClassificationProbOutputLayer()
    s = l.sample(2, jnp.zeros((2, 3)), rng=KEY, probs=p)
    h.shape("draws x inputs", s, (2, 2))
    S = h.arr(s)
    for d in range(2):
        for i in range(2):
            h.check("valid class", h.And(S[d, i] >= 0, S[d, i] <= 2))
            for k in range(3):
                h.check("impossible classes are never drawn", h.Implies(S[d, i] == k, P[i, k] > 0))


@HARNESSES(bounds="2 inputs, 2 outputs, log-variances in [-2,2]", obl_timeout=60)
def gaussian_log_prob(h):
    o, t = h.real("o", (2, 4), -2, 2), h.real("t", (2, 2), -2, 2)
    O, T = h.arr(o), h.arr(t)
    l = RegressionProbOutputLayer()
    lp = h.arr(l.log_prob(o, t))
    ref = []
    for i in range(2):
        e = 0
        for j in range(2):
            e = e - 0.5 * h.exp(-O[i, 2 + j]) * (T[i, j] - O[i, j]) * (T[i, j] - O[i, j]) - 0.5 * O[i, 2 + j] - 0.5 * math.log(2 * math.pi)
        ref.append(e)
    h.eq("sum of Gaussian log-densities", lp, ref, tol=1e-3)
    for f in (l.mean, l.mode, l.predict):
        h.eq("location", f(o), O[:, :2])
    V = h.arr(l.variance(o))
    h.eq("variance", V, [[h.exp(O[i, 2 + j]) for j in range(2)] for i in range(2)], tol=1e-3)
    S = h.arr(l.std(o))
    v = h.real("v", (2, 2), 0, 4)
    W, Vv = h.arr(l.std(o, v)), h.arr(v)
    W2 = h.arr(ClassificationProbOutputLayer().std(o[:, :2], v))
    for i in range(2):
        for j in range(2):
            h.eq("squared standard deviation", [S[i, j] * S[i, j]], [V[i, j]], tol=1e-3)
            h.eq("given variances", [W[i, j] * W[i, j]], [Vv[i, j]], tol=1e-3)
            h.eq("given variances, classification", [W2[i, j] * W2[i, j]], [Vv[i, j]], tol=1e-3)
            h.check("non-negative", h.And(S[i, j] >= 0, W[i, j] >= 0, V[i, j] > 0))


@HARNESSES(bounds="3 draws (every noise in [-3,3]), 2 inputs, scalar target: samples, quantiles, intervals", obl_timeout=60)
def gaussian_sampling(h):
    o = h.real("o", (2, 2), -2, 2)
    O = h.arr(o)
    noise = h.real("z", (3, 2, 1), -3, 3)
    z = h.arr(noise)
    h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: noise if tuple(shape) == (3, 2, 1) else None)
    l = RegressionProbOutputLayer()
    s = h.arr(l.sample(3, o, rng=KEY))
    for d in range(3):
        for i in range(2):
            h.eq("location-scale sample", [s[d, i, 0]], [O[i, 0] + h.exp(0.5 * O[i, 1]) * z[d, i, 0]], tol=1e-3)


@HARNESSES(bounds="arbitrary samples of 4 draws, 2 inputs: quantiles, intervals, entropy estimate", obl_timeout=60)
def gaussian_summaries(h):
    o = h.real("o", (2, 2), -2, 2)
    O = h.arr(o)
    s = h.real("s", (4, 2, 1), -3, 3)
    S = h.arr(s)
    l = RegressionProbOutputLayer()
    h.patch(l, "sample", lambda *a, **k: s)
    for q in (0.25, 0.5):
        Q = h.arr(l.quantile(q, o, 4, rng=KEY))
        for i in range(2):
            h.eq("quantile of the samples", [Q[i, 0]], [spec.lin_quantile(h, S[:, i, 0], q)], tol=1e-3)
    Q = h.arr(l.quantile([0.25, 0.75], o, 4, rng=KEY))
    h.shape("list of levels", Q, (2, 2, 1))
    I = h.arr(l.credible_interval(o, 4, error=0.5, rng=KEY))
    h.shape("one interval per input", I, (2, 2))
    for i in range(2):
        h.eq("two-tailed", list(I[i]), [spec.lin_quantile(h, S[:, i, 0], 0.25), spec.lin_quantile(h, S[:, i, 0], 0.75)], tol=1e-3)
        h.check("ordered", I[i, 0] <= I[i, 1] + 1e-5)
        h.eq("quantile levels are kept in order", [Q[0, i, 0], Q[1, i, 0]], list(I[i]), tol=1e-3)
    R = h.arr(l.credible_interval(o, 4, error=0.25, interval_type="right-tailed", rng=KEY))
    L = h.arr(l.credible_interval(o, 4, error=0.25, interval_type="left-tailed", rng=KEY))
    for i in range(2):
        h.eq("right-tailed", [R[i, 0]], [spec.lin_quantile(h, S[:, i, 0], 0.75)], tol=1e-3)
        h.eq("left-tailed", [L[i, 0]], [spec.lin_quantile(h, S[:, i, 0], 0.25)], tol=1e-3)
    e = h.arr(l.entropy(o, 4, rng=KEY))
    lps = [h.arr(l.log_prob(o, s[d])) for d in range(4)]
    h.eq("entropy is minus the mean log-density of the samples", e, [-h.sum([p[i] for p in lps]) / 4 for i in range(2)], tol=1e-3)
    bad, _ = h.raises(lambda: l.credible_interval(o, 4, interval_type="upper", rng=KEY), ValueError)
    h.check("unknown interval types are refused", bad)
    w = jnp.zeros((2, 4))
    h.patch(l, "sample", lambda *a, **k: jnp.zeros((4, 2, 2)))
    bad, _ = h.raises(lambda: l.credible_interval(w, 4, rng=KEY), ValueError)
    h.check("vector targets are refused", bad)


@HARNESSES(bounds="2 inputs, 3 logits in [-3,3], log-temperature in [-1,1]", obl_timeout=60)
def temperature_classification(h):
    o, w = h.real("o", (2, 3), -3, 3), h.real("w", (1,), -1, 1)
    O, W = h.arr(o), h.arr(w)[0]
    m = OutputCalibManager(ClassificationTemperatureScaler())
    r = h.arr(m.apply(params=FrozenDict({"params": {"log_temp": w}}), outputs=o))
    h.eq("divided by the temperature", r, [[x * h.exp(-W) for x in row] for row in O], tol=1e-3)
    for i in range(2):
        for a in range(3):
            for b in range(3):
                h.check("ranking of the classes is kept", h.Implies(O[i, a] > O[i, b], r[i, a] > r[i, b]))
    init = m.init(3, rng=KEY)
    h.eq("initial temperature is one", m.apply(params=FrozenDict(init), outputs=o), O)
    h.eq("no calibrator: identity", OutputCalibManager(None).apply(params=None, outputs=o), O)


@HARNESSES(bounds="2 inputs, 2 outputs in [-3,3], log-temperature in [-1,1]", obl_timeout=60)
def temperature_regression(h):
    o, w = h.real("o", (2, 4), -3, 3), h.real("w", (1,), -1, 1)
    O, W = h.arr(o), h.arr(w)[0]
    m = OutputCalibManager(RegressionTemperatureScaler())
    r = h.arr(m.apply(params=FrozenDict({"params": {"log_temp": w}}), outputs=o))
    h.eq("means are kept", r[:, :2], O[:, :2])
    h.eq("log-variances are shifted", r[:, 2:], [[x + W for x in row[2:]] for row in O], tol=1e-3)
    h.eq("initial temperature is one", m.apply(params=FrozenDict(m.init(4, rng=KEY)), outputs=o), O)
