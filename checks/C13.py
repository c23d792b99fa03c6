"""Likelihood, joint and prior."""
from symx.api import Registry
import jax
import jax.numpy as jnp
import numpy as np
import math
from flax import linen as nn
from flax.core import FrozenDict

from fortuna.data.loader import DataLoader, InputsLoader
from fortuna.likelihood.classification import ClassificationLikelihood
from fortuna.likelihood.regression import RegressionLikelihood
from fortuna.model.model_manager.classification import ClassificationModelManager
from fortuna.model.model_manager.regression import RegressionModelManager
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
from fortuna.output_calibrator.regression import RegressionTemperatureScaler
from fortuna.prob_model.joint.base import Joint
from fortuna.prob_model.prior.gaussian import DiagonalGaussianPrior, IsotropicGaussianPrior
from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
import fortuna.likelihood.base as LB

HARNESSES = Registry()
STUBS = ["pmap over one device is replaced by vmap over the device axis, prefetch_to_device by the identity; jax.random.normal returns arbitrary values"]
ASSUMPTIONS = ["real arithmetic instead of float32; exp and log axiomatised; one dense layer as the model, concrete inputs"]
OUTSIDE = "other models; several devices; more than 3 data points, 2 outputs; float rounding"
KEY = jax.random.PRNGKey(0)
X = np.array([[1.0, 0.5], [-0.5, 2.0], [0.25, -1.0]], dtype="float32")


class Lin(nn.Module):
    out: int = 2

    @nn.compact
    def __call__(self, x, train=False, **kwargs):
        return nn.Dense(self.out)(x)


def lin_params(h, name, out, lo=-1, hi=1):
    k, b = h.real(name + "_k", (2, out), lo, hi), h.real(name + "_b", (out,), lo, hi)
    K, B = h.arr(k), h.arr(b)
    f = [[float(x[0]) * K[0, j] + float(x[1]) * K[1, j] + B[j] for j in range(out)] for x in X]
    return FrozenDict({"params": {"Dense_0": {"kernel": k, "bias": b}}}), f, [*B, *K.reshape(-1)]


def devices(h):
    if h.sym:
        import fortuna.data.loader.base as DB
        h.patch(LB, "pmap", jax.vmap)
        h.patch(DB.jax_utils, "prefetch_to_device", lambda it, n: it)


def make(h, kind, calib):
    if kind == "c":
        p, f, flat = lin_params(h, "m", 2)
        params = FrozenDict(model=p)
        lik = ClassificationLikelihood(ClassificationModelManager(Lin(2)), ClassificationProbOutputLayer(),
                                       OutputCalibManager(ClassificationTemperatureScaler() if calib else None))
    else:
        p, f, flat = lin_params(h, "m", 1)
        q, g, flat2 = lin_params(h, "v", 1)
        f = [a + b for a, b in zip(f, g)]
        params = FrozenDict(model=p, lik_log_var=q)
        flat = flat2 + flat      # ravel order of the keys lik_log_var < model
        lik = RegressionLikelihood(RegressionModelManager(Lin(1), Lin(1)), RegressionProbOutputLayer(),
                                   OutputCalibManager(RegressionTemperatureScaler() if calib else None))
    cp = None
    if calib:
        w = h.real("w", (1,), -1, 1)
        W = h.arr(w)[0]
        cp = FrozenDict(output_calibrator=FrozenDict({"params": {"log_temp": w}}))
        f = [[x * h.exp(-W) for x in r] for r in f] if kind == "c" else [[r[0], r[1] + W] for r in f]
    return lik, params, cp, f, flat


def logp(h, kind, row, t):
    if kind == "c":
        return row[int(t)] - h.log(h.exp(row[0]) + h.exp(row[1]))
    return -0.5 * h.exp(-row[1]) * (t - row[0]) * (t - row[0]) - 0.5 * row[1] - 0.5 * math.log(2 * math.pi)


def order(h, f):
    for r in f:
        h.branch(r[0] >= r[1])


def loader(sizes, ys=None):
    out, a = [], 0
    for s in sizes:
        out.append((X[a:a + s], ys[a:a + s]) if ys is not None else X[a:a + s])
        a += s
    return (DataLoader if ys is not None else InputsLoader).from_callable_iterable(lambda: iter(out))


def batch_joint(kind, n, calib):
    @HARNESSES(name=f"joint_{kind}_{n}{'_cal' if calib else ''}", bounds=f"dense layer with every weight in [-1,1], {n} data points, n_data {5 if n < 3 else 12}, {'log-temperature in [-1,1]' if calib else 'no calibration'}, prior log-variance 0.7", obl_timeout=60, decide_ite=True)
    def body(h):
        lik, params, cp, f, flat = make(h, kind, calib)
        f = f[:n]
        N = 5 if n < 3 else 12
        if kind == "c":
            order(h, f)
            T = [1, 0, 1][:n]
            y = np.array(T)
        else:
            y = h.real("y", (n, 1), -2, 2)
            T = list(h.arr(y)[:, 0])
        ll = h.sum([logp(h, kind, r, t) for r, t in zip(f, T)])
        got = h.val(lik._batched_log_joint_prob(params, (X[:n], y), N, calib_params=cp))
        h.eq("data size over batch size times the sum of log-probabilities", [got], [N / n * ll], tol=5e-3)
        prior = IsotropicGaussianPrior(log_var=0.7)
        j = Joint(prior, lik)
        lp = h.val(prior.log_joint_prob(params))
        a = h.val(j._batched_log_joint_prob(params, (X[:n], y), N, calib_params=cp))
        h.eq("joint is likelihood plus prior", [a], [got + lp], tol=5e-3)
        b, aux = j._batched_negative_log_joint_prob(params, (X[:n], y), N, calib_params=cp, return_aux=["outputs"])
        h.eq("negative joint", [h.val(b)], [-a], tol=5e-3)
        h.eq("calibrated outputs are returned", aux["outputs"], f, tol=2e-3)
        raw = lik.model_manager.apply(params, X[:n])
        c = h.val(lik._batched_log_joint_prob(params, (X[:n], y), N, calib_params=cp, outputs=raw))
        h.eq("given outputs replace the forward pass", [c], [got], tol=5e-3)


batch_joint("c", 1, False)
batch_joint("c", 2, False)
batch_joint("c", 2, True)
batch_joint("r", 1, False)
batch_joint("r", 3, False)
batch_joint("r", 2, True)


def loops(kind, sizes, dist):
    @HARNESSES(name=f"loader_{kind}_{'_'.join(map(str, sizes))}{'_dist' if dist else ''}", bounds=f"dense layer with every weight in [-1,1], log-temperature in [-1,1], batches of {sizes}, distribute={dist}", obl_timeout=60, decide_ite=True)
    def body(h):
        if dist:
            devices(h)
        lik, params, cp, f, flat = make(h, kind, True)
        n = sum(sizes)
        f = f[:n]
        if kind == "c":
            order(h, f)
        y = np.array([1, 0, 1][:n]) if kind == "c" else np.array([[0.5], [-1.0], [2.0]][:n], dtype="float32")
        kw = dict(calib_params=cp, distribute=dist)
        il, dl = loader(sizes), loader(sizes, y)
        h.eq("outputs in the order of the loader", lik.get_calibrated_outputs(params, il, **kw), f, tol=2e-3)
        lp = h.arr(lik.log_prob(params, dl, **kw))
        h.eq("log-probability of every data point in order", lp, [logp(h, kind, r, t if kind == "c" else float(t[0])) for r, t in zip(f, y)], tol=2e-3)
        m, v, s = h.arr(lik.mean(params, il, **kw)), h.arr(lik.variance(params, il, **kw)), h.arr(lik.std(params, il, **kw))
        md = h.arr(lik.mode(params, il, **kw))
        for i in range(n):
            if kind == "c":
                z = h.exp(f[i][0]) + h.exp(f[i][1])
                P = [h.exp(f[i][k]) / z for k in range(2)]
                h.eq("class probabilities", list(m[i]), P, tol=2e-3)
                h.eq("variances", list(v[i]), [p * (1 - p) for p in m[i]], tol=2e-3)
                for k in range(2):
                    h.check("mode is the most probable class", h.Implies(md[i] == k, f[i][k] >= f[i][1 - k] - 1e-3))
            else:
                h.eq("mean", list(m[i]), [f[i][0]], tol=2e-3)
                h.eq("mode", list(md[i]), [f[i][0]], tol=2e-3)
                h.eq("variance", list(v[i]), [h.exp(f[i][1])], tol=2e-3)
            for k in range(len(s[i])):
                h.eq("squared standard deviation", [s[i, k] * s[i, k]], [v[i, k]], tol=2e-3)
                h.check("standard deviation not negative", s[i, k] >= 0)
        u = h.real("u", (n, 1), 0, 4)
        S, U = h.arr(lik.std(params, il, variance=u, **kw)), h.arr(u)
        for i in range(n):
            h.eq("given variances", [S[i, 0] * S[i, 0]], [U[i, 0]])


loops("c", (2,), False)
loops("c", (1, 1), True)
loops("r", (2, 1), False)
loops("r", (2, 1), True)


@HARNESSES(bounds="2 data points, every weight in [-1,1]", obl_timeout=60, decide_ite=True)
def entropy_classification(h):
    lik, params, cp, f, flat = make(h, "c", True)
    f = f[:2]
    order(h, f)
    e = h.arr(lik.entropy(params, loader((1, 1)), calib_params=cp, distribute=False))
    for i in range(2):
        lp = [logp(h, "c", f[i], k) for k in range(2)]
        z = h.exp(f[i][0]) + h.exp(f[i][1])
        h.eq("expected surprise", [e[i]], [-h.sum([h.exp(f[i][k]) / z * lp[k] for k in range(2)])], tol=2e-3)


@HARNESSES(bounds="2 data points, 2 draws with every noise in [-3,3], every weight in [-1,1]", obl_timeout=60)
def sampling_regression(h):
    lik, params, cp, f, flat = make(h, "r", True)
    f = f[:2]
    noise = h.real("z", (2, 2, 1), -3, 3)
    Z = h.arr(noise)
    h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: noise if tuple(shape) == (2, 2, 1) else None)
    il = loader((1, 1))
    s, aux = lik.sample(2, params, il, calib_params=cp, return_aux=["outputs"], rng=KEY, distribute=False)
    S = h.arr(s)
    h.eq("outputs", aux["outputs"], f, tol=2e-3)
    ref = np.array([[[f[i][0] + h.exp(0.5 * f[i][1]) * Z[d, i, 0]] for i in range(2)] for d in range(2)], dtype=object if h.sym else float)
    h.eq("targets are drawn around the calibrated outputs", S, ref, tol=2e-3)
    h.eq("the same batch by batch", lik._batched_sample(2, params, X[:2], calib_params=cp, rng=KEY), ref, tol=2e-3)
    q = h.arr(lik.quantile(0.5, target_samples=s))
    for i in range(2):
        h.eq("median of two samples", [q[i, 0]], [0.5 * (S[0, i, 0] + S[1, i, 0])], tol=2e-3)
    h.eq("quantile draws its own samples", lik.quantile(0.5, params, il, calib_params=cp, n_target_samples=2, rng=KEY, distribute=False), q, tol=2e-3)
    e = h.arr(lik.entropy(params, il, calib_params=cp, n_target_samples=2, rng=KEY, distribute=False))
    for i in range(2):
        h.eq("entropy is minus the mean log-density", [e[i]], [-0.5 * (logp(h, "r", f[i], S[0, i, 0]) + logp(h, "r", f[i], S[1, i, 0]))], tol=5e-3)


@HARNESSES(bounds="parameters in a nested tree of 2+1+3 values, log-variance in [-2,2] (isotropic: every listed value), every noise in [-3,3]", obl_timeout=60)
def priors(h):
    a, b, c = h.real("a", (2, 1), -3, 3), h.real("b", (1,), -3, 3), h.real("c", (3,), -3, 3)
    tree = FrozenDict(z=FrozenDict(y=a, x=b), k=c)
    flat = [*h.arr(c), *h.arr(b), *h.arr(a).reshape(-1)]      # sorted keys
    lv = h.real("lv", (6,), -2, 2)
    LV = h.arr(lv)
    noise = h.real("n", (6,), -3, 3)
    N = h.arr(noise)
    h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: noise if tuple(shape) == (6,) else None)
    d = DiagonalGaussianPrior(lv)
    ref = h.sum([-0.5 * (h.exp(-v) * x * x + math.log(2 * math.pi) + v) for v, x in zip(LV, flat)])
    h.eq("diagonal Gaussian log-density", [h.val(d.log_joint_prob(tree))], [ref], tol=5e-3)

    def leaves(t):
        return [*h.arr(t["k"]), *h.arr(t["z"]["x"]), *h.arr(t["z"]["y"]).reshape(-1)]

    s = d.sample(tree, rng=KEY)
    h.shape("structure is kept", s["z"]["y"], (2, 1))
    h.eq("diagonal sample", leaves(s), [h.exp(0.5 * v) * x for v, x in zip(LV, N)], tol=2e-3)
    for w in (0.0, 1.5, -1.0):
        p = IsotropicGaussianPrior(w)
        ref = h.sum([-0.5 * (math.exp(-w) * x * x + math.log(2 * math.pi) + w) for x in flat])
        h.eq("isotropic Gaussian log-density", [h.val(p.log_joint_prob(tree))], [ref], tol=5e-3)
        h.eq("isotropic sample", leaves(p.sample(tree, rng=KEY)), [math.exp(0.5 * w) * x for x in N], tol=2e-3)


@HARNESSES(bounds="every unsupported combination of the auxiliary arguments", seconds=120)
def refused_arguments(h):
    lik, params, cp, f, flat = make(h, "c", False)
    y = np.array([1])
    b = (X[:1], y)
    mut = FrozenDict(model=FrozenDict(batch_stats={}))
    for kw, e in ((dict(return_aux=["foo"]), AttributeError), (dict(return_aux=["outputs", "foo"]), AttributeError),
                  (dict(train=True, outputs=jnp.zeros((1, 2))), ValueError),
                  (dict(return_aux=["mutable"], train=False, mutable=mut), ValueError), (dict(return_aux=["mutable"], train=True), ValueError),
                  (dict(mutable=mut, train=True), ValueError), (dict(return_aux=["mutable"], mutable=mut, outputs=jnp.zeros((1, 2))), ValueError)):
        bad, _ = h.raises(lambda: lik._batched_log_joint_prob(params, b, 12, **kw), e)
        h.check("refused", bad)
    for fn in (lambda: lik.sample(2, params, loader((1,)), return_aux=["foo"], rng=KEY, distribute=False), lambda: lik._batched_sample(2, params, X[:1], return_aux=["foo"], rng=KEY)):
        bad, _ = h.raises(fn, Exception)
        h.check("refused", bad)
    l, aux = lik._batched_log_joint_prob(params, b, 12, return_aux=["outputs", "calib_mutable"])
    h.eq("outputs", aux["outputs"], f[:1])
    h.check("no calibration state", aux["calib_mutable"]["output_calibrator"] is None)
