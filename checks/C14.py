"""Predictive distributions."""
from symx.api import Registry
import jax
import jax.numpy as jnp
import numpy as np
import math
from flax import linen as nn
from flax.core import FrozenDict

import fortuna.data.loader.base as DB
import fortuna.prob_model.predictive.base as PB
from fortuna.data.loader import DataLoader, InputsLoader
from fortuna.likelihood.classification import ClassificationLikelihood
from fortuna.likelihood.regression import RegressionLikelihood
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
from fortuna.output_calibrator.regression import RegressionTemperatureScaler
from fortuna.prob_model.joint.state import JointState
from fortuna.prob_model.predictive.classification import ClassificationPredictive
from fortuna.prob_model.predictive.regression import RegressionPredictive
from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer

HARNESSES = Registry()
STUBS = ["posterior: arbitrary sample per key (a symbolic table of outputs per posterior sample, with its own temperature); random.split yields the sample indices; jax.random.normal returns arbitrary values per key and data point; pmap over 1 or 2 emulated devices is replaced by vmap over the device axis"]
ASSUMPTIONS = ["real arithmetic instead of float32; exp and log axiomatised; the model is a table lookup (any function of the inputs); the likelihood's per-sample quantities are those decided by C13"]
OUTSIDE = "the posteriors themselves; more than 3 posterior samples, 3 inputs, 3 classes; float rounding"
KEY = jax.random.PRNGKey(0)
NP = 3      # posterior samples


class Table:
    """a model whose outputs on input i are row i of its parameters"""

    def apply(self, params, inputs, mutable=None, train=False, rng=None, **kwargs):
        return params["model"]["params"]["t"][inputs[:, 0].astype(int)] + (0 if mutable is None else mutable["model"]["s"])


class Posterior:
    """any posterior: one arbitrary joint sample per key"""

    def __init__(self, h, joint, tables, shifts, temps, n):
        self.joint, self.tables, self.shifts, self.temps, self.n = joint, tables, shifts, temps, n

    def sample(self, inputs=None, rng=None, **kwargs):
        assert inputs is not None and inputs.shape[1] == 1
        mut = None if self.shifts is None else FrozenDict(model=FrozenDict(s=self.shifts[rng]))
        cp = None if self.temps is None else FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(log_temp=self.temps[rng])))
        return JointState(params=FrozenDict(model=FrozenDict(params=FrozenDict(t=self.tables[rng]))), mutable=mut, calib_params=cp, calib_mutable=None)


class Joint:
    pass


def split(key, num=2):
    """keys are sample indices: the root key is split into 0, 1, 2...; an index stays what it is"""
    if getattr(key, "ndim", 0) == 1:
        return jnp.arange(num)
    return jnp.arange(num) if num == NP else jnp.stack([key] * num)


def setup(h, kind, n, out=2, temps=True, lo=-1, hi=1, ndev=0, m=NP, shifts=True):
    d = out if kind == "c" else 2
    t = h.real("t", (m, n, d), lo, hi)
    s = h.real("s", (m, d), -1, 1) if shifts else None
    w = h.real("w", (m, 1), -1, 1) if temps else None
    T = h.arr(t)
    f = [[[T[k, i, j] + (h.arr(s)[k, j] if shifts else 0) for j in range(d)] for i in range(n)] for k in range(m)]
    if temps:
        W = h.arr(w)[:, 0]
        f = [[[x * h.exp(-W[k]) for x in r] if kind == "c" else [r[0], r[1] + W[k]] for r in f[k]] for k in range(m)]
    j = Joint()
    ocm = OutputCalibManager((ClassificationTemperatureScaler if kind == "c" else RegressionTemperatureScaler)() if temps else None)
    j.likelihood = ClassificationLikelihood(Table(), ClassificationProbOutputLayer(), ocm) if kind == "c" else RegressionLikelihood(Table(), RegressionProbOutputLayer(), ocm)
    h.patch(jax.random, "split", split)
    if ndev or h.sym:
        h.patch(PB, "pmap", jax.vmap)
        h.patch(DB.jax_utils, "prefetch_to_device", lambda it, n: it)
    if ndev:
        h.patch(jax, "local_device_count", lambda: ndev)
        h.patch(PB, "shard_prng_key", lambda k: jnp.stack([k] * ndev))
    p = (ClassificationPredictive if kind == "c" else RegressionPredictive)(Posterior(h, j, t, s, w, n))
    return p, f


def idx(n, start=0):
    return np.arange(start, start + n, dtype="float32").reshape(n, 1)


def iloader(sizes):
    out, a = [], 0
    for s in sizes:
        out.append(idx(s, a))
        a += s
    return InputsLoader.from_callable_iterable(lambda: iter(out))


def dloader(sizes, y):
    out, a = [], 0
    for s in sizes:
        out.append((idx(s, a), y[a:a + s]))
        a += s
    return DataLoader.from_callable_iterable(lambda: iter(out))


def moments(h, kind, r):
    """mean and variance of the targets given the outputs r of one input"""
    if kind == "r":
        return [r[0]], [h.exp(r[1])]
    z = h.sum([h.exp(x) for x in r])
    P = [h.exp(x) / z for x in r]
    return P, [x * (1 - x) for x in P]


def logp(h, kind, row, t):
    if kind == "c":
        return row[int(t)] - h.log(h.sum([h.exp(x) for x in row]))
    return -0.5 * h.exp(-row[1]) * (t - row[0]) * (t - row[0]) - 0.5 * row[1] - 0.5 * math.log(2 * math.pi)


def pick(h, x, K):
    x = h.val(x)
    return [k for k in range(K) if k == K - 1 or h.branch(x == k)][0]


def order(h, f):
    for k in f[:1]:
        for r in k:
            h.branch(r[0] >= r[1])
    for k in f[1:]:
        for i, r in enumerate(k):
            h.assume(r[i % 2] >= r[1 - i % 2])


def avg(h, xs):
    return h.sum(list(xs)) / len(xs)


class MomTable:
    """a likelihood that looks means and variances of the targets up"""

    def __init__(self, real, v, D):
        self._unshard_array = real._unshard_array
        self.model_manager = real.model_manager
        self.prob_output_layer = real.prob_output_layer
        self.output_calib_manager = real.output_calib_manager
        self.v, self.D = v, D

    def row(self, params, inputs, mutable, calib_params):
        return params["model"]["params"]["t"][inputs[:, 0].astype(int)] + mutable["model"]["s"] + calib_params["output_calibrator"]["params"]["log_temp"]

    def _batched_mean(self, params, inputs, mutable=None, calib_params=None, calib_mutable=None, **kw):
        return self.row(params, inputs, mutable, calib_params)[:, :self.D]

    def _batched_variance(self, params, inputs, mutable=None, calib_params=None, calib_mutable=None, **kw):
        return self.row(params, inputs, mutable, calib_params)[:, self.D:] + self.v


def couts(kind, sizes, ndev, dist):
    @HARNESSES(name=f"calibrated_outputs_{kind}_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"{NP} posterior samples with outputs, states and log-temperatures in [-1,1], batches {sizes}, {max(ndev, 1)} device(s)", obl_timeout=60)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, kind, n, ndev=ndev)
        il = iloader(sizes)
        kw = dict(n_posterior_samples=NP, rng=KEY, distribute=dist)
        o = h.arr(p.sample_calibrated_outputs(il, n_output_samples=NP, rng=KEY, distribute=dist))
        h.eq("calibrated outputs of every posterior sample, in order", o, f, tol=2e-3)
        if kind == "r":
            h.eq("predictive mean", p.mean(il, **kw), [[avg(h, [f[k][i][0] for k in range(NP)])] for i in range(n)], tol=2e-3)
            h.eq("aleatoric variance", p.aleatoric_variance(il, **kw), [[avg(h, [h.exp(f[k][i][1]) for k in range(NP)])] for i in range(n)], tol=2e-3)


couts("c", (1, 1), 0, False)
couts("c", (2,), 2, True)
couts("r", (2, 1), 0, False)
couts("r", (2, 2), 2, True)


def mom(kind, sizes, ndev, dist):
    D = 2 if kind == "c" else 1

    @HARNESSES(name=f"moments_{kind}_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"{NP} posterior samples, every table of means in [-3,3] and variances in [1,9], batches {sizes}, {max(ndev, 1)} device(s)", obl_timeout=60)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, "r", n, ndev=ndev)
        if kind == "c":
            p.__class__ = ClassificationPredictive
            p.posterior.tables = jnp.concatenate([p.posterior.tables, 0.5 * p.posterior.tables[..., ::-1]], -1)
            p.posterior.shifts = jnp.concatenate([p.posterior.shifts] * 2, -1)
        t, s, w = (h.arr(x) for x in (p.posterior.tables, p.posterior.shifts, p.posterior.temps))
        p.likelihood = MomTable(p.likelihood, 4, D)
        M = [np.array([[t[k, i, j] + s[k, j] + w[k, 0] for j in range(D)] for i in range(n)]) for k in range(NP)]
        V = [np.array([[t[k, i, D + j] + s[k, D + j] + w[k, 0] + 4 for j in range(D)] for i in range(n)]) for k in range(NP)]
        kw = dict(n_posterior_samples=NP, rng=KEY, distribute=dist)
        il = iloader(sizes)
        mean, al, ep = h.arr(p.mean(il, **kw)), h.arr(p.aleatoric_variance(il, **kw)), h.arr(p.epistemic_variance(il, **kw))
        h.shape("mean", mean, (n, D))
        md = h.arr(p.mode(il, **kw))
        mg = h.arr(p.mode(il, means=jnp.array([[0.25, 0.75]] * n) if kind == "c" else jnp.array([[4.0]] * n), **kw)).reshape(-1)
        var, std = h.arr(p.variance(il, **kw)), h.arr(p.std(il, **kw))
        for i in range(n):
            h.eq("mode of given means", [mg[i]], [1 if kind == "c" else 4])
            for j in range(D):
                m1 = avg(h, [M[k][i, j] for k in range(NP)])
                m2 = avg(h, [M[k][i, j] * M[k][i, j] for k in range(NP)])
                a = avg(h, [V[k][i, j] for k in range(NP)])
                e = h.max([0 * m1, m2 - m1 * m1])
                h.eq("predictive mean", [mean[i, j]], [m1], tol=1e-3)
                h.eq("aleatoric variance", [al[i, j]], [a], tol=1e-3)
                h.eq("epistemic variance", [ep[i, j]], [e], tol=1e-3)
                h.check("epistemic variance not negative", ep[i, j] >= 0)
                h.eq("variance is aleatoric plus epistemic", [var[i, j]], [al[i, j] + ep[i, j]], tol=1e-3)
                h.eq("standard deviation is the root of the variance", [std[i, j]], [h.sqrt(var[i, j])], tol=1e-3)
                h.check("standard deviation not negative", std[i, j] >= 0)
            if kind == "c":
                for k in range(D):
                    h.check("mode is the most probable class", h.Implies(md[i] == k, h.And([mean[i, k] >= x for x in mean[i]])))
            else:
                h.eq("mode", list(md[i]), list(mean[i]))
        g = h.real("g", (n, D), 0, 2)
        q = h.real("q", (n, D), 0, 2)
        G, Q = h.arr(g), h.arr(q)
        v2 = h.arr(p.variance(il, aleatoric_variances=g, epistemic_variances=q, **kw))
        s2 = h.arr(p.std(il, variances=g, **kw))
        v3 = h.arr(p.variance(il, aleatoric_variances=g, **kw))
        h.eq("given variances are added", v2, [[G[i, j] + Q[i, j] for j in range(D)] for i in range(n)])
        h.eq("given aleatoric variance", v3, [[G[i, j] + ep[i, j] for j in range(D)] for i in range(n)], tol=1e-3)
        h.eq("given variance", [[s2[i, j] * s2[i, j] for j in range(D)] for i in range(n)], G)


mom("c", (1, 1), 0, False)
mom("c", (2,), 2, True)
mom("r", (2, 1), 0, False)
mom("r", (1, 2), 0, True)
mom("r", (2, 2), 2, True)


def logs(kind, sizes, ndev, dist):
    @HARNESSES(name=f"ensemble_log_prob_{kind}_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"{NP} posterior samples, outputs, states and log-temperatures in [-1,1], batches {sizes}" + ("; from the second sample on the more probable class is fixed" if kind == "c" else ""), obl_timeout=60, decide_ite=True)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, kind, n, ndev=ndev)
        if kind == "c":
            order(h, f)
        y = np.array([1, 0, 1, 1][:n]) if kind == "c" else np.array([[0.5], [-1.0], [2.0], [0.0]][:n], dtype="float32")
        T = [int(t) if kind == "c" else float(t[0]) for t in y]
        e = h.arr(p.ensemble_log_prob(dloader(sizes, y), n_posterior_samples=NP, rng=KEY, distribute=dist))
        h.shape("samples x data", e, (NP, n))
        h.eq("log-probability of every sample and data point", e, [[logp(h, kind, f[k][i], T[i]) for i in range(n)] for k in range(NP)], tol=2e-3)


logs("c", (2,), 0, False)
logs("c", (1, 1), 0, True)
logs("r", (1, 1), 0, False)
logs("r", (2,), 2, True)


class LogTable:
    """a likelihood that looks log-probabilities up: entry [input, target] of the parameters"""

    def __init__(self, real):
        self._unshard_array = real._unshard_array
        self.model_manager = real.model_manager
        self.prob_output_layer = real.prob_output_layer

    def _batched_log_prob(self, params, batch, mutable=None, calib_params=None, calib_mutable=None, **kw):
        x, y = batch
        s = mutable["model"]["s"] + calib_params["output_calibrator"]["params"]["log_temp"]
        return params["model"]["params"]["t"][x[:, 0].astype(int), y] + s[0]


def avglog(sizes, ndev, dist):
    @HARNESSES(name=f"log_prob_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"{NP} posterior samples, every log-probability in [-4,2] (from the second point on, of a fixed most probable sample), batches {sizes}", obl_timeout=60, decide_ite=True)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, "r", n, ndev=ndev)
        p.likelihood = LogTable(p.likelihood)
        t, s, w = (h.arr(x) for x in (p.posterior.tables, p.posterior.shifts, p.posterior.temps))
        y = np.array([1, 0, 1, 1][:n])
        L = [[t[k, i, y[i]] + s[k, 0] + w[k, 0] for k in range(NP)] for i in range(n)]
        for i, r in enumerate(L):
            if i:
                h.assume(h.And(r[i % NP] >= r[(i + 1) % NP], r[i % NP] >= r[(i + 2) % NP]))
            elif not h.branch(h.And(r[0] >= r[1], r[0] >= r[2])):
                h.branch(r[1] >= r[2])
        lp = h.arr(p.log_prob(dloader(sizes, y), n_posterior_samples=NP, rng=KEY, distribute=dist))
        h.shape("one value per data point", lp, (n,))
        h.eq("logarithm of the average probability", lp, [h.log(avg(h, [h.exp(x) for x in r])) for r in L], tol=2e-3)


avglog((1,), 0, False)
avglog((1, 1), 0, True)
avglog((2,), 2, True)


def smp(kind, sizes, ndev, dist, T=2):
    @HARNESSES(name=f"sample_{kind}_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"{T} target samples, outputs and log-temperatures in [-1,1], noise in [-3,3], batches {sizes}", obl_timeout=60)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, kind, n, ndev=ndev, m=T)
        noise = h.real("z", (T,), -3, 3)
        Z = h.arr(noise)
        h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: jnp.broadcast_to(noise[key], shape))
        il = iloader(sizes)
        kw = dict(n_target_samples=T, rng=KEY, distribute=dist)
        s = h.arr(p.sample(il, **kw))
        h.shape("samples x inputs", s, (T, n, 1))
        ref = np.array([[[f[d][i][0] + h.exp(0.5 * f[d][i][1]) * Z[d]] for i in range(n)] for d in range(T)], dtype=object if h.sym else float)
        h.eq("each draw uses one posterior sample for all inputs", s, ref, tol=2e-3)
        s2, aux = p.sample(il, return_aux=["outputs"], **kw)
        h.eq("the same with auxiliary outputs", s2, ref, tol=2e-3)
        h.shape("outputs", aux["outputs"], (T, n, 2))
        h.eq("auxiliary outputs", aux["outputs"], f, tol=2e-3)
        # quantiles are those of these samples
        q = h.arr(p.quantile(0.5, il, **kw))
        for i in range(n):
            h.eq("median of two samples", [q[i, 0]], [0.5 * (s[0, i, 0] + s[1, i, 0])], tol=2e-3)
        qq = h.arr(p.quantile([0.25, 1.0], il, **kw))
        h.shape("quantile x inputs", qq, (2, n, 1))
        for i in range(n):
            lo, hi = h.min([s[0, i, 0], s[1, i, 0]]), h.max([s[0, i, 0], s[1, i, 0]])
            h.eq("quantile levels in the given order", [qq[0, i, 0], qq[1, i, 0]], [0.75 * lo + 0.25 * hi, hi], tol=2e-3)


smp("r", (1, 1), 0, False)
smp("r", (2, 1), 0, True)
smp("r", (2, 2), 2, True)


@HARNESSES(bounds="2 target samples, 2 inputs, noise in [-3,3]; error 1/2; every interval type", obl_timeout=60)
def credible_intervals(h):
    T, n = 2, 2
    p, f = setup(h, "r", n, m=T, temps=False, shifts=False)
    noise = h.real("z", (T,), -3, 3)
    h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: jnp.broadcast_to(noise[key], shape))
    il = iloader((1, 1))
    kw = dict(n_target_samples=T, rng=KEY, distribute=False)
    s = h.arr(p.sample(il, **kw))
    lo, hi = [h.min([s[0, i, 0], s[1, i, 0]]) for i in range(n)], [h.max([s[0, i, 0], s[1, i, 0]]) for i in range(n)]
    c = h.arr(p.credible_interval(il, error=0.5, **kw))
    h.shape("one interval per input", c, (n, 2))
    for i in range(n):
        h.eq("two-tailed", list(c[i]), [0.75 * lo[i] + 0.25 * hi[i], 0.25 * lo[i] + 0.75 * hi[i]], tol=2e-3)
    l = h.arr(p.credible_interval(il, error=0.25, interval_type="left-tailed", **kw))
    r = h.arr(p.credible_interval(il, error=0.25, interval_type="right-tailed", **kw))
    for i in range(n):
        h.eq("left-tailed", [l[i].item()], [0.75 * lo[i] + 0.25 * hi[i]], tol=2e-3)
        h.eq("right-tailed", [r[i].item()], [0.25 * lo[i] + 0.75 * hi[i]], tol=2e-3)
    bad, _ = h.raises(lambda: p.credible_interval(il, interval_type="both", **kw), ValueError)
    h.check("unknown types are refused", bad)


def tops(h, rows):
    for r in rows:
        if not h.branch(h.And(r[0] >= r[1], r[0] >= r[2])):
            h.branch(r[1] >= r[2])


def ent_c(sizes, ndev, dist):
    @HARNESSES(name=f"entropy_c_{'_'.join(map(str, sizes))}_{f'{ndev}dev' if dist else 'local'}", bounds=f"2 classes, {NP} posterior samples, every table of log-probabilities in [-4,-1/8]" + ("" if len(sizes) == 1 else " (second input: two log-probabilities vary)"), obl_timeout=60, decide_ite=True)
    def body(h):
        n = sum(sizes)
        p, f = setup(h, "c", n, temps=False, shifts=False, ndev=ndev, lo=-4, hi=-0.125)
        # the outputs are the log-probabilities themselves
        p.likelihood.prob_output_layer.log_prob = lambda o, t, **kw: jnp.take_along_axis(o, t.astype(int)[:, None], 1)[:, 0]
        if n > 1:
            fixed = jnp.array([[-1.0, -0.5], [-0.75, -1.5], [-0.25, -2.0]])
            t = p.posterior.tables
            p.posterior.tables = jnp.concatenate([t[:, :1], jnp.concatenate([t[:1, 1:], fixed[1:, None]], 0)], 1) if n == 2 else t
        L = h.arr(p.posterior.tables)
        tops(h, [[L[k, i, c] for k in range(NP)] for i in range(n) for c in range(2)])
        il = iloader(sizes)
        kw = dict(n_posterior_samples=NP, rng=KEY, distribute=dist)
        a, e, t = h.arr(p.aleatoric_entropy(il, **kw)), h.arr(p.epistemic_entropy(il, **kw)), h.arr(p.entropy(il, **kw))
        h.shape("one value per input", a, (n,))
        for i in range(n):
            h.eq("aleatoric entropy is the average entropy", [a[i]], [-avg(h, [h.sum([h.exp(L[k, i, c]) * L[k, i, c] for c in range(2)]) for k in range(NP)])], tol=5e-3)
            h.eq("entropy is aleatoric plus epistemic", [t[i]], [a[i] + e[i]], tol=5e-3)
            lp = h.arr(jax.scipy.special.logsumexp(p.posterior.tables[:, i], axis=0) - jnp.log(NP))
            h.eq("entropy of the average probabilities", [t[i]], [-h.sum([h.exp(lp[c]) * lp[c] for c in range(2)])], tol=5e-3)


ent_c((1,), 0, False)
ent_c((1, 1), 0, True)
ent_c((2,), 2, True)


def ent_r(n, T, free):
    @HARNESSES(name=f"entropy_r_{n}_{T}", bounds=f"{n} inputs, {NP} posterior samples, {T} target samples of each; " + ("every log-density in [-4,1] with samples of the second and third most likely under their own model" if free else "log-densities of the samples of the last posterior sample at the first input in [-4,1], others listed"), obl_timeout=60, decide_ite=True)
    def body(h):
        p, f = setup(h, "r", n, temps=False, shifts=False)
        # log-density of sample d drawn from posterior sample j at input i under posterior sample k: an arbitrary table
        tab = h.real("L", (NP, T, n, NP) if free else (1, T, n, NP), -4, 1)
        if not free:
            rest = (np.arange((NP - 1) * T * n * NP).reshape(NP - 1, T, n, NP) * 5 % 16) / 8.0 - 1.5
            last = tab if n == 1 else jnp.concatenate([tab[:, :, :1], jnp.asarray(rest[:1, :, 1:], dtype="float32") + 0.5], 2)
            tab = jnp.concatenate([jnp.asarray(rest, dtype="float32"), last], 0)
        L = h.arr(tab)
        p.posterior.tables = jnp.array([[[k, i] for i in range(n)] for k in range(NP)], dtype="float32")
        lay = p.likelihood.prob_output_layer

        def sample(n_target_samples, outputs, rng=None, **kw):
            j = rng - 1       # keys 1, 2, ... draw the targets
            return j * T + jnp.arange(n_target_samples)[:, None, None] + jnp.zeros((n_target_samples, n, 1), dtype=int)

        def log_prob(o, t, **kw):
            k, i = o[..., 0].astype(int), o[..., 1].astype(int)
            t = t[..., 0]
            return tab[t // T, t % T, i, k]

        lay.sample, lay.log_prob = sample, log_prob
        for j in range(NP):
            for d in range(T):
                for i in range(n):
                    r = list(L[j, d, i])
                    if free and j:
                        h.assume(h.And([r[j] >= x for x in r]))
                    elif free or (j == NP - 1 and i == 0):
                        tops(h, [r])
        il = iloader((n,))
        kw = dict(n_posterior_samples=NP, n_target_samples=T, rng=KEY, distribute=False)
        a, e, t = h.arr(p.aleatoric_entropy(il, **kw)), h.arr(p.epistemic_entropy(il, **kw)), h.arr(p.entropy(il, **kw))
        h.shape("one value per input", a, (n,))
        for i in range(n):
            h.eq("aleatoric entropy is minus the average log-density of the samples", [a[i]], [-avg(h, [L[k, d, i, k] for k in range(NP) for d in range(T)])], tol=5e-3)
            h.eq("entropy is aleatoric plus epistemic", [t[i]], [a[i] + e[i]], tol=5e-3)
            pred = [h.val(jax.scipy.special.logsumexp(tab[j, d, i]) - jnp.log(NP)) for j in range(NP) for d in range(T)]
            h.eq("entropy is minus the average predictive log-density", [t[i]], [-avg(h, pred)], tol=5e-3)


ent_r(1, 1, True)
ent_r(2, 1, False)
ent_r(1, 2, False)


def classes(n, K, error):
    @HARNESSES(name=f"credible_set_{n}x{K}_{error}", bounds=f"{n} inputs, {K} classes, every table of average probabilities, error {error}")
    def body(h):
        p, f = setup(h, "c", n, out=K, temps=False, shifts=False)
        m = h.real("m", (n, K), 0, 1)
        M = h.arr(m)
        for r in M:
            h.assume_eq(h.sum(list(r)), 1)
            for a in range(K):
                h.assume(r[a] >= 0.01)
                for b in range(a):
                    h.assume(h.Or(r[a] - r[b] > 0.01, r[b] - r[a] > 0.01))
        p.mean = lambda **kw: m
        s = p.credible_set(iloader((n,)), error=error)
        h.check("one set per input", len(s) == n)
        for i in range(n):
            S = [pick(h, x, K) for x in s[i]]
            h.check("labels at most once", len(set(S)) == len(S) >= 1)
            inside = [M[i, k] for k in S]
            if error > 0:
                h.check("mass at least one minus the error", h.sum(inside) >= 1 - error - 1e-4)
                h.check("no smaller prefix reaches it", h.sum(inside[:-1]) <= 1 - error + 1e-4)
            else:
                h.check("everything", len(S) == K)
            for k in range(K):
                for j in S:
                    if k not in S:
                        h.check("the most probable labels", M[i, j] >= M[i, k])
            for x, z in zip(inside, inside[1:]):
                h.check("by decreasing probability", x >= z)


classes(1, 3, 0.25)
classes(2, 2, 0.25)
classes(1, 3, 0.0)


def conf(n_test, n_train, K, error, npost, quick=True):
    part = npost > 1
    @HARNESSES(name=f"conformal_set_{n_test}_{n_train}_{K}_{error}", bounds=f"{n_train} training and {n_test} test points, {K} classes, {npost} posterior samples, every likelihood in [1/8,1], error {error}" + (" (fixed likelihoods of the second label and the second training point)" if part else ""), obl_timeout=60, quick=quick)
    def body(h):
        p, f = setup(h, "c", max(n_test, n_train), out=K, temps=False, shifts=False)
        lik = h.real("lik", (npost, n_train + n_test * K), 0.125, 1)
        if part:
            lik = jnp.concatenate([lik[:, :1], jnp.array([[0.75], [0.25]]), lik[:, 2:3], jnp.array([[0.25], [0.875]])], 1)
        E = h.arr(lik)
        lp = jnp.log(lik)
        seen = []

        def ens(data_loader, **kw):
            seen.append([(np.asarray(x), np.asarray(y)) for x, y in data_loader])
            return lp

        p.ensemble_log_prob = ens
        y = (np.arange(n_train) % K).astype("int32")
        train = dloader((n_train,), y)
        s = p.conformal_set(train, iloader((n_test,)), n_posterior_samples=npost, error=error)
        X = np.concatenate([a for a, _ in seen[0]])[:, 0].tolist()
        Y = np.concatenate([b for _, b in seen[0]]).tolist()
        h.check("training data first, then the test inputs with every label", (X, Y) == (list(range(n_train)) + list(range(n_test)) * K, list(y) + [c for c in range(K) for _ in range(n_test)]))
        for i in range(n_test):
            S = [pick(h, x, K) for x in s[i]]
            h.check("labels at most once", len(set(S)) == len(S))
            for c in range(K):
                w = [E[k][n_train + c * n_test + i] for k in range(npost)]      # importance weights: the likelihood of the added point
                W = h.sum(w)
                test = h.sum([x * x for x in w])
                tr = [h.sum([w[k] * E[k][a] for k in range(npost)]) for a in range(n_train)]
                for slack in (-1e-3, 1e-3):
                    rank = 1 + h.count([x <= test + slack * W for x in tr])
                    if slack < 0:
                        h.check("a label whose rank is surely above the level belongs to the set", h.Implies(rank > error * (n_train + 1), c in S))
                    else:
                        h.check("a label of the set has a rank above the level", h.Implies(c in S, rank > error * (n_train + 1)))


conf(1, 2, 2, 0.4, 1)
conf(1, 2, 2, 0.5, 2)
conf(2, 2, 2, 0.7, 1)


@HARNESSES(bounds="every key, 2 samples", seconds=60)
def plumbing(h):
    """default keys, unknown auxiliary objects"""
    p, f = setup(h, "r", 1, temps=False, shifts=False)
    bad, _ = h.raises(lambda: p._batched_log_joint_prob((idx(1), np.zeros((1, 1))), 2, return_aux=["foo"], rng=KEY), Exception)
    h.check("unknown auxiliary objects are refused", bad)


def ljoint(given, calib):
    @HARNESSES(name=f"loss{'_given' if given else ''}{'_calib' if calib else ''}", bounds=f"calibration loss: {NP} posterior samples, every joint log-probability and calibration parameter in [-2,2]", obl_timeout=60, decide_ite=True)
    def body(h):
        p, f = setup(h, "r", 2, temps=True, shifts=True, lo=-2, hi=2)
        w = h.real("cw", (1,), -2, 2)
        t, s, q = (h.arr(x) for x in (p.posterior.tables, p.posterior.shifts, p.posterior.temps))
        own = FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(log_temp=w)))
        p.posterior.state = type("S", (), dict(extract_calib_keys=lambda self: dict(calib_params=own, calib_mutable=None)))()

        def joint(params, batch, n_data, mutable=None, return_aux=[], outputs=None, calib_params=None, calib_mutable=None, **kw):
            if outputs is None:
                outputs = params["model"]["params"]["t"] + mutable["model"]["s"]
            c = calib_params["output_calibrator"]["params"]["log_temp"][0]
            v = outputs[0, 0] + c * n_data
            return (v, dict(outputs=outputs + c)) if len(return_aux) else v

        p.likelihood = type("L", (), dict(_batched_log_joint_prob=staticmethod(joint)))()
        W = h.arr(w)[0]
        o = [[[t[k, i, j] + s[k, j] for j in range(2)] for i in range(2)] for k in range(NP)]
        c = [W if calib or given else q[k, 0] for k in range(NP)]
        L = [o[k][0][0] + 3 * c[k] for k in range(NP)]
        tops(h, [L])
        kw = dict(n_posterior_samples=NP, rng=KEY, calib_params=own if calib else None, ensemble_outputs=(p.posterior.tables + p.posterior.shifts[:, None]) if given else None)
        l, aux = p._batched_negative_log_joint_prob((idx(2), np.zeros((2, 1))), 3, return_aux=["outputs"], **kw)
        l2 = p._batched_negative_log_joint_prob((idx(2), np.zeros((2, 1))), 3, return_aux=[], **kw)
        h.eq("minus the logarithm of the average", [h.val(l)], [-h.log(avg(h, [h.exp(x) for x in L]))], tol=2e-3)
        h.eq("same without auxiliary objects", [h.val(l)], [h.val(l2)], tol=1e-3)
        h.eq("average calibrated outputs", aux["outputs"], [[avg(h, [o[k][i][j] + c[k] for k in range(NP)]) for j in range(2)] for i in range(2)], tol=2e-3)


for g in (False, True):
    for c in (False, True):
        ljoint(g, c)
