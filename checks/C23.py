"""ADVI: the flow, its objective, the fitted factors and the draws."""
from symx.api import Registry
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict, freeze

from fortuna.data.loader import DataLoader
from fortuna.distribution.gaussian import DiagGaussian
from fortuna.prob_model.fit_config.base import FitConfig
from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
from fortuna.prob_model.fit_config.monitor import FitMonitor
from fortuna.prob_model.fit_config.optimizer import FitOptimizer
from fortuna.prob_model.fit_config.processor import FitProcessor
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_approximator import ADVIPosteriorApproximator
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_architecture import ADVIArchitecture
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_posterior import ADVIPosterior
from fortuna.utils.random import RandomNumberGenerator
from symx.fort import Disk, quiet, stub_joint

HARNESSES = Registry()
STUBS = ["the joint distribution is a stub with a harness-chosen gradient per step; standard normal draws are arbitrary; checkpoints are real files whose content is kept in memory"]
ASSUMPTIONS = ["real arithmetic; the exponential satisfies its axioms"]
OUTSIDE = "float rounding, several devices, more than 2 steps, 2 draws per step, 3 arrays (12 for the order of the arrays)"
LR = 0.5
PATHS = [("model", "params", "d", "kernel"), ("model", "params", "d", "bias"), ("model", "params", "a", "w")]
MANY = [("model", "params", f"l{i}", "w") for i in range(1, 13)]


def tree(vals):
    out = {}
    for p, v in vals:
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = v
    return freeze(out)


def leaf(d, path):
    for k in path:
        d = d[k]
    return d


def config(kept=(), n_epochs=1, **ck):
    fz = (lambda path, v: "frozen" if tuple(path) in kept else "trainable") if kept else None
    return FitConfig(optimizer=FitOptimizer(method=optax.sgd(LR), n_epochs=n_epochs, freeze_fun=fz), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True),
                     processor=FitProcessor(devices=0, disable_jit=True), checkpointer=FitCheckpointer(**ck))


def loader(n):
    return DataLoader.from_callable_iterable(lambda: iter([(jnp.zeros((1, 1)), jnp.full((1, 1), float(i))) for i in range(n)]))


@HARNESSES(name="flow", bounds="2 points in dimension 3, every mean, log standard deviation and point in [-2,2]")
def flow(h):
    a = ADVIArchitecture(3)
    m, s, u = h.real("m", (3,), -2, 2), h.real("s", (3,), -2, 2), h.real("u", (2, 3), -2, 2)
    p = dict(mean=m, log_std=s)
    v, l = a.forward(p, u)
    M, S, U = h.arr(m), h.arr(s), h.arr(u)
    h.eq("forward", v, [[M[i] + h.exp(S[i]) * U[n, i] for i in range(3)] for n in range(2)], tol=1e-3)
    h.eq("log-determinant", l, [h.sum(list(S))] * 2, tol=1e-3)
    w, lb = a.backward(p, v)
    h.eq("backward undoes forward", w, U, tol=1e-2)
    h.eq("log-determinants cancel", h.arr(lb) + h.arr(l), [0, 0], tol=1e-3)


@HARNESSES(name="base", bounds="a diagonal Gaussian in dimension 2, means in [-2,2], standard deviations in [0.5,2], every draw")
def base(h):
    m, s, z = h.real("m", (2,), -2, 2), h.real("s", (2,), 0.5, 2), h.real("z", (3, 2), -3, 3)
    h.patch(jax.random, "normal", lambda key, shape=(), dtype=None: z if tuple(shape) == (3, 2) else None)
    d = DiagGaussian(mean=m, std=s)
    x = d.sample(jax.random.PRNGKey(0), 3)
    M, S, Z = h.arr(m), h.arr(s), h.arr(z)
    h.eq("draws", x, [[M[i] + S[i] * Z[n, i] for i in range(2)] for n in range(3)], tol=1e-3)
    q = h.real("q", (3, 2), -2, 2)
    Q = h.arr(q)
    lp = d.log_joint_prob(q)
    h.shape("one log-density per point", lp, (3,))
    for n in range(3):
        h.eq("log-density", h.arr(lp)[n], h.sum([-((Q[n, i] - M[i]) / S[i]) * ((Q[n, i] - M[i]) / S[i]) / 2 - h.log(S[i]) - 0.5 * float(np.log(2 * np.pi)) for i in range(2)]), tol=1e-3)


class Noise:
    """every call of jax.random.normal gets the next, arbitrary array"""

    def __init__(self, h, lo=-2, hi=2):
        self.h, self.zs, self.keys, self.lo, self.hi = h, [], [], lo, hi
        h.patch(jax.random, "normal", self)

    def __call__(self, key, shape=(), dtype=None):
        z = self.h.real(f"z{len(self.zs)}", tuple(shape), self.lo, self.hi)
        self.zs.append(z)
        self.keys.append(tuple(np.asarray(key).tolist()))
        return z


def fit(name, paths, kept=(), pre=False, disk=False, again=None, n_steps=1, n_samples=1, sizes=None, load=False):
    sizes = sizes or (1,) * len(paths)
    what = f"{len(paths)} arrays ({len(kept)} frozen){', from a preliminary MAP run' if pre else ''}{', restored from its checkpoint' if disk else ''}{', continued from ' + again if again else ''}"

    @HARNESSES(name=name, bounds=f"{what}; {n_steps} steps of {n_samples} draws; every initialisation, gradient and draw in [-2,2]", seconds=300, obl_timeout=30)
    def body(h):
        quiet(h)
        D = sum(sizes)
        off = dict(zip(paths, np.cumsum([0] + list(sizes))[:-1]))
        w = {p: h.real("w_" + "_".join(p[2:]), (s,), -2, 2) for p, s in zip(paths, sizes)}
        runs = (1 if pre else 0) + n_steps * (2 if again else 1)
        g = h.real("g", (runs, D), -2, 2)
        log = []

        def loss(params, batch, n_data, train):
            t = len(log)
            log.append((n_data, train))
            return sum(jnp.sum(leaf(params, p) * g[t, off[p]:off[p] + s]) for p, s in zip(paths, sizes))

        joint = stub_joint(lambda: tree([(p, w[p]) for p in paths]), loss)
        lb = 0.25
        post = ADVIPosterior(joint, ADVIPosteriorApproximator(n_loss_samples=n_samples, log_std_base=lb, std_init_params=0.125))
        post.rng = RandomNumberGenerator(0)
        z = Noise(h)
        with Disk(h) as disk_:
            ck = dict(save_checkpoint_dir=disk_.path("s"), dump_state=True) if disk else {}
            post.fit(loader(n_steps), fit_config=config(kept, **ck), map_fit_config=FitConfig(optimizer=FitOptimizer(method=optax.sgd(LR), n_epochs=1), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True), processor=FitProcessor(devices=0, disable_jit=True)) if pre else None)
            orders = [layout(post, [p for p in paths if p not in kept], sizes, paths)] * len(z.zs)
            if again:
                post.joint.init = None
                kw = dict(restore_checkpoint_path=disk_.path("s")) if again == "a checkpoint" else dict(start_from_current_state=True)
                post.fit(loader(n_steps), fit_config=config(kept, **kw))
                orders += [layout(post, [p for p in paths if p not in kept], sizes, paths)] * (len(z.zs) - len(orders))
            n_fit = len(z.zs)
            if load:
                post = ADVIPosterior(joint, ADVIPosteriorApproximator(n_loss_samples=n_samples, log_std_base=lb))
                post.rng = RandomNumberGenerator(1)
                post.load_state(disk_.path("s"))
            st, s = post.state.get(), post.sample().params
        free = [p for p in paths if p not in kept]
        n_free = sum(sizes[paths.index(p)] for p in free)
        h.check("one pass per batch on the negative log-joint of all data", len(log) == runs and all(k == (n_steps, True) for k in log), f"{log}")
        # two draws of the initial standard deviations are asked for only when there are none yet
        zs = [h.arr(v) for v in z.zs[:n_fit]]
        inits = [v for v in zs if v.ndim == 1]
        us, uo = [v for v in zs if v.ndim == 2], [o for v, o in zip(zs, orders) if v.ndim == 2]
        h.check("draws while fitting", len(inits) == 1 and len(us) == runs - (1 if pre else 0) and inits[0].shape == (n_free,) and all(u.shape == (n_samples, n_free) for u in us), f"{[v.shape for v in zs]}")
        h.check("every draw with its own key", len(set(z.keys)) == len(z.keys), f"{z.keys}")
        G = h.arr(g)
        # a run lists the arrays in one order in all of its draws; which one is the implementation's choice
        last = layout(post, free, sizes, paths)
        final = h.arr(z.zs[-1])
        h.check("one draw of the posterior", len(z.zs) == n_fit + 1 and final.shape == (1, n_free), f"{final.shape}")
        sb = h.arr(jnp.exp(jnp.asarray([lb], dtype="float32")))[0]
        for p in paths:
            n = sizes[paths.index(p)]
            for i in range(n):
                m = h.arr(w[p])[i]
                t = 0
                if pre:
                    m = m - LR * G[0, off[p] + i]
                    t = 1
                if p in kept:
                    h.eq("frozen arrays stay", h.arr(leaf(s, p))[i], m, tol=1e-3)
                    h.eq("frozen arrays stay in the state", h.arr(leaf(st.params, p))[i], m, tol=1e-3)
                    continue
                l = 0.125 * inits[0][orders[0][p] + i]
                for k in range(len(us)):
                    j = uo[k][p] + i
                    gr = G[t + k, off[p] + i]
                    e = h.exp(l)
                    dl = e * h.sum([gr * (1 / n_samples) * (sb * us[k][q, j]) for q in range(n_samples)]) - 1
                    m = m - LR * gr
                    l = l - LR * dl
                h.eq("mean of the factor", h.arr(factor(st.params, p, "mean", kept))[i], m, tol=1e-3)
                h.eq("log standard deviation of the factor", h.arr(factor(st.params, p, "log_std", kept))[i], l, tol=1e-3)
                h.eq("drawn from the factor of the array", h.arr(leaf(s, p))[i], h.arr(factor(st.params, p, "mean", kept))[i] + h.exp(h.arr(factor(st.params, p, "log_std", kept))[i]) * sb * final[0, last[p] + i], tol=1e-3)
            h.shape("shape", leaf(s, p), (n,))


def factor(params, path, which, frozen):
    """with frozen arrays every trainable array is a pair, otherwise every model has a tree of means and one of log standard deviations"""
    if frozen:
        return leaf(params, path)[which]
    return leaf(params[path[0]]["params"][which], path[2:])


def layout(post, free, sizes, paths):
    """where the flattened vector of the flow lists each array"""
    t = post._unravel(jnp.arange(float(sum(sizes[paths.index(p)] for p in free))))
    return {p: int(round(float(np.asarray(leaf(t, p)).ravel()[0]))) for p in free}


fit("fit", PATHS, sizes=(2, 1, 1), n_samples=2)
fit("fit_2_steps", PATHS[:2], n_steps=2)
fit("fit_map", PATHS, pre=True)
fit("fit_frozen", PATHS, kept=PATHS[2:], sizes=(1, 2, 1))
fit("fit_frozen_map", PATHS, kept=PATHS[:1], pre=True, n_samples=2)
fit("fit_disk", PATHS, disk=True, load=True)
fit("fit_frozen_disk", PATHS, kept=PATHS[2:], disk=True, load=True)
fit("fit_frozen_disk_map", PATHS, kept=PATHS[1:2], pre=True, disk=True, load=True)
fit("fit_many_frozen_disk", MANY, kept=MANY[3:4], disk=True, load=True)
fit("fit_continued", PATHS, again="the current state")
fit("fit_continued_frozen", PATHS, kept=PATHS[2:], again="the current state")
fit("fit_continued_frozen_disk", PATHS, kept=PATHS[2:], disk=True, again="a checkpoint")
fit("fit_continued_disk", PATHS, disk=True, again="a checkpoint")
